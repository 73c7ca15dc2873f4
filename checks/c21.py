"""C21: results do not depend on the memory layout or integer type of arrays."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import raw_common as rc
from checks import sparse_common as sc
from checks.c05 import small
from vp.core import Reject, Sub, check

PROPERTY = 'C21'
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'transposed', 'read-only', 'embedded', 'broadcast']


def layout(a, how):
    """An array with the values of a and another memory layout."""
    a = np.asarray(a)
    if how == 'C':
        return np.array(a, order='C')
    if how == 'F':
        return np.array(a, order='F')
    if how == 'transposed':
        # Axes in a mixed order
        p = list(range(1, a.ndim)) + [0]
        x = np.array(np.transpose(a, p), order='C')
        return np.transpose(x, np.argsort(p))
    if how == 'reversed':
        idx = (slice(None, None, -1),) * a.ndim
        return np.array(a[idx], order='C')[idx]
    if how in ('strided', 'embedded'):
        junk = 77 if a.dtype.kind != 'O' else None
        step = 2 if how == 'strided' else 1
        big = np.full([n * step + 3 for n in a.shape], junk, dtype=a.dtype)
        idx = tuple(slice(1, 1 + n * step, step) for n in a.shape)
        big[idx] = a
        return big[idx]
    if how == 'broadcast':
        # Strides of zero, where the values allow it
        if a.dtype.kind != 'O' and a.ndim and a.shape[0] > 1 and (a == a[:1]).all():
            return np.broadcast_to(np.array(a[:1]), a.shape)
        x = np.array(a, order='F')
        x.flags.writeable = False
        return x
    x = np.array(a, order='C')
    x.flags.writeable = False
    return x


def types_for(a, kind):
    """Types which hold the values"""
    hi = int(a.max()) if a.size else 0
    out = []
    names = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'int64', 'uint64', '>u2', '>u4', '>i8',
             '<u4']
    for n in names:
        if hi <= np.iinfo(np.dtype(n)).max:
            out.append(n)
    return out


def pick(options, k):
    return options[k % len(options)]


@st.composite
def array_spec(draw):
    return [draw(st.sampled_from(LAYOUTS)), draw(st.integers(0, 59))]


# --- Raw frames --------------------------------------------------------------

RAW = ['stem array', 'stem reader', 'radial', 'average', 'maximum', 'count', 'save', 'histogram', 'com_dense']


@st.composite
def raw_cases(draw):
    h, w = draw(st.sampled_from([[5, 9], [9, 5], [8, 8], [24, 40], [40, 24], [32, 32], [1, 12], [12, 2]]))
    W, H = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    what = draw(st.sampled_from(RAW + ['count', 'count', 'maximum']))
    n = draw(st.integers(1, W * H))
    return {'what': what, 'h': h, 'w': w, 'W': W, 'H': H, 'n': n, 'shuffle': draw(st.booleans()),
            'kind': draw(st.sampled_from(['background', 'background', 'same rows', 'same', 'tiny'])),
            'seed': draw(st.integers(0, 2**16)), 'block': draw(st.sampled_from([1, 2, 3, 32])),
            'data': draw(array_spec()), 'positions': draw(array_spec()),
            'dark': draw(st.one_of(st.none(), array_spec())), 'dark kind': draw(st.integers(0, 2)),
            'gain': draw(st.one_of(st.none(), array_spec())), 'gain kind': draw(st.integers(0, 2)),
            'row': draw(st.sampled_from([0, 0, 0, 1])),
            'inner': draw(st.integers(0, 5)), 'outer': draw(st.integers(1, 60)),
            'center': draw(ic.centers(w, h, 50)), 'zip': draw(st.booleans())}


def raw_inputs(case):
    h, w, n = case['h'], case['w'], case['n']
    rng = np.random.default_rng([case['seed'], 41])
    k = case['kind']
    if k == 'background':
        f = small('background', case['seed'], n, h, w)
    elif k == 'tiny':
        f = rng.integers(0, 100, (n, h, w)).astype(np.uint16)
    elif k == 'same':
        f = np.repeat(small('background', case['seed'], 1, h, w), n, axis=0)
    else:
        f = np.repeat(rng.integers(0, 255, (n, 1, w)), h, axis=1).astype(np.uint16)
    if case['what'] == 'count':
        # The fit for the thresholds takes long for wide histograms
        f = np.minimum(f, 2000)
    p = rng.permutation(case['W'] * case['H'])[:n] if case['shuffle'] else np.arange(n)
    out = {'data': f, 'positions': p.astype(np.uint32)}
    if case['dark'] is not None and case['what'] in ('count', 'maximum'):
        d = rng.integers(0, 9, (h, w))
        if case['dark kind'] == 1:
            d = d.astype(np.float64) / 4
        if case['dark kind'] == 2:
            d = np.repeat(d[:1], h, axis=0)
        out['dark'] = d
    if case['gain'] is not None and case['what'] == 'count':
        g = rng.choice([1, 2, 4], (h, w))
        if case['gain kind'] == 1:
            g = rng.uniform(.7, 1.5, (h, w)).astype(np.float32)
        if case['gain kind'] == 2:
            g = rng.choice([.5, 1, 2], (h, w))
        out['gain'] = g
    return out


def variant(case, name, a):
    how, t = case[name]
    if a.dtype.kind in 'iu':
        types = types_for(a, name)
        if name in ('dark', 'gain'):
            types = types + ['float32', 'float64'] * 2
        a = a.astype(pick(types, t))
    elif a.dtype == np.float64:
        a = a.astype(pick(['float64', 'float32'], t))
    return layout(a, how)


def call_raw(case, x, tmp):
    import h5py
    from stempy import image, io
    dims = (case['W'], case['H'])
    what = case['what']
    f = x['data']
    kw = {'center': tuple(case['center'])}
    if what == 'com_dense':
        # 0 / 0 in frames without signal
        with np.errstate(all='ignore'):
            return [image.com_dense(f), image.com_dense(f[0])]
    if what == 'stem array':
        if case['shuffle']:
            f = f[::-1]
        return [image.create_stem_images(f, [case['inner'], 0], [case['outer'], 3], scan_dimensions=dims, **kw)]
    if what == 'save':
        p = os.path.join(tmp, 'x.h5')
        if os.path.exists(p):
            os.unlink(p)
        io.save_raw_data(p, f, scan_dimensions=dims, scan_positions=x['positions'], zip_data=case['zip'])
        with h5py.File(p, 'r') as fh:
            r = io.reader(fh)
            out = [fh['frames'][()].astype(np.int64), fh['scan_positions'][()].astype(np.int64)]
            for b in r:
                out += [np.array(b.data), np.array(b.header.image_numbers)]
            return out + [image.create_stem_images(fh, case['inner'], case['outer'], **kw)]
    # The frames for the thresholds are drawn at random: leave only one
    r = io.PyReader(f, x['positions'], dims, 1 if what == 'count' else case['block'], len(f))
    if what == 'stem reader':
        return [image.create_stem_images(r, case['inner'], case['outer'], **kw)]
    if what == 'histogram':
        b, q = image.create_stem_histogram(5, r, [case['inner']], [case['outer']], **kw)
        return list(b) + list(q)
    if what == 'radial':
        return [image.radial_sum(r, **kw)]
    if what == 'average':
        return [image.calculate_average(r)]
    if what == 'maximum':
        return [image.maximum_diffraction_pattern(r, *([x['dark']] if 'dark' in x else []))]
    try:
        sa = image.electron_count(r, darkreference=x.get('dark'), gain=x.get('gain'), number_of_samples=5,
                                  background_threshold_n_sigma=3, xray_threshold_n_sigma=20,
                                  apply_row_dark=bool(case['row']))
    except RuntimeError as e:
        return [np.array(['no thresholds'])]
    return [np.array(sa.shape)] + [np.sort(e) for p in sa.data for e in p]


def run_inputs(case, ctx, inputs, call):
    base = inputs
    try:
        want = [np.array(a) for a in call(case, {k: np.array(v) for k, v in base.items()}, ctx.tmp)]
    except ValueError as e:
        if 'loss of precision' in str(e):
            raise Reject()
        raise
    x = {k: variant(case, k, v) if case.get(k) else np.array(v) for k, v in base.items()}
    got = [np.array(a) for a in call(case, x, ctx.tmp)]
    same(got, want, case['what'])
    for k, v in base.items():
        check(np.array_equal(x[k], v), '{}: {} was modified', case['what'], k)


def same(got, want, what):
    check(len(got) == len(want), '{}: {} results instead of {}', what, len(got), len(want))
    for g, w in zip(got, want):
        check(g.shape == w.shape, '{}: shape {} instead of {}', what, g.shape, w.shape)
        if w.dtype.kind == 'f' or g.dtype.kind == 'f':
            ok = np.allclose(g, w, rtol=1e-5, atol=1e-5, equal_nan=True)
        else:
            ok = np.array_equal(g, w)
        if not ok:
            check(False, '{}: {} instead of {}', what, g.tolist()[:40], w.tolist()[:40])


def run_raw(case, ctx):
    run_inputs(case, ctx, raw_inputs(case), call_raw)


# --- Event lists -------------------------------------------------------------

EVENTS = ['stem', 'stem array', 'stem legacy', 'com 0', 'com 1', 'com crop', 'darkfield', 'mask', 'sum list',
          'radial', 'sum', 'max', 'min', 'mean', 'bin_frames', 'bin_scans', 'index', 'save', 'dense']


@st.composite
def event_cases(draw, large=False):
    arr = draw(sc.large_cases(scan_ndim=(2,))) if large else draw(sc.sparse_cases(scan_ndim=(2,)))
    return {'what': draw(st.sampled_from(EVENTS)), 'arr': arr,
            'outer': draw(st.sampled_from([LAYOUTS[i] for i in (0, 1, 2, 3, 4, 6)])),
            'ev layout': draw(st.lists(st.sampled_from(LAYOUTS), min_size=1, max_size=4)),
            'type': draw(st.integers(0, 59)), 'mask': draw(array_spec()), 'axis': draw(st.integers(0, 5)),
            'seed': draw(st.integers(0, 999)), 'flat': draw(st.booleans())}


def event_variant(case, base):
    hi = max([int(e.max()) for e in base.ravel() if len(e)] + [0])
    hi = max(hi, int(np.prod(case['arr']['frame'])) - 1)
    t = pick(types_for(np.array([hi]), ''), case['type'])
    out = np.empty(base.shape, object)
    for i in range(base.shape[0]):
        for j in range(base.shape[1]):
            how = case['ev layout'][(i * base.shape[1] + j) % len(case['ev layout'])]
            out[i, j] = layout(base[i, j].astype(t), how)
    return layout(out, case['outer'])


def call_events(case, x, tmp):
    from stempy import image, io
    data, mask = x['data'], x['mask']
    c = case['arr']
    what = case['what']
    scan, frame = tuple(c['scan']), tuple(c['frame'])
    k = case['seed']
    sa = io.SparseArray(data, scan, frame)
    sa.allow_full_expand = True
    if case.get('flat'):
        # One list per position
        data = x['flat'] = data[:, 0]
    if what == 'stem':
        return [image.create_stem_images(sa, [0, 1], [2, 4])]
    if what == 'stem array':
        return [image.create_stem_images(data, [0, 1], [2, 4], scan_dimensions=scan[::-1],
                                         frame_dimensions=frame[::-1])]
    if what == 'stem legacy':
        from checks.c11 import ECD
        return [image.create_stem_images(ECD(data, scan[::-1], frame[::-1]), [0, 1], [2, 4])]
    if what.startswith('com'):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if what == 'com crop':
                # A radius no distance comes close to
                return [image.com_sparse(sa, crop_to=2.1, init_center=(1, 2), version=k % 2)]
            return [image.com_sparse(sa, version=int(what[-1]), replace_nans=bool(k % 3))]
    if what == 'darkfield':
        return [image.virtual_darkfield(sa, (1, 2), (0, 3), (2, 1.5))]
    if what == 'mask':
        return [image.mask_real_space(sa, mask)]
    if what == 'sum list':
        return [image.calculate_sum_sparse(data, frame)]
    if what == 'radial':
        return [image.radial_sum_sparse(sa, (1, 2))]
    if what in ('sum', 'max', 'min', 'mean'):
        axis = pick([(0, 1), (2, 3), 'scan', 'frame', None], case['axis'])
        if what != 'sum' and int(np.prod(frame)) > 10000 and axis in (None, (2, 3), 'frame'):
            axis = (0, 1)
        return [getattr(sa, what)(axis=axis)]
    if what in ('bin_frames', 'bin_scans'):
        n = np.gcd.reduce(frame if what == 'bin_frames' else scan)
        b = [d for d in range(1, int(n) + 1) if n % d == 0]
        r = getattr(sa, what)(pick(b[::-1], k))
        return [sc.dense_of(r)]
    if what == 'index':
        return [sc.dense_of(sa[k % scan[0]:]), sa[k % scan[0], k % scan[1]].to_dense()
                if hasattr(sa[k % scan[0], k % scan[1]], 'to_dense') else sa[k % scan[0], k % scan[1]]]
    if what == 'save':
        p = os.path.join(tmp, 'e.h5')
        if os.path.exists(p):
            os.unlink(p)
        io.save_electron_counts(p, sa)
        return [sc.dense_of(io.load_electron_counts(p))]
    return [sa.to_dense()]


def run_events(case, ctx):
    c = case['arr']
    base = sc.data_array(dict(c, edt='uint32'))
    rng = np.random.default_rng([case['seed'], 43])
    mask = rng.integers(0, 2, c['scan'])
    want = [np.array(a) for a in call_events(case, {'data': sc.data_array(dict(c, edt='uint32')),
                                                    'mask': mask.copy()}, ctx.tmp)]
    x = {'data': event_variant(case, base), 'mask': variant(case, 'mask', mask)}
    got = [np.array(a) for a in call_events(case, x, ctx.tmp)]
    same(got, want, case['what'])
    check(np.array_equal(x['mask'], mask), '{}: the mask was modified', case['what'])
    check(x['data'].shape == base.shape, 'shape of the data')
    if 'flat' in x:
        check(x['flat'].shape == base[:, 0].shape, 'shape of the data')
    for a, b in zip(x['data'].ravel(), base.ravel()):
        check(np.array_equal(a, b), '{}: events were modified', case['what'])


# --- Threaded counting -------------------------------------------------------

@st.composite
def file_cases(draw):
    return {'what': 'threaded count', 'seed': draw(st.integers(0, 2**16)), 'v': draw(st.sampled_from([4, 5])),
            'backend': draw(st.sampled_from(['thread', 'multi-pass'])), 'n': 1,
            'dark': draw(array_spec()), 'gain': draw(st.one_of(st.none(), array_spec())),
            'kinds': [draw(st.integers(0, 2)), draw(st.integers(0, 2))],
            'row': draw(st.sampled_from([0, 0, 0, 1]))}


def call_files(case, x, tmp):
    from stempy import image, io
    v = 5 if case['backend'] == 'multi-pass' else case['v']
    n = case['n']
    d = {'v': v, 'W': n, 'H': 1, 'scan_number': 1, 'kind': 'count',
         'frames': [[k, k, case['seed'] + k, 15] for k in range(n)],
         'files': [[s, list(range(n))] for s in range(4)]}
    ds = rc.Dataset(d, tmp)
    r = io.reader(ds.paths, version=v, backend=case['backend'], threads=2)
    try:
        sa = image.electron_count(r, darkreference=x['dark'], gain=x.get('gain'), number_of_samples=n,
                                  background_threshold_n_sigma=4, xray_threshold_n_sigma=40,
                                  threshold_num_blocks=n, apply_row_dark=bool(case['row']))
    except RuntimeError:
        return [np.array(['no thresholds'])]
    return [np.array(sa.shape)] + [np.sort(e) for p in sa.data for e in p]


def run_files(case, ctx):
    rng = np.random.default_rng([case['seed'], 47])
    d = rng.integers(0, 9, (576, 576))
    if case['kinds'][0] == 1:
        d = d / 4
    elif case['kinds'][0] == 2:
        d = np.repeat(d[:1], 576, axis=0)
    inputs = {'dark': d}
    if case['gain']:
        g = rng.choice([1, 2], (576, 576))
        if case['kinds'][1] == 1:
            g = rng.uniform(.7, 1.5, (576, 576)).astype(np.float32)
        elif case['kinds'][1] == 2:
            g = rng.choice([.5, 1, 2], (576, 576))
        inputs['gain'] = g
    run_inputs(case, ctx, inputs, call_files)


def specs(case):
    out = []
    for k in ('data', 'positions', 'dark', 'gain', 'mask'):
        if isinstance(case.get(k), list):
            out.append(f'{k}: {case[k][0]}')
    return out


def classify(case):
    return [case['what']] + specs(case) + [f'events: {x}' for x in set(case.get('ev layout', []))]


SUBS = [
    Sub('raw', raw_cases, run_raw, 'an array that is not C-ordered, or of another type',
        nontrivial=lambda c: any(isinstance(c[k], list) and (c[k][0] != 'C' or c[k][1])
                                 for k in ('data', 'positions', 'dark', 'gain')),
        classify=classify, quick=3000, thorough=80000, shards=4),
    Sub('events', event_cases, run_events, 'at least one event', nontrivial=lambda c: sc.events(c['arr']) > 0,
        classify=classify, quick=3000, thorough=80000, shards=4),
    Sub('events in large frames', lambda: event_cases(large=True), run_events, 'at least one event',
        nontrivial=lambda c: sc.events(c['arr']) > 0, classify=classify, quick=150, thorough=3000, shards=2),
    Sub('files', file_cases, run_files, 'any', classify=classify, quick=120, thorough=2000, shards=4),
]
