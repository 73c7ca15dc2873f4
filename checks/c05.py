"""C05: serial counting applies the same definition to every image."""
import contextlib
import io as pyio
import os
import re

import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Reject, Sub, check

PROPERTY = 'C05'


def small(kind, seed, n, h, w):
    """n small frames"""
    rng = np.random.default_rng([seed, 5])
    if kind == 'ties':
        return rng.integers(0, 5, (n, h, w)).astype(np.uint16)
    if kind == 'wide':
        return rng.integers(0, 65536, (n, h, w)).astype(np.uint16)
    if kind == 'smooth':
        # Long slopes and plateaus
        f = rng.integers(0, 3, (n, h, w)).cumsum(axis=1) + rng.integers(0, 2, (n, h, w)).cumsum(axis=2)
        return f.astype(np.uint16)
    if kind == 'zero rows':
        f = rng.integers(0, 40, (n, h, w))
        f[:, rng.random(h) < .5, :] = 0
        f[:, :, :w // 2] *= rng.integers(0, 2, (n, h, 1))
        return f.astype(np.uint16)
    f = rng.normal(20 + seed % 20, 2 + seed % 4, (n, h, w)).round()
    k = max(1, h * w // 30)
    for i in range(n):
        y, x = rng.integers(0, h, k), rng.integers(0, w, k)
        f[i, y, x] += rng.integers(10, 70, k)
        m = rng.random(k) < .3
        f[i, np.clip(y[m] + 1, 0, h - 1), x[m]] = f[i, y[m], x[m]]
        m = rng.random(k) < .3
        f[i, y[m], np.clip(x[m] + 1, 0, w - 1)] += rng.integers(10, 50, m.sum())
        if rng.random() < .5:
            f[i, rng.integers(0, h), rng.integers(0, w)] = rng.integers(500, 60000)
    return np.clip(f, 0, 65535).astype(np.uint16)


KINDS = ['ties', 'wide', 'smooth', 'background', 'background', 'zero rows']


@st.composite
def direct_cases(draw):
    h = draw(st.one_of(st.integers(1, 12), st.sampled_from([31, 64])))
    w = draw(st.one_of(st.integers(1, 12), st.sampled_from([33, 70])))
    if draw(st.sampled_from([0] * 15 + [1])):
        # More rows or columns than 16 bits can count
        big = draw(st.sampled_from([65535, 65536, 65537, 70000]))
        h, w = draw(st.sampled_from([(1, big), (big, 1), (2, big), (big, 2)]))
    if h * w == 1:
        w = 2
    W, H = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = draw(st.integers(1, W * H if h * w < 10000 else 2))
    n = min(n, W * H)
    kind = draw(st.sampled_from(KINDS))
    top = {'ties': 5, 'wide': 65535, 'smooth': 20, 'background': 80, 'zero rows': 40}[kind]
    th = st.one_of(st.integers(0, top).map(float), st.integers(0, 4 * top).map(lambda k: k / 4))
    bg, xr = sorted([draw(th), draw(th)])
    xr = draw(st.sampled_from([xr, xr, 1e9, float(top)]))
    positions = draw(st.permutations(range(W * H)))[:n]
    return {'h': h, 'w': w, 'W': W, 'H': H, 'kind': kind, 'seed': draw(st.integers(0, 2**20)),
            'positions': positions, 'bg': bg, 'xr': xr,
            'block': draw(st.integers(1, 8)), 'source': draw(st.sampled_from(['v1', 'py', 'py'])),
            'dims': draw(st.booleans()),
            'dark': draw(rc.dark_specs(min(top, 60))), 'gain': draw(rc.gain_specs()),
            'row': draw(st.sampled_from([None, None, None, 'mean', 'median'])),
            'center': draw(st.sampled_from([20.0, 31.25, 3.0, 1.0]))}


def compare(ev, case, frames, dark, inv, row, bg, xr, what=''):
    """ev: list per position of lists of arrays"""
    want = {p: i for i, p in enumerate(case['positions'])}
    for pos in range(len(ev)):
        check(len(ev[pos]) == 1, '{}{} frames at position {}', what, len(ev[pos]), pos)
        got = np.asarray(ev[pos][0])
        if pos not in want:
            check(len(got) == 0, '{}position {} has events, but no frame', what, pos)
            continue
        f = frames[want[pos]]
        lo, hi = rc.corrected(f, dark, inv, row)
        must, may = rc.count(lo, hi, bg, xr)
        if not rc.fits(got, must, may):
            check(False, '{}position {}: {} (thresholds {} and {})', what, pos,
                  rc.explain(got, must, may), bg, xr)


def run_direct(case, ctx):
    from stempy import io, image
    from stempy.image import _image
    h, w = case['h'], case['w']
    frames = small(case['kind'], case['seed'], len(case['positions']), h, w)
    dark, gain = rc.make_dark(case['dark'], (h, w)), rc.make_gain(case['gain'], (h, w))
    inv = rc.inverse(gain)
    dims = (case['W'], case['H'])
    row = (case['center'], case['row'] == 'mean') if case['row'] else None
    dark32 = None if dark is None else dark.astype(np.float32)
    # Cases outside the domain are left out before anything runs
    for f in frames:
        rc.corrected(f, dark32, inv, row)
    if case['source'] == 'v1':
        p = os.path.join(ctx.tmp, 'a')
        with open(p, 'wb') as fh:
            for a in range(0, len(frames), case['block']):
                b = min(len(frames), a + case['block'])
                fh.write(rc.v1_block(case['positions'][a:b], h, w, frames[a:b]))
        reader = io.reader(p)
    else:
        reader = io.PyReader(frames, case['positions'], dims, case['block'], len(frames))
    o = _image.ElectronCountOptionsClassic()
    if dark is not None:
        o.dark_reference = dark32
    o.background_threshold = case['bg']
    o.x_ray_threshold = case['xr']
    if inv is not None:
        o.gain = inv
    if case['source'] == 'v1' or case['dims']:
        o.scan_dimensions = dims
    o.apply_row_dark_subtraction = row is not None
    o.optimized_mean = case['center']
    o.apply_row_dark_use_mean = case['row'] == 'mean'
    data = _image.electron_count(reader.begin(), reader.end(), o)
    check(tuple(data.scan_dimensions) == dims, 'scan dimensions {}', data.scan_dimensions)
    check(tuple(data.frame_dimensions) == (w, h), 'frame dimensions {}', data.frame_dimensions)
    ev = [[np.array(e, copy=True) for e in fr] for fr in data.data]
    check(len(ev) == dims[0] * dims[1], '{} positions', len(ev))
    compare(ev, case, frames, dark32, inv, row, case['bg'], case['xr'])


@st.composite
def reader_cases(draw):
    source = draw(st.sampled_from(['v1', 'v3', 'sector', 'hdf5', 'hdf5 positions', 'py']))
    big = source in ('v3', 'sector')
    h = 576 if big else draw(st.sampled_from([24, 40, 64, 100]))
    w = 576 if big else draw(st.sampled_from([24, 40, 64, 90]))
    W, H = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = draw(st.integers(1, min(W * H, 4 if big else 25)))
    if source == 'hdf5':
        n = W * H
    positions = list(range(n)) if source == 'hdf5' else draw(st.permutations(range(W * H)))[:n]
    return {'source': source, 'h': h, 'w': w, 'W': W, 'H': H, 'positions': positions,
            'seed': draw(st.integers(0, 2**20)), 'block': draw(st.integers(1, 6)),
            'blocks': draw(st.sampled_from([1, 1, 2, 3])), 'samples': draw(st.one_of(st.integers(1, 8), st.just(40))),
            'omit': draw(st.booleans()),
            'bgn': draw(st.sampled_from([4, 3, 2.5, 1])), 'xrn': draw(st.sampled_from([10, 5, 30, 2])),
            'dark': draw(rc.dark_specs(12)), 'gain': draw(rc.gain_specs()),
            'row': draw(st.sampled_from([None, None, 'mean', 'median'])),
            'dims': draw(st.booleans()), 'form': draw(st.sampled_from(['float64', 'float32', 'average', 'ImageArray'])),
            'skip': draw(st.integers(0, 1))}


def run_reader(case, ctx):
    import h5py
    from stempy import io, image
    h, w, W, H = case['h'], case['w'], case['W'], case['H']
    pos = case['positions']
    src = case['source']
    frames = small('background', case['seed'], len(pos), h, w)
    dims = (W, H)
    give = case['dims'] or src == 'v1'
    blocks = case['blocks']
    per = 1
    if src == 'v1':
        per = case['block']
        p = os.path.join(ctx.tmp, 'a')
        with open(p, 'wb') as fh:
            for a in range(0, len(frames), per):
                b = min(len(frames), a + per)
                fh.write(rc.v1_block(pos[a:b], h, w, frames[a:b]))
        reader = io.reader(p)
    elif src == 'v3':
        p = os.path.join(ctx.tmp, 'a')
        with open(p, 'wb') as fh:
            for k, f in zip(pos, frames):
                fh.write(rc.sector_header(3, 5, W, H, k % W, k // W))
                fh.write(f.tobytes())
        reader = io.reader(p, version=3)
    elif src == 'sector':
        paths = []
        v = 4 + case['seed'] % 2
        for s in range(4):
            p = os.path.join(ctx.tmp, f'data_module{s}_1.data')
            with open(p, 'wb') as fh:
                for i, (k, f) in enumerate(zip(pos, frames)):
                    fh.write(rc.sector_header(3, i, W, H, k % W, k // W))
                    fh.write(np.ascontiguousarray(rc.sector_view(f, v, s)).tobytes())
            paths.append(p)
        reader = io.reader(paths, version=v)
    elif src == 'py':
        per = case['block']
        reader = io.PyReader(frames, pos, dims, per, len(frames))
    else:
        per = 32
        p = os.path.join(ctx.tmp, 'a.h5')
        io.save_raw_data(p, frames, scan_dimensions=dims,
                         scan_positions=pos if src == 'hdf5 positions' else None)
        fh5 = h5py.File(p, 'r')
        reader = io.reader(fh5)
    blocks = min(blocks, -(-len(frames) // per))
    dark, gain = rc.make_dark(case['dark'], (h, w)), rc.make_gain(case['gain'], (h, w))
    inv = rc.inverse(gain)
    dark32 = None if dark is None else dark.astype(np.float32)
    darg = dark
    if dark is not None and case.get('form') == 'float32':
        darg = dark32
    elif dark is not None and case.get('form') == 'ImageArray':
        darg = image.ImageArray(dark)
    elif dark is not None and case.get('form') == 'average' and np.array_equal(dark, dark.round()):
        # What one does to get a dark reference
        darg = image.calculate_average(io.PyReader(np.stack([dark] * 2).astype(np.uint16), [0, 1], (2, 1), 1, 2))
    out = pyio.StringIO()
    kw = {'scan_dimensions': dims} if give else {}
    try:
        with contextlib.redirect_stdout(out):
            sa = image.electron_count(
                reader, **kw, **rc.keywords(
                    case.get('omit'), darkreference=darg, number_of_samples=case['samples'],
                    background_threshold_n_sigma=case['bgn'], xray_threshold_n_sigma=case['xrn'],
                    threshold_num_blocks=blocks, verbose=True, gain=gain,
                    apply_row_dark=case['row'] is not None,
                    apply_row_dark_use_mean=case['row'] == 'mean'))
    except RuntimeError as e:
        raise Reject()
    v = {m[0]: float(m[1]) for m in re.findall(r'^([\w\- ]+): ?(\S+)$', out.getvalue(), re.M)}
    bg, xr, center = v['background threshold'], v['xray threshold'], v['optimized mean']
    check(v['number of samples'] == case['samples'], 'number of samples {}', v)
    check(abs(xr - (v['mean'] + case['xrn'] * v['std dev'])) <= 1e-6 * (1 + abs(xr)),
          'x-ray threshold {}', v)
    exp = center + case['bgn'] * v['optimized std dev']
    check(abs(bg - exp) <= 1e-4 * (1 + abs(exp)), 'background threshold {}', v)
    if bg < 0:
        raise Reject()
    check(tuple(sa.scan_shape) == (H, W), 'scan shape {} instead of {}', sa.scan_shape, (H, W))
    check(tuple(sa.frame_shape) == (h, w), 'frame shape {} instead of {}', sa.frame_shape, (h, w))
    row = (float(np.float32(center)), case['row'] == 'mean') if case['row'] else None
    compare(list(sa.data), case, frames, dark32, inv, row, bg, xr, src + ': ')


@st.composite
def many_cases(draw):
    """Many small frames, described by few numbers."""
    c = draw(direct_cases())
    c['h'], c['w'] = draw(st.sampled_from([[1, 2], [3, 3], [4, 7], [8, 5], [12, 12]]))
    c['W'], c['H'] = draw(st.sampled_from([[17, 16], [300, 2], [2, 300], [1, 700], [50, 64], [256, 260]]))
    c['positions'] = {'n': draw(st.sampled_from([65, 257, 600, 1100])),
                      'how': draw(st.sampled_from(['first', 'spread', 'shuffled']))}
    c['block'] = draw(st.sampled_from([1, 3, 32, 300]))
    return c


@st.composite
def many_reader_cases(draw):
    c = draw(reader_cases())
    if c['source'] in ('v3', 'sector'):
        c['W'], c['H'] = draw(st.sampled_from([[7, 5], [3, 13], [40, 1]]))
        n = draw(st.sampled_from([20, 35]))
    else:
        c['W'], c['H'] = draw(st.sampled_from([[17, 16], [100, 2], [2, 130], [1, 270]]))
        n = c['W'] * c['H'] if c['source'] == 'hdf5' else draw(st.sampled_from([65, 130, 180]))
        c['h'], c['w'] = draw(st.sampled_from([[24, 24], [24, 40], [40, 24]]))
    c['positions'] = {'n': n, 'how': 'first' if c['source'] == 'hdf5' else
                      draw(st.sampled_from(['first', 'spread', 'shuffled']))}
    c['block'] = draw(st.sampled_from([1, 3, 32, 100]))
    c['blocks'] = draw(st.sampled_from([1, 2, 10, 40]))
    c['samples'] = draw(st.sampled_from([2, 8, 20]))
    return c


def expanded(fn):
    def run_expanded(case, *a):
        p = case['positions']
        n = min(p['n'], case['W'] * case['H'])
        pos = np.arange(n)
        if p['how'] != 'first':
            pos = np.random.default_rng([case['seed'], 43]).choice(case['W'] * case['H'], n, replace=False)
        if p['how'] == 'spread':
            pos = np.sort(pos)
        return fn({**case, 'positions': pos.tolist()}, *a)
    return run_expanded


def nontrivial(case):
    return len(case['positions']) > 1 or case['h'] != case['w']


def classify(case):
    out = [case['source']]
    out.append('square' if case['h'] == case['w'] else 'not square')
    if min(case['h'], case['w']) <= 2:
        out.append('one or two rows or columns')
    if case['dark']:
        out.append('dark ' + case['dark'][0])
    if case['gain']:
        out.append('gain ' + case['gain'][0])
    if case['row']:
        out.append('row dark ' + case['row'])
    if len(case['positions']) < case['W'] * case['H']:
        out.append('positions without frame')
    if 'kind' in case:
        out.append(case['kind'])
    return out


SUBS = [
    Sub('direct', direct_cases, run_direct, 'several frames, or a frame that is not square',
        nontrivial=nontrivial, classify=classify, quick=4000, thorough=120000, shards=4),
    Sub('readers', reader_cases, run_reader, 'several frames, or a frame that is not square',
        nontrivial=nontrivial, classify=classify, quick=800, thorough=16000, shards=4),
    Sub('direct, many', many_cases, expanded(run_direct), 'every case; up to 1100 frames',
        classify=expanded(classify), quick=120, thorough=4000, shards=4),
    Sub('readers, many', many_reader_cases, expanded(run_reader), 'every case; up to 270 frames',
        classify=expanded(classify), quick=64, thorough=2000, shards=4),
]
