"""C26: arguments which do not fit the data are refused, not used beyond their end."""
import os
import types
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import raw_common as rc
from checks.c05 import small
from vp.core import Reject, Sub, check

PROPERTY = 'C26'
# What the bindings and the Python code raise; a crash or a hang ends the worker
REFUSED = (ValueError, TypeError, IndexError, RuntimeError, MemoryError, OverflowError)


def refused(what, fn):
    try:
        fn()
    except REFUSED:
        return
    except Exception as e:
        # There are plain exceptions in the Python code
        check(type(e) is Exception, '{}: {!r}', what, e)
        return
    check(False, '{} is not refused', what)


# --- Lists of events ---------------------------------------------------------

EVENT_FORMS = ['lists', 'lists', 'frames', 'counted', 'sparse', 'cpp']
EVENT_MISFITS = ['none', 'none', 'lists', 'lists', 'event', 'event', 'event', 'no scan', 'radii', 'no radii', 'frame']


@st.composite
def event_cases(draw):
    w, h = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    W, H = draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if draw(st.sampled_from([0] * 5 + [1])):
        w, h = draw(st.sampled_from([(576, 576), (300, 7), (7, 300), (64, 65)]))
    misfit = draw(st.sampled_from(EVENT_MISFITS))
    n = draw(st.sampled_from([W * H, W * H, draw(st.integers(1, W * H))]))
    if misfit == 'lists':
        n = W * H + draw(st.sampled_from([1, 1, 2, W, 1000, 40000]))
    per = draw(st.sampled_from([1, 1, 2, 3]))
    inner, outer = draw(ic.radii(w, h, 2))
    return {'w': w, 'h': h, 'W': W, 'H': H, 'n': n, 'per': per, 'form': draw(st.sampled_from(EVENT_FORMS)),
            'misfit': misfit, 'seed': draw(st.integers(0, 2**16)), 'mean': draw(st.sampled_from([0, 1, 3, 8])),
            'at': draw(st.integers(0, 2**20)), 'slot': draw(st.integers(0, 9)),
            'by': draw(st.sampled_from([0, 0, 0, 1, w - 1, w, 100, 2**16, 2**31, 2**32 - 1]))
            if misfit == 'event' else draw(st.integers(1, 3)),
            'type': draw(st.sampled_from(['uint32', 'uint32', 'int64', 'uint64'])),
            'inner': inner, 'outer': outer, 'center': draw(ic.centers(w, h, 50))}


def event_lists(case):
    """The lists, and the images that they have to give."""
    rng = np.random.default_rng([case['seed'], 51])
    px, per, n = case['w'] * case['h'], case['per'], case['n']
    if case['form'] in ('counted',):
        per = 1
    data = np.empty((n, per), object)
    for i in range(n):
        for j in range(per):
            data[i, j] = rng.integers(0, px, rng.poisson(case['mean'])).astype(case['type'])
    if case['misfit'] == 'event':
        i, j = case['at'] % n, case['at'] % per
        # Just behind the frame, or at the end of the range of the type
        v = min(px + case['by'], 2**32 - 1)
        k = min(case['slot'], len(data[i, j]))
        data[i, j] = np.insert(data[i, j], k, v).astype(case['type'])
    return data


def run_events(case, ctx):
    from stempy import image
    from stempy.io.sparse_array import SparseArray
    w, h, W, H, form, misfit = (case[k] for k in ('w', 'h', 'W', 'H', 'form', 'misfit'))
    if form == 'sparse' and case['n'] < W * H:
        case = dict(case, n=W * H)
    data = event_lists(case)
    inner, outer = list(case['inner']), list(case['outer'])
    scan = (W, H)
    frame = (w, h)
    if misfit == 'radii':
        # One list is longer than the other
        (inner if case['seed'] % 2 else outer).extend([5] * case['by'])
    elif misfit == 'no radii':
        for r, bit in ((inner, 1), (outer, 2)):
            if case['by'] & bit:
                r.clear()
    elif misfit == 'no scan':
        scan = [(0, 0), (0, H), (W, 0)][case['by'] % 3]
    elif misfit == 'frame':
        # The dimensions of a smaller frame
        last = max((int(e.max()) for e in data.ravel() if len(e)), default=-1)
        frame = (w, h - 1) if case['by'] % 2 else (w - 1, h)
        if last < frame[0] * frame[1]:
            misfit = 'none'

    def call():
        kw = {'center': tuple(case['center'])}
        if form == 'lists':
            return image.create_stem_images(data, inner, outer, scan_dimensions=scan, frame_dimensions=frame, **kw)
        if form == 'frames':
            # The arrays of one frame for each position
            d = data[:, 0].copy() if data.shape[1] == 1 else data
            return image.create_stem_images(d, inner, outer, scan_dimensions=scan, frame_dimensions=frame, **kw)
        if form == 'counted':
            d = types.SimpleNamespace(data=data[:, 0].copy(), scan_dimensions=scan, frame_dimensions=frame)
            return image.create_stem_images(d, inner, outer, **kw)
        if form == 'sparse':
            sa = SparseArray(data, scan[::-1], frame[::-1])
            return image.create_stem_images(sa, inner, outer, **kw)
        # The same function without the Python code around it
        imgs = image._image.create_stem_images([list(d) for d in data], inner, outer, scan, frame,
                                               tuple(case['center']))
        return np.array([np.array(i, copy=False) for i in imgs])

    what = f'create_stem_images of {len(data)} lists of events in a scan of {scan} with frames of {frame} ' \
        f'({form}, {misfit}; radii {inner} and {outer})'
    if misfit != 'none':
        refused(what, call)
        return
    got = call()
    d2 = ic.distance2(w, h, case['center']) if frame == (w, h) else None
    check(got.shape == (len(inner), scan[1], scan[0]), '{} has the shape {}', what, got.shape)
    if d2 is None:
        return
    for k, (a, b) in enumerate(zip(inner, outer)):
        mask = np.where((d2 >= a * a) & (d2 < b * b), 0xFFFF, 0).astype(np.uint64).ravel()
        want = np.zeros(W * H, np.uint64)
        for i in range(len(data)):
            want[i] = sum(int(mask[e.astype(np.int64)].sum()) for e in data[i])
        bad = np.flatnonzero(got[k].ravel() != want)
        check(not len(bad), '{}: image {} has {} at {} instead of {}', what, k,
              got[k].ravel()[bad[:1]], bad[:1], want[bad[:1]])


# --- Raw data ------------------------------------------------------------------

RAW_MISFITS = ['none', 'numbers', 'numbers', 'outside', 'outside', 'block', 'total', 'radii', 'no radii', 'no scan',
               'bins', 'bins']
RAW_USES = ['stem', 'stem', 'radial', 'average', 'maximum', 'count', 'histogram']


@st.composite
def raw_cases(draw):
    misfit = draw(st.sampled_from(RAW_MISFITS))
    use = {'radii': ['stem', 'array', 'histogram'], 'no radii': ['stem', 'array', 'histogram'],
           'no scan': ['array', 'stem', 'radial', 'count'], 'bins': ['histogram'],
           'outside': ['stem', 'radial', 'count', 'array', 'histogram']}.get(misfit, RAW_USES)
    h, w = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    W, H = draw(st.integers(1, 5)), draw(st.integers(1, 5))
    n = draw(st.integers(1, W * H))
    inner, outer = draw(ic.radii(w, h, 2))
    return {'misfit': misfit, 'use': draw(st.sampled_from(use)), 'h': h, 'w': w, 'W': W, 'H': H, 'n': n,
            'block': draw(st.sampled_from([1, 2, 3, 32])), 'seed': draw(st.integers(0, 2**16)),
            'by': draw(st.integers(1, 3)), 'at': draw(st.integers(0, 2**16)),
            'far': draw(st.sampled_from([0, 0, 1, 7, 2**31, 2**32 - 1])),
            'bins': draw(st.sampled_from([0, 0, -1, -2**31])) if misfit == 'bins' else draw(st.integers(1, 9)),
            'inner': inner, 'outer': outer}


def run_raw(case, ctx):
    from stempy import io, image
    h, w, W, H, n, misfit, use = (case[k] for k in ('h', 'w', 'W', 'H', 'n', 'misfit', 'use'))
    rng = np.random.default_rng([case['seed'], 53])
    frames = np.minimum(small('background', case['seed'], n, h, w), 2000)
    numbers = [int(k) for k in rng.permutation(W * H)[:n]]
    total, block, scan = n, case['block'], (W, H)
    inner, outer = list(case['inner']), list(case['outer'])
    if misfit == 'numbers':
        # Fewer numbers than images
        numbers = numbers[:max(0, n - case['by'])]
    elif misfit == 'outside':
        if use == 'array':
            # There are only the dimensions to make too small
            if n == 1:
                raise Reject()
            scan = (1, n - 1) if case['at'] % 2 else (n - 1, 1)
        else:
            numbers[case['at'] % n] = min(W * H + case['far'], 2**32 - 1)
    elif misfit == 'block':
        block = 0
    elif misfit == 'total':
        total = n + case['by']
        numbers += list(range(case['by'])) if case['at'] % 2 else []
    elif misfit == 'radii':
        (inner if case['seed'] % 2 else outer).extend([5] * case['by'])
    elif misfit == 'no radii':
        for r, bit in ((inner, 1), (outer, 2)):
            if case['by'] & bit:
                r.clear()
    elif misfit == 'no scan':
        scan = [(0, 0), (0, H), (W, 0)][case['by'] % 3]

    def call():
        if use == 'array':
            return image.create_stem_images(frames, inner, outer, scan_dimensions=scan)
        r = io.PyReader(frames, numbers, scan, block, total)
        if use == 'stem':
            return image.create_stem_images(r, inner, outer)
        if use == 'radial':
            return image.radial_sum(r)
        if use == 'average':
            return image.calculate_average(r)
        if use == 'maximum':
            return image.maximum_diffraction_pattern(r)
        if use == 'count':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return image.electron_count(r, number_of_samples=2)
        return image.create_stem_histogram(case['bins'], r, inner, outer)

    what = f'{use} of {n} images of {(h, w)} in a scan of {scan} ({misfit}: numbers {numbers}, total {total}, ' \
        f'blocks of {block}, radii {inner} and {outer}, {case["bins"]} bins)'
    if misfit != 'none':
        refused(what, call)
        return
    try:
        got = call()
    except RuntimeError:
        # No thresholds for these frames
        check(use == 'count', '{} is refused', what)
        return
    except ValueError as e:
        # Nor for an image that is constant after the sampling
        check(use == 'count', '{} is refused: {}', what, e)
        return
    if use == 'stem':
        d2 = ic.distance2(w, h, [-1, -1])
        for k, (a, b) in enumerate(zip(inner, outer)):
            want = np.zeros(W * H, np.uint64)
            # Masked by and, not multiplied
            want[numbers] = np.where((d2 >= a * a) & (d2 < b * b), frames.astype(np.uint64), 0).sum(axis=(1, 2))
            check(np.array_equal(got[k].ravel(), want), '{}: image {} is wrong', what, k)
    elif use == 'average':
        check(np.allclose(got, frames.mean(axis=0)), '{} is wrong', what)


# --- Dark references and gains ---------------------------------------------------

SHAPES = ['one less', 'one more', 'row less', 'column less', 'row more', 'column more', 'row', 'column',
          'few', 'many', 'empty', 'double']


def shape_of(kind, h, w):
    return {'fits': (h, w), 'flat': (h * w,), 'swapped': (w, h), 'one less': (h * w - 1,), 'one more': (h * w + 1,),
            'row less': (h - 1, w), 'column less': (h, w - 1), 'row more': (h + 1, w), 'column more': (h, w + 1),
            'row': (w,), 'column': (h, 1), 'few': (2, 2), 'many': (2 * h + 3, 3 * w), 'empty': (0, w),
            'double': (2, h, w)}[kind]


@st.composite
def correction_cases(draw):
    use = draw(st.sampled_from(['count', 'count', 'count', 'thresholds', 'maximum']))
    # Frames with some pages behind them, and small ones
    h, w = draw(st.one_of(st.tuples(st.integers(2, 12), st.integers(2, 12)),
                          st.sampled_from([(64, 64), (64, 33), (31, 70), (1, 90), (90, 1)])))
    fit = ['fits', 'fits', 'flat']
    dark = draw(st.sampled_from([None] + fit + SHAPES))
    gain = draw(st.sampled_from([None] + fit + SHAPES)) if use != 'maximum' else None
    if use == 'maximum' and dark in (None, 'flat'):
        dark = 'fits'
    return {'use': use, 'h': h, 'w': w, 'W': draw(st.integers(1, 4)), 'H': draw(st.integers(1, 4)),
            'source': draw(st.sampled_from(['py', 'v1', 'hdf5'])), 'seed': draw(st.integers(0, 2**16)),
            'block': draw(st.sampled_from([1, 2, 32])), 'dark': dark, 'gain': gain,
            'row': draw(st.sampled_from([0, 0, 1])), 'image': draw(st.booleans()),
            'blocks': draw(st.integers(1, 3))}


def misfits(case, h, w):
    """Whether a dark reference or gain has another number of pixels, or None if it stands for none"""
    out = False
    for k in ('dark', 'gain'):
        if case[k] is None:
            continue
        size = int(np.prod(shape_of(case[k], h, w)))
        if size == 1 or size == 0:
            # These are taken for none
            raise Reject()
        out = out or size != h * w
    return out


def arrays(case, h, w):
    rng = np.random.default_rng([case['seed'], 57])
    out = []
    for k, a in (('dark', lambda s: rng.integers(0, 9, s).astype(np.float32)),
                 ('gain', lambda s: rng.choice([1., 2.], s).astype(np.float32))):
        out.append(None if case[k] is None else a(shape_of(case[k], h, w)))
    return out


def run_corrections(case, ctx):
    from stempy import image, io
    h, w, W, H, use = (case[k] for k in ('h', 'w', 'W', 'H', 'use'))
    n = W * H
    if use == 'maximum' and case['dark'] in ('empty',):
        raise Reject()
    bad = misfits(case, h, w)
    if use == 'maximum':
        bad = bad or case['dark'] != 'fits'
        # The same number of pixels in another shape would do, too
        if bad and shape_of(case['dark'], h, w) == (h, w):
            bad = False
    frames = small('background', case['seed'], n, h, w)
    frames = np.minimum(frames, 2000)
    c = {'source': case['source'], 'h': h, 'w': w, 'W': W, 'H': H, 'positions': list(range(n)), 'kind': 'few',
         'seed': case['seed'], 'block': case['block'], 'cuts': []}
    src = ic.Source(c, ctx.tmp, frames)
    dark, gain = arrays(case, h, w)

    # Blocks of an HDF5 file hold 32 images
    blocks = min(case['blocks'], -(-n // (32 if case['source'] == 'hdf5' else case['block'])))

    def call():
        r = src.reader()
        if use == 'maximum':
            return image.maximum_diffraction_pattern(r, dark)
        if use == 'thresholds':
            args = [[next(r)._block for _ in range(1)]]
            if dark is not None:
                args.append(dark)
            args += [2, 4, 10]
            if gain is not None:
                args.append(gain)
            return image._image.calculate_thresholds(*args)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return image.electron_count(r, dark, 2, 4, 10, blocks, (W, H),
                                        gain=gain, apply_row_dark=bool(case['row']))

    what = f'{use} of frames of {(h, w)} with a dark reference {case["dark"]} and a gain {case["gain"]}'
    try:
        if bad:
            refused(what, call)
            return
        try:
            got = call()
        except RuntimeError:
            # No thresholds for these frames
            raise Reject()
        if use == 'count':
            check(got.data.shape == (n, 1), '{} gives data of the shape {}', what, got.data.shape)
            for e in got.data.ravel():
                check(not len(e) or int(e.max()) < h * w, '{} gives events outside of the frame', what)
        elif use == 'maximum':
            want = np.maximum(frames.astype(np.float32) - dark, 0).max(axis=0)
            check(np.array_equal(got, want), '{} is wrong', what)
    finally:
        src.close()


@st.composite
def threaded_cases(draw):
    backend = draw(st.sampled_from(['thread', 'multi-pass']))
    d = draw(rc.datasets(versions=(4, 5) if backend == 'thread' else (5,), max_frames=2, kinds=('count',), big=False,
                         missing=False))
    fit = ['fits', 'flat']
    kinds = [k for k in SHAPES if k not in ('empty', 'double')]
    dark, gain = draw(st.sampled_from([None] + fit + kinds)), draw(st.sampled_from([None] + fit + kinds))
    return {'data': d, 'backend': backend, 'threads': draw(st.sampled_from([1, 2, 4])), 'dark': dark, 'gain': gain,
            'seed': draw(st.integers(0, 2**16)), 'row': draw(st.sampled_from([0, 0, 1])),
            'dims': draw(st.booleans())}


def run_threaded(case, ctx):
    from stempy import io, image
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    bad = misfits(case, 576, 576)
    dark, gain = arrays(case, 576, 576)
    reader = io.reader(ds.paths, version=d['v'], backend=case['backend'], threads=case['threads'])
    what = f'{case["backend"]} counting with a dark reference {case["dark"]} and a gain {case["gain"]}'

    def call():
        return image.electron_count(reader, dark, 2, gain=gain, apply_row_dark=bool(case['row']),
                                    scan_dimensions=(d['W'], d['H']) if case['dims'] else (0, 0))
    if bad:
        refused(what, call)
        return
    try:
        got = call()
    except RuntimeError:
        raise Reject()
    check(got.data.shape[0] == d['W'] * d['H'], '{} gives data of the shape {}', what, got.data.shape)


# --- Sparse arrays and files -------------------------------------------------------

CALLS = ['data', 'data', 'flat data', 'deep data', 'floats', 'bin_scans', 'bin_frames', 'bin_scans', 'bin_frames',
         'reshape', 'reshape', 'names', 'backend', 'version', 'read_frames', 'raw dims', 'com version', 'crop']


@st.composite
def python_cases(draw):
    nd = draw(st.sampled_from([2, 2, 1]))
    return {'call': draw(st.sampled_from(CALLS)), 'scan': [draw(st.sampled_from([1, 2, 3, 4, 6])) for _ in range(nd)],
            'frame': [draw(st.sampled_from([1, 2, 4, 6, 9])) for _ in range(2)], 'per': draw(st.sampled_from([1, 1, 2])),
            'by': draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, -1, -2, -3, -4])),
            'seed': draw(st.integers(0, 2**16)), 'place': draw(st.booleans())}


def run_python(case, ctx):
    from stempy import image, io
    from stempy.io.sparse_array import SparseArray
    call, scan, frame, by = case['call'], tuple(case['scan']), tuple(case['frame']), case['by']
    rng = np.random.default_rng([case['seed'], 59])
    n, px = int(np.prod(scan)), int(np.prod(frame))

    def lists(n):
        d = np.empty((n, case['per']), object)
        for i in np.ndindex(d.shape):
            d[i] = rng.choice(px, rng.integers(0, min(px, 4) + 1), replace=False).astype(np.uint32)
        return d

    if call in ('data', 'flat data', 'deep data', 'floats'):
        fits = call == 'data' and by == 0
        d = lists(max(0, n + by) if call == 'data' else n)
        if len(d) == n and call == 'data':
            fits = True
        if call == 'flat data':
            # The way of the first version
            d, fits = d[:, 0].copy(), True
        elif call == 'deep data':
            d = d[:, :, np.newaxis].copy()
        elif call == 'floats':
            i = rng.integers(0, n), rng.integers(0, case['per'])
            d[i] = d[i].astype([np.float64, np.float32, complex, bool][by % 4])
        what = f'a SparseArray of {d.shape} lists ({call}) in a scan of {scan}'
        if fits:
            check(SparseArray(d, scan, frame).num_scans == n, '{}', what)
        else:
            refused(what, lambda: SparseArray(d, scan, frame))
        return

    if call in ('bin_scans', 'bin_frames', 'reshape'):
        sa = SparseArray(lists(n), scan, frame, allow_full_expand=True)
        before = sa.to_dense().copy()
        if call == 'reshape':
            shape = list(scan + frame)
            k, j = rng.integers(0, len(shape), 2)
            how = case['seed'] % 6
            if how == 0:
                shape[k] += by
            elif how == 1:
                # Two negative dimensions have the right product
                shape[-1] *= -1
                shape[-2] *= -1
            elif how == 2 and len(scan) == 2:
                shape[0] *= -1
                shape[1] *= -1
            elif how == 3:
                shape = [1] * (by % 3) + shape if by % 2 else shape[:2 - (by < 0)]
            elif how > 3:
                # One part in another shape of the right size, the other part of another size
                parts = [list(scan), list(frame)]
                d = [x for x in range(1, (n, px)[how - 4] + 1) if (n, px)[how - 4] % x == 0]
                x = d[int(rng.integers(0, len(d)))]
                parts[how - 4] = [x, (n, px)[how - 4] // x]
                parts[5 - how][-1] += by
                shape = parts[0] + parts[1]
            shape = tuple(int(x) for x in shape)
            ns = len(shape) - 2
            fits = len(shape) in (3, 4) and min(shape) >= 0 and np.prod(shape[:ns]) == n and np.prod(shape[ns:]) == px
            what, fn = f'reshape of {scan + frame} to {shape}', lambda: sa.reshape(*shape)
        else:
            dims = scan if call == 'bin_scans' else frame
            fits = by > 0 and all(x % by == 0 for x in dims)
            what = f'{call}({by}) of {scan + frame}'

            def fn():
                return getattr(sa, call)(by, in_place=case['place'])
        if fits:
            check(int(fn().to_dense().sum()) == int(before.sum()), '{} gives another sum', what)
            return
        try:
            fn()
        except (ValueError, TypeError, ZeroDivisionError, IndexError):
            pass
        else:
            check(False, '{} is not refused', what)
        check(sa.scan_shape == scan and sa.frame_shape == frame, '{} leaves the shape {}', what, sa.shape)
        check(np.array_equal(sa.to_dense(), before), '{} changes the array', what)
        return

    path = os.path.join(ctx.tmp, 'file')
    if call == 'names':
        k = 1 + case['seed'] % 4
        names = [f'n{i}' for i in range(max(0, k + by))]
        what = f'save_stem_images of {k} images with {len(names)} names'

        def fn():
            io.save_stem_images(path, np.ones((k, 2, 3), np.uint64), names)
        if len(names) == k:
            fn()
            return
        refused(what, fn)
        check(not os.path.exists(path), '{} leaves a file behind', what)
        return
    if call in ('backend', 'version', 'read_frames'):
        W, H = (scan + (2,))[:2]
        paths = []
        for s in range(4):
            paths.append(os.path.join(ctx.tmp, f'data_module{s}_1.data'))
            with open(paths[-1], 'wb') as fh:
                fh.write(rc.sector_header(1, 1, W, H, 0, 0) + bytes(576 * 576 // 2))
        if call == 'backend':
            kw = [{'version': 5, 'backend': 'processes'}, {'version': 4, 'backend': 'multi-pass'},
                  {'version': 4, 'backend': 'Thread'}, {'version': 5, 'backend': ''}][by % 4]
            refused(f'reader({kw})', lambda: io.reader(paths, **kw))
        elif call == 'version':
            v = [0, 6, 7, 255, -1, 256, 2**31, 100][by % 8]
            refused(f'reader(version={v})', lambda: io.reader(paths, version=v).read())
        else:
            # Threads are needed, or positions outside of the scan
            r = io.reader(paths, version=5, backend='multi-pass', threads=1)
            pos = [(H, 0), (0, W), (-1, 0), (0, -1), W * H, -1 - W * H, (H - 1, W), 2**31][by % 8]
            refused(f'read_frames({pos}) in a scan of {(H, W)}', lambda: r.read_frames(pos))
            check(len(r.read_frames((0, 0))) == 1, 'one frame at the first position')
        return
    if call == 'raw dims':
        # More frames than the scan has positions, or none at all
        fr = np.ones((3, 2, 2), np.uint16)
        refused('create_stem_images of raw data without scan dimensions', lambda: image.create_stem_images(fr, 0, 1))
        refused('create_stem_images of a list', lambda: image.create_stem_images([[1, 2]], 0, 1))
        return
    sa = SparseArray(lists(n), scan, frame)
    if len(scan) != 2:
        raise Reject()
    if call == 'com version':
        v = [2, -1, 3, 10, '1'][by % 5]
        refused(f'com_sparse(version={v!r})', lambda: image.com_sparse(sa, version=v))
    else:
        check(np.array(image.com_sparse(sa)).shape == (2,) + scan, 'the center of mass')


def classify(case):
    out = [case.get('use') or case.get('form') or case.get('backend') or case.get('call'), case.get('misfit')]
    for k in ('dark', 'gain'):
        if case.get(k):
            out.append(f'{k} {case[k]}')
    return [x for x in out if x]


def wrong(case):
    return case['misfit'] != 'none'


def wrong_shape(case):
    return any(case[k] not in (None, 'fits', 'flat') for k in ('dark', 'gain'))


SUBS = [
    Sub('events', event_cases, run_events, 'an argument that does not fit', nontrivial=wrong, classify=classify,
        quick=4000, thorough=150000, shards=2, flavour='asan'),
    Sub('raw', raw_cases, run_raw, 'an argument that does not fit', nontrivial=wrong, classify=classify,
        quick=3000, thorough=100000, shards=2, flavour='asan'),
    Sub('corrections', correction_cases, run_corrections, 'a dark reference or gain of another size',
        nontrivial=wrong_shape, classify=classify, quick=2000, thorough=60000, shards=2, flavour='asan'),
    Sub('threaded', threaded_cases, run_threaded, 'a dark reference or gain of another size',
        nontrivial=wrong_shape, classify=classify, quick=200, thorough=6000, shards=2, flavour='asan'),
    Sub('python', python_cases, run_python, 'a factor, shape or number that is not 0',
        nontrivial=lambda c: c['by'] != 0, classify=classify, quick=3000, thorough=60000, shards=1),
]
