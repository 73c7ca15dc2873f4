"""C11: STEM images of counted data count the electrons inside the annulus."""
import collections
import types

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import sparse_common as sc
from checks.c15 import divisors, factor_pairs, model_bin
from vp.core import Reject, Sub, check

PROPERTY = 'C11'
ECD = collections.namedtuple('ECD', ['data', 'scan_dimensions', 'frame_dimensions'])
KINDS = ['SparseArray', 'ndarray', 'legacy']


def constant():
    """The factor, from one event"""
    from stempy import image
    a = np.empty((1, 1), object)
    a[0, 0] = np.array([0], np.uint32)
    img = np.asarray(image.create_stem_images(a, [0], [9], scan_dimensions=(1, 1),
                                              frame_dimensions=(1, 1), center=(0, 0)))
    k = int(img[0, 0, 0])
    check(k > 0, 'an event counts {}', k)
    return k


def expected(d, inner, outer, center):
    """d: dense 4D"""
    h, w = d.shape[2:]
    d2 = ic.distance2(w, h, center)
    out = np.zeros((len(inner),) + d.shape[:2], np.int64)
    for i, (a, b) in enumerate(zip(inner, outer)):
        out[i] = d[:, :, (d2 >= a * a) & (d2 < b * b)].sum(axis=-1)
    return out


def images_of(sa, kind, inner, outer, center, one_frame):
    from stempy import image
    kw = {} if tuple(center) == (-1, -1) else {'center': tuple(center)}
    sd, fd = tuple(sa.scan_shape[::-1]), tuple(sa.frame_shape[::-1])
    data = sa.data
    if one_frame and data.shape[1] == 1:
        # One list per position
        flat = np.empty(len(data), object)
        for i in range(len(data)):
            flat[i] = data[i, 0]
        data = flat
    if kind == 'SparseArray':
        return image.create_stem_images(sa, inner, outer, **kw)
    if kind == 'ndarray':
        return image.create_stem_images(data, inner, outer, scan_dimensions=sd, frame_dimensions=fd, **kw)
    return image.create_stem_images(ECD(data, sd, fd), inner, outer, **kw)


def compare(sa, d, case, what, k, kinds=KINDS):
    want = expected(d, case['inner'], case['outer'], case['center']) * k
    for kind in kinds:
        got = np.asarray(images_of(sa, kind, case['inner'], case['outer'], case['center'], case['one']))
        check(got.shape == want.shape, '{}, {}: shape {} instead of {}', what, kind, got.shape, want.shape)
        if not np.array_equal(got.astype(np.int64), want):
            i = tuple(np.argwhere(got.astype(np.int64) != want)[0])
            check(False, '{}, {}: {} instead of {} times {} at {}', what, kind, got[i], want[i] // k, k,
                  [int(x) for x in i])


@st.composite
def op_list(draw, scan, frame, n):
    s, f = list(scan), list(frame)
    ops = []
    for _ in range(n):
        k = draw(st.sampled_from(['bin_scans', 'bin_frames', 'reshape', 'setshape', 'set', 'crop', 'ravel']))
        if k in ('bin_scans', 'bin_frames'):
            b = draw(st.sampled_from(divisors(*(s if k == 'bin_scans' else f))))
            if k == 'bin_scans':
                s = [x // b for x in s]
            else:
                f = [x // b for x in f]
            ops.append([k, b, draw(st.sampled_from([True, True, False]))])
        elif k in ('reshape', 'setshape'):
            s = draw(st.sampled_from(factor_pairs(int(np.prod(s)))))
            f = draw(st.sampled_from(factor_pairs(int(np.prod(f)))))
            ops.append([k, list(s) + list(f), True])
        elif k == 'ravel':
            # And back to two dimensions
            s = draw(st.sampled_from(factor_pairs(int(np.prod(s)))))
            ops.append(['ravel', list(s) + list(f)])
        elif k == 'set':
            npix = f[0] * f[1]
            ops.append(['set', draw(st.integers(0, int(np.prod(s)) - 1)), draw(st.integers(0, 3)),
                        draw(st.lists(st.integers(0, npix - 1), max_size=6, unique=True))])
        else:
            a = draw(st.integers(0, s[0] - 1))
            b = draw(st.integers(0, s[1] - 1))
            ops.append(['crop', a, b])
            s = [s[0] - a, s[1] - b]
    return ops, f


@st.composite
def cases(draw, large=False):
    if large == 'wide':
        arr = draw(sc.wide_cases(scan_ndim=(2,)))
    elif large:
        arr = draw(sc.large_cases(scan_ndim=(2,)))
    else:
        scan = draw(st.sampled_from([[1, 1], [2, 2], [2, 4], [4, 2], [3, 3], [2, 6], [6, 2], [3, 6],
                                     [1, 4], [4, 1], [5, 3]]))
        frame = draw(st.sampled_from([[2, 2], [2, 4], [4, 2], [4, 4], [6, 4], [4, 8], [8, 4], [1, 4],
                                      [3, 6], [9, 3], [5, 5], [12, 6], [7, 3], [4, 1]]))
        npix = frame[0] * frame[1]
        fps = draw(st.integers(1, 3))
        one = st.lists(st.integers(0, npix - 1), max_size=min(npix, 8), unique=True).map(sorted)
        fr = st.one_of(one, one, one, st.just(list(range(npix))))
        ev = [[draw(fr) for _ in range(fps)] for _ in range(int(np.prod(scan)))]
        arr = {'scan': scan, 'frame': frame, 'fps': fps,
               'edt': draw(st.sampled_from(sc.EVENT_DTYPES + ['uint8'])), 'ev': ev}
    ops, frame = draw(op_list(arr['scan'], arr['frame'], draw(st.integers(0, 4))))
    big = max(arr['frame'])
    inner, outer = draw(ic.radii(big, big))
    return {'arr': arr, 'ops': ops, 'inner': inner, 'outer': outer, 'one': draw(st.booleans()),
            'center': draw(ic.centers(arr['frame'][1], arr['frame'][0], 60))}


def apply(op, sa, d):
    k = op[0]
    if k == 'bin_scans':
        r = sa.bin_scans(op[1], in_place=op[2])
        return (sa if op[2] else r), model_bin(d, op[1], 0, 2)
    if k == 'bin_frames':
        r = sa.bin_frames(op[1], in_place=op[2])
        return (sa if op[2] else r), model_bin(d, op[1], 2, 2)
    if k == 'reshape':
        return sa.reshape(tuple(op[1])), d.reshape(op[1])
    if k == 'setshape':
        sa.shape = tuple(op[1])
        return sa, d.reshape(op[1])
    if k == 'ravel':
        r = sa.ravel_scans()
        sa = sa if r is None else r
        return sa.reshape(tuple(op[1])), d.reshape(op[1])
    if k == 'set':
        d = d.copy()
        npos, fps = sa.data.shape
        pos, j = op[1], op[2] % fps
        npix = d.shape[2] * d.shape[3]
        flat = d.reshape(npos, npix)
        np.add.at(flat[pos], np.asarray(sa.data[pos, j]).astype(np.int64), -1)
        sa.data[pos, j] = np.array(op[3], dtype=sa.data[pos, j].dtype)
        np.add.at(flat[pos], np.array(op[3], np.int64), 1)
        return sa, d
    return sa[op[1]:, op[2]:], d[op[1]:, op[2]:]


def run(case, ctx):
    k = constant()
    sa = sc.make(case['arr'])
    d = sc.dense(case['arr'])
    before = sc.snapshot(sa)
    compare(sa, d, case, 'at first', k)
    check(sc.snapshot(sa) == before, 'the array was modified')
    for i, op in enumerate(case['ops']):
        sa, d = apply(op, sa, d)
        compare(sa, d, case, f'after {case["ops"][:i + 1]}', k)


@st.composite
def counted_cases(draw):
    h, w = draw(st.integers(8, 30)), draw(st.integers(8, 30))
    if draw(st.booleans()):
        h, w = draw(st.sampled_from([[24, 24], [16, 32], [32, 16], [20, 30]]))
    W, H = draw(st.sampled_from([[2, 2], [4, 2], [2, 3], [1, 1], [3, 1]]))
    n = draw(st.integers(1, W * H))
    c = {'h': h, 'w': w, 'W': W, 'H': H, 'positions': list(range(W * H))[:n],
         'seed': draw(st.integers(0, 9999))}
    ops, f = draw(op_list([H, W], [h, w], draw(st.integers(0, 3))))
    inner, outer = draw(ic.radii(w, h))
    return {'count': c, 'ops': ops, 'inner': inner, 'outer': outer, 'one': draw(st.booleans()),
            'center': draw(ic.centers(w, h, 60))}


def run_counted(case, ctx):
    from stempy import image, io
    c = case['count']
    rng = np.random.default_rng([c['seed'], 31])
    n, h, w = len(c['positions']), c['h'], c['w']
    f = rng.integers(10, 31, (n, h, w)).astype(np.uint16)
    for i in range(n):
        f[i, rng.integers(0, h, 9), rng.integers(0, w, 9)] += 100
    reader = io.PyReader(f, c['positions'], (c['W'], c['H']), 3, n)
    try:
        sa = image.electron_count(reader, background_threshold_n_sigma=2, xray_threshold_n_sigma=100)
    except RuntimeError:
        raise Reject()
    k = constant()
    check(tuple(sa.shape) == (c['H'], c['W'], h, w), 'shape {}', sa.shape)
    d = sc.dense_of(sa)
    compare(sa, d, case, 'counted', k)
    # The C++ object on its own
    kw = {} if tuple(case['center']) == (-1, -1) else {'center': tuple(case['center'])}
    got = np.asarray(image.create_stem_images(
        types.SimpleNamespace(_electron_counted_data=sa._electron_counted_data),
        case['inner'], case['outer'], **kw)).astype(np.int64)
    want = expected(d, case['inner'], case['outer'], case['center']) * k
    check(np.array_equal(got, want), 'counted data: {} instead of {}', got.tolist(), want.tolist())
    for i, op in enumerate(case['ops']):
        sa, d = apply(op, sa, d)
        compare(sa, d, case, f'counted, after {case["ops"][:i + 1]}', k)


@st.composite
def many_cases(draw):
    """As many electrons in a frame as it has pixels: sums beyond 32 bits"""
    h, w = draw(st.sampled_from([[256, 257], [300, 300], [260, 400], [576, 576], [1, 70000], [70000, 1]]))
    fps = draw(st.integers(1, 2))
    inner, outer = draw(ic.radii(w, h))
    if draw(st.integers(0, 3)) > 0:
        inner, outer = inner + [draw(st.integers(0, 3))], outer + [draw(st.sampled_from([500, 70001]))]
    return {'many': [h, w], 'fps': fps, 'n': draw(st.integers(1, 2)), 'inner': inner, 'outer': outer,
            'one': draw(st.booleans()), 'step': draw(st.sampled_from([1, 1, 2])),
            'center': draw(ic.centers(w, h, 600))}


def run_many(case, ctx):
    from stempy.io import SparseArray
    k = constant()
    h, w = case['many']
    data = np.empty((case['n'], case['fps']), object)
    for i in range(case['n']):
        for j in range(case['fps']):
            data[i, j] = np.arange(0, h * w, case['step'] if i == 0 else 1, dtype=np.uint32)
    sa = SparseArray(data, (1, case['n']), (h, w))
    compare(sa, sc.dense_of(sa), case, 'many electrons', k)


def nontrivial(case):
    if 'many' in case:
        return any(a < b for a, b in zip(case['inner'], case['outer']))
    return any(a < b for a, b in zip(case['inner'], case['outer'])) and (
        'count' in case or sc.events(case['arr']) > 0)


def classify(case):
    if 'many' in case:
        return ['%d pixels' % (case['many'][0] * case['many'][1])]
    out = sc.labels(case['arr']) if 'arr' in case else [
        'square' if case['count']['h'] == case['count']['w'] else 'nonsquare']
    out += sorted({o[0] for o in case['ops']})
    if any(o[0] in ('bin_scans', 'bin_frames', 'reshape', 'setshape') and o[2] for o in case['ops']):
        out.append('changed in place')
    if any(r > 40000 for r in case['outer']):
        out.append('huge radius')
    return out


SUBS = [
    Sub('arrays', cases, run, 'events, and an annulus that is not empty', nontrivial=nontrivial,
        classify=classify, quick=2000, thorough=60000, shards=4),
    Sub('large frames', lambda: cases(large=True), run, 'events, and an annulus that is not empty',
        nontrivial=nontrivial, classify=classify, quick=200, thorough=3000, shards=2),
    Sub('counted', counted_cases, run_counted, 'an annulus that is not empty', nontrivial=nontrivial,
        classify=classify, quick=800, thorough=20000, shards=2),
    Sub('many electrons', many_cases, run_many, 'an annulus that is not empty', nontrivial=nontrivial,
        classify=classify, quick=40, thorough=600, shards=2),
    Sub('arrays, wide', lambda: cases(large='wide'), sc.wide(run), 'events, and an annulus that is not empty; '
        'up to 66820 positions or 300 frames per position', nontrivial=sc.wide(nontrivial),
        classify=sc.wide_labels(classify), quick=100, thorough=3000, shards=4),
]
