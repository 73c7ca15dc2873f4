"""C18: virtual detectors on sparse data agree with the dense frames."""
import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Sub, check

PROPERTY = 'C18'
DT = ['uint32', 'uint32', 'int64', 'uint16', 'int32']


def quarter(lo, hi):
    """Integers, or multiples of a quarter: squared distances stay exact."""
    return st.one_of(st.integers(lo, hi), st.integers(4 * lo, 4 * hi).map(lambda k: k / 4))


@st.composite
def arrays(draw, large=False):
    if large == 'wide':
        return draw(sc.wide_cases(scan_ndim=(2,)))
    if large:
        return draw(sc.sparse_cases(max_scan=2, max_positions=4, frame_shapes=sc.LARGE_FRAMES,
                                    max_fps=2, dtypes=['uint32', 'int64'], density='mixed',
                                    scan_ndim=(2,)))
    if draw(st.integers(0, 4)) == 0:
        # Far pixels, whose numbers still fit into few bits
        arr = draw(sc.sparse_cases(scan_ndim=(2,), max_scan=3, dtypes=['uint8', 'uint16', 'uint32'],
                                   frame_shapes=[(2, 128), (3, 80), (60, 4), (40, 6), (16, 16)]))
        return arr
    arr = draw(sc.sparse_cases(scan_ndim=(2,), max_frame=8, max_scan=5, dtypes=DT))
    if int(np.prod(arr['frame'])) <= 256 and draw(st.integers(0, 9)) == 0:
        arr['edt'] = 'uint8'
    return arr


@st.composite
def vdf_cases(draw, large=False):
    arr = draw(arrays(large))
    r, q = arr['frame']
    n = draw(st.integers(1, 3))
    ap = [[draw(quarter(-2, q + 2)), draw(quarter(-2, r + 2)),
           draw(quarter(0, max(r, q) + 3))] for _ in range(n)]
    return {'arr': arr, 'ap': ap,
            'form': draw(st.sampled_from(['tuple', 'list', 'array'] + (['scalar'] if n == 1 else [])))}


def run_vdf(case, ctx):
    from stempy import image
    c = case['arr']
    sa = sc.make(c)
    before = sc.snapshot(sa)
    want = np.zeros(len(c['ev']), dtype=np.int64)
    rows, cols = np.indices(c['frame'])
    det = np.zeros(c['frame'], dtype=np.int64)
    for cx, cy, r in case['ap']:
        det += (cols - cx)**2.0 + (rows - cy)**2.0 < float(r)**2
    d = sc.dense(c).reshape((-1,) + tuple(c['frame']))
    want = (d * det).sum(axis=(1, 2)).reshape(c['scan'])
    xs, ys, rs = zip(*case['ap'])
    if case['form'] == 'scalar':
        xs, ys, rs = xs[0], ys[0], rs[0]
    elif case['form'] == 'list':
        xs, ys, rs = list(xs), list(ys), list(rs)
    elif case['form'] == 'array':
        xs, ys, rs = np.array(xs), np.array(ys), np.array(rs)
    got = image.virtual_darkfield(sa, xs, ys, rs)
    check(got.shape == want.shape and np.array_equal(got, want), '{} instead of {}',
          got.tolist(), want.tolist())
    check(sc.snapshot(sa) == before, 'the input was modified')


@st.composite
def mask_cases(draw, large=False):
    arr = draw(arrays(large))
    n = len(arr['ev']) if large != 'wide' else draw(st.integers(1, 7))
    return {'arr': arr, 'mask': draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)),
            'mdt': draw(st.sampled_from(['bool', 'int64', 'uint8', 'float64'])),
            'flat': draw(st.booleans())}


def run_mask(case, ctx):
    from stempy import image
    c = case['arr']
    sa = sc.make(c)
    before = sc.snapshot(sa)
    d = sc.dense(c)
    m = np.resize(np.array(case['mask'], dtype=case['mdt']), c['scan'])
    keep = m.copy()
    want = d[m != 0].sum(axis=0)
    got = image.mask_real_space(sa, m)
    check(got.shape == want.shape and np.array_equal(got, want), 'mask_real_space: {} instead of {}',
          got.tolist(), want.tolist())
    check(np.array_equal(keep, m), 'the mask was modified')
    # The sum pattern of the same positions
    data = sa.data
    flat = m.ravel() != 0
    if case['flat']:
        # one (concatenated) list per position
        one = np.empty(int(flat.sum()), dtype=object)
        for k, i in enumerate(np.flatnonzero(flat)):
            one[k] = np.concatenate([np.asarray(f) for f in data[i]]).astype(c['edt'])
        arg = one
    else:
        arg = data[flat]
    got = image.calculate_sum_sparse(arg, tuple(c['frame']))
    check(got.shape == want.shape and np.array_equal(got, want),
          'calculate_sum_sparse: {} instead of {}', got.tolist(), want.tolist())
    full = d.sum(axis=(0, 1))
    check(np.array_equal(image.calculate_sum_sparse(data, tuple(c['frame'])), full),
          'calculate_sum_sparse of all')
    check(sc.snapshot(sa) == before, 'the input was modified')


@st.composite
def radial_cases(draw, large=False):
    arr = draw(arrays(large))
    r, q = arr['frame']
    return {'arr': arr, 'center': [draw(quarter(-2, r + 1)), draw(quarter(-2, q + 1))],
            'form': draw(st.sampled_from(['tuple', 'list', 'array']))}


def run_radial(case, ctx):
    from stempy import image
    c = case['arr']
    sa = sc.make(c)
    before = sc.snapshot(sa)
    r, q = c['frame']
    nb = max(r, q) // 2
    rows, cols = np.indices((r, q))
    d2 = (rows - case['center'][0])**2.0 + (cols - case['center'][1])**2.0
    ring = np.floor(np.sqrt(d2)).astype(int)
    edge = d2 == float(nb)**2
    d = sc.dense(c).reshape(-1, r, q)
    want = np.array([np.bincount(ring.ravel(), weights=f.ravel(), minlength=nb)[:nb] for f in d])
    want = want.reshape(len(d), nb).astype(np.int64)
    # The last ring may or may not include its outer edge.
    slack = (d * edge).sum(axis=(1, 2))
    ctr = {'tuple': tuple(case['center']), 'list': list(case['center']),
           'array': np.array(case['center'])}[case['form']]
    got = image.radial_sum_sparse(sa, ctr)
    check(got.shape == tuple(c['scan']) + (nb,), 'shape {}', got.shape)
    if nb:
        got = got.reshape(-1, nb).astype(np.int64)
        alt = want.copy()
        alt[:, -1] += slack
        check(np.array_equal(got, want) or np.array_equal(got, alt), '{} instead of {}',
              got.tolist(), want.tolist())
    check(sc.snapshot(sa) == before, 'the input was modified')


def nt(c):
    return sc.events(c['arr']) > 1


def cl(c):
    return sc.labels(c['arr']) + [c['arr']['edt']]


def vdf_cl(c):
    return cl(c) + ['apertures%d' % len(c['ap'])]


SUBS = [
    Sub('darkfield', vdf_cases, run_vdf,
        rule='a 4D array and 1-3 apertures (centres inside and outside the frame, quarter-pixel '
             'steps so that the strict comparison is exact); non-trivial = at least two events',
        nontrivial=nt, classify=vdf_cl, quick=6000, thorough=120000, shards=6),
    Sub('darkfield-large', lambda: vdf_cases(True), run_vdf, rule='as darkfield, detector-sized frames',
        nontrivial=nt, classify=vdf_cl, quick=300, thorough=4000, shards=3),
    Sub('sums', mask_cases, run_mask,
        rule='a 4D array and a mask of scan positions; non-trivial = at least two events',
        nontrivial=nt, classify=cl, quick=6000, thorough=100000, shards=6),
    Sub('sums-large', lambda: mask_cases(True), run_mask, rule='as sums, detector-sized frames',
        nontrivial=nt, classify=cl, quick=200, thorough=3000, shards=2),
    Sub('radial', radial_cases, run_radial,
        rule='a 4D array and a centre; non-trivial = at least two events',
        nontrivial=nt, classify=cl, quick=5000, thorough=100000, shards=6),
    Sub('radial-large', lambda: radial_cases(True), run_radial, rule='as radial, detector-sized frames',
        nontrivial=nt, classify=cl, quick=300, thorough=4000, shards=3),
    Sub('darkfield-wide', lambda: vdf_cases('wide'), sc.wide(run_vdf),
        rule='as darkfield, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(nt), classify=sc.wide_labels(cl), quick=120, thorough=3000, shards=4),
    Sub('sums-wide', lambda: mask_cases('wide'), sc.wide(run_mask),
        rule='as sums, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(nt), classify=sc.wide_labels(cl), quick=120, thorough=3000, shards=4),
    Sub('radial-wide', lambda: radial_cases('wide'), sc.wide(run_radial),
        rule='as radial, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(nt), classify=sc.wide_labels(cl), quick=120, thorough=3000, shards=4),
]
