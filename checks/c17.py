"""C17: center of mass of sparse data equals that of the dense frames."""
import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Reject, Sub, check

PROPERTY = 'C17'
DT = ['uint32', 'uint32', 'int64', 'uint16', 'int32', 'uint8', 'uint64']


@st.composite
def cases(draw, large=False, arrays=None):
    if arrays:
        arr = draw(arrays())
    elif large:
        arr = draw(sc.large_cases(scan_ndim=(2,)))
    else:
        fr = draw(st.sampled_from([None, None, [[8, 8], [16, 16], [4, 8], [8, 4], [16, 5], [5, 16],
                                                [12, 20]]]))
        arr = draw(sc.sparse_cases(max_scan=4, max_frame=9, frame_shapes=fr, scan_ndim=(2, 2, 1),
                                   dtypes=['uint32', 'int64', 'uint16', 'int32', 'uint8', 'uint64']))
    if arr['edt'] == 'uint8' and int(np.prod(arr['frame'])) > 256:
        arr['edt'] = 'uint16'
    big = max(arr['frame'])
    crop = draw(st.one_of(st.none(), st.integers(0, big + 1), st.integers(1, 4 * big + 4).map(lambda k: k / 4)))
    if not arrays and draw(st.integers(0, 3)) == 0:
        # Events exactly as far from their center as the crop radius
        rows, cols = arr['frame']
        a, b = draw(st.sampled_from([(1, 0), (0, 1), (2, 0), (0, 2), (0, 3), (3, 4), (4, 3)]))
        if rows > 2 * a and cols > 2 * b:
            r, q = draw(st.integers(a, rows - 1 - a)), draw(st.integers(b, cols - 1 - b))
            # One frame with both, and once more at the center in two further frames
            p = [[(r - a) * cols + q - b, (r + a) * cols + q + b]] + [[]] * (arr['fps'] - 1)
            if arr['fps'] > 2 and draw(st.booleans()):
                p[1] = p[2] = [r * cols + q]
            arr['ev'][draw(st.integers(0, len(arr['ev']) - 1))] = p
            crop = 5 if a and b else max(a, b)
    init = None
    if crop is not None or draw(st.integers(0, 4)) == 0:
        init = draw(st.one_of(st.none(), st.tuples(
            st.integers(-1, arr['frame'][0]), st.integers(-1, arr['frame'][1])).map(list)))
    return {'arr': arr, 'crop': crop, 'init': init,
            'crop_form': draw(st.sampled_from(['scalar', 'scalar', 'tuple', 'list'])),
            'init_form': draw(st.sampled_from(['tuple', 'list', 'array'])),
            'replace': draw(st.booleans())}


def reference(c, crop, init):
    """Columns first, rows second; NaN without counts. None when too close to call."""
    n = len(c['ev'])
    ncol = c['frame'][1]
    out = np.full((2, n), np.nan)
    for i, p in enumerate(c['ev']):
        ev = np.array([e for f in p for e in f], dtype=np.int64)
        if not len(ev):
            continue
        r, q = (ev // ncol).astype(float), (ev % ncol).astype(float)
        if crop is not None:
            cr, cq = (r.mean(), q.mean()) if init is None else init
            d2 = (r - cr)**2 + (q - cq)**2
            near = np.abs(np.sqrt(d2) - crop) < 2e-3 * max(1, crop)
            if init is None:
                # Exact in single precision as well: a few events at small numbers
                n_ev = len(ev)
                exact = (n_ev & (n_ev - 1) == 0) & (d2 == float(crop)**2) & (d2 * n_ev**2 < 2**24)
                if (near & ~exact).any():
                    raise Reject()
            elif (near & (d2 != float(crop)**2)).any():
                raise Reject()
            keep = d2 <= float(crop)**2
            r, q = r[keep], q[keep]
            if not len(r):
                continue
        out[:, i] = q.mean(), r.mean()
    return out


def run(case, ctx):
    from stempy import image
    c = case['arr']
    sa = sc.make(c)
    before = sc.snapshot(sa)
    ref = reference(c, case['crop'], case['init'])
    if case['replace']:
        for k in range(2):
            bad = np.isnan(ref[k])
            if bad.any() and not bad.all():
                ref[k, bad] = ref[k][~bad].mean()
    ref = ref.reshape((2,) + tuple(c['scan']))
    kw = {}
    if case['crop'] is not None:
        v = case['crop']
        kw['crop_to'] = {'scalar': v, 'tuple': (v, v), 'list': [v / 2, v]}[case['crop_form']]
    if case['init'] is not None:
        i = case['init']
        kw['init_center'] = {'tuple': tuple(i), 'list': list(i),
                             'array': np.array(i)}[case['init_form']]
    for version in (0, 1):
        got = image.com_sparse(sa, replace_nans=case['replace'], version=version, **kw)
        check(got.shape == ref.shape, 'version {}: shape {} instead of {}', version, got.shape, ref.shape)
        check(np.array_equal(np.isnan(got), np.isnan(ref)), 'version {}: NaN at {} instead of {}',
              version, np.isnan(got), np.isnan(ref))
        ok = ~np.isnan(ref)
        check(np.allclose(got[ok], ref[ok], rtol=1e-4, atol=1e-4), 'version {}: {} instead of {}',
              version, got.tolist(), ref.tolist())
        check(sc.snapshot(sa) == before, 'version {} changed the array', version)
    default = image.com_sparse(sa, **{k: v for k, v in kw.items()})
    full = reference(c, case['crop'], case['init'])
    if not np.isnan(full).all():
        check(not np.isnan(default).any(), 'by default no NaN is left: {}', default.tolist())
    # The dense function
    d = sc.dense(c).reshape((-1,) + tuple(c['frame']))
    nz = d.sum(axis=(1, 2)) > 0
    if nz.any():
        cd = image.com_dense(d[nz])
        full = reference(c, None, None)[:, nz]
        check(np.allclose(cd, full, rtol=1e-9, atol=1e-9), 'com_dense: {} instead of {}',
              cd.tolist(), full.tolist())
        one = image.com_dense(d[nz][0])
        check(np.allclose(one, full[:, :1], rtol=1e-9, atol=1e-9), 'com_dense of one frame')


@st.composite
def dense_cases(draw):
    n, r, q = draw(st.integers(1, 3)), draw(st.integers(1, 6)), draw(st.integers(1, 6))
    vals = draw(st.lists(st.integers(0, 1000), min_size=n * r * q, max_size=n * r * q))
    return {'shape': [n, r, q], 'vals': vals, 'scale': draw(st.sampled_from([1, 2, 7])),
            'dt': draw(st.sampled_from(['int64', 'uint16', 'float32', 'uint32']))}


def run_dense(case, ctx):
    from stempy import image
    a = np.array(case['vals'], dtype=case['dt']).reshape(case['shape'])
    d = a.astype(np.float64)
    d[d.sum(axis=(1, 2)) == 0] += 1
    if (d != a).any():
        a = d.astype(case['dt'])
    rows, cols = np.indices(a.shape[1:])
    tot = d.sum(axis=(1, 2))
    ref = np.array([(d * cols).sum(axis=(1, 2)) / tot, (d * rows).sum(axis=(1, 2)) / tot])
    keep = a.copy()
    got = image.com_dense(a)
    check(got.shape == ref.shape and np.allclose(got, ref, rtol=1e-6, atol=1e-6),
          '{} instead of {}', got.tolist(), ref.tolist())
    check(np.array_equal(a, keep), 'com_dense changed its input')


def classify(c):
    out = sc.labels(c['arr']) + [c['arr']['edt']]
    out.append('no-crop' if c['crop'] is None else 'crop-com' if c['init'] is None else 'crop-init')
    r, q = c['arr']['frame']
    out.append('pow2-%d%d' % (r & (r - 1) == 0, q & (q - 1) == 0))
    return out


SUBS = [
    Sub('com', cases, run,
        rule='an array with crop radius, initial centre and NaN handling, both versions against a '
             'float64 reference; events within 0.2% of the crop radius are outside the domain unless '
             'the tie is exact; non-trivial = at least two events',
        nontrivial=lambda c: sc.events(c['arr']) > 1, classify=classify,
        quick=8000, thorough=150000, shards=12),
    Sub('com-large', lambda: cases(True), run, rule='as com, detector-sized frames',
        nontrivial=lambda c: sc.events(c['arr']) > 1, classify=classify,
        quick=240, thorough=4000, shards=4),
    Sub('com-dense', dense_cases, run_dense, rule='weighted dense frames; non-trivial = all',
        quick=1500, thorough=20000, shards=2),
    Sub('com-wide', lambda: cases(arrays=sc.wide_cases), sc.wide(run),
        rule='as com, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(lambda c: sc.events(c['arr']) > 1), classify=sc.wide_labels(classify),
        quick=160, thorough=4000, shards=6),
]
