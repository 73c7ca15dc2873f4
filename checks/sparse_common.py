"""Generators and the dense reference model shared by the SparseArray checks."""
import numpy as np
from hypothesis import strategies as st

EVENT_DTYPES = ['uint32', 'uint32', 'int64', 'uint16', 'int32', 'uint64']


@st.composite
def sparse_cases(draw, max_scan=4, max_frame=6, max_fps=3, scan_ndim=(1, 2),
                 min_frame=1, dtypes=EVENT_DTYPES, density=None, unsorted=True,
                 frame_shapes=None, max_positions=12, empty_frames=True):
    """A JSON description of a SparseArray.

    {"scan": [..], "frame": [r, c], "fps": k, "edt": dtype,
     "ev": [[events of frame] * fps] * positions}
    """
    nd = draw(st.sampled_from(list(scan_ndim)))
    if nd == 1:
        scan = [draw(st.integers(1, max_scan * 2))]
    else:
        h = draw(st.integers(1, max_scan))
        w = draw(st.integers(1, max(1, min(max_scan, max_positions // h))))
        scan = [h, w]
    if frame_shapes is not None:
        frame = list(draw(st.sampled_from(frame_shapes)))
    else:
        frame = [draw(st.integers(min_frame, max_frame)), draw(st.integers(min_frame, max_frame))]
    npix = frame[0] * frame[1]
    fps = draw(st.integers(1, max_fps))
    npos = int(np.prod(scan))
    kind = draw(st.sampled_from(['mixed', 'mixed', 'mixed', 'single', 'equal', 'full', 'empty'])
                if density is None else st.just(density))
    one = st.lists(st.integers(0, npix - 1), min_size=0 if empty_frames else 1,
                   max_size=min(npix, 8), unique=True)
    if kind == 'single':
        one = st.lists(st.integers(0, npix - 1), min_size=1, max_size=1)
    elif kind == 'equal':
        k = draw(st.integers(1, min(npix, 4)))
        one = st.lists(st.integers(0, npix - 1), min_size=k, max_size=k, unique=True)
    elif kind == 'full':
        one = st.one_of(st.just(list(range(npix))), one)
    elif kind == 'empty':
        one = st.one_of(st.just([]), st.just([]), one)
    ev = [[draw(one) for _ in range(fps)] for _ in range(npos)]
    if not unsorted or draw(st.integers(0, 3)) > 0:
        ev = [[sorted(f) for f in p] for p in ev]
    edt = draw(st.sampled_from(dtypes))
    return {'scan': scan, 'frame': frame, 'fps': fps, 'edt': edt, 'ev': ev}


LARGE_FRAMES = [[576, 576], [300, 400], [512, 256], [1, 70000], [257, 300]]


def large_cases(**kw):
    """Few positions, frames of detector size (events beyond 16 bits)."""
    return sparse_cases(max_scan=2, max_positions=4, frame_shapes=LARGE_FRAMES, max_fps=2,
                        dtypes=['uint32', 'int64', 'uint64'], density='mixed', **kw)


WIDE_SCANS = [[300], [512], [17, 16], [16, 18], [70, 4], [3, 100], [260, 1], [1, 260], [20, 300],
              [64, 60], [48, 30]]


@st.composite
def wide_cases(draw, scan_ndim=(1, 2), huge=True):
    """Scans of many positions, or positions of many frames.

    The events are described by a seed; full() writes them out.
    """
    kind = draw(st.sampled_from(['scan'] * 5 + ['frames'] * 4 + ['huge'] * huge))
    ok = [s for s in WIDE_SCANS if len(s) in scan_ndim]
    if kind == 'scan':
        scan, fps = draw(st.sampled_from(ok)), draw(st.sampled_from([1, 1, 2, 3]))
    elif kind == 'frames':
        scan = draw(st.sampled_from([s for s in ([1], [3], [4], [1, 1], [2, 2], [2, 4], [3, 2])
                                     if len(s) in scan_ndim]))
        fps = draw(st.sampled_from([9, 20, 70, 260, 300]))
    else:
        scan = draw(st.sampled_from([s for s in ([65800], [257, 256], [256, 260])
                                     if len(s) in scan_ndim]))
        fps = 1
    frame = draw(st.sampled_from([[1, 1], [2, 1], [2, 2], [1, 4]] if kind == 'huge' else
                                 [[1, 1], [2, 2], [3, 4], [4, 4], [6, 3], [1, 5], [8, 8], [20, 20]]))
    return {'scan': list(scan), 'frame': list(frame), 'fps': fps,
            'edt': draw(st.sampled_from(['uint32', 'int64', 'uint16', 'uint64'])),
            'ev': {'seed': draw(st.integers(0, 2**20)), 'keep': draw(st.sampled_from([2, 20, 70, 100])),
                   'most': draw(st.sampled_from([1, 2, 5]))}}


def full(c):
    """The case with the events written out."""
    if not isinstance(c['ev'], dict):
        return c
    rng = np.random.default_rng(c['ev']['seed'])
    npos, npix, fps = int(np.prod(c['scan'])), int(np.prod(c['frame'])), c['fps']
    ev = [[[] for _ in range(fps)] for _ in range(npos)]
    kept = np.flatnonzero(rng.random(npos * fps) * 100 < c['ev']['keep'])
    size = rng.integers(1, min(npix, c['ev']['most']) + 1, len(kept))
    for k, n in zip(kept.tolist(), size.tolist()):
        ev[k // fps][k % fps] = sorted(set(rng.integers(0, npix, n).tolist()))
    ev[-1][-1] = sorted(set(ev[-1][-1]) | {npix - 1})
    return {**c, 'ev': ev}


def wide(fn):
    """fn, given a case whose array may be described by a seed."""
    return lambda case, *a: fn({**case, 'arr': full(case['arr'])}, *a)


def wide_labels(fn):
    def labels_of(case):
        c = case['arr']
        n = int(np.prod(c['scan']))
        size = 'positions>65535' if n > 65535 else 'positions>255' if n > 255 else 'few-positions'
        many = ['frames>255'] if c['fps'] > 255 else ['frames>8'] if c['fps'] > 8 else []
        drop = {'fps%d' % c['fps']} if many else set()
        return [x for x in fn({**case, 'arr': full(c)}) if x not in drop] + [size] + many
    return labels_of


def data_array(c):
    npos, fps = len(c['ev']), c['fps']
    data = np.empty((npos, fps), dtype=object)
    for i, p in enumerate(c['ev']):
        for j, f in enumerate(p):
            data[i, j] = np.array(f, dtype=c['edt'])
    return data


def make(c, omit=False, **kw):
    """The array; with omit, settings that have the documented default are left out."""
    from stempy.io import SparseArray
    if omit:
        default = {'dtype': np.uint32, 'sparse_slicing': True, 'allow_full_expand': False}
        kw = {k: v for k, v in kw.items() if default.get(k, kw) is not v}
    return SparseArray(data_array(c), tuple(c['scan']), tuple(c['frame']), **kw)


def dense(c):
    npix = int(np.prod(c['frame']))
    out = np.zeros((len(c['ev']), npix), dtype=np.int64)
    for i, p in enumerate(c['ev']):
        for f in p:
            for e in f:
                out[i, e] += 1
    return out.reshape(tuple(c['scan']) + tuple(c['frame']))


def snapshot(sa):
    return (tuple(int(x) for x in sa.scan_shape), tuple(int(x) for x in sa.frame_shape),
            tuple(tuple((str(f.dtype), tuple(int(e) for e in f)) for f in p) for p in sa.data))


def dense_of(sa):
    """Expand without going through the code under test."""
    npix = int(np.prod(sa.frame_shape))
    out = np.zeros((len(sa.data), npix), dtype=np.int64)
    for i, p in enumerate(sa.data):
        for f in p:
            np.add.at(out[i], np.asarray(f).astype(np.int64), 1)
    return out.reshape(tuple(sa.scan_shape) + tuple(sa.frame_shape))


def has_multi(c):
    """A pixel hit in two frames of one position."""
    for p in c['ev']:
        seen = set()
        for f in p:
            if seen & set(f):
                return True
            seen |= set(f)
    return False


def labels(c):
    out = [f"scan{len(c['scan'])}d", f"fps{c['fps']}"]
    out.append('square' if c['frame'][0] == c['frame'][1] else 'nonsquare')
    if any(not any(p) for p in c['ev']):
        out.append('has-empty-position')
    if has_multi(c):
        out.append('pixel-hit-twice')
    return out


def events(c):
    return sum(len(f) for p in c['ev'] for f in p)
