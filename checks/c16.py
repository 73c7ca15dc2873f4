"""C16: electron-counted data survives being saved and loaded."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Sub, check

PROPERTY = 'C16'

NAMES = st.text(alphabet='abcxyzABC019_ -.éµ', min_size=1, max_size=8).filter(
    lambda s: s.strip('.') != '')
VALUES = st.one_of(
    st.integers(-2**63, 2**63 - 1), st.booleans(), st.text(alphabet='abc é0/.', max_size=6),
    st.floats(allow_nan=False, width=64),
    st.lists(st.integers(-1000, 1000), min_size=1, max_size=4),
    st.lists(st.floats(-1e6, 1e6), min_size=1, max_size=3))


@st.composite
def metadata(draw, depth=3):
    keys = draw(st.lists(NAMES, max_size=3, unique=True))
    out = {}
    for k in keys:
        if depth and draw(st.integers(0, 2)) == 0:
            out[k] = draw(metadata(depth - 1))
        else:
            out[k] = draw(VALUES)
    return out


def same_meta(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and
                all(same_meta(a[k], b[k]) for k in a))
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return np.array_equal(np.asarray(a), np.asarray(b))


@st.composite
def trip_cases(draw, arrays=None):
    arr = draw(arrays() if arrays else sc.sparse_cases(scan_ndim=(2,), max_scan=5))
    pre = draw(st.sampled_from(['none', 'none', 'bin_scans', 'bin_frames', 'slice', 'flip']))
    return {'arr': arr, 'meta': draw(metadata()), 'pre': pre,
            'api': draw(st.sampled_from(['io', 'class'])), 'pathlib': draw(st.booleans()),
            'count': draw(st.booleans())}


def frames_of(sa):
    return [[sorted(int(e) for e in f) for f in p] for p in sa.data]


def run_trip(case, ctx):
    import h5py
    from pathlib import Path
    from stempy import io
    from stempy.io import SparseArray
    c = case['arr']
    meta = dict(case['meta'])
    if case['count']:
        meta['electron_counting'] = {'background_threshold': 12.5, 'threshold_calculated': True,
                                     'number_of_samples': 20}
    sa = sc.make(c, metadata=meta)
    pre = case['pre']
    if pre == 'bin_scans' and all(x % 2 == 0 for x in c['scan']):
        sa = sa.bin_scans(2)
    elif pre == 'bin_frames' and all(x % 2 == 0 for x in c['frame']):
        sa = sa.bin_frames(2)
    elif pre == 'slice':
        sa = sa[:, :, 1:, :] if c['frame'][0] > 1 else sa[:, :]
    elif pre == 'flip':
        sa = sa[::-1, :, :, ::-1]
    before = sc.snapshot(sa)
    path = os.path.join(ctx.tmp, 'a.h5')
    arg = Path(path) if case['pathlib'] else path
    if case['api'] == 'io':
        io.save_electron_counts(arg, sa)
    else:
        sa.write_to_hdf5(arg)
    check(sc.snapshot(sa) == before, 'saving changed the array')
    sb = io.load_electron_counts(arg) if case['api'] == 'io' else SparseArray.from_hdf5(arg)
    check(tuple(sb.scan_shape) == tuple(sa.scan_shape), 'scan shape {} loaded as {}',
          sa.scan_shape, sb.scan_shape)
    check(tuple(sb.frame_shape) == tuple(sa.frame_shape), 'frame shape {} loaded as {}',
          sa.frame_shape, sb.frame_shape)
    check(sb.data.shape == sa.data.shape, 'data shape {} loaded as {}', sa.data.shape, sb.data.shape)
    check(frames_of(sb) == frames_of(sa), 'events {} loaded as {}', frames_of(sa), frames_of(sb))
    check(np.array_equal(sb.to_dense(), sc.dense_of(sa)), 'dense expansion differs after loading')
    want = meta if sa.metadata else {}
    check(same_meta(dict(sb.metadata), want), 'metadata {} loaded as {}', want, sb.metadata)
    # The file carries what other programs need.
    with h5py.File(path, 'r') as f:
        pos = f['electron_events/scan_positions']
        check(np.array_equal(pos[()], np.arange(len(sa.data))), 'scan positions in the file')
    # Without the flyback column
    if sa.scan_shape[1] >= 2:
        sd = io.load_electron_counts(arg, keep_flyback=False)
        h, w = sa.scan_shape
        want = [p for i, p in enumerate(frames_of(sa)) if i % w != w - 1]
        check(tuple(sd.scan_shape) == (h, w - 1), 'without flyback: scan shape {}', sd.scan_shape)
        check(tuple(sd.frame_shape) == tuple(sa.frame_shape), 'without flyback: frame shape')
        check(frames_of(sd) == want, 'without flyback: {} instead of {}', frames_of(sd), want)
        check(np.array_equal(sd.to_dense(), sc.dense_of(sa)[:, :-1]), 'without flyback: dense')
        check(same_meta(dict(sd.metadata), meta if sa.metadata else {}), 'without flyback: metadata')
    # A second generation is the same as the first.
    path2 = os.path.join(ctx.tmp, 'b.h5')
    sb.write_to_hdf5(path2)
    sc2 = SparseArray.from_hdf5(path2)
    check(frames_of(sc2) == frames_of(sa) and same_meta(dict(sc2.metadata), dict(sb.metadata)),
          'second round trip differs')


@st.composite
def legacy_cases(draw):
    version = draw(st.sampled_from([1, 2, 2]))
    h, w = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    frame = [draw(st.integers(1, 5)), draw(st.integers(1, 5))]
    npix = frame[0] * frame[1]
    npos = h * w
    if version == 1:
        # One list per position; a pixel may be listed several times.
        uniq = draw(st.booleans())
        rows = [[i, draw(st.lists(st.integers(0, npix - 1), max_size=min(6, npix) if uniq else 6,
                                  unique=uniq))] for i in range(npos)]
    else:
        # One list per frame, with explicit scan positions in any order.
        rows = []
        counts = [draw(st.integers(0, 3)) for _ in range(npos)]
        if draw(st.booleans()):
            counts = [max(1, c) for c in counts]
        for i, n in enumerate(counts):
            for _ in range(n):
                rows.append([i, draw(st.lists(st.integers(0, npix - 1), max_size=min(5, npix),
                                              unique=True).map(sorted))])
        if not rows:
            rows = [[0, [0]]]
        if draw(st.booleans()):
            rows = draw(st.permutations(rows))
    return {'version': version, 'scan': [h, w], 'frame': frame, 'rows': [list(r) for r in rows],
            'attr': draw(st.booleans()), 'meta': draw(metadata(1))}


def write_legacy(path, case):
    import h5py
    rows = case['rows']
    with h5py.File(path, 'w') as f:
        if case['version'] != 1 or case['attr']:
            f.attrs['version'] = case['version']
        g = f.create_group('electron_events')
        pos = g.create_dataset('scan_positions', data=np.array([r[0] for r in rows], dtype=np.int64))
        pos.attrs['Nx'], pos.attrs['Ny'] = case['scan'][1], case['scan'][0]
        fr = g.create_dataset('frames', (len(rows),), dtype=h5py.special_dtype(vlen=np.uint32))
        fr.attrs['Nx'], fr.attrs['Ny'] = case['frame']
        for i, r in enumerate(rows):
            fr[i] = np.array(r[1], dtype=np.uint32)


def run_legacy(case, ctx):
    from stempy import io
    path = os.path.join(ctx.tmp, 'old.h5')
    write_legacy(path, case)
    h, w = case['scan']
    npix = case['frame'][0] * case['frame'][1]
    d = np.zeros((h * w, npix), dtype=np.int64)
    for pos, ev in case['rows']:
        for e in ev:
            d[pos, e] += 1
    d = d.reshape(h, w, *case['frame'])
    for fly in (True, False):
        if not fly and w < 2:
            continue
        sa = io.load_electron_counts(path, keep_flyback=fly)
        want = d if fly else d[:, :-1]
        check(tuple(sa.shape) == want.shape, 'version {}, keep_flyback={}: shape {} instead of {}',
              case['version'], fly, sa.shape, want.shape)
        for f in sa.data.ravel():
            check(len(np.unique(f)) == len(f), 'a loaded frame holds a pixel twice: {}', f)
        check(np.array_equal(sc.dense_of(sa), want), 'version {}, keep_flyback={}: {} instead of {}',
              case['version'], fly, sc.dense_of(sa).tolist(), want.tolist())
        check(np.array_equal(sa.to_dense(), want), 'to_dense')
    # Upgrading: load, save, load
    sa = io.load_electron_counts(path)
    p2 = os.path.join(ctx.tmp, 'new.h5')
    io.save_electron_counts(p2, sa)
    sb = io.load_electron_counts(p2)
    check(np.array_equal(sc.dense_of(sb), d), 'upgraded file differs')


def legacy_labels(c):
    out = [f"v{c['version']}"]
    n = {}
    for p, ev in c['rows']:
        n[p] = n.get(p, 0) + 1
        if len(set(ev)) != len(ev):
            out.append('v1-repeated-pixel')
    if max(n.values()) > 1:
        out.append('several-lists-per-position')
    if len(n) < c['scan'][0] * c['scan'][1]:
        out.append('missing-positions')
    return sorted(set(out))


SUBS = [
    Sub('roundtrip', trip_cases, run_trip,
        rule='an array (events, metadata tree, possibly binned or sliced first) saved and loaded with '
             'and without the flyback column; non-trivial = at least two events',
        nontrivial=lambda c: sc.events(c['arr']) > 1,
        classify=lambda c: sc.labels(c['arr']) + ['pre-' + c['pre'], 'meta%d' % len(c['meta'])],
        quick=2400, thorough=40000, shards=12),
    Sub('roundtrip-large', lambda: trip_cases(lambda: sc.large_cases(scan_ndim=(2,))), run_trip,
        rule='as roundtrip, detector-sized frames', nontrivial=lambda c: sc.events(c['arr']) > 1,
        classify=lambda c: sc.labels(c['arr']), quick=150, thorough=3000, shards=4),
    Sub('legacy', legacy_cases, run_legacy,
        rule='a version 1 or 2 file; non-trivial = at least two events',
        nontrivial=lambda c: sum(len(r[1]) for r in c['rows']) > 1, classify=legacy_labels,
        quick=2000, thorough=30000, shards=8),
    Sub('roundtrip-wide', lambda: trip_cases(lambda: sc.wide_cases(scan_ndim=(2,))), sc.wide(run_trip),
        rule='as roundtrip, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(lambda c: sc.events(c['arr']) > 1),
        classify=sc.wide_labels(lambda c: sc.labels(c['arr'])), quick=120, thorough=3000, shards=6),
]
