"""C24: data that could not be stored is reported: a saving function that returns has saved everything."""
import ctypes
import errno
import gc
import os
import resource
import signal
import subprocess

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import raw_common as rc
from checks import sparse_common as sc
from checks.c16 import frames_of, metadata, same_meta
from vp.core import Reject, Sub, check

PROPERTY = 'C24'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# Where the room ends, in 1/1000 of the complete file or in bytes
FAULTS = st.one_of(
    st.tuples(st.just('part'), st.integers(0, 1000)), st.tuples(st.just('part'), st.integers(900, 1010)),
    st.tuples(st.just('bytes'), st.integers(0, 4096)), st.tuples(st.just('short'), st.integers(1, 4096)),
    st.tuples(st.just('short'), st.integers(1, 64)),
    st.tuples(st.just('path'), st.sampled_from(['missing', 'directory', 'file', 'empty', 'long', 'loop'])),
    # Write k (in 1/1000 of all) and up to n-1 further ones fail
    st.tuples(st.just('error'), st.tuples(st.one_of(st.integers(0, 1000), st.sampled_from([999, 1000])),
                                          st.sampled_from([1, 1, 2, 10**9]),
                                          st.sampled_from(['EIO', 'ENOSPC', 'EDQUOT'])).map(list)),
    st.tuples(st.just('error'), st.tuples(st.integers(0, 1000), st.integers(1, 3),
                                          st.sampled_from(['EINTR', 'short'])).map(list)),
    st.tuples(st.just('none'), st.just(0))).map(list)


def bad_path(kind, tmp):
    if kind == 'missing':
        return os.path.join(tmp, 'no', 'such', 'f.h5')
    if kind == 'directory':
        p = os.path.join(tmp, 'f.h5')
        os.mkdir(p)
        return p
    if kind == 'file':
        with open(os.path.join(tmp, 'plain'), 'w') as f:
            f.write('x')
        return os.path.join(tmp, 'plain', 'f.h5')
    if kind == 'loop':
        p = os.path.join(tmp, 'f.h5')
        os.symlink(p, p)
        return p
    return '' if kind == 'empty' else os.path.join(tmp, 'x' * 300 + '.h5')


def prepare_failio(scratch, builds):
    so = os.path.join(scratch, 'failio.so')
    if not os.path.exists(so):
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so + '.tmp',
                        os.path.join(HERE, 'harness', 'failio.c'), '-ldl'], check=True)
        os.rename(so + '.tmp', so)
    return {'LD_PRELOAD': so}


def failio():
    lib = ctypes.CDLL(None)
    lib.failio_arm.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
    lib.failio_count.restype = lib.failio_fired.restype = ctypes.c_long
    return lib


def fault_range(fault, total):
    at, n, kind = fault
    first = min(at * total // 1000, max(total - 1, 0))
    return first, first + n - 1, 0 if kind == 'short' else getattr(errno, kind)


def attempt(action, tmp, limit, timeout=100, library=False, errors=False):
    """What becomes of action() in a process that can write files of `limit` bytes.

    The process ends without the handlers of HDF5, which may crash when a file cannot be flushed.
    """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.chdir(tmp)
            signal.alarm(timeout)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            if limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                action()
                gc.collect()
                os.write(w, b'returned')
            except Exception as e:
                os.write(w, b'raised ' + repr(e).encode('utf-8', 'replace')[:500])
        finally:
            os._exit(0)
    os.close(w)
    out = b''
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        out += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not out:
        check(not os.WIFSIGNALED(status) or os.WTERMSIG(status) != signal.SIGALRM, 'no result (hang)')
        # HDF5 2.0 dereferences freed memory in h5py's File.close() after data could not be written, with
        # or without this project. That is not silent.
        if library and (limit is not None or errors) and os.WIFSIGNALED(status) and \
                os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            return 'raised: crash of h5py'
        check(False, 'the process died: status {}', status)
    return out.decode('utf-8', 'replace')


def judge(case, ctx, save, verify, prepare=lambda path: None, library=True):
    """save(path) in a forked process, then verify(path)"""
    path = os.path.join(ctx.tmp, 'f.h5')
    kind, n = case['fault']
    if kind == 'path':
        bad = bad_path(n, ctx.tmp)
        got = attempt(lambda: save(bad), ctx.tmp, None)
        check(got.startswith('raised'), 'a path that cannot be written ({}): {}', n, got)
        return
    prepare(path)
    before = os.path.getsize(path) if os.path.exists(path) else 0
    got = attempt(lambda: save(path), ctx.tmp, None)
    check(got == 'returned', 'with enough room: {}', got)
    verify(path)
    size = os.path.getsize(path)
    if kind == 'none':
        return
    os.remove(path)
    prepare(path)
    if kind == 'error':
        injected(n, path, ctx, save, verify, prepare, library)
        return
    limit = {'part': size * n // 1000, 'bytes': n, 'short': max(size - n, 0)}[kind]
    got = attempt(lambda: save(path), ctx.tmp, limit, library=library)
    if got == 'returned':
        try:
            verify(path)
        except Reject:
            raise
        except Exception as e:
            check(False, 'a file limited to {} bytes of {} ({} before) was saved without an error, but {}: {}',
                  limit, size, before, type(e).__name__, str(e)[:300])
    else:
        check(got.startswith('raised'), 'a file limited to {} bytes: {}', limit, got)
        check(limit <= size * 2 + (1 << 20), 'a file limited to {} bytes of {}: {}', limit, size, got)


def injected(fault, path, ctx, save, verify, prepare, library):
    name = os.path.realpath(path).encode()

    def count():
        lib = failio()
        lib.failio_arm(name, ord('w'), -1, -1, 0)
        save(path)
        gc.collect()
        raise KeyError(lib.failio_count())

    got = attempt(count, ctx.tmp, None)
    check(got.startswith('raised KeyError('), 'without errors: {}', got)
    total = int(got[len('raised KeyError('):-1])
    check(total > 0, 'nothing is written')
    os.remove(path)
    prepare(path)

    def fail():
        failio().failio_arm(name, ord('w'), *fault_range(fault, total))
        save(path)

    got = attempt(fail, ctx.tmp, None, library=library, errors=True)
    what = f'writes {fault_range(fault, total)[:2]} of {total} failed ({fault[2]})'
    if got == 'returned':
        try:
            verify(path)
        except Reject:
            raise
        except Exception as e:
            check(False, '{}; this is not reported, but {}: {}', what, type(e).__name__, str(e)[:300])
    else:
        check(got.startswith('raised'), '{}: {}', what, got)
        check(fault[2] not in ('EINTR', 'short'), '{}: this is no failure, but {}', what, got)


@st.composite
def export_cases(draw):
    # At least one frame: without any there is nothing to store
    d = draw(rc.datasets(max_frames=4, big=False))
    return {'data': d, 'format': draw(st.sampled_from(['frame', 'frame', 'cube'])),
            'over': draw(st.booleans()), 'fault': draw(FAULTS)}


def run_export(case, ctx):
    import h5py
    from stempy import io
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    W, H = d['W'], d['H']
    want = {f[0]: ds.expected(k) for k, f in enumerate(ds.frames) if f[2]}
    if not want:
        raise Reject()
    F = io.SectorReader.H5Format
    cube = case['format'] == 'cube'

    def prepare(path):
        if case['over']:
            with h5py.File(path, 'w') as f:
                f.create_dataset('frames', data=np.ones((2, 3, 4)))

    def save(path):
        io.write_hdf5(path, io.reader(ds.paths, version=d['v']), F.DataCube if cube else F.Frame)

    def verify(path):
        with h5py.File(path, 'r') as f:
            x = f['datacube' if cube else 'frames']
            check(x.shape == ((W, H) if cube else (W * H,)) + (576, 576), 'shape {}', x.shape)
            if not cube:
                check(list(x.attrs['scan_dimensions']) == [W, H], 'scan_dimensions')
            for p in range(W * H):
                g = x[p % W, p // W] if cube else x[p]
                if p in want:
                    check(np.array_equal(g, want[p]), 'position {}: wrong frame', p)
                else:
                    check(not g.any(), 'position {}: pixels are not zero', p)

    judge(case, ctx, save, verify, prepare, library=False)


@st.composite
def raw_cases(draw):
    return {'n': draw(st.sampled_from([1, 1, 2, 4])), 'h': draw(st.integers(1, 60)), 'w': draw(st.integers(1, 60)),
            'seed': draw(st.integers(0, 999)), 'zip': draw(st.booleans()),
            'constant': draw(st.sampled_from([False, False, True])),
            'images': draw(st.sampled_from([0, 0, 1, 3])), 'positions': draw(st.booleans()),
            'append': draw(st.sampled_from([0, 0, 1, 3000])), 'fault': draw(FAULTS)}


def run_raw(case, ctx):
    import h5py
    from stempy import io
    n, h, w = case['n'], case['h'], case['w']
    rng = np.random.default_rng([case['seed'], 24])
    f = np.full((n, h, w), 7, np.uint16) if case['constant'] else \
        rng.integers(1, 65536, (n, h, w)).astype(np.uint16)
    pos = [int(x) for x in rng.permutation(n)]
    imgs = rng.integers(1, 2**63, (max(case['images'], 1), 1, n)).astype(np.uint64)
    names = ['image %d' % k for k in range(len(imgs))]
    other = rng.integers(0, 255, case['append']).astype(np.uint8)

    def prepare(path):
        if case['append']:
            with h5py.File(path, 'w') as fh:
                fh.create_dataset('other', data=other)

    def save(path):
        if case['images']:
            io.save_stem_images(path, imgs, names)
        else:
            io.save_raw_data(path, f, (n, 1), pos if case['positions'] else None, case['zip'])

    def verify(path):
        with h5py.File(path, 'r') as fh:
            if case['append']:
                check(np.array_equal(fh['other'][()], other), 'earlier data is lost')
            if case['images']:
                x = fh['stem/images']
                check(np.array_equal(x[()], imgs), 'images differ')
                check([s if isinstance(s, str) else s.decode() for s in x.attrs['names']] == names, 'names')
                return
            check(np.array_equal(fh['frames'][()], f), 'frames differ')
            check(list(fh['frames'].attrs['scan_dimensions']) == [n, 1], 'scan dimensions')
            if case['positions']:
                check(list(fh['scan_positions'][()]) == pos, 'positions differ')

    judge(case, ctx, save, verify, prepare)


@st.composite
def count_cases(draw):
    return {'arr': draw(sc.sparse_cases(scan_ndim=(2,), max_scan=5)), 'meta': draw(metadata()),
            'api': draw(st.sampled_from(['io', 'class'])), 'fault': draw(FAULTS)}


def run_counts(case, ctx):
    from stempy import io
    from stempy.io import SparseArray
    sa = sc.make(case['arr'], metadata=dict(case['meta']))

    def save(path):
        if case['api'] == 'io':
            io.save_electron_counts(path, sa)
        else:
            sa.write_to_hdf5(path)

    def verify(path):
        sb = SparseArray.from_hdf5(path)
        check(sb.shape == sa.shape and frames_of(sb) == frames_of(sa), 'events {} loaded as {}',
              frames_of(sa), frames_of(sb))
        check(same_meta(case['meta'], sb.metadata), 'metadata {} loaded as {}', case['meta'], sb.metadata)

    judge(case, ctx, save, verify)


def nontrivial(case):
    return case['fault'][0] != 'none'


def classify(case):
    k, n = case['fault']
    return [k + ' ' + n if k == 'path' else n[2] if k == 'error' else k] + [case[x] for x in ('format', 'api') if x in case] + \
        (['images'] if case.get('images') else [])


RULE = 'a fault: no room beyond some byte of the file, some writes that fail, or a path that cannot be written'
SUBS = [
    Sub('export', export_cases, run_export, RULE, nontrivial=nontrivial, classify=classify,
        quick=300, thorough=6000, shards=4, prepare=prepare_failio),
    Sub('raw', raw_cases, run_raw, RULE, nontrivial=nontrivial, classify=classify,
        quick=1200, thorough=30000, shards=4, prepare=prepare_failio),
    Sub('counts', count_cases, run_counts, RULE, nontrivial=nontrivial, classify=classify,
        quick=1200, thorough=30000, shards=4, prepare=prepare_failio),
]
