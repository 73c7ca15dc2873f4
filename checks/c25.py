"""C25: read errors are never mistaken for the end of the data, or for data."""
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import raw_common as rc
from checks import sparse_common as sc
from checks.c24 import attempt, failio, fault_range, prepare_failio
from vp.core import Sub, check

PROPERTY = 'C25'


@st.composite
def faults(draw):
    """[which of the operations, as a fraction; how many fail; the error, or short]"""
    at = draw(st.one_of(st.integers(0, 1000), st.sampled_from([0, 999, 1000])))
    kind = draw(st.sampled_from(['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'short', 'EINTR']))
    return [at, draw(st.sampled_from([1, 1, 2, 10**9])) if kind != 'EINTR' else draw(st.integers(1, 3)), kind]


# --- What is read, and how -----------------------------------------------------
SECTOR_USES = ['iterate', 'iterate', 'iterate', 'stem', 'average', 'radial', 'maximum', 'captured', 'hdf5', 'cube',
               'count', 'count thread', 'count thread', 'count multi-pass', 'count multi-pass', 'read_frames',
               'read_frames', 'num_frames']
OTHER_USES = ['iterate', 'iterate', 'stem', 'average', 'radial', 'maximum', 'count']


@st.composite
def sector_cases(draw):
    use = draw(st.sampled_from(SECTOR_USES))
    multi = use in ('read_frames', 'num_frames', 'count multi-pass')
    v = 5 if multi else draw(st.sampled_from([4, 5]))
    W, H = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    n = draw(st.integers(1, min(5, W * H)))
    pos = draw(st.permutations(list(range(W * H))))[:n]
    return {'v': v, 'W': W, 'H': H, 'positions': [int(p) for p in pos], 'use': use,
            'threads': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 99)),
            'files': draw(st.integers(1, 2)), 'fault': draw(faults())}


def digest(*arrays):
    h = hashlib.sha256()
    for a in arrays:
        a = np.ascontiguousarray(a)
        h.update(str((a.shape, a.dtype.str)).encode())
        h.update(a.tobytes())
    return h.hexdigest()[:24]


def block_digest(b):
    return digest(np.array(b.header.image_numbers), np.array(b.header.scan_dimensions), np.array(b.data))


def events_digest(sa):
    # Which frame of a position is counted first depends on what is sampled
    return digest(*[np.array(e) for p in sa.data for e in sorted(np.sort(e).tolist() for e in p)],
                  np.array([len(p) for p in sa.data]))


def use_reader(use, make, out, state):
    """The result of a function as a list of strings. state['reader'] is set as soon as it is open."""
    from stempy import image, io
    reader = state.get('reader')
    if reader is None:
        reader = state['reader'] = make()
    if use == 'iterate':
        state['part'] = part = []
        while (b := reader.read()) is not None:
            part.append(block_digest(b))
        return part
    if use == 'stem':
        return [digest(np.asarray(image.create_stem_images(reader, [0, 10], [30, 300], **state['kw'])))]
    if use in ('average', 'radial', 'maximum'):
        f = {'average': image.calculate_average, 'radial': image.radial_sum,
             'maximum': image.maximum_diffraction_pattern}[use]
        kw = state['kw'] if use == 'radial' else {}
        return [digest(np.array(f(reader, **kw)))]
    if use == 'captured':
        return [repr(reader.data_captured())]
    if use in ('hdf5', 'cube'):
        import h5py
        F = io.SectorReader.H5Format
        io.write_hdf5(out, reader, F.Frame if use == 'hdf5' else F.DataCube)
        with h5py.File(out, 'r') as f:
            return [digest(f['frames' if use == 'hdf5' else 'datacube'][()])]
    if use == 'num_frames':
        return [repr((tuple(reader.scan_shape), np.asarray(reader.num_frames_per_scan).tolist()))]
    if use == 'read_frames':
        shape = reader.scan_shape
        return [digest(*[b.data for b in reader.read_frames(p)]) for p in range(shape[0] * shape[1])]
    sa = image.electron_count(reader, background_threshold_n_sigma=4, xray_threshold_n_sigma=100,
                              number_of_samples=3, **state['kw'])
    return [events_digest(sa)]


def judge(case, ctx, use, make, again, kw={}, folder='in'):
    """The use without errors, then with them, then without again"""
    folder = os.path.join(ctx.tmp, folder)
    kind = case['fault'][2]

    def action():
        lib = failio()
        name = os.path.realpath(folder).encode()
        lib.failio_arm(name, ord('r'), -1, -1, 0)
        state = {'kw': kw}
        want = use_reader(use, make, os.path.join(ctx.tmp, 'a.h5'), state)
        total = lib.failio_count()
        check(total > 0, 'nothing is read')
        state = {'kw': kw}
        lib.failio_arm(name, ord('r'), *fault_range(case['fault'], total))
        error = None
        try:
            got = use_reader(use, make, os.path.join(ctx.tmp, 'b.h5'), state)
        except (RuntimeError, ValueError, OSError, MemoryError, IndexError, KeyError) as e:
            error = e
        fired = lib.failio_fired()
        lib.failio_arm(name, ord('r'), -1, -1, 0)
        what = f'{use}: reads {fault_range(case["fault"], total)[:2]} of {total} failed ({kind})'
        if error is None:
            check(got == want, '{}, but there is no error, and the result differs: {} instead of {}', what, got, want)
        else:
            check(fired > 0, '{}: {}', use, error)
            check(kind not in ('short', 'EINTR'), '{}: this is no failure, but: {}', what, error)
            part = state.get('part')
            if part is not None:
                check(part == want[:len(part)], '{}: before the error {}, other data is delivered', what, error)
        # The same reader works when the errors are over
        if again and state.get('reader') is not None:
            if again == 'reset':
                state['reader'].reset()
            got = use_reader(use, make, os.path.join(ctx.tmp, 'c.h5'), state)
            check(got == want, '{} (error: {}); then, used once more, the reader gives {} instead of {}', what, error,
                  got, want)

    got = attempt(action, ctx.tmp, None)
    check(got == 'returned', '{}', got)


def counting_frame(seed):
    """Frames with the same histogram give the same thresholds, however they are sampled"""
    rng = np.random.default_rng([seed, 25])
    f = rng.normal(20, 3, (576, 576)).clip(0, 60).astype(np.uint16)
    y, x = rng.integers(2, 574, (2, 60))
    f[y, x] = 150
    return f


def run_sectors(case, ctx):
    from stempy import io
    folder = os.path.join(ctx.tmp, 'in')
    os.mkdir(folder)
    rng = np.random.default_rng([case['seed'], 26])
    base = counting_frame(case['seed'])
    W, H, v = case['W'], case['H'], case['v']
    frames = []
    for k, p in enumerate(case['positions']):
        frames.append((p, k, np.roll(base, 7 * k, axis=0) if case['use'].startswith('count')
                       else rng.integers(1, 65536, (576, 576)).astype(np.uint16)))
    if case['use'] in ('read_frames', 'num_frames', 'count multi-pass'):
        # One more frame at a position
        frames.append((case['positions'][0], 99, np.roll(base, 5, axis=1)))
    paths = []
    for s in range(4):
        for j in range(case['files']):
            p = os.path.join(folder, f'data_module{s}_{j}.data')
            with open(p, 'wb') as fh:
                for k in range(j, len(frames), case['files']):
                    q, number, f = frames[k]
                    fh.write(rc.sector_header(1, number, W, H, q % W, q // W))
                    fh.write(np.ascontiguousarray(rc.sector_view(f, v, s)).tobytes())
            paths.append(p)
    use = case['use']

    def make():
        if use in ('count multi-pass', 'read_frames', 'num_frames'):
            return io.reader(paths, version=v, backend='multi-pass', threads=case['threads'])
        if use == 'count thread':
            return io.reader(paths, version=v, backend='thread', threads=case['threads'])
        return io.reader(paths, version=v)

    again = None if use == 'count thread' else 'call' if 'multi' in use or use in ('read_frames', 'num_frames') \
        else 'reset'
    judge(case, ctx, use, make, again)


@st.composite
def other_cases(draw):
    src = draw(ic.sources(('v1', 'v1', 'v1', 'v3', 'h5 reader')))
    use = draw(st.sampled_from(OTHER_USES))
    if use == 'count':
        src['kind'] = 'count'
        src['h'], src['w'] = max(src['h'], 12), max(src['w'], 12)
    return {'src': src, 'use': use, 'fault': draw(faults())}


def run_others(case, ctx):
    c = case['src']
    folder = os.path.join(ctx.tmp, 'in')
    os.mkdir(folder)
    frames = None
    if c['kind'] == 'count':
        rng = np.random.default_rng([c['seed'], 27])
        f = rng.integers(10, 31, (c['h'], c['w'])).astype(np.uint16)
        f[rng.integers(0, c['h'], 9), rng.integers(0, c['w'], 9)] += 100
        frames = np.stack([np.roll(f, 3 * k, axis=0) for k in range(len(c['positions']))])
    source = ic.Source(c, folder, frames)
    kw = {'scan_dimensions': (c['W'], c['H'])} if source.needs_dims and case['use'] in ('stem', 'radial', 'count') \
        else {}
    # HDF5 goes on with a buffer that it could not fill
    again = None if c['source'] == 'h5 reader' else 'reset'
    try:
        judge(case, ctx, case['use'], source.reader, again, kw)
    finally:
        source.close()


@st.composite
def load_cases(draw):
    return {'arr': draw(sc.sparse_cases(scan_ndim=(2,), max_scan=5)), 'fault': draw(faults())}


def run_load(case, ctx):
    from stempy import io
    folder = os.path.join(ctx.tmp, 'in')
    os.mkdir(folder)
    path = os.path.join(folder, 'a.h5')
    io.save_electron_counts(path, sc.make(case['arr'], metadata={'a': 1, 'b': {'c': 'text', 'd': [1, 2, 3]}}))

    def action():
        lib = failio()
        name = os.path.realpath(folder).encode()

        def load():
            sa = io.load_electron_counts(path)
            return [events_digest(sa), repr(sa.shape), repr(sa.metadata)]

        lib.failio_arm(name, ord('r'), -1, -1, 0)
        want = load()
        total = lib.failio_count()
        check(total > 0, 'nothing is read')
        lib.failio_arm(name, ord('r'), *fault_range(case['fault'], total))
        error = None
        try:
            got = load()
        except Exception as e:
            error = e
        lib.failio_arm(name, ord('r'), -1, -1, 0)
        if error is None:
            check(got == want, 'a failed read ({}): {} instead of {}', case['fault'], got, want)
        else:
            check(case['fault'][2] not in ('short', 'EINTR'), 'this is no failure, but: {}', error)
        check(load() == want, 'loaded once more, the array differs')

    got = attempt(action, ctx.tmp, None)
    check(got == 'returned', '{}', got)


def classify(case):
    return [case.get('use', 'load'), case['fault'][2], 'transient' if case['fault'][1] < 100 else 'permanent'] + \
        ([case['src']['source']] if 'src' in case else [])


RULE = 'every case: some reads fail, are interrupted or give fewer bytes'
SUBS = [
    Sub('sectors', sector_cases, run_sectors, RULE, classify=classify, quick=500, thorough=12000, shards=6,
        prepare=prepare_failio),
    Sub('others', other_cases, run_others, RULE, classify=classify, quick=800, thorough=20000, shards=4,
        prepare=prepare_failio),
    Sub('load', load_cases, run_load, RULE, classify=classify, quick=600, thorough=15000, shards=4,
        prepare=prepare_failio),
]
