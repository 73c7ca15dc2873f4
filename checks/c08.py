"""C08: damaged raw files never corrupt memory, hang or alter intact frames.

Runs with AddressSanitizer and UBSan. Exceptions of any kind are fine; what a
reader delivers without an exception has to agree with the intact parts of the
files.
"""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp import build
from vp.core import Sub, check

PROPERTY = 'C08'
SECTOR_BYTES = 144 * 576 * 2
RECORD = 16 + SECTOR_BYTES
LIMIT = 2**20


@st.composite
def where(draw):
    """A position within a file: a record, and an offset from its start."""
    return [draw(st.integers(0, 12)),
            draw(st.one_of(st.integers(-2, 18), st.integers(0, RECORD),
                           st.sampled_from([16, 16 + 288, 16 + 1152, RECORD - 1, RECORD - 2])))]


@st.composite
def damages(draw, harmless=False, v1=False):
    kinds = ['truncate', 'truncate', 'payload', 'empty']
    if not harmless:
        kinds += ['header', 'header', 'header', 'header', 'insert', 'delete', 'append', 'duplicate',
                  'bad name', 'missing', 'directory', 'version', 'swap', 'twice']
        if v1:
            kinds += ['bytes', 'header', 'header']
    kind = draw(st.sampled_from(kinds))
    d = {'kind': kind, 'file': draw(st.integers(0, 9)), 'at': draw(where()),
         'n': draw(st.one_of(st.integers(1, 20), st.integers(1, 4 * RECORD))),
         'seed': draw(st.integers(0, 999))}
    if kind == 'header':
        if v1:
            d['field'] = draw(st.integers(0, 14))
            d['value'] = draw(st.one_of(st.sampled_from([0, 1, 2, 1013, 1014, 1015, 1024, 65535, 65536, 2**31 - 1,
                                                         2**31, 2**32 - 1]), st.integers(0, 40)))
        else:
            d['field'] = draw(st.sampled_from(['scan', 'frame', 'W', 'H', 'WH', 'x', 'y', 'xy', 'WH', 'W', 'y']))
            d['value'] = draw(st.one_of(st.sampled_from([0, 0, 1, 1023, 65535, 2**31, 2**32 - 1]),
                                        st.integers(0, 12)))
            d['all'] = draw(st.sampled_from([0, 1]))
    if kind == 'version':
        d['value'] = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 255]))
    if kind == 'bad name':
        d['value'] = draw(st.sampled_from(['data.data', 'module.data', 'module4.data', 'module-1.data',
                                           'module99999999999.data', 'x_module0.dat', 'module007_x.data',
                                           'module2module9.data']))
    return d


def write_header(raw, at, field, value):
    """A field of the header of a sector. Scans do not get too large."""
    scan, frame, W, H, x, y = struct.unpack_from('<IIHHHH', raw, at)
    v16 = value & 0xffff
    if field == 'scan':
        scan = value
    elif field == 'frame':
        frame = value
    elif field in ('W', 'H', 'WH'):
        if 'W' in field:
            W = v16
        if 'H' in field:
            H = v16
        # ... unless nothing of their size can be allocated
        if W * H > LIMIT and min(W, H) < 65535:
            W, H = min(W, 1000), min(H, 1000)
    else:
        if 'x' in field:
            x = v16
        if 'y' in field:
            y = v16
    struct.pack_into('<IIHHHH', raw, at, scan, frame, W, H, x, y)


def apply(files, version, ds, v1=False, rec=RECORD):
    """files: list of [name, bytearray or None]; returns (files, version)"""
    for d in ds:
        k = d['kind']
        if k == 'version':
            version = d['value']
            continue
        if not files:
            continue
        f = d['file'] % len(files)
        name, raw = files[f]
        rng = np.random.default_rng([d['seed'], 51])
        if k == 'bad name':
            files[f] = [f'{f}' + d['value'], raw]
        elif k == 'missing':
            files[f] = [name, None]
        elif k == 'directory':
            files[f] = [name, 'directory']
        elif k == 'twice':
            files.append(files[f])
        if not isinstance(raw, bytearray):
            continue
        if v1:
            at = (d['at'][0] * 1000003 + d['at'][1]) % max(1, len(raw))
            if d['at'][0] < 3:
                at = min(len(raw), max(0, 4096 * d['at'][0] + d['at'][1]))
        else:
            n = -(-len(raw) // rec)
            at = max(0, (d['at'][0] % n if n else 0) * rec + d['at'][1])
            at = min(at, len(raw))
        if k == 'truncate':
            del raw[at:]
        elif k == 'empty':
            del raw[:]
        elif k == 'delete':
            del raw[at:at + d['n']]
        elif k == 'insert':
            raw[at:at] = rng.integers(0, 4, d['n'] % 4096).astype(np.uint8).tobytes()
        elif k == 'append':
            raw += rng.integers(0, 3, d['n'] % 70000).astype(np.uint8).tobytes()
        elif k == 'bytes':
            m = min(d['n'] % 64, len(raw) - at)
            if m > 0:
                raw[at:at + m] = rng.integers(0, 256, m).astype(np.uint8).tobytes()
        elif k == 'payload':
            if v1:
                continue
            # Not within a header
            m = max(0, min(d['n'], len(raw) - at))
            new = bytearray(rng.integers(0, 60, m).astype(np.uint8).tobytes())
            for i in range(at // rec * rec, at + m, rec):
                for j in range(max(i, at), min(i + 16, at + m)):
                    new[j - at] = raw[j]
            raw[at:at + m] = new
        elif k == 'duplicate':
            n = len(raw) // rec
            if n and not v1:
                i = d['at'][0] % n
                raw += raw[i * rec:(i + 1) * rec]
        elif k == 'swap':
            g = d['n'] % len(files)
            files[f][1], files[g][1] = files[g][1], files[f][1]
        elif k == 'header':
            if v1:
                # Blocks follow one another: find the one
                starts = v1_starts(raw)
                if starts:
                    s = starts[d['at'][0] % len(starts)]
                    if s + 4 * d['field'] + 4 <= len(raw):
                        struct.pack_into('<I', raw, s + 4 * d['field'], d['value'])
            else:
                n = len(raw) // rec
                which = range(n) if d['all'] else [d['at'][0] % n] if n else []
                for i in which:
                    write_header(raw, i * rec, d['field'], d['value'])
    return files, version


def v1_starts(raw):
    out, p = [], 0
    while p + 4096 <= len(raw) and len(out) < 40:
        n, h, w = struct.unpack_from('<III', raw, p)
        out.append(p)
        size = 4096 + 2 * n * h * w
        if n > 1014 or p + size > len(raw):
            break
        p += size
    return out


def store(files, tmp):
    paths = []
    for name, raw in files:
        p = os.path.join(tmp, name)
        if raw == 'directory':
            if not os.path.exists(p):
                os.makedirs(p)
        elif raw is not None and not os.path.isdir(p):
            with open(p, 'wb') as fh:
                fh.write(raw)
        paths.append(p)
    return paths


def guarded(f, *a, **kw):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **kw), None
    except Exception as e:
        return None, e


# --- Sector files ------------------------------------------------------------

USES = ['iterate', 'iterate', 'iterate', 'captured', 'hdf5', 'hdf5 cube', 'stem', 'average', 'radial', 'maximum',
        'count', 'count thread', 'count multi-pass', 'read_frames', 'read_frames']


@st.composite
def sector_cases(draw, harmless=False):
    use = draw(st.sampled_from(USES))
    count = use.startswith('count')
    versions = (5,) if use in ('count multi-pass', 'read_frames') else (4, 5)
    d = draw(rc.datasets(versions=versions, max_frames=6, multi=use in ('count thread', 'count multi-pass',
                                                                        'read_frames'),
                         kinds=('count', 'small') if count else ('small', 'const', 'count'), big='medium'))
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    return {'data': d, 'use': use, 'damage': [draw(damages(harmless)) for _ in range(n)],
            'threads': draw(st.sampled_from([1, 2, 4])), 'harmless': harmless,
            'again': draw(st.booleans()), 'position': draw(st.integers(0, 20))}


def parse(files):
    """{position: {frame number: {sector: (values, number of bytes)}}} of files whose headers are intact"""
    out = {}
    cut = False
    for name, raw in files:
        sector = int(name.split('module')[1].split('_')[0])
        p = 0
        while p < len(raw):
            if p + 16 > len(raw):
                cut = True
                break
            scan, number, W, H, x, y = struct.unpack_from('<IIHHHH', raw, p)
            body = bytes(raw[p + 16:p + RECORD])
            v = np.zeros(SECTOR_BYTES, np.uint8)
            v[:len(body)] = np.frombuffer(body, np.uint8)
            s = out.setdefault(y * W + x, {}).setdefault(number, {})
            s[sector] = v.view(np.uint16), len(body) == SECTOR_BYTES
            p += RECORD
    return out, cut


def same_frame(data, sectors, version, what):
    for s in range(4):
        got = rc.sector_view(data, version, s)
        if s not in sectors:
            check(not got.any(), '{}: sector {} is not in the files, but it is not zero', what, s)
            continue
        v, complete = sectors[s]
        if complete:
            want = v.reshape(got.shape)
            check(np.array_equal(got, want), '{}: sector {} is complete, but altered at {}', what, s,
                  np.argwhere(got != want)[:3].tolist() if not np.array_equal(got, want) else None)


def read_through(reader, limit):
    """Blocks until the end or the first exception; then goes on for a bit."""
    out, error = [], None
    for k in range(limit):
        b, e = guarded(reader.read)
        if e is not None:
            error = e
            break
        if b is None:
            break
        out.append(b)
    else:
        check(False, 'reading does not end after {} blocks', limit)
    if error is not None:
        for k in range(6):
            b, e = guarded(reader.read)
            if e is None and b is not None:
                b.data.sum()
    return out, error


def check_events(sa):
    n = int(np.prod(sa.frame_shape))
    for p in sa.data:
        for e in p:
            check(len(e) == 0 or int(np.max(e)) < n, 'events outside of the frame')


def use_sectors(case, paths, version, files, ctx):
    from stempy import image, io
    use = case['use']
    harmless = case['harmless']
    limit = sum(len(raw) // 16 + 2 for n, raw in files if isinstance(raw, bytearray)) + 2
    limit = min(limit, 100000)
    parsed, cut = parse(files) if harmless else (None, None)
    backend = None
    if use in ('count thread', 'count multi-pass', 'read_frames'):
        backend = 'thread' if use == 'count thread' else 'multi-pass'

    def open_reader():
        if backend:
            return io.reader(paths, version=version, backend=backend, threads=case['threads'])
        return io.reader(paths, version=version)

    try:
        reader = open_reader()
    except Exception as e:
        check(not harmless, 'the files cannot be opened: {}', e)
        return
    if use == 'iterate':
        for k in range(2 if case['again'] else 1):
            if k:
                _, e = guarded(reader.reset)
                if e is not None:
                    return
            blocks, error = read_through(reader, limit)
            if not harmless:
                for b in blocks:
                    b.data.sum()
                continue
            check(error is None or cut, 'reading fails: {}', error)
            seen = []
            for b in blocks:
                num, = b.header.image_numbers
                check(num in parsed, 'image {} is not in the files', num)
                same_frame(b.data[0], list(parsed[num].values())[0], version, f'image {num}')
                seen.append(num)
            check(len(set(seen)) == len(seen), 'images are delivered twice: {}', seen)
            if error is None:
                check(set(seen) == set(parsed), 'images {} instead of {}', seen, sorted(parsed))
        return
    if use == 'captured':
        r, e = guarded(lambda: reader.data_captured())
        if harmless and e is None and not cut:
            n = sum(len(s) for fr in parsed.values() for s in fr.values())
            d = case['data']
            total = 4 * d['W'] * d['H']
            if n:
                check(abs(r - n / total) <= 1e-6 * (n / total), 'data captured {} instead of {} / {}', r, n, total)
        read_through(reader, limit)
        return
    if use.startswith('hdf5'):
        fmt = io.SectorReader.H5Format.DataCube if use == 'hdf5 cube' else io.SectorReader.H5Format.Frame
        p = os.path.join(ctx.tmp, 'out.h5')
        _, e = guarded(io.write_hdf5, p, reader, fmt)
        if harmless:
            check(e is None or cut, 'writing fails: {}', e)
            if e is None and parsed:
                import h5py
                with h5py.File(p, 'r') as fh:
                    for num, fr in parsed.items():
                        W = case['data']['W']
                        data = fh['frames'][num] if fmt == io.SectorReader.H5Format.Frame \
                            else fh['datacube'][num % W, num // W]
                        same_frame(data, list(fr.values())[0], version, f'image {num}')
        return
    if use == 'stem':
        r, e = guarded(image.create_stem_images, reader, [0, 10], [30, 288])
        if harmless and parsed:
            check(e is None or cut, 'STEM images: {}', e)
        return
    if use in ('average', 'radial', 'maximum'):
        f = {'average': image.calculate_average, 'radial': image.radial_sum,
             'maximum': image.maximum_diffraction_pattern}[use]
        r, e = guarded(f, reader)
        if r is not None:
            np.array(r).sum()
        return
    if use == 'read_frames':
        shape, e = guarded(lambda: reader.scan_shape)
        check(e is None or not harmless or cut or not parsed, 'scan_shape: {}', e)
        if e is not None:
            return
        n, e = guarded(lambda: reader.num_frames_per_scan)
        size = int(shape[0]) * int(shape[1])
        positions = sorted(parsed) if harmless else [case['position'], 0, size - 1]
        for p in positions[:6]:
            r, e = guarded(reader.read_frames, p)
            if harmless:
                check(e is None or cut, 'reading position {}: {}', p, e)
                if e is None:
                    check(len(r) == len(parsed[p]), '{} frames instead of {}', len(r), len(parsed[p]))
                    for b, num in zip(r, sorted(parsed[p])):
                        same_frame(b.data, parsed[p][num], version, f'frame {num} at {p}')
            elif r is not None:
                for b in r:
                    b.data.sum()
        return
    # Counting
    kw = {'number_of_samples': 2, 'background_threshold_n_sigma': 4, 'xray_threshold_n_sigma': 20}
    sa, e = guarded(image.electron_count, reader, **kw)
    if sa is None:
        # Once more, to tell whether the reader is usable
        if case['again']:
            guarded(image.electron_count, reader, **kw)
        return
    check_events(sa)
    if not harmless:
        return
    md = sa.metadata['electron_counting'] if backend else None
    if md is None:
        return
    for p, fr in parsed.items():
        full = [num for num in fr if len(fr[num]) == 4 and all(c for v, c in fr[num].values())]
        left = list(sa.data[p])
        for num in full:
            f = np.zeros((576, 576), np.uint16)
            for s in range(4):
                view = rc.sector_view(f, version, s)
                view[:] = fr[num][s][0].reshape(view.shape)
            lo, hi = rc.corrected(f.astype(np.float64))
            must, may = rc.count(lo, hi, md['background_threshold'], md['x_ray_threshold'])
            hit = [i for i, g in enumerate(left) if rc.fits(g, must, may)]
            check(hit, 'frame {} at {} is complete, but its events are not there ({} expected, got {})', num, p,
                  len(must), [len(g) for g in left])
            left.pop(hit[0])


def run_sectors(case, ctx):
    ds = rc.Dataset(case['data'], ctx.tmp)
    files = [[os.path.basename(p), bytearray(open(p, 'rb').read())] for p in ds.paths]
    for p in ds.paths:
        os.unlink(p)
    files, version = apply(files, case['data']['v'], case['damage'])
    paths = store(files, ctx.tmp)
    use_sectors(case, paths, version, files, ctx)


# --- Whole frames ------------------------------------------------------------

FRAME_USES = ['iterate', 'iterate', 'iterate', 'stem', 'stem given', 'average', 'radial', 'maximum', 'count']


@st.composite
def frame_cases(draw):
    v = draw(st.sampled_from([1, 1, 1, 3]))
    harmless = draw(st.sampled_from([0, 0, 1]))
    files = []
    for _ in range(draw(st.integers(1, 3))):
        blocks = []
        for _ in range(draw(st.integers(0, 3))):
            if v == 1:
                blocks.append([draw(st.integers(0, 30)), draw(st.integers(1, 5)), draw(st.integers(1, 30)),
                               draw(st.integers(1, 30)), draw(st.integers(0, 2**20))])
            else:
                blocks.append([draw(st.integers(0, 5)), draw(st.integers(0, 5)), 6, 6, draw(st.integers(0, 2**20))])
        files.append(blocks)
    same = draw(st.booleans())
    if same and v == 1:
        h, w = draw(st.integers(2, 30)), draw(st.integers(2, 30))
        for b in files:
            for x in b:
                x[2:4] = h, w
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    dam = [draw(damages(harmless, v == 1)) for _ in range(n)]
    return {'v': v, 'files': files, 'use': draw(st.sampled_from(FRAME_USES)), 'damage': dam,
            'harmless': bool(harmless), 'again': draw(st.booleans())}


def run_frames(case, ctx):
    from stempy import image, io
    v = case['v']
    files = []
    want = []
    for k, blocks in enumerate(case['files']):
        raw = bytearray()
        mine = []
        for b in blocks:
            if v == 1:
                first, n, h, w, seed = b
                data = rc.images(seed, n, h, w)
                raw += rc.v1_block([first + i for i in range(n)], h, w, data)
                mine.append((len(raw), [first + i for i in range(n)], data))
            else:
                x, y, W, H, seed = b
                data = rc.frame('small', seed)
                raw += rc.sector_header(3, len(raw), W, H, x, y) + data.tobytes()
                mine.append((len(raw), [y * W + x], data[None]))
        files.append([f'{k}_module{k}.data', raw])
        want.append(mine)
    damage = [d for d in case['damage'] if not (case['harmless'] and d['kind'] == 'payload')]
    files, version = apply(files, v, damage, v == 1, RECORD if v == 1 else 16 + 576 * 576 * 2)
    paths = store(files, ctx.tmp)
    total = sum(len(raw) for n, raw in files if isinstance(raw, bytearray))
    reader, e = guarded(io.reader, paths, version=version)
    if e is not None:
        check(not case['harmless'], 'the files cannot be opened: {}', e)
        return
    use = case['use']
    if use == 'iterate':
        for k in range(2 if case['again'] else 1):
            if k:
                guarded(reader.reset)
            blocks, error = read_through(reader, total // 4 + 10)
            if not case['harmless']:
                for b in blocks:
                    b.data.sum()
                continue
            expect, broken = [], False
            for (name, raw), mine in zip(files, want):
                for end, numbers, data in mine:
                    if end <= len(raw):
                        expect.append((numbers, data))
                whole = [0] + [end for end, _, _ in mine]
                if len(raw) not in whole:
                    broken = True
                    break
            check((error is not None) == broken, 'error {}, expected {}', error, broken)
            check(len(blocks) == len(expect), '{} blocks instead of {}', len(blocks), len(expect))
            for i, (b, (numbers, data)) in enumerate(zip(blocks, expect)):
                check(list(b.header.image_numbers) == numbers, 'block {}: images {} instead of {}', i,
                      b.header.image_numbers, numbers)
                check(np.array_equal(b.data, data), 'block {}: pixels', i)
        return
    dims = {'scan_dimensions': (7, 6)} if v == 1 or use == 'stem given' else {}
    if use.startswith('stem'):
        r, e = guarded(image.create_stem_images, reader, [0, 3], [4, 40], **dims)
    elif use == 'radial':
        r, e = guarded(image.radial_sum, reader, **dims)
    elif use == 'average':
        r, e = guarded(image.calculate_average, reader)
    elif use == 'maximum':
        r, e = guarded(image.maximum_diffraction_pattern, reader)
    else:
        sa, e = guarded(image.electron_count, reader, number_of_samples=2, background_threshold_n_sigma=4,
                        xray_threshold_n_sigma=20, **dims)
        if sa is not None:
            check_events(sa)
        r = None
    if r is not None:
        np.array(r).sum()


# --- HDF5 files ----------------------------------------------------------------

H5_TYPES = ['<u2', '<u2', '<u2', '<u2', 'u1', '>u2', '<i4', '<u4', '<f4', '<f8', '<u8', 'bool', 'string', 'complex']


@st.composite
def hdf5_cases(draw):
    ndim = draw(st.sampled_from([3] * 6 + [0, 1, 2, 4]))
    shape = [draw(st.sampled_from([1, 2, 3, 5, 33, 40]))] + \
        [draw(st.sampled_from([0, 1, 2, 7, 12, 30])) for _ in range(3)]
    W, H = draw(st.integers(1, 8)), draw(st.integers(1, 6))
    n = shape[0]
    positions = draw(st.sampled_from([None, 'all', 'all', 'short', 'long', 'outside', 'type', 'twice', 'shape']))
    return {'shape': shape[:ndim], 'type': draw(st.sampled_from(H5_TYPES)), 'seed': draw(st.integers(0, 999)),
            'positions': positions,
            'dims': draw(st.sampled_from([[W, H], [W, H], [W, H], None, [W], [W, H, 1], [0, H], [W, 0], [-1, H],
                                          [2**33, 1], [1, 1], 'text', [1.5, 2.5]])),
            'images': draw(st.sampled_from([None, [1, H, W], [1, H, W], [H, W], [1, 0, 0], []])),
            'group': draw(st.sampled_from([0] * 9 + [1])),
            'direct': draw(st.sampled_from([[b, t] for b in (1, 2, 7, 32, 2**32 - 1)
                                            for t in (0, 1, n, n, n, n + 1, n + 40, 2**32 - 1)]))
            if draw(st.booleans()) else None,
            'array': draw(st.booleans()), 'again': draw(st.booleans()), 'chunks': draw(st.booleans()),
            'use': draw(st.sampled_from(['iterate', 'iterate', 'stem', 'stem', 'average', 'radial', 'maximum',
                                         'count', 'count']))}


def run_hdf5(case, ctx):
    import h5py
    from stempy import image, io
    rng = np.random.default_rng([case['seed'], 8])
    shape = tuple(case['shape'])
    t = case['type']
    if t == 'string':
        data = np.full(shape, 'abc', object)
        t = h5py.string_dtype()
    else:
        t = np.dtype({'complex': 'c8'}.get(t, t))
        data = (20 + rng.integers(-9, 10, shape)).astype(t)
    path = os.path.join(ctx.tmp, 'f.h5')
    n = shape[0] if shape else 0
    with h5py.File(path, 'w') as f:
        if case['group']:
            x = f.create_group('frames')
        else:
            x = f.create_dataset('frames', data=data, dtype=t,
                                 chunks=True if case['chunks'] and data.size and shape else None)
        if case['dims'] is not None:
            x.attrs['scan_dimensions'] = case['dims']
        if case['images'] is not None:
            f.create_dataset('stem/images', data=np.zeros(case['images'], np.uint64))
        k = case['positions']
        if k is not None:
            p = rng.permutation(n)
            if k == 'short':
                p = p[:int(rng.integers(0, n + 1))]
            elif k == 'long':
                p = np.arange(n + 5)
            elif k == 'outside':
                p = p + int(rng.choice([1, 20, 10**6, 2**31 - n, 2**32 - 1 - n]))
            elif k == 'type':
                p = p.astype(str(rng.choice(['<f4', '<i8', 'S5', 'u1'])))
            elif k == 'twice':
                p = p // 2
            elif k == 'shape':
                p = p.reshape(n, 1)
            f['scan_positions'] = p
    with h5py.File(path, 'r') as f:
        if case['direct'] is not None:
            block, total = case['direct']
            frames = f['frames'][()] if case['array'] and not case['group'] else f['frames']
            p = f['scan_positions'] if 'scan_positions' in f else np.arange(n)
            reader, e = guarded(io.PyReader, frames, p, tuple(case['dims'] or ()), block, total)
        else:
            reader, e = guarded(io.reader, f)
        if e is not None:
            return
        use = case['use']
        for again in range(2 if case['again'] else 1):
            if again:
                guarded(reader.reset)
            if use == 'iterate':
                blocks, _ = read_through(reader, 200)
                for b in blocks:
                    b.data.sum()
                    check(len(b.header.image_numbers) == len(b.data), '{} images, {} numbers', len(b.data),
                          len(b.header.image_numbers))
                continue
            if use == 'stem':
                r, e = guarded(image.create_stem_images, reader, [0, 3], [4, 40])
            elif use == 'radial':
                r, e = guarded(image.radial_sum, reader)
            elif use == 'average':
                r, e = guarded(image.calculate_average, reader)
            elif use == 'maximum':
                r, e = guarded(image.maximum_diffraction_pattern, reader)
            else:
                sa, e = guarded(image.electron_count, reader, number_of_samples=2, background_threshold_n_sigma=4,
                                xray_threshold_n_sigma=20)
                if sa is not None:
                    check_events(sa)
                r = None
            if r is not None:
                np.array(r).sum()


def classify_hdf5(case):
    return [case['use'], 'direct' if case['direct'] else 'file', f"{len(case['shape'])} dimensions",
            f"positions: {case['positions']}"]


def consistent(case):
    return len(case['shape']) == 3 and not case['direct'] and case['positions'] in (None, 'all')


def classify(case):
    out = [case['use'], f"v{case['v'] if 'v' in case else case['data']['v']}"]
    for d in case['damage']:
        out.append('damage: ' + d['kind'] + (f" {d['field']}" if d['kind'] == 'header' else ''))
    return out


def has_data(case):
    if 'data' in case:
        return any(items for s, items in case['data']['files'])
    return any(case['files'])


def prepare(scratch, builds):
    """Huge allocations fail like they do without AddressSanitizer."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    lib = os.path.join(scratch, 'newlimit.so')
    if not os.path.exists(lib):
        build._run(['g++', '-O1', '-fPIC', '-shared', os.path.join(here, 'harness', 'newlimit.cpp'), '-o', lib,
                    '-ldl'], os.path.join(scratch, 'newlimit.log'))
    libs = [lib] + [build.sanitizer_runtime(x) for x in ('libasan.so', 'libstdc++.so')]
    return {'LD_PRELOAD': ' '.join(libs),
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                            'verify_asan_link_order=0:handle_segv=1:detect_odr_violation=0:'
                            'quarantine_size_mb=16:max_allocation_size_mb=8000'}


SUBS = [
    Sub('damaged sectors', sector_cases, run_sectors, 'at least one sector stored', nontrivial=has_data,
        classify=classify, quick=1000, thorough=30000, shards=8, flavour='asan', timeout=120, prepare=prepare),
    Sub('intact sectors', lambda: sector_cases(harmless=True), run_sectors, 'at least one sector stored',
        nontrivial=has_data, classify=classify, quick=700, thorough=20000, shards=8, flavour='asan', timeout=120, prepare=prepare),
    Sub('damaged frames', frame_cases, run_frames, 'at least one block stored', nontrivial=has_data,
        classify=classify, quick=1500, thorough=50000, shards=8, flavour='asan', timeout=120, prepare=prepare),
    Sub('hdf5', hdf5_cases, run_hdf5, 'frames, positions or arguments do not fit', classify=classify_hdf5,
        nontrivial=lambda case: not consistent(case), quick=2500, thorough=80000, shards=8, flavour='asan',
        timeout=120, prepare=prepare),
]
