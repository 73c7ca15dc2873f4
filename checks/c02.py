"""C02: whole-frame streams deliver every stored image, in order."""
import os
import struct

import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Sub, check

PROPERTY = 'C02'
NAMES = ['a.dat', 'stem4d_0000000001.data', 'b', 'data_module3_1.data', 'x y.bin']


@st.composite
def history(draw):
    # Reads (a number), 'reset', or 'end' (read to the end)
    return draw(st.lists(st.one_of(st.integers(1, 6), st.just('reset'), st.just('end')),
                         max_size=6))


@st.composite
def v1_cases(draw):
    files = []
    for _ in range(draw(st.integers(1, 4))):
        blocks = []
        for _ in range(draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4]))):
            n = draw(st.one_of(st.integers(1, 6), st.sampled_from([32, 1013, 1014])))
            if n > 100:
                h, w = draw(st.integers(1, 3)), draw(st.integers(1, 3))
            else:
                h = draw(st.one_of(st.integers(1, 9), st.sampled_from([16, 33, 130])))
                w = draw(st.one_of(st.integers(1, 9), st.sampled_from([16, 31, 129])))
            kind = draw(st.sampled_from(['seq', 'seq', 'any']))
            if kind == 'seq':
                first = draw(st.sampled_from([0, 0, 31, 65535, 2**31, 2**32 - 2000]))
                numbers = [first + i for i in range(n)]
            else:
                numbers = draw(st.lists(st.integers(0, 2**32 - 2), min_size=min(n, 6),
                                        max_size=min(n, 6)))
                numbers = (numbers * (n // len(numbers) + 1))[:n]
            blocks.append([numbers[0] if kind == 'seq' else numbers, n, h, w,
                           draw(st.sampled_from([1, 1, 2, 7, 2**32 - 1])),
                           draw(st.sampled_from([0, 1, 123456, 2**32 - 1])),
                           draw(st.integers(0, 2**20))])
        files.append(blocks)
    return {'files': files, 'hist': draw(history()),
            'single': draw(st.booleans()), 'default': draw(st.booleans())}


def run_history(case, make, want, same):
    """want: list of expected blocks; same(block, expected, what)"""
    reader = make()
    i = 0

    def one(what):
        nonlocal i
        b = reader.read()
        if i >= len(want):
            check(b is None, '{}: block {} is delivered, but only {} are stored', what, i, len(want))
            return False
        check(b is not None, '{}: ends after {} of {} blocks', what, i, len(want))
        same(b, want[i], f'{what}, block {i}')
        i += 1
        return True

    for k, op in enumerate(case['hist']):
        if op == 'reset':
            reader.reset()
            i = 0
        elif op == 'end':
            while one(f'step {k}'):
                pass
            one(f'step {k}, at the end')
        else:
            for _ in range(op):
                one(f'step {k}')
    while one('last'):
        pass
    reader.reset()
    i = 0
    for b in reader:
        check(i < len(want), 'iterating: {} blocks instead of {}', i + 1, len(want))
        same(b, want[i], f'iterating, block {i}')
        i += 1
    check(i == len(want), 'iterating: {} blocks instead of {}', i, len(want))


def run_v1(case, ctx):
    from stempy import io
    want = []
    paths = []
    for k, blocks in enumerate(case['files']):
        p = os.path.join(ctx.tmp, f'{k}' + NAMES[k % len(NAMES)])
        with open(p, 'wb') as fh:
            for numbers, n, h, w, version, stamp, seed in blocks:
                if not isinstance(numbers, list):
                    numbers = [numbers + j for j in range(n)]
                data = rc.images(seed, n, h, w)
                fh.write(rc.v1_block(numbers, h, w, data, version, stamp))
                want.append((numbers, data, version, stamp))
        paths.append(p)

    def same(b, exp, what):
        numbers, data, version, stamp = exp
        n, h, w = data.shape
        hd = b.header
        check(hd.images_in_block == n, '{}: {} images instead of {}', what, hd.images_in_block, n)
        check(list(hd.image_numbers) == numbers, '{}: image numbers {} instead of {}', what,
              list(hd.image_numbers)[:9], numbers[:9])
        check(tuple(hd.frame_dimensions) == (w, h), '{}: frame dimensions {} instead of {}', what,
              hd.frame_dimensions, (w, h))
        check((hd.version, hd.timestamp) == (version, stamp), '{}: version, time {} instead of {}',
              what, (hd.version, hd.timestamp), (version, stamp))
        got = np.asarray(b.data)
        check(got.shape == data.shape and got.dtype == np.uint16, '{}: shape {}', what, got.shape)
        check(np.array_equal(got, data), '{}: wrong pixels', what)

    arg = paths[0] if len(paths) == 1 and case['single'] else paths

    def make():
        return io.reader(arg) if case['default'] else io.reader(arg, version=1)
    run_history(case, make, want, same)


@st.composite
def v3_cases(draw):
    W, H = draw(st.one_of(st.tuples(st.integers(1, 9), st.integers(1, 9)),
                          st.sampled_from([(1000, 900), (65535, 65535), (1, 65535), (4096, 3)])))
    files = []
    total = 0
    for _ in range(draw(st.integers(1, 3))):
        fr = []
        for _ in range(draw(st.integers(0, 4))):
            x = draw(st.one_of(st.integers(0, W - 1), st.just(W - 1)))
            y = draw(st.one_of(st.integers(0, H - 1), st.just(H - 1)))
            fr.append([x, y, draw(st.integers(0, 2**32 - 1)), draw(st.integers(0, 2**20))])
            total += 1
        files.append(fr)
    return {'W': W, 'H': H, 'scan': draw(st.sampled_from([0, 7, 2**32 - 1])), 'files': files,
            'hist': draw(history()), 'single': draw(st.booleans())}


def run_v3(case, ctx):
    from stempy import io
    want = []
    paths = []
    W, H = case['W'], case['H']
    for k, frames in enumerate(case['files']):
        p = os.path.join(ctx.tmp, f'{k}' + NAMES[k % len(NAMES)])
        with open(p, 'wb') as fh:
            for x, y, number, seed in frames:
                data = rc.frame(case.get('kind', 'random'), seed)
                fh.write(struct.pack('<IIHHHH', case['scan'], number, W, H, x, y))
                fh.write(data.tobytes())
                want.append((y * W + x, data))
        paths.append(p)

    def same(b, exp, what):
        number, data = exp
        hd = b.header
        check(hd.images_in_block == 1 and list(hd.image_numbers) == [number],
              '{}: image numbers {} instead of {}', what, list(hd.image_numbers), number)
        check(tuple(hd.scan_dimensions) == (W, H), '{}: scan dimensions {} instead of {}', what,
              hd.scan_dimensions, (W, H))
        check(tuple(hd.frame_dimensions) == (576, 576), '{}: frame dimensions {}', what,
              hd.frame_dimensions)
        check(hd.version == 3, '{}: version {}', what, hd.version)
        got = np.asarray(b.data)
        check(got.shape == (1, 576, 576) and np.array_equal(got[0], data), '{}: wrong pixels', what)

    arg = paths[0] if len(paths) == 1 and case['single'] else paths
    run_history(case, lambda: io.reader(arg, version=io.FileVersion.VERSION3), want, same)


N2, FRAME2 = 1600, 576 * 576 * 2


@st.composite
def v2_cases(draw):
    """Blocks of 1600 frames, most of which are zero (and take no space in the files)."""
    frames = st.lists(st.tuples(st.one_of(st.sampled_from([0, N2 - 1, 1, 799, 800]), st.integers(0, N2 - 1)),
                                st.integers(0, 2**20)).map(list), min_size=1, max_size=4,
                      unique_by=lambda x: x[0])
    blocks = draw(st.sampled_from([[1], [1], [2], [1, 1], [0, 1]]))
    return {'files': [[draw(frames) for _ in range(n)] for n in blocks],
            'first': draw(st.sampled_from([0, 1, 2**32 - 1])), 'reset': draw(st.booleans())}


def run_v2(case, ctx):
    from stempy import io
    want, paths = [], []
    for k, blocks in enumerate(case['files']):
        p = os.path.join(ctx.tmp, f'{k}' + NAMES[k % len(NAMES)])
        with open(p, 'wb') as fh:
            for frames in blocks:
                at = fh.tell()
                fh.write(struct.pack('<I', case['first']))
                for i, seed in frames:
                    fh.seek(at + 4 + i * FRAME2)
                    fh.write(rc.frame('sparse', seed).tobytes())
                fh.truncate(at + 4 + N2 * FRAME2)
                fh.seek(0, os.SEEK_END)
                want.append({i: seed for i, seed in frames})
        paths.append(p)
    reader = io.reader(paths, version=2)
    for turn in range(1 + case['reset']):
        for k, exp in enumerate(want):
            b = reader.read()
            check(b is not None, 'ends after {} of {} blocks', k, len(want))
            hd = b.header
            check(hd.images_in_block == N2 and list(hd.image_numbers) == list(range(N2)), 'block {}: image numbers', k)
            check(tuple(hd.frame_dimensions) == (576, 576) and hd.version == 2, 'block {}: header', k)
            got = np.asarray(b.data)
            check(got.shape == (N2, 576, 576) and got.dtype == np.uint16, 'block {}: shape {}', k, got.shape)
            for i in range(N2):
                if i in exp:
                    check(np.array_equal(got[i], rc.frame('sparse', exp[i])), 'block {}, frame {}: wrong pixels', k, i)
                else:
                    check(not got[i].any(), 'block {}, frame {}: pixels of another frame', k, i)
            del b, got
        check(reader.read() is None, 'there are more than {} blocks', len(want))
        reader.reset()


@st.composite
def many_cases(draw):
    version = draw(st.sampled_from([1, 1, 3]))
    return {'version': version, 'seed': draw(st.integers(0, 2**20)),
            'nfiles': draw(st.sampled_from([1, 2, 9, 33, 70] if version == 1 else [1, 2, 9, 20])),
            'n': draw(st.sampled_from([20, 70, 140, 300] + ([1100] if version == 1 else []))) + draw(st.integers(0, 2)),
            'hist': draw(st.lists(st.one_of(st.sampled_from([1, 5, 33, 130]), st.just('reset'), st.just('end')),
                                  max_size=4))}


def run_many(case, ctx):
    """Many files, with many blocks."""
    rng = np.random.default_rng([case['seed'], 29])
    of = np.sort(rng.integers(0, case['nfiles'], case['n']))
    files = [[] for _ in range(case['nfiles'])]
    W, H = 50, 30
    for i, f in enumerate(of):
        if case['version'] == 1:
            k = int(rng.choice([1, 2, 7, 32]))
            files[f].append([int(rng.integers(0, 2**31)), k, int(rng.integers(1, 12)), int(rng.integers(1, 12)), 1,
                             i, case['seed'] + i])
        else:
            files[f].append([int(rng.integers(0, W)), int(rng.integers(0, H)), i, case['seed'] + i])
    case = dict(case, files=files, single=False, default=False, W=W, H=H, scan=1, kind='tiny')
    (run_v1 if case['version'] == 1 else run_v3)(case, ctx)


def nontrivial(case):
    return sum(map(len, case['files'])) > 1


def classify(case):
    out = [f"files={len(case['files'])}", f"blocks={min(sum(map(len, case['files'])), 6)}"]
    if any(not f for f in case['files']):
        out.append('empty file')
    if 'reset' in case['hist']:
        out.append('reset in the middle' if case['hist'][0] != 'reset' else 'reset')
    return out


SUBS = [
    Sub('images', v1_cases, run_v1, 'more than one block is stored', nontrivial=nontrivial,
        classify=classify, quick=2400, thorough=60000, shards=4),
    Sub('frames', v3_cases, run_v3, 'more than one frame is stored', nontrivial=nontrivial,
        classify=classify, quick=400, thorough=8000, shards=4),
    Sub('many', many_cases, run_many, 'every case', quick=80, thorough=2000, shards=4,
        classify=lambda c: [f"v{c['version']}", f"files={c['nfiles']}",
                            f"blocks>={max(x for x in (20, 70, 140, 300, 1100) if x <= c['n'])}"]),
    Sub('blocks of 1600', v2_cases, run_v2, 'every case (version 2: a block takes 1 GB of memory)',
        classify=lambda c: [f"files={len(c['files'])}"], quick=6, thorough=100, shards=1, timeout=120),
]
