"""C01: sector files reassemble into the frames they were recorded from."""
import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Sub, check

PROPERTY = 'C01'


@st.composite
def cases(draw):
    d = draw(rc.datasets(max_frames=7))
    return {'data': d, 'single': draw(st.booleans()),
            'resets': draw(st.lists(st.integers(0, 9), max_size=2)),
            'captured_first': draw(st.booleans())}


@st.composite
def many_cases(draw):
    return {'many': draw(rc.many()), 'single': False, 'resets': draw(st.sampled_from([[], [], [1], [15]])),
            'captured_first': draw(st.booleans())}


def run_many(case, ctx):
    run(dict(case, data=rc.expand(case['many'])), ctx)


def read_all(reader, stop=None):
    out = []
    while stop is None or len(out) < stop:
        b = reader.read()
        if b is None:
            check(reader.read() is None, 'an image is delivered after the end')
            break
        out.append(b)
    return out


def check_blocks(blocks, ds, what):
    case = ds.case
    want = {f[0]: k for k, f in enumerate(ds.frames) if f[2]}
    seen = set()
    for b in blocks:
        h = b.header
        check(h.images_in_block == 1 and len(h.image_numbers) == 1,
              '{}: {} images in a block', what, h.images_in_block)
        pos = h.image_numbers[0]
        check(pos in want, '{}: position {} was never recorded', what, pos)
        check(pos not in seen, '{}: position {} is delivered twice', what, pos)
        seen.add(pos)
        check(tuple(h.scan_dimensions) == (case['W'], case['H']), '{}: scan dimensions {}', what,
              h.scan_dimensions)
        check(tuple(h.frame_dimensions) == (rc.FR, rc.FR), '{}: frame dimensions {}', what,
              h.frame_dimensions)
        check(h.version == case['v'], '{}: version {}', what, h.version)
        got = np.asarray(b.data)
        check(got.shape == (1, rc.FR, rc.FR) and got.dtype == np.uint16, '{}: shape {} {}', what,
              got.shape, got.dtype)
        exp = ds.expected(want[pos])
        bad = np.argwhere(got[0] != exp)
        if len(bad):
            r, c = bad[0]
            check(False, '{}: position {}: {} wrong pixels, the first at row {} column {}: {} instead of {}',
                  what, pos, len(bad), r, c, got[0, r, c], exp[r, c])
    return seen, set(want)


def run(case, ctx):
    from stempy import io
    ds = rc.Dataset(case['data'], ctx.tmp)
    d = case['data']
    paths = ds.paths
    if len(paths) == 1 and case['single']:
        paths = paths[0]
    reader = io.reader(paths, version=d['v'])
    share = ds.n_sectors / (4.0 * d['W'] * d['H'])

    def captured():
        if ds.n_sectors:
            got = reader.data_captured()
            check(abs(got - share) <= 1e-6 * share, 'data_captured() is {} instead of {}', got, share)

    if case['captured_first']:
        captured()
    for i, k in enumerate(case['resets']):
        part = read_all(reader, k)
        check_blocks(part, ds, f'reading up to {k}')
        reader.reset()
    blocks = read_all(reader)
    seen, want = check_blocks(blocks, ds, 'reading')
    check(seen == want, 'positions not delivered: {}', sorted(want - seen))
    captured()
    reader.reset()
    n = 0
    seen = set()
    for b in reader:
        n += 1
        s, _ = check_blocks([b], ds, 'iterating after reset')
        check(not (s & seen), 'iterating after reset: delivered twice')
        seen |= s
    check(seen == want, 'after reset, positions not delivered: {}', sorted(want - seen))


def nontrivial(case):
    d = case['data']
    return len(d['frames']) > 1 or rc.incomplete(d)


SUBS = [
    Sub('sectors', cases, run,
        'several frames, or missing sectors',
        nontrivial=nontrivial, classify=lambda c: rc.labels(c['data']),
        quick=480, thorough=8000, shards=8, timeout=120),
    Sub('many', many_cases, run_many, 'every case', classify=lambda c: rc.many_labels(c['many']),
        quick=100, thorough=2000, shards=4, timeout=180),
]
