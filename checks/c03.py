"""C03: random access returns the frames captured at a scan position."""
import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Sub, check

PROPERTY = 'C03'


@st.composite
def selections(draw):
    """A frame selection, independent of the number of frames."""
    kind = draw(st.sampled_from(['none', 'none', 'int', 'int', 'slice', 'slice', 'list', 'mask']))
    if kind == 'none':
        return ['none']
    if kind == 'int':
        return ['int', draw(st.integers(-5, 5)), draw(st.sampled_from(['py', 'int64', 'uint8']))]
    if kind == 'slice':
        b = st.one_of(st.none(), st.integers(-6, 6))
        return ['slice', draw(b), draw(b), draw(st.sampled_from([None, 1, 2, -1, -2, 3]))]
    if kind == 'list':
        # Taken modulo the number of frames, or not
        return ['list', draw(st.lists(st.integers(-6, 6), max_size=5)), draw(st.integers(0, 3)) > 0,
                draw(st.sampled_from(['list', 'array', 'tuple']))]
    return ['mask', draw(st.lists(st.booleans(), min_size=5, max_size=5)),
            draw(st.integers(0, 4)) > 0, draw(st.sampled_from(['list', 'array']))]


@st.composite
def cases(draw):
    d = draw(rc.datasets(versions=(5,), max_frames=8, multi=True, kinds=('random', 'count'),
                         big='medium', max_per_position=4))
    n = len(d['frames'])
    ops = []
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.integers(0, 19))
        if k == 0 and d['kind'] == 'count':
            ops.append(['count', draw(st.integers(1, 3))])
        elif k == 1:
            ops.append(['shape'])
        elif k == 2:
            ops.append(['num'])
        elif k == 3:
            ops.append(['bad', draw(st.sampled_from(['neg', 'over', 'row', 'column', 'negrow', 'negcol']))])
        else:
            # The position of one of the frames, or any
            where = draw(st.one_of(st.integers(0, n - 1).map(lambda i: ['frame', i]),
                                   st.integers(0, n - 1).map(lambda i: ['frame', i]),
                                   st.integers(0, d['W'] * d['H'] - 1).map(lambda p: ['pos', p])))
            ops.append(['read', where, draw(st.sampled_from(['int', 'tuple', 'list', 'int64'])),
                        draw(selections())])
    return {'data': d, 'threads': draw(st.sampled_from([1, 2, 3, 8])), 'ops': ops,
            'single': draw(st.booleans())}


@st.composite
def many_cases(draw):
    m = draw(rc.many(versions=(5,), per_position=(1, 3, 40, 300)))
    ops = [['num'], ['shape']]
    for _ in range(draw(st.integers(3, 12))):
        where = draw(st.one_of(st.integers(0, m['n'] - 1), st.sampled_from([0, m['n'] - 1])))
        ops.append(['read', ['frame', where], draw(st.sampled_from(['int', 'tuple'])), draw(selections())])
    return {'many': m, 'threads': draw(st.sampled_from([1, 2, 8])), 'single': False, 'ops': ops}


def run_many(case, ctx):
    run(dict(case, data=rc.expand(case['many'])), ctx)


def select(sel, n):
    """(argument, indices, single) or (argument, 'IndexError', None)"""
    if sel[0] == 'none':
        return None, list(range(n)), False
    if sel[0] == 'int':
        v = sel[1]
        if sel[2] == 'uint8':
            v = abs(v)
        arg = v if sel[2] == 'py' else np.dtype(sel[2]).type(v)
        if not -n <= v < n:
            return arg, 'IndexError', None
        return arg, [v % n], True
    if sel[0] == 'slice':
        s = slice(*sel[1:])
        return s, list(range(n))[s], False
    if sel[0] == 'list':
        v = sel[1]
        if sel[2]:
            v = [k % (2 * n) - n for k in v] if n else []
        arg = v
        if sel[3] == 'array':
            arg = np.array(v, dtype=np.int64)
        elif sel[3] == 'tuple':
            # numpy reads a tuple as one index per axis
            arg = v
        if not all(-n <= k < n for k in v):
            return arg, 'IndexError', None
        return arg, [k % n for k in v], False
    m = sel[1][:n] if sel[2] else sel[1]
    m = m + [True] * (n - len(m)) if sel[2] else m
    arg = m if sel[3] == 'list' else np.array(m, dtype=bool)
    if len(m) != n:
        return arg, 'IndexError', None
    if not m:
        arg = np.array([], dtype=bool)
    return arg, [i for i, b in enumerate(m) if b], False


def run(case, ctx):
    from stempy import io, image
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    paths = ds.paths
    if len(paths) == 1 and case['single']:
        paths = paths[0]
    if not any(len(it) for s, it in d['files']):
        return
    W, H = d['W'], d['H']
    at = {}
    for k, (pos, number, mask, f) in enumerate(ds.frames):
        if mask:
            at.setdefault(pos, []).append((number, k))
    for v in at.values():
        v.sort()
    reader = io.reader(paths, version=5, backend='multi-pass', threads=case['threads'])

    def same(b, pos, k, what):
        check(list(b.header.image_numbers) == [pos], '{}: image number {} instead of {}', what,
              list(b.header.image_numbers), pos)
        check(tuple(b.header.scan_dimensions) == (W, H), '{}: scan dimensions {}', what,
              b.header.scan_dimensions)
        check(tuple(b.header.frame_dimensions) == (576, 576) and b.header.version == 5,
              '{}: header {} {}', what, b.header.frame_dimensions, b.header.version)
        got = np.asarray(b.data)
        exp = ds.expected(k)
        check(got.shape == exp.shape and got.dtype == np.uint16, '{}: shape {}', what, got.shape)
        if not np.array_equal(got, exp):
            r, c = np.argwhere(got != exp)[0]
            check(False, '{}: wrong pixel at row {} column {}: {} instead of {}', what, r, c,
                  got[r, c], exp[r, c])

    def refused(position, sel, what):
        try:
            reader.read_frames(position, sel)
        except IndexError:
            return
        check(False, '{}: read_frames({}, {}) is not refused', what, position, sel)

    kept = []
    for i, op in enumerate(case['ops']):
        what = f'operation {i}'
        if op[0] == 'shape':
            check(tuple(reader.scan_shape) == (H, W), '{}: scan shape {}', what, reader.scan_shape)
        elif op[0] == 'num':
            check(reader.num_frames_per_scan == max(map(len, at.values())),
                  '{}: {} frames per scan instead of {}', what, reader.num_frames_per_scan,
                  max(map(len, at.values())))
        elif op[0] == 'bad':
            bad = {'neg': -1, 'over': W * H, 'row': (H, 0), 'column': (0, W), 'negrow': (-1, 0),
                   'negcol': (0, -1)}[op[1]]
            refused(bad, None, what)
        elif op[0] == 'count':
            try:
                image.electron_count(reader, number_of_samples=2, threshold_num_blocks=op[1])
            except (ValueError, RuntimeError):
                pass  # C04 judges the counting
        else:
            _, where, form, sel = op
            pos = d['frames'][where[1]][0] if where[0] == 'frame' else where[1]
            numbers = at.get(pos, [])
            arg, want, single = select(sel, len(numbers))
            p = {'int': pos, 'int64': np.int64(pos), 'tuple': (pos // W, pos % W),
                 'list': [pos // W, pos % W]}[form]
            what += f': read_frames({p}, {arg})'
            if want == 'IndexError':
                refused(p, arg, what)
                continue
            got = reader.read_frames(p, arg)
            if single:
                check(not isinstance(got, list), '{}: a list is returned for one frame', what)
                got = [got]
            check(len(got) == len(want), '{}: {} frames instead of {}', what, len(got), len(want))
            for j, (b, n) in enumerate(zip(got, want)):
                same(b, pos, numbers[n][1], f'{what}, frame {j}')
                if len(kept) < 3:
                    kept.append((b, pos, numbers[n][1], what))
    # Blocks read earlier keep their content
    for b, pos, k, what in kept:
        same(b, pos, k, what + ', at the end')


def nontrivial(case):
    return any(o[0] == 'read' and o[1][0] == 'frame' and o[3][0] != 'none' for o in case['ops']) \
        and len(case['data']['frames']) > 1


def classify(case):
    out = rc.labels(case['data'])
    out += sorted({o[3][0] if o[0] == 'read' else o[0] for o in case['ops']})
    out.append(f"threads={case['threads']}")
    return out


SUBS = [
    Sub('read_frames', cases, run, 'several frames, and a read with a selection of frames',
        nontrivial=nontrivial, classify=classify, quick=600, thorough=12000, shards=8, timeout=120),
    Sub('many', many_cases, run_many, 'every case', classify=lambda c: rc.many_labels(c['many']),
        quick=100, thorough=2000, shards=4, timeout=180),
]
