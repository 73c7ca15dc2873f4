"""C15: binning and reshaping histories conserve every electron."""
import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Sub, check

PROPERTY = 'C15'


def divisors(*ns):
    g = int(np.gcd.reduce(ns))
    return [k for k in range(1, g + 1) if g % k == 0]


def factor_pairs(n):
    return [[a, n // a] for a in range(1, n + 1) if n % a == 0]


@st.composite
def cases(draw, large=False, arrays=None):
    # Sizes with many divisors, so that several binnings fit in a row.
    if draw(st.integers(0, 3)) == 0:
        scan = [draw(st.sampled_from([1, 2, 4, 6, 8, 12]))]
    else:
        scan = draw(st.sampled_from([[1, 1], [2, 2], [2, 4], [4, 2], [3, 3], [2, 6], [4, 4], [6, 2],
                                     [3, 6], [1, 4], [4, 1]]))
    frame = draw(st.sampled_from([[2, 2], [2, 4], [4, 2], [4, 4], [6, 4], [4, 8], [8, 4], [6, 6],
                                  [3, 6], [9, 3], [8, 8], [1, 4], [5, 5], [12, 6]]))
    if large:
        scan = draw(st.sampled_from([[2], [2, 2], [2, 1]]))
        frame = draw(st.sampled_from([[576, 576], [300, 400], [512, 256], [256, 512], [2, 40000]]))
    npix = frame[0] * frame[1]
    fps = draw(st.integers(1, 2))
    one = st.lists(st.integers(0, npix - 1), max_size=min(npix, 8), unique=True).map(sorted)
    full = st.just(list(range(npix)))
    fr = st.one_of(one, one, one, full) if npix <= 36 else one
    ev = [[draw(fr) for _ in range(fps)] for _ in range(int(np.prod(scan)))]
    arr = {'scan': list(scan), 'frame': list(frame), 'fps': fps,
           'edt': draw(st.sampled_from(['uint32', 'int64', 'uint64'] if npix > 65535 else
                                       sc.EVENT_DTYPES + ['uint8'])), 'ev': ev}
    if arrays:
        arr = draw(arrays())
        scan, frame = arr['scan'], arr['frame']
    s, f = list(scan), list(frame)
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['bin_scans', 'bin_frames', 'bin_frames', 'reshape', 'setshape',
                                  'ravel', 'bad_bin_scans', 'bad_bin_frames', 'bad_reshape']))
        if k in ('bin_scans', 'bin_frames'):
            dv = divisors(*(s if k == 'bin_scans' else f))
            b = draw(st.sampled_from(dv))
            if k == 'bin_scans':
                s = [x // b for x in s]
            else:
                f = [x // b for x in f]
            ops.append([k, b, draw(st.booleans())])
        elif k in ('reshape', 'setshape'):
            ns = int(np.prod(s))
            s = draw(st.sampled_from([[ns]] + factor_pairs(ns)))
            if draw(st.booleans()):
                f = draw(st.sampled_from(factor_pairs(int(np.prod(f)))))
            ops.append([k, list(s) + list(f), draw(st.booleans())])
        elif k == 'ravel':
            s = [int(np.prod(s))]
            ops.append(['ravel'])
        elif k == 'bad_reshape':
            t = list(s) + list(f)
            i = draw(st.integers(0, len(t) - 1))
            t[i] += draw(st.integers(1, 2))
            ops.append([k, t])
        else:
            dims = s if k == 'bad_bin_scans' else f
            b = draw(st.integers(2, 13))
            if all(x % b == 0 for x in dims):
                continue
            ops.append([k, b, draw(st.booleans())])
    return {'arr': arr, 'ops': ops}


def model_bin(d, b, first, count):
    """Sum blocks of b along `count` axes starting at `first`."""
    shape, axes = [], []
    for i, n in enumerate(d.shape):
        if first <= i < first + count:
            shape += [n // b, b]
            axes.append(len(shape) - 1)
        else:
            shape.append(n)
    return d.reshape(shape).sum(axis=tuple(axes))


def verify(sa, d, what):
    sa._validate()
    check(tuple(sa.shape) == d.shape, '{}: shape {} instead of {}', what, sa.shape, d.shape)
    check(sa.num_scans == int(np.prod(d.shape[:-2])), '{}: num_scans', what)
    for i, p in enumerate(sa.data):
        for f in p:
            check(len(np.unique(f)) == len(f), '{}: frame of position {} holds a pixel twice: {}',
                  what, i, f)
            check(f.size == 0 or (0 <= int(f.min()) and int(f.max()) < d.shape[-1] * d.shape[-2]),
                  '{}: event outside the frame: {}', what, f)
    check(np.array_equal(sc.dense_of(sa), d), '{}: events differ: {} instead of {}', what,
          sc.dense_of(sa).tolist(), d.tolist())
    check(np.array_equal(sa.to_dense(), d), '{}: to_dense differs', what)
    check(sum(len(f) for p in sa.data for f in p) == d.sum(), '{}: number of events', what)


def run(case, ctx):
    sa = sc.make(case['arr'], metadata={'k': 1})
    d = sc.dense(case['arr'])
    kept = []
    for op in case['ops']:
        k = op[0]
        ns = len(sa.scan_shape)
        before = sc.snapshot(sa)
        if k in ('bin_scans', 'bin_frames'):
            nxt = getattr(sa, k)(op[1], in_place=op[2]) if op[2] else getattr(sa, k)(op[1])
            d2 = model_bin(d, op[1], 0, ns) if k == 'bin_scans' else model_bin(d, op[1], ns, 2)
            if op[2]:
                check(nxt is sa, '{}: in place, but returned another array', op)
            else:
                check(nxt is not sa, '{}: not in place, but returned the array itself', op)
                check(sc.snapshot(sa) == before, '{}: changed the original', op)
                kept.append((sa, before, op))
            sa, d = nxt, d2
        elif k in ('reshape', 'setshape', 'ravel'):
            if k == 'reshape':
                r = sa.reshape(*op[1]) if op[2] else sa.reshape(tuple(op[1]))
                check(r is sa, '{}: did not return the array', op)
                d = d.reshape(op[1])
            elif k == 'setshape':
                sa.shape = tuple(op[1]) if op[2] else list(op[1])
                d = d.reshape(op[1])
            else:
                r = sa.ravel_scans()
                check(r is sa, '{}: did not return the array', op)
                d = d.reshape((-1,) + d.shape[-2:])
        else:
            try:
                if k == 'bad_reshape':
                    sa.reshape(*op[1])
                else:
                    getattr(sa, k[4:])(op[1], in_place=op[2])
            except ValueError:
                check(sc.snapshot(sa) == before, '{}: refused, but the array changed', op)
            else:
                check(False, '{}: accepted', op)
        verify(sa, d, op)
        check(np.array_equal(sa.sum(axis='scan'), d.sum(axis=tuple(range(len(sa.scan_shape))))),
              '{}: sum over scans', op)
        check(np.array_equal(sa.sum(axis='frame'), d.sum(axis=(-2, -1))), '{}: sum over frames', op)
    for arr, snap, op in kept:
        check(sc.snapshot(arr) == snap, '{}: the original changed later on', op)


def classify(c):
    out = ['scan%dd' % len(c['arr']['scan']),
           'square' if c['arr']['frame'][0] == c['arr']['frame'][1] else 'nonsquare']
    return out + [o[0] + ('-copy' if len(o) > 2 and o[2] is False else '') for o in c['ops']] + [
        'ops%d' % len(c['ops'])]


def nontrivial(c):
    return sc.events(c['arr']) > 0 and any(
        o[0].startswith('bin') and o[1] > 1 or o[0] in ('reshape', 'setshape') for o in c['ops'])


SUBS = [
    Sub('history', cases, run,
        rule='an array and a history of 1-6 binnings/reshapes (in place or copying, some that must '
             'be refused) checked after every step against block sums of the dense array; '
             'non-trivial = at least one event and a binning by more than 1 or a reshape',
        nontrivial=nontrivial, classify=classify, quick=9600, thorough=200000, shards=16),
    Sub('history-large', lambda: cases(True), run,
        rule='as history, with frames of detector size (up to 576x576)',
        nontrivial=nontrivial, classify=classify, quick=160, thorough=4000, shards=4),
    Sub('history-wide', lambda: cases(arrays=lambda: sc.wide_cases(huge=False)), sc.wide(run),
        rule='as history, scans of up to 6000 positions, or up to 300 frames per position',
        nontrivial=sc.wide(nontrivial), classify=sc.wide_labels(classify), quick=160, thorough=4000,
        shards=6),
]
