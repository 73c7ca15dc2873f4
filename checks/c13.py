"""C13: indexing a SparseArray equals indexing its dense expansion."""
import bisect

import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Reject, Sub, check

PROPERTY = 'C13'


@st.composite
def axis_index(draw, n, allow_array, bad):
    kinds = ['all', 'all', 'int', 'slice', 'slice']
    if allow_array:
        kinds = ['all', 'int', 'slice', 'list', 'list', 'blist', 'blist', 'array', 'array']
    k = draw(st.sampled_from(kinds))
    if k == 'all':
        return ['s', None, None, None]
    if k == 'int':
        lo, hi = (-n - 2, n + 1) if bad else (-n, n - 1)
        return ['i', draw(st.integers(lo, hi))]
    if k == 'slice':
        b = st.one_of(st.none(), st.integers(-n - 1, n + 1))
        step = draw(st.one_of(st.none(), st.sampled_from([1, 2, 3, -1, -2])))
        return ['s', draw(b), draw(b), step]
    if k == 'blist':
        if n > 100:
            return ['b', {'pattern': draw(st.lists(st.booleans(), min_size=1, max_size=7)), 'n': n}]
        return ['b', draw(st.lists(st.booleans(), min_size=n, max_size=n))]
    return ['l' if k == 'list' else 'a',
            draw(st.lists(st.integers(-n, n - 1), min_size=1, max_size=4))]


@st.composite
def part_index(draw, shape, allow_array, bad):
    """Index of the scan part or of the frame part."""
    if allow_array and len(shape) == 2 and draw(st.integers(0, 3)) == 0:
        n = shape[0] * shape[1]
        if n > 100:
            # Compact description: a pattern repeated over the frame.
            return [['m', {'pattern': draw(st.lists(st.booleans(), min_size=1, max_size=7))}]]
        m = draw(st.lists(st.booleans(), min_size=n, max_size=n))
        return [['m', m]]
    k = draw(st.integers(0, len(shape)))
    out = []
    used = None
    for n in shape[:k]:
        ix = draw(axis_index(n, allow_array, bad))
        if ix[0] in 'lab':
            # Paired arrays of one part must broadcast.
            ln = int(np.sum(bits(ix[1], n))) if ix[0] == 'b' else len(ix[1])
            if used is not None and used != ln:
                ix = ['s', None, None, None]
            else:
                used = ln
        out.append(ix)
    return out


@st.composite
def index(draw, scan, frame):
    adv = draw(st.sampled_from(['scan', 'frame', 'none']))
    bad = draw(st.integers(0, 9)) == 0
    s = draw(part_index(scan, adv == 'scan', bad))
    full = bool(s) and s[0][0] == 'm' or len(s) == len(scan)
    if draw(st.integers(0, 2)) == 0:
        f = []
    else:
        f = draw(part_index(frame, adv == 'frame', bad))
        if f and not full:
            s = s + [['s', None, None, None]] * (len(scan) - len(s))
    return {'s': s, 'f': f}


def bits(m, n):
    if isinstance(m, dict):
        return np.resize(np.array(m['pattern'], dtype=bool), n)
    return np.array(m, dtype=bool)


def decode(ix, shape):
    k = ix[0]
    if k == 's':
        return slice(*ix[1:])
    if k == 'i':
        return ix[1]
    if k == 'l':
        return list(ix[1])
    if k == 'a':
        return np.array(ix[1], dtype=np.int64)
    if k == 'b':
        return bits(ix[1], ix[1]['n'] if isinstance(ix[1], dict) else None)
    return bits(ix[1], int(np.prod(shape))).reshape(shape)


def decode_key(ix, scan, frame):
    s = tuple(decode(x, scan) for x in ix['s'])
    f = tuple(decode(x, frame) for x in ix['f'])
    return s, f


def one_or_tuple(key, bare):
    return key[0] if len(key) == 1 and bare else key


def expected(d, nscan, s, f):
    """numpy's answer, or IndexError; Reject where numpy would move axes."""
    try:
        ref = d[s + f]
    except IndexError:
        return None
    # The same index applied to scan axes and frame axes separately.
    scan_shape, frame_shape = d.shape[:nscan], d.shape[nscan:]
    sn = np.arange(int(np.prod(scan_shape))).reshape(scan_shape)[s]
    fn = np.arange(int(np.prod(frame_shape))).reshape(frame_shape)[f]
    flat = d.reshape(int(np.prod(scan_shape)), -1)
    outer = flat[np.ravel(sn)][:, np.ravel(fn)].reshape(np.shape(sn) + np.shape(fn))
    if outer.shape != ref.shape or not np.array_equal(outer, ref):
        raise Reject()
    return ref


def is_full_key(ix):
    return all(x == ['s', None, None, None] for x in ix['s'] + ix['f'])


def run(case, ctx):
    from stempy.io import SparseArray
    from stempy.io.sparse_array import FullExpansionDenied
    c = case['arr']
    sa = sc.make(c, case.get('omit'), sparse_slicing=case['sparse'], allow_full_expand=case['allow'])
    before = sc.snapshot(sa)
    d = sc.dense(c)
    check(np.array_equal(sa.to_dense(), d), 'to_dense differs from the event lists')
    check(sa.shape == d.shape and sa.ndim == d.ndim, 'shape')
    check(sa.sparse_slicing == case['sparse'] and sa.allow_full_expand == case['allow'],
          'to_dense changed the settings of the array')
    cur, curd = sa, d
    for ix in case['ix']:
        nscan = len(cur.scan_shape)
        s, f = decode_key(ix, tuple(cur.scan_shape), tuple(cur.frame_shape))
        try:
            ref = expected(curd, nscan, s, f)
        except ValueError:
            raise Reject()
        key = one_or_tuple(s + f, case['bare'])
        inner = sc.snapshot(cur)
        try:
            got = cur[key]
        except IndexError:
            check(ref is None, 'index {} refused, but numpy accepts it', ix)
            check(sc.snapshot(cur) == inner, 'refused index changed the array')
            return
        except FullExpansionDenied:
            check(not case['allow'] and ref is not None and ref.shape == curd.shape,
                  'expansion denied for {} although it is allowed or smaller than the array', ix)
            check(sc.snapshot(cur) == inner, 'refused index changed the array')
            return
        check(ref is not None, 'index {} accepted, but numpy refuses it', ix)
        if not case['sparse']:
            check(not isinstance(got, SparseArray), 'dense slicing returned a SparseArray')
            if is_full_key(ix):
                check(case['allow'], 'full expansion {} was not denied', ix)
        check(sc.snapshot(cur) == inner, 'indexing with {} changed the array', ix)
        if isinstance(got, SparseArray):
            g = got.to_dense()
            check(tuple(got.shape) == ref.shape, 'index {}: shape {} instead of {}', ix,
                  got.shape, ref.shape)
            check(np.array_equal(sc.dense_of(got), ref), 'index {}: wrong events', ix)
            for p in got.data.ravel():
                check(len(np.unique(p)) == len(p), 'index {}: a frame holds a pixel twice', ix)
            mine = sorted(np.byte_bounds(x) for x in cur.data.ravel() if x.size)
            starts = [a for a, _ in mine]
            for x in got.data.ravel():
                if x.size:
                    lo, hi = np.byte_bounds(x)
                    k = bisect.bisect_left(starts, hi)
                    # Only arrays of the same buffer could nest; look at a few before it
                    check(not any(b > lo for _, b in mine[max(0, k - 3):k]),
                          'index {}: result shares data with the array', ix)
            check(got.sparse_slicing == cur.sparse_slicing and
                  got.allow_full_expand == cur.allow_full_expand and got.dtype == cur.dtype,
                  'index {}: settings are not those of the array', ix)
        else:
            g = got
        check(np.shape(g) == ref.shape, 'index {}: shape {} instead of {}', ix, np.shape(g),
              ref.shape)
        check(np.array_equal(g, ref), 'index {}: {} instead of {}', ix, g, ref)
        check(sc.snapshot(sa) == before, 'the original changed')
        if not isinstance(got, SparseArray) or len(got.frame_shape) != 2 or 0 in got.shape:
            return
        # A second index applies to the result; regenerate it for its shape.
        cur, curd = got, ref
        if any(not fits(x, n) for x, n in zip(case['ix'][-1]['s'], cur.scan_shape)) or any(
                not fits(x, n) for x, n in zip(case['ix'][-1]['f'], cur.frame_shape)):
            return
        last = case['ix'][-1]
        if len(last['s']) > len(cur.scan_shape) or (last['f'] and len(last['s']) != len(cur.scan_shape)):
            return
        if any(x[0] in 'mb' for x in last['s'] + last['f']):
            return


def fits(x, n):
    if x[0] == 's':
        return True
    if x[0] == 'i':
        return -n <= x[1] < n
    if x[0] in 'la':
        return all(-n <= v < n for v in x[1])
    return False


@st.composite
def cases(draw, arrays=sc.sparse_cases):
    arr = draw(arrays())
    n = draw(st.integers(1, 2))
    return {'arr': arr, 'ix': [draw(index(arr['scan'], arr['frame'])) for _ in range(n)],
            'sparse': draw(st.integers(0, 2)) > 0, 'allow': draw(st.booleans()),
            'bare': draw(st.booleans()), 'omit': draw(st.booleans())}


def classify(c):
    out = sc.labels(c['arr'])
    out.append('sparse' if c['sparse'] else 'dense')
    kinds = {x[0] for ix in c['ix'] for x in ix['s']}
    fk = {x[0] for ix in c['ix'] for x in ix['f']}
    out += ['scan-ix-' + k for k in sorted(kinds)] + ['frame-ix-' + k for k in sorted(fk)]
    return out


def nontrivial(c):
    return sc.events(c['arr']) > 0 and any(
        x != ['s', None, None, None] for ix in c['ix'] for x in ix['s'] + ix['f'])


SUBS = [
    Sub('index', cases, run,
        rule='a generated array (1-8 scan positions or up to 4x4, frames up to 6x6, 1-3 frames per '
             'position) and one or two generated index expressions; non-trivial = at least one event '
             'and an index other than full slices',
        nontrivial=nontrivial, classify=classify, quick=16000, thorough=300000, shards=16),
    Sub('index-large', lambda: cases(sc.large_cases), run,
        rule='as index, with frames of detector size (up to 576x576, 1x70000)',
        nontrivial=nontrivial, classify=classify, quick=300, thorough=6000, shards=4),
    Sub('index-wide', lambda: cases(sc.wide_cases), sc.wide(run),
        rule='as index, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(nontrivial), classify=sc.wide_labels(classify), quick=240, thorough=6000,
        shards=6),
]
