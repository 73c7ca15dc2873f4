"""C14: SparseArray reductions equal numpy reductions of the dense expansion."""
import numpy as np
from hypothesis import strategies as st

from checks import sparse_common as sc
from vp.core import Sub, check

PROPERTY = 'C14'

DTYPES = [None, None, 'uint32', 'int64', 'uint16', 'float32', 'float64']


@st.composite
def cases(draw, arrays=sc.sparse_cases):
    arr = draw(arrays())
    nd = len(arr['scan']) + 2
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        op = draw(st.sampled_from(['sum', 'mean', 'min', 'max']))
        kind = draw(st.sampled_from(['scan', 'frame', 'name', 'any', 'any', 'none', 'int']))
        if kind == 'none':
            axis = None
        elif kind == 'name':
            axis = draw(st.sampled_from(['scan', 'frame']))
        elif kind == 'int':
            axis = draw(st.integers(-nd, nd - 1))
        else:
            if kind == 'scan':
                ax = list(range(nd - 2))
            elif kind == 'frame':
                ax = [nd - 2, nd - 1]
            else:
                ax = draw(st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd, unique=True))
            ax = draw(st.permutations(ax))
            axis = [a - nd if draw(st.integers(0, 3)) == 0 else a for a in ax]
        dt = draw(st.sampled_from(DTYPES))
        if op == 'mean' and dt is not None and not dt.startswith('float'):
            dt = 'float64'
        calls.append({'op': op, 'axis': axis, 'dtype': dt,
                      'aslist': draw(st.booleans()), 'viakw': draw(st.booleans())})
    return {'arr': arr, 'calls': calls, 'allow': draw(st.integers(0, 3)) > 0,
            'sparse': draw(st.booleans()), 'omit': draw(st.booleans()),
            'adt': draw(st.sampled_from(['uint32', 'uint32', 'int64', 'uint16', 'float64']))}


def run(case, ctx):
    from stempy.io.sparse_array import FullExpansionDenied
    c = case['arr']
    sa = sc.make(c, case.get('omit'), dtype=np.dtype(case['adt']).type, allow_full_expand=case['allow'],
                 sparse_slicing=case['sparse'])
    before = sc.snapshot(sa)
    d = sc.dense(c)
    nd = d.ndim
    ns = len(c['scan'])
    for call in case['calls']:
        axis, op, dt = call['axis'], call['op'], call['dtype']
        if axis == 'scan':
            nax = tuple(range(ns))
        elif axis == 'frame':
            nax = (nd - 2, nd - 1)
        elif axis is None:
            nax = tuple(range(nd))
        elif isinstance(axis, int):
            nax = (axis,)
        else:
            nax = tuple(axis)
        arg = axis
        if isinstance(axis, list) and not call['aslist']:
            arg = tuple(axis)
        kw = {} if dt is None else {'dtype': np.dtype(dt).type}
        ref = getattr(d, op)(axis=nax, **({'dtype': np.float64} if op == 'mean' else {}))
        norm = tuple(sorted(a % nd for a in nax))
        try:
            if call['viakw']:
                got = getattr(sa, op)(axis=arg, **kw)
            else:
                got = getattr(sa, op)(arg, **kw)
        except FullExpansionDenied:
            check(not case['allow'], '{}: expansion denied although allowed', call)
            check(norm not in (tuple(range(ns)), (nd - 2, nd - 1)) or isinstance(axis, (int, list)),
                  '{}: specialised reduction was denied', call)
            check(norm not in (tuple(range(ns)), (nd - 2, nd - 1)) or
                  (not isinstance(axis, str) and any(a < 0 for a in nax)),
                  '{}: specialised reduction was denied', call)
            check(sc.snapshot(sa) == before and sa.sparse_slicing == case['sparse'],
                  '{}: array changed by a denied reduction', call)
            continue
        if not case['allow']:
            check(norm in (tuple(range(ns)), (nd - 2, nd - 1)),
                  '{}: full expansion was not denied', call)
        check(np.shape(got) == ref.shape, '{}: shape {} instead of {}', call, np.shape(got), ref.shape)
        if op == 'mean':
            check(np.allclose(np.asarray(got, dtype=np.float64), ref, rtol=1e-5, atol=1e-7),
                  '{}: {} instead of {}', call, got, ref)
        else:
            check(np.array_equal(got, ref), '{}: {} instead of {}', call, got, ref)
        if dt is not None:
            check(np.asarray(got).dtype == np.dtype(dt), '{}: dtype {} instead of {}', call,
                  np.asarray(got).dtype, dt)
        check(sc.snapshot(sa) == before and sa.sparse_slicing == case['sparse'] and
              sa.allow_full_expand == case['allow'], '{}: array changed', call)


def classify(c):
    out = sc.labels(c['arr'])
    for k in c['calls']:
        a = k['axis']
        out.append(k['op'])
        out.append('axis-' + (a if isinstance(a, str) else 'none' if a is None else
                              'int' if isinstance(a, int) else f'tuple{len(a)}'))
        if k['dtype']:
            out.append('dtype')
    return out


SUBS = [
    Sub('reduce', cases, run,
        rule='a generated array and 1-3 reductions with generated axis spelling and dtype; '
             'non-trivial = at least one event',
        nontrivial=lambda c: sc.events(c['arr']) > 0, classify=classify,
        quick=12000, thorough=300000, shards=16),
    Sub('reduce-large', lambda: cases(sc.large_cases), run,
        rule='as reduce, with frames of detector size (up to 576x576, 1x70000)',
        nontrivial=lambda c: sc.events(c['arr']) > 0, classify=classify,
        quick=240, thorough=5000, shards=4),
    Sub('reduce-wide', lambda: cases(sc.wide_cases), sc.wide(run),
        rule='as reduce, scans of up to 65800 positions, or up to 300 frames per position',
        nontrivial=sc.wide(lambda c: sc.events(c['arr']) > 0), classify=sc.wide_labels(classify),
        quick=240, thorough=6000, shards=6),
]
