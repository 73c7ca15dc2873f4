"""C22: pipeline decorators describe and bind parameters faithfully."""
from hypothesis import strategies as st

from vp.core import Sub, check

PROPERTY = 'C22'
NAME = st.sampled_from(['a', 'b', 'c', 'reader', 'radius', 'x1', 'default', 'type', 'func', 'kwargs'])
VALUE = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(['', 'x', 'string']),
                  st.floats(-2, 2), st.lists(st.integers(0, 3), max_size=2))
OPT = st.one_of(st.none(), st.sampled_from(['', 'Label', 'A description']))


@st.composite
def functions(draw):
    names = draw(st.lists(NAME, max_size=5, unique=True))
    params = [{'name': n, 'type': draw(st.sampled_from([None, 'string', 'int', 'float', 'file'])),
               'label': draw(OPT), 'description': draw(OPT),
               'default': draw(VALUE), 'has_default': draw(st.booleans())} for n in names]
    pipe = {k: draw(OPT) for k in ('name', 'description')}
    pipe['input'] = draw(st.sampled_from([None, 'image', 'frame']))
    pipe['output'] = draw(st.sampled_from([None, 'image', 'frame']))
    pipe['aggregation'] = draw(st.sampled_from([None, 'sum', 'max', 'min', 'mean', 'median']))
    return {'params': params, 'pipe': pipe, 'at': draw(st.integers(0, len(params))),
            'ret': draw(st.integers())}


@st.composite
def cases(draw):
    fs = draw(st.lists(functions(), min_size=1, max_size=3))
    calls = []
    for _ in range(draw(st.integers(1, 5))):
        i = draw(st.integers(0, len(fs) - 1))
        names = [p['name'] for p in fs[i]['params']] + ['extra', 'other']
        given = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names)))
        calls.append([i, {n: draw(VALUE) for n in given}])
    # Functions of different modules often have the same name
    return {'fs': fs, 'calls': calls, 'names': draw(st.sampled_from([[0, 1, 2], [0, 0, 0], [0, 1, 0]]))}


def run(case, ctx):
    from stempy import pipeline as pl
    log = []

    def name_of(k):
        # Other names in each case, as a failure must not come from an earlier case
        return 'fn%d_%d' % (ctx.n, case.get('names', [0, 1, 2])[k])
    built = []

    def make(k, spec):
        def fn(**kw):
            """Docs."""
            log.append((k, dict(kw)))
            return spec['ret']
        fn.__name__ = fn.__qualname__ = name_of(k)
        f = fn
        pipe = {a: b for a, b in spec['pipe'].items() if b is not None}
        # `at` parameters are applied before (inside) the pipeline decorator
        for i, p in enumerate(spec['params'] + [None]):
            if i == spec['at']:
                f = pl.pipeline(**pipe)(f)
            if p is None:
                break
            kw = {a: p[a] for a in ('label', 'description') if p[a] is not None}
            if p['type'] is not None:
                kw['type'] = p['type']
            if p['has_default']:
                kw['default'] = p['default']
            f = pl.parameter(p['name'], **kw)(f)
        return f

    for k, spec in enumerate(case['fs']):
        built.append(make(k, spec))
    for k, (f, spec) in enumerate(zip(built, case['fs'])):
        p = spec['pipe']
        check(f.NAME == p['name'] and f.DESCRIPTION == p['description'], 'name or description of {}', k)
        check(f.INPUT == (p['input'] or 'frame'), 'input {}', f.INPUT)
        check(f.OUTPUT == (p['output'] or 'image'), 'output {}', f.OUTPUT)
        check(f.AGGREGATION == (p['aggregation'] or 'sum'), 'aggregation {}', f.AGGREGATION)
        want = {q['name']: {'type': q['type'] or 'string', 'label': q['label'],
                            'description': q['description'],
                            'default': q['default'] if q['has_default'] else None}
                for q in spec['params']}
        check(dict(f.PARAMETERS) == want, 'parameters of {}: {} instead of {}', k, dict(f.PARAMETERS), want)
        check(f.__name__ == name_of(k) and f.__doc__ == 'Docs.', 'name and docs of the function')
    for i, kw in case['calls']:
        keep = dict(kw)
        del log[:]
        r = built[i](**kw)
        want = {q['name']: (q['default'] if q['has_default'] else None) for q in case['fs'][i]['params']}
        want.update(kw)
        check(log == [(i, want)], 'called with {}: {} instead of {}', kw, log, (i, want))
        check(r == case['fs'][i]['ret'], 'result')
        check(kw == keep, 'the caller\'s keywords were modified')
        for q in case['fs'][i]['params']:
            check(built[i].PARAMETERS[q['name']]['default'] ==
                  (q['default'] if q['has_default'] else None), 'a call changed a default')


SUBS = [
    Sub('decorators', cases, run,
        rule='one to three functions with their own stacks of decorators, and calls; non-trivial = '
             'a function with at least two parameters',
        nontrivial=lambda c: any(len(f['params']) > 1 for f in c['fs']),
        classify=lambda c: ['functions%d' % len(c['fs'])] +
        ['params%d' % max(len(f['params']) for f in c['fs'])],
        quick=12000, thorough=200000, shards=8),
]
