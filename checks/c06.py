"""C06: counting thresholds follow from the statistics of the sampled frames."""
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Reject, Sub, check

PROPERTY = 'C06'
NS = st.sampled_from([4, 0, 1, 2.5, 3.25, 10, -1.5])


def background(kind, seed, n, h, w, mu, sd):
    rng = np.random.default_rng([seed, 17])
    f = rng.normal(mu, sd, (n, h, w)).round()
    if kind == 'electrons':
        m = rng.random(f.shape) < .01
        f[m] += rng.integers(int(3 * sd), int(14 * sd) + 1, m.sum())
    elif kind == 'uneven':
        # Every image with its own level
        f += rng.integers(0, max(2, int(sd)), (n, 1, 1))
    return np.clip(f, 0, 65535).astype(np.uint16)


def values(images, dark, inv):
    """Corrected values, as the counting sees them."""
    x = images.astype(np.float64)
    if inv is None:
        if dark is not None:
            x = np.maximum(x - dark, 0)
        return x
    x = images.astype(np.float32)
    if dark is not None:
        x = x - dark.astype(np.float32)
    return (x * inv.astype(np.float32)).astype(np.float64)


def stats(v, picks):
    """Statistics of the images in picks (with repetitions)."""
    n = len(picks) * v[0].size
    mean = sum(v[i].sum() for i in picks) / n
    var = sum(((v[i] - mean)**2).sum() for i in picks) / (n - 1)
    return (min(v[i].min() for i in picks), max(v[i].max() for i in picks), mean, var)


def near(a, b, rel=2e-6, off=1e-6):
    return abs(a - b) <= rel * abs(b) + off


def agrees(r, s, integral):
    lo, hi, mean, var = s
    ok = near(r['mean'], mean) and near(r['variance'], var)
    if integral:
        return ok and r['min'] == lo and r['max'] == hi
    # The maximum of floats may be rounded up
    return ok and near(r['min'], lo) and hi - 1e-3 - 1e-6 * abs(hi) <= r['max'] <= hi + 1.001 + 1e-6 * abs(hi)


def derived(r):
    check(near(r['sd'], r['variance']**.5), 'standard deviation {} of variance {}', r['sd'], r['variance'])
    e = r['mean'] + r['xn'] * r['sd']
    check(near(r['xray'], e, off=1e-6 * (1 + r['sd'])), 'x-ray threshold {} instead of {}', r['xray'], e)
    e = r['center'] + r['bn'] * r['width']
    check(near(r['bg'], e, off=1e-6 * (1 + r['width'])), 'background threshold {} instead of {}', r['bg'], e)
    check(r['width'] >= 0, 'negative width {}', r['width'])


def unpack(res):
    return {'bg': res.background_threshold, 'xray': res.xray_threshold, 'n': res.number_of_samples,
            'min': res.min_sample, 'max': res.max_sample, 'mean': res.mean, 'variance': res.variance,
            'sd': res.std_dev, 'center': res.optimized_mean, 'width': res.optimized_std_dev,
            'xn': res.xray_threshold_n_sigma, 'bn': res.background_threshold_n_sigma}


def blocks_of(case, images, ctx):
    from stempy import io
    n, h, w = images.shape
    if case['source'] == 'v1':
        p = os.path.join(ctx.tmp, 'a')
        with open(p, 'wb') as fh:
            a = 0
            for k in case['split']:
                fh.write(rc.v1_block(list(range(a, a + k)), h, w, images[a:a + k]))
                a += k
        reader = io.reader(p)
        return [b for b in reader]
    return [b for b in io.PyReader(images, list(range(n)), (n, 1), case['split'][0], n)]


def thresholds(case, blocks, dark, inv, n, bn, xn):
    from stempy.image import _image
    args = [[b._block for b in blocks]]
    if dark is not None:
        args.append(dark.astype(np.float32))
    args += [n, bn, xn]
    if inv is not None:
        args.append(inv)
    try:
        return unpack(_image.calculate_thresholds(*args))
    except RuntimeError:
        return None


def splits(draw, n, source):
    if source == 'py':
        return [draw(st.integers(1, n))]
    out = []
    while sum(out) < n:
        out.append(draw(st.integers(1, n - sum(out))))
    return out


@st.composite
def stats_cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    h, w = draw(st.integers(2, 40)), draw(st.integers(2, 40))
    if draw(st.booleans()):
        h, w = draw(st.sampled_from([[60, 61], [100, 40]]))
    mu = draw(st.one_of(st.integers(2, 60), st.integers(2, 3000)))
    sd = draw(st.sampled_from([1.5, 2, 3, 5, 8, 20]))
    source = draw(st.sampled_from(['v1', 'py']))
    dark = draw(st.one_of(st.none(), st.integers(0, mu + 5).map(lambda v: ['const', v]),
                          st.tuples(st.integers(0, mu), st.integers(1, 9), st.integers(0, 999)).map(
                              lambda t: ['int', t[0], t[0] + t[1], t[2]])))
    return {'n': n, 'h': h, 'w': w, 'mu': mu, 'sd': sd, 'source': source,
            'split': splits(draw, n, source),
            'kind': draw(st.sampled_from(['plain', 'electrons', 'uneven'])),
            'seed': draw(st.integers(0, 2**20)), 'dark': dark, 'gain': draw(rc.gain_specs()),
            'samples': draw(st.integers(1, 4)), 'bn': draw(NS), 'xn': draw(NS)}


def run_stats(case, ctx):
    h, w = case['h'], case['w']
    images = background(case['kind'], case['seed'], case['n'], h, w, case['mu'], case['sd'])
    dark, inv = rc.make_dark(case['dark'], (h, w)), rc.inverse(rc.make_gain(case['gain'], (h, w)))
    blocks = blocks_of(case, images, ctx)
    r = thresholds(case, blocks, dark, inv, case['samples'], case['bn'], case['xn'])
    if r is None:
        raise Reject()
    check(r['n'] == case['samples'] and r['bn'] == case['bn'] and r['xn'] == case['xn'],
          'the parameters are reported as {}', r)
    derived(r)
    v = values(images, dark, inv)
    tried = []
    for picks in itertools.combinations_with_replacement(range(case['n']), case['samples']):
        s = stats(v, picks)
        if agrees(r, s, inv is None):
            return
        tried.append(s)
    check(False, '(min, max, mean, variance) of the samples are reported as {}, possible are {}',
          (r['min'], r['max'], r['mean'], r['variance']), tried[:5])


@st.composite
def cover_cases(draw):
    n = draw(st.integers(1, 4))
    source = draw(st.sampled_from(['v1', 'py']))
    return {'n': n, 'h': 12, 'w': 12, 'source': source, 'split': splits(draw, n, source),
            'seed': draw(st.integers(0, 2**20)), 'dark': draw(st.sampled_from([None, ['const', 5]])),
            'gain': draw(st.sampled_from([None, ['const', 0.5]])), 'lowest': draw(st.integers(0, n - 1))}


def run_cover(case, ctx):
    """Every image of every block has its chance to be sampled."""
    h, w, n = case['h'], case['w'], case['n']
    images = background('plain', case['seed'], n, h, w, 60, 3)
    # Each image holds pixels of a value of its own
    for i in range(n):
        images[i, 0, 0] = 90 + 4 * i
    images[case['lowest'], 3, 3] = 20
    dark, inv = rc.make_dark(case['dark'], (h, w)), rc.inverse(rc.make_gain(case['gain'], (h, w)))
    blocks = blocks_of(case, images, ctx)
    r = thresholds(case, blocks, dark, inv, 400, 4, 10)
    if r is None:
        raise Reject()
    v = values(images, dark, inv)
    lo, hi, mean, var = stats(v, range(n))
    # The chance that an image is missed is below 1e-27
    check(near(r['min'], lo) and near(r['max'], hi),
          '400 samples range from {} to {}, but the images from {} to {}', r['min'], r['max'], lo, hi)
    means = v.mean(axis=(1, 2))
    check(means.min() - 1e-3 <= r['mean'] <= means.max() + 1e-3, 'mean {} of images with the means {}',
          r['mean'], means)


@st.composite
def fit_cases(draw):
    n = draw(st.integers(1, 2))
    source = draw(st.sampled_from(['v1', 'py']))
    sd = draw(st.sampled_from([2, 3, 4.5, 8, 15, 30]))
    mu = draw(st.integers(int(8 * sd), int(8 * sd) + 3000))
    return {'n': n, 'h': draw(st.sampled_from([120, 200])), 'w': draw(st.sampled_from([120, 150])),
            'mu': mu, 'sd': sd, 'source': source, 'split': splits(draw, n, source),
            'kind': draw(st.sampled_from(['plain', 'electrons'])),
            'seed': draw(st.integers(0, 2**20)), 'gain': draw(st.sampled_from([None, None, 1.0, 0.5, 1.25])),
            'dark': draw(st.sampled_from([None, 'const'])), 'shift': draw(st.integers(0, int(2 * sd)))
            if sd else 0, 'bn': draw(st.sampled_from([4, 2, 6])), 'xn': draw(st.sampled_from([10, 20])),
            'samples': draw(st.integers(1, 3)), 'part': draw(st.sampled_from([.5, .25, 0, .75])),
            'below': draw(st.sampled_from([0, -2, 1, 2, -1]))}


def run_fit(case, ctx):
    h, w = case['h'], case['w']
    images = background(case['kind'], case['seed'], 1, h, w, case['mu'], case['sd'])
    images = np.repeat(images, case['n'], axis=0)
    blocks = blocks_of(case, images, ctx)
    g = case['gain']
    inv = None if g is None else np.full((h, w), 1 / g, np.float32)
    k = 1 if g is None else 1 / g
    n = case['samples']
    r = thresholds(case, blocks, None, inv, n, case['bn'], case['xn'])
    check(r is not None, 'no thresholds for a background of {} +- {}', case['mu'], case['sd'])
    derived(r)
    tol = 1.2 + 6 * k * case['sd'] / (h * w)**.5
    check(abs(r['center'] - k * case['mu']) <= tol, 'background peak at {} instead of {}',
          r['center'], k * case['mu'])
    width = k * (case['sd']**2 + 1 / 12)**.5
    check(abs(r['width'] - width) <= 0.6 + .06 * width, 'background width {} instead of {}',
          r['width'], width)
    if g in (1.0, 0.5):
        # So does one that makes values negative, and no integers
        part = case['part']
        far = int(case['mu'] + case['below'] * case['sd'])
        t = [thresholds(case, blocks, np.full((h, w), part + x), inv, n, case['bn'], case['xn'])
             for x in (0, far)]
        check(t[0] is not None and t[1] is not None, 'no thresholds with the dark references {} or {}',
              part, part + far)
        derived(t[1])
        for key, tt in (('mean', 1e-2), ('sd', 1e-2), ('min', 1e-2), ('center', .1 + .002 * width)):
            by = 0 if key == 'sd' else k * far
            check(abs(t[1][key] - (t[0][key] - by)) <= tt + 1e-5 * abs(t[0][key]),
                  'dark references of {} and {} give {} {} and {}', part, part + far, key, t[0][key], t[1][key])
    # A constant dark reference shifts everything
    c = min(int(images.min()), case['shift'] + int(case['mu'] / 3))
    if not c:
        return
    s = thresholds(case, blocks, np.full((h, w), c), inv, n, case['bn'], case['xn'])
    check(s is not None, 'no thresholds with the dark reference {}', c)
    derived(s)
    check(near(s['sd'], r['sd']), 'a constant dark changes the standard deviation {} to {}',
          r['sd'], s['sd'])
    ftol = 0.3 * (1 + max(case['bn'], 1)) if (k * c) % 1 else 0.05 * (1 + .02 * width)
    for key, t in (('mean', 1e-3), ('xray', 1e-3 * (1 + r['sd'])), ('min', 1e-3), ('max', 1.001 if g else 0),
                   ('center', ftol), ('bg', ftol * 3)):
        check(abs(s[key] - (r[key] - k * c)) <= t + 1e-6 * abs(r[key]),
              'a dark reference of {} changes {} from {} to {}', c, key, r[key], s[key])


@st.composite
def reader_cases(draw):
    backend = draw(st.sampled_from(['thread', 'multi-pass']))
    d = draw(rc.datasets(versions=(4, 5) if backend == 'thread' else (5,), max_frames=3, multi=True,
                         kinds=('count',), big=False))
    top = 25
    dark = draw(st.one_of(st.none(), st.integers(0, top).map(lambda v: ['const', v]),
                          st.tuples(st.integers(0, top), st.integers(1, 9), st.integers(0, 999)).map(
                              lambda t: ['int', t[0], t[0] + t[1], t[2]])))
    return {'data': d, 'backend': backend, 'threads': draw(st.sampled_from([1, 2, 4])),
            'blocks': draw(st.integers(1, 4)), 'samples': draw(st.integers(1, 3)),
            'bn': draw(st.sampled_from([4, 2.5, 0])), 'xn': draw(st.sampled_from([10, 3.5])),
            'dark': dark, 'gain': draw(rc.gain_specs())}


def run_reader(case, ctx):
    from stempy import io, image
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    full = [f for f in ds.frames if f[2] == 15]
    if not full:
        raise Reject()
    dark, gain = rc.make_dark(case['dark'], (576, 576)), rc.make_gain(case['gain'], (576, 576))
    reader = io.reader(ds.paths, version=d['v'], backend=case['backend'], threads=case['threads'])
    try:
        sa = image.electron_count(reader, dark, case['samples'], case['bn'], case['xn'],
                                  case['blocks'], gain=gain)
    except RuntimeError:
        raise Reject()
    m = sa.metadata['electron_counting']
    r = {'bg': m['background_threshold'], 'xray': m['x_ray_threshold'], 'n': m['number_of_samples'],
         'min': m['min_sample'], 'max': m['max_sample'], 'mean': m['mean'], 'variance': m['variance'],
         'sd': m['std_dev'], 'center': m['optimized_mean'], 'width': m['optimized_std_dev'],
         'xn': m['x_ray_threshold_n_sigma'], 'bn': m['background_threshold_n_sigma']}
    check(r['n'] == case['samples'] and r['bn'] == case['bn'] and r['xn'] == case['xn'],
          'the parameters are reported as {}', r)
    derived(r)
    v = [values(f[3], dark, rc.inverse(gain)) for f in full]
    tried = []
    for picks in itertools.combinations_with_replacement(range(len(v)), case['samples']):
        if len(set(picks)) > case['blocks']:
            continue
        s = stats(v, picks)
        if agrees(r, s, gain is None):
            return
        tried.append(s)
    check(False, '(min, max, mean, variance) of the samples are reported as {}, possible are {}',
          (r['min'], r['max'], r['mean'], r['variance']), tried[:5])


@st.composite
def refused_cases(draw):
    kind = draw(st.sampled_from(['no samples', 'no blocks', 'constant']))
    n = draw(st.integers(1, 3))
    h, w = draw(st.integers(2, 12)), draw(st.integers(2, 12))
    source = draw(st.sampled_from(['v1', 'py']))
    return {'kind': kind, 'n': n, 'h': h, 'w': w, 'source': source, 'split': splits(draw, n, source),
            'seed': draw(st.integers(0, 2**20)), 'samples': draw(st.sampled_from([0, -1, -4, -2**31])),
            'level': draw(st.sampled_from([0, 7, 65535])),
            'dark': draw(st.sampled_from([None, ['const', 5]])),
            'gain': draw(st.sampled_from([None, ['const', 0.5]]))}


def run_refused(case, ctx):
    """Thresholds that no sample supports are refused, they are not made up."""
    from stempy.image import _image
    kind, shape = case['kind'], (case['h'], case['w'])
    images = background('electrons', case['seed'], case['n'], *shape, 60, 5)
    if kind == 'constant':
        images[:] = case['level']
    blocks = [b._block for b in blocks_of(case, images, ctx)]
    if kind == 'no blocks':
        blocks = []
    dark, inv = rc.make_dark(case['dark'], shape), rc.inverse(rc.make_gain(case['gain'], shape))
    args = [blocks]
    if dark is not None:
        args.append(dark.astype(np.float32))
    args += [case['samples'] if kind == 'no samples' else 3, 4, 10]
    if inv is not None:
        args.append(inv.astype(np.float32))
    try:
        r = _image.calculate_thresholds(*args)
    except (RuntimeError, ValueError, MemoryError):
        return
    check(False, 'thresholds {} and {} from {}', r.background_threshold, r.xray_threshold, kind)


def classify(case):
    out = [case.get('source', case.get('backend'))]
    if case.get('dark'):
        out.append('dark ' + (case['dark'] if isinstance(case['dark'], str) else case['dark'][0]))
    if case.get('gain'):
        out.append('gain')
    if case.get('kind'):
        out.append(case['kind'])
    return out


SUBS = [
    Sub('statistics', stats_cases, run_stats, 'several images, a dark reference or a gain',
        nontrivial=lambda c: c['n'] > 1 or bool(c['dark'] or c['gain']), classify=classify,
        quick=2000, thorough=60000, shards=2),
    Sub('sampling', cover_cases, run_cover, 'several images', nontrivial=lambda c: c['n'] > 1,
        classify=classify, quick=400, thorough=8000, shards=1),
    Sub('fit', fit_cases, run_fit, 'every case', classify=classify, quick=800, thorough=30000, shards=3),
    Sub('refused', refused_cases, run_refused, 'every case', classify=lambda c: [c['kind'], c['source']],
        quick=300, thorough=6000, shards=1),
    Sub('readers', reader_cases, run_reader, 'several frames, a dark reference or a gain',
        nontrivial=lambda c: len(c['data']['frames']) > 1 or bool(c['dark'] or c['gain']),
        classify=classify, quick=240, thorough=6000, shards=3),
]
