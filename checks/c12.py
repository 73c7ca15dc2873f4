"""C12: radial sums, averages, maxima and histograms account for every pixel."""
import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from vp.core import Sub, check

PROPERTY = 'C12'
KINDS = tuple(k for k in ic.SMALL + ic.SMALL + ic.BIG if k != 'array')


@st.composite
def other_dims(draw, c):
    W, H = c['W'], c['H']
    top = max(ic.full(c)['positions']) + 1
    return draw(st.sampled_from([None] * 4 + [[H, W], [W, H + 1], [1, W * H], [top, 1]]))


def dims_kw(case, s):
    if case['other'] or s.needs_dims or case['src']['dims']:
        return {'scan_dimensions': tuple(case['other'] or s.dims)}
    return {}


@st.composite
def radial_cases(draw, sources=ic.sources):
    c = draw(sources(KINDS))
    far = 120
    return {'src': c, 'center': draw(ic.centers(c['w'], c['h'], far)), 'other': draw(other_dims(c)),
            'again': draw(st.booleans())}


def run_radial(case, ctx):
    from stempy import image
    c = case['src']
    s = ic.Source(c, ctx.tmp)
    w, h = c['w'], c['h']
    W, H = case['other'] or s.dims
    d2 = ic.distance2(w, h, case['center'])
    ring = np.ceil(np.sqrt(d2.astype(np.float64))).astype(np.int64)
    # Exactly: the smallest r with r * r >= d2
    ring -= (ring > 0) & ((ring - 1)**2 >= d2)
    ring += ring**2 < d2
    n = int(ring.max()) + 1
    want = np.zeros((n, W * H))
    for k, f in zip(s.positions, s.frames):
        want[:, k] = np.bincount(ring.ravel(), weights=f.ravel(), minlength=n)
    want = want.astype(np.uint64).reshape(n, H, W)
    kw = dims_kw(case, s)
    if tuple(case['center']) != (-1, -1):
        kw['center'] = tuple(case['center'])
    reader = s.reader()
    for what in ('sums', 'sums after reset'):
        got = np.asarray(image.radial_sum(reader, **kw))
        check(got.ndim == 3 and got.shape[1:] == (H, W) and got.shape[0] >= n,
              '{}: shape {} instead of ({} or more, {}, {})', what, got.shape, n, H, W)
        check(not got[n:].any(), '{}: something in rings without pixels', what)
        g = got[:n]
        if not np.array_equal(g, want):
            i = tuple(np.argwhere(g != want)[0])
            check(False, '{}: ring {}, position {}: {} instead of {}', what, int(i[0]),
                  [int(x) for x in i[1:]], g[i], want[i])
        if not case['again']:
            break
        reader.reset()
    s.close()


@st.composite
def frame_cases(draw, sources=ic.sources):
    c = draw(sources(KINDS))
    return {'src': c, 'what': draw(st.sampled_from(['average', 'maximum', 'maximum'])),
            'dark': draw(st.sampled_from([None, 'average', 'float64', 'float32', 'int', 'uint16',
                                          'negative'])),
            'seed': draw(st.integers(0, 9999)), 'again': draw(st.booleans())}


def run_frame(case, ctx):
    from stempy import image
    c = case['src']
    s = ic.Source(c, ctx.tmp)
    h, w = c['h'], c['w']
    mean = s.frames.astype(np.float64).sum(axis=0) / len(s.frames)
    reader = s.reader()
    if case['what'] == 'average':
        for what in ('average', 'average after reset'):
            got = np.asarray(image.calculate_average(reader))
            same(got, mean, 1e-9 * (1 + mean), what)
            if not case['again']:
                break
            reader.reset()
        s.close()
        return
    rng = np.random.default_rng([case['seed'], 29])
    dark = ref = None
    if case['dark'] == 'average':
        dark = image.calculate_average(reader)
        ref = mean
        reader.reset()
    elif case['dark'] == 'float64':
        dark = ref = rng.uniform(0, 40, (h, w))
    elif case['dark'] == 'negative':
        dark = ref = rng.uniform(-40, 40, (h, w))
    elif case['dark'] == 'float32':
        dark = ref = rng.uniform(0, 70000, (h, w)).astype(np.float32)
    elif case['dark']:
        dark = ref = rng.integers(0, 65536, (h, w)).astype(np.int64 if case['dark'] == 'int'
                                                           else np.uint16)
    want = s.frames.max(axis=0).astype(np.float64)
    tol = np.zeros((h, w))
    if ref is not None:
        ref = np.asarray(ref).astype(np.float64)
        want = want - ref
        tol = 1e-6 * np.abs(ref) + 1e-9
    for what in ('maximum', 'maximum after reset'):
        got = np.asarray(image.maximum_diffraction_pattern(reader) if dark is None
                         else image.maximum_diffraction_pattern(reader, dark))
        same(got, want, tol, what)
        if not case['again']:
            break
        reader.reset()
    s.close()


def same(got, want, tol, what):
    check(got.shape == want.shape, '{}: shape {} instead of {}', what, got.shape, want.shape)
    bad = ~(np.abs(got - want) <= tol)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        check(False, '{}: {} of {} pixels are wrong, first {}: {} instead of {}', what,
              int(bad.sum()), want.size, [int(x) for x in i], got[i], want[i])


@st.composite
def histogram_cases(draw, sources=ic.sources):
    c = draw(sources(KINDS))
    inner, outer = draw(ic.radii(c['w'], c['h'], 2))
    return {'src': c, 'inner': inner, 'outer': outer, 'center': draw(ic.centers(c['w'], c['h'])),
            'other': draw(other_dims(c)),
            'bins': draw(st.one_of(st.integers(1, 12), st.sampled_from([7, 49, 100, 257])))}


def run_histogram(case, ctx):
    from stempy import image
    c = case['src']
    s = ic.Source(c, ctx.tmp)
    W, H = case['other'] or s.dims
    kw = dims_kw(case, s)
    if tuple(case['center']) != (-1, -1):
        kw['center'] = tuple(case['center'])
    d2 = ic.distance2(c['w'], c['h'], case['center'])
    bins, freq = image.create_stem_histogram(case['bins'], s.reader(), case['inner'], case['outer'], **kw)
    n = case['bins']
    check(len(bins) == len(freq) == len(case['inner']), '{} histograms', len(bins))
    for r0, r1, b, f in zip(case['inner'], case['outer'], bins, freq):
        b, f = np.asarray(b), np.asarray(f)
        m = (d2 >= r0 * r0) & (d2 < r1 * r1)
        v = np.zeros(W * H)
        for k, g in zip(s.positions, s.frames):
            v[k] = g[m].sum(dtype=np.uint64)
        check(len(b) == n + 1 and len(f) == n, '{} edges, {} bins instead of {}', len(b), len(f), n)
        want = np.linspace(v.min(), v.max(), n + 1)
        check(np.allclose(b, want, rtol=1e-9, atol=1e-6), 'edges {} instead of {}', b, want)
        check(f.sum() == W * H, '{} of {} positions are counted', f.sum(), W * H)
        if v.min() == v.max():
            continue
        # Values very close to an edge may lie on either side
        e = 1e-9 * (1 + np.abs(b))
        low = [np.sum((v >= b[j] + e[j]) & (v < b[j + 1] - e[j + 1])) for j in range(n)]
        high = [np.sum((v >= b[j] - e[j]) & (v < b[j + 1] + e[j + 1])) for j in range(n)]
        low[-1] = np.sum(v >= b[n - 1] + e[n - 1])
        high[-1] = np.sum(v >= b[n - 1] - e[n - 1])
        for j in range(n):
            check(low[j] <= f[j] <= high[j], 'bin {} [{}, {}) has {} positions instead of {}', j, b[j],
                  b[j + 1], f[j], low[j])
        # By the edges as they were returned, exactly
        k = np.clip(np.searchsorted(b, v, side='right') - 1, 0, n - 1)
        check(np.array_equal(np.bincount(k, minlength=n), f), 'frequencies {} instead of {}', f,
              np.bincount(k, minlength=n))
    s.close()


def nontrivial(case):
    return len(case['src']['positions']) > 1


def classify(case):
    out = ic.labels(case['src'])
    if case.get('other'):
        out.append('other scan dimensions')
    if 'what' in case:
        out.append(case['what'] + (f" with dark ({case['dark']})" if case['what'] == 'maximum' else ''))
    return out


SUBS = [
    Sub('radial sums', radial_cases, run_radial, 'several frames', nontrivial=nontrivial,
        classify=classify, quick=1200, thorough=24000, shards=4),
    Sub('frames', frame_cases, run_frame, 'several frames', nontrivial=nontrivial,
        classify=classify, quick=1500, thorough=30000, shards=4),
    Sub('histograms', histogram_cases, run_histogram, 'several frames', nontrivial=nontrivial,
        classify=classify, quick=1500, thorough=30000, shards=4),
    Sub('radial sums, many', lambda: radial_cases(ic.wide_sources), ic.wide(run_radial), 'several frames; up to 5000',
        nontrivial=ic.wide(nontrivial), classify=ic.wide_labels(classify), quick=100, thorough=3000, shards=4),
    Sub('frames, many', lambda: frame_cases(ic.wide_sources), ic.wide(run_frame), 'several frames; up to 5000',
        nontrivial=ic.wide(nontrivial), classify=ic.wide_labels(classify), quick=100, thorough=3000, shards=4),
    Sub('histograms, many', lambda: histogram_cases(ic.wide_sources), ic.wide(run_histogram), 'several frames; up to 5000',
        nontrivial=ic.wide(nontrivial), classify=ic.wide_labels(classify), quick=100, thorough=3000, shards=4),
]
