"""C10: STEM images of raw data are annular sums."""
import gc

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from vp.core import Sub, check

PROPERTY = 'C10'


@st.composite
def cases(draw, sources=ic.sources):
    c = draw(sources())
    inner, outer = draw(ic.radii(c['w'], c['h']))
    W, H = c['W'], c['H']
    top = max(ic.full(c)['positions']) + 1
    # Other scan dimensions than the ones of the file
    other = draw(st.sampled_from([None] * 5 + [[H, W], [W, H + 1], [W + 2, H], [1, W * H], [top, 1]]))
    return {'src': c, 'inner': inner, 'outer': outer,
            'center': draw(ic.centers(c['w'], c['h'])), 'other': other,
            'scalar': draw(st.booleans()), 'again': draw(st.sampled_from([0, 0, 1, 2])),
            'tuple': draw(st.booleans())}


def run(case, ctx):
    from stempy import image
    c = case['src']
    s = ic.Source(c, ctx.tmp)
    w, h = c['w'], c['h']
    W, H = case['other'] or s.dims
    kw = {}
    if case['other'] or s.needs_dims or c['dims']:
        kw['scan_dimensions'] = (W, H)
    if tuple(case['center']) != (-1, -1) or case['scalar']:
        kw['center'] = tuple(case['center'])
    inner, outer = case['inner'], case['outer']
    a, b = inner, outer
    if len(inner) == 1 and case['scalar']:
        a, b = inner[0], outer[0]
    elif case['tuple']:
        a, b = tuple(inner), tuple(outer)
    d2 = ic.distance2(w, h, case['center'])
    want = np.zeros((len(inner), H * W), np.uint64)
    for i, (r0, r1) in enumerate(zip(inner, outer)):
        m = (d2 >= r0 * r0) & (d2 < r1 * r1)
        for k, f in zip(s.positions, s.frames):
            want[i, k] = int(f[m].sum(dtype=np.uint64))
    want = want.reshape(len(inner), H, W)
    before = s.raw.copy()
    src = s.make()
    got = np.asarray(image.create_stem_images(src, a, b, **kw))
    compare(got, want, 'images')
    if case['again'] and hasattr(src, 'reset'):
        src.reset()
    if case['again'] == 1:
        # In another order, and split over two calls
        order = list(range(len(inner)))[::-1]
        for i in order:
            if hasattr(src, 'reset'):
                src.reset()
            g = np.asarray(image.create_stem_images(src, [inner[i]], [outer[i]], **kw))
            compare(g, want[i:i + 1], f'image {i} on its own')
    elif case['again'] == 2:
        g = np.asarray(image.create_stem_images(src, a, b, **kw))
        compare(g, want, 'images a second time')
    # The images live on without their source
    s.close()
    del src
    gc.collect()
    check(np.array_equal(got, want), 'images change when their source is deleted')
    check(np.array_equal(before, s.raw), 'the data was modified')


def compare(got, want, what):
    check(got.shape == want.shape, '{}: shape {} instead of {}', what, got.shape, want.shape)
    if not np.array_equal(got, want):
        i = tuple(np.argwhere(got != want)[0])
        check(False, '{}: {} of {} values are wrong, first at {}: {} instead of {}', what,
              int((got != want).sum()), want.size, [int(x) for x in i], got[i], want[i])


def nontrivial(case):
    c = case['src']
    return len(c['positions']) > 1 and any(a < b for a, b in zip(case['inner'], case['outer']))


def classify(case):
    c = case['src']
    out = ic.labels(c)
    x, y = case['center']
    out.append('default centre' if x < 0 and y < 0 else 'centre outside' if x >= c['w'] or y >= c['h']
               else 'centre')
    if any(r > 40000 for r in case['outer']):
        out.append('huge radius')
    if case['other']:
        out.append('other scan dimensions')
    if any(a >= b for a, b in zip(case['inner'], case['outer'])):
        out.append('empty annulus')
    return out


SUBS = [
    Sub('annuli', cases, run, 'several frames and an annulus that is not empty',
        nontrivial=nontrivial, classify=classify, quick=3000, thorough=60000, shards=6),
    Sub('many', lambda: cases(ic.wide_sources), ic.wide(run),
        'several frames and an annulus that is not empty; up to 5000 frames',
        nontrivial=ic.wide(nontrivial), classify=ic.wide_labels(classify), quick=200, thorough=6000, shards=6),
]
