"""C19: phase reconstruction inverts the gradient; bad-sector repair is local."""
import numpy as np
from hypothesis import strategies as st

from vp.core import Sub, check

PROPERTY = 'C19'
ANGLES = [0, 0, np.pi / 2, np.pi, -np.pi / 2, 0.3, -1.234, 2.5]


@st.composite
def phase_cases(draw, sizes=(1, 9)):
    ny, nx = draw(st.integers(*sizes)), draw(st.integers(*sizes))
    modes = draw(st.lists(st.tuples(
        st.integers(0, max(0, (ny - 1) // 2)), st.integers(-((nx - 1) // 2), (nx - 1) // 2),
        st.integers(-20, 20), st.integers(-20, 20)).map(list), max_size=6))
    theta = draw(st.one_of(st.sampled_from([float(x) for x in ANGLES]), st.floats(-7, 7)))
    return {'ny': ny, 'nx': nx, 'modes': modes, 'theta': theta, 'flip': draw(st.booleans()),
            'offset': [draw(st.integers(-50, 50)), draw(st.integers(-50, 50))],
            'dt': draw(st.sampled_from(['float64', 'float64', 'float32'])),
            'other': draw(st.lists(st.integers(-9, 9), min_size=2, max_size=8)),
            'a': draw(st.integers(-3, 3)), 'b': draw(st.integers(-3, 3))}


def field(case):
    """A band-limited image (no Nyquist terms) and its gradient along both axes."""
    ny, nx = case['ny'], case['nx']
    y, x = np.mgrid[0:ny, 0:nx]
    phi = np.zeros((ny, nx))
    gy = np.zeros((ny, nx))
    gx = np.zeros((ny, nx))
    for u, v, a, b in case['modes']:
        if u == 0 and v == 0:
            continue
        ku, kv = u / ny, v / nx
        arg = 2 * np.pi * (ku * y + kv * x)
        phi += a * np.cos(arg) + b * np.sin(arg)
        d = 2 * np.pi * (-a * np.sin(arg) + b * np.cos(arg))
        gy += ku * d
        gx += kv * d
    return phi, gy, gx


def rotate_back(gy, gx, theta, flip):
    """The measured field whose correction by theta (and flip) is (gy, gx)."""
    c, s = np.cos(theta), np.sin(theta)
    if flip:
        return gy * c + gx * s, gy * s - gx * c
    return gy * c + gx * s, -gy * s + gx * c


def run_phase(case, ctx):
    from stempy import image
    phi, gy, gx = field(case)
    theta, flip = case['theta'], case['flip']
    com = np.array(rotate_back(gy, gx, theta, flip)).astype(case['dt'])
    keep = com.copy()
    kw = {}
    if theta != 0 or case['a'] > 0:
        kw['theta'] = theta
    if flip or case['b'] > 0:
        kw['flip'] = flip
    got = image.phase_from_com(com, **kw)
    check(np.array_equal(com, keep), 'the field was modified')
    check(got.shape == phi.shape, 'shape {}', got.shape)
    check(not np.iscomplexobj(got), 'the phase is complex')
    scale = max(1.0, np.abs(phi).max())
    tol = (1e-3 if case['dt'] == 'float32' else 1e-6) * scale
    diff = (got - got.mean()) - (phi - phi.mean())
    check(np.abs(diff).max() <= tol, 'theta {} flip {}: off by {} of {}', theta, flip,
          np.abs(diff).max(), scale)
    # Offsets of the field (beam shift) have no effect.
    off = com + np.array(case['offset'], dtype=case['dt'])[:, None, None]
    g2 = image.phase_from_com(off, **kw)
    d2 = (g2 - g2.mean()) - (got - got.mean())
    check(np.abs(d2).max() <= max(tol, tol * np.abs(off).max()), 'a constant offset changes the '
          'phase by {}', np.abs(d2).max())
    # Linear in the field, gradient or not.
    o = np.resize(np.array(case['other'], dtype=float), com.shape)
    base = com.astype(np.float64)
    lhs = image.phase_from_com(case['a'] * base + case['b'] * o, **kw)
    rhs = case['a'] * image.phase_from_com(base, **kw) + case['b'] * image.phase_from_com(o, **kw)
    check(np.abs(lhs - rhs).max() <= 1e-6 * max(1, np.abs(lhs).max(), np.abs(rhs).max()),
          'not linear: off by {}', np.abs(lhs - rhs).max())


@st.composite
def bad_cases(draw):
    ny, nx = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    n = ny * nx
    good = st.integers(-20, 20)
    vals = draw(st.lists(good, min_size=2 * n, max_size=2 * n))
    kind = draw(st.sampled_from(['isolated', 'isolated', 'any', 'block']))
    bad = []
    if kind == 'block':
        i, j = draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1))
        h, w = draw(st.integers(1, 3)), draw(st.integers(1, 3))
        bad = [a * nx + b for a in range(i, min(ny, i + h)) for b in range(j, min(nx, j + w))]
    else:
        for k in draw(st.lists(st.integers(0, n - 1), max_size=6, unique=True)):
            if kind == 'any' or all(max(abs(k // nx - b // nx), abs(k % nx - b % nx)) > 1 for b in bad):
                bad.append(k)
        # corners and edges are the interesting positions
        if kind == 'isolated' and not bad:
            bad = [draw(st.sampled_from([0, nx - 1, n - nx, n - 1]))]
    how = [draw(st.integers(0, 1)) for _ in bad]
    return {'ny': ny, 'nx': nx, 'vals': vals, 'bad': bad, 'how': how,
            'cut': draw(st.sampled_from([[-20, 20], [-25.5, 20.5], [-30, 40]])),
            'nan': draw(st.booleans()) and kind == 'isolated', 'cutform': draw(st.booleans())}


def run_bad(case, ctx):
    from stempy import image
    ny, nx = case['ny'], case['nx']
    com = np.array(case['vals'], dtype=np.float64).reshape(2, ny, nx)
    badm = np.zeros((ny, nx), dtype=bool)
    for b, h in zip(case['bad'], case['how']):
        badm[b // nx, b % nx] = True
        com[1, b // nx, b % nx] = case['cut'][0] - 3 if h else case['cut'][1] + 1
        com[0, b // nx, b % nx] = 1000
    orig = com.copy()
    cut = tuple(case['cut']) if case['cutform'] else list(case['cut'])
    got = image.filter_bad_sectors(com, cut)
    check(got.shape == orig.shape, 'shape')
    for k in range(2):
        check(np.array_equal(got[k][~badm], orig[k][~badm]), 'a good position was changed: {}',
              got[k].tolist())
        for i, j in zip(*np.where(badm)):
            win = (slice(max(0, i - 1), i + 2), slice(max(0, j - 1), j + 2))
            g = orig[k][win][~badm[win]]
            clustered = badm[win].sum() > 1
            v = got[k, i, j]
            if not clustered:
                if len(g):
                    check(v == np.median(g), 'component {} at {}: {} instead of the median of {}',
                          k, (i, j), v, sorted(g.tolist()))
                else:
                    check(np.isnan(v), 'no good value around, but {}', v)
            elif len(g):
                # Neighbours repaired before may take part.
                lo = hi = None
                allg = orig[k][~badm]
                lo, hi = allg.min(), allg.max()
                check(lo <= v <= hi, 'component {} at {}: {} outside {}..{}', k, (i, j), v, lo, hi)
                # Only values nearby can have an influence: reachable through bad positions.
                seen = component(badm, i, j)
                near = [orig[k][a, b] for a in range(ny) for b in range(nx) if not badm[a, b] and
                        any(max(abs(a - p), abs(b - q)) <= 1 for p, q in seen)]
                check(min(near) <= v <= max(near), 'component {} at {}: {} is not local ({})',
                      k, (i, j), v, near)


def component(badm, i, j):
    seen, todo = {(i, j)}, [(i, j)]
    while todo:
        a, b = todo.pop()
        for p in range(a - 1, a + 2):
            for q in range(b - 1, b + 2):
                if (0 <= p < badm.shape[0] and 0 <= q < badm.shape[1] and badm[p, q]
                        and (p, q) not in seen):
                    seen.add((p, q))
                    todo.append((p, q))
    return seen


def bad_labels(c):
    out = []
    nx, ny = c['nx'], c['ny']
    for b in c['bad']:
        i, j = divmod(b, nx)
        e = (i in (0, ny - 1)) + (j in (0, nx - 1))
        out.append(['bad-inside', 'bad-edge', 'bad-corner'][e])
    out = sorted(set(out))
    m = np.zeros((ny, nx), dtype=bool)
    m.ravel()[c['bad']] = True
    if any(len(component(m, *divmod(b, nx))) > 1 for b in c['bad']):
        out.append('clustered')
    return out


def phase_labels(c):
    return ['flip' if c['flip'] else 'no-flip', 'theta0' if c['theta'] == 0 else 'theta',
            'square' if c['nx'] == c['ny'] else 'nonsquare',
            'parity%d%d' % (c['ny'] % 2, c['nx'] % 2)]


SUBS = [
    Sub('phase', phase_cases, run_phase,
        rule='a band-limited image, its Fourier gradient rotated back by theta and flipped; recovered '
             'up to a constant; plus offset invariance and linearity; non-trivial = a non-zero mode',
        nontrivial=lambda c: any((u or v) and (a or b) for u, v, a, b in c['modes']),
        classify=phase_labels, quick=8000, thorough=200000, shards=8),
    Sub('phase-large', lambda: phase_cases((16, 40)), run_phase, rule='as phase, larger scans',
        nontrivial=lambda c: any((u or v) and (a or b) for u, v, a, b in c['modes']),
        classify=phase_labels, quick=1500, thorough=20000, shards=4),
    Sub('bad-sectors', bad_cases, run_bad,
        rule='a field with out-of-range positions (isolated: exact median of the good 3x3 '
             'neighbours; clustered: within the range of the good values around the cluster); '
             'non-trivial = at least one bad position',
        nontrivial=lambda c: len(c['bad']) > 0, classify=bad_labels,
        quick=8000, thorough=200000, shards=8),
]
