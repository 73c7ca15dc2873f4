"""Generated raw data behind every kind of source the imaging functions take."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc

SMALL = ['v1', 'hdf5', 'hdf5 positions', 'hdf5 old', 'py', 'array', 'h5 reader']
BIG = ['v3', 'sector 4', 'sector 5']


def pixels(kind, seed, n, h, w):
    rng = np.random.default_rng([seed, 17])
    if kind == 'full':
        return rng.integers(0, 65536, (n, h, w), dtype=np.uint16)
    if kind == 'few':
        return rng.integers(0, 3, (n, h, w)).astype(np.uint16)
    if kind == 'top':
        return rng.choice([65535, 65534, 32768, 0], (n, h, w)).astype(np.uint16)
    if kind == 'same':
        return np.full((n, h, w), seed % 65536, np.uint16)
    if kind == 'single':
        f = np.zeros((n, h, w), np.uint16)
        for k in range(n):
            f[k, rng.integers(0, h), rng.integers(0, w)] = rng.integers(1, 65536)
        return f
    raise ValueError(kind)


@st.composite
def sources(draw, kinds=tuple(SMALL + SMALL + BIG), min_pixels=1):
    src = draw(st.sampled_from(list(kinds)))
    big = src in BIG
    if big:
        h = w = 576
    else:
        size = st.one_of(st.integers(1, 12), st.integers(1, 12), st.sampled_from([31, 64, 90]))
        h, w = draw(size), draw(size)
        if h * w < min_pixels:
            w = min_pixels
    W, H = draw(st.integers(1, 7)), draw(st.integers(1, 6))
    if not big and draw(st.sampled_from([0] * 7 + [1])):
        W, H = draw(st.sampled_from([[40, 3], [3, 40], [1, 70], [70, 1]]))
    if src == 'hdf5' or src == 'hdf5 old':
        n = W * H
    else:
        n = draw(st.sampled_from([W * H, draw(st.integers(1, W * H))]))
    if big:
        n = min(n, 5)
    if src in ('hdf5', 'hdf5 old', 'array'):
        positions = list(range(n))
    else:
        positions = list(draw(st.permutations(list(range(W * H)))))[:n] if draw(st.booleans()) \
            else list(range(n))
    c = {'source': src, 'h': h, 'w': w, 'W': W, 'H': H, 'positions': positions,
         'kind': draw(st.sampled_from(['full', 'full', 'few', 'top', 'same', 'single'])),
         'seed': draw(st.integers(0, 2**20)), 'block': draw(st.sampled_from([1, 2, 3, 5, 32, 100])),
         'dims': draw(st.booleans())}
    if src == 'v1':
        c['cuts'] = sorted(draw(st.lists(st.integers(0, n), max_size=2)))
    if src.startswith('sector'):
        c['masks'] = [draw(st.sampled_from([15, 15, 15, 5, 8, 14])) for _ in range(n)]
        c['order'] = draw(st.integers(0, 999))
    return c


@st.composite
def wide_sources(draw, kinds=tuple(SMALL + SMALL + BIG)):
    """Many frames, described by few numbers; see full()."""
    src = draw(st.sampled_from(list(kinds)))
    big = src in BIG
    h, w = (576, 576) if big else draw(st.sampled_from([[1, 1], [2, 3], [5, 4], [8, 8], [3, 20], [16, 2]]))
    W, H = draw(st.sampled_from([[17, 16], [16, 17], [300, 2], [2, 300], [1, 520], [64, 50], [50, 64],
                                 [33, 4], [260, 260]]))
    top = 45 if big else 5000
    n = min(W * H, draw(st.sampled_from([33, 65, 129, 257, 600, top])), top)
    if src in ('hdf5', 'hdf5 old'):
        # These hold every position
        W, H = draw(st.sampled_from([[17, 16], [300, 2], [2, 300], [1, 520], [64, 50], [33, 4]]))
        n = W * H
    return {'source': src, 'h': h, 'w': w, 'W': W, 'H': H,
            'positions': {'n': n, 'how': draw(st.sampled_from(['first', 'spread', 'shuffled']))
                          if src not in ('hdf5', 'hdf5 old', 'array') else 'first'},
            'kind': draw(st.sampled_from(['full', 'full', 'few', 'top', 'single'])),
            'seed': draw(st.integers(0, 2**20)), 'block': draw(st.sampled_from([1, 2, 7, 32, 100, 300])),
            'dims': draw(st.booleans())}


def full(c):
    """The case with the positions written out."""
    p = c['positions']
    if not isinstance(p, dict):
        return c
    rng = np.random.default_rng([c['seed'], 41])
    n = p['n']
    pos = np.arange(n)
    if p['how'] != 'first':
        pos = rng.choice(c['W'] * c['H'], n, replace=False)
        if p['how'] == 'spread':
            pos = np.sort(pos)
    c = {**c, 'positions': pos.tolist()}
    if c['source'] == 'v1':
        c['cuts'] = sorted(rng.integers(0, n + 1, int(rng.integers(0, 9))).tolist())
    if c['source'].startswith('sector'):
        c['masks'] = rng.choice([15, 15, 15, 15, 5, 8, 14], n).tolist()
        c['order'] = c['seed']
    return c


def wide(fn):
    """fn, given a case whose source may be described by few numbers."""
    return lambda case, *a: fn({**case, 'src': full(case['src'])}, *a)


def wide_labels(fn):
    def labels_of(case):
        n = case['src']['positions']['n']
        return wide(fn)(case) + ['frames>%d' % max(k for k in (32, 64, 128, 256, 599, 2999) if k < n)]
    return labels_of


class Source:
    """frames: what the images hold; make(): a new reader or other input;
    reader(): a new reader"""

    def __init__(self, c, tmp, frames=None):
        from stempy import io
        self.c = c
        n, h, w = len(c['positions']), c['h'], c['w']
        self.positions = c['positions']
        self.dims = (c['W'], c['H'])
        src = c['source']
        f = pixels(c['kind'], c['seed'], n, h, w) if frames is None else frames
        self.raw = f
        self.frames = f
        self.opened = []
        self.tmp = tmp
        # Whether the scan dimensions have to be passed
        self.needs_dims = src in ('v1', 'array')
        if src == 'v1':
            paths = []
            edges = [0] + c['cuts'] + [n]
            for k, (a, b) in enumerate(zip(edges, edges[1:])):
                p = os.path.join(tmp, f'images{k}.dat')
                with open(p, 'wb') as fh:
                    for x in range(a, b, c['block']):
                        y = min(b, x + c['block'])
                        fh.write(rc.v1_block(self.positions[x:y], h, w, f[x:y]))
                paths.append(p)
            self._make = lambda: io.reader(paths)
        elif src == 'v3':
            p = os.path.join(tmp, 'frames.dat')
            with open(p, 'wb') as fh:
                for k, g in zip(self.positions, f):
                    fh.write(rc.sector_header(3, 5, c['W'], c['H'], k % c['W'], k // c['W']))
                    fh.write(g.tobytes())
            self._make = lambda: io.reader(p, version=3)
        elif src.startswith('sector'):
            v = int(src[-1])
            rng = np.random.default_rng([c['order'], 23])
            paths = []
            for s in range(4):
                p = os.path.join(tmp, f'data_module{s}_1.data')
                with open(p, 'wb') as fh:
                    for i in rng.permutation(n):
                        if not c['masks'][i] >> s & 1:
                            continue
                        k = self.positions[i]
                        fh.write(rc.sector_header(3, int(i), c['W'], c['H'], k % c['W'], k // c['W']))
                        fh.write(np.ascontiguousarray(rc.sector_view(f[i], v, s)).tobytes())
                paths.append(p)
            self.frames = np.stack([rc.masked(g, v, m) for g, m in zip(f, c['masks'])])
            self._make = lambda: io.reader(paths, version=v)
        elif src in ('py', 'array'):
            if src == 'py':
                self._make = lambda: io.PyReader(f, self.positions, self.dims, c['block'], n)
            else:
                self._make = lambda: f
        else:
            import h5py
            p = os.path.join(tmp, 'raw.h5')
            if src == 'hdf5 old':
                with h5py.File(p, 'w') as fh:
                    fh.create_dataset('frames', data=f)
                    fh.create_dataset('stem/images', shape=(2, c['H'], c['W']), dtype=np.uint64)
            else:
                io.save_raw_data(p, f, scan_dimensions=self.dims,
                                 scan_positions=None if src == 'hdf5' else self.positions,
                                 zip_data=bool(c['seed'] % 2))

            def make():
                fh = h5py.File(p, 'r')
                self.opened.append(fh)
                return io.reader(fh) if src == 'h5 reader' else fh
            self._make = make

    def make(self):
        return self._make()

    def reader(self):
        """Something with read, begin, end and reset"""
        from stempy import io
        import h5py
        x = self._make()
        if isinstance(x, np.ndarray):
            return io.PyReader(x, self.positions, self.dims, self.c['block'], len(x))
        if isinstance(x, h5py.File):
            return io.reader(x)
        return x

    def close(self):
        for fh in self.opened:
            fh.close()


@st.composite
def centers(draw, w, h, far=2000):
    def one(n):
        return st.one_of(st.just(-1), st.just(-1), st.integers(0, max(n - 1, 0)),
                         st.sampled_from([-7, n, n + 3, far, 0, n // 2]))
    return [draw(one(w)), draw(one(h))]


def center_of(c, w, h):
    """Negative coordinates stand for the middle of the frame"""
    def half(n):
        return (n + 1) // 2
    return (c[0] if c[0] >= 0 else half(w), c[1] if c[1] >= 0 else half(h))


def distance2(w, h, center):
    cx, cy = center_of(center, w, h)
    y, x = np.mgrid[:h, :w].astype(np.int64)
    return (x - cx)**2 + (y - cy)**2


@st.composite
def radii(draw, w, h, n=3):
    r = st.one_of(st.integers(0, 8), st.integers(0, max(w, h)),
                  st.sampled_from([0, 1, max(w, h), 2 * (w + h), 5000, 46341, 100000, 2**31 - 1]))
    k = draw(st.integers(1, n))
    inner, outer = [], []
    for _ in range(k):
        a, b = draw(r), draw(r)
        if a > b and draw(st.sampled_from([1, 1, 1, 0])):
            a, b = b, a
        inner.append(a)
        outer.append(b)
    return inner, outer


def labels(c):
    out = [c['source'], 'square' if c['h'] == c['w'] else 'not square', c['kind']]
    if len(c['positions']) < c['W'] * c['H']:
        out.append('positions without data')
    if c['positions'] != sorted(c['positions']):
        out.append('out of order')
    if any(m != 15 for m in c.get('masks', [])):
        out.append('missing sectors')
    return out
