"""Generated raw data sets: files on disk, and what they hold (the oracle)."""
import functools
import os
import struct

import numpy as np
from hypothesis import strategies as st

from vp.core import Reject

FR = 576
SECTOR = 144


def frame(kind, seed):
    """The 576 x 576 frame of a seed."""
    rng = np.random.default_rng([seed, 7])
    if kind == 'random':
        return rng.integers(0, 65536, (FR, FR), dtype=np.uint16)
    if kind == 'small':
        return rng.integers(0, 4, (FR, FR), dtype=np.uint16)
    if kind == 'zero':
        return np.zeros((FR, FR), np.uint16)
    if kind == 'const':
        return np.full((FR, FR), 20 + seed % 10, np.uint16)
    if kind in ('count', 'sparse', 'dense'):
        # Background, electrons (with shared charge), and x-rays
        mean, sd = 20 + seed % 30, 2 + seed % 4
        f = rng.integers(mean - 2 * sd, mean + 2 * sd + 1, (FR, FR)).astype(np.int64)
        f += rng.integers(-sd, sd + 1, (FR, FR))
        n = {'count': 400, 'sparse': 20, 'dense': 6000}[kind]
        y, x = rng.integers(0, FR, n), rng.integers(0, FR, n)
        # Some at the borders and corners
        k = n // 8
        y[:k] = rng.choice([0, FR - 1], k)
        x[k:2 * k] = rng.choice([0, FR - 1], k)
        y[:2], x[:2] = rng.choice([0, FR - 1], 2), rng.choice([0, FR - 1], 2)
        # and at the borders of sectors
        y[2 * k:3 * k] = rng.choice([143, 144, 287, 288, 431, 432], k)
        x[3 * k:4 * k] = rng.choice([143, 144, 287, 288, 431, 432], k)
        e = rng.integers(3 * sd, 14 * sd, n)
        np.add.at(f, (y, x), e)
        for dy, dx in ((0, 1), (1, 0), (1, 1), (0, -1)):
            m = rng.random(n) < .4
            yy, xx = np.clip(y[m] + dy, 0, FR - 1), np.clip(x[m] + dx, 0, FR - 1)
            # Sometimes with equal values: plateaus have no strict maximum
            share = np.where(rng.random(m.sum()) < .3, e[m], e[m] // 2)
            f[yy, xx] = np.maximum(f[yy, xx], mean + share)
        nx = 3
        f[rng.integers(0, FR, nx), rng.integers(0, FR, nx)] = rng.integers(2000, 60000, nx)
        return np.clip(f, 0, 65535).astype(np.uint16)
    if kind == 'tiny':
        # Cheap, for very many frames
        f = np.zeros((FR, FR), np.uint16)
        f[rng.integers(0, FR, 80), rng.integers(0, FR, 80)] = rng.integers(1, 65536, 80)
        f[::SECTOR, ::SECTOR] = rng.integers(1, 65536, (4, 4))
        return f
    if kind == 'flat':
        f = _background(seed % 3, seed // 3 % FR).copy()
        f[rng.integers(0, FR, 60), rng.integers(0, FR, 60)] += rng.integers(30, 90, 60).astype(np.uint16)
        return f
    raise ValueError(kind)


DEFAULTS = {'darkreference': None, 'number_of_samples': 40, 'background_threshold_n_sigma': 4,
            'xray_threshold_n_sigma': 10, 'threshold_num_blocks': 1, 'verbose': False, 'gain': None,
            'apply_row_dark': False, 'apply_row_dark_use_mean': True}


def keywords(omit, **kw):
    """Arguments of electron_count; those left out have the documented defaults."""
    def default(k, v):
        return v is DEFAULTS[k] or not isinstance(v, np.ndarray) and v == DEFAULTS[k]
    return {k: v for k, v in kw.items() if not (omit and default(k, v))}


@functools.lru_cache(64)
def _background(k, shift):
    rng = np.random.default_rng([k, 5])
    f = rng.normal(40, 3, (FR, FR)).round().clip(0).astype(np.uint16)
    return np.roll(f, shift, axis=0)


@st.composite
def many(draw, versions=(4, 5), sizes=(20, 40, 70, 140, 270), per_position=(1,), kind='tiny', missing=True):
    """A data set of many frames, described by few numbers; see expand()."""
    return {'v': draw(st.sampled_from(versions)), 'n': draw(st.sampled_from(sizes)) + draw(st.integers(0, 3)),
            'seed': draw(st.integers(0, 2**20)), 'pp': draw(st.sampled_from(per_position)), 'kind': kind,
            'order': draw(st.sampled_from(['same', 'shuffled', 'reversed', 'late'])),
            'parts': draw(st.sampled_from([1, 1, 2, 5, 17])),
            'missing': draw(st.sampled_from([0, 0, .1])) if missing else 0,
            'step': draw(st.sampled_from([1, 1, 256, 65536])), 'interleaved': draw(st.booleans())}


def expand(m):
    """The case of Dataset for a case of many()."""
    rng = np.random.default_rng([m['seed'], 23])
    n = m['n']
    npos = -(-n // m['pp'])
    W = int(rng.integers(1, 2 * int(npos**.5) + 2))
    H = -(-npos // W) + int(rng.integers(0, 3))
    positions = rng.choice(W * H, npos, replace=False)
    at = np.repeat(positions, m['pp'])[:n]
    if m['interleaved']:
        at = rng.permutation(at)
    numbers = np.arange(n) * m['step'] + 7
    frames = []
    for k in range(n):
        mask = 15
        if m['missing'] and k and rng.random() < m['missing']:
            mask = int(rng.integers(0, 15))
        frames.append([int(at[k]), int(numbers[k]), m['seed'] + k, mask])
    files = []
    for s in range(4):
        have = [k for k in range(n) if frames[k][3] >> s & 1]
        if m['order'] == 'shuffled':
            have = [have[i] for i in rng.permutation(len(have))]
        elif m['order'] == 'reversed' and s % 2:
            have = have[::-1]
        elif m['order'] == 'late':
            # The sectors of the first frames come last
            a = len(have) * s // 4
            have = have[a:] + have[:a]
        step = -(-len(have) // m['parts']) or 1
        files += [[s, have[a:a + step]] for a in range(0, len(have), step)]
    files = [files[i] for i in rng.permutation(len(files))]
    return {'v': m['v'], 'W': W, 'H': H, 'scan_number': 3, 'kind': m['kind'], 'frames': frames, 'files': files}


def many_labels(m):
    out = [f"v{m['v']}", f"frames>={max(x for x in (20, 40, 70, 140, 270) if x <= m['n'])}", 'order ' + m['order'],
           f"{m['parts']} files per sector", f"up to {m['pp']} per position"]
    if m['missing']:
        out.append('missing sectors')
    return out


def sector_view(f, version, s):
    if version == 4:
        return f[:, s * SECTOR:(s + 1) * SECTOR]
    return f[s * SECTOR:(s + 1) * SECTOR, :]


def sector_header(scan_number, frame_number, W, H, x, y):
    return struct.pack('<IIHHHH', scan_number, frame_number, W, H, x, y)


def masked(f, version, sectors):
    out = np.zeros_like(f)
    for s in range(4):
        if sectors >> s & 1:
            sector_view(out, version, s)[:] = sector_view(f, version, s)
    return out


class Dataset:
    """case: {'v', 'W', 'H', 'scan_number', 'kind',
              'frames': [[position, frame number, seed, sector mask], ...],
              'files': [[sector, [frame index, ...]], ...]}"""

    def __init__(self, case, tmp, prefix='data'):
        self.case = case
        v = case['v']
        self.W, self.H = case['W'], case['H']
        self.frames = []
        for pos, number, seed, mask in case['frames']:
            f = frame(case['kind'], seed)
            self.frames.append((pos, number, mask, f))
        self.paths = []
        self.n_sectors = 0
        for i, (sector, items) in enumerate(case['files']):
            name = case.get('names', '{p}_module{s}_part{i}.data').format(p=prefix, s=sector, i=i)
            path = os.path.join(tmp, name)
            with open(path, 'wb') as fh:
                for k in items:
                    pos, number, mask, f = self.frames[k]
                    fh.write(sector_header(case['scan_number'], number, self.W, self.H,
                                           pos % self.W, pos // self.W))
                    fh.write(np.ascontiguousarray(sector_view(f, v, sector)).tobytes())
                    self.n_sectors += 1
            self.paths.append(path)

    def expected(self, k):
        pos, number, mask, f = self.frames[k]
        return masked(f, self.case['v'], mask)


@st.composite
def scan_dims(draw, big=True):
    if big == 'medium' and draw(st.sampled_from([0] * 7 + [1])):
        return draw(st.sampled_from([[300, 200], [257, 3], [1, 4000], [4000, 1], [256, 257]]))
    if big is True and draw(st.sampled_from([0] * 5 + [1])):
        return draw(st.sampled_from([[1000, 800], [4096, 4096], [65535, 1], [1, 65535],
                                     [700, 3], [256, 257], [4095, 300]]))
    return [draw(st.integers(1, 6)), draw(st.integers(1, 5))]


@st.composite
def datasets(draw, versions=(4, 5), max_frames=8, multi=False, missing=True, kinds=('random',),
             big=True, min_frames=1, shuffle=True, max_per_position=3):
    v = draw(st.sampled_from(versions))
    W, H = draw(scan_dims(big))
    npos = W * H
    edges = st.sampled_from([0, npos - 1, W - 1, npos - W, min(W, npos - 1)])
    pos_st = st.one_of(st.integers(0, npos - 1), edges)
    n = draw(st.integers(min_frames, max_frames))
    kind = draw(st.sampled_from(kinds))
    frames = []
    if multi:
        positions = draw(st.lists(pos_st, min_size=1, max_size=max(1, n), unique=True))
        todo = []
        for p in positions:
            todo += [p] * draw(st.integers(1, max_per_position))
        todo = todo[:max(n, 1)]
        while len(todo) < min_frames:
            todo.append(todo[-1])
    else:
        todo = draw(st.lists(pos_st, min_size=min(n, npos), max_size=min(n, npos), unique=True))
    base = draw(st.sampled_from([0, 1, 1000, 4294967200]))
    numbers = draw(st.permutations(list(range(len(todo))))) if draw(st.booleans()) \
        else list(range(len(todo)))
    # Frame numbers that agree in their low bits, too
    step = draw(st.sampled_from([1, 1, 3, 256, 65536, 2**24]))
    for p, k in zip(todo, numbers):
        mask = 15
        if missing and draw(st.sampled_from([0, 0, 0, 1])):
            mask = draw(st.integers(0, 15))
        frames.append([p, (base + k * step) % 2**32, draw(st.integers(0, 2**20)), mask])
    if not any(f[3] for f in frames):
        frames[0][3] = 15
    files = []
    same = draw(st.permutations(list(range(len(frames)))))
    for s in range(4):
        have = [k for k in same if frames[k][3] >> s & 1]
        if shuffle and len(have) > 1 and draw(st.booleans()):
            have = draw(st.permutations(have))
        nf = draw(st.integers(1, 2))
        cut = sorted(draw(st.lists(st.integers(0, len(have)), min_size=nf - 1, max_size=nf - 1)))
        for a, b in zip([0] + cut, cut + [len(have)]):
            if a == b and draw(st.integers(0, 2)):
                continue  # sometimes keep an empty file
            files.append([s, list(have[a:b])])
    if not files:
        files = [[0, []]]
    files = draw(st.permutations(files))
    return {'v': v, 'W': W, 'H': H, 'scan_number': draw(st.sampled_from([0, 1, 513, 2**32 - 1])),
            'kind': kind, 'frames': frames, 'files': list(files)}


def incomplete(case):
    return any(f[3] != 15 for f in case['frames'])


def labels(case):
    out = [f"v{case['v']}", f"frames={min(len(case['frames']), 9)}"]
    if incomplete(case):
        out.append('missing sectors')
    if any(not it for s, it in case['files']):
        out.append('empty file')
    if case['W'] * case['H'] > 60:
        out.append('large scan')
    if len(case['files']) > 4:
        out.append('split files')
    if len({f[0] for f in case['frames']}) < len(case['frames']):
        out.append('several frames per position')
    return out


# --- Version 1 files -------------------------------------------------------

def v1_block(numbers, h, w, data, version=1, timestamp=0):
    head = np.zeros(1024, np.uint32)
    head[:5] = len(numbers), h, w, version, timestamp
    head[10:10 + len(numbers)] = np.array(numbers, np.uint32) + 1
    return head.tobytes() + np.ascontiguousarray(data, np.uint16).tobytes()


def images(seed, n, h, w, hi=65536):
    return np.random.default_rng([seed, 3]).integers(0, hi, (n, h, w)).astype(np.uint16)


# --- Counting --------------------------------------------------------------
# The oracle computes an interval for the corrected value of each pixel (a
# single value almost everywhere), and from it the events which must be there
# and the ones which may be there.

def _mul32(lo, hi, g):
    """Interval product with the rounding of a 32 bit float multiplication."""
    a, b = lo * g, hi * g
    ea = np.where(np.float32(a) == a, 0, np.abs(a) * 3e-7)
    eb = np.where(np.float32(b) == b, 0, np.abs(b) * 3e-7)
    x = np.minimum(a - ea, b - eb)
    y = np.maximum(a + ea, b + eb)
    return x, y


def corrected(f, dark=None, inv_gain=None, row=None):
    """(lowest, highest) corrected value of each pixel.

    dark: 32 bit floats, not negative. inv_gain: 32 bit floats, the factors.
    row: None or (optimized mean, use mean)"""
    integral = inv_gain is None
    lo = hi = f.astype(np.float64)
    ratio = None
    if row is not None:
        h, w = f.shape
        k = w // 2
        center, use_mean = row
        rlo, rhi = np.empty(f.shape), np.empty(f.shape)
        bad = np.zeros(f.shape, bool)
        for a, b in ((0, k), (k, w)):
            if a == b:
                continue
            half = f[:, a:b].astype(np.float64)
            stat = half.mean(axis=1) if use_mean else np.median(half, axis=1)
            rel = 4e-7
            if use_mean and half.sum(axis=1).max() >= 2**24:
                rel = 2e-5
            with np.errstate(divide='ignore'):
                r = np.where(stat > 0, center / np.where(stat > 0, stat, 1), 0)
            bad[:, a:b] = (stat == 0)[:, None]
            e = rel * np.abs(r)
            rlo[:, a:b], rhi[:, a:b] = (r - e)[:, None], (r + e)[:, None]
        ratio = rlo, rhi, bad
    if dark is not None:
        d = dark.astype(np.float64)
        if integral:
            # Fractions of the dark reference are rounded one way or the other
            lo, hi = np.maximum(np.floor(lo - d), 0), np.maximum(np.ceil(hi - d), 0)
        else:
            e = np.where(np.float32(lo - d) == lo - d, 0, 2e-7 * (lo + np.abs(d)))
            lo, hi = lo - d - e, hi - d + e
    if ratio is not None:
        rlo, rhi, bad = ratio
        c = np.stack([lo * rlo, lo * rhi, hi * rlo, hi * rhi])
        blank = bad & (lo <= 0) & (hi >= 0) & (lo == hi)
        if integral:
            lo, hi = np.floor(c.min(axis=0)), np.floor(c.max(axis=0))
            if (hi > 65535).any() or (bad & ~blank).any():
                raise Reject()
        else:
            lo, hi = c.min(axis=0), c.max(axis=0)
            if inv_gain is not None:
                lo, hi = _mul32(lo, hi, inv_gain.astype(np.float64))
        # Rows without any signal: zero, and infinite otherwise
        lo, hi = np.where(bad, 0, lo), np.where(bad, 0, hi)
    elif inv_gain is not None:
        lo, hi = _mul32(lo, hi, inv_gain.astype(np.float64))
    return lo, hi


def _neighbours_max(v):
    """Largest value of the existing neighbours."""
    h, w = v.shape
    p = np.full((h + 2, w + 2), -np.inf)
    p[1:-1, 1:-1] = v
    m = np.full(v.shape, -np.inf)
    for dy in (-1, 0, 1):
        for dx in (-1, 0, 1):
            if dy or dx:
                np.maximum(m, p[1 + dy:1 + dy + h, 1 + dx:1 + dx + w], out=m)
    return m


def count(lo, hi, bg, xray):
    """(events which must be found, events which may be found), row-major."""
    sure = (lo > bg) & (hi < xray)
    poss = (hi > bg) & (lo < xray)
    tlo = np.where(sure, lo, 0)
    thi = np.where(poss, hi, 0)
    must = np.flatnonzero(sure & (tlo > _neighbours_max(thi)))
    if sure.sum() == poss.sum() and np.array_equal(tlo, thi):
        return must, must
    may = np.flatnonzero(poss & (thi > _neighbours_max(tlo)))
    return must, may


def fits(got, must, may):
    """Whether a list of events agrees with the oracle."""
    got = np.asarray(got).astype(np.int64)
    s = np.unique(got)
    if len(s) != len(got):
        return False
    if must is may:
        return np.array_equal(s, must)
    return bool(np.isin(must, s).all() and np.isin(s, may).all())


def explain(got, must, may):
    got = np.asarray(got).astype(np.int64)
    lost = np.setdiff1d(must, got)
    extra = np.setdiff1d(got, may)
    out = f'{len(got)} events, {len(must)} expected'
    if len(lost):
        out += f', {len(lost)} lost, such as {lost[:3].tolist()}'
    if len(extra):
        out += f', {len(extra)} too many, such as {extra[:3].tolist()}'
    if len(np.unique(got)) != len(got):
        out += ', events listed twice'
    return out


# Dark references and gains: ['const', value], ['noise', low, high, seed] ...

def make_dark(spec, shape):
    if spec is None:
        return None
    if spec[0] == 'const':
        return np.full(shape, spec[1], np.float64)
    rng = np.random.default_rng([spec[3], 11])
    if spec[0] == 'int':
        return rng.integers(spec[1], spec[2] + 1, shape).astype(np.float64)
    # The cast to 32 bits must not lose precision
    return rng.uniform(spec[1], spec[2], shape).astype(np.float32).astype(np.float64)


def make_gain(spec, shape):
    """The gain as it is passed (the counting divides by it)."""
    if spec is None:
        return None
    if spec[0] == 'const':
        return np.full(shape, spec[1], np.float32)
    rng = np.random.default_rng([spec[1], 13])
    if spec[0] == 'pow2':
        return rng.choice([0.5, 1.0, 1.0, 2.0], shape).astype(np.float32)
    return rng.uniform(0.7, 1.5, shape).astype(np.float32)


def inverse(gain):
    return None if gain is None else np.power(gain, -1).astype(np.float32)


def dark_specs(top):
    return st.one_of(
        st.none(), st.none(),
        st.integers(0, top).map(lambda v: ['const', v]),
        st.tuples(st.integers(0, top), st.integers(0, 12), st.integers(0, 999)).map(
            lambda t: ['int', t[0], t[0] + t[1], t[2]]),
        st.tuples(st.integers(0, top), st.integers(1, 12), st.integers(0, 999)).map(
            lambda t: ['real', t[0], t[0] + t[1], t[2]]))


def gain_specs():
    return st.one_of(
        st.none(), st.none(),
        st.sampled_from([1.0, 0.5, 2.0, 1.25, 0.8]).map(lambda v: ['const', v]),
        st.integers(0, 999).map(lambda s: ['pow2', s]),
        st.integers(0, 999).map(lambda s: ['real', s]))
