"""C23: the HDF5 layer stores and returns exactly what it was given."""
import os
import subprocess

import numpy as np
from hypothesis import strategies as st

from vp import build as B
from vp.core import Sub, Violation, check

PROPERTY = 'C23'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TYPES = {'Int8': 'i1', 'Int16': '<i2', 'Int32': '<i4', 'Int64': '<i8', 'UInt8': 'u1', 'UInt16': '<u2',
         'UInt32': '<u4', 'UInt64': '<u8', 'Float': '<f4', 'Double': '<f8'}
# Types in files of others which have no name here
FOREIGN = ['>u2', '>i4', '>f8', '<f2', 'string', 'fixed string', 'compound', 'bool']


def prepare(scratch, builds):
    if 'harness' not in builds:
        lib = builds.get('asan') or B.build(scratch, 'asan', targets=('stem',))
        builds['harness'] = B.harness(
            scratch, lib, 'h5-asan', os.path.join(HERE, 'harness', 'h5.cpp'), 'asan',
            extra=('-L/usr/lib/x86_64-linux-gnu/hdf5/serial', '-lhdf5_serial'))
    return {'VP_HARNESS': builds['harness']}


def data(T, dims, seed):
    """Any bits, but for some seeds extreme or small values"""
    n = int(np.prod(dims, dtype=np.int64))
    dt = np.dtype(TYPES[T])
    rng = np.random.default_rng([seed, 23])
    if seed % 5 == 1:
        return rng.integers(0, 100, n).astype(dt).reshape(dims)
    if seed % 5 == 2 and dt.kind in 'iu':
        i = np.iinfo(dt)
        return rng.choice(np.array([i.min, i.max, 0, 1], dt), n).reshape(dims)
    return np.frombuffer(rng.bytes(n * dt.itemsize), dt).reshape(dims)


class Data:
    def __init__(self, T, array):
        self.T = T  # name of the type, or None for one of others
        self.array = array
        self.attrs = {}


class Group:
    def __init__(self):
        self.children = {}
        self.attrs = {}


class Soft:
    def __init__(self, target):
        self.target = target


def parts(path):
    return [p for p in path.split('/') if p not in ('', '.')]


class Model:
    """What the file holds, and the result of every operation."""

    def __init__(self):
        self.root = Group()
        self.mode = None

    def find(self, path, depth=0):
        if not path or self.mode is None or depth > 5:
            return None
        node = self.root
        names = parts(path)
        for i, name in enumerate(names):
            if not isinstance(node, Group) or name not in node.children:
                return None
            node = node.children[name]
            if isinstance(node, Soft):
                node = self.find(node.target, depth + 1)
        return node

    def group(self, path):
        n = self.find(path)
        return n if isinstance(n, Group) else None

    def dataset(self, path):
        n = self.find(path)
        return n if isinstance(n, Data) else None

    def place(self, path):
        """(parent group, name) of something new, or None"""
        names = parts(path)
        if self.mode != 'W' or not names:
            return None
        g = self.group('/' + '/'.join(names[:-1]))
        if g is None or names[-1] in g.children:
            return None
        return g, names[-1]

    def all(self, g, prefix=''):
        out = []
        for name, n in g.children.items():
            if isinstance(n, Data):
                out.append(prefix + name)
            elif isinstance(n, Group):
                out += self.all(n, prefix + name + '/')
        return out

    # ---- operations; return the expected result ----
    def do(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def op_open(self, mode):
        if mode == 'W':
            self.root = Group()
        self.mode = mode

    def op_close(self):
        self.mode = None

    def op_group(self, path):
        p = self.place(path)
        if p:
            p[0].children[p[1]] = Group()
        return bool(p)

    def op_write(self, mode, T, path, name, dims, seed):
        g = self.group(path)
        if self.mode != 'W' or g is None or not name or name in g.children:
            return False
        g.children[name] = Data(T, data(T, dims, seed).copy())
        return True

    def op_create(self, T, path, name, dims, chunk):
        g = self.group(path)
        if self.mode != 'W' or g is None or not name or name in g.children or T not in TYPES:
            return False
        if chunk and (len(chunk) != len(dims) or any(c > d for c, d in zip(chunk, dims))):
            return False
        g.children[name] = Data(T, np.zeros(dims, TYPES[T]))
        return True

    def op_update(self, T, path, dims, start, counts, seed):
        d = self.dataset(path)
        if self.mode != 'W' or d is None:
            return False
        start = start or [0] * len(dims)
        counts = counts or [a - b for a, b in zip(dims, start)]
        if any(c < 0 for c in counts):
            return False
        if all(counts) and any(s + c > n for s, c, n in zip(start, counts, dims)):
            return False
        if all(counts):
            d.array[tuple(slice(s, s + c) for s, c in zip(start, counts))] = data(T, counts, seed)
        return True

    def op_set(self, mode, T, path, name, value):
        n = self.find(path)
        if self.mode != 'W' or n is None or not name or name in n.attrs:
            return False
        n.attrs[name] = (T, value)
        return True

    def op_read(self, mode, T, path, strides=None, start=None, counts=None):
        d = self.dataset(path)
        if d is None:
            return None
        a = d.array
        if mode == 'nd' and d.T != T:
            return ('dims', a.shape)
        if d.T != T or mode == 'one' and a.ndim != 1:
            return None
        if mode != 'type' or not (strides or start or counts):
            return a
        strides = strides or [1] * a.ndim
        start = start or [0] * a.ndim
        if not counts:
            if any(s > n for s, n in zip(start, a.shape)):
                return None
            counts = [(n - s) // t for n, s, t in zip(a.shape, start, strides)]
        if all(counts) and any(s + (c - 1) * t >= n
                               for s, c, t, n in zip(start, counts, strides, a.shape)):
            return None
        return a[tuple(slice(s, s + (c - 1) * t + 1 if c else s, t)
                       for s, c, t in zip(start, counts, strides))]

    def attr(self, path, name):
        n = self.find(path)
        return n.attrs.get(name) if n else None

    def op_get(self, T, path, name):
        return self.attr(path, name)

    def op_attrtype(self, path, name):
        a = self.attr(path, name)
        return a[0] or 'None' if a else 'None'

    def op_hasattr(self, path, name):
        return self.attr(path, name) is not None

    def op_hasattrs(self, path):
        n = self.find(path)
        return bool(n and n.attrs)

    def op_isdataset(self, path):
        return self.dataset(path) is not None

    def op_isgroup(self, path):
        return self.group(path) is not None

    def op_datatype(self, path):
        d = self.dataset(path)
        return d.T or 'None' if d else 'None'

    def op_ndims(self, path):
        d = self.dataset(path)
        return d.array.ndim or -1 if d else -1

    def op_dims(self, path):
        d = self.dataset(path)
        return list(d.array.shape) if d else []

    def op_children(self, path):
        g = self.group(path)
        return None if g is None else sorted(g.children)

    def op_datasets(self, path):
        if path in ('', '/'):
            return sorted(self.all(self.root)) if self.mode else []
        g = self.group(path)
        return sorted(self.all(g)) if g else []


# ---------------------------------------------------------------- generation
NAMES = ['a', 'b', 'frames', 'x y', 'a.b', '.hidden', '..x', '\u00e9', 'Images', '0']
NAME = st.sampled_from(NAMES * 4 + ['n' * 300, 'm' * 2047, 'm' * 2100, 'm' * 5000])
ANAMES = ['units', 'names', 'a', 'x y', 'v' * 100]
TEXT = st.one_of(st.sampled_from(['', 'x', 'nm', ' ', '\u00b5m', 'a\nb', 'z' * 3000]), st.text(
    st.characters(min_codepoint=1, max_codepoint=0x2ff), max_size=12))


def every(model):
    """Paths of (groups, data sets), all forms of what is there"""
    groups, sets = ['/'], []

    def walk(g, prefix):
        for name, n in g.children.items():
            p = prefix + '/' + name
            if isinstance(n, Group):
                groups.append(p)
                walk(n, p)
            elif isinstance(n, Data):
                sets.append(p)
            else:
                (sets if isinstance(model.find(p), Data) else groups).append(p)
    walk(model.root, '')
    return groups, sets


def form(draw, path):
    k = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))
    if k == 1 and len(path) > 1:
        return path[1:]
    if k == 2:
        return path + '/'
    if k == 3:
        return '/' + path.replace('/', '//')
    return path


def some_path(draw, model, prefer):
    groups, sets = every(model)
    k = draw(st.sampled_from([prefer] * 6 + ['group', 'data', 'none']))
    if k == 'group' or k == 'any' and draw(st.booleans()):
        return form(draw, draw(st.sampled_from(groups)))
    if k != 'none' and sets:
        return form(draw, draw(st.sampled_from(sets)))
    return draw(st.sampled_from(['', '/none', '/a/none', 'zz/y', '/frames/q']))


DIMS = st.one_of(st.lists(st.integers(1, 6), min_size=1, max_size=4),
                 st.sampled_from([[1], [0], [3, 0], [300], [70000], [40, 50], [2, 3, 4, 5, 2]]))
TYPE = st.sampled_from(list(TYPES))
SEED = st.integers(0, 2**20)


def attr_value(draw, T):
    if T == 'String':
        return draw(TEXT)
    if draw(st.sampled_from([0, 0, 1])):
        return [draw(SEED), draw(st.sampled_from([2, 3, 17]))]
    return [draw(SEED), 1]


def write_op(draw, m):
    k = draw(st.sampled_from(['group', 'group', 'write', 'write', 'write', 'create', 'create', 'update',
                              'update', 'update', 'update', 'set', 'set', 'set']))
    if k == 'group':
        return ['group', (some_path(draw, m, 'group').rstrip('/') + '/' + draw(NAME))]
    if k == 'write':
        return ['write', draw(st.sampled_from(['pointer', 'vector', 'type'])), draw(TYPE),
                some_path(draw, m, 'group'), draw(NAME), draw(DIMS), draw(SEED)]
    if k == 'create':
        dims = draw(DIMS)
        chunk = []
        if draw(st.booleans()) and all(dims):
            chunk = [draw(st.integers(1, d + draw(st.sampled_from([0] * 9 + [1])))) for d in dims]
            if draw(st.sampled_from([0] * 9 + [1])):
                chunk = chunk[:-1] or chunk * 2
        return ['create', draw(st.sampled_from(list(TYPES) * 2 + ['String'])),
                some_path(draw, m, 'group'), draw(NAME), dims, chunk]
    if k == 'update':
        path = some_path(draw, m, 'data')
        d = m.dataset(path)
        if d is None:
            return ['update', draw(TYPE), path, [2, 3], None, None, draw(SEED)]
        dims = list(d.array.shape)
        start = counts = None
        if draw(st.sampled_from([1, 1, 1, 0])):
            start = [draw(st.integers(0, n)) for n in dims]
        if draw(st.sampled_from([1, 1, 1, 0])):
            over = draw(st.sampled_from([0] * 6 + [1]))
            counts = [draw(st.integers(min(1, n - s), n - s + over))
                      for s, n in zip(start or [0] * len(dims), dims)]
        T, seed = d.T, draw(SEED)
        if draw(st.sampled_from([0, 0, 0, 1])):
            # Another type: values which all types have
            T, seed = draw(TYPE), seed // 5 * 5 + 1
        return ['update', T, path, dims, start, counts, seed]
    T = draw(st.sampled_from(list(TYPES) + ['String'] * 4))
    mode = draw(st.sampled_from(['scalar', 'vector']))
    v = attr_value(draw, T)
    if T != 'String' and v[1] > 1:
        mode = 'vector'
    return ['set', mode, T, some_path(draw, m, 'any'), draw(st.sampled_from(ANAMES)), v]


def read_op(draw, m):
    k = draw(st.sampled_from(['read'] * 6 + ['get'] * 3 + ['attrtype', 'hasattr', 'hasattrs', 'isdataset',
                             'isgroup', 'datatype', 'ndims', 'dims', 'children', 'children', 'datasets',
                             'datasets']))
    if k == 'read':
        path = some_path(draw, m, 'data')
        d = m.dataset(path)
        T = d.T if d and d.T and draw(st.sampled_from([1] * 6 + [0])) else draw(TYPE)
        mode = draw(st.sampled_from(['one', 'nd', 'pointer', 'type', 'type', 'type']))
        op = ['read', mode, T, path]
        if mode == 'type' and d is not None and d.array.ndim:
            dims = d.array.shape
            strides = [draw(st.integers(1, max(1, min(n, 5)))) for n in dims] \
                if draw(st.booleans()) else None
            over = draw(st.sampled_from([0] * 6 + [1]))
            start = [draw(st.integers(0, max(0, n - 1) + over)) for n in dims] \
                if draw(st.booleans()) else None
            counts = None
            if draw(st.booleans()):
                counts = []
                for n, s, t in zip(dims, start or [0] * len(dims), strides or [1] * len(dims)):
                    most = max(0, -(-(n - s) // t))
                    counts.append(draw(st.integers(min(1, most), most + over)))
            op += [strides, start, counts]
        return op
    if k in ('get', 'attrtype', 'hasattr'):
        path = some_path(draw, m, 'any')
        n = m.find(path)
        if n is not None and n.attrs and draw(st.sampled_from([1] * 6 + [0])):
            name = draw(st.sampled_from(list(n.attrs)))
        else:
            name = draw(st.sampled_from(ANAMES))
        if k == 'get':
            a = m.attr(path, name)
            T = a[0] if a and a[0] and draw(st.sampled_from([1] * 6 + [0])) \
                else draw(st.sampled_from(list(TYPES) + ['String']))
            return [k, T, path, name]
        return [k, path, name]
    if k == 'datasets' and draw(st.booleans()):
        return [k, '']
    return [k, some_path(draw, m, {'isdataset': 'data', 'datatype': 'data', 'ndims': 'data', 'dims': 'data',
                                   'children': 'group', 'datasets': 'group'}.get(k, 'any'))]


@st.composite
def history_cases(draw):
    m = Model()
    ops = []

    def add(op):
        ops.append(op)
        m.do(op)
    add(['open', 'W'])
    for _ in range(draw(st.integers(1, 25))):
        k = draw(st.sampled_from(['w'] * 6 + ['r'] * 3 + ['end'] * (len(ops) > 6)))
        if k == 'end' and draw(st.sampled_from([0, 0, 1])):
            add(draw(st.sampled_from([['open', 'R'], ['open', 'R'], ['close'], ['open', 'W']])))
        elif k == 'w':
            add(write_op(draw, m))
        else:
            add(read_op(draw, m))
    for _ in range(draw(st.integers(0, 6))):
        if m.mode != 'R':
            add(['open', 'R'])
        add(read_op(draw, m))
    return {'ops': ops}


@st.composite
def foreign_cases(draw):
    """A file of another program"""
    m = Model()
    m.mode = 'W'
    build = []
    for _ in range(draw(st.integers(1, 10))):
        groups, sets = every(m)
        g = draw(st.sampled_from(groups))
        k = draw(st.sampled_from(['group', 'data', 'data', 'data', 'soft', 'attr', 'attr', 'attr']))
        if k == 'group':
            op = ['group', g.rstrip('/') + '/' + draw(NAME)]
        elif k == 'data':
            T = draw(st.sampled_from(list(TYPES) + FOREIGN))
            dims = draw(st.one_of(DIMS, st.just([])))
            op = ['data', g, draw(NAME), T, dims, draw(SEED), draw(st.booleans())]
        elif k == 'soft':
            op = ['soft', g, draw(NAME), draw(st.sampled_from(groups + sets + ['/none']))]
        else:
            T = draw(st.sampled_from(list(TYPES) + ['String'] * 3 + ['fixed string', 'strings', '>i4', 'bool',
                                     'unwritten']))
            v = attr_value(draw, 'String' if T == 'fixed string' else T)
            if T == 'unwritten':
                v = ''
            op = ['attr', draw(st.sampled_from(groups + sets)), draw(st.sampled_from(ANAMES)), T, v]
        if foreign(m, op):
            build.append(op)
    m.mode = 'R'
    ops = [['open', 'R']]
    for _ in range(draw(st.integers(1, 20))):
        ops.append(read_op(draw, m))
    return {'build': build, 'ops': ops}


def foreign(m, op, f=None):
    """Adds something to the model, and the file; False if it cannot be"""
    if op[0] == 'group':
        if not m.op_group(op[1]):
            return False
        if f is not None:
            f.create_group(op[1])
    elif op[0] in ('data', 'soft'):
        g = m.group(op[1])
        if g is None or op[2] in g.children:
            return False
        if op[0] == 'soft':
            g.children[op[2]] = Soft(op[3])
            if f is not None:
                import h5py
                f[op[1]][op[2]] = h5py.SoftLink(op[3])
            return True
        _, _, name, T, dims, seed, chunked = op
        if T in TYPES:
            a = data(T, dims, seed)
        else:
            a = np.zeros(dims, T if T[0] in '<>' else
                         {'string': object, 'fixed string': 'S5', 'bool': bool,
                          'compound': [('a', '<u2'), ('b', '<f8')]}[T])
        g.children[name] = Data(T if T in TYPES else None, a)
        if f is not None:
            import h5py
            kw = {'chunks': True} if chunked and dims and all(dims) else {}
            if T == 'string':
                f[op[1]].create_dataset(name, shape=tuple(dims), dtype=h5py.string_dtype(), **kw)
            else:
                f[op[1]].create_dataset(name, data=a, **kw)
    else:
        _, path, name, T, v = op
        n = m.find(path)
        if n is None or name in n.attrs:
            return False
        if T == 'unwritten':
            # Created, but never given a value
            n.attrs[name] = ('String', '')
            if f is not None:
                import h5py
                h5py.h5a.create(f[path].id, name.encode(), h5py.h5t.py_create(h5py.string_dtype(), logical=True),
                                h5py.h5s.create_simple((1,)))
        elif T in ('String', 'fixed string'):
            if T == 'fixed string':
                v = v[:40] or 'y'
            n.attrs[name] = ('String', v)
            if f is not None:
                if T == 'String':
                    f[path].attrs[name] = v
                else:
                    f[path].attrs[name] = np.bytes_(v.encode())
        elif T == 'strings':
            n.attrs[name] = ('String', None)
            if f is not None:
                f[path].attrs[name] = ['ab', 'cde']
        else:
            n.attrs[name] = (T if T in TYPES else None, v)
            if f is not None:
                a = data(T, [v[1]], v[0]) if T in TYPES else np.ones(v[1], bool if T == 'bool' else T)
                f[path].attrs[name] = a[0] if v[1] == 1 and v[0] % 2 and T in TYPES else a
    return True


# ------------------------------------------------------------------- running
def hx(s):
    b = s.encode() if isinstance(s, str) else bytes(s)
    return b.hex() or '.'


def nums(v):
    v = v or []
    return ' '.join([str(len(v))] + [str(x) for x in v])


def line(op, path, m):
    k = op[0]
    if k == 'open':
        return f'open {op[1]} {hx(path)}'
    if k in ('close', 'destroy'):
        return k
    if k == 'group':
        return f'group {hx(op[1])}'
    if k == 'write':
        _, mode, T, p, name, dims, seed = op
        return f'write {mode} {T} {hx(p)} {hx(name)} {nums(dims)} {hx(data(T, dims, seed).tobytes())}'
    if k == 'create':
        _, T, p, name, dims, chunk = op
        return f'create {T} {hx(p)} {hx(name)} {nums(dims)} {nums(chunk)}'
    if k == 'update':
        _, T, p, dims, start, counts, seed = op
        c = counts or [max(0, a - b) for a, b in zip(dims, start or [0] * len(dims))]
        return (f'update {T} {hx(p)} {nums(dims)} {nums(start)} {nums(counts)} '
                f'{hx(data(T, c, seed).tobytes())}')
    if k == 'set':
        _, mode, T, p, name, v = op
        b = v if T == 'String' else data(T, [v[1]], v[0]).tobytes()
        return f'set {mode} {T} {hx(p)} {hx(name)} {hx(b)}'
    if k == 'read':
        mode, T, p = op[1:4]
        d = m.dataset(p)
        n = d.array.size if d is not None else 4
        if mode == 'type':
            strides, start, counts = op[4:] if len(op) > 4 else (None, None, None)
            if counts:
                n = int(np.prod(counts, dtype=np.int64))
            elif strides or start:
                n = int(np.prod([max(0, a - b) // t for a, b, t in zip(
                    d.array.shape, start or [0] * d.array.ndim, strides or [1] * d.array.ndim)],
                    dtype=np.int64))
            return f'read type {T} {hx(p)} {n} {nums(strides)} {nums(start)} {nums(counts)}'
        return f'read {mode} {T} {hx(p)}' + (f' {n}' if mode == 'pointer' else '')
    if k == 'get':
        _, T, p, name = op
        return f'get - {T} {hx(p)} {hx(name)}' + (' 0' if T != 'String' else '')
    return ' '.join([k] + [hx(x) for x in op[1:]])


def judge(op, want, m, got, what):
    try:
        judge_all(op, want, m, got, what)
    except Violation as e:
        raise Violation(str(e)[:1500]) from None


def judge_all(op, want, m, got, what):
    k = op[0]
    w = got.split(' ')
    if k in ('open', 'close'):
        return
    if k in ('group', 'write', 'create', 'update', 'set', 'hasattr', 'hasattrs', 'isdataset', 'isgroup'):
        check(got == str(int(want)), '{}: {} instead of {}', what, got, int(want))
    elif k == 'read':
        mode = op[1]
        if mode == 'nd':
            if isinstance(want, tuple):
                check(w[-1] == '.', '{}: data of another type', what)
                return
            dims = [] if want is None or not want.ndim else list(want.shape)
            check([int(x) for x in w[:-1]] == [len(dims)] + dims, '{}: dimensions {} instead of {}',
                  what, w[1:-1], dims)
        elif mode != 'one':
            check(w[0] == str(int(want is not None)), '{}: {} instead of {}', what, w[0],
                  int(want is not None))
        b = b'' if want is None or mode == 'nd' and not want.ndim else \
            np.ascontiguousarray(want).tobytes()
        check(w[-1] == hx(b), '{}: wrong data', what)
    elif k == 'get':
        T = op[1]
        if want is None or want[0] != T:
            check(w[0] == '0', '{}: there is no such attribute, but it is read', what)
            return
        if T == 'String' and want[1] is None:
            # Several strings: memory safety only
            return
        if T != 'String' and want[1][1] != 1:
            b = data(T, [want[1][1]], want[1][0])[:1].tobytes()
            check(w[0] == '0' or w[1] == hx(b), '{}: wrong value', what)
            return
        b = want[1] if T == 'String' else data(T, [1], want[1][0]).tobytes()
        check(w == ['1', hx(b)], '{}: {} instead of {}', what, w, hx(b))
    elif k in ('attrtype', 'datatype'):
        check(got == want, '{}: {} instead of {}', what, got, want)
    elif k == 'ndims':
        check(int(got) == want or want < 0 and int(got) < 0, '{}: {} instead of {}', what, got, want)
    elif k == 'dims':
        check([int(x) for x in w] == [len(want)] + want, '{}: {} instead of {}', what, w[1:], want)
    elif k == 'children':
        if want is None:
            check(w == ['0'], '{}: a failure is not reported: {}', what, got)
        else:
            check(w[0] == '1' and sorted(w[1:]) == sorted(hx(x) for x in want), '{}: {} instead of {}',
                  what, w, want)
    elif k == 'datasets':
        check(w[0] == str(len(want)) and sorted(w[1:]) == sorted(hx(x) for x in want),
              '{}: {} instead of {}', what, w, want)


def harness(lines, timeout=100):
    p = subprocess.run([os.environ['VP_HARNESS']], input='\n'.join(lines) + '\n', capture_output=True,
                       text=True, errors='replace', timeout=timeout,
                       env={'PATH': '/usr/bin:/bin', 'HDF5_USE_FILE_LOCKING': 'FALSE',
                            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0'})
    if p.returncode:
        e = p.stderr
        i = e.find('ERROR: AddressSanitizer')
        j = e.find('runtime error')
        i = max(i, 0) if i >= 0 else max(j - 100, len(e) - 1500)
        raise Violation(f'the process ended with {p.returncode}: {e[max(0, i):i + 1500]}')
    out = p.stdout.split('\n')
    check(out[-2:] == ['END', ''], 'the process did not end properly: {}', out[-3:])
    return out[:-2]


def short(op):
    s = str(op)
    return s if len(s) < 200 else s[:200] + '...'


def run(case, ctx):
    import h5py
    path = os.path.join(ctx.tmp, 'f.h5')
    m = Model()
    if 'build' in case:
        with h5py.File(path, 'w') as f:
            m.mode = 'W'
            for op in case['build']:
                foreign(m, op, f)
        m.mode = None
    ops = case['ops'] + [['destroy']]
    lines, want, written, replaced = [], [], False, False
    for op in ops:
        if op[0] == 'open' and m.mode is not None:
            lines.append('close')
            want.append(None)
        lines.append(line(op, path, m))
        if op[0] == 'destroy':
            want.append(None)
        else:
            r = m.do(op)
            want.append(r.copy() if isinstance(r, np.ndarray) else r)
    got = harness(lines)
    check(len(got) == len(want), '{} results of {} operations', len(got), len(want))
    i = 0
    for op in ops:
        while lines[i] == 'close' and op[0] != 'close':
            i += 1
        what = f'operation {i} {short(op)}'
        if op[0] == 'destroy':
            check(got[i][:1] == '1', 'identifiers stay open: {}', got[i])
        else:
            judge(op, want[i], m, got[i], what)
        i += 1
    if 'build' in case:
        return
    with h5py.File(path, 'r') as f:
        compare(f, m.root, '/')


def compare(h, n, path):
    check(set(h.attrs) == set(n.attrs), '{}: attributes {} instead of {}', path, list(h.attrs), list(n.attrs))
    for name, (T, v) in n.attrs.items():
        # Any bits of a float, and any text
        if T == 'String':
            x = h.attrs[name]
            x = np.asarray(x, object).reshape(-1)
            check(len(x) == 1, '{}@{}: {} strings', path, name, len(x))
            x = x[0].encode('utf-8', 'surrogateescape') if isinstance(x[0], str) else bytes(x[0])
            check(x == v.encode(), '{}@{}: {}', path, name, x)
        else:
            x = np.asarray(h.attrs[name])
            check(x.dtype == np.dtype(TYPES[T]) and x.tobytes() == data(T, [v[1]], v[0]).tobytes(),
                  '{}@{}: {}', path, name, x)
    if isinstance(n, Data):
        check(h.shape == n.array.shape and h.dtype == n.array.dtype, '{}: shape {} type {}', path, h.shape,
              h.dtype)
        check(h[()].tobytes() == n.array.tobytes(), '{}: other data in the file', path)
        return
    check(set(h) == set(n.children), '{}: children {} instead of {}', path, list(h), list(n.children))
    for name, c in n.children.items():
        import h5py
        check(isinstance(h[name], h5py.Group) == isinstance(c, Group), '{}: another kind', path + name)
        compare(h[name], c, path + name + '/')


# Data sets of more elements than an int counts
@st.composite
def large_cases(draw):
    return {'dims': draw(st.sampled_from([[65536, 65536], [65536, 32769], [2, 2**30 + 3], [65536, 65536 + 1],
                                          [2**31 + 7], [3, 2**32 + 2], [2**32]])),
            'at': draw(st.integers(0, 2**40)), 'value': draw(st.integers(1, 255))}


def run_large(case, ctx):
    import h5py
    path = os.path.join(ctx.tmp, 'f.h5')
    dims = case['dims']
    size = int(np.prod(dims, dtype=np.int64))
    at = np.unravel_index(case['at'] % size, dims)
    with h5py.File(path, 'w') as f:
        d = f.create_dataset('d', shape=dims, dtype='u1', chunks=tuple(min(n, 1024) for n in dims))
        d[at] = case['value']
    got = harness([f'open R {hx(path)}', f'dims {hx("/d")}', f'ndims {hx("/d")}',
                   f'readsum UInt8 {hx("/d")}', f'read type UInt8 {hx("/d")} 1 0 '
                   f'{nums([int(x) for x in at])} {nums([1] * len(dims))}', 'destroy'])
    w = [int(x) for x in got[1].split()]
    check(got[4] == f'1 {case["value"]:02x}', 'one element: {}', got[4])
    if max(dims) > 2**31 - 1:
        # They have no int: an error, but not some other numbers
        check(w == [0] and int(got[2]) in (-1, len(dims)), 'dimensions {} instead of {}', w, dims)
        check(got[3].split()[-2:] == ['0', '0'], 'data {}', got[3])
        return
    check(w == [len(dims)] + dims and int(got[2]) == len(dims), 'dimensions {} instead of {}', w, dims)
    r = [int(x) for x in got[3].split()]
    check(r == [len(dims)] + dims + [size, case['at'] % size * case['value']], 'data {}', r)


def nontrivial(case):
    return len(case.get('ops', [1] * 9)) > 3


def classify(case):
    out = []
    for op in case.get('ops', []):
        out.append(op[0] if op[0] not in ('read', 'set', 'open') else op[0] + ' ' + op[1])
    for op in case.get('build', []):
        out.append('build ' + op[0])
    return sorted(set(out))


SUBS = [
    Sub('history', history_cases, run, 'more than 3 operations', nontrivial=nontrivial,
        classify=classify, quick=2400, thorough=60000, shards=6, flavour=None, prepare=prepare,
        timeout=150),
    Sub('foreign', foreign_cases, run, 'more than 3 operations', nontrivial=nontrivial,
        classify=classify, quick=1600, thorough=40000, shards=4, flavour=None, prepare=prepare,
        timeout=150),
    Sub('large', large_cases, run_large, 'every case', quick=4, thorough=40, shards=1, flavour=None,
        prepare=prepare, timeout=300),
]
