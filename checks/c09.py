"""C09: raw data survives HDF5 export and re-import."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import image_common as ic
from checks import raw_common as rc
from vp.core import Sub, check

PROPERTY = 'C09'


@st.composite
def export_cases(draw, data=lambda: rc.datasets(max_frames=6)):
    d = draw(data())
    return {'data': d, 'format': draw(st.sampled_from(['frame', 'frame', 'cube', 'default'])),
            'twice': draw(st.sampled_from([0, 0, 1])), 'read': draw(st.sampled_from([0, 0, 0, 1, 2])),
            'over': draw(st.booleans()),
            'inner': draw(st.integers(0, 300)), 'outer': draw(st.integers(1, 700)),
            'center': draw(ic.centers(576, 576))}


def run_export(case, ctx):
    import h5py
    from stempy import image, io
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    W, H = d['W'], d['H']
    reader = io.reader(ds.paths, version=d['v'])
    path = os.path.join(ctx.tmp, 'out.h5')
    if case['over']:
        # A file that exists is replaced
        with h5py.File(path, 'w') as f:
            f.create_dataset('frames', data=np.ones((2, 3, 4)))
    for _ in range(case['read']):
        reader.read()
    if case['read']:
        reader.reset()
    cube = case['format'] == 'cube'
    want = {f[0]: ds.expected(k) for k, f in enumerate(ds.frames) if f[2]}
    for turn in range(1 + case['twice']):
        if case['format'] == 'default':
            io.write_hdf5(path, reader)
        else:
            F = io.SectorReader.H5Format
            io.write_hdf5(path, reader, F.DataCube if cube else F.Frame)
        reader.reset()
    with h5py.File(path, 'r') as f:
        if cube:
            x = f['datacube']
            check(x.shape == (W, H, 576, 576), 'shape {}', x.shape)
        else:
            x = f['frames']
            check(x.shape == (W * H, 576, 576), 'shape {}', x.shape)
            sd = x.attrs.get('scan_dimensions')
            check(sd is not None and list(sd) == [W, H], 'scan_dimensions {}', sd)
        check(x.dtype == np.uint16, 'type {}', x.dtype)
        near = {min(max(p + k, 0), W * H - 1) for p in want for k in (-1, 0, 1, W, -W)}
        near |= {0, W * H - 1} | set(range(min(12, W * H)))
        for p in sorted(near)[:60] if W * H > 130 else range(W * H):
            g = x[p % W, p // W] if cube else x[p]
            if p in want:
                check(np.array_equal(g, want[p]), 'position {}: wrong frame', p)
            else:
                check(not g.any(), 'position {}: has no data, but pixels are not zero', p)
        if not cube and W * H <= 130:
            r = io.reader(f)
            n = 0
            for b in r:
                check(tuple(b.header.scan_dimensions) == (W, H), 're-opened: scan dimensions {}',
                      b.header.scan_dimensions)
                check(tuple(b.header.frame_dimensions) == (576, 576), 're-opened: frame dimensions {}',
                      b.header.frame_dimensions)
                for p, g in zip(b.header.image_numbers, np.asarray(b.data)):
                    check(p == n, 're-opened: image number {} instead of {}', p, n)
                    check(np.array_equal(g, want.get(p, np.zeros_like(g))),
                          're-opened: position {}: wrong frame', p)
                    n += 1
            check(n == W * H, 're-opened: {} of {} frames', n, W * H)
            kw = {'center': tuple(case['center'])}
            a = np.asarray(image.create_stem_images(f, case['inner'], case['outer'], **kw))
            b = np.asarray(image.create_stem_images(reader, case['inner'], case['outer'], **kw))
            check(a.shape == (1, H, W) and np.array_equal(a, b), 'images of the export differ')


DTYPES = ['uint16', 'uint16', 'uint8', 'int16', 'int32', 'uint32', 'int64', '>u2']


@st.composite
def saved_cases(draw, sources=ic.sources):
    c = draw(sources(('hdf5 positions', 'hdf5')))
    c['kind'] = draw(st.sampled_from(['full', 'few', 'top', 'single']))
    return {'src': c, 'dtype': draw(st.sampled_from(DTYPES)), 'zip': draw(st.booleans()),
            'pos': draw(st.sampled_from(['list', 'array', 'int64', 'tuple'])),
            'dims': draw(st.sampled_from(['tuple', 'list', 'array', 'stem images'])),
            'append': draw(st.booleans()),
            'hist': draw(st.lists(st.one_of(st.integers(1, 3), st.just('reset')), max_size=4)),
            'inner': draw(st.integers(0, 10)), 'outer': draw(st.integers(1, 90)),
            'center': draw(ic.centers(c['w'], c['h']))}


def run_saved(case, ctx):
    import h5py
    from stempy import image, io
    c = case['src']
    n, h, w, W, H = len(c['positions']), c['h'], c['w'], c['W'], c['H']
    dt = np.dtype(case['dtype'])
    f = ic.pixels(c['kind'], c['seed'], n, h, w)
    f = (f % (min(np.iinfo(dt).max, 65535) + 1)).astype(dt)
    path = os.path.join(ctx.tmp, 'a.h5')
    if case['append']:
        with h5py.File(path, 'w') as fh:
            fh.create_dataset('other', data=[1, 2, 3])
    kw = {}
    if c['source'] == 'hdf5 positions':
        p = c['positions']
        kw['scan_positions'] = {'list': list, 'tuple': tuple, 'array': lambda x: np.array(x, np.uint32),
                                'int64': lambda x: np.array(x, np.int64)}[case['pos']](p)
    if case['dims'] != 'stem images':
        kw['scan_dimensions'] = {'tuple': tuple, 'list': list, 'array': np.array}[case['dims']]([W, H])
    keep = f.copy()
    io.save_raw_data(path, f, zip_data=case['zip'], **kw)
    check(np.array_equal(f, keep), 'saving modified the data')
    imgs = np.arange(2 * H * W).reshape(2, H, W).astype(np.uint64)
    if case['dims'] == 'stem images':
        io.save_stem_images(path, imgs, ['bright', 'dark'])
    with h5py.File(path, 'r') as fh:
        if case['append']:
            check(list(fh['other'][()]) == [1, 2, 3], 'other data is lost')
        if case['dims'] == 'stem images':
            check(np.array_equal(fh['stem/images'][()], imgs), 'STEM images')
            check([x.decode() if isinstance(x, bytes) else x for x in fh['stem/images'].attrs['names']]
                  == ['bright', 'dark'], 'names of STEM images')
        r = io.reader(fh)
        i = 0

        def block():
            nonlocal i
            b = r.read()
            if b is None:
                check(i == n, 'the end comes after {} of {} frames', i, n)
                return False
            k = b.header.images_in_block
            num = list(b.header.image_numbers)
            check(k > 0 and num == c['positions'][i:i + k], 'image numbers {} instead of {}', num,
                  c['positions'][i:i + k])
            check(tuple(b.header.scan_dimensions) == (W, H), 'scan dimensions {}', b.header.scan_dimensions)
            check(tuple(b.header.frame_dimensions) == (w, h), 'frame dimensions {}',
                  b.header.frame_dimensions)
            g = np.asarray(b.data)
            check(g.shape == (k, h, w) and g.dtype == np.uint16, 'shape {} {}', g.shape, g.dtype)
            check(np.array_equal(g, f[i:i + k]), 'frames {} to {} differ', i, i + k)
            i += k
            return True

        for op in case['hist']:
            if op == 'reset':
                r.reset()
                i = 0
            else:
                for _ in range(op):
                    block()
        while block():
            pass
        kw = {'center': tuple(case['center'])}
        a = np.asarray(image.create_stem_images(fh, case['inner'], case['outer'], **kw))
        o = io.PyReader(f.astype(np.uint16), c['positions'], (W, H), 5, n)
        b = np.asarray(image.create_stem_images(o, case['inner'], case['outer'], **kw))
        check(a.shape == (1, H, W) and np.array_equal(a, b), 'images of the saved data differ')


def nontrivial(case):
    return len(case['data']['frames'] if 'data' in case else case['src']['positions']) > 1


def classify(case):
    if 'data' in case:
        return rc.labels(case['data']) + [case['format']]
    out = ic.labels(case['src']) + [case['dtype'], 'dims: ' + case['dims']]
    if case['zip']:
        out.append('zip')
    return out


def expanded(fn):
    return lambda case, *a: fn({**case, 'data': rc.expand(case['data'])}, *a)


SUBS = [
    Sub('export', export_cases, run_export, 'several frames', nontrivial=nontrivial, classify=classify,
        quick=320, thorough=6000, shards=4),
    Sub('saved', saved_cases, run_saved, 'several frames', nontrivial=nontrivial, classify=classify,
        quick=1500, thorough=40000, shards=4),
    Sub('export, many', lambda: export_cases(lambda: rc.many(sizes=(20, 40, 70, 110))), expanded(run_export),
        'several frames; up to 113', nontrivial=expanded(nontrivial),
        classify=lambda c: rc.many_labels(c['data']) + [c['format']], quick=48, thorough=1200, shards=6),
    Sub('saved, many', lambda: saved_cases(ic.wide_sources), ic.wide(run_saved), 'several frames; up to 5000',
        nontrivial=ic.wide(nontrivial), classify=ic.wide_labels(classify), quick=100, thorough=3000, shards=4),
]
