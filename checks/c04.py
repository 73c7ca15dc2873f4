"""C04: threaded counting finds exactly the electrons in every frame."""
import numpy as np
from hypothesis import strategies as st

from checks import raw_common as rc
from vp.core import Reject, Sub, check

PROPERTY = 'C04'


@st.composite
def cases(draw):
    backend = draw(st.sampled_from(['thread', 'multi-pass']))
    d = draw(rc.datasets(versions=(4, 5) if backend == 'thread' else (5,), max_frames=9, multi=True,
                         kinds=('count', 'count', 'count', 'sparse', 'dense'), big='medium',
                         max_per_position=4, missing=draw(st.booleans())))
    npos = d['W'] * d['H']
    over = draw(st.sampled_from([None, None, None, 'swap', 'larger', 'square', 'small']))
    dims = {None: None, 'swap': [d['H'], d['W']], 'larger': [d['W'] + 1, d['H'] + 2],
            'square': [10, 10], 'small': [1, max(1, npos // 2)]}[over]
    return {'data': d, 'backend': backend, 'threads': draw(st.sampled_from([1, 2, 3, 8])),
            'blocks': draw(st.sampled_from([1, 1, 2, 3, 5, 40])),
            'samples': draw(st.one_of(st.integers(1, 5), st.integers(1, 5), st.just(40))),
            'omit': draw(st.booleans()),
            'bgn': draw(st.sampled_from([4, 4, 3, 2, 5.5, 0])),
            'xrn': draw(st.sampled_from([10, 10, 5, 40, 3])),
            'dark': draw(rc.dark_specs(20)), 'gain': draw(rc.gain_specs()),
            'form': draw(st.sampled_from(['float64', 'float32', 'ImageArray'])),
            'row': draw(st.sampled_from([None, None, 'mean', 'median'])),
            'dims': dims, 'single': draw(st.booleans())}


@st.composite
def many_cases(draw):
    backend = draw(st.sampled_from(['thread', 'multi-pass']))
    m = draw(rc.many(versions=(4, 5) if backend == 'thread' else (5,), per_position=(1, 3, 40, 300),
                     sizes=(20, 40, 70, 140, 270), kind='flat'))
    return {'many': m, 'backend': backend, 'threads': draw(st.sampled_from([1, 2, 4, 8])),
            'blocks': draw(st.sampled_from([1, 2, 20, 1000])), 'samples': draw(st.integers(2, 20)),
            'bgn': 5.5, 'xrn': 40, 'dark': draw(st.sampled_from([None, None, ['const', 10]])),
            'gain': draw(st.sampled_from([None, None, ['const', 0.5]])), 'form': 'float32', 'row': None,
            'dims': None, 'single': False}


def run_many(case, ctx):
    run(dict(case, data=rc.expand(case['many'])), ctx)


def match(got, want):
    """Whether the lists of events can be assigned to the frames, one to each."""
    if len(got) != len(want):
        return False
    can = [[i for i, g in enumerate(got) if rc.fits(g, *w)] for w in want]
    owner = {}

    def place(j, seen):
        for i in can[j]:
            if i not in seen:
                seen.add(i)
                if i not in owner or place(owner[i], seen):
                    owner[i] = j
                    return True
        return False
    return all(place(j, set()) for j in range(len(want)))


def count_reference(case, ds, md, dark, inv):
    """Events of each position."""
    complete_only = case['backend'] == 'thread'
    row = None
    if case['row']:
        row = float(np.float32(md['optimized_mean'])), case['row'] == 'mean'
    want = {}
    for k, (pos, number, mask, f) in enumerate(ds.frames):
        if not mask or (complete_only and mask != 15):
            continue
        lo, hi = rc.corrected(ds.expected(k), dark, inv, row)
        want.setdefault(pos, []).append(
            rc.count(lo, hi, md['background_threshold'], md['x_ray_threshold']))
    return want


def metadata(case, sa):
    md = sa.metadata['electron_counting']
    check(md['threshold_calculated'], 'threshold_calculated is false')
    check(md['number_of_samples'] == case['samples'], 'number_of_samples {}', md['number_of_samples'])
    for key, mean, sd, n in (('x_ray_threshold', 'mean', 'std_dev', case['xrn']),
                             ('background_threshold', 'optimized_mean', 'optimized_std_dev',
                              case['bgn'])):
        exp = md[mean] + n * md[sd]
        check(abs(md[key] - exp) <= 1e-6 * (1 + abs(exp)), '{} is {} instead of {}', key, md[key], exp)
    check(md['x_ray_threshold_n_sigma'] == case['xrn']
          and md['background_threshold_n_sigma'] == case['bgn'], 'sigmas {}', md)
    return md


def run(case, ctx):
    from stempy import io, image
    d = case['data']
    ds = rc.Dataset(d, ctx.tmp)
    paths = ds.paths
    if len(paths) == 1 and case['single']:
        paths = paths[0]
    dark = rc.make_dark(case['dark'], (576, 576))
    gain = rc.make_gain(case['gain'], (576, 576))
    dark32 = None if dark is None else dark.astype(np.float32)
    darg, garg = dark, gain
    if dark is not None:
        darg = dark.astype('float64' if case['form'] == 'float64' else 'float32')
        if case['form'] == 'ImageArray':
            darg = image.ImageArray(darg)
    inv = rc.inverse(gain)
    reader = io.reader(paths, version=d['v'], backend=case['backend'], threads=case['threads'])
    present = [f for f in d['frames'] if f[3] == 15]
    counted = present if case['backend'] == 'thread' else [f for f in d['frames'] if f[3]]
    W, H = case['dims'] or (d['W'], d['H'])
    outside = any(f[0] >= W * H for f in counted)
    plain = case['dark'] is None and case['gain'] is None
    kw = {}
    if case['dims']:
        kw['scan_dimensions'] = tuple(case['dims'])
    try:
        sa = image.electron_count(
            reader, **kw, **rc.keywords(
                case.get('omit'), darkreference=darg, number_of_samples=case['samples'],
                background_threshold_n_sigma=case['bgn'], xray_threshold_n_sigma=case['xrn'],
                threshold_num_blocks=case['blocks'], gain=garg, apply_row_dark=case['row'] is not None,
                apply_row_dark_use_mean=case['row'] == 'mean'))
    except ValueError as e:
        check(not present or outside, 'counting fails: {}', e)
        return
    except RuntimeError as e:
        # The background cannot be fitted
        check(not plain, 'counting fails: {}', e)
        raise Reject()
    check(present, 'events without any complete frame')
    check(not outside, 'frames outside of the scan are not refused')
    check(tuple(sa.scan_shape) == (H, W), 'scan shape {} instead of {}', sa.scan_shape, (H, W))
    check(tuple(sa.frame_shape) == (576, 576), 'frame shape {}', sa.frame_shape)
    md = metadata(case, sa)
    if md['background_threshold'] < 0:
        raise Reject()
    want = count_reference(case, ds, md, dark32, inv)
    most = max(map(len, want.values()))
    check(sa.data.shape == (W * H, most), '{} frames per position instead of {}', sa.data.shape,
          (W * H, most))
    for pos in range(W * H):
        got = list(sa.data[pos])
        w = want.get(pos)
        if w is None:
            check(not any(len(g) for g in got), 'position {} has events, but no frame', pos)
            continue
        w = w + [(np.array([], int),) * 2] * (most - len(w))
        if match(got, w):
            continue
        # Say what is wrong
        left = [g for g in got]
        msg = []
        for x in w:
            hit = [i for i, g in enumerate(left) if rc.fits(g, *x)]
            if hit:
                left.pop(hit[0])
            else:
                msg.append(x)
        check(False, 'position {}: {} (thresholds {} and {})', pos,
              '; '.join(rc.explain(g, *x) for g, x in zip(left, msg)),
              md['background_threshold'], md['x_ray_threshold'])


def nontrivial(case):
    return sum(f[3] == 15 for f in case['data']['frames']) > 1


def classify(case):
    out = rc.labels(case['data'])
    out.append(case['backend'])
    out.append(f"threads={case['threads']}")
    if case['dark']:
        out.append('dark ' + case['dark'][0])
    if case['gain']:
        out.append('gain ' + case['gain'][0])
    if case['row']:
        out.append('row dark ' + case['row'])
    if case['blocks'] > len(case['data']['frames']):
        out.append('fewer frames than threshold blocks')
    if case['dims']:
        out.append('scan dimensions given')
    if case.get('omit'):
        out.append('defaults left out')
    return out


SUBS = [
    Sub('count', cases, run, 'more than one complete frame is counted', nontrivial=nontrivial,
        classify=classify, quick=640, thorough=12000, shards=8, timeout=120),
    Sub('many', many_cases, run_many, 'every case', quick=56, thorough=1000, shards=4, timeout=240,
        classify=lambda c: rc.many_labels(c['many']) + [c['backend'], f"threads={c['threads']}"]),
]
