"""C20: scan lookup returns the one matching file or refuses."""
import os
from pathlib import Path

from hypothesis import strategies as st

from vp.core import Sub, check

PROPERTY = 'C20'
# Numbers that are prefixes, suffixes and substrings of one another.
NUM = st.sampled_from([0, 1, 2, 3, 10, 11, 12, 21, 100, 110, 112, 123, 1123, 1234, 12345, 99999])
SUFFIX = ['', '', '_offsets', '_centered']
EXT = {'': 'h5', '_offsets': 'emd', '_centered': 'h5'}
TH = st.sampled_from([None, None, 4, 45, 4.5, 10, 0, 0.0])
DATES = ['240101_1234', '231231_0000', '200229_2359', '240101_1235']
JUNK = ['notes.txt', 'readme_id12.txt', 'data_scan12.h5.bak', 'FOURD_index.txt', 'data_scan12.json',
        'data_scan12_id12_electrons.h5.part', 'data_scan1_id1_electrons.txt']


@st.composite
def names(draw):
    """[version, scan_num, id or None, th or None, suffix, ext, date, zero-padded id]"""
    ver = draw(st.sampled_from([0, 0, 1]))
    num = draw(NUM)
    suf = draw(st.sampled_from(SUFFIX))
    ext = EXT[suf]
    if draw(st.integers(0, 9)) == 0:
        ext = 'emd' if ext == 'h5' else 'h5'
    if ver == 1:
        return [1, num, draw(NUM), None, suf, ext, draw(st.sampled_from(DATES)), False]
    kind = draw(st.sampled_from(['id', 'id', 'th', 'plain', 'idth']))
    sid = draw(NUM) if kind in ('id', 'idth') else None
    th = draw(TH.filter(lambda x: x is not None)) if kind in ('th', 'idth') else None
    pad = sid == 0 and draw(st.booleans())
    return [0, num, sid, th, suf, ext, '', pad]


def file_name(n):
    ver, num, sid, th, suf, ext, date, pad = n
    if ver == 1:
        return f'FOURD_{date}_{sid:05d}_{num:05d}{suf}.{ext}'
    s = f'data_scan{num}'
    if sid is not None:
        s += '_id0000' if pad else f'_id{sid}'
    if th is not None:
        s += f'_th{th}'
    return s + f'_electrons{suf}.{ext}'


@st.composite
def cases(draw):
    files = draw(st.lists(names(), max_size=8))
    if files and draw(st.integers(0, 3)) > 0:
        # look for something that is there
        t = draw(st.sampled_from(files))
        ver, num, sid, th, suf, ext, _, _ = t
        how = draw(st.sampled_from(['num', 'id', 'both', 'numth']))
        if sid is None and how in ('id', 'both'):
            how = 'num'
        q = {'scan_num': num if how != 'id' else None, 'scan_id': sid if how in ('id', 'both') else None,
             'th': th if how == 'numth' and sid is None else None, 'suffix': suf,
             'version': draw(st.sampled_from([None, None, ver, 0, 1]))}
    else:
        kind = draw(st.integers(0, 9))
        q = {'scan_num': draw(NUM) if kind % 3 != 1 else None,
             'scan_id': draw(NUM) if kind % 3 != 0 else None, 'th': draw(TH) if kind % 3 == 0 else None,
             'suffix': draw(st.sampled_from(SUFFIX)), 'version': draw(st.sampled_from([None, 0, 1]))}
        if kind == 9:
            q['scan_num'] = q['scan_id'] = None
    return {'files': files, 'q': q, 'junk': draw(st.lists(st.sampled_from(JUNK), max_size=3, unique=True)),
            'str': draw(st.booleans())}


def matches(files, q, ver):
    out = {}
    for n in files:
        v, num, sid, th, suf, ext, _, _ = n
        if v != ver or suf != q['suffix'] or ext != EXT[suf]:
            continue
        if q['scan_id'] is not None:
            if sid != q['scan_id']:
                continue
        else:
            if num != q['scan_num']:
                continue
            if ver == 0 and q['th'] is not None and (th is None or sid is not None or
                                                     str(th) != str(q['th'])):
                continue
        out[file_name(n)] = (num, sid)
    return out


def expected(case):
    q = case['q']
    if q['scan_num'] is None and q['scan_id'] is None:
        return TypeError
    for ver in ([1, 0] if q['version'] is None else [q['version']]):
        m = matches(case['files'], q, ver)
        if len(m) > 1:
            return ValueError
        if m:
            (name, (num, sid)), = m.items()
            return name, num, sid
    return FileNotFoundError


def run(case, ctx):
    from stempy import contrib
    for n in case['files']:
        open(os.path.join(ctx.tmp, file_name(n)), 'w').close()
    for j in case['junk']:
        open(os.path.join(ctx.tmp, j), 'w').close()
    q = case['q']
    kw = {k: q[k] for k in ('scan_num', 'scan_id', 'th', 'version') if q[k] is not None}
    if q['suffix']:
        kw['file_suffix'] = contrib.FileSuffix(q['suffix'])
    d = ctx.tmp if case['str'] else Path(ctx.tmp)
    want = expected(case)
    try:
        got = contrib.get_scan_path(d, **kw)
    except (ValueError, FileNotFoundError, TypeError) as e:
        check(want is type(e), '{} raised {}: {}; expected {} among {}', kw, type(e).__name__, e, want,
              sorted(os.listdir(ctx.tmp)))
        return
    check(not isinstance(want, type), '{} returned {} but {} was due among {}', kw, got, want,
          sorted(os.listdir(ctx.tmp)))
    path, num, sid = got
    check(Path(path) == Path(ctx.tmp) / want[0], '{}: found {} instead of {}', kw, path, want[0])
    check((num, sid) == want[1:], '{}: numbers {} read from {}', kw, (num, sid), want[0])


def classify(c):
    w = expected(c)
    return ['found' if isinstance(w, tuple) else w.__name__, 'version-%s' % c['q']['version'],
            'by-' + ('id' if c['q']['scan_id'] is not None else 'num')]


SUBS = [
    Sub('lookup', cases, run,
        rule='a directory of files in both schemes with colliding numbers, thresholds, suffixes and '
             'extensions, and a lookup; non-trivial = at least two files',
        nontrivial=lambda c: len({file_name(n) for n in c['files']}) > 1, classify=classify,
        quick=16000, thorough=300000, shards=8),
]
