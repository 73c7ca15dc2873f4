"""C07: threaded reading and counting is free of races and terminates."""
import os
import subprocess
import zlib

import numpy as np
from hypothesis import strategies as st

from checks import c04, raw_common as rc
from vp import build as B
from vp.core import Reject, Sub, check

PROPERTY = 'C07'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare(flavour):
    def run(scratch, builds):
        lib = builds.get(flavour) or B.build(scratch, flavour, targets=('stem',))
        exe = B.harness(scratch, lib, 'threads-' + flavour,
                        os.path.join(HERE, 'harness', 'threads.cpp'), flavour)
        env = {'VP_HARNESS': exe}
        if flavour == 'plain':
            so = os.path.join(scratch, 'delays.so')
            subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so,
                            os.path.join(HERE, 'harness', 'delays.c'), '-ldl', '-lpthread'],
                           check=True)
            env['VP_DELAYS'] = so
        return env
    return run


@st.composite
def count_op(draw, npos, W, H):
    dims = draw(st.sampled_from([[0, 0]] * 6 + [[W, H], [H, W], [W + 1, H], [1, 1]]))
    return ['count', draw(st.sampled_from([1, 1, 2, 3, 6, 40])), draw(st.integers(1, 3)),
            draw(st.sampled_from([4, 3])), draw(st.sampled_from([10, 5])), *dims,
            draw(st.sampled_from([0, 0, 0, 1, 2])), draw(st.sampled_from([-1, -1, 0, 3, 7])),
            draw(st.sampled_from([0, 0, 1, 0.5]))]


@st.composite
def cases(draw, small=False):
    backend = draw(st.sampled_from(['thread', 'thread', 'multi-pass']))
    kinds = ['count', 'count', 'count', 'count', 'zero', 'const']
    d = draw(rc.datasets(versions=(4, 5) if backend == 'thread' else (5,),
                         max_frames=6 if small else 9, multi=True, kinds=kinds, big=False,
                         max_per_position=5, missing=draw(st.booleans()),
                         min_frames=draw(st.sampled_from([1, 4]))))
    W, H = d['W'], d['H']
    ops = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 4]))):
        k = draw(st.sampled_from(['count', 'count', 'count', 'all', 'all', 'throw', 'reset', 'load']))
        if k == 'count':
            ops.append(draw(count_op(W * H, W, H)))
        elif k == 'all':
            ops.append(['all', -1, 0])
        elif k == 'throw':
            ops.append(['all', draw(st.integers(0, 4)), draw(st.integers(0, 1))])
        elif k == 'load' and backend == 'multi-pass':
            ops.append(['load', draw(st.integers(0, len(d['frames']) - 1)), draw(st.integers(0, 2))])
            continue
        elif k == 'reset':
            ops.append(['reset'])
            continue
        if backend == 'thread' and draw(st.sampled_from([1, 1, 1, 0])):
            ops.append(['reset'])
    return {'data': d, 'backend': backend, 'threads': draw(st.sampled_from([2, 3, 4, 8, 1])),
            'ops': ops, 'delay': draw(st.integers(0, 9999))}


def script(case, ds):
    out = [case['backend'], str(case['data']['v']), str(case['threads']), str(len(ds.paths))]
    out += ds.paths
    n = len(ds.frames)
    for op in case['ops']:
        if op[0] == 'all':
            out += ['all', str(n), str(op[1]), str(op[2])]
        elif op[0] == 'load':
            out += ['load', str(ds.frames[op[1]][0]), '1', str(op[2])]
        else:
            out += [str(x) for x in op]
    return ' '.join(out) + '\n'


def parse(text):
    """List of (name, lines, 'OK' or the message of the exception or None)"""
    out = []
    ended = False
    for line in text.splitlines():
        if line.startswith('OP '):
            out.append([line[3:], [], None])
        elif line == 'OK':
            out[-1][2] = 'OK'
        elif line.startswith('X '):
            out[-1][2] = line
        elif line == 'END':
            ended = True
        else:
            out[-1][1].append(line.split())
    return out, ended


def judge(case, ds, results):
    d = case['data']
    thread = case['backend'] == 'thread'
    frames = [(pos, number, mask, k) for k, (pos, number, mask, f) in enumerate(ds.frames) if mask]
    passed = [f for f in frames if f[2] == 15 or not thread]
    complete = [f for f in frames if f[2] == 15]
    state = 'new'
    for i, (op, (name, lines, status)) in enumerate(zip(case['ops'], results)):
        what = f'operation {i} ({name})'
        check(status is not None, '{} has no result', what)
        if op[0] == 'reset':
            check(status == 'OK', '{} fails: {}', what, status)
            state = 'new'
            continue
        if not thread:
            state = 'new'
        if op[0] == 'load':
            pos = ds.frames[op[1]][0]
            here = sorted(f[1] for f in frames if f[0] == pos)
            if op[2] >= len(here):
                check(status != 'OK', '{}: frame {} of {} is not refused', what, op[2], len(here))
                continue
            want = [f for f in frames if f[0] == pos and f[1] == here[op[2]]]
            check(status == 'OK', '{} fails: {}', what, status)
            blocks(ds, lines, want, what)
            continue
        if state == 'unknown':
            # A pass that failed before; only the end is judged
            continue
        expected = passed if state == 'new' else []
        if op[0] == 'all':
            state = 'read'
            if 0 <= op[1] < len(expected):
                check(status != 'OK', '{}: an exception of the functor is lost', what)
                state = 'unknown'
                continue
            check(status == 'OK', '{} fails: {}', what, status)
            blocks(ds, lines, expected, what)
            continue
        # count
        was_new = state == 'new'
        state = 'read'
        _, nblocks, samples, bn, xn, w, h, row, dark, gain = op
        if not w:
            w, h = d['W'], d['H']
        fails = not was_new or not complete or any(f[0] >= w * h for f in expected)
        if fails:
            check(status != 'OK', '{} does not fail', what)
            state = 'unknown' if was_new else 'read'
            continue
        if status != 'OK':
            # No thresholds for such data
            check(d['kind'] != 'count' or dark >= 0 or gain > 0, '{} fails: {}', what, status)
            state = 'unknown'
            continue
        m = next(x for x in lines if x[0] == 'M')
        D = next(x for x in lines if x[0] == 'D')
        bg, xr, center = map(float, m[1:4])
        check([int(D[1]), int(D[2]), int(D[3])] == [w, h, w * h], '{}: dimensions {}', what, D)
        ev = {}
        for x in lines:
            if x[0] == 'E':
                ev.setdefault(int(x[1]), []).append([int(v) for v in x[2:]])
        if bg < 0:
            continue
        darks = np.full((576, 576), dark, np.float32) if dark >= 0 else None
        gains = np.full((576, 576), gain, np.float32) if gain > 0 else None
        want = {}
        try:
            for f in expected:
                lo, hi = rc.corrected(ds.expected(f[3]), darks, gains,
                                      (float(np.float32(center)), row == 1) if row else None)
                want.setdefault(f[0], []).append(rc.count(lo, hi, bg, xr))
        except Reject:
            continue
        most = max(map(len, want.values()))
        for pos in range(w * h):
            got = ev.get(pos, [])
            check(len(got) == most, '{}: {} frames at position {} instead of {}', what, len(got),
                  pos, most)
            x = want.get(pos, [])
            x = x + [(np.array([], int),) * 2] * (most - len(x))
            check(c04.match([np.array(g, dtype=np.int64) for g in got], x),
                  '{}: wrong events at position {}: lists of {} events, expected lists of {}', what,
                  pos, [len(g) for g in got], [len(a) for a, b in x])


def blocks(ds, lines, want, what):
    got = sorted(tuple(map(int, x[1:])) for x in lines if x[0] == 'B')
    exp = sorted((pos, number, zlib.crc32(ds.expected(k).tobytes()), 1, int(mask == 15))
                 for pos, number, mask, k in want)
    check(got == exp, '{}: (position, frame number, checksum, images, complete) {} instead of {}',
          what, [g for g in got if g not in exp] or got, [e for e in exp if e not in got] or exp)


def runner(tsan):
    def run(case, ctx):
        ds = rc.Dataset(case['data'], ctx.tmp)
        path = os.path.join(ctx.tmp, 'script')
        with open(path, 'w') as f:
            f.write(script(case, ds))
        env = dict(os.environ)
        env.pop('LD_PRELOAD', None)
        if tsan:
            env['TSAN_OPTIONS'] = ('exitcode=66 halt_on_error=1 report_signal_unsafe=0 history_size=4 '
                                   'suppressions=' + os.path.join(HERE, 'harness', 'tsan.supp'))
        else:
            env['LD_PRELOAD'] = os.environ['VP_DELAYS']
            env['VP_DELAY'] = str(case['delay'])
        limit = 90
        try:
            p = subprocess.run([os.environ['VP_HARNESS'], path], capture_output=True, env=env,
                               timeout=limit)
        except subprocess.TimeoutExpired as e:
            r, _ = parse((e.stdout or b'').decode())
            check(False, 'no end after {} s, in operation {}', limit, r[-1][0] if r else None)
        err = p.stderr.decode('utf-8', 'replace')
        check(p.returncode != 66, 'data race:\n{}', err[-5000:])
        check(p.returncode == 0, 'ended with {}:\n{}', p.returncode, err[-3000:])
        results, ended = parse(p.stdout.decode())
        check(ended and len(results) == len(case['ops']), 'not all operations were done')
        judge(case, ds, results)
    return run


def nontrivial(case):
    return case['threads'] > 1 and len(case['data']['frames']) > 1


def classify(case):
    out = rc.labels(case['data']) + [case['backend'], f"threads={case['threads']}"]
    names = [o[0] if o[0] != 'all' or o[1] < 0 else 'throwing functor' for o in case['ops']]
    out += sorted(set(names))
    if sum(n in ('count', 'all') for n in names) > 1:
        out.append('reader used several times')
    if case['data']['kind'] != 'count':
        out.append('no thresholds')
    return out


SUBS = [
    Sub('races', lambda: cases(small=True), runner(True), 'several threads and frames',
        nontrivial=nontrivial, classify=classify, quick=160, thorough=4000, shards=4, timeout=150,
        flavour=None, replays=10, prepare=prepare('tsan')),
    Sub('schedules', cases, runner(False), 'several threads and frames', nontrivial=nontrivial,
        classify=classify, quick=480, thorough=12000, shards=4, timeout=150, flavour=None,
        replays=10, prepare=prepare('plain')),
]
