"""Runs generated cases of one family in this process (see runner.py)."""
import sys
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

import argparse
import collections
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import tempfile
import time
import traceback
import warnings

warnings.simplefilter('ignore')

from vp.core import Reject, Violation


class Ctx:
    """Per-process context of the running case."""

    def __init__(self, tmp, tier):
        self.root = tmp
        self.tier = tier
        self.n = 0

    def begin(self):
        self.n += 1
        self.tmp = os.path.join(self.root, f'c{os.getpid()}_{self.n}')
        os.makedirs(self.tmp)

    def end(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def dumps(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def run_case(sub, case, ctx):
    ctx.begin()
    try:
        sub.run(case, ctx)
    finally:
        ctx.end()


def run_isolated(sub, case, ctx):
    """Run a case in a forked child, so that a crash becomes an exception."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            try:
                run_case(sub, case, ctx)
            except Reject:
                code = 4
            except BaseException:
                os.write(w, traceback.format_exc()[-8000:].encode())
                code = 3
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.time() + sub.timeout
    status = None
    while time.time() < deadline:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = st
            break
        time.sleep(0.002)
    if status is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        os.close(r)
        raise Violation(f'no result after {sub.timeout} s (hang)')
    out = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        out += b
    os.close(r)
    if os.WIFSIGNALED(status):
        raise Violation(f'process died with signal {os.WTERMSIG(status)}')
    code = os.WEXITSTATUS(status)
    if code == 4:
        raise Reject()
    if code == 3:
        raise Violation(out.decode('utf-8', 'replace'))
    if code != 0:
        raise Violation(f'process exited with status {code}')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('sub')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--n', type=int, default=0)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--tmp', required=True)
    ap.add_argument('--out', required=True)
    ap.add_argument('--deadline', type=float, default=0)
    ap.add_argument('--isolate', action='store_true')
    ap.add_argument('--replay', action='append', default=[])
    a = ap.parse_args()

    mod = importlib.import_module('checks.' + a.prop.lower())
    sub = {s.name: s for s in mod.SUBS}[a.sub]
    if sub.flavour == 'plain' and sub.rlimit_gb:
        lim = sub.rlimit_gb << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    ctx = Ctx(a.tmp, a.tier)
    cur_path = a.out + '.cur'
    stats = {'evaluations': 0, 'rejected': 0, 'known_excluded': collections.Counter(),
             'skipped_deadline': 0, 'labels': collections.Counter(), 'hashes': set(),
             'samples': [], 'fail': None}

    def save():
        o = dict(stats)
        o['hashes'] = sorted(o['hashes'])
        with open(a.out + '.tmp', 'w') as f:
            json.dump(o, f)
        os.replace(a.out + '.tmp', a.out)

    def one(case):
        text = dumps(case)
        with open(cur_path, 'w') as f:
            f.write(text)
        try:
            if a.isolate:
                run_isolated(sub, case, ctx)
            else:
                run_case(sub, case, ctx)
        except Reject:
            stats['rejected'] += 1
            return
        except BaseException as e:
            stats['fail'] = {'case': case, 'error': traceback.format_exc()[-6000:],
                             'kind': type(e).__name__}
            raise
        stats['evaluations'] += 1
        if sub.nontrivial(case):
            h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
            if h not in stats['hashes']:
                stats['hashes'].add(h)
                if len(stats['samples']) < 3 and len(stats['hashes']) % 7 == 3:
                    stats['samples'].append(text if len(text) < 900 else text[:900] + '...')
        for lab in sub.classify(case):
            stats['labels'][lab] += 1

    if a.replay:
        for path in a.replay:
            case = json.load(open(path))['case']
            try:
                one(case)
            except BaseException:
                stats['fail']['replayed'] = path
                save()
                traceback.print_exc()
                sys.stderr.flush()
                os._exit(1)
        save()
        sys.stderr.flush()
        os._exit(0)

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given
    import hypothesis.internal.conjecture.engine as eng
    if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
        eng.MAX_SHRINKING_SECONDS = 60

    @hypothesis.seed(a.seed)
    @settings(max_examples=max(1, a.n), database=None, deadline=None,
              derandomize=False, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck),
              phases=(Phase.generate,) if os.environ.get('VERIF_FAST') else (Phase.generate, Phase.shrink))
    @given(sub.strategy())
    def test(case):
        if a.deadline and time.time() > a.deadline and stats['fail'] is None:
            stats['skipped_deadline'] += 1
            return
        if sub.known is not None:
            k = sub.known(case)
            if k:
                stats['known_excluded'][k] += 1
                return
        one(case)

    rc = 0
    try:
        test()
    except BaseException:
        rc = 1
        if stats['fail'] is None:
            # Not a failing case: the harness itself went wrong.
            traceback.print_exc()
            rc = 2
    save()
    sys.stdout.flush()
    sys.stderr.flush()
    # Background threads of the tested code must not keep us from ending.
    os._exit(rc)


if __name__ == '__main__':
    main()
