"""Runs the check of one property: build, replay tier, generated search."""
import argparse
import collections
import concurrent.futures
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vp import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
# Only tell whether there is a failure (tools/mutate.py)
FAST = bool(os.environ.get('VERIF_FAST'))


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: '):
                e = json.loads(line[7:])
                if e['property'] == prop:
                    out.append(e)
    return out


class Task:
    def __init__(self, sub, shard, seed, n, replay=None, isolate=False):
        self.sub, self.shard, self.seed, self.n = sub, shard, seed, n
        self.replay = replay or []
        self.isolate = isolate


class Runner:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.mod = importlib.import_module('checks.' + prop.lower())
        self.builds = {}
        self.extra_env = {}
        self.count = 0
        self.stop = False

    def prepare(self, only=None):
        subs = [s for s in self.mod.SUBS if only is None or s.name == only]
        for fl in sorted({s.flavour for s in subs if s.flavour}):
            self.builds[fl] = B.build(self.scratch, fl)
        for s in subs:
            if s.prepare:
                self.extra_env[s.name] = s.prepare(self.scratch, self.builds)

    def env(self, sub):
        env = dict(os.environ)
        env['PYTHONDONTWRITEBYTECODE'] = '1'
        env['LC_ALL'] = 'C.UTF-8'
        env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
        env['PYTHONHASHSEED'] = '0'
        path = [VERIF]
        if sub.flavour:
            path.insert(0, B.pythonpath(self.builds[sub.flavour]))
        env['PYTHONPATH'] = ':'.join(path)
        if sub.flavour == 'asan':
            env['LD_PRELOAD'] = ' '.join(B.sanitizer_runtime(x) for x in
                                         ('libasan.so', 'libstdc++.so'))
            env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:'
                                   'max_allocation_size_mb=4000:'
                                   'handle_segv=1:detect_odr_violation=0:quarantine_size_mb=16')
            env['UBSAN_OPTIONS'] = 'print_stacktrace=1:abort_on_error=1'
        env.update(sub.env)
        env.update(self.extra_env.get(sub.name, {}))
        return env

    def run_task(self, t, deadline=0):
        """Returns (rc or 'hang', stats or None, current case or None, stderr tail)."""
        self.count += 1
        tmp = os.path.join(self.scratch, f't{self.count}_{t.sub.name}_{t.shard}')
        os.makedirs(tmp)
        out = os.path.join(tmp, 'out.json')
        cmd = [B.VENV_PY, '-m', 'vp.worker', self.prop, t.sub.name, '--seed', str(t.seed),
               '--n', str(t.n), '--tier', self.tier, '--tmp', tmp, '--out', out,
               '--deadline', str(deadline)]
        if t.isolate:
            cmd.append('--isolate')
        for r in t.replay:
            cmd += ['--replay', r]
        err = open(os.path.join(tmp, 'err'), 'wb+')
        cur = out + '.cur'
        p = subprocess.Popen(cmd, cwd=VERIF, env=self.env(t.sub), stdout=err, stderr=err,
                             start_new_session=True)
        last, since = None, time.time()
        rc = None
        while True:
            try:
                rc = p.wait(timeout=0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            if self.stop:
                rc = 'stopped'
                break
            try:
                m = os.stat(cur).st_mtime_ns
            except OSError:
                m = None
            if m != last:
                last, since = m, time.time()
            # The isolating worker has its own per-case limit.
            limit = t.sub.timeout + (30 if t.isolate else 0)
            if last is not None and time.time() - since > limit:
                rc = 'hang'
                break
            if last is None and time.time() - since > 300:
                rc = 'hang-start'
                break
        if isinstance(rc, str):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        stats = None
        if os.path.exists(out):
            stats = json.load(open(out))
        case = None
        if rc not in (0, 1, 2) and os.path.exists(cur):
            try:
                case = json.load(open(cur))
            except ValueError:
                pass
        err.seek(0)
        tail = err.read()[-3000:].decode('utf-8', 'replace')
        err.close()
        shutil.rmtree(tmp, ignore_errors=True)
        return rc, stats, case, tail

    def write_replay(self, sub, case, error):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{self.prop}-{sub.name}.json')
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'sub': sub.name, 'case': case,
                       'error': error}, f, indent=1)
        return path

    def confirm(self, sub, path):
        """Replays a failing case; returns the number of failing replays."""
        bad = 0
        for i in range(sub.replays):
            rc, stats, case, tail = self.run_task(Task(sub, f'r{i}', 0, 0, replay=[path]))
            if rc not in (0, 2):
                bad += 1
        return bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='stempy-vp-')
    try:
        return run(a, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(a, t0, scratch):
    r = Runner(a.prop, a.tier, a.seed, scratch)
    only = a.only
    if a.replay:
        only = json.load(open(a.replay))['sub']
    try:
        r.prepare(only)
    except B.BuildError as e:
        print(f'ERROR: cannot build: {e}', file=sys.stderr)
        return 2
    t_build = time.time() - t0
    subs = [s for s in r.mod.SUBS if only is None or s.name == only]

    if a.replay:
        rc, stats, case, tail = r.run_task(Task(subs[0], 'r', 0, 0, replay=[a.replay]))
        print(tail)
        print('replay result:', rc)
        if rc == 0:
            return 0
        print(f'VIOLATION property={a.prop} replay={a.replay}')
        return 1

    budget = 420 if a.tier == 'quick' else 6 * 3600
    deadline = time.time() + budget
    tasks = []
    corpus_count = 0
    cdir = os.path.join(VERIF, 'corpus', a.prop)
    corpus = collections.defaultdict(list)
    if os.path.isdir(cdir):
        for n in sorted(os.listdir(cdir)):
            p = os.path.join(cdir, n)
            corpus[json.load(open(p))['sub']].append(p)
    # Known findings: replayed to tell whether they still fail.
    known = known_findings(a.prop)
    known_paths = {}
    for e in known:
        if 'case' in e:
            p = os.path.join(scratch, f"known-{e['id']}.json")
            json.dump({'sub': e['sub'], 'case': e['case']}, open(p, 'w'))
            known_paths[e['id']] = p
    for s in subs:
        if corpus.get(s.name):
            tasks.append(Task(s, 'corpus', 0, 0, replay=corpus[s.name]))
            corpus_count += len(corpus[s.name])
        n = s.quick if a.tier == 'quick' else s.thorough
        n = max(1, int(n * a.scale))
        shards = s.shards if a.tier == 'quick' else max(s.shards, 4)
        shards = max(1, min(shards, n))
        for k in range(shards):
            # Seeds are decorrelated by family and shard.
            seed = (a.seed * 1000003 + sum(map(ord, s.name)) * 7919 + k * 104729) & 0x7fffffff
            tasks.append(Task(s, k, seed, -(-n // shards)))

    results = []
    failures = []
    errors = []
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(r.run_task, t, deadline): t for t in tasks}
        for f in concurrent.futures.as_completed(futs):
            t = futs[f]
            rc, stats, case, tail = f.result()
            results.append((t, rc, stats, case, tail))
            if FAST and rc != 0 and not r.stop:
                r.stop = True
                print(f'FAILED {a.prop}/{t.sub.name}: {tail} {stats and stats["fail"]}')
    if FAST:
        return int(r.stop)

    for t, rc, stats, case, tail in results:
        if rc == 0:
            continue
        if rc == 1 and stats and stats['fail']:
            failures.append((t, stats['fail']['case'], stats['fail']['error'], 'oracle'))
        elif case is not None and rc not in (2,):
            failures.append((t, case, f'worker ended with {rc}\n{tail}', 'crash'))
        else:
            errors.append((t, rc, tail))

    # Report each family once, smallest case first.
    verdicts = []
    unconfirmed = []
    seen = set()
    failures.sort(key=lambda x: len(json.dumps(x[1])))
    for t, case, error, kind in failures:
        if t.sub.name in seen:
            continue
        if kind == 'crash' and not t.replay:
            # Shrink by running every case in a child of its own.
            t2 = Task(t.sub, t.shard, t.seed, t.n, isolate=True)
            rc, stats, c2, tail = r.run_task(t2, time.time() + 150)
            if rc == 1 and stats and stats['fail']:
                if len(json.dumps(stats['fail']['case'])) <= len(json.dumps(case)):
                    case, error = stats['fail']['case'], stats['fail']['error'] + '\n' + error
        path = r.write_replay(t.sub, case, error)
        bad = r.confirm(t.sub, path)
        if bad == 0:
            unconfirmed.append((t, case, error))
            os.unlink(path)
            continue
        seen.add(t.sub.name)
        verdicts.append((t.sub, path, error, bad))

    known_lines = []
    for e in known:
        still = True
        if e['id'] in known_paths:
            sub = {s.name: s for s in r.mod.SUBS}[e['sub']]
            if only is None or sub.name == only:
                rc, *_ = r.run_task(Task(sub, 'known', 0, 0, replay=[known_paths[e['id']]]))
                still = rc != 0
        if still:
            known_lines.append(f"KNOWN-FINDING: property={a.prop} {e['what']}")

    # Evidence
    agg = {}
    total = 0
    hashes_all = 0
    samples = []
    for s in subs:
        labels = collections.Counter()
        kx = collections.Counter()
        ev = rej = sk = 0
        hs = set()
        for t, rc, stats, case, tail in results:
            if t.sub is not s or not stats:
                continue
            ev += stats['evaluations']
            rej += stats['rejected']
            sk += stats['skipped_deadline']
            hs.update(stats['hashes'])
            labels.update(stats['labels'])
            kx.update(stats['known_excluded'])
            for x in stats['samples'][:1]:
                if sum(1 for y in samples if y['family'] == s.name) < 2:
                    samples.append({'family': s.name, 'case': x})
        agg[s.name] = {'rule': s.rule, 'evaluations': ev, 'distinct_nontrivial': len(hs),
                       'rejected_outside_domain': rej, 'skipped_time_budget': sk,
                       'labels': dict(sorted(labels.items()))}
        if kx:
            agg[s.name]['excluded_known_findings'] = dict(kx)
        total += ev
        hashes_all += len(hs)
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total, 'distinct_nontrivial': hashes_all,
            'rule': ' | '.join(f'{s.name}: {s.rule}' for s in subs),
            'samples': samples or [{'note': 'none recorded'}],
            'families': agg, 'replayed_corpus_cases': corpus_count,
            'known_findings': known_lines,
            'unconfirmed': [{'family': t.sub.name, 'error': e[-1500:]} for t, c, e in unconfirmed],
            'violations': [{'family': s.name, 'replay': p, 'error': e[-3000:], 'failing_replays': b}
                           for s, p, e, b in verdicts],
        },
        'wall_s': round(time.time() - t0, 2),
        'build_s': round(t_build, 2),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ep = os.path.join(VERIF, 'evidence', a.prop + '.json')
    if only is None:
        with open(ep, 'w') as f:
            json.dump(ev, f, indent=1)

    for line in known_lines:
        print(line)
    for name, g in agg.items():
        print(f"{a.prop}/{name}: {g['evaluations']} cases, {g['distinct_nontrivial']} distinct "
              f"non-trivial, {g['skipped_time_budget']} skipped, {g['rejected_outside_domain']} rejected; "
              f"{json.dumps(g['labels'])[:600]}")
    for t, c, e in unconfirmed:
        print(f'UNCONFIRMED {a.prop}/{t.sub.name}: failed once, not on replay: {e[-800:]}')
    print(f'{a.prop}: {total} cases in {time.time() - t0:.1f} s (build {t_build:.1f} s)')
    if verdicts:
        for s, p, e, b in verdicts:
            print(f'--- {s.name} (failing replays: {b}/{s.replays})')
            print(e[-3000:])
        for s, p, e, b in verdicts:
            print(f'VIOLATION property={a.prop} replay={p}')
        return 1
    if errors:
        for t, rc, tail in errors:
            print(f'ERROR in {t.sub.name} shard {t.shard}: rc={rc}\n{tail}', file=sys.stderr)
        return 2
    return 0
