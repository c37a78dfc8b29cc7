#!/usr/bin/env python
"""check.py <property> [--tier quick|thorough]   decide one property
   check.py --replay <file>                      re-run a recorded counterexample"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, HERE)
REPO = os.environ.get('SYMX_REPO', '/repo')
sys.path.insert(0, REPO)

from symx import harness as H      # noqa: E402
from symx import smt               # noqa: E402

PROPS = {json.loads(l)['id']: json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))}


def load_prop(pid):
    importlib.import_module('props.' + pid.lower())
    return H.REG.get(pid, [])


def preload():
    """import the real package before forking, so replays start fast"""
    import numpy, scipy, scipy.sparse, scipy.sparse.linalg, scipy.linalg, scipy.stats, scipy.spatial  # noqa
    import paramz  # noqa
    for m in ('models.interpolated_llgp', 'models.optimization', 'lmc.likelihood', 'lmc.grid_kernel',
              'approx.iterative', 'approx.interpolation', 'kern.rbf', 'kern.scaled', 'kern.identity',
              'kern.matern32', 'kern.std_periodic', 'mean.constant', 'mean.zero'):
        try:
            importlib.import_module('runlmc.' + m)
        except Exception:
            pass


def worker(rfd, wfd, tasks):
    smt.reset_procs()
    while True:
        hdr = os.read(rfd, 4)
        if len(hdr) < 4:
            break
        i = int.from_bytes(hdr, 'big')
        name, fn, cfg, opts, budget, prof = tasks[i]
        try:
            r = H.decide(fn, cfg, opts, budget, profile=prof)
            r.pop('models', None)
            if r.get('model'):
                r['model'] = {k: float(v) for k, v in r['model'].items()}
        except BaseException as e:
            import traceback
            r = dict(status='undecided', detail='checker error %r' % (e,), trace=traceback.format_exc(limit=-6),
                     asserts=0, paths=0, stats={}, functions=[], replays=[], notes=[], time=0)
        data = pickle.dumps((i, r))
        data = len(data).to_bytes(4, 'big') + data
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    smt.close_procs()
    os._exit(0)


def run_tasks(tasks, nproc, deadline, stop_early=True, listed=lambda t, r: False):
    results = [None] * len(tasks)
    pending = sorted(range(len(tasks)), key=lambda i: -tasks[i][3].get('weight', 1))
    procs = {}

    def spawn():
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            for p in procs.values():
                for fd in p['fds']:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            os.close(w1)
            os.close(r2)
            os.setpgid(0, 0)
            try:
                worker(r1, w2, tasks)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        procs[pid] = dict(w=w1, r=r2, task=None, end=0, fds=(w1, r2), buf=b'')
        return pid

    def kill(pid):
        p = procs.pop(pid)
        for s in (signal.SIGKILL,):
            try:
                os.killpg(pid, s)
            except OSError:
                pass
            try:
                os.kill(pid, s)
            except OSError:
                pass
        for fd in p['fds']:
            os.close(fd)
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass

    for _ in range(min(nproc, len(tasks))):
        spawn()
    viol = False
    unsure = {}
    while True:
        for pid, p in list(procs.items()):
            if p['task'] is None and pending and not (viol and stop_early) and time.time() < deadline:
                # harnesses that came out undecided before go last
                i = min(pending, key=lambda j: max(0, unsure.get(tasks[j][0], 0) - 1))
                pending.remove(i)
                p['task'] = i
                p['end'] = time.time() + tasks[i][4] * 2 + tasks[i][3].get('grace', 240)
                os.write(p['w'], i.to_bytes(4, 'big'))
        busy = {p['r']: pid for pid, p in procs.items() if p['task'] is not None}
        if not busy:
            break
        rr, _, _ = select.select(list(busy), [], [], 1.0)
        for fd in rr:
            pid = busy[fd]
            p = procs[pid]
            ch = os.read(fd, 1 << 20)
            if not ch:
                results[p['task']] = dict(status='undecided', detail='worker died')
                kill(pid)
                spawn()
                continue
            p['buf'] += ch
            if len(p['buf']) >= 4:
                n = int.from_bytes(p['buf'][:4], 'big')
                if len(p['buf']) >= 4 + n:
                    i, r = pickle.loads(p['buf'][4:4 + n])
                    p['buf'] = p['buf'][4 + n:]
                    results[i] = r
                    p['task'] = None
                    if r['status'] == 'undecided':
                        unsure[tasks[i][0]] = unsure.get(tasks[i][0], 0) + 1
                    if r['status'] == 'violation' and not listed(tasks[i], r):
                        viol = True
        now = time.time()
        for pid, p in list(procs.items()):
            if p['task'] is not None and (now > p['end'] or now > deadline or (viol and stop_early and now > p['end'])):
                results[p['task']] = dict(status='undecided', detail='time limit')
                kill(pid)
                spawn()
            elif p['task'] is not None and viol and stop_early:
                results[p['task']] = dict(status='not run', detail='stopped after a violation')
                kill(pid)
    for pid in list(procs):
        kill(pid)
    for i, r in enumerate(results):
        if r is None:
            results[i] = dict(status='not run' if viol else 'undecided', detail='not run')
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('-k', default=None, help='only harnesses whose name contains this')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        for n, fn, cf, th, op in load_prop(d['property']):
            if n == d['harness']:
                if d.get('tol'):
                    op = dict(op, tol=d['tol'])
                r = H.run_concrete(fn, d['config'], d['env'], d['seed'], op, False)
                print(r[0], r[1])
                return 1 if r[0] in ('fail', 'error') else 0
        print('no such harness')
        return 2
    pid = a.prop
    t0 = time.time()
    regs = load_prop(pid)
    tier = a.tier
    total = 700 if tier == 'quick' else 5400
    tasks = []
    for n, fn, cf, th, op in regs:
        if a.k and a.k not in n:
            continue
        op = dict(op)
        cfgs = list(cf) + (list(th) if tier == 'thorough' else [])
        b = op.get('budget', 60) * (1 if tier == 'quick' else 4)
        if tier == 'thorough':
            op['max_paths'] = op.get('max_paths', 400) * 4
            op['timeout'] = op.get('timeout', 10.0) * 4
        for j, c in enumerate(cfgs):
            tasks.append((n, fn, c, op, b, j == 0))
    preload()
    known = []
    kf = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)).get('known', []) if k['property'] == pid]

    def listed(t, r):
        return [k for k in known if k['harness'] == t[0] and (k.get('config') is None or k['config'] == t[2]) and
                k.get('match', '') in (r.get('detail') or '')]
    res = run_tasks(tasks, a.jobs, t0 + total, listed=listed)
    bad = []
    printed = set()
    for (n, fn, c, op, b, pf), r in zip(tasks, res):
        if a.v or r['status'] == 'undecided':
            print('%-10s %s %s %.1fs %s %s' % (r['status'], n, json.dumps(c, default=str), r.get('time', 0),
                                               (r.get('detail') or '')[:1500], r.get('stats', '') if a.v else ''))
            if r.get('trace') and (a.v or r['status'] == 'undecided'):
                print(r['trace'])
            if r.get('validation_note'):
                print('   validation note:', r['validation_note'])
        if r['status'] == 'violation':
            hit = listed((n, fn, c), r)
            if hit:
                if hit[0]['what'] not in printed:
                    printed.add(hit[0]['what'])
                    print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
                r['status'] = 'known'
            else:
                bad.append((n, c, r))
    cnt = lambda s: sum(1 for r in res if r['status'] == s)
    funcs = sorted({f for r in res for f in r.get('functions', [])})
    agg = {}
    for r in res:
        for k, v in (r.get('stats') or {}).items():
            agg[k] = round(agg.get(k, 0) + v, 3)
    rc = 1 if bad else 0
    from evidence import write_evidence
    if not a.no_evidence and not a.k:
        write_evidence(HERE, PROPS[pid], tier, tasks, res, funcs, agg, time.time() - t0, bad)
    print('%s: %d harness runs: %d held, %d undecided, %d violated; %d paths, %d assertions, %d solver queries '
          '(%.1f s solver time), %d replays; %.1f s' % (
              pid, len(tasks), cnt('held'), cnt('undecided'), len(bad), sum(r.get('paths', 0) for r in res),
              sum(r.get('asserts', 0) for r in res), agg.get('queries', 0), agg.get('solver_time_s', 0),
              sum(len(r.get('replays', [])) for r in res), time.time() - t0))
    if bad:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for n, c, r in bad[:5]:
            p = os.path.join(HERE, 'replays', '%s-%s-%s.json' % (
                pid, n, hashlib.sha1(json.dumps(c, sort_keys=True, default=str).encode()).hexdigest()[:8]))
            with open(p, 'w') as fh:
                json.dump(dict(property=pid, harness=n, config=c, env=r.get('env', {}), seed=r.get('seed', 0),
                               inputs=r.get('used', {}), what=r['detail'], found_by=r.get('found_by'),
                               tol=1e-8 if r.get('low_precision') else None),
                          fh, indent=1, default=str)
            print('  %s %s\n  %s' % (n, json.dumps(c, default=str), r['detail'][:800]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    rc = main()
    smt.close_procs()
    sys.stdout.flush()
    os._exit(rc)
