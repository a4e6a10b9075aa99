#!/opt/venv/bin/python
"""Decide one property: python check.py C01 [--tier quick|thorough]; python check.py --replay FILE."""
import logging
import os
os.environ['TQDM_DISABLE'] = '1'
logging.disable(logging.CRITICAL)
import argparse
import glob
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
os.environ.setdefault('PYTHONHASHSEED', '0')
for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(k, '1')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def engine():
    from symx import interp, harness, rand, graph, models  # noqa
    interp.ROOTS[:] = [os.path.join(REPO, 'src', 'sims_pars'), os.path.join(HERE, 'checks')]
    return harness


def load(pid):
    engine()
    return importlib.import_module('checks.' + pid.lower())


def run_unit(pid, tier, i, deadline):
    harness = engine()
    from symx import interp
    out = dict(i=i)
    t0 = time.time()
    try:
        mod = load(pid)
        u = mod.units(tier)[i]
        out['label'] = u.label
        r = harness.Run(u.fn, u.args, label=u.label, timeout_ms=u.timeout_ms, unwind=u.unwind,
                        deadline=min(deadline, time.time() + u.budget), max_paths=u.max_paths)
        r.explore()
        missing = [x for x in u.expect if x not in r.reached]
        if not r.violations and (r.inconclusive or r.unreproduced):
            # the verdict "holds" is lost; a failure that reproduces on the real code is still a failure
            r.probe()
        out.update(violations=r.violations, unreproduced=r.unreproduced, inconclusive=r.inconclusive, result=r.result(),
                   missing=missing, funcs=dict(interp.TRACE_FUNCS), validated=r.validated, bound=u.bound)
    except BaseException as ex:
        out.update(violations=[], unreproduced=[], inconclusive=['harness error %s: %s\n%s' % (
            type(ex).__name__, ex, traceback.format_exc()[-1500:])], result=dict(label=out.get('label')), missing=[],
            funcs={}, validated=0, bound='')
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def child(pid, tier, i, deadline, conn):
    try:
        import resource
        lim = int(os.environ.get('VERIF_MEM_GB', '6')) << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    conn.send(run_unit(pid, tier, i, deadline))
    conn.close()


def run_all(pid, tier, n, budget):
    """every unit in a process of its own, JOBS at a time"""
    ctx = mp.get_context('fork')
    deadline = time.time() + budget
    todo, live, done = list(range(n)), {}, {}
    while todo or live:
        while todo and len(live) < JOBS:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(pid, tier, i, deadline, b))
            p.start()
            b.close()
            live[i] = (p, a)
        for i, (p, a) in list(live.items()):
            res = None
            if a.poll(0.01):
                try:
                    res = a.recv()
                except EOFError:
                    res = None
                p.join(5)
            elif not p.is_alive() and not a.poll(0.05):
                res = None
            elif time.time() > deadline + 60:
                p.kill()
                p.join()
                res = None
            else:
                continue
            if res is None:
                res = dict(i=i, violations=[], unreproduced=[], inconclusive=['the unit ended without an answer (exit %s)' % p.exitcode],
                           result={}, missing=[], funcs={}, wall_s=0, validated=0, bound='')
            done[i] = res
            del live[i]
        if any(r['violations'] for r in done.values()) and len(done) >= min(n, JOBS):
            # enough to report; let what runs finish quickly
            todo = []
            deadline = min(deadline, time.time() + 20)
    return [done[i] for i in sorted(done)]


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                d = dict(x.split('=', 1) for x in l.split('|')[0].split()[1:] if '=' in x)
                out.append((d, l.split('|', 1)[-1].strip()))
    return out


def is_known(v, known):
    for d, what in known:
        if d.get('unit') == v['harness'].replace(' ', '_') and d.get('label', '').replace('_', ' ') in v['seen']:
            return what
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--unit', type=int)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay_file(a.replay)
    pid, tier = a.property, a.tier
    t0 = time.time()
    if a.list or a.unit is not None:
        import resource
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        mod = load(pid)
        us = mod.units(tier)
        if a.list:
            for i, u in enumerate(us):
                print(i, u.label, u.bound)
            return 0
        r = run_unit(pid, tier, a.unit, time.time() + 800)
        for k in ('label', 'wall_s', 'violations', 'unreproduced', 'inconclusive', 'missing', 'validated', 'result'):
            print(k, ':', r.get(k))
        return 0
    mod = load(pid)
    us = mod.units(tier)
    budget = getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 840)
    res = run_all(pid, tier, len(us), budget)
    viol = [v for r in res for v in r['violations']]
    known = known_findings(pid)
    unknown, seen_known = [], []
    for v in viol:
        w = is_known(v, known)
        (unknown if w is None else seen_known).append((v, w))
    bad = []
    for r in res:
        for x in r['unreproduced']:
            bad.append('%s: counterexample does not reproduce: %s' % (r.get('label'), x))
        for x in r['inconclusive']:
            bad.append('%s: inconclusive: %s' % (r.get('label'), x))
        for x in r['missing']:
            bad.append('%s: vacuous: never reached "%s"' % (r.get('label'), x))
    files = []
    os.makedirs(EVID, exist_ok=True)
    for f in glob.glob(os.path.join(EVID, 'replay-%s-*.json' % pid)):
        os.remove(f)
    first = {}
    for v, w in unknown:
        first.setdefault(v['seen'], (v, w))
    for k, (v, _) in enumerate(list(first.values())[:5]):
        f = os.path.join(EVID, 'replay-%s-%d.json' % (pid, k))
        i = [r['i'] for r in res if v in r['violations']][0]
        json.dump(dict(property=pid, tier=tier, unit=i, **v), open(f, 'w'), indent=1, default=str)
        files.append((f, v))
    evidence(pid, tier, res, unknown, seen_known, bad, time.time() - t0, mod)
    for v, w in {w: v for v, w in seen_known}.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, v))
    for f, v in files:
        print('VIOLATION property=%s replay=%s' % (pid, f))
        print('  %s: %s' % (v['harness'], v['seen']))
        print('  inputs: %s' % json.dumps(v['values'], default=str)[:800])
    st = [r['result'] for r in res]
    print('%s %s: %d units, %d paths, %d obligations, %d queries, solver %.1f s, wall %.1f s' % (
        pid, tier, len(res), sum(s.get('paths', 0) for s in st), sum(s.get('obligations', 0) for s in st),
        sum(s.get('queries', 0) for s in st), sum(s.get('solver_s', 0) for s in st), time.time() - t0))
    if a.v:
        for r in res:
            print('  %-50s %6.1f s  %s' % (r.get('label'), r['wall_s'], {k: v for k, v in r['result'].items() if k in (
                'paths', 'queries', 'solver_s', 'obligations')}))
    if unknown:
        return 1
    if bad:
        print('INCONCLUSIVE property=%s' % pid)
        for b in bad[:12]:
            print('  ' + b[:1500])
        return 2
    return 0


def evidence(pid, tier, res, unknown, seen_known, bad, wall, mod):
    funcs = {}
    for r in res:
        for k, n in r['funcs'].items():
            if k.startswith('sims_pars'):
                funcs[k] = funcs.get(k, 0) + n
    st = [r['result'] for r in res]
    src = hashlib.sha256()
    for root, _, fs in sorted(os.walk(os.path.join(REPO, 'src', 'sims_pars'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                src.update(open(os.path.join(root, f), 'rb').read())
    tot = lambda k: sum(s.get(k, 0) or 0 for s in st)
    cov = dict(
        explanation='Bounded symbolic execution: the functions listed are interpreted from their current source with symbolic '
                    'inputs; each obligation is decided by Z3 for all inputs within the bounds, and every counterexample is '
                    'replayed on the real code before it is reported.',
        functions_encoded=funcs,
        units=[dict(unit=r.get('label'), bound=r.get('bound'), wall_s=r['wall_s'], reached=r['result'].get('reached'),
                    paths=r['result'].get('paths'), queries=r['result'].get('queries'), solver_s=r['result'].get('solver_s'),
                    obligations=r['result'].get('obligations'), discharged=r['result'].get('discharged'),
                    by_label=r['result'].get('obligations_by_label'), models_replayed_and_held=r.get('validated')) for r in res],
        bounds=getattr(mod, 'BOUNDS', ''),
        outside=getattr(mod, 'OUTSIDE', ''),
        totals=dict(paths=tot('paths'), queries=tot('queries'), obligations=tot('obligations'), discharged=tot('discharged'),
                    solver_s=round(tot('solver_s'), 2), native_replays_of_solver_models=sum(r.get('validated') or 0 for r in res)),
        source_sha256=src.hexdigest(), inconclusive=bad,
        violations_found=[dict(label=v['label'], seen=v['seen'], unit=v['harness'], known=w) for v, w in unknown + seen_known])
    d = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
             assumptions=list(getattr(mod, 'ASSUMPTIONS', [])), wall_s=round(wall, 2),
             violations=len(unknown))
    json.dump(d, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1, default=str)


def replay_file(path):
    harness = engine()
    d = json.load(open(path))
    mod = load(d['property'])
    u = mod.units(d['tier'])[d['unit']]
    ok, what = harness.replay(u.fn, u.args, d['values'], d['draws'])
    print('%s: %s' % (u.label, what))
    if ok:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
