#!/usr/bin/env python3-vt
"""Check driver: proves the obligations of one property and runs its witness search.

usage: check.py <property> [--tier quick|thorough] [--only TASK] [--debug]

Exit 0: every obligation generated from the current source was discharged and the witness search on the
real code found nothing.  Exit 1 with a VIOLATION line otherwise.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
VENV = '/opt/venv/bin/python'
NPROC = 8


def run_one(task, opts, conn):
    """Verify one task (in a process of its own)."""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    box = {}

    def body():
        try:
            from pyvc import api
            src = api.Source(os.path.join(REPO, 'src'))
            cross = None
            if opts['cross']:
                cross = CrossCheck()
            run = api.run_task(task, src, feas_ms=opts['feas_ms'], prove_ms=opts['prove_ms'],
                               deadline=time.time() + opts['task_s'], cross=cross, debug=opts['debug'])
            s = api.summarize(run)
            box['r'] = dict(
                obligations=s, fatal=run.fatal, unsupported=run.unsupported[:5], paths=run.npaths
                if hasattr(run, 'npaths') else 0, rounds=getattr(run, 'rounds', 0), wall=run.wall,
                solver_s=run.stats.solver_s, called=sorted(run.called), trusted=sorted(run.trusted),
                contracts=sorted(run.used_contracts), normal=run.normal_ends, covered=run.covered,
                loops=len(run.loopinfo), lists=dict(
                    confirmed=run.stats.confirmed, refused=run.stats.refused, seconds=round(run.stats.confirm_s, 2)), cross=cross.summary() if cross else None)
        except BaseException:
            box['r'] = dict(crash=traceback.format_exc()[-6000:])
    t = threading.Thread(target=body)
    t.start()
    t.join()
    r = box.get('r') or dict(crash='no result')
    conn.send(json.loads(json.dumps(r, default=str)))
    conn.close()


class CrossCheck:
    """Re-discharge of the proved obligations with cvc5."""

    def __init__(self, limit=150):
        self.n = self.ok = self.disagree = 0
        self.limit = limit

    def __call__(self, solver):
        if self.n >= self.limit:
            return
        self.n += 1
        from pyvc.cross import cvc5_unsat
        r = cvc5_unsat(solver)
        if r == 'unsat':
            self.ok += 1
        elif r == 'sat':
            self.disagree += 1

    def summary(self):
        return dict(tried=self.n, confirmed=self.ok, disagree=self.disagree)


def run_tasks(tasks, opts):
    ctx = mp.get_context('fork')
    todo = list(tasks)
    live, out = [], {}
    start, failed = time.time(), False
    while todo or live:
        late = time.time() - start
        if late > opts['total_s'] or (failed and late > opts['failed_s']):
            # no answer in time, or enough is known: the rest is reported as not verified
            why = dict(crash='not verified: ' + ('another obligation failed' if failed else 'time limit'))
            for t, p, a, t0 in live:
                p.kill()
                p.join()
                out[t.name] = why
            for t in todo:
                out[t.name] = why
            break
        while todo and len(live) < NPROC:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_one, args=(t, opts, b))
            p.start()
            b.close()
            live.append((t, p, a, time.time()))
        time.sleep(0.02)
        for it in list(live):
            t, p, a, t0 = it
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(crash='worker died')
            elif not p.is_alive():
                r = dict(crash='worker died')
            elif time.time() - t0 > opts['task_s'] + 30:
                r = dict(crash='time limit')
            if r is not None:
                if p.is_alive():
                    p.join(2)
                if p.is_alive():
                    p.kill()
                p.join()
                out[t.name] = r
                failed = failed or bool('crash' in r or r['fatal'] or r['unsupported'] or any(
                    o['status'] != 'proved' for o in r['obligations'].values()))
                live.remove(it)
    return out


class Oracle:
    """Witness search on the real code (subprocess of the repository's interpreter)."""

    def __init__(self, pid, budget, seed, timeout):
        path = os.path.join(HERE, 'oracles', pid + '.py')
        self.path = path if os.path.exists(path) else None
        self.p = None
        self.timeout = timeout
        self.t0 = time.time()
        if self.path:
            env = dict(os.environ, VERIF_SEED=str(seed), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       PYTHONPATH=os.path.join(REPO, 'src'), VERIF_REPO=REPO)
            self.p = subprocess.Popen([VENV, path, '--budget', str(budget), '--seed', str(seed)],
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True,
                                      cwd=HERE, start_new_session=True)

    def result(self):
        if not self.p:
            return None
        try:
            out, err = self.p.communicate(timeout=max(5, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(self.p.pid, signal.SIGKILL)
            out, err = self.p.communicate()
            return dict(error='the witness search did not end', out=out[-500:])
        try:
            return json.loads(out.strip().splitlines()[-1])
        except Exception:
            return dict(error='witness search failed', out=out[-500:], err=err[-6000:])


def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            if l.startswith(f'known: property={pid} '):
                out.append(l.strip().split(' ', 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--debug', action='store_true')
    ap.add_argument('--no-oracle', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    opts = dict(feas_ms=800 if thorough else 400, prove_ms=60000 if thorough else 15000,
                task_s=1500 if thorough else 330, total_s=9000 if thorough else 560,
                failed_s=9000 if thorough else 240, cross=thorough, debug=a.debug)
    opts['debug'] = a.debug
    orc = None
    if not a.no_oracle:
        orc = Oracle(pid, 400 if thorough else 45, seed, 900 if thorough else 150)
    res, load_error, cm = {}, None, None
    try:
        cm = importlib.import_module('contracts.' + pid)
        tasks = [t for t in cm.TASKS if not a.only or a.only in t.name]
        res = run_tasks(tasks, opts)
    except Exception:
        load_error = traceback.format_exc()[-6000:]
        tasks = []
    nob = nok = 0
    bad = []
    oblist = []
    solver_s = 0.0
    called, trusted, used = set(), set(), set()
    backends = {}
    if load_error:
        bad.append(dict(task='load', obligation='contracts load', status='error', detail=load_error))
    for t in tasks:
        r = res.get(t.name, dict(crash='no result'))
        if 'crash' in r:
            bad.append(dict(task=t.name, obligation='verification of ' + t.name, status='undecided',
                            detail=r['crash']))
            nob += 1
            continue
        solver_s += r['solver_s']
        called.update(r['called'])
        trusted.update(r['trusted'])
        used.update(r['contracts'])
        if r['fatal'] or r['unsupported']:
            nob += 1
            bad.append(dict(task=t.name, obligation=f'{t.name}: every path verified', status='undecided',
                            detail=r['fatal'] or r['unsupported']))
        if not r['obligations'] or (t.normal and not r['normal']) or not r['covered']:
            nob += 1
            bad.append(dict(task=t.name, obligation=f'{t.name}: not vacuous', status='undecided',
                            detail='no obligations, no completed path or no satisfiable path'))
        if r.get('cross') and r['cross']['disagree']:
            nob += 1
            bad.append(dict(task=t.name, obligation=f'{t.name}: back ends agree', status='undecided',
                            detail=r['cross']))
        for name, o in r['obligations'].items():
            nob += o['instances']
            nok += o['instances'] if o['status'] == 'proved' else max(0, o['instances'] - len(o['bad']))
            for h in o['how']:
                backends[h] = backends.get(h, 0) + 1
            oblist.append(dict(name=f'{t.name}: {name}', instances=o['instances'], status=o['status'],
                               back_end=o['how'], solver_s=o['t']))
            if o['status'] != 'proved':
                bad.append(dict(task=t.name, obligation=f'{t.name}: {name}', status=o['status'],
                                detail=o['bad']))
    t_proof = time.time() - t0
    w = orc.result() if orc else None
    if bad and orc and not (w and w.get('violation')):
        # a failed obligation: longer search for a failing input on the real code
        w2 = Oracle(pid, 900 if thorough else 200, seed + 1, 1200 if thorough else 300).result()
        if w2 and (w2.get('violation') or not w or w.get('error')):
            w = w2
    replay = os.path.join(HERE, 'evidence', f'{pid}-replay.json')
    code = 0
    for k in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {k}')
    viol = 0
    if os.path.exists(replay):
        os.remove(replay)
    if w and w.get('violation'):
        json.dump(dict(property=pid, kind='failing input', violation=w['violation'],
                       replay_cmd=f'{VENV} {HERE}/oracles/{pid}.py --replay {replay}',
                       failed_obligations=bad[:10]), open(replay, 'w'), indent=1, default=str)
        for b in bad[:5]:
            print(f"failed obligation: {b['obligation']} ({b['status']})")
        print(f'VIOLATION property={pid} replay={replay}')
        code, viol = 1, 1
    elif bad or (w and w.get('error')):
        if w and w.get('error'):
            bad.append(dict(task='witness search', obligation='witness search completes', status='undecided',
                            detail=w))
        json.dump(dict(property=pid, kind='failed obligation', failed_obligations=bad[:20]),
                  open(replay, 'w'), indent=1, default=str)
        for b in bad[:8]:
            print(f"failed obligation: {b['obligation']} ({b['status']})", str(b['detail'])[-1800:] if 'Traceback' in str(b['detail']) else str(b['detail'])[:1800])
        print(f'VIOLATION property={pid} replay={replay} no-failing-input-found')
        code, viol = 1, 1
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    except Exception:
        pass
    level = man.get(pid, {}).get('level', 'proof')
    under = sorted(c for c in called)
    ev = dict(
        property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level,
        coverage=dict(
            obligations=nob, discharged=nok,
            checker_cmd=f'python3-vt {HERE}/check.py {pid} --tier {tier}',
            trusted_base=sorted(trusted) + list(getattr(cm, 'TRUSTED', [])) + BASE,
            tasks=[dict(name=t.name, paths=res.get(t.name, {}).get('paths'),
                        loops_cut_by_invariants=res.get(t.name, {}).get('loops'),
                        wall_s=round(res.get(t.name, {}).get('wall', 0), 2)) for t in tasks],
            functions_under_contract=under,
            callee_contracts_used=sorted(used),
            obligations_by_name=oblist,
            back_ends=backends, solver_s=round(solver_s, 2),
            bounded=list(getattr(cm, 'BOUNDED', [])),
            list_theory={k: round(sum(r['lists'][k] for r in res.values() if r.get('lists')), 2)
                         for k in ('confirmed', 'refused', 'seconds')},
            cvc5={t.name: res[t.name]['cross'] for t in tasks if res.get(t.name, {}).get('cross')},
            evaluations=(w or {}).get('evaluations', 0), distinct_nontrivial=(w or {}).get('distinct', 0),
            rule=(w or {}).get('rule', 'no witness search'), samples=(w or {}).get('samples', []),
            explanation='obligations: proof obligations generated from the current source and discharged by'
                        ' the SMT back ends; evaluations: runs of the real code by the witness search'
                        ' (cross-check of the verifier, never counted as proof)'),
        assumptions=sorted(trusted) + list(getattr(cm, 'TRUSTED', [])) + BASE,
        wall_s=round(time.time() - t0, 2), violations=viol)
    if not nob:
        ev['coverage']['obligations'] = 0
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier}: {nok}/{nob} obligations discharged in {t_proof:.1f} s;'
          f' {(w or {}).get("evaluations", 0)} runs of the real code; {"VIOLATED" if code else "holds"}'
          f' ({time.time() - t0:.1f} s)')
    return code


BASE = [
    'pyvc: symbolic semantics of the Python subset (ints mathematical, strings sequences of characters,'
    ' attribute access of classes without metaclasses); cross-checked by the witness search on CPython',
    'Z3 (and cvc5 in the thorough tier) answer unsat only for unsatisfiable obligations',
]

if __name__ == '__main__':
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        rp = os.path.join(HERE, 'evidence', f'{pid}-replay.json')
        try:
            json.dump(dict(property=pid, kind='the check itself failed', detail=traceback.format_exc()),
                      open(rp, 'w'))
        except Exception:
            pass
        print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        sys.exit(1)
