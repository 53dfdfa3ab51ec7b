#!/opt/venv/bin/python
"""check.py <property> [quick|thorough] [--case SUBSTR]: decide one property on /repo's current tree."""
import json
import multiprocessing as mp
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
VERIF = os.path.dirname(os.path.abspath(__file__))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
sys.path.insert(0, VERIF)
sys.path.append(VT)


def worker(conn, pid, modname, case, deadline, known):
    import resource
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    os.chdir('/tmp')
    from sx import harness
    out = []
    try:
        first = 'only' if case.get('opts', {}).get('reduced_only') else None
        modes = [True] if first else [False]
        while modes:
            red = modes.pop(0)
            r = harness.explore(pid, modname, case, red, deadline, known)
            out.append(r)
            if not red and (r['inconclusive'] or r['mismatches']) and not r['violations'] \
                    and case.get('opts', {}).get('reduced'):
                modes.append(True)
                deadline = max(deadline, time.time() + 150)
    except MemoryError:
        out.append(dict(case=case['name'], error='out of memory'))
    except BaseException as e:
        import traceback
        out.append(dict(case=case['name'], error='%s: %s' % (type(e).__name__, e), tb=traceback.format_exc()))
    conn.send(out)
    conn.close()
    os._exit(0)


def run_cases(pid, modname, cases, budget, known, jobs=8, total=None):
    ctx = mp.get_context('fork')
    todo = list(cases)
    todo.sort(key=lambda c: -c.get('opts', {}).get('cost', 1))
    live = []
    results = []
    t0 = time.time()
    stop = False
    while todo or live:
        while todo and len(live) < jobs and not stop:
            # one slot takes the cheap cases, so slow ones never keep them from running
            low = len(live) == jobs - 1 and not any(t[4] for t in live)
            case = todo.pop(-1 if low else 0)
            a, b = ctx.Pipe(False)
            limit = case.get('opts', {}).get('time_s', budget)
            if total:
                left = t0 + total - time.time()
                if left < 20:
                    results.append(dict(case=case['name'], error='not started: time limit of the tier'))
                    continue
                limit = min(limit, left)
            p = ctx.Process(target=worker, args=(b, pid, modname, case, time.time() + limit, known))
            p.start()
            b.close()
            live.append((p, a, case, min(time.time() + limit * 1.5 + 260, t0 + total + 60 if total else 1e18), low))
        if stop and todo:
            todo = []
        for t in live[:]:
            p, a, case, hard, low = t
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = [dict(case=case['name'], error='worker died')]
            elif not p.is_alive():
                got = [dict(case=case['name'], error='worker died (exit %s)' % p.exitcode)]
            elif time.time() > hard:
                p.kill()
                got = [dict(case=case['name'], error='hard time limit')]
            if got is not None:
                live.remove(t)
                p.join()
                results += got
                if any(r.get('violations') for r in got):
                    stop = True
        if stop and live and time.time() - t0 > 1:
            # a confirmed violation is enough: give the others a moment, then stop them
            if not hasattr(run_cases, 'grace'):
                run_cases.grace = time.time() + 10
            if time.time() > run_cases.grace:
                for p, a, case, hard, low in live:
                    p.kill()
                    p.join()
                live = []
    return results


def main():
    args = [a for a in sys.argv[1:]]
    sub = None
    if '--case' in args:
        i = args.index('--case')
        sub = args[i + 1]
        del args[i:i + 2]
    verbose = '-v' in args
    args = [a for a in args if a != '-v']
    pid = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    import importlib
    modname = pid.lower()
    mod = importlib.import_module('checks.' + modname)
    cases = mod.cases(tier)
    names = [c['name'] for c in cases]
    assert len(set(names)) == len(names), 'duplicate case names'
    if sub:
        cases = [c for c in cases if sub in c['name']]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 240 if tier == 'quick' else 2400)
    kf = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    known = [k for k in kf if k.get('status') == 'known']
    # warm up what every worker needs before forking
    import numpy, scipy.stats, bitstring, z3  # noqa
    from sx import harness, lift, core, models, npmodel  # noqa
    results = run_cases(pid, modname, cases, budget, known, total=640 if tier == 'quick' else None)
    wall = time.time() - t0
    bad = []
    open_ = []
    viol = []
    notes = []
    bycase = {}
    for r in results:
        bycase.setdefault(r['case'], []).append(r)
    knownseen = []
    for cs in cases:
        rs = bycase.get(cs['name'], [])
        for r in rs:
            if r.get('error'):
                notes.append('%s: %s' % (cs['name'], r['error']))
                if verbose:
                    print(r.get('tb', ''))
            viol += r.get('violations', [])
            knownseen += r.get('known', [])
            for i in sorted(set(r.get('inconclusive', []))):
                notes.append('%s%s: inconclusive path(s) x%d: %s' % (cs['name'], ' [reduced]' if r['reduced'] else '',
                                                                  r['inconclusive'].count(i), i))
            for i in sorted(set(r.get('mismatches', []))):
                notes.append('%s: encoding/implementation mismatch x%d: %s' % (cs['name'], r['mismatches'].count(i), i))
            if r.get('leftover'):
                notes.append('%s: %d path prefixes left unexplored' % (cs['name'], r['leftover']))
        if not rs:
            continue
        dec = sum(r.get('decided', 0) for r in rs)
        ck = sum(r.get('checks', 0) for r in rs)
        if not any(r.get('violations') for r in rs):
            if (dec == 0 or ck == 0) and not cs['opts'].get('optional'):
                open_.append('%s: nothing decided' % cs['name'])
            whole = all(not r.get('error') and not r.get('leftover') and not r.get('inconclusive') for r in rs)
            for w in cs.get('opts', {}).get('reach', []):
                if whole and not any(r.get('reach', {}).get(w) for r in rs):
                    bad.append('%s: situation %r never reached' % (cs['name'], w))
    # a few undecided cases are reported (and listed in the evidence); with most of them undecided there is no answer
    if 2 * len(open_) > len([c for c in cases if not c['opts'].get('optional')]):
        bad += open_
    else:
        notes += open_
    if verbose:
        for r in sorted(results, key=lambda r: r['case']):
            print({k: v for k, v in r.items() if k not in ('functions', 'sources', 'samples', 'labels')})
    good = [r for r in results if not r.get('error')]
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              wall_s=round(wall, 2), violations=len(viol),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + [
                  'floats that range over intervals are encoded as reals; tolerances in float comparisons are stated in the '
                  'harness', 'numpy/scipy/bitstring/struct primitives are modelled by sx/ and cross-checked per path against '
                  'the real libraries'],
              coverage=dict(
                  states=sum(r['paths'] for r in good), transitions=sum(r['branches'] for r in good),
                  traces_validated_against_impl=sum(r['validated'] for r in good),
                  samples=[s for r in good for s in r['samples']][:8] or [dict(note='none')],
                  bounds=getattr(mod, 'BOUNDS', {}).get(tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
                  outside=getattr(mod, 'OUTSIDE', ''),
                  functions_encoded=sorted(set(f for r in good for f in r['functions'])),
                  sources={n: s[1] for r in good for n, s in r['sources'].items()},
                  paths_decided=sum(r['decided'] for r in good), paths_infeasible=sum(r['aborted'] for r in good),
                  assertions=sum(r['checks'] for r in good), queries=sum(r['queries'] for r in good),
                  queries_unsat=sum(r['unsat'] for r in good), queries_sat=sum(r['sat'] for r in good),
                  queries_unknown=sum(r['unknown'] for r in good), solver_s=round(sum(r['solver_s'] for r in good), 2),
                  inconclusive_paths=sum(len(r['inconclusive']) for r in good),
                  unexplored_prefixes=sum(r['leftover'] for r in good), notes=notes,
                  cases=[dict(name=r['case'], reduced=r['reduced'], paths=r['paths'], decided=r['decided'],
                              queries=r['queries'], solver_s=round(r['solver_s'], 2), wall_s=round(r['wall_s'], 2),
                              assertions=r['labels']) for r in sorted(good, key=lambda r: r['case'])]))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not sub:
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    for n in notes:
        print('NOTE', n)
    for k in kf:
        if k['property'] == pid and k.get('status') == 'known' and k['id'] in knownseen:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    cov = ev['coverage']
    print('%s %s: %d cases, %d paths (%d decided), %d assertions, %d queries (%d unsat), solver %.1fs, wall %.1fs' % (
        pid, tier, len(cases), cov['states'], cov['paths_decided'], cov['assertions'], cov['queries'],
        cov['queries_unsat'], cov['solver_s'], wall))
    if viol:
        for v in viol:
            print('  %s: %s inputs=%s' % (v['case'], v['label'], json.dumps(v['inputs'], default=str)[:600]))
            print('VIOLATION property=%s replay=%s' % (pid, v['replay']))
        return 1
    if bad:
        for b in bad:
            print('NO-ANSWER', b)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
