#!/usr/bin/env python3
"""decide.py PROP OUT.json [REPO]: generates the obligations of the functions a property depends on from the current sources
and discharges them.  Every function is verified in a process of its own; the callees it uses by contract are verified as
well, transitively."""
import sys, os, json, time, tempfile, shutil, re, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
import plan_names, prog, contract, contracts, ms, sobolw, sym, spec, lemmas, plan
from ir import Unsupported

P = None
ESC = [{}, dict(houdini=2400, hconf=5, timeout=20000)]


def one(name, opts):
    c = contract.REG.find(name)
    f = P.find(name)
    if f is None:
        return dict(name=name, status='missing', why='no such function in the sources')
    e = contract.Verifier(P, c.fl(), dict(opts))
    e.configure(c)
    t = time.time()
    try:
        e.verify(c, f)
    except (Unsupported, sym.Limit) as ex:
        return dict(name=name, status='unsupported', why=str(ex)[:500], s=round(time.time() - t, 2), used=sorted(e.used))
    failed, timeout, proved = [], [], 0
    for o in e.obl:
        r = sym.check(o.pc, o.qf, o.goal, o.hints, e, e.opts.get('timeout', 10000), e.stats)
        if r == 'proved':
            proved += 1
        else:
            (failed if r == 'failed' else timeout).append(dict(label=o.label, reason='no proof exists within the instantiation (solver: unknown, incomplete quantifiers)' if r == 'failed' else 'resource limit',
                                                              goal=str(o.goal)[:600], under=[str(x)[:200] for x in o.pc[-12:]]))
    st = 'proved' if not failed and not timeout else 'failed' if failed else 'timeout'
    if not e.obl:
        st, why = 'vacuous', 'no obligations'
    if st == 'proved':
        # vacuity: some way out of the function must not be contradictory
        live = 0
        for s in e.retstates[::-1][:6]:
            if sym.check(s.pc, s.qf, z3.BoolVal(False), [], e, 500, e.stats, configs=2) != 'proved':
                live += 1
                break
        if not live and not (e.reach['ret'] == 0 and e.reach['throw']):
            st = 'vacuous'
    return dict(name=name, status=st, obligations=len(e.obl), discharged=proved, failed=failed, timeout=timeout, queries=e.stats['queries'],
                solver_s=round(e.stats['solver_s'], 2), s=round(time.time() - t, 2), loops=e.stats['loops'], invariants=e.stats['invariants'],
                inlined=sorted(e.inlined), used=sorted(e.used), models=sorted(e.modelled), floats=type(e.fl).__name__, paths=e.reach, terminating=e.stats['terminating'], termination_not_shown=e.nonterm)


def task(a):
    name, k = a
    try:
        if name == '*lemmas':
            import io, contextlib
            t = time.time()
            with contextlib.redirect_stdout(io.StringIO()) as o:
                ok, tot = lemmas.main()
            bad = [l for l in o.getvalue().splitlines() if l.startswith('FAIL')]
            return dict(name=name, status='proved' if ok else 'timeout', obligations=tot, discharged=tot - len(bad), failed=[], timeout=[dict(label='lemma ' + b[:80]) for b in bad],
                        s=round(time.time() - t, 2), solver_s=round(time.time() - t, 2), queries=tot, used=[])
        if name.startswith('*'):
            return plan.SPECIAL[name](REPO, TMP)
        return one(name, ESC[k])
    except Exception as ex:
        import traceback
        return dict(name=name, status='unsupported', why=repr(ex)[:300] + traceback.format_exc()[-700:], used=[])


def decide(prop, repo='/repo', limit=600, procs=8):
    """-> list of results per function"""
    global P, REPO, TMP
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-ir-')
    REPO, TMP = repo, tmp
    try:
        prog.compile_ir(repo, tmp)
        P = prog.Prog(tmp)
        return discharge(prop, t0, limit, procs)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def discharge(prop, t0, limit, procs):
    pool = mp.get_context('fork').Pool(procs, maxtasksperchild=1)
    res, pend = {}, {}
    try:
        def sub(n, k=0):
            pend[n] = (pool.apply_async(task, ((n, k),)), k)
        fs = plan.PLAN.get(prop, [])
        for n in (['*lemmas'] if any(n[0] != '*' and not n.startswith('Sobol::') for n in fs) else []) + fs:
            sub(n)
        while pend:
            if time.time() - t0 > limit:
                for n in pend:
                    res.setdefault(n, dict(name=n, status='timeout', why='time limit of the run', used=[], timeout=[dict(label='time limit of the run')], failed=[]))
                break
            for n, (r, k) in list(pend.items()):
                if r.ready():
                    del pend[n]
                    x = r.get()
                    x['round'] = k
                    if x['status'] in ('failed', 'timeout') and not n.startswith('*') and k + 1 < len(ESC):
                        x['status0'] = x['status']
                        res[n] = x
                        sub(n, k + 1)
                    elif n in res and res[n]['status'] == 'failed' and x['status'] == 'unsupported':
                        pass
                    else:
                        res[n] = x
                    for u in x.get('used', []):
                        if u not in res and u not in pend:
                            sub(u)
            time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()
    return list(res.values()), round(time.time() - t0, 2)


if __name__ == '__main__':
    r, s = decide(sys.argv[1], sys.argv[3] if len(sys.argv) > 3 else '/repo', float(os.environ.get('VERIF_LIMIT', '600')))
    json.dump(dict(results=r, wall_s=s, z3=z3.get_version_string(), trusted=plan_names.ASSUMPTIONS), open(sys.argv[2], 'w'), indent=1)
    for x in r:
        print(x['status'], x['name'][:90], x.get('obligations'), x.get('s'), x.get('why', '')[:200], 'nonterm' if x.get('termination_not_shown') else '', [o['label'] for o in x.get('failed', []) + x.get('timeout', [])][:4])
    print('wall', s)
