#!/usr/bin/env python3
"""check.py PROP: decides one property on /repo's current tree.  Exit 0: it holds; exit 1 with a VIOLATION line: it does not."""
import sys, os, json, time, subprocess, tempfile, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
sys.path.insert(0, HERE + '/replay')
sys.path.insert(0, HERE)
import build

PY = build.PY
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
T = dict(quick=dict(secs=14, procs=4, hang=60), thorough=dict(secs=200, procs=7, hang=120))[TIER]


class Violation(Exception):
    def __init__(self, message, kind, case, sub=None):
        super().__init__(message)
        self.rec = dict(kind=kind, sub=sub, case=case, message=message)


def wait(p, t):
    try:
        return p.wait(timeout=t)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        return None


def popen(cmd, log):
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def workers(lib, sub, tmp, cov, secs=None, procs=None, maxn=10 ** 9, env=None):
    """random cases of oracle `sub` on the extension in lib"""
    secs, procs = secs or T['secs'], procs or T['procs']
    ps = []
    for k in range(procs):
        cur, out, log = (f'{tmp}/{sub}.{k}.{x}' for x in ('cur', 'out', 'log'))
        ps.append((popen([PY, HERE + '/replay/worker.py', lib, sub, str(SEED * 1000 + k), str(secs), str(maxn), cur, out], open(log, 'w')), cur, out, log))
    end = time.time() + secs + T['hang']
    bad = None
    for p, cur, out, log in ps:
        rc = wait(p, max(1, end - time.time()))
        if os.path.exists(out):
            r = json.load(open(out))
            cov['evaluations'] += r['n']
            cov['distinct_nontrivial'] += r['distinct']
            cov['samples'] += r['samples'][:1]
            if r['fail'] and not bad:
                bad = (r['fail']['message'], r['fail']['case'])
        elif not bad:
            case = None
            try:
                case = json.load(open(cur))
            except Exception:
                pass
            if rc is not None and rc > 0 or case is None:
                raise RuntimeError(f'worker {sub} ended with {rc}: ' + open(log, errors='replace').read()[-1500:])
            bad = ('the call never returned' if rc is None else f'the process was killed by signal {-rc}', case)
    if bad:
        # confirm from the recorded case alone
        f = f'{tmp}/confirm.json'
        json.dump(dict(case=bad[1]), open(f, 'w'))
        p = popen([PY, HERE + '/replay/worker.py', lib, sub, '0', '0', '0', tmp + '/c', tmp + '/o', f], open(tmp + '/clog', 'w'))
        rc = wait(p, T['hang'])
        if rc == 0:
            cov.setdefault('unconfirmed', []).append(dict(sub=sub, message=bad[0], case=bad[1]))
            if 'signal' not in bad[0]:
                return
        raise Violation(bad[0], 'python', bad[1], sub)


def c_driver(exe, args, tmp, cov, kind, limit):
    p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True,
                         env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0'))
    try:
        out = p.communicate(timeout=limit)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Violation('the driver does not terminate', kind, args)
    last = (out.strip().splitlines() or [''])[-1]
    if p.returncode == 0 and last.startswith('OK'):
        cov['evaluations'] += int(last.split()[1])
        cov['distinct_nontrivial'] += int(last.split()[1])
        cov['samples'].append(dict(driver=os.path.basename(exe), args=args))
        return
    m = [l for l in out.splitlines() if l.startswith('FAIL') or 'ERROR: AddressSanitizer' in l or 'runtime error' in l or 'terminate called' in l or 'what()' in l]
    raise Violation((m or [f'ended with {p.returncode}'])[0], kind, args)


def concrete(prop, tmp, cov):
    """the concrete oracles of a property; raises Violation"""
    if prop == 'C17':
        try:
            exe = build.cpp(tmp + '/arr', HERE + '/replay/arrays.cpp')
        except build.BuildError as e:
            cov.setdefault('skipped', []).append('arrays driver does not compile: ' + str(e)[-300:])
            lib = build.python(tmp + '/lib')
            workers(lib, 'C12', tmp, cov)
            return
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for r in [ex.submit(c_driver, exe, [str(SEED * 1000 + k), str(T['secs'])], tmp, cov, 'arrays', T['secs'] + 120) for k in range(T['procs'])]:
                r.result()
        return
    if prop in ('C10', 'C11'):
        try:
            exe = build.cpp(tmp + '/sob', HERE + '/replay/sobol.cpp', ('-O2',), False)
        except build.BuildError as e:
            exe = None
            cov.setdefault('skipped', []).append('sobol driver does not compile: ' + str(e)[-300:])
        if exe:
            c_driver(exe, [prop.lower(), '1' if prop == 'C10' or TIER == 'thorough' else '0', str(SEED)], tmp, cov, 'sobol', 500)
        if prop == 'C10':
            try:
                exe = build.cpp(tmp + '/sobt', HERE + '/replay/soboltab.cpp', ('-O2',), False, skip=('SobolImpl.cpp',))
            except build.BuildError as e:
                cov.setdefault('skipped', []).append('table driver does not compile: ' + str(e)[-300:])
            else:
                c_driver(exe, [str(SEED)], tmp, cov, 'soboltab', 300)
        lib = build.python(tmp + '/lib')
        workers(lib, prop, tmp, cov)
        if prop == 'C11':
            try:
                lib = build.python(tmp + '/lib2', [HERE + '/replay/sobolend.cpp'], ('SobolImpl.cpp',))
            except build.BuildError as e:
                cov.setdefault('skipped', []).append('end-of-sequence variant does not compile: ' + str(e)[-300:])
            else:
                workers(lib, 'C11E', tmp, cov, 3, 1, 40)
        return
    lib = build.python(tmp + '/lib')
    if prop == 'C15':
        rlib = build.rpkg(lib)
        out = tmp + '/r.out'
        p = popen([PY, HERE + '/replay/roracle.py', lib, rlib, str(SEED), str(T['secs'] * 2), out], open(tmp + '/r.log', 'w'))
        rc = wait(p, T['secs'] * 2 + 320)
        if rc != 0 or not os.path.exists(out):
            raise RuntimeError('R oracle: ' + open(tmp + '/r.log').read()[-1500:])
        r = json.load(open(out))
        cov['evaluations'] += r['n']
        cov['distinct_nontrivial'] += r['distinct']
        cov['samples'] += r['samples']
        if r['fail']:
            raise Violation(r['fail']['message'], 'R', r['fail']['case'])
        return
    workers(lib, prop, tmp, cov)


def deductive(prop, tmp):
    """starts the deductive verifier on the current sources"""
    return popen(['python3-vt', HERE + '/engine/decide.py', prop, tmp + '/proof.json'], open(tmp + '/proof.log', 'w'))


def proof_result(prop, p, tmp, limit, cov):
    """-> (status, definitively failed functions); fills in the coverage"""
    rc = wait(p, limit)
    if rc != 0 or not os.path.exists(tmp + '/proof.json'):
        cov['deductive'] = dict(status='no answer', why=open(tmp + '/proof.log', errors='replace').read()[-800:])
        return 'none', []
    d = json.load(open(tmp + '/proof.json'))
    rs = d['results']
    fns = [r for r in rs if not r['name'].startswith('*')]
    cov.update(obligations=sum(r.get('obligations', 0) for r in rs), discharged=sum(r.get('discharged', 0) for r in rs),
               checker_cmd=f'python3-vt engine/decide.py {prop} OUT.json', solver='z3 ' + d.get('z3', ''), solver_s=round(sum(r.get('solver_s', 0) for r in rs), 1),
               prover_wall_s=d['wall_s'], queries=sum(r.get('queries', 0) for r in rs), trusted_base=d.get('trusted', []),
               functions_under_contract={r['name']: dict(status=r['status'], obligations=r.get('obligations'), discharged=r.get('discharged'), loops=r.get('loops'), invariants=r.get('invariants'),
                                                         solver_s=r.get('solver_s'), floats=r.get('floats'), termination_not_shown=r.get('termination_not_shown'), why=r.get('why'),
                                                         open=[(o['label'], o.get('reason')) for o in r.get('failed', []) + r.get('timeout', [])][:20] or None) for r in fns},
               other_tasks={r['name']: r['status'] for r in rs if r['name'].startswith('*')},
               library_models=sorted({m for r in rs for m in r.get('models', [])}), inlined=sorted({m for r in rs for m in r.get('inlined', [])}))
    for r in fns:
        cov['functions_under_contract'][r['name']] = {k: v for k, v in cov['functions_under_contract'][r['name']].items() if v is not None}
    bad = [r for r in rs if r['status'] == 'failed' and r.get('expected', True)]
    if bad:
        return 'failed', bad
    if all(r['status'] == 'proved' for r in rs if r.get('expected', True)) and fns:
        return 'proved', []
    return 'open', []


def replay_file(prop, rec, n=0):
    d = HERE + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    f = f'{d}/{prop}-{n}.json'
    json.dump(dict(property=prop, **rec, rerun=f'cd /verif && python3 replay_case.py {f}'), open(f, 'w'), indent=1)
    return f


def level_of(prop):
    L = json.load(open(HERE + '/tools/levels.json'))
    return L['checks'].get(prop, L['default'])['level']


def main():
    prop = sys.argv[1]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='verif-')
    cov = dict(evaluations=0, distinct_nontrivial=0, samples=[], rule='bounded stand-in / replay search: random well-posed, degenerate and ill-posed problems from replay/gen.py; non-trivial and distinct: different generated cases')
    level, viol, rc = 'exploration', 0, 0
    prover = None
    try:
        import plan_names
        ded = prop in plan_names.DECIDED
        if ded:
            prover = deductive(prop, tmp)
        try:
            concrete(prop, tmp, cov)
            status, bad = proof_result(prop, prover, tmp, 620, cov) if ded else ('none', [])
            prover = None
            if status == 'proved' and level_of(prop) == 'proof':
                level = 'proof'
            if bad:
                print('obligations without a proof:', '; '.join(r['name'] + ': ' + ', '.join(o['label'] for o in r['failed'])[:300] for r in bad)[:900])
                # look longer for a failing input
                T.update(secs=min(4 * T['secs'], 200), procs=7)
                global SEED
                SEED += 7919
                concrete(prop, tmp, cov)
                viol, rc = 1, 1
                f = replay_file(prop, dict(kind='obligation', case=None, message='an obligation generated from the current sources has no proof',
                                           obligations=[dict(function=r['name'], failed=r['failed']) for r in bad], verifier_output=open(tmp + '/proof.log').read()[-6000:]))
                print(f'VIOLATION property={prop} replay={f} no-failing-input-found')
        except Violation as v:
            viol, rc = 1, 1
            f = replay_file(prop, v.rec)
            print('failing case:', str(v)[:600])
            print(f'VIOLATION property={prop} replay={f}')
        if not cov['samples']:
            cov['samples'] = ['none recorded']
        ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=plan_names.ASSUMPTIONS if ded else [], wall_s=round(time.time() - t0, 2), violations=viol)
        os.makedirs(HERE + '/evidence', exist_ok=True)
        json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
        print(f'{prop}: {"violated" if rc else "held"} ({level}); {cov.get("discharged", 0)}/{cov.get("obligations", 0)} obligations; {cov["evaluations"]} cases; {time.time() - t0:.0f} s')
    except build.BuildError as e:
        print('the sources do not build:', e)
        rc = 2
    finally:
        if prover is not None and prover.poll() is None:
            os.killpg(prover.pid, signal.SIGKILL)
            prover.wait()
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
