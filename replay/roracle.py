"""roracle.py LIBDIR RLIB SEED SECONDS OUTFILE [CASEFILE]: the R functions against numpy and the Python functions (C15)"""
import sys, os, json, time, subprocess, tempfile, shutil
sys.path.insert(0, sys.argv[1])
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import humanleague as hl
import gen
from props import Fail, need, close, call, margins_match
HERE = os.path.dirname(os.path.abspath(__file__))


def rarr(x, rng=None):
    x = np.asarray(x)
    d = dict(dim=list(x.shape), data=x.flatten(order='F').tolist())
    if x.ndim == 1 and rng is not None and rng.random() < 0.5:
        d['plain'] = True
    return d


def unr(d, t=float):
    x = np.array(d['data'], t)
    return x.reshape(tuple(d['dim']), order='F')


def case(rng, i):
    f = ['ipf', 'qis', 'qisi', 'integerise', 'flatten', 'flatten', 'prob2IntFreq', 'sobol', 'bad'][i % 9]
    if f in ('ipf', 'qis', 'qisi'):
        s, idx, ms = gen.consistent(rng, rng.random() < 0.5, False, 4)
        while f == 'qisi' and ms[0].sum() > 300:
            s, idx, ms = gen.consistent(rng, rng.random() < 0.5, False, 4)
        c = dict(f=f, idx=[[d + 1 for d in g] for g in idx], ms=[rarr(m, rng) for m in ms], skips=int(rng.choice([0, 0, 3, 100])))
        if f != 'ipf':
            c['type'] = str(rng.choice(['int', 'num']))
        c['shape'] = list(s)
        seed = rng.random(s) + 0.05
        c['seed'] = rarr(seed)
        return c
    if f == 'bad':
        # a seed of the wrong shape, or an index list that does not fit
        s, idx, ms = gen.consistent(rng, False, False, 4)
        k = int(rng.integers(0, 3))
        sh = list(s)
        idx = [[d + 1 for d in g] for g in idx]
        if k == 0:
            sh[int(rng.integers(0, len(sh)))] += 1
        elif k == 1:
            sh.append(1)
        else:
            j = int(rng.integers(0, len(idx)))
            idx[j] = [d + 1 for d in idx[j]]
            if sorted(set(sum(idx, []))) == list(range(1, len(s) + 1)):
                sh[0] += 1
        return dict(f=str(rng.choice(['ipf', 'qisi'])), bad=True, idx=idx, ms=[rarr(m) for m in ms], seed=rarr(np.ones(sh)), skips=0)
    if f == 'integerise':
        s = gen.shape(rng, 2, 4, 5, 200)
        t = gen.table(rng, s, int(rng.integers(1, 150))).astype(float)
        if rng.random() < 0.7:
            # fractional cells, integral one-dimensional sums
            for _ in range(4):
                a, b = int(rng.integers(0, len(s))), int(rng.integers(0, len(s)))
                if a == b or s[a] < 2 or s[b] < 2:
                    continue
                p = [int(rng.integers(0, n)) for n in s]
                q = list(p)
                q[a] = (p[a] + 1) % s[a]
                q[b] = (p[b] + 1) % s[b]
                p1, q1 = list(p), list(q)
                p1[a], q1[a] = q[a], p[a]
                e = 0.37 * min(t[tuple(p)], t[tuple(q)])
                t[tuple(p)] -= e
                t[tuple(q)] -= e
                t[tuple(p1)] += e
                t[tuple(q1)] += e
        return dict(f=f, seed=rarr(t))
    if f == 'flatten':
        s = gen.shape(rng, 1, 4, 6)
        t = gen.table(rng, s, int(rng.integers(0, 120)))
        return dict(f=f, seed=rarr(t, rng), names=[f'n{k}' for k in range(len(s))])
    if f == 'prob2IntFreq':
        n = int(rng.integers(1, 8))
        p = rng.random(n) + 0.001
        p /= p.sum()
        return dict(f=f, p=p.tolist(), pop=int(rng.integers(0, 500)))
    return dict(f=f, dim=int(rng.integers(1, 7)), n=int(rng.integers(1, 40)), skips=int(rng.choice([0, 0, 1, 5, 1000])))


def check(c, r):
    f = c['f']
    if c.get('bad'):
        need('error' in r, f'R {f} accepted an ill-posed problem')
        return
    if f in ('ipf', 'qis', 'qisi'):
        idx = [[d - 1 for d in g] for g in c['idx']]
        ms = [unr(m) for m in c['ms']]
        seed = unr(c['seed'])
        mi = [m.astype(np.int64) for m in ms]
        pop = float(ms[0].sum())
    if f == 'ipf':
        k, py = call(hl.ipf, seed, idx, ms)
        need(('error' in r) == (k == 'exc'), f'R ipf: {r.get("error", "no error")}, python: {py if k == "exc" else "no error"}')
        if k == 'exc':
            return
        t = unr(r['result'])
        need(t.shape == tuple(c['shape']), 'R ipf: shape')
        need(abs(float(r['pop']) - pop) <= 1e-9 * (1 + pop), 'R ipf: population')
        if r['conv']:
            for g, m in zip(idx, ms):
                need(close(gen.marg(t, g), m, 1e-7, 1e-6), f'R ipf: converged but marginal {g} is not reproduced')
            if py[1]['conv']:
                need(close(t, py[0], 1e-4, 1e-4 * (1 + pop)), 'R ipf: result differs from python')
        return
    if f in ('qis', 'qisi'):
        args = (idx, mi, c['skips']) if f == 'qis' else (seed, idx, mi, c['skips'])
        k, py = call(getattr(hl, f), *args)
        if 'error' in r:
            # sampling of qisi, or of overlapping marginals, may fail for some orders of the dimensions
            dis = len(sum(idx, [])) == len(set(sum(idx, [])))
            need(not (f == 'qis' and dis and k == 'ok'), f'R qis fails: {r["error"]}')
            return
        t = unr(r['result'], np.int64)
        need(t.shape == tuple(c['shape']), f'R {f}: shape {t.shape}')
        need((t >= 0).all() and t.sum() == pop and float(r['pop']) == pop, f'R {f}: population')
        need(bool(r['conv']) == margins_match(t, idx, mi), f'R {f}: convergence flag {r["conv"]} does not agree with the marginals of the returned table')
        if k == 'ok':
            py1 = py[1]['expectation']
            e = unr(r['expectation'])
            tol = (1e-9, 1e-9) if f == 'qis' else (1e-4, 1e-4 * (1 + pop))
            if f == 'qis' or call(hl.ipf, seed, idx, ms)[1][1]['conv']:
                need(close(e, py1, *tol), f'R {f}: expectation differs from python')
        return
    if f == 'integerise':
        t = unr(c['seed'])
        k, py = call(hl.integerise, t)
        if k == 'exc' or 'error' in r:
            return
        x = unr(r['result'], np.int64)
        need(x.shape == t.shape and (x >= 0).all() and x.sum() == round(t.sum()), 'R integerise: shape or total')
        if r['conv']:
            for d in range(t.ndim):
                need(np.array_equal(gen.marg(x, [d]), np.rint(gen.marg(t, [d])).astype(np.int64)), f'R integerise: sums in dimension {d}')
        need(abs(float(r['rmse']) - np.sqrt(((x - t) ** 2).mean())) <= 1e-9 * (1 + t.sum()), 'R integerise: rmse')
        return
    need('error' not in r, f'R {f} fails: {r.get("error")}')
    if f == 'flatten':
        t = unr(c['seed'], np.int64)
        exp = [(np.repeat(g.flatten(), t.flatten()) + 1).tolist() for g in np.indices(t.shape)]
        cols = r['cols']
        got = [list(cols[n]) for n in c['names']] if isinstance(cols, dict) else [list(x) for x in cols]
        need(got == exp, f'R flatten: {got} instead of {exp}')
    elif f == 'prob2IntFreq':
        k, py = call(hl.integerise, np.array(c['p']), c['pop'])
        fr = np.array(r['freq'])
        if k == 'ok':
            need(fr.sum() == c['pop'] and (abs(fr - np.array(c['p']) * c['pop']) < 1 + 1e-9).all() and (fr >= 0).all(), 'R prob2IntFreq')
            need(abs(float(r['rmse']) - py[1]['rmse']) <= 1e-9 * (1 + c['pop']), 'R prob2IntFreq: rmse')
    elif f == 'sobol':
        it = hl.SobolSequence(c['dim'], c['skips']) if c['skips'] else hl.SobolSequence(c['dim'])
        exp = np.array([next(it) for _ in range(c['n'])])
        need(close(unr(r['result']), exp, 0, 0), 'R sobolSequence differs from python')


def run(rlib, cases, tmp):
    json.dump(cases, open(tmp + '/in', 'w'))
    p = subprocess.run(['Rscript', '--vanilla', HERE + '/roracle.R', rlib, tmp + '/in', tmp + '/out'], capture_output=True, text=True, timeout=300)
    lines = open(tmp + '/out').read().splitlines() if os.path.exists(tmp + '/out') else []
    return p, [json.loads(x) for x in lines]


def main():
    rlib, seed, secs, out = sys.argv[2:6]
    tmp = tempfile.mkdtemp()
    res = dict(n=0, distinct=0, samples=[], fail=None)
    try:
        if len(sys.argv) > 6:
            c = json.load(open(sys.argv[6]))['case']
            p, rs = run(rlib, [c], tmp)
            if len(rs) < 1:
                print('FAILS: R ended abnormally', p.returncode)
                return 1
            try:
                check(c, rs[0])
            except Fail as e:
                print('FAILS:', e)
                return 1
            print('holds')
            return 0
        t0, i, kinds = time.time(), 0, set()
        while time.time() - t0 < float(secs) and not res['fail']:
            cases = []
            for _ in range(180):
                cases.append(case(np.random.default_rng([int(seed), i]), i))
                i += 1
            p, rs = run(rlib, cases, tmp)
            os.path.exists(tmp + '/out') and os.unlink(tmp + '/out')
            if len(rs) < len(cases) and p.returncode >= 0 and 'caught segfault' not in p.stderr and 'corrupt' not in p.stderr:
                raise RuntimeError('R: ' + p.stderr[-2000:])
            for c, r in zip(cases, rs):
                res['n'] += 1
                kinds.add(json.dumps(c))
                try:
                    check(c, r)
                except Fail as e:
                    res['fail'] = dict(case=c, message=str(e))
                    break
            else:
                if len(rs) < len(cases):
                    res['fail'] = dict(case=cases[len(rs)], message=f'R crashed: {p.returncode} {p.stderr[-500:]}')
        res['distinct'] = len(kinds)
        res['samples'] = [json.loads(k) for k in list(kinds)[:200] if len(k) < 500][:3]
        json.dump(res, open(out, 'w'))
        return 0
    finally:
        shutil.rmtree(tmp)


sys.exit(main())
