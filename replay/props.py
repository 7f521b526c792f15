"""Concrete oracles: one generator and one checker per property, run against the real extension module."""
import math, gc, itertools
import numpy as np
import gen

hl = None   # the module under test, set by worker.py


def A(x, t=np.int64):
    return np.array(x, dtype=t)


def L(x):
    return np.asarray(x).tolist()


class Fail(Exception):
    pass


def need(c, msg):
    if not c:
        raise Fail(msg)


def call(f, *a):
    """('ok', result) or ('exc', text); anything that is not an exception of the function propagates"""
    try:
        return 'ok', f(*a)
    except Fail:
        raise
    except Exception as e:   # noqa
        return 'exc', f'{type(e).__name__}: {e}'


def close(a, b, rel=1e-9, ab=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= ab + rel * np.maximum(np.abs(a), np.abs(b))))


def margins_match(t, idx, ms):
    return all(np.array_equal(gen.marg(t, g), m) for g, m in zip(idx, ms))


# ------------------------------------------------------------------ C01 / C02 / C03
SKIPS = [0, 0, 0, 1, 2, 3, 5, 64, 1000, 65535, 1 << 17]


def gen_qis(rng, i, disjoint):
    big = rng.random() < 0.04
    s, idx, ms = gen.consistent(rng, disjoint, big)
    return dict(shape=list(s), idx=idx, ms=[L(m) for m in ms], skips=int(rng.choice(SKIPS)))


def g01(rng, i):
    return gen_qis(rng, i, rng.random() < 0.3)


def check_pop(t, stats, s, idx, ms, what):
    pop = int(ms[0].sum())
    need(isinstance(t, np.ndarray) and t.shape == tuple(s), f'{what}: shape {getattr(t, "shape", None)} instead of {tuple(s)}')
    need(t.dtype.kind == 'i', f'{what}: not integers')
    need((t >= 0).all(), f'{what}: negative entry')
    need(int(t.sum()) == pop, f'{what}: entries add up to {int(t.sum())}, population is {pop}')
    need(stats['pop'] == pop, f'{what}: reported population {stats["pop"]}, should be {pop}')
    mm = margins_match(t, idx, ms)
    need(bool(stats['conv']) == mm, f'{what}: convergence flag {stats["conv"]} but marginals {"match" if mm else "do not match"}')


def c01(c):
    ms = [A(m) for m in c['ms']]
    k, r = call(hl.qis, c['idx'], ms, c['skips'])
    if k == 'exc':
        return
    check_pop(r[0], r[1], c['shape'], c['idx'], ms, 'qis')


def g02(rng, i):
    return gen_qis(rng, i, True)


def c02(c):
    ms = [A(m) for m in c['ms']]
    k, r = call(hl.qis, c['idx'], ms, c['skips'])
    need(k == 'ok', f'qis failed on non-overlapping marginals: {r}')
    check_pop(r[0], r[1], c['shape'], c['idx'], ms, 'qis')
    need(bool(r[1]['conv']), 'qis did not converge on non-overlapping marginals')


def g03(rng, i):
    big = rng.random() < 0.03
    if big:
        s = gen.shape(rng, 2, 4, 8, 600)
        t = gen.table(rng, s, 800)
        idx = gen.cover(rng, len(s), rng.random() < 0.5)
        ms = [gen.marg(t, g) for g in idx]
    else:
        s, idx, ms = gen.consistent(rng, rng.random() < 0.5, False, 4)
        while int(ms[0].sum()) > 250:
            s, idx, ms = gen.consistent(rng, rng.random() < 0.5, False, 4)
    seed = rng.random(s) + 0.05
    if rng.random() < 0.3:
        seed = np.ones(s)
    if rng.random() < 0.3:
        seed[rng.random(s) < 0.25] = 0
    return dict(shape=list(s), idx=idx, ms=[L(m) for m in ms], seed=L(seed), skips=int(rng.choice([0, 0, 1, 5, 100])))


def c03(c):
    ms = [A(m) for m in c['ms']]
    k, r = call(hl.qisi, A(c['seed'], float), c['idx'], ms, c['skips'])
    if k == 'exc':
        return
    check_pop(r[0], r[1], c['shape'], c['idx'], ms, 'qisi')


# ------------------------------------------------------------------ C04 / C05
def gen_ipf(rng, i, weird):
    s = gen.shape(rng, 2, 4, 5)
    t = gen.table(rng, s, int(rng.choice([1, 10, 100, 1000]))).astype(float)
    if rng.random() < 0.5:
        t = t + rng.random(s)
        t *= round(t.sum()) / t.sum()
    idx = gen.cover(rng, len(s), rng.random() < 0.4)
    ms = [gen.marg(t, g) for g in idx]
    k = rng.integers(0, 5)
    seed = [np.ones(s), rng.random(s) + 0.01, np.exp(rng.normal(0, 3, s)), gen.table(rng, s, 60).astype(float), rng.random(s) + 0.01][k]
    if rng.random() < 0.25:
        seed = np.where(rng.random(s) < 0.3, 0.0, seed)
    if weird and rng.random() < 0.2:
        f = seed.reshape(-1)
        f[int(rng.integers(0, f.size))] = [np.nan, np.inf, -1.0, 1e308][int(rng.integers(0, 4))]
    return dict(shape=list(s), idx=idx, ms=[L(m) for m in ms], seed=L(seed))


def g04(rng, i):
    return gen_ipf(rng, i, True)


def c04(c):
    ms = [A(m, float) for m in c['ms']]
    k, r = call(hl.ipf, A(c['seed'], float), c['idx'], ms)
    if k == 'exc':
        return
    t, st = r
    need(t.shape == tuple(c['shape']), 'ipf: wrong shape')
    need(0 <= st['iterations'] <= 1000, f'ipf: {st["iterations"]} iterations')
    with np.errstate(all='ignore'):
        sums = [gen.marg(t, g) for g in c['idx']]
        fin = all(np.isfinite(x).all() for x in sums)
        if not fin:
            need(not st['conv'], 'ipf: table with NaN or infinite sums reported as converged')
            return
        err = max(float(np.abs(x - m).max()) for x, m in zip(sums, ms))
        mag = max(float(np.abs(t).sum()), max(float(np.abs(m).max()) for m in ms), 1.0)
    tol = 1e-13 * mag * max(1, math.log2(t.size + 1)) + 1e-15
    need(abs(st['maxError'] - err) <= tol * 10, f'ipf: maximum error reported as {st["maxError"]!r} but is {err!r}')
    need(bool(st['conv']) == (st['maxError'] < 1e-8), f'ipf: conv={st["conv"]} with maximum error {st["maxError"]!r}')
    if not st['conv']:
        need(st['iterations'] == 1000 or st['maxError'] >= 1e-8, 'ipf: gave up although converged')


def g05(rng, i):
    return gen_ipf(rng, i, False)


def c05(c):
    ms = [A(m, float) for m in c['ms']]
    seed = A(c['seed'], float)
    k, r = call(hl.ipf, seed, c['idx'], ms)
    if k == 'exc':
        return
    t, st = r
    if not np.isfinite(t).all():
        return
    need((t[seed == 0] == 0).all(), 'ipf: a cell that is zero in the seed is not zero in the result')
    need((t >= 0).all(), 'ipf: negative cell from a non-negative seed')
    last = gen.marg(t, c['idx'][-1])
    m = ms[-1]
    pos = last > 1e-200
    need((np.abs(last - m)[pos] <= 1e-9 * np.maximum(1, m)[pos]).all(), 'ipf: the last marginal is not fitted')
    # log(result/seed) is a sum of one term per marginal entry
    cells = np.argwhere((seed > 0) & (t > 1e-200))
    if len(cells) == 0:
        return
    cols, col = {}, []
    y = np.array([math.log(t[tuple(x)]) - math.log(seed[tuple(x)]) for x in cells])
    X = np.zeros((len(cells), sum(mm.size for mm in ms)))
    o = 0
    for g, mm in zip(c['idx'], ms):
        for row, x in enumerate(cells):
            X[row, o + int(np.ravel_multi_index([x[d] for d in g], mm.shape))] = 1
        o += mm.size
    b = np.linalg.lstsq(X, y, rcond=None)[0]
    res = float(np.abs(X @ b - y).max())
    need(res <= 1e-6 * (1 + float(np.abs(y).max())), f'ipf: result/seed is not a product of one factor per marginal entry (residual {res:g})')


# ------------------------------------------------------------------ C06
def g06(rng, i):
    kinds = ['one', 'none', 'onedim', 'idxlen', 'repeat', 'gap', 'resize', 'negative', 'total', 'partial', 'seedshape', 'negdim', 'lists']
    kind = kinds[i % len(kinds)]
    while True:
        s = gen.shape(rng, 2, 4, 4)
        t = gen.table(rng, s, int(rng.choice([5, 20, 60, 300])), 0.0)
        if kind == 'partial' and len(s) < 3:
            continue
        idx = gen.cover(rng, len(s), kind in ('negative',) and rng.random() < 0.5)
        if kind == 'partial':
            # a dimension shared by two marginals
            d = int(rng.integers(0, len(s)))
            others = [x for x in range(len(s)) if x != d]
            rng.shuffle(others)
            k = int(rng.integers(2, len(others) + 1))
            cuts = [0] + sorted(int(x) for x in rng.choice(np.arange(1, len(others)), k - 1, replace=False)) + [len(others)]
            idx = [[int(x) for x in rng.permutation([d] + others[p:q])] for p, q in zip(cuts, cuts[1:])]
            for _ in range(int(rng.integers(0, 3))):
                idx.append([int(x) for x in rng.permutation([d] + others[:int(rng.integers(0, 2))])])
            idx = [idx[x] for x in rng.permutation(len(idx))]
            if rng.random() < 0.5:
                idx = idx[::-1]
            if s[d] < 2:
                continue
        ms = [gen.marg(t, g) for g in idx]
        seed = np.ones(s)
        if kind == 'one':
            idx, ms = [list(range(len(s)))], [t]
        elif kind == 'none':
            idx, ms = [], []
        elif kind == 'onedim':
            v = gen.marg(t, [0])
            idx, ms, seed = [[0], [0]], [v, v], np.ones(v.shape)
        elif kind == 'idxlen':
            j = int(rng.integers(0, len(idx)))
            idx = [list(g) for g in idx]
            if rng.random() < 0.5:
                idx[j] = idx[j] + [int(rng.integers(0, len(s)))]
            else:
                idx[j] = idx[j][:-1]
        elif kind == 'repeat':
            # an index list repeating a dimension, with the sizes agreeing
            j = int(rng.integers(0, len(idx)))
            d = idx[j][int(rng.integers(0, len(idx[j])))]
            g = list(idx[j])
            p = int(rng.integers(0, len(g) + 1))
            m = ms[j]
            q = g.index(d)
            # diagonal embedding keeps every sum
            new = np.zeros(m.shape[:p] + (s[d],) + m.shape[p:], np.int64)
            for x in np.ndindex(*m.shape):
                new[x[:p] + (x[q],) + x[p:]] = m[x]
            idx = [list(z) for z in idx]
            idx[j] = g[:p] + [d] + g[p:]
            ms[j] = new
        elif kind == 'gap':
            d = int(rng.integers(0, len(s)))
            bump = int(rng.integers(1, 4))
            idx = [[x + bump if x >= d else x for x in g] for g in idx]
            if d == 0 or bump > 0:
                seed = np.ones(s)
        elif kind == 'resize':
            # one dimension given different sizes
            sh = {}
            for a, g in enumerate(idx):
                for b, d in enumerate(g):
                    sh.setdefault(d, []).append((a, b))
            cand = [v for v in sh.values() if len(v) > 1]
            if not cand:
                continue
            a, b = cand[int(rng.integers(0, len(cand)))][int(rng.integers(0, 2))]
            pad = [(0, 0)] * ms[a].ndim
            pad[b] = (0, int(rng.integers(1, 3)))
            ms[a] = np.pad(ms[a], pad)
        elif kind == 'negative':
            j = int(rng.integers(0, len(ms)))
            m = ms[j]
            if m.size < 2:
                continue
            f = m.reshape(-1).copy()
            a, b = (int(x) for x in rng.choice(m.size, 2, replace=False))
            delta = int(f[a]) + int(rng.integers(1, 4))
            f[a] -= delta
            f[b] += delta
            ms[j] = f.reshape(m.shape)
        elif kind == 'total':
            j = int(rng.integers(0, len(ms)))
            f = ms[j].reshape(-1).copy()
            f[int(rng.integers(0, f.size))] += int(rng.integers(1, 4))
            ms[j] = f.reshape(ms[j].shape)
        elif kind == 'partial':
            j = int(rng.integers(0, len(idx)))
            ax = idx[j].index(d)
            m = ms[j].copy()
            x = [int(rng.integers(0, z)) for z in m.shape]
            y = list(x)
            while y[ax] == x[ax]:
                y[ax] = int(rng.integers(0, m.shape[ax]))
            if m[tuple(x)] < 1:
                continue
            m[tuple(x)] -= 1
            m[tuple(y)] += 1
            ms[j] = m
        elif kind == 'seedshape':
            z = list(s)
            k = int(rng.integers(0, 4))
            if k == 0:
                z[int(rng.integers(0, len(z)))] += 1
            elif k == 1:
                z = z + [1]
            elif k == 2:
                z = z[:-1]
            else:
                z = z[::-1]
            if tuple(z) == tuple(s) or not z:
                continue
            seed = np.ones(z)
        elif kind == 'negdim':
            d = int(rng.integers(0, len(s)))
            idx = [[-1 if x == d else x for x in g] for g in idx]
        elif kind == 'lists':
            if rng.random() < 0.5:
                idx = idx[:-1]
            else:
                ms = ms[:-1]
        return dict(kind=kind, idx=idx, ms=[L(m) for m in ms], shapes=[list(np.asarray(m).shape) for m in ms], seed=L(seed))


def c06(c):
    ms = [A(m) for m in c['ms']]
    fs = [a.astype(float) for a in ms]
    seed = A(c['seed'], float)
    runs = [('ipf', lambda: hl.ipf(seed, c['idx'], fs)), ('qisi', lambda: hl.qisi(seed, c['idx'], ms))]
    if c['kind'] != 'seedshape':
        runs.append(('qis', lambda: hl.qis(c['idx'], ms)))
    for n, f in runs:
        k, r = call(f)
        need(k == 'exc', f'{n} returned a table for an ill-posed problem ({c["kind"]})')
    if c['kind'] == 'partial':
        # a small but relevant disagreement
        fs2 = [f.copy() for f in fs]
        t = np.array(c['ms'][0], float)
        k, r = call(hl.ipf, seed, c['idx'], [f / 4 for f in fs])
        need(k == 'exc', 'ipf returned a table for marginals with disagreeing partial sums (scaled)')


# ------------------------------------------------------------------ C07 / C08 / C09
def g07(rng, i):
    n = int(rng.choice([1, 2, 3, 5, 8, 20, 100]))
    k = int(rng.integers(0, 7))
    w = [rng.random(n), rng.integers(0, 6, n).astype(float), np.ones(n), rng.random(n) ** 6, np.where(rng.random(n) < 0.4, 0, rng.random(n)),
         np.exp(rng.normal(0, 4, n)), np.round(rng.random(n), 1)][k]
    pop = int(rng.choice([0, 1, 2, 3, 7, 10, 100, 1009, 10 ** 6, 2 * 10 ** 9]))
    bad = None
    if rng.random() < 0.2:
        bad = ['neg', 'nan', 'zero', 'empty', 'negpop', 'inf'][int(rng.integers(0, 6))]
        j = int(rng.integers(0, n))
        if bad == 'neg':
            w[j] = -0.3 * (abs(w).sum() + 1) / n
        elif bad == 'nan':
            w[j] = np.nan
        elif bad == 'inf':
            w[j] = np.inf
        elif bad == 'zero':
            w = np.zeros(n)
        elif bad == 'empty':
            w = np.zeros(0)
        else:
            pop = -1 - pop
    elif w.sum() <= 0:
        w[0] = 1
    return dict(w=L(w), pop=pop, bad=bad)


def c07(c):
    w = A(c['w'], float)
    k, r = call(hl.integerise, w, c['pop'])
    if c['bad']:
        need(k == 'exc', f'integerise accepted invalid input ({c["bad"]})')
        return
    need(k == 'ok', f'integerise failed: {r}')
    v, st = np.asarray(r[0]), r[1]
    pop = c['pop']
    need(v.shape == w.shape and v.dtype.kind == 'i', 'integerise: wrong shape or type')
    need((v >= 0).all(), 'integerise: negative entry')
    need(int(v.astype(np.int64).sum()) == pop, f'integerise: total {int(v.sum())} instead of {pop}')
    e = w / w.sum() * pop
    eps = 1e-9 * max(1, pop)
    need((v >= np.floor(e - eps)).all() and (v <= np.ceil(e + eps)).all(), 'integerise: entry is not the expected value rounded down or up')
    # moving one unit from any entry to any other must not reduce the squared error
    gain_up, gain_dn = (v + 1 - e) ** 2 - (v - e) ** 2, (v - 1 - e) ** 2 - (v - e) ** 2
    dn = np.where(v > 0, gain_dn, np.inf)
    if len(v) > 1:
        need(gain_up.min() + dn.min() >= -4 * eps, 'integerise: another allocation has a smaller squared error')
    rm = math.sqrt(float(((v - e) ** 2).mean()))
    need(abs(rm - st['rmse']) <= 1e-7 * max(1, pop) ** 0.5 + 1e-9 + eps, f'integerise: rmse {st["rmse"]!r} should be {rm!r}')


def g08(rng, i):
    s = gen.shape(rng, 1 if rng.random() < 0.15 else 2, 4, 5, 120)
    t = gen.table(rng, s, int(rng.choice([1, 5, 20, 80, 150])), 0.0 if rng.random() < 0.7 else None)
    pop = int(t.sum())
    bad = None
    if len(s) == 1:
        x = rng.random(s)
        x *= pop / x.sum()
        if rng.random() < 0.3:
            x += rng.choice([0.3, 0.01]) / x.size
            bad = 'total'
        return dict(x=L(x), bad=bad)
    o = np.ones(())
    for d in range(len(s)):
        o = np.multiply.outer(o, gen.marg(t, [d]))
    o = o / float(pop) ** (len(s) - 1)
    a = float(rng.choice([0, 0.3, 0.5, 1]))
    x = a * t + (1 - a) * o
    if rng.random() < 0.2:
        x = x + rng.uniform(-1, 1, s) * 1e-9
        x = np.abs(x)
    if rng.random() < 0.3:
        bad = ['total', 'margin', 'nan'][int(rng.integers(0, 3))]
        f = x.reshape(-1)
        j = int(rng.integers(0, f.size))
        if bad == 'total':
            f[j] += float(rng.choice([0.5, 0.3, 0.001]))
        elif bad == 'nan':
            f[j] = np.nan
        else:
            if f.size < 2:
                bad = None
            else:
                k = int(rng.integers(0, f.size))
                while k == j:
                    k = int(rng.integers(0, f.size))
                amt = float(rng.choice([0.4, 0.25]))
                f[j] += amt
                f[k] -= amt
                if f[k] < 0:
                    f[j] += 1
                    f[k] += 1
    return dict(x=L(x), bad=bad)


def c08(c):
    x = A(c['x'], float)
    k, r = call(hl.integerise, x)
    if c['bad']:
        need(k == 'exc', f'integerise accepted a table with non-integral sums ({c["bad"]})')
        return
    if k == 'exc':
        need('is not an integer' not in r, f'integerise rejected a valid table: {r}')
        return
    v, st = np.asarray(r[0]), r[1]
    need(v.shape == x.shape and v.dtype.kind == 'i', 'integerise: wrong shape or type')
    need((v >= 0).all(), 'integerise: negative entry')
    need(int(v.sum()) == int(round(float(x.sum()))), f'integerise: total {int(v.sum())} instead of {round(float(x.sum()))}')
    rm = math.sqrt(float(((v - x) ** 2).mean()))
    need(abs(rm - st['rmse']) <= 1e-6 * (1 + rm), f'integerise: rmse {st["rmse"]!r} should be {rm!r}')
    if x.ndim > 1 and st['conv']:
        for d in range(x.ndim):
            need(np.array_equal(gen.marg(v, [d]), np.rint(gen.marg(x, [d])).astype(np.int64)), f'integerise: converged but sums in dimension {d} differ')
    if x.ndim > 1:
        ok = all(np.array_equal(gen.marg(v, [d]), np.rint(gen.marg(x, [d])).astype(np.int64)) for d in range(x.ndim))
        need(bool(st['conv']) == ok, 'integerise: convergence flag is wrong')


def g09(rng, i):
    s = gen.shape(rng, 1, 5, 6, 2000)
    if rng.random() < 0.03:
        s = (int(rng.integers(250, 400)), 2)
    t = gen.table(rng, s)
    bad = False
    if rng.random() < 0.1:
        f = t.reshape(-1)
        f[int(rng.integers(0, f.size))] = -int(rng.integers(1, 9))
        bad = True
    return dict(t=L(t), bad=bad)


def c09(c):
    t = A(c['t'])
    k, r = call(hl.flatten, t)
    if c['bad']:
        need(k == 'exc', 'flatten accepted a table with a negative count')
        return
    need(k == 'ok', f'flatten failed: {r}')
    exp = np.repeat(np.indices(t.shape).reshape(t.ndim, -1), t.reshape(-1), axis=1)
    need(len(r) == t.ndim, f'flatten: {len(r)} lists for {t.ndim} dimensions')
    for d in range(t.ndim):
        need(list(r[d]) == exp[d].tolist(), f'flatten: list {d} does not enumerate the individuals in row-major order')


# ------------------------------------------------------------------ C10 / C11 (python level; the exhaustive part is a C++ driver)
def g10(rng, i):
    return dict(dim=int(rng.choice([1, 2, 3, 10, 40, 1111, int(rng.integers(1, 1112))])), k=int(rng.integers(1, 9)))


def c10(c):
    d, k = c['dim'], c['k']
    n = 2 ** k - 1
    g = hl.SobolSequence(d)
    p = np.array([next(g) for _ in range(n)])
    need(p.shape == (n, d), 'sobol: wrong shape')
    need((p >= 0).all() and (p < 1).all(), 'sobol: coordinate outside [0,1)')
    q = np.sort(p, axis=0) * 2 ** k
    need((q == np.arange(1, n + 1)[:, None]).all(), f'sobol: first {n} points are not the multiples of 2^-{k}')
    h = hl.SobolSequence(min(1111, d + 3))
    p2 = np.array([next(h)[:d] for _ in range(n)])
    need((p2 == p).all(), 'sobol: coordinate depends on the number of dimensions')


def g11(rng, i):
    if rng.random() < 0.15:
        return dict(dim=int(rng.choice([0, 1112, 5000, 2 ** 32, 2 ** 32 + 1, -1])), n=int(rng.choice([0, 1, 7])), bad=True)
    return dict(dim=int(rng.choice([1, 2, 5, 33])), n=int(rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 100, 1023, 1024, 1025, 40000])), bad=False)


def c11(c):
    if c['bad']:
        if c['dim'] > 2 ** 31 and c['dim'] != 2 ** 32 + 1:
            return
        if c['n']:
            k, r = call(hl.SobolSequence, c['dim'], c['n'])
        else:
            k, r = call(hl.SobolSequence, c['dim'])
        need(k == 'exc', f'sobol: dimension {c["dim"]} accepted')
        return
    d, n = c['dim'], c['n']
    m = 1
    while m * 2 < n:
        m *= 2
    a = hl.SobolSequence(d, n)
    b = hl.SobolSequence(d)
    for _ in range(m):
        next(b)
    for j in range(5):
        x, y = next(a), next(b)
        need(np.array_equal(x, y), f'sobol: skip {n} does not discard exactly {m} points')
    need(iter(a) is a or True, 'sobol: not an iterator')


# ------------------------------------------------------------------ C12 / C13
def g12(rng, i):
    if rng.random() < 0.6:
        c = gen_qis(rng, i, rng.random() < 0.5)
        c['skips'] = int(rng.choice([0, 3]))
        return c
    return g03(rng, i)


def qexp(c, ms):
    e = np.ones(c['shape'])
    for g, m in zip(c['idx'], ms):
        o = sorted(range(len(g)), key=lambda i: g[i])
        mm = np.transpose(m, o).astype(float)
        e = e * mm.reshape([c['shape'][d] if d in g else 1 for d in range(len(c['shape']))])
    return e


def c12(c):
    ms = [A(m) for m in c['ms']]
    if 'seed' in c:
        k, r = call(hl.qisi, A(c['seed'], float), c['idx'], ms, c['skips'])
        if k == 'exc':
            return
        t = hl.ipf(A(c['seed'], float), c['idx'], [m.astype(float) for m in ms])[0]
        need(close(r[1]['expectation'], t, 1e-9, 1e-12), 'qisi: expectation differs from the ipf table')
        return
    k, r = call(hl.qis, c['idx'], ms, c['skips'])
    if k == 'exc':
        return
    e = qexp(c, ms)
    pop = int(ms[0].sum())
    if e.sum() > 0:
        e = e * (pop / e.sum())
    need(close(r[1]['expectation'], e, 1e-9, 1e-12), 'qis: expectation is not the scaled product of the marginals')


def c13(c):
    ms = [A(m) for m in c['ms']]
    if 'seed' in c:
        k, r = call(hl.qisi, A(c['seed'], float), c['idx'], ms, c['skips'])
    else:
        k, r = call(hl.qis, c['idx'], ms, c['skips'])
    if k == 'exc':
        return
    t, st = r
    e = np.asarray(st['expectation'])
    with np.errstate(all='ignore'):
        z = (t == 0) & (e == 0)
        terms = np.where(z, 0.0, (t - e) ** 2 / np.where(z, 1, e))
        x = float(terms.sum())
    if math.isfinite(x):
        need(close(st['chiSq'], x, 1e-9, 1e-12), f'chi-squared reported as {st["chiSq"]!r} but is {x!r}')
    else:
        need(not math.isfinite(st['chiSq']), f'chi-squared reported as {st["chiSq"]!r} but is {x!r}')
    if t.max() <= 100:
        lg = math.lgamma(t.size + 1) - sum(math.lgamma(int(v) + 2) for v in t.reshape(-1))
        if abs(lg) < 500:
            need(st['degeneracy'] > 0 and abs(math.log(st['degeneracy']) - lg) <= 1e-7 * (1 + abs(lg)) * math.sqrt(t.size), f'degeneracy reported as {st["degeneracy"]!r}, log should be {lg!r}')


# ------------------------------------------------------------------ C14
def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == 'f')
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


FUNS = ['ipf', 'qis', 'qisi', 'flatten', 'int1', 'intn']


def gen_call(rng, f):
    if f == 'ipf':
        c = gen_ipf(rng, 0, False)
        return dict(f=f, seed=c['seed'], idx=c['idx'], ms=c['ms'])
    if f == 'qis':
        c = gen_qis(rng, 0, rng.random() < 0.7)
        return dict(f=f, idx=c['idx'], ms=c['ms'], skips=c['skips'] % 1000)
    if f == 'qisi':
        c = g03(rng, 0)
        return dict(f=f, seed=c['seed'], idx=c['idx'], ms=c['ms'], skips=c['skips'] % 1000)
    if f == 'flatten':
        return dict(f=f, t=L(gen.table(rng, gen.shape(rng, 1, 4, 4))))
    if f == 'int1':
        return dict(f=f, t=L(np.round(rng.random(int(rng.integers(1, 9))) + 0.1, 2)), pop=int(rng.integers(0, 90)))
    c = g08(rng, 0)
    while c['bad'] or np.asarray(c['x']).ndim < 2:
        c = g08(rng, 0)
    return dict(f=f, t=c['x'])


def do_call(c, lay):
    """lay: function array -> argument"""
    f = c['f']
    if f == 'ipf':
        a = (lay(A(c['seed'], float)), [lay(A(g)) for g in c['idx']], [lay(A(m, float)) for m in c['ms']])
        fn = hl.ipf
    elif f == 'qis':
        a = ([lay(A(g)) for g in c['idx']], [lay(A(m)) for m in c['ms']], c['skips'])
        fn = hl.qis
    elif f == 'qisi':
        a = (lay(A(c['seed'], float)), [lay(A(g)) for g in c['idx']], [lay(A(m)) for m in c['ms']], c['skips'])
        fn = hl.qisi
    elif f == 'flatten':
        a = (lay(A(c['t'])),)
        fn = hl.flatten
    elif f == 'int1':
        a = (lay(A(c['t'], float)), c['pop'])
        fn = hl.integerise
    else:
        a = (lay(A(c['t'], float)),)
        fn = hl.integerise
    return fn, a


def flat(a):
    for x in a:
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], (np.ndarray, list)) :
            yield from flat(x)
        else:
            yield x


def snapshot(a):
    return [np.array(x, copy=True) if isinstance(x, np.ndarray) else (list(x) if isinstance(x, list) else x) for x in flat(a)]


def g14(rng, i):
    return dict(call=gen_call(rng, FUNS[i % len(FUNS)]), lay=int(rng.integers(0, 2 ** 31)))


def deep(x):
    import copy
    return copy.deepcopy(x)


def c14(c):
    fn, a = do_call(c['call'], lambda x: x)
    k1, r1 = call(fn, *a)
    rng = np.random.default_rng(c['lay'])
    used = []

    def lay(x):
        y, n = gen.relayout(rng, x)
        used.append(n)
        return y
    fn, b = do_call(c['call'], lay)
    before = snapshot(b)
    k2, r2 = call(fn, *b)
    after = snapshot(b)
    need(same(before, after), f'{c["call"]["f"]} modified its arguments ({used})')
    need(k1 == k2, f'{c["call"]["f"]}: {k1} for contiguous arguments, {k2} for layouts {used}: {r2 if k2 == "exc" else r1 if k1 == "exc" else ""}')
    if k1 == 'ok':
        need(same(r1, r2), f'{c["call"]["f"]} gives different results for layouts {used}')
        keep = deep(r2)
        for x in flat(b):
            if isinstance(x, np.ndarray):
                x[...] = 77
        del b
        gc.collect()
        junk = [np.full(64, 123456789, np.int64) for _ in range(50)]
        need(same(r2, keep), f'result of {c["call"]["f"]} depends on the lifetime of its arguments')


# ------------------------------------------------------------------ C18
def g18(rng, i):
    calls = [gen_call(rng, str(rng.choice(FUNS))) for _ in range(4)]
    return dict(calls=calls, order=[int(x) for x in rng.integers(0, 4, 10)], sob=[int(rng.integers(1, 9)), int(rng.integers(1, 9)), int(rng.integers(0, 40))])


def c18(c):
    first = {}
    d1, d2, sk = c['sob']
    mk = lambda d: hl.SobolSequence(d, sk) if sk else hl.SobolSequence(d)
    ref = mk(d1)
    want = [np.array(next(ref)) for _ in range(len(c['order']))]
    g1, g2 = mk(d1), mk(d2)
    for n, j in enumerate(c['order']):
        fn, a = do_call(c['calls'][j], lambda x: x)
        r = call(fn, *a)
        if j in first:
            need(same(list(first[j]), list(r)), f'{c["calls"][j]["f"]} gives different results for equal arguments')
        else:
            first[j] = deep(r)
        p = next(g1)
        for _ in range(j):
            next(g2)
        need(np.array_equal(p, want[n]), 'sobol generators influence each other')


# ------------------------------------------------------------------ C16 (bounded only)
# ------------------------------------------------------------------ C11 at the end of the sequence (extension built with sobolend.cpp: 5 points are left)
def g11e(rng, i):
    return dict(dim=int(rng.integers(1, 1112)) if i else 1)


def c11e(c):
    it = hl.SobolSequence(c['dim'])
    n = 0
    for x in it:
        n += 1
        need(n <= 5, 'SobolSequence returns points beyond the last one')
    need(n == 5, f'SobolSequence ends {5 - n} points before its last point')
    for _ in range(3):
        k, r = call(next, it)
        need(k == 'exc' and r.startswith('StopIteration'), f'SobolSequence beyond its end: {r}')


PROPS = {'C11E': (g11e, c11e), 'C01': (g01, c01), 'C02': (g02, c02), 'C03': (g03, c03), 'C04': (g04, c04), 'C05': (g05, c05), 'C06': (g06, c06), 'C07': (g07, c07),
         'C08': (g08, c08), 'C09': (g09, c09), 'C10': (g10, c10), 'C11': (g11, c11), 'C12': (g12, c12), 'C13': (g12, c13), 'C14': (g14, c14), 'C18': (g18, c18)}
