"""Random problems."""
import numpy as np


def shape(rng, dmin=1, dmax=4, smax=5, cells=4000):
    while True:
        d = int(rng.integers(dmin, dmax + 1))
        s = tuple(int(rng.integers(1, smax + 1)) for _ in range(d))
        if np.prod(s) <= cells:
            return s


def table(rng, s, pop=None, zeros=None):
    """integer table of shape s"""
    n = int(np.prod(s))
    if pop is None:
        pop = int(rng.choice([0, 1, 2, 5, 17, 60, 200, 700], p=[.02, .05, .08, .15, .25, .25, .15, .05]))
    w = rng.random(n) ** rng.choice([0.3, 1, 4])
    if zeros is None:
        zeros = rng.choice([0, 0.2, 0.6])
    if zeros:
        m = rng.random(n) < zeros
        if not m.all():
            w[m] = 0
    w /= w.sum()
    return rng.multinomial(pop, w).reshape(s).astype(np.int64)


def cover(rng, d, disjoint):
    """>=2 lists of dimensions covering 0..d-1, in random order"""
    perm = [int(x) for x in rng.permutation(d)]
    k = int(rng.integers(2, d + 1))
    cuts = sorted(int(x) for x in rng.choice(np.arange(1, d), size=k - 1, replace=False))
    groups = [perm[a:b] for a, b in zip([0] + cuts, cuts + [d])]
    if not disjoint:
        full = rng.random() < 0.15
        if full:
            groups[int(rng.integers(0, len(groups)))] = list(perm)
        for g in groups:
            for x in range(d):
                if x not in g and rng.random() < 0.35 and len(g) < (d if full else max(d - 1, 1)):
                    g.append(x)
        if rng.random() < 0.2:
            groups.append([int(rng.integers(0, d))])
    groups = [[g[i] for i in rng.permutation(len(g))] for g in groups]
    return [groups[i] for i in rng.permutation(len(groups))]


def marg(t, dims):
    """sum of t over the dimensions not in dims, axes in the order of dims"""
    other = tuple(i for i in range(t.ndim) if i not in dims)
    r = t.sum(axis=other)
    rest = sorted(dims)
    return np.ascontiguousarray(np.transpose(r, [rest.index(x) for x in dims]))


def consistent(rng, disjoint, big=False, dmax=5):
    if big:
        s = shape(rng, 2, 6, 12, 20000)
        pop = int(rng.choice([900, 2500, 6000]))
    else:
        s = shape(rng, 2, dmax, 5)
        pop = None
    t = table(rng, s, pop)
    idx = cover(rng, len(s), disjoint)
    if disjoint and rng.random() < 0.6:
        # independent marginals with the same total
        p = int(t.sum())
        ms = [table(rng, tuple(s[d] for d in g), p) for g in idx]
    else:
        ms = [marg(t, g) for g in idx]
    return s, idx, ms


def relayout(rng, a):
    """arrays equal to a element by element, with another memory layout / type / container"""
    a = np.asarray(a)
    k = int(rng.integers(0, 9))
    if k == 0:
        return a.copy(), 'C'
    if k == 1:
        return np.asfortranarray(a), 'F'
    if k == 2:
        b = np.zeros(tuple(2 * x for x in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v, 'strided'
    if k == 3:
        return np.ascontiguousarray(a[tuple(slice(None, None, -1) for _ in a.shape)])[tuple(slice(None, None, -1) for _ in a.shape)], 'negative'
    if k == 4:
        return np.ascontiguousarray(a.T).T, 'transposed'
    if k == 5:
        return a.tolist(), 'list'
    if k == 6:
        return a.astype(np.int32 if a.dtype.kind == 'i' else np.longdouble), 'narrow'
    if k == 7:
        return (a.astype(float) if a.dtype.kind == 'i' else a.astype(float).astype('>f8')), 'float'
    b = np.zeros(tuple(x + 3 for x in a.shape), a.dtype)
    v = b[tuple(slice(1, 1 + x) for x in a.shape)]
    v[...] = a
    return v, 'window'
