"""Specification vocabulary (mathematical functions over arrays), their defining equations, and the lemma library.

Every spec function is an uninterpreted z3 function whose definition is a one-step recursion.  A query gets, for each
ground application occurring in it, the one-step unfolding, plus the instances of the lemmas below whose trigger occurs.
Each lemma is itself an obligation, proved by induction (see prove_lemmas)."""
import z3
from z3 import (Int, IntVal, Ints, And, Or, Not, Implies, If, Select, Store, ForAll, Exists, Function, IntSort, BoolSort,
                ArraySort, DeclareSort, Const, Consts, BoolVal)

I, B = IntSort(), BoolSort()
Flt = DeclareSort('Flt')
AI = ArraySort(I, I)
AF = ArraySort(I, Flt)
Key = DeclareSort('Key')

# --- index arithmetic
rank = Function('rank', AI, AI, I, I)        # rank(sz,x,n): row-major rank of x[0..n) in shape sz[0..n)
prod = Function('prod', AI, I, I)            # product of sz[0..n)
sufprod = Function('sufprod', AI, I, I, I)   # product of sz[i..n)
dot = Function('dot', AI, AI, I, I)          # sum of off[k]*x[k], k<n
crank = Function('crank', AI, AI, I, I)      # column-major rank
comp = Function('comp', AI, AI, AI)          # comp(x,d)[k] = x[d[k]]
unr = Function('unr', AI, I, I, AI)          # unr(sz,n,j): the index vector of rank j
valid = Function('valid', AI, AI, I, B)      # 0<=x[k]<sz[k] for k<n
pos = Function('pos', AI, I, B)              # sz[k]>=1 for k<n
wfoff = Function('wfoff', AI, AI, I, B)      # off are the row-major strides of sz
maxed = Function('maxed', AI, AI, I, B)      # x[k]=sz[k]-1 for k<n
zeros = Function('zeros', AI, I, B)          # x[k]=0 for k<n
eqpre = Function('eqpre', AI, AI, I, B)      # x[k]=y[k] for k<n
inrng = Function('inrng', AI, I, I, B)       # 0<=d[k]<m for k<n
dist = Function('dist', AI, I, B)            # d[0..n) pairwise distinct
# --- keys: functions from storage positions to integers
kapp = Function('kapp', Key, I, I)
kdig = Function('kdig', AI, I, I, Key)                 # sz,n,d     : digit d of the position
kproj = Function('kproj', AI, I, AI, AI, I, Key)       # sz,n,msz,dims,m : rank in shape msz of the digits listed in dims
kslice = Function('kslice', AI, I, AI, AI, I, AI, I, Key)  # sz,n,F,V,m,fsz,fd : rank in shape sz of the position with digits V at F and the digits of the key elsewhere
kall = Const('kall', Key)                              # constant 0
# --- sums
ksum = Function('ksum', AI, Key, I, I, I)     # sum of A[j], j<n, key(j)=c
fksum = Function('fksum', AF, Key, I, I, Flt)  # the same as a left fold of floating point additions from +0.0
tsum = Function('tsum', AI, I, I)             # sum of A[0..n)
ftsum = Function('ftsum', AF, I, Flt)
# --- opaque floating point operations (IEEE results as uninterpreted functions: exact, nothing is assumed)
fadd, fsub, fmul, fdiv = [Function(n, Flt, Flt, Flt) for n in ('fadd', 'fsub', 'fmul', 'fdiv')]
fneg, fabs_, fsqrt, fround, ffloor, flog, fexp, ftgamma = [Function(n, Flt, Flt) for n in ('fneg', 'fabs', 'fsqrt', 'fround', 'ffloor', 'flog', 'fexp', 'ftgamma')]
flt = Function('flt', Flt, Flt, B)            # a<b (false if unordered)
feq = Function('feq', Flt, Flt, B)            # a==b (false if unordered)
fnan = Function('fnan', Flt, B)
sitof = Function('sitof', I, Flt)
uitof = Function('uitof', I, Flt)
fptosi = Function('fptosi', I, Flt, I)
_fc = {}


def fconst(v):
    k = repr(v)
    if k not in _fc:
        _fc[k] = Const('f!' + k, Flt)
    return _fc[k]


def FA(vs, body, pats):
    return ForAll(vs, body, patterns=[p if isinstance(p, z3.PatternRef) else (z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p) for p in pats])


_sk = {}


def skf(name, *sorts):
    if name not in _sk:
        _sk[name] = Function(name, *sorts)
    return _sk[name]


_q = [0]


def qv(n='k', sort=None):
    _q[0] += 1
    return Const(f'{n}?{_q[0]}', sort if sort is not None else I)


# ------------------------------------------------------------------ definitions: name -> instance(args) list of formulas
def dec(n):
    return IntVal(n.as_long() - 1) if z3.is_int_value(n) else (n.arg(0) + (n.arg(1).as_long() - 1) if z3.is_add(n) and n.num_args() == 2 and z3.is_int_value(n.arg(1)) and n.arg(1).as_long() != 1 else (n.arg(0) if z3.is_add(n) and n.num_args() == 2 and z3.is_int_value(n.arg(1)) else n - 1))


def d_rank(s, x, n):
    return [If(n <= 0, rank(s, x, n) == 0, rank(s, x, n) == rank(s, x, dec(n)) * Select(s, dec(n)) + Select(x, dec(n)))]


def d_prod(s, n):
    return [If(n <= 0, prod(s, n) == 1, prod(s, n) == prod(s, dec(n)) * Select(s, dec(n)))]


def d_sufprod(s, i, n):
    return [If(i >= n, sufprod(s, i, n) == 1, sufprod(s, i, n) == Select(s, i) * sufprod(s, i + 1, n))]


def d_dot(o, x, n):
    return [If(n <= 0, dot(o, x, n) == 0, dot(o, x, n) == dot(o, x, dec(n)) + Select(o, dec(n)) * Select(x, dec(n)))]


def d_crank(s, x, n):
    # column-major: first index fastest:  x[0] + s[0]*(x[1] + s[1]*...): recursion on n via prod
    return [If(n <= 0, crank(s, x, n) == 0, crank(s, x, n) == crank(s, x, dec(n)) + prod(s, dec(n)) * Select(x, dec(n)))]


def d_comp(x, d):
    k = qv()
    return [FA([k], Select(comp(x, d), k) == Select(x, Select(d, k)), [Select(comp(x, d), k), Select(d, k)])]


def _pred(p, args, n, body, pats):
    """p(args) <=> forall 0<=k<n. body(k)"""
    k = qv()
    w = skf('w_' + p.name(), *[a.sort() for a in args], I)(*args)
    return [Implies(p(*args), FA([k], Implies(And(0 <= k, k < n), body(k)), [q(k) for q in pats])),
            Implies(And(0 <= w, w < n, body(w)), p(*args)) if False else Or(p(*args), And(0 <= w, w < n, Not(body(w))))]


def d_valid(s, x, n):
    return _pred(valid, (s, x, n), n, lambda k: And(0 <= Select(x, k), Select(x, k) < Select(s, k)), [lambda k: Select(x, k), lambda k: Select(s, k)])


def d_pos(s, n):
    return _pred(pos, (s, n), n, lambda k: Select(s, k) >= 1, [lambda k: Select(s, k)])


def d_maxed(s, x, n):
    return _pred(maxed, (s, x, n), n, lambda k: Select(x, k) == Select(s, k) - 1, [lambda k: Select(x, k)])


def d_zeros(x, n):
    return _pred(zeros, (x, n), n, lambda k: Select(x, k) == 0, [lambda k: Select(x, k)])


def d_eqpre(x, y, n):
    return _pred(eqpre, (x, y, n), n, lambda k: Select(x, k) == Select(y, k), [lambda k: Select(x, k), lambda k: Select(y, k)])


def d_inrng(d, m, n):
    return _pred(inrng, (d, m, n), n, lambda k: And(0 <= Select(d, k), Select(d, k) < m), [lambda k: Select(d, k)])


def d_dist(d, n):
    k, l = qv(), qv()
    w1 = skf('w1_dist', AI, I, I)(d, n)
    w2 = skf('w2_dist', AI, I, I)(d, n)
    return [Implies(dist(d, n), FA([k, l], Implies(And(0 <= k, k < l, l < n), Select(d, k) != Select(d, l)), [(Select(d, k), Select(d, l))])),
            Or(dist(d, n), And(0 <= w1, w1 < w2, w2 < n, Select(d, w1) == Select(d, w2)))]


def d_wfoff(s, o, n):
    k = qv()
    w = skf('w_wfoff', AI, AI, I, I)(s, o, n)
    body = lambda k: Select(o, k) * Select(s, k) == Select(o, k - 1)
    return [Implies(wfoff(s, o, n), And(n >= 1, Select(o, n - 1) == 1,
                                        FA([k], Implies(And(1 <= k, k < n), body(k)), [Select(o, k)]))),
            Or(wfoff(s, o, n), n < 1, Select(o, n - 1) != 1, And(1 <= w, w < n, Not(body(w))))]


def d_ksum(A, K, c, n):
    return [If(n <= 0, ksum(A, K, c, n) == 0, ksum(A, K, c, n) == ksum(A, K, c, dec(n)) + If(kapp(K, dec(n)) == c, Select(A, dec(n)), 0))]


def d_fksum(A, K, c, n):
    return [If(n <= 0, fksum(A, K, c, n) == fconst(0.0),
               fksum(A, K, c, n) == If(kapp(K, dec(n)) == c, fadd(fksum(A, K, c, dec(n)), Select(A, dec(n))), fksum(A, K, c, dec(n))))]


def d_tsum(A, n):
    return [If(n <= 0, tsum(A, n) == 0, tsum(A, n) == tsum(A, dec(n)) + Select(A, dec(n)))]


def d_ftsum(A, n):
    return [If(n <= 0, ftsum(A, n) == fconst(0.0), ftsum(A, n) == fadd(ftsum(A, dec(n)), Select(A, dec(n))))]


def d_kapp(K, j):
    r = []
    if z3.is_app(K):
        nm = K.decl().name()
        if nm == 'kdig':
            s, n, d = K.children()
            r.append(kapp(K, j) == Select(unr(s, n, j), d))
        elif nm == 'kproj':
            s, n, ms, dims, m = K.children()
            r.append(kapp(K, j) == rank(ms, comp(unr(s, n, j), dims), m))
        elif nm == 'kslice':
            s, n, F, V, m, fs, fd = K.children()
            r.append(kapp(K, j) == rank(s, fmerge(F, V, m, unr(fs, fd, j)), n))
        elif nm == 'kall':
            r.append(kapp(K, j) == 0)
    return r


DEFS = dict(rank=d_rank, prod=d_prod, sufprod=d_sufprod, dot=d_dot, crank=d_crank, comp=d_comp, valid=d_valid, pos=d_pos,
            maxed=d_maxed, zeros=d_zeros, eqpre=d_eqpre, inrng=d_inrng, dist=d_dist, wfoff=d_wfoff, ksum=d_ksum, fksum=d_fksum,
            tsum=d_tsum, ftsum=d_ftsum, kapp=d_kapp)
RECARG = dict(sufprod=1)
# predicates/array functions whose definition is always added; recursive ones are unfolded one step for terms of the query only
ALWAYS = {'comp', 'valid', 'pos', 'maxed', 'zeros', 'eqpre', 'inrng', 'dist', 'wfoff', 'kapp'}

# ------------------------------------------------------------------ lemmas
LEMMAS = {}


class Lemma:
    def __init__(s, name, vars, stmt, trig, ind=None, uses=()):
        s.name, s.vars, s.stmt, s.trig, s.ind, s.uses = name, vars, stmt, trig, ind, uses


def lemma(name, trig, ind=None, base=0, uses=(), hints=None, step_hints=None, step_lemmas=None, gen=None, defs=None):
    """trig: function(apps) -> iterable of argument tuples; the decorated function gives the statement for arguments.
    ind: index of the induction argument (an Int); the lemma is proved for values >= base by induction."""
    def deco(f):
        f.lname, f.trig, f.ind, f.base, f.uses, f.hints, f.step_hints, f.step_lemmas, f.gen, f.defs = name, trig, ind, base, uses, hints, step_hints, step_lemmas, gen, defs
        LEMMAS[name] = f
        return f
    return deco


def on(fname):
    def t(apps):
        for a in apps.get(fname, ()):
            yield tuple(a.children())
    return t


def eqt(a, b):
    return a.eq(b)


# sorts of lemma arguments are given by annotations
@lemma('rank_bounds', on('rank'), ind=2)
def l_rank_bounds(s: AI, x: AI, n: I):
    return Implies(And(valid(s, x, n), pos(s, n)), And(0 <= rank(s, x, n), rank(s, x, n) < prod(s, n)))


@lemma('prod_pos', on('prod'), ind=1)
def l_prod_pos(s: AI, n: I):
    return Implies(pos(s, n), prod(s, n) >= 1)


def pairs_prod(apps):
    rs = apps.get('prod', ())
    for a in rs:
        for b in rs:
            if a.get_id() < b.get_id() and not a.arg(0).eq(b.arg(0)):
                yield (a.arg(0), b.arg(0), a.arg(1), b.arg(1))


@lemma('prod_ext0', lambda apps: ((a.arg(0), b.arg(0), a.arg(1)) for a in apps.get('prod', ()) for b in apps.get('prod', ()) if not a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)) and a.get_id() < b.get_id()), ind=2)
def l_prod_ext0(s: AI, t: AI, n: I):
    return Implies(eqpre(s, t, n), prod(s, n) == prod(t, n))


@lemma('prod_ext', pairs_prod, uses=('prod_ext0',), hints=lambda s, t, n, m: [prod(s, n), prod(t, n), prod(s, m), prod(t, m)])
def l_prod_ext(s: AI, t: AI, n: I, m: I):
    return Implies(And(n == m, n >= 0, eqpre(s, t, n)), prod(s, n) == prod(t, m))


def pairs_rank(apps):
    rs = apps.get('rank', ())
    for i, a in enumerate(rs):
        for b in rs:
            if a.arg(0).eq(b.arg(0)) and a.arg(2).eq(b.arg(2)) and not a.eq(b) and a.get_id() < b.get_id():
                yield (a.arg(0), a.arg(1), b.arg(1), a.arg(2))


@lemma('rank_ext', pairs_rank, ind=3)
def l_rank_ext(s: AI, x: AI, y: AI, n: I):
    return Implies(eqpre(x, y, n), rank(s, x, n) == rank(s, y, n))


@lemma('rank_shape', lambda apps: ((a.arg(0), b.arg(0), a.arg(1), a.arg(2)) for a in apps.get('rank', ()) for b in apps.get('rank', ()) if a.get_id() < b.get_id() and not a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)) and a.arg(2).eq(b.arg(2))), ind=3)
def l_rank_shape(s: AI, t: AI, x: AI, n: I):
    return Implies(eqpre(s, t, n), rank(s, x, n) == rank(t, x, n))


@lemma('rank_inj', pairs_rank, ind=3, uses=('rank_bounds',))
def l_rank_inj(s: AI, x: AI, y: AI, n: I):
    return Implies(And(pos(s, n), valid(s, x, n), valid(s, y, n), rank(s, x, n) == rank(s, y, n)), eqpre(x, y, n))


@lemma('rank_max', on('rank'), ind=2)
def l_rank_max(s: AI, x: AI, n: I):
    return Implies(maxed(s, x, n), rank(s, x, n) == prod(s, n) - 1)


@lemma('rank_zeros', on('rank'), ind=2)
def l_rank_zeros(s: AI, x: AI, n: I):
    return Implies(zeros(x, n), rank(s, x, n) == 0)


# carry: y is x with x[i] incremented and everything after i reset from its maximum to 0
carry = Function('carry', AI, AI, AI, I, I, B)


def d_carry(s, x, y, i, n):
    w = skf('w_carry', AI, AI, AI, I, I, I)(s, x, y, i, n)
    k = qv()
    body = lambda k: And(Implies(k < i, Select(y, k) == Select(x, k)), Implies(k == i, Select(y, k) == Select(x, k) + 1),
                         Implies(k > i, And(Select(x, k) == Select(s, k) - 1, Select(y, k) == 0)))
    return [Implies(carry(s, x, y, i, n), FA([k], Implies(And(0 <= k, k < n), body(k)), [Select(x, k), Select(y, k)])),
            Or(carry(s, x, y, i, n), And(0 <= w, w < n, Not(body(w))))]


DEFS['carry'] = d_carry
ALWAYS.add('carry')


@lemma('rank_carry', on('carry'), ind=4, uses=('rank_ext',), hints=lambda s, x, y, i, n: [rank(s, x, i), rank(s, y, i), rank(s, y, n), rank(s, x, n)])
def l_rank_carry(s: AI, x: AI, y: AI, i: I, n: I):
    return Implies(And(carry(s, x, y, i, n), 0 <= i, i < n), rank(s, y, n) == rank(s, x, n) + 1)


@lemma('crank_ext', lambda apps: ((a.arg(0), a.arg(1), b.arg(1), a.arg(2)) for a in apps.get('crank', ()) for b in apps.get('crank', ()) if a.get_id() < b.get_id() and a.arg(0).eq(b.arg(0)) and a.arg(2).eq(b.arg(2))), ind=3)
def l_crank_ext(s: AI, x: AI, y: AI, n: I):
    return Implies(eqpre(x, y, n), crank(s, x, n) == crank(s, y, n))


@lemma('crank_zeros', on('crank'), ind=2)
def l_crank_zeros(s: AI, x: AI, n: I):
    return Implies(zeros(x, n), crank(s, x, n) == 0)


@lemma('crank_max', on('crank'), ind=2)
def l_crank_max(s: AI, x: AI, n: I):
    return Implies(maxed(s, x, n), crank(s, x, n) == prod(s, n) - 1)


@lemma('crank_bounds', on('crank'), ind=2, uses=('prod_pos',))
def l_crank_bounds(s: AI, x: AI, n: I):
    return Implies(And(valid(s, x, n), pos(s, n)), And(0 <= crank(s, x, n), crank(s, x, n) < prod(s, n)))


# tcarry: y is x with x[i] incremented and everything before i reset from its maximum to 0
tcarry = Function('tcarry', AI, AI, AI, I, I, B)


def d_tcarry(s, x, y, i, n):
    w = skf('w_tcarry', AI, AI, AI, I, I, I)(s, x, y, i, n)
    k = qv()
    body = lambda k: And(Implies(k > i, Select(y, k) == Select(x, k)), Implies(k == i, Select(y, k) == Select(x, k) + 1),
                         Implies(k < i, And(Select(x, k) == Select(s, k) - 1, Select(y, k) == 0)))
    return [Implies(tcarry(s, x, y, i, n), FA([k], Implies(And(0 <= k, k < n), body(k)), [Select(x, k), Select(y, k)])),
            Or(tcarry(s, x, y, i, n), And(0 <= w, w < n, Not(body(w))))]


DEFS['tcarry'] = d_tcarry
ALWAYS.add('tcarry')


@lemma('crank_carry', on('tcarry'), ind=4, uses=('crank_max', 'crank_zeros'), hints=lambda s, x, y, i, n: [crank(s, x, i), crank(s, y, i), crank(s, y, n), crank(s, x, n), maxed(s, x, i), zeros(y, i), maxed(s, x, n), zeros(y, n)])
def l_crank_carry(s: AI, x: AI, y: AI, i: I, n: I):
    return Implies(And(tcarry(s, x, y, i, n), 0 <= i, i < n), crank(s, y, n) == crank(s, x, n) + 1)


def trig_dot(apps):
    for d in apps.get('dot', ()):
        for w in apps.get('wfoff', ()):
            if w.arg(1).eq(d.arg(0)):
                yield (w.arg(0), d.arg(0), d.arg(1), d.arg(2))


# strides restricted to the first n dimensions: o[k]*s[k]=o[k-1]
wfpre = Function('wfpre', AI, AI, I, B)
DEFS['wfpre'] = lambda s, o, n: (lambda w, k: [
    Implies(wfpre(s, o, n), FA([k], Implies(And(1 <= k, k < n), Select(o, k) * Select(s, k) == Select(o, k - 1)), [Select(o, k)])),
    Or(wfpre(s, o, n), And(1 <= w, w < n, Select(o, w) * Select(s, w) != Select(o, w - 1)))])(skf('w_wfpre', AI, AI, I, I)(s, o, n), qv())
ALWAYS.add('wfpre')


def trig_dots(apps):
    for d in apps.get('dot', ()):
        for w in apps.get('wfpre', ()):
            if w.arg(1).eq(d.arg(0)):
                yield (w.arg(0), d.arg(0), d.arg(1), d.arg(2))


@lemma('dot_scaled', trig_dots, ind=3, base=1)
def l_dot_scaled(s: AI, o: AI, x: AI, n: I):
    return Implies(wfpre(s, o, n), dot(o, x, n) == rank(s, x, n) * Select(o, dec(n)))


@lemma('dot_rank', trig_dot, uses=('dot_scaled',), hints=lambda s, o, x, n: [wfpre(s, o, n)])
def l_dot_rank(s: AI, o: AI, x: AI, n: I):
    return Implies(wfoff(s, o, n), dot(o, x, n) == rank(s, x, n))


# proved downward: prod(s,n-j)*sufprod(s,n-j,n) = prod(s,n) for 0<=j<=n, by induction on j
@lemma('prod_split0', lambda apps: ((a.arg(0), a.arg(2), a.arg(2)) for a in apps.get('sufprod', ())), ind=1)
def l_prod_split0(s: AI, j: I, n: I):
    return Implies(And(0 <= j, j <= n), prod(s, n - j) * sufprod(s, n - j, n) == prod(s, n))


@lemma('prod_suf', on('sufprod'), uses=('prod_split0',), hints=lambda s, i, n: [prod(s, IntVal(0)), sufprod(s, IntVal(0), n), sufprod(s, n - n, n)])
def l_prod_suf(s: AI, i: I, n: I):
    return Implies(And(i == 0, n >= 0), sufprod(s, i, n) == prod(s, n))


# sufprod is positive
@lemma('sufprod_pos', lambda apps: ((a.arg(0), a.arg(2) - a.arg(1), a.arg(2)) for a in apps.get('sufprod', ())), ind=1)
def l_sufprod_pos(s: AI, j: I, n: I):
    return Implies(And(0 <= j, j <= n, pos(s, n)), sufprod(s, n - j, n) >= 1)


# unr by recursion; its characteristic property is the lemma unr_spec
def d_unr(s, n, j):
    m = dec(n)
    q = quot(j, Select(s, m))
    return [Implies(n > 0, unr(s, n, j) == Store(unr(s, m, q), m, j - Select(s, m) * q))]


quot = Function('quot', I, I, I)


@lemma('unr_spec', on('unr'), ind=1, uses=('prod_pos',), gen=lambda s, n, j: [(s, n, quot(j, Select(s, n)))], defs=lambda s, n, j: d_unr(s, n, j),
       hints=lambda s, n, j: [quot(j, Select(s, dec(n))), prod(s, n), rank(s, unr(s, n, j), n), rank(s, unr(s, dec(n), quot(j, Select(s, dec(n)))), dec(n))],
       step_lemmas=lambda s, n, j: [('rank_ext', (s, unr(s, n, quot(j, Select(s, n))), unr(s, n + 1, j), n))])
def l_unr_spec(s: AI, n: I, j: I):
    u = unr(s, n, j)
    return Implies(And(pos(s, n), n >= 0, 0 <= j, j < prod(s, n)), And(valid(s, u, n), rank(s, u, n) == j))


def trig_unr_rank(apps):
    # x valid with rank r: unr(s,n,j) with j possibly equal to r
    for u in apps.get('unr', ()):
        for r in apps.get('rank', ()):
            if r.arg(0).eq(u.arg(0)) and r.arg(2).eq(u.arg(1)) and not r.arg(1).eq(u):
                yield (u.arg(0), u.arg(1), u.arg(2), r.arg(1))


@lemma('unr_rank', trig_unr_rank, uses=('unr_spec', 'rank_inj', 'rank_bounds'), hints=lambda s, n, j, x: [rank(s, unr(s, n, j), n), rank(s, x, n), prod(s, n)])
def l_unr_rank(s: AI, n: I, j: I, x: AI):
    return Implies(And(pos(s, n), n >= 0, valid(s, x, n), rank(s, x, n) == j), eqpre(x, unr(s, n, j), n))


# comp of vectors equal on [0,n) along dims in range
def trig_comp(apps):
    cs = apps.get('comp', ())
    es = apps.get('eqpre', ())
    for a in cs:
        for b in cs:
            if a.arg(1).eq(b.arg(1)) and a.get_id() != b.get_id():
                for e in es:
                    if e.arg(0).eq(a.arg(0)) and e.arg(1).eq(b.arg(0)):
                        for r in apps.get('inrng', ()):
                            if r.arg(0).eq(a.arg(1)):
                                yield (a.arg(0), b.arg(0), a.arg(1), e.arg(2), r.arg(2))


@lemma('comp_ext', trig_comp)
def l_comp_ext(x: AI, y: AI, d: AI, n: I, m: I):
    return Implies(And(eqpre(x, y, n), inrng(d, n, m)), eqpre(comp(x, d), comp(y, d), m))


# ---- sums
ksumStore = Function('ksumStore', AI, AI, I, Key, I, I, B)


@lemma('ksum_upd', lambda apps: (), ind=6)
def l_ksum_upd(A: AI, A2: AI, p: I, v: I, K: Key, c: I, n: I):
    return Implies(And(A2 == Store(A, p, v), 0 <= p),
                   ksum(A2, K, c, n) == ksum(A, K, c, n) + If(And(p < n, kapp(K, p) == c), v - Select(A, p), 0))


@lemma('ksum_ext', lambda apps: (), ind=4)
def l_ksum_ext(A: AI, A2: AI, K: Key, c: I, n: I):
    return Implies(eqpre(A, A2, n), ksum(A, K, c, n) == ksum(A2, K, c, n))


@lemma('ksum_zero', lambda apps: (), ind=3)
def l_ksum_zero(A: AI, K: Key, c: I, n: I):
    return Implies(zeros(A, n), ksum(A, K, c, n) == 0)


allnn = Function('allnn', AI, I, B)
DEFS['allnn'] = lambda A, n: _pred(allnn, (A, n), n, lambda k: Select(A, k) >= 0, [lambda k: Select(A, k)])
ALWAYS.add('allnn')


@lemma('ksum_nn', on('ksum'), ind=3)
def l_ksum_nn(A: AI, K: Key, c: I, n: I):
    return Implies(allnn(A, n), ksum(A, K, c, n) >= 0)


@lemma('tsum_upd', lambda apps: (), ind=4)
def l_tsum_upd(A: AI, A2: AI, p: I, v: I, n: I):
    return Implies(And(A2 == Store(A, p, v), 0 <= p), tsum(A2, n) == tsum(A, n) + If(p < n, v - Select(A, p), 0))


@lemma('tsum_nn', on('tsum'), ind=1)
def l_tsum_nn(A: AI, n: I):
    return Implies(allnn(A, n), tsum(A, n) >= 0)


@lemma('tsum_zero', on('tsum'), ind=1)
def l_tsum_zero(A: AI, n: I):
    return Implies(zeros(A, n), tsum(A, n) == 0)


# ---- keys at a position
def trig_key(kind):
    def t(apps):
        for a in apps.get('kapp', ()):
            K = a.arg(0)
            if z3.is_app(K) and K.decl().name() == kind:
                for r in apps.get('rank', ()):
                    if r.arg(0).eq(K.arg(0)) and r.arg(2).eq(K.arg(1)) and not (z3.is_app(r.arg(1)) and r.arg(1).decl().name() == 'unr'):
                        yield tuple(K.children()) + (a.arg(1), r.arg(1))
    return t


@lemma('kdig_at', trig_key('kdig'), hints=lambda s, n, d, t, x: [kapp(kdig(s, n, d), t), unr(s, n, t), rank(s, x, n)], step_lemmas=lambda s, n, d, t, x: [('unr_rank', (s, n, t, x))])
def l_kdig_at(s: AI, n: I, d: I, t: I, x: AI):
    return Implies(And(pos(s, n), n >= 0, valid(s, x, n), rank(s, x, n) == t, 0 <= d, d < n), kapp(kdig(s, n, d), t) == Select(x, d))


@lemma('kproj_at', trig_key('kproj'), hints=lambda s, n, ms, D, m, t, x: [kapp(kproj(s, n, ms, D, m), t), eqpre(comp(x, D), comp(unr(s, n, t), D), m)],
       step_lemmas=lambda s, n, ms, D, m, t, x: [('unr_rank', (s, n, t, x)), ('comp_ext', (x, unr(s, n, t), D, n, m)), ('rank_ext', (ms, comp(x, D), comp(unr(s, n, t), D), m))])
def l_kproj_at(s: AI, n: I, ms: AI, D: AI, m: I, t: I, x: AI):
    return Implies(And(pos(s, n), n >= 0, m >= 0, valid(s, x, n), rank(s, x, n) == t, inrng(D, n, m)), kapp(kproj(s, n, ms, D, m), t) == rank(ms, comp(x, D), m))


# R[c] is the sum of the first t elements whose key is c, for all c<m
sumsto = Function('sumsto', AI, AI, Key, I, I, B)
fsumsto = Function('fsumsto', AF, AF, Key, I, I, B)
DEFS['sumsto'] = lambda R, A, K, t, m: _pred(sumsto, (R, A, K, t, m), m, lambda c: Select(R, c) == ksum(A, K, c, t), [lambda c: Select(R, c)])
DEFS['fsumsto'] = lambda R, A, K, t, m: _pred(fsumsto, (R, A, K, t, m), m, lambda c: Select(R, c) == fksum(A, K, c, t), [lambda c: Select(R, c)])
ALWAYS |= {'sumsto', 'fsumsto'}


def _sumstep_hints(S, R, R2, p, v, A, K, t, m):
    w = skf('w_' + S.name(), R.sort(), A.sort(), Key, I, I, I)(R2, A, K, t + 1, m)
    f = ksum if S is sumsto else fksum
    return [f(A, K, w, t + 1), Select(R, w), kapp(K, t)]


def trig_sumstep(nm):
    def t(apps):
        for a in apps.get(nm, ()):
            for R2, R, p, v in apps.get('*store', ()):
                if R.eq(a.arg(0)):
                    yield (R, R2, p, v, a.arg(1), a.arg(2), a.arg(3), a.arg(4))
    return t


@lemma('sumsto_step', trig_sumstep('sumsto'), hints=lambda *a: _sumstep_hints(sumsto, *a))
def l_sumsto_step(R: AI, R2: AI, p: I, v: I, A: AI, K: Key, t: I, m: I):
    return Implies(And(sumsto(R, A, K, t, m), R2 == Store(R, p, v), kapp(K, t) == p, v == Select(R, p) + Select(A, t), t >= 0), sumsto(R2, A, K, t + 1, m))


@lemma('fsumsto_step', trig_sumstep('fsumsto'), hints=lambda *a: _sumstep_hints(fsumsto, *a))
def l_fsumsto_step(R: AF, R2: AF, p: I, v: Flt, A: AF, K: Key, t: I, m: I):
    return Implies(And(fsumsto(R, A, K, t, m), R2 == Store(R, p, v), kapp(K, t) == p, v == fadd(Select(R, p), Select(A, t)), t >= 0), fsumsto(R2, A, K, t + 1, m))


@lemma('sumsto_zero', on('sumsto'), hints=lambda R, A, K, t, m: [ksum(A, K, skf('w_sumsto', AI, AI, Key, I, I, I)(R, A, K, t, m), t)])
def l_sumsto_zero(R: AI, A: AI, K: Key, t: I, m: I):
    return Implies(And(t <= 0, zeros(R, m)), sumsto(R, A, K, t, m))


fzeros = Function('fzeros', AF, I, B)
DEFS['fzeros'] = lambda x, n: _pred(fzeros, (x, n), n, lambda k: Select(x, k) == fconst(0.0), [lambda k: Select(x, k)])
ALWAYS.add('fzeros')


@lemma('fsumsto_zero', on('fsumsto'), hints=lambda R, A, K, t, m: [fksum(A, K, skf('w_fsumsto', AF, AF, Key, I, I, I)(R, A, K, t, m), t)])
def l_fsumsto_zero(R: AF, A: AF, K: Key, t: I, m: I):
    return Implies(And(t <= 0, fzeros(R, m)), fsumsto(R, A, K, t, m))


# ---- members of D[0..m) as a set
AB = ArraySort(I, B)
mark = Function('mark', I, B)      # positions at which membership is looked at (keeps the definition below from unfolding for ever)
mems = Function('mems', AI, I, AB)


def d_mems(d, m):
    j, k = qv('j'), qv()
    w = skf('memw', AI, I, AI)(d, m)
    M = mems(d, m)
    return [FA([j], Implies(Select(M, j), And(0 <= Select(w, j), Select(w, j) < m, Select(d, Select(w, j)) == j)), [Select(M, j)]),
            FA([k], Implies(And(0 <= k, k < m), Select(M, Select(d, k))), [(Select(d, k), mark(k))])]


DEFS['mems'] = d_mems
ALWAYS.add('mems')


def pairs_mems(apps):
    l = apps.get('mems', ())
    for a in l:
        for b in l:
            if not a.eq(b):
                yield (a.arg(0), a.arg(1), b.arg(0), b.arg(1))


@lemma('mems_mono', pairs_mems)
def l_mems_mono(d: AI, m: I, d2: AI, m2: I):
    p = qv('p')
    return Implies(And(m <= m2, eqpre(d, d2, m)), FA([p], Implies(Select(mems(d, m), p), Select(mems(d2, m2), p)), [Select(mems(d, m), p), Select(mems(d2, m2), p)]))


@lemma('mems_last', on('mems'))
def l_mems_last(d: AI, m: I):
    return Implies(m >= 1, Select(mems(d, m), Select(d, dec(m))))


def sameoff(a2, a, d, m):
    """a2 equals a outside the positions d[0..m)"""
    j = qv('j')
    return FA([j], Or(Select(mems(d, m), j), Select(a2, j) == Select(a, j)), [Select(a2, j)])


# number of j<i that are not in F[0..m)
ncnt = Function('ncnt', AI, I, I, I)
DEFS['ncnt'] = lambda f, m, i: [If(i <= 0, ncnt(f, m, i) == 0, ncnt(f, m, i) == ncnt(f, m, dec(i)) + If(Select(mems(f, m), dec(i)), 0, 1))]


@lemma('ncnt_range', on('ncnt'), ind=2)
def l_ncnt_range(f: AI, m: I, i: I):
    return And(0 <= ncnt(f, m, i), ncnt(f, m, i) <= i)


@lemma('ncnt_empty', lambda apps: (), ind=2)
def l_ncnt_empty(f: AI, m: I, i: I):
    return Implies(m == 0, ncnt(f, m, i) == i)


@lemma('ncnt_add', lambda apps: (), ind=2, hints=lambda f, m, i: [mems(f, m), mems(f, m + 1), Select(mems(f, m), Select(f, m)), Select(f, m), dist(f, m + 1), ncnt(f, m + 1, i), ncnt(f, m, i)])
def l_ncnt_add(f: AI, m: I, i: I):
    return Implies(And(m >= 0, dist(f, m + 1), Select(f, m) >= 0), ncnt(f, m + 1, i) == ncnt(f, m, i) - If(Select(f, m) < i, 1, 0))


@lemma('ncnt_total', lambda apps: ((a.arg(0), a.arg(1), a.arg(2)) for a in apps.get('ncnt', ())), ind=1,
       step_lemmas=lambda f, m, n: [('ncnt_add', (f, m, n)), ('ncnt_empty', (f, m, n))])
def l_ncnt_total(f: AI, m: I, n: I):
    return Implies(And(n >= 0, dist(f, m), inrng(f, n, m)), ncnt(f, m, n) == n - m)


@lemma('ncnt_mono', lambda apps: ((a.arg(0), a.arg(1), a.arg(2), b.arg(2)) for a in apps.get('ncnt', ()) for b in apps.get('ncnt', ()) if a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)) and not a.eq(b)), ind=3)
def l_ncnt_mono(f: AI, m: I, i: I, n: I):
    return Implies(And(0 <= i, i <= n), ncnt(f, m, i) <= ncnt(f, m, n))


@lemma('ncnt_strict', lambda apps: ((a.arg(0), a.arg(1), a.arg(2), b.arg(2)) for a in apps.get('ncnt', ()) for b in apps.get('ncnt', ()) if a.arg(0).eq(b.arg(0)) and a.arg(1).eq(b.arg(1)) and not a.eq(b)),
       hints=lambda f, m, i, n: [ncnt(f, m, i + 1)], step_lemmas=lambda f, m, i, n: [('ncnt_mono', (f, m, i + 1, n))])
def l_ncnt_strict(f: AI, m: I, i: I, n: I):
    return Implies(And(0 <= i, i < n, Not(Select(mems(f, m), i))), ncnt(f, m, i) < ncnt(f, m, n))


@lemma('comp_ext2', lambda apps: ((a.arg(0), a.arg(1), b.arg(1), e.arg(2)) for a in apps.get('comp', ()) for b in apps.get('comp', ()) if a.arg(0).eq(b.arg(0))
                                 for e in apps.get('eqpre', ()) if e.arg(0).eq(a.arg(1)) and e.arg(1).eq(b.arg(1))))
def l_comp_ext2(x: AI, d: AI, e: AI, n: I):
    return Implies(eqpre(d, e, n), eqpre(comp(x, d), comp(x, e), n))


# ---- slices
fmerge = Function('fmerge', AI, AI, I, AI, AI)      # V[k] at F[k], k<m; the digits of w in order elsewhere


def d_fmerge(F, V, m, w):
    k, p = qv(), qv('p')
    M = fmerge(F, V, m, w)
    return [FA([k], Implies(And(0 <= k, k < m, dist(F, m)), Select(M, Select(F, k)) == Select(V, k)), [(Select(F, k), mark(k))]),
            FA([p], Or(Select(mems(F, m), p), Select(M, p) == Select(w, ncnt(F, m, p))), [Select(M, p)])]


DEFS['fmerge'] = d_fmerge
ALWAYS.add('fmerge')
# D lists the dimensions not in F[0..m)
frees = Function('frees', AI, AI, I, I, B)
DEFS['frees'] = lambda D, F, m, n: _pred(frees, (D, F, m, n), n, lambda p: Or(Select(mems(F, m), p), Select(D, ncnt(F, m, p)) == p), [lambda p: Select(mems(F, m), p), lambda p: mark(p)])
ALWAYS.add('frees')


@lemma('fmerge_id', lambda apps: (), hints=lambda F, V, m, D, x, n: (lambda w: [mems(F, m), Select(mems(F, m), w), Select(x, w), Select(fmerge(F, V, m, comp(x, D)), w), dist(F, m), frees(D, F, m, n), mark(w),
                                                                             ncnt(F, m, w), Select(comp(x, D), ncnt(F, m, w)), mark(skf('memw', AI, I, AI)(F, m)[w]), Select(comp(x, F), skf('memw', AI, I, AI)(F, m)[w]), Select(V, skf('memw', AI, I, AI)(F, m)[w])])
       (skf('w_eqpre', AI, AI, I, I)(fmerge(F, V, m, comp(x, D)), x, n)))
def l_fmerge_id(F: AI, V: AI, m: I, D: AI, x: AI, n: I):
    return Implies(And(dist(F, m), eqpre(comp(x, F), V, m), frees(D, F, m, n)), eqpre(fmerge(F, V, m, comp(x, D)), x, n))


@lemma('fmerge_ext', lambda apps: (), hints=lambda F, V, m, w, w2, fd, n: (lambda p: [mems(F, m), Select(mems(F, m), p), dist(F, m), Select(fmerge(F, V, m, w), p), Select(fmerge(F, V, m, w2), p), ncnt(F, m, p), Select(w, ncnt(F, m, p)),
                                                                                  Select(w2, ncnt(F, m, p)), eqpre(w, w2, fd), mark(p), mark(skf('memw', AI, I, AI)(F, m)[p])])
       (skf('w_eqpre', AI, AI, I, I)(fmerge(F, V, m, w), fmerge(F, V, m, w2), n)),
       step_lemmas=lambda F, V, m, w, w2, fd, n: (lambda p: [('ncnt_strict', (F, m, p, n)), ('ncnt_range', (F, m, p))])(skf('w_eqpre', AI, AI, I, I)(fmerge(F, V, m, w), fmerge(F, V, m, w2), n)))
def l_fmerge_ext(F: AI, V: AI, m: I, w: AI, w2: AI, fd: I, n: I):
    return Implies(And(dist(F, m), eqpre(w, w2, fd), ncnt(F, m, n) <= fd), eqpre(fmerge(F, V, m, w), fmerge(F, V, m, w2), n))


def trig_kslice(apps):
    for a in apps.get('kapp', ()):
        K = a.arg(0)
        if z3.is_app(K) and K.decl().name() == 'kslice':
            for r in apps.get('rank', ()):
                x = r.arg(1)
                if r.arg(0).eq(K.arg(5)) and r.arg(2).eq(K.arg(6)) and z3.is_app(x) and x.decl().name() == 'comp':
                    yield tuple(K.children()) + (a.arg(1), x.arg(1), x.arg(0))


@lemma('kslice_at', trig_kslice, hints=lambda s, n, F, V, m, fs, fd, t, D, x: [kapp(kslice(s, n, F, V, m, fs, fd), t)],
       step_lemmas=lambda s, n, F, V, m, fs, fd, t, D, x: [('unr_rank', (fs, fd, t, comp(x, D))), ('fmerge_ext', (F, V, m, comp(x, D), unr(fs, fd, t), fd, n)), ('fmerge_id', (F, V, m, D, x, n)),
                                                          ('rank_ext', (s, fmerge(F, V, m, comp(x, D)), fmerge(F, V, m, unr(fs, fd, t)), n)), ('rank_ext', (s, fmerge(F, V, m, comp(x, D)), x, n)),
                                                          ('ncnt_total', (F, m, n))])
def l_kslice_at(s: AI, n: I, F: AI, V: AI, m: I, fs: AI, fd: I, t: I, D: AI, x: AI):
    return Implies(And(pos(fs, fd), fd >= 0, n >= 0, fd == n - m, m >= 0, dist(F, m), inrng(F, n, m), eqpre(comp(x, F), V, m), frees(D, F, m, n), valid(fs, comp(x, D), fd), rank(fs, comp(x, D), fd) == t),
                   kapp(kslice(s, n, F, V, m, fs, fd), t) == rank(s, x, n))


# R[u] = A[key(u)] for all u<t
gath = Function('gath', AI, AI, Key, I, B)
fgath = Function('fgath', AF, AF, Key, I, B)
DEFS['gath'] = lambda R, A, K, t: _pred(gath, (R, A, K, t), t, lambda u: Select(R, u) == Select(A, kapp(K, u)), [lambda u: Select(R, u)])
DEFS['fgath'] = lambda R, A, K, t: _pred(fgath, (R, A, K, t), t, lambda u: Select(R, u) == Select(A, kapp(K, u)), [lambda u: Select(R, u)])
ALWAYS |= {'gath', 'fgath'}


def trig_gathstep(nm):
    def t(apps):
        for a in apps.get(nm, ()):
            for R2, R, p, v in apps.get('*store', ()):
                if R.eq(a.arg(0)):
                    yield (R, R2, p, v, a.arg(1), a.arg(2), a.arg(3))
    return t


def _gathhints(S):
    return lambda R, R2, p, v, A, K, t: [kapp(K, t), Select(R, skf('w_' + S.name(), R.sort(), A.sort(), Key, I, I)(R2, A, K, t + 1))]


@lemma('gath_step', trig_gathstep('gath'), hints=_gathhints(gath))
def l_gath_step(R: AI, R2: AI, p: I, v: I, A: AI, K: Key, t: I):
    return Implies(And(gath(R, A, K, t), R2 == Store(R, p, v), p == t, v == Select(A, kapp(K, t)), t >= 0), gath(R2, A, K, t + 1))


@lemma('fgath_step', trig_gathstep('fgath'), hints=_gathhints(fgath))
def l_fgath_step(R: AF, R2: AF, p: I, v: Flt, A: AF, K: Key, t: I):
    return Implies(And(fgath(R, A, K, t), R2 == Store(R, p, v), p == t, v == Select(A, kapp(K, t)), t >= 0), fgath(R2, A, K, t + 1))


# sizes of the dimensions not in F
freesz = Function('freesz', AI, AI, AI, I, I, B)
DEFS['freesz'] = lambda R, S, F, m, n: _pred(freesz, (R, S, F, m, n), n, lambda p: Or(Select(mems(F, m), p), Select(R, ncnt(F, m, p)) == Select(S, p)), [lambda p: Select(mems(F, m), p), lambda p: Select(S, p)])
ALWAYS.add('freesz')
feqpre = Function('feqpre', AF, AF, I, B)
DEFS['feqpre'] = lambda x, y, n: _pred(feqpre, (x, y, n), n, lambda k: Select(x, k) == Select(y, k), [lambda k: Select(x, k), lambda k: Select(y, k)])
ALWAYS.add('feqpre')


# ---- the cell individual i belongs to when the cells are listed in order, A[j] individuals each
own = Function('own', AI, I, I, I)
DEFS['own'] = lambda A, n, i: [If(n <= 0, own(A, n, i) == 0, own(A, n, i) == If(i >= tsum(A, dec(n)), dec(n), own(A, dec(n), i)))]
RECARG['own'] = 1


@lemma('tsum_mono', lambda apps: (), ind=2)
def l_tsum_mono(A: AI, j: I, n: I):
    return Implies(And(allnn(A, n), 0 <= j, j <= n), tsum(A, j) <= tsum(A, n))


def trig_own(apps):
    for a in apps.get('own', ()):
        for t in apps.get('tsum', ()):
            if t.arg(0).eq(a.arg(0)):
                yield (a.arg(0), a.arg(1), a.arg(2), t.arg(1))


@lemma('own_at', trig_own, ind=1, hints=lambda A, n, i, j: [tsum(A, n), tsum(A, j), tsum(A, j + 1), own(A, n, i)], step_lemmas=lambda A, n, i, j: [('tsum_mono', (A, j + 1, n))])
def l_own_at(A: AI, n: I, i: I, j: I):
    return Implies(And(allnn(A, n), 0 <= j, j < n, tsum(A, j) <= i, i < tsum(A, j) + Select(A, j)), own(A, n, i) == j)


# ---- number of positions an index has passed: r while it is on position r, all of them afterwards
passed = Function('passed', I, I, I, I)
DEFS['passed'] = lambda e, n, r: [passed(e, n, r) == If(e == 1, n, r)]
ALWAYS.add('passed')


# ---- fit statistics, as left folds over the cells in storage order
fchi = Function('fchi', AI, AF, I, Flt)


def d_fchi(O, E, n):
    o, e, p = Select(O, dec(n)), Select(E, dec(n)), fchi(O, E, dec(n))
    d = fsub(sitof(o), e)
    return [If(n <= 0, fchi(O, E, n) == fconst(0.0), fchi(O, E, n) == If(And(o == 0, feq(e, fconst(0.0))), p, fadd(p, fdiv(fmul(d, d), e))))]


DEFS['fchi'] = d_fchi
# a count down from s by one per cell; degeneracy of the first n of s cells
fdown = Function('fdown', I, I, Flt)
fdegen = Function('fdegen', AI, I, I, Flt)
DEFS['fdown'] = lambda s, n: [If(n <= 0, fdown(s, n) == sitof(s), fdown(s, n) == fadd(fdown(s, dec(n)), fconst(-1.0)))]
DEFS['fdegen'] = lambda A, s, n: [If(n <= 0, fdegen(A, s, n) == fconst(1.0),
                                     fdegen(A, s, n) == fmul(fdegen(A, s, dec(n)), fdiv(fdown(s, dec(n)), ftgamma(sitof(Select(A, dec(n)) + 2)))))]


# ---- differences
fsubs = Function('fsubs', AF, AF, AF, I, B)
fsubi = Function('fsubi', AF, AF, AI, I, B)
DEFS['fsubs'] = lambda D, X, Y, n: _pred(fsubs, (D, X, Y, n), n, lambda k: Select(D, k) == fsub(Select(X, k), Select(Y, k)), [lambda k: Select(D, k)])
DEFS['fsubi'] = lambda D, X, Y, n: _pred(fsubi, (D, X, Y, n), n, lambda k: Select(D, k) == fsub(Select(X, k), sitof(Select(Y, k))), [lambda k: Select(D, k)])
ALWAYS |= {'fsubs', 'fsubi'}


# ---- integer division (non-negative dividend, positive divisor)
DEFS['quot'] = lambda a, b: [Implies(b > 0, And(0 <= a - b * quot(a, b), a - b * quot(a, b) < b)), Implies(And(b > 0, a >= 0), quot(a, b) >= 0)]
ALWAYS.add('quot')


@lemma('quot_exact', lambda apps: ((q.arg(0), q.arg(1), x) for q in apps.get('quot', ()) for x in apps.get('sufprod', ())))
def l_quot_exact(a: I, b: I, x: I):
    return Implies(And(b >= 1, a == b * x), quot(a, b) == x)


# ------------------------------------------------------------------ ground term collection
SPECNAMES = set()
_memo = {}


def _names():
    global SPECNAMES
    SPECNAMES = set(DEFS) | {'unr'} | TRIGNAMES


TRIGNAMES = set()


def apps_of(t):
    """set of ground applications of spec functions in t (memoized), as dict id->term"""
    key = t.get_id()
    hit = _memo.get(key)
    if hit is not None:
        return hit[1]
    res = {}
    stack = [t]
    seen = set()
    # iterative post-order would be needed for sharing memo; a simple walk with a seen set is enough
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            b = x.body()
            sub = _nonground_apps(b)
            for y in sub:
                res[y.get_id()] = y
            continue
        if z3.is_app(x):
            if x.num_args() or x.decl().name() == 'kall':
                nm = x.decl().name()
                if nm in SPECNAMES:
                    res[i] = x
                stack.extend(x.children())
    _memo[key] = (t, res)
    return res


def _has_var(x, memo):
    i = x.get_id()
    if i in memo:
        return memo[i]
    if z3.is_var(x):
        r = True
    elif z3.is_quantifier(x):
        r = True
    else:
        r = any(_has_var(c, memo) for c in x.children())
    memo[i] = r
    return r


def _nonground_apps(b):
    memo = {}
    out = []
    stack = [b]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x) and x.num_args():
            if x.decl().name() in SPECNAMES and not _has_var(x, memo):
                out.append(x)
            stack.extend(x.children())
    return out


def instances(formulas, hints=(), rounds=3, exclude=(), only=None, unfold=True, stores=()):
    """definition unfoldings and lemma instances for the ground spec terms of the formulas"""
    _names()
    done = set()
    insts = []
    allapps = {}

    def absorb(fs):
        for f in fs:
            allapps.update(apps_of(f))
    absorb(formulas)
    absorb(hints)
    first = set(allapps)
    holds = {f.get_id() for f in formulas}
    fails = {f.arg(0).get_id() for f in formulas if z3.is_not(f)}
    for rnd in range(rounds):
        by = {}
        for a in allapps.values():
            by.setdefault(a.decl().name(), []).append(a)
        by['*store'] = stores
        new = []
        for nm, lst in list(by.items()):
            if nm not in DEFS:
                continue
            for a in lst:
                if nm not in ALWAYS and not unfold:
                    continue
                if nm not in ALWAYS and a.get_id() not in first and not z3.is_int_value(a.arg(RECARG.get(nm, a.num_args() - 1))):
                    continue
                k = ('def', a.get_id())
                if k in done:
                    continue
                done.add(k)
                d = DEFS[nm](*a.children())
                if a.get_id() in holds and len(d) == 2 and z3.is_implies(d[0]) and d[0].arg(0).eq(a):
                    d = [d[0].arg(1)]
                elif a.get_id() in fails and len(d) == 2 and z3.is_or(d[1]) and d[1].arg(0).eq(a):
                    d = [d[1]]
                new.extend(d)
        for f in LEMMAS.values():
            if f.lname in exclude or (only is not None and f.lname not in only):
                continue
            for args in f.trig(by):
                k = (f.lname,) + tuple(x.get_id() for x in args)
                if k in done:
                    continue
                done.add(k)
                keep = f(*args)
                _keep.append((args, keep))
                if f.ind is not None and not (z3.is_int_value(args[f.ind])):
                    keep = Implies(args[f.ind] >= f.base, keep)
                new.append(keep)
        if not new:
            break
        insts.extend(new)
        absorb(new)
    return insts


_keep = []
