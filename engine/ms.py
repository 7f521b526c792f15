"""Contracts of the marginal problem base class (Microsynthesis) and of iterative proportional fitting (IPF)."""
from contract import *
from spec import *
from contracts import *

MCLS = {'long, long': 'Microsynthesis<long>', 'double, long': 'Microsynthesis<double, long>', 'double, double': 'Microsynthesis<double>'}
MARGROOT = 'marginals'


def castm(lm):
    return (lambda x: sitof(x)) if lm == 'i' else (lambda x: x)


class MSV(View):
    """a marginal problem: lt, lm element kinds of the table and of the marginals"""

    def __init__(s, c, st, p, lt, lm):
        s.cls = {('i', 'i'): 'Microsynthesis<long>', ('f', 'i'): 'Microsynthesis<double, long>', ('f', 'f'): 'Microsynthesis<double>'}[lt, lm]
        s.lt, s.lm = lt, lm
        View.__init__(s, c, st, p)
    dim = property(lambda s: s.i('m_dim'))
    sizes = property(lambda s: s.vec('m_sizes'))
    population = property(lambda s: s.i('m_population'))
    ind = property(lambda s: VecVec(s.st, s.fp('m_indices')))
    array = property(lambda s: ND(s.c, s.st, s.fp('m_array'), s.lt))

    @property
    def mp(s):
        return s.st.read_ptr(s.fp('m_marginals'))

    @property
    def mn(s):
        return s.st.veclen(s.mp)

    def M(s, k):
        return ND(s.c, s.st, s.mp.sub('E', k), s.lm)

    def I(s, k):
        return Select(s.ind.L, iv(k))

    def nI(s, k):
        return Select(s.ind.lens, iv(k))

    def key(s, k):
        """the position in marginal k of a position of the table"""
        a = s.array
        return kproj(a.sizes.a, a.dim, comp(a.sizes.a, s.I(k)), s.I(k), s.nI(k))

    def perk(s, fn, n=None, extra=()):
        return QF(s.ind.n if n is None else n, fn, [s.ind.L, s.ind.lens] + list(extra))

    def inv(s):
        a, d = s.array, s.dim

        def one(k):
            m = s.M(k)
            return [s.nI(k) == m.dim, s.nI(k) >= 1, *m.wf(), inrng(s.I(k), d, s.nI(k)), dist(s.I(k), s.nI(k)), eqpre(m.sizes.a, comp(a.sizes.a, s.I(k)), s.nI(k))]
        return [('one index list per marginal', s.ind.n == s.mn), ('at least two marginals', s.ind.n >= 2), ('table invariant', a.wf()), ('dimension of the table', And(d == a.dim, s.sizes.n == d)),
                ('sizes of the table', eqpre(s.sizes.a, a.sizes.a, d)), ('every marginal fits its dimensions', s.perk(one))]


def msetup(c, this=0):
    """the referenced list of marginals is an object of its own"""
    p = View.fp(MSV(c, c.st, c[this], c.k.lt, c.k.lm), 'm_marginals')
    c.st.pt[(p.root, p.offs)] = Ptr(MARGROOT)


# ------------------------------------------------------------------ differences
@contract(*[(f'void diff<double, {t}>(NDArray<double> const&, NDArray<{t}> const&, NDArray<double>&)', dict(lm=l)) for t, l in (('double', 'f'), ('long', 'i'))])
class Diff(Contract):
    def pre(s, c):
        x, y, d = c.nd(c[0], 'f'), c.nd(c[1], s.lm), c.nd(c[2], 'f')
        return [('array invariants', x.wf() + y.wf() + d.wf()), ('same dimensions', And(x.dim == y.dim, x.dim == d.dim)), ('same shapes', And(eqpre(x.sizes.a, y.sizes.a, x.dim), eqpre(x.sizes.a, d.sizes.a, x.dim)))]

    def modifies(s, c):
        return [elems(c.nd(c[2], 'f').dptr, 'f')]

    def P(s):
        return fsubs if s.lm == 'f' else fsubi

    def post(s, c):
        x, y, d = c.nd(c[0], 'f', True), c.nd(c[1], s.lm, True), c.nd(c[2], 'f')
        return [('every entry is the difference', s.P()(d.data, x.data, y.data, x.storage))]

    def loops(s, c, func, h, st0, hst, L):
        x, y = c.nd(c[0], 'f'), c.nd(c[1], s.lm)
        out = []
        for nm, p in iters(c, L):
            i = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, i=i: [valid(x.sizes.a, i(st).idx.a, x.dim)]))
            out.append((f'differences at the positions {nm} has passed', lambda st, i=i: [s.P()(ND(c, st, c[2], 'f').data, x.data, y.data, done_of(i(st)))]))
        return out


@contract(*[(f'Microsynthesis<double, {t}>::rDiff(std::vector<NDArray<double>>&)', dict(lt='f', lm=l)) for t, l in (('double', 'f'), ('long', 'i'))])
class RDiff(Contract):
    """every marginal subtracted from the corresponding sums of the table"""

    def setup(s, c):
        msetup(c)

    def ms(s, c, old=False):
        return MSV(c, c.st0 if old else c.st, c[0], s.lt, s.lm)

    def D(s, c, st, k):
        return ND(c, st, c[1].sub('E', k), 'f')

    def dwf(s, c, m, k):
        d = s.D(c, c.st, k)
        return d.wf() + [d.dim == m.nI(k), eqpre(d.sizes.a, m.M(k).sizes.a, d.dim)]

    def trig(s, c, st):
        d = s.D(c, st, IntVal(0))
        return [st.get((d.p.root, d.fp('m_dim').offs), 'i'), st.get((d.dptr.root, d.dptr.offs), 'f')]

    def pre(s, c):
        m = s.ms(c)
        return m.inv() + [('one difference table per marginal', c.st.veclen(c[1]) == m.mn), ('shaped like the marginal', m.perk(lambda k: s.dwf(c, m, k), extra=s.trig(c, c.st)))]

    def modifies(s, c):
        return [elemsn(s.D(c, c.st, IntVal(0)).dptr, 'f')]

    def isdiff(s, c, m, st, k):
        a = m.array
        j = qv('j')
        d = s.D(c, st, k)
        cst = castm(s.lm)
        return FA([j], Implies(And(0 <= j, j < m.M(k).storage), Select(d.data, j) == fsub(fksum(a.data, m.key(k), j, a.storage), cst(Select(m.M(k).data, j)))), [Select(d.data, j)])

    def post(s, c):
        m = s.ms(c, True)
        return [('every entry is the sum over the table minus the marginal', m.perk(lambda k: [s.isdiff(c, m, c.st, k)], extra=s.trig(c, c.st)[1:]))]

    def loops(s, c, func, h, st0, hst, L):
        m = s.ms(c)
        out = []
        for nm, v in L.vars():
            out.append((f'differences of the marginals below {nm}', lambda st, v=v: [m.perk(lambda k: [s.isdiff(c, m, st, k)], n=v(st), extra=s.trig(c, st)[1:])]))
        return out


def nested(c, st, base, leaf='f'):
    """(dimension component, data component) of a list of tables"""
    d = ND(c, st, base.sub('E', 0), leaf)
    g = lambda p, lf='i': st.get((p.root, p.offs), lf)
    return [g(d.fp('m_dim')), g(d.dptr, leaf), g(d.sizes.lenp), g(d.sizes.elem(0)), g(d.fp('m_storageSize'))]


def shapelist(c, st, base, n, sh, trig, leaf='f'):
    """n tables shaped like the marginals"""
    def one(k):
        d, m = ND(c, st, base.sub('E', k), leaf), sh(k)
        return d.wf() + [d.dim == m.dim, eqpre(d.sizes.a, m.sizes.a, d.dim)]
    return [('one table per marginal', st.veclen(base) == n), ('shaped like the marginal', QF(n, one, trig + nested(c, st, base, leaf)))]


@contract(*[(f'IPF<{t}>::computeErrors(std::vector<NDArray<double>>&)', dict(lt='f', lm=l)) for t, l in (('double', 'f'), ('long', 'i'))])
class ComputeErrors(Contract):
    """absolute differences, their maximum, and the verdict"""
    fl = OrdFloat

    def ipf(s, c):
        return c.e.prog.layouts[f'IPF<{"double" if s.lm == "f" else "long"}>']

    def maxp(s, c):
        return c[0].field(s.ipf(c)['m_maxError'][0])

    def errp(s, c):
        return c[0].field(s.ipf(c)['m_errors'][0])

    def tol(s, c, st):
        return st.read(c[0].field(s.ipf(c)['m_tol'][0]), 'f')

    def pre(s, c):
        n = c.st.veclen(c[1])
        d = lambda k: ND(c, c.st, c[1].sub('E', k), 'f')
        return [('at least one table', n >= 1), ('tables', QF(n, lambda k: d(k).wf(), nested(c, c.st, c[1])))] + shapelist(c, c.st, s.errp(c), n, d, nested(c, c.st, c[1]))

    def modifies(s, c):
        e = ND(c, c.st, s.errp(c).sub('E', 0), 'f')
        return [cell(s.maxp(c), 'f'), elemsn(e.dptr, 'f')]

    def D(s, c, k):
        return ND(c, c.st0, c[1].sub('E', k), 'f')

    def E(s, c, st, k):
        return ND(c, st, s.errp(c).sub('E', k), 'f')

    def err(s, c, k, j):
        return fabs_(Select(s.D(c, k).data, j))

    def mx(s, c, st):
        return st.read(s.maxp(c), 'f')

    def ismax(s, c, st, done, n):
        """the maximum over the entries (k,j) with done(k,j)"""
        m = s.mx(c, st)
        k, j = qv(), qv('j')
        k2, j2 = qv(), qv('j')
        dat = nested(c, c.st0, c[1])[1]
        e = lambda k, j: fabs_(Select(Select(dat, k), j))
        st_ = lambda k: s.D(c, k).storage
        inr = lambda k, j: And(0 <= k, k < n, 0 <= j, j < st_(k), done(k, j))
        none = m == fconst(-1.7976931348623157e308)
        return [('a NaN is not masked', FA([k, j], Implies(And(inr(k, j), fnan(e(k, j))), fnan(m)), [Select(Select(dat, k), j)])),
                ('no entry is larger', FA([k2, j2], Implies(And(inr(k2, j2), Not(fnan(m))), Not(flt(m, e(k2, j2)))), [Select(Select(dat, k2), j2)]))]

    def attained(s, c, st, done, n):
        m = s.mx(c, st)
        k, j = qv(), qv('j')
        dat = nested(c, c.st0, c[1])[1]
        return z3.Exists([k, j], And(0 <= k, k < n, 0 <= j, j < s.D(c, k).storage, done(k, j), m == fabs_(Select(Select(dat, k), j))), patterns=[Select(Select(dat, k), j)])

    def post(s, c):
        n = c.st0.veclen(c[1])
        al = lambda k, j: BoolVal(True)
        j = qv('j')
        return [('errors are the absolute differences', QF(n, lambda k: [FA([j], Implies(And(0 <= j, j < s.D(c, k).storage), Select(s.E(c, c.st, k).data, j) == s.err(c, k, j)), [Select(s.E(c, c.st, k).data, j)])],
                                                          nested(c, c.st0, c[1]) + nested(c, c.st, s.errp(c)))),
                *s.ismax(c, c.st, al, n), ('the maximum is one of the entries', s.attained(c, c.st, al, n)),
                ('converged exactly if the maximum is below the tolerance', c.ret == flt(s.mx(c, c.st), s.tol(c, c.st0)))]

    def loops(s, c, func, h, st0, hst, L):
        n = c.st0.veclen(c[1])
        out = []
        j = qv('j')
        its = iters(c, L)
        none = fconst(-1.7976931348623157e308)
        for nm, v in L.allvars():
            inner = not L.mod['keys'].get(None) and not any(nm == a for a, _ in L.vars())
            eq = lambda st, k, up: FA([j], Implies(And(0 <= j, j < up), Select(s.E(c, st, k).data, j) == s.err(c, k, j)), [Select(s.E(c, st, k).data, j)])
            trig = lambda st: nested(c, c.st0, c[1]) + nested(c, st, s.errp(c))
            out.append((f'errors of the tables below {nm}', lambda st, v=v: [QF(v(st), lambda k: [eq(st, k, s.D(c, k).storage)], trig(st))]))
            dn = lambda st, v=v: (lambda k, j: k < v(st))
            for i in (0, 1):
                out.append((f'maximum of the tables below {nm} {i}', lambda st, v=v, i=i: [s.ismax(c, st, dn(st, v), n)[i][1]]))
            out.append((f'maximum is among the tables below {nm}', lambda st, v=v: [If(v(st) == 0, s.mx(c, st) == none, s.attained(c, st, dn(st, v), n))]))
            for inm, p in its:
                x = lambda st, p=p: IndexV(c, st, p)
                out.append((f'{inm} is a position of table {nm}', lambda st, v=v, x=x: [valid(s.D(c, v(st)).sizes.a, x(st).idx.a, s.D(c, v(st)).dim)]))
                out.append((f'errors at the positions of table {nm} {inm} has passed', lambda st, v=v, x=x: [eq(st, v(st), done_of(x(st)))]))
                dn2 = lambda st, v=v, x=x: (lambda k, j: Or(k < v(st), And(k == v(st), j < done_of(x(st)))))
                for i in (0, 1):
                    out.append((f'maximum of the positions of table {nm} {inm} has passed {i}', lambda st, v=v, i=i, x=x: [s.ismax(c, st, dn2(st, v, x), n)[i][1]]))
                out.append((f'maximum is among the positions of table {nm} {inm} has passed', lambda st, v=v, x=x: [If(And(v(st) == 0, done_of(x(st)) == 0), s.mx(c, st) == none, s.attained(c, st, dn2(st, v, x), n))]))
        return out
