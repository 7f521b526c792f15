"""The contracts of the code under verification."""
from contract import *
from spec import *


# ------------------------------------------------------------------ Index
@contract('Index::operator++()')
class IndexInc(Contract):
    """odometer: the next index in row-major order, or back to all zeros with the end flag set"""

    def pre(s, c):
        return [('index invariant', c.index(c[0]).inv())]

    def modifies(s, c):
        x = c.index(c[0])
        return [elems(x.idx.elem(0)), cell(x.fp('m_atEnd'))]

    def result(s, c):
        return c.index(c[0]).fp('m_idx')

    def post(s, c):
        x, o = c.index(c[0]), c.index(c[0], True)
        sz, d = o.sizes.a, o.dim
        last = o.rank() == prod(sz, d) - 1
        return [('the new index is valid', valid(sz, x.idx.a, d)),
                ('moves to the next rank', Implies(Not(last), And(x.rank() == o.rank() + 1, x.atEnd == o.atEnd))),
                ('wraps to zero and sets the end flag after the last', Implies(last, And(zeros(x.idx.a, d), x.rank() == 0, x.atEnd == 1)))]

    def hints(s, c):
        x, o = c.index(c[0]), c.index(c[0], True)
        h = [maxed(o.sizes.a, o.idx.a, o.dim), zeros(x.idx.a, o.dim)]
        e = c.e
        for k, t in c.st.m.items():
            if k[0].startswith('i@') or (k[1] == (0,) and k[0] in e.local_roots and e.leaf.get(k) == 'i'):
                h.append(carry(o.sizes.a, o.idx.a, x.idx.a, t, o.dim))
        return h

    def loops(s, c, func, h, st0, hst, L):
        out = []
        x0 = c.index(c[0])
        a0, sz, d = x0.idx.a, x0.sizes.a, x0.dim
        for nm, v in L.vars():
            for w, off in ((nm, 0),):
                def f(st, v=v):
                    a = c.e and IndexV(c, st, c[0]).idx.a
                    k = qv()
                    i = v(st)
                    return [FA([k], Implies(And(0 <= k, k < d), If(k > i, And(Select(a, k) == 0, Select(a0, k) == Select(sz, k) - 1), Select(a, k) == Select(a0, k))), [Select(a, k)])]
                out.append((f'odometer at {nm}', f))

                def g(st, v=v):
                    x = IndexV(c, st, c[0])
                    return [x.atEnd == If(v(st) < 0, IntVal(1), x0.atEnd)]
                out.append((f'end flag set iff {nm} < 0', g))
        return out


def odometer(a, a0, sz, i, d, up=True):
    """positions after i wrapped from their maximum to 0, the others unchanged"""
    k = qv()
    past = k > i if up else k < i
    return FA([k], Implies(And(0 <= k, k < d), If(past, And(Select(a, k) == 0, Select(a0, k) == Select(sz, k) - 1), Select(a, k) == Select(a0, k))), [Select(a, k)])


@contract('TransposedIndex::operator++()')
class TIndexInc(Contract):
    """column-major odometer"""

    def pre(s, c):
        return [('index invariant', c.index(c[0]).inv())]

    def modifies(s, c):
        x = c.index(c[0])
        return [elems(x.idx.elem(0)), cell(x.fp('m_atEnd'))]

    def result(s, c):
        return c.index(c[0]).fp('m_idx')

    def post(s, c):
        x, o = c.index(c[0]), c.index(c[0], True)
        sz, d = o.sizes.a, o.dim
        r0, r1 = crank(sz, o.idx.a, d), crank(sz, x.idx.a, d)
        last = r0 == prod(sz, d) - 1
        return [('the new index is valid', valid(sz, x.idx.a, d)),
                ('moves to the next rank', Implies(Not(last), And(r1 == r0 + 1, x.atEnd == o.atEnd))),
                ('wraps to zero and sets the end flag after the last', Implies(last, And(zeros(x.idx.a, d), r1 == 0, x.atEnd == 1)))]

    def hints(s, c):
        x, o = c.index(c[0]), c.index(c[0], True)
        h = [maxed(o.sizes.a, o.idx.a, o.dim), zeros(x.idx.a, o.dim)]
        for k, t in c.st.m.items():
            if k[1] == (0,) and k[0] in c.e.local_roots and c.e.leaf.get(k) == 'i':
                h.append(tcarry(o.sizes.a, o.idx.a, x.idx.a, t, o.dim))
        return h

    def loops(s, c, func, h, st0, hst, L):
        out = []
        x0 = c.index(c[0])
        a0, sz, d = x0.idx.a, x0.sizes.a, x0.dim
        for nm, v in L.vars():
            out.append((f'odometer at {nm}', lambda st, v=v: [odometer(IndexV(c, st, c[0]).idx.a, a0, sz, v(st), d, False)]))
            out.append((f'end flag set iff {nm} == dim', lambda st, v=v: [IndexV(c, st, c[0]).atEnd == If(v(st) >= d, IntVal(1), x0.atEnd)]))
        return out


@contract('Index::Index(std::vector<long> const&)')
class IndexCtor(Contract):
    def pre(s, c):
        z = c.vec(c[1])
        return [('at least one dimension', z.n >= 1), ('no empty dimension', pos(z.a, z.n))]

    def modifies(s, c):
        return [subtree(c[0], c.e.prog.layouts['Index']['__size'])]

    def define(s, c):
        x, z = c.index(c[0]), c.vec(c[1])
        return [(x.fp('m_dim'), 'i', z.n), (x.idx.lenp, 'i', z.n), (x.sizes.lenp, 'i', z.n), (x.sizes.elem(0), 'i', z.a, z.n),
                (x.fp('m_storageSize'), 'i', prod(z.a, z.n)), (x.fp('m_atEnd'), 'i', IntVal(0))]

    def post(s, c):
        x, z = c.index(c[0]), c.vec(c[1])
        return [('starts at zero', [zeros(x.idx.a, z.n), valid(z.a, x.idx.a, z.n), rank(z.a, x.idx.a, z.n) == 0])]

    def ptrs(s, c):
        pass

    def loops(s, c, func, h, st0, hst, L):
        z = c.vec(c[1])
        return [(f'product up to {nm}', lambda st, v=v: [IndexV(c, st, c[0]).storage == prod(Vec(st, IndexV(c, st, c[0]).fp('m_sizes')).a, v(st))]) for nm, v in L.vars()]


NDT = [(t, lf) for t, lf in (('long', 'i'), ('double', 'f'))]


@contract(*[(f'NDArray<{t}>::operator[](std::vector<long> const&){k}', dict(leaf=lf)) for t, lf in NDT for k in ('', ' const')])
class NDAt(Contract):
    """element access: the element at the row-major rank of the index"""

    def pre(s, c):
        n, x = c.nd(c[0]), c.vec(c[1])
        return [('array invariant', n.wf()), ('index has one entry per dimension', x.n == n.dim), ('index inside the array', valid(n.sizes.a, x.a, n.dim))]

    def result(s, c):
        n, x = c.nd(c[0], old=True), c.vec(c[1], old=True)
        return n.dptr.at(n.rank(x.a))

    def post(s, c):
        n, x = c.nd(c[0], old=True), c.vec(c[1], old=True)
        return [('inside the storage', And(0 <= n.rank(x.a), n.rank(x.a) < n.storage))]

    def loops(s, c, func, h, st0, hst, L):
        n, x = c.nd(c[0]), c.vec(c[1])
        return [(f'{m} is the offset of the first {nm} indices', lambda st, v=v, w=w: [w(st) == dot(n.offs.a, x.a, v(st))]) for nm, v in L.vars() for m, w in L.vars() if m != nm]


@contract(*[(f'NDArray<{t}>::operator[](std::vector<long*> const&){k}', dict(leaf=lf)) for t, lf in NDT for k in ('', ' const')])
class NDAtP(Contract):
    """element access through a mapped index"""

    def setup(s, c):
        q = c[1].sub('E', 0)
        c.st.pt[(q.root, q.offs)] = Region('target', (16, 'E', 0), ())

    def pre(s, c):
        n, x = c.nd(c[0]), PVec(c.st0, c[1])
        return [('array invariant', n.wf()), ('index has one entry per dimension', x.n == n.dim), ('pointers are valid', inrng(x.d, x.lim, n.dim)),
                ('index inside the array', valid(n.sizes.a, x.x, n.dim))]

    def result(s, c):
        n, x = c.nd(c[0], old=True), PVec(c.st0, c[1])
        return n.dptr.at(n.rank(x.x))

    def post(s, c):
        n, x = c.nd(c[0], old=True), PVec(c.st0, c[1])
        return [('inside the storage', And(0 <= n.rank(x.x), n.rank(x.x) < n.storage))]

    def loops(s, c, func, h, st0, hst, L):
        n, x = c.nd(c[0]), PVec(st0, c[1])
        return [(f'{m} is the offset of the first {nm} indices', lambda st, v=v, w=w: [w(st) == dot(n.offs.a, x.x, v(st))]) for nm, v in L.vars() for m, w in L.vars() if m != nm]


# ------------------------------------------------------------------ NDArray: shape and storage
def ndsize(e, leaf):
    return e.prog.layouts['NDArray<long>' if leaf == 'i' else 'NDArray<double>']['__size']


@contract(*[(f'NDArray<{t}>::computeOffsets()', dict(leaf=lf)) for t, lf in NDT])
class NDOffsets(Contract):
    """row-major strides"""

    def pre(s, c):
        n = c.nd(c[0])
        return [('shape', [n.dim >= 1, n.sizes.n == n.dim, pos(n.sizes.a, n.dim), n.storage == prod(n.sizes.a, n.dim)])]

    def modifies(s, c):
        return vecall(c.nd(c[0]).fp('m_offsets'))

    def post(s, c):
        n = c.nd(c[0])
        return [('one stride per dimension', n.offs.n == n.dim), ('row-major strides', wfoff(n.sizes.a, n.offs.a, n.dim))]

    def hints(s, c):
        n = c.nd(c[0])
        w = skf('w_wfoff', AI, AI, I, I)(n.sizes.a, n.offs.a, n.dim)
        return [wfoff(n.sizes.a, n.offs.a, n.dim), sufprod(n.sizes.a, w, n.dim), sufprod(n.sizes.a, w + 1, n.dim), sufprod(n.sizes.a, n.dim, n.dim)]

    def loops(s, c, func, h, st0, hst, L):
        n = c.nd(c[0])
        sz, d = n.sizes.a, n.dim
        out = []
        for nm, v in L.vars():
            for m, w in L.vars():
                if m != nm:
                    out.append((f'{m} is the product of the sizes from {nm}', lambda st, v=v, w=w: [w(st) == sufprod(sz, v(st), d)]))
            def f(st, v=v):
                k = qv()
                o = ND(c, st, c[0], s.leaf).offs.a
                return [FA([k], Implies(And(0 <= k, k < v(st)), Select(o, k) == sufprod(sz, k + 1, d)), [Select(o, k)])]
            out.append((f'strides below {nm}', f))
        return out


@contract(*[(f'NDArray<{t}>::resize(std::vector<long> const&)', dict(leaf=lf)) for t, lf in NDT])
class NDResize(Contract):
    def pre(s, c):
        n = c.nd(c[0])
        return [('storage is allocated', [n.storage >= 0, n.cap >= n.storage, Or(n.owned == 0, n.owned == 1)])]

    def throws(s, c):
        n, z = c.nd(c[0], old=True), c.vec(c[1], old=True)
        return Not(And(n.owned == 1, z.n >= 1, pos(z.a, z.n)))

    def modifies(s, c):
        return [subtree(c[0], ndsize(c.e, s.leaf))]

    def define(s, c):
        n, z = c.nd(c[0]), c.vec(c[1])
        return [(n.fp('m_dim'), 'i', z.n), (n.sizes.lenp, 'i', z.n), (n.offs.lenp, 'i', z.n), (n.sizes.elem(0), 'i', z.a, z.n), (n.fp('m_storageSize'), 'i', prod(z.a, z.n))]

    def post(s, c):
        n, z = c.nd(c[0]), c.vec(c[1])
        return [('array invariant', n.wf()), ('owns its storage', n.owned == 1)]

    def loops(s, c, func, h, st0, hst, L):
        z = c.vec(c[1])
        out = []
        for nm, v in L.vars():
            out.append((f'storage is the product up to {nm}', lambda st, v=v: [ND(c, st, c[0], s.leaf).storage == prod(z.a, v(st))]))
            out.append((f'sizes below {nm} are positive', lambda st, v=v: [pos(z.a, v(st))]))
        return out


@contract(*[(f'NDArray<{t}>::NDArray(std::vector<long> const&)', dict(leaf=lf)) for t, lf in NDT])
class NDCtor(NDResize):
    def pre(s, c):
        return []

    def throws(s, c):
        z = c.vec(c[1], old=True)
        return Not(And(z.n >= 1, pos(z.a, z.n)))


@contract(*[(f'NDArray<{t}>::NDArray(std::vector<long> const&, {t}*)', dict(leaf=lf)) for t, lf in NDT])
class NDCtorBorrow(NDResize):
    """wraps storage managed by the caller, who promises that it is large enough"""

    def setup(s, c):
        c.args[2] = Ptr('storage', (0, 'P', 0), (IntVal(0),))

    def pre(s, c):
        z = c.vec(c[1])
        return [('storage is large enough', capof(c.st, c[2]) >= prod(z.a, z.n))]

    def throws(s, c):
        z = c.vec(c[1], old=True)
        return Not(And(z.n >= 1, pos(z.a, z.n)))

    def ptrs(s, c):
        p = c.nd(c[0]).fp('m_data')
        c.st.pt[(p.root, p.offs)] = c[2]

    def post(s, c):
        n, z = c.nd(c[0]), c.vec(c[1])
        return [('array invariant', n.wf()), ('does not own its storage', n.owned == 0),
                ('uses the given storage', ptr_eq(n.dptr, c[2]))]


@contract(*[(f'NDArray<{t}>::NDArray()', dict(leaf=lf)) for t, lf in NDT])
class NDCtor0(Contract):
    def modifies(s, c):
        return [subtree(c[0], ndsize(c.e, s.leaf))]

    def ptrs(s, c):
        p = c.nd(c[0]).fp('m_data')
        c.st.pt[(p.root, p.offs)] = NULL

    def post(s, c):
        n = c.nd(c[0])
        return [('empty and owned', [n.dim == 0, n.storage == 0, n.owned == 1, n.sizes.n == 0, n.cap == 0])]


@contract(*[(f'NDArray<{t}>::assign({t}) const', dict(leaf=lf)) for t, lf in NDT])
class NDAssign(Contract):
    def pre(s, c):
        n = c.nd(c[0])
        return [('storage is allocated', [n.storage >= 0, n.cap >= n.storage])]

    def modifies(s, c):
        return [elems(c.nd(c[0]).dptr, s.leaf)]

    def post(s, c):
        n = c.nd(c[0])
        k = qv()
        return [('every element has the value', FA([k], Implies(And(0 <= k, k < n.storage), Select(n.data, k) == c[1]), [Select(n.data, k)]))]


@contract(*[(f'NDArray<{t}>::copy(NDArray<{t}> const&, NDArray<{t}>&)', dict(leaf=lf)) for t, lf in NDT])
class NDCopy(Contract):
    def pre(s, c):
        a, b = c.nd(c[0]), c.nd(c[1])
        return [('source invariant', a.wf()), ('destination storage', [b.storage >= 0, b.cap >= b.storage, Or(b.owned == 0, b.owned == 1)])]

    def throws(s, c):
        return c.nd(c[1], old=True).owned != 1

    def modifies(s, c):
        return [subtree(c[1], ndsize(c.e, s.leaf))]

    def post(s, c):
        a, b = c.nd(c[0]), c.nd(c[1])
        k = qv()
        return [('array invariant', b.wf()), ('same shape', [b.dim == a.dim, eqpre(b.sizes.a, a.sizes.a, a.dim), b.storage == a.storage]), ('owns its storage', b.owned == 1),
                ('same elements', FA([k], Implies(And(0 <= k, k < a.storage), Select(b.data, k) == Select(a.data, k)), [Select(b.data, k)]))]

    def hints(s, c):
        a, b = c.nd(c[0]), c.nd(c[1])
        return [prod(a.sizes.a, a.dim), prod(b.sizes.a, b.dim)]


@contract(*[(f'NDArray<{t}>::NDArray(NDArray<{t}>&&)', dict(leaf=lf)) for t, lf in NDT])
class NDMove(Contract):
    """takes over shape, storage and ownership; the source no longer owns anything"""

    def modifies(s, c):
        a = c.nd(c[1])
        return [subtree(c[0], ndsize(c.e, s.leaf)), vecall(a.fp('m_sizes')), vecall(a.fp('m_offsets')), cell(a.fp('m_owned'))]

    def ptrs(s, c):
        p = c.nd(c[0]).fp('m_data')
        c.st.pt[(p.root, p.offs)] = c.nd(c[1]).dptr

    def post(s, c):
        n, a, o = c.nd(c[0]), c.nd(c[1]), c.nd(c[1], old=True)
        return [('same shape', [n.dim == o.dim, n.sizes.n == o.sizes.n, n.offs.n == o.offs.n, eqpre(n.sizes.a, o.sizes.a, o.sizes.n), eqpre(n.offs.a, o.offs.a, o.offs.n), n.storage == o.storage]),
                ('ownership moves', [n.owned == o.owned, a.owned == 0]), ('same storage', ptr_eq(n.dptr, o.dptr))]


# ------------------------------------------------------------------ indices over a subset of the dimensions
def regionof(st, vec, target):
    q = vec.sub('E', 0)
    st.pt[(q.root, q.offs)] = Region(target.root, target.offs, target.idx[:-1])


class SubInc(Contract):
    """odometer over the positions D of another index: everything else stays where it is"""

    def pre(s, c):
        return [('index invariant', s.view(c).inv())]

    def modifies(s, c):
        x = s.view(c)
        return [elems(x.pv.tp), cell(x.fp('m_atEnd'))]

    def result(s, c):
        return c[0]

    def post(s, c):
        x, o = s.view(c), s.view(c, True)
        sz, d, D = o.sizes.a, o.dim, o.pv.d
        y, y0 = x.pv.x, o.pv.x
        last = rank(sz, y0, d) == prod(sz, d) - 1
        return [('the new position is valid', valid(sz, y, d)),
                ('moves to the next rank', Implies(Not(last), And(rank(sz, y, d) == rank(sz, y0, d) + 1, x.atEnd == o.atEnd))),
                ('wraps to zero and sets the end flag after the last', Implies(last, And(zeros(y, d), rank(sz, y, d) == 0, x.atEnd == 1))),
                ('moves only its own dimensions', sameoff(x.pv.a, o.pv.a, D, d))]

    def hints(s, c):
        x, o = s.view(c), s.view(c, True)
        sz, d = o.sizes.a, o.dim
        h = [maxed(sz, o.pv.x, d), zeros(x.pv.x, d), mems(o.pv.d, d)]
        for k, t in c.st.m.items():
            if k[1] == (0,) and k[0] in c.e.local_roots and c.e.leaf.get(k) == 'i':
                h.append(carry(sz, o.pv.x, x.pv.x, t, d))
        return h

    def loops(s, c, func, h, st0, hst, L):
        o = s.view(c)
        sz, d, D, a0, x0 = o.sizes.a, o.dim, o.pv.d, o.pv.a, o.pv.x
        out = []

        def now(st):
            return s.view(Ctx(c.e, s, c.args, st, st))
        for nm, v in L.vars():
            out.append((f'odometer at {nm}', lambda st, v=v: [odometer(now(st).pv.x, x0, sz, v(st), d)]))
            out.append((f'end flag set iff {nm} < 0', lambda st, v=v: [now(st).atEnd == If(v(st) < 0, IntVal(1), o.atEnd)]))
        out.append(('only its own dimensions', lambda st: [sameoff(now(st).pv.a, a0, D, d)]))
        return out


@contract('MappedIndex::operator++()')
class MappedInc(SubInc):
    def setup(s, c):
        regionof(c.st, MappedV(c, c.st, c[0]).fp('m_mappedIndex'), Ptr('target', (16, 'E', 0), (IntVal(0),)))

    def view(s, c, old=False):
        return MappedV(c, c.st0 if old else c.st, c[0])


@contract('FixedIndex::operator++()')
class FixedInc(SubInc):
    def setup(s, c):
        v = FixedV(c, c.st, c[0])
        regionof(c.st, v.fp('m_freeIndex'), v.full.idx.elem(0))

    def pre(s, c):
        # with every dimension fixed there is nothing to iterate over
        return SubInc.pre(s, c) + [('at least one free dimension', s.view(c).dim >= 1)]

    def view(s, c, old=False):
        return FixedV(c, c.st0 if old else c.st, c[0])


@contract('MappedIndex::MappedIndex(Index const&, std::vector<long> const&)')
class MappedCtor(Contract):
    def pre(s, c):
        x, md = c.index(c[1]), c.vec(c[2])
        return [('index invariant', x.shape()), ('dimensions exist', inrng(md.a, x.dim, md.n))]

    def modifies(s, c):
        return [subtree(c[0], c.e.prog.layouts['MappedIndex']['__size'])]

    def ptrs(s, c):
        regionof(c.st, MappedV(c, c.st, c[0]).fp('m_mappedIndex'), c.index(c[1]).idx.elem(0))

    def post(s, c):
        m, x, md = MappedV(c, c.st, c[0]), c.index(c[1]), c.vec(c[2])
        if not m.pv.tp.root == x.p.root:
            return [('refers to the index', BoolVal(False))]
        k = qv()
        return [('sizes are positive', pos(m.sizes.a, md.n)), ('the dimensions exist', inrng(md.a, x.dim, md.n)), ('at the end iff the index is', m.atEnd == x.atEnd)]

    def define(s, c):
        m, x, md = MappedV(c, c.st, c[0]), c.index(c[1]), c.vec(c[2])
        return [(m.fp('m_dim'), 'i', md.n), (m.sizes.lenp, 'i', md.n), (Vec(c.st, m.fp('m_mappedIndex')).lenp, 'i', md.n),
                (m.sizes.elem(0), 'i', comp(x.sizes.a, md.a), md.n), (m.fp('m_mappedIndex').sub('E', 0), 'i', md.a, md.n)]

    def loops(s, c, func, h, st0, hst, L):
        x, md = c.index(c[1]), c.vec(c[2])
        out = []
        for nm, v in L.vars():
            def f(st, v=v):
                m = MappedV(c, st, c[0])
                k = qv()
                q = m.fp('m_mappedIndex').sub('E', 0)
                if (q.root, q.offs) not in st.pt:
                    r = [v(st) == 0]
                else:
                    r = [eqpre(m.pv.d, md.a, v(st))]
                return r + [eqpre(m.sizes.a, comp(x.sizes.a, md.a), v(st))]
            out.append((f'entries below {nm}', f))
        return out


class PairVec:
    """vector of pairs of integers"""

    def __init__(s, st, p):
        s.st, s.p = st, p
        s.n = st.veclen(p)
        s.first = st.arr(p.sub('E', 0), 'i')
        s.second = st.arr(p.sub('E', 0, 8), 'i')


def fixpre(sz, n, f):
    """distinct existing dimensions, each fixed inside its range"""
    return [('fixed dimensions exist', inrng(f.first, n, f.n)), ('fixed dimensions are distinct', dist(f.first, f.n)),
            ('fixed inside their range', valid(comp(sz, f.first), f.second, f.n))]


def freelist(D, fd, F, m, n):
    """D[0..fd) lists in increasing order the dimensions that are not in F[0..m)"""
    k, l, p = qv(), qv('l'), qv('p')
    return [FA([k], Implies(And(0 <= k, k < fd), And(0 <= Select(D, k), Select(D, k) < n, Not(Select(mems(F, m), Select(D, k))))), [Select(D, k)]),
            FA([k, l], Implies(And(0 <= k, k < l, l < fd), Select(D, k) < Select(D, l)), [(Select(D, k), Select(D, l))]),
            FA([p], Implies(And(0 <= p, p < n, Not(Select(mems(F, m), p))), Select(mems(D, fd), p)), [Select(mems(F, m), p)])]


@contract('FixedIndex::FixedIndex(std::vector<long> const&, std::vector<std::pair<long, long>> const&)')
class FixedCtor(Contract):
    def pre(s, c):
        z, f = c.vec(c[1]), PairVec(c.st, c[2])
        return [('at least one dimension', z.n >= 1), ('no empty dimension', pos(z.a, z.n))] + fixpre(z.a, z.n, f)

    def modifies(s, c):
        return [subtree(c[0], c.e.prog.layouts['FixedIndex']['__size'])]

    def ptrs(s, c):
        v = FixedV(c, c.st, c[0])
        regionof(c.st, v.fp('m_freeIndex'), v.full.idx.elem(0))

    def define(s, c):
        x, z, f = FixedV(c, c.st, c[0]), c.vec(c[1]), PairVec(c.st, c[2])
        fd, n, full = z.n - f.n, z.n, x.full
        fi = Vec(c.st, x.fp('m_freeIndex'))
        return [(x.fp('m_freeDim'), 'i', fd), (x.sizes.lenp, 'i', fd), (fi.lenp, 'i', fd), (full.fp('m_dim'), 'i', n), (full.idx.lenp, 'i', n), (full.sizes.lenp, 'i', n),
                (full.sizes.elem(0), 'i', z.a, n), (full.fp('m_storageSize'), 'i', prod(z.a, n)), (x.sizes.elem(0), 'i', comp(z.a, fi.a), fd), (x.fp('m_atEnd'), 'i', IntVal(0))]

    def post(s, c):
        x, z, f = FixedV(c, c.st, c[0]), c.vec(c[1]), PairVec(c.st, c[2])
        full, n, fd = x.full, z.n, z.n - f.n
        fi = Vec(c.st, x.fp('m_freeIndex'))
        D, xs = fi.a, comp(full.idx.a, fi.a)
        return [('fixed positions', eqpre(comp(full.idx.a, f.first), f.second, f.n)),
                ('full index inside its range', valid(z.a, full.idx.a, n)),
                ('free dimensions in increasing order', freelist(D, fd, f.first, f.n, n)),
                ('position of every free dimension', frees(D, f.first, f.n, n)),
                ('free dimensions are distinct and exist', [fd >= 0, dist(D, fd), inrng(D, n, fd)]),
                ('sizes of the free dimensions', pos(x.sizes.a, fd)),
                ('starts at zero', [zeros(xs, fd), valid(x.sizes.a, xs, fd), rank(x.sizes.a, xs, fd) == 0])]

    def always(s, c):
        z, f = c.vec(c[1]), PairVec(c.st, c[2])
        return [ncnt(f.first, f.n, z.n), mems(f.first, f.n), comp(z.a, f.first)]

    def loops(s, c, func, h, st0, hst, L):
        z, f = c.vec(c[1]), PairVec(c.st, c[2])
        n, F, V, m, sz = z.n, f.first, f.second, f.n, z.a
        out = []
        k, p = qv(), qv('p')
        M = mems(F, m)
        now = lambda st: FixedV(c, st, c[0])
        full = lambda st: now(st).full.idx.a
        third = L.writes(now(c.st).fp('m_freeIndex').sub('E', 0)) or L.writes(Ptr(now(c.st).fp('m_freeIndex').root, now(c.st).fp('m_freeIndex').offs + ('len',), ()))
        p6, p7 = qv(), qv()
        if not third:
            for nm, v in L.vars():
                k1, k2 = qv(), qv()
                out.append((f'invalid below {nm}', lambda st, v=v, k1=k1: [FA([k1], Implies(And(0 <= k1, k1 < v(st)), Select(full(st), k1) == -1), [Select(full(st), k1)])]))
                out.append((f'fixed below {nm}', lambda st, v=v, k2=k2: [FA([k2], Implies(And(0 <= k2, k2 < v(st)), Select(full(st), Select(F, k2)) == Select(V, k2)), [Select(F, k2)])]))
            out.append(('the others are invalid', lambda st: [FA([p6], Implies(And(0 <= p6, p6 < n, Not(Select(M, p6))), Select(full(st), p6) == -1), [Select(full(st), p6)])]))
            return out
        for nm, v in L.vars():
            k4, l4, p4, p5, p8 = [qv() for _ in range(5)]
            out.append((f'invalid or fixed, from {nm}', lambda st, v=v, p5=p5: [FA([p5], Implies(And(v(st) <= p5, p5 < n, Not(Select(M, p5))), Select(full(st), p5) == -1), [Select(full(st), p5)])]))
            out.append((f'in range below {nm}', lambda st, v=v, p8=p8: [FA([p8], Implies(And(0 <= p8, p8 < v(st)), And(0 <= Select(full(st), p8), Select(full(st), p8) < Select(sz, p8))), [Select(full(st), p8)])]))

            def lists(st, v=v, k4=k4, l4=l4, p4=p4):
                x = now(st)
                q = x.fp('m_freeIndex').sub('E', 0)
                ln = Vec(st, x.fp('m_freeIndex')).n
                r = [ln == ncnt(F, m, v(st))]
                if (q.root, q.offs) not in st.pt:
                    return r + [v(st) == 0]
                D = x.pv.d
                return r + [FA([k4], Implies(And(0 <= k4, k4 < ln), And(0 <= Select(D, k4), Select(D, k4) < v(st), Not(Select(M, Select(D, k4))), Select(full(st), Select(D, k4)) == 0,
                                             Select(x.sizes.a, k4) == Select(sz, Select(D, k4)), Select(x.sizes.a, k4) >= 1)), [Select(D, k4), Select(x.sizes.a, k4)]),
                            FA([k4, l4], Implies(And(0 <= k4, k4 < l4, l4 < ln), Select(D, k4) < Select(D, l4)), [(Select(D, k4), Select(D, l4))]),
                            FA([p4], Implies(And(0 <= p4, p4 < v(st), Not(Select(M, p4))), Select(mems(D, ln), p4)), [Select(M, p4)])]
            out.append((f'free dimensions below {nm}', lists))
            out.append((f'position of every free dimension below {nm}', lambda st, v=v: [frees(now(st).pv.d, F, m, v(st)) if (now(st).fp('m_freeIndex').sub('E', 0).root, now(st).fp('m_freeIndex').sub('E', 0).offs) in st.pt else v(st) == 0]))
            for nm2, w in L.vars():
                if nm2 != nm:
                    out.append((f'{nm2} counts the free dimensions below {nm}', lambda st, v=v, w=w: [w(st) == ncnt(F, m, v(st))]))
        out.append(('fixed', lambda st: [FA([p], Implies(And(0 <= p, p < m), Select(full(st), Select(F, p)) == Select(V, p)), [Select(F, p)])]))
        return out


# ------------------------------------------------------------------ reductions and slices
def SUMSTO(leaf):
    return sumsto if leaf == 'i' else fsumsto


def KSUM(leaf):
    return ksum if leaf == 'i' else fksum


def ZEROS(leaf):
    return zeros if leaf == 'i' else fzeros


def locals_of(c, L, cls):
    return [(r.partition('@')[0], Ptr(r)) for r, t in c.e.roots.items() if r in c.e.local_roots and r.partition('@')[2] == L.frame and c.e.isclass(t, cls)]


def same(a, b, n, leaf):
    """the first n elements agree"""
    if leaf == 'i':
        return eqpre(a, b, n)
    return feqpre(a, b, n)


def iters(c, L):
    """the iterators among the locals of the function: (name, pointer) of Index objects"""
    return [(r.partition('@')[0], Ptr(r)) for r, t in c.e.roots.items() if r in c.e.local_roots and r.partition('@')[2] == L.frame and c.e.isclass(t, 'Index')]


def done_of(x):
    """number of positions an Index has passed"""
    return passed(x.atEnd, x.storage, x.rank())


@contract(*[(f'std::vector<{t}> reduce<{t}>(NDArray<{t}> const&, ulong)', dict(leaf=lf)) for t, lf in NDT])
class Reduce1(Contract):
    """sums onto one dimension"""

    def pre(s, c):
        return [('array invariant', c.nd(c[1]).wf()), ('unsigned', c[2] >= 0)]

    def throws(s, c):
        return c[2] >= c.nd(c[1], old=True).dim

    def modifies(s, c):
        return vecall(c[0], s.leaf)

    def key(s, c):
        n = c.nd(c[1], old=True)
        return kdig(n.sizes.a, n.dim, c[2])

    def define(s, c):
        n = c.nd(c[1], old=True)
        return [(Vec(c.st, c[0]).lenp, 'i', Select(n.sizes.a, c[2]))]

    def post(s, c):
        n, r = c.nd(c[1], old=True), c.vec(c[0], s.leaf)
        return [('every entry is the sum over the cells of its category', SUMSTO(s.leaf)(r.a, n.data, s.key(c), n.storage, r.n))]

    def loops(s, c, func, h, st0, hst, L):
        n = c.nd(c[1])
        out = []
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(n.sizes.a, x(st).idx.a, n.dim)]))
            out.append((f'sums over the positions {nm} has passed', lambda st, x=x: [SUMSTO(s.leaf)(Vec(st, c[0], s.leaf).a, n.data, s.key(c), done_of(x(st)), Select(n.sizes.a, c[2]))]))
        return out


@contract(*[(f'NDArray<{t}> reduce<{t}>(NDArray<{t}> const&, std::vector<long> const&)', dict(leaf=lf)) for t, lf in NDT])
class ReduceM(Contract):
    """sums onto several dimensions"""

    def pre(s, c):
        return [('array invariant', c.nd(c[1]).wf())]

    def throws(s, c):
        n, d = c.nd(c[1], old=True), c.vec(c[2], old=True)
        return Not(And(inrng(d.a, n.dim, d.n), d.n >= 1))

    def modifies(s, c):
        return [subtree(c[0], ndsize(c.e, s.leaf))]

    def define(s, c):
        r, n, d = c.nd(c[0]), c.nd(c[1], old=True), c.vec(c[2], old=True)
        return [(r.fp('m_dim'), 'i', d.n), (r.sizes.lenp, 'i', d.n), (r.offs.lenp, 'i', d.n), (r.sizes.elem(0), 'i', comp(n.sizes.a, d.a), d.n)]

    def key(s, c, rsz):
        n, d = c.nd(c[1], old=True), c.vec(c[2], old=True)
        return kproj(n.sizes.a, n.dim, rsz, d.a, d.n)

    def post(s, c):
        r, n = c.nd(c[0]), c.nd(c[1], old=True)
        return [('result invariant', r.wf()), ('owns its storage', r.owned == 1),
                ('every entry is the sum over the cells projecting to it', SUMSTO(s.leaf)(r.data, n.data, s.key(c, r.sizes.a), n.storage, r.storage))]

    def loops(s, c, func, h, st0, hst, L):
        n, d = c.nd(c[1]), c.vec(c[2])
        out = []
        for nm, v in L.vars():
            for an, ap in L.arrays():
                out.append((f'{an} holds the kept sizes below {nm}', lambda st, v=v, ap=ap: [eqpre(st.arr(ap, 'i'), comp(n.sizes.a, d.a), v(st))]))
            out.append((f'dimensions below {nm} exist', lambda st, v=v: [inrng(d.a, n.dim, v(st))]))
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(n.sizes.a, x(st).idx.a, n.dim)]))

            def sums(st, x=x):
                r = ND(c, st, c[0], s.leaf)
                return [SUMSTO(s.leaf)(r.data, n.data, s.key(c, r.sizes.a), done_of(x(st)), r.storage)]
            out.append((f'sums over the positions {nm} has passed', sums))
        return out


def GATH(leaf):
    return gath if leaf == 'i' else fgath


@contract(*[(f'NDArray<{t}> slice<{t}>(NDArray<{t}> const&, std::vector<std::pair<long, long>> const&)', dict(leaf=lf)) for t, lf in NDT])
class SliceM(Contract):
    """the cells with the fixed categories, in order"""

    def pre(s, c):
        return [('array invariant', c.nd(c[1]).wf())]

    def throws(s, c):
        n, f = c.nd(c[1], old=True), PairVec(c.st0, c[2])
        return Not(And(inrng(f.first, n.dim, f.n), valid(comp(n.sizes.a, f.first), f.second, f.n), dist(f.first, f.n), f.n < n.dim))

    def modifies(s, c):
        return [subtree(c[0], ndsize(c.e, s.leaf))]

    def key(s, c, rsz):
        n, f = c.nd(c[1], old=True), PairVec(c.st0, c[2])
        return kslice(n.sizes.a, n.dim, f.first, f.second, f.n, rsz, n.dim - f.n)

    def define(s, c):
        r, n, f = c.nd(c[0]), c.nd(c[1], old=True), PairVec(c.st0, c[2])
        d = n.dim - f.n
        return [(r.fp('m_dim'), 'i', d), (r.sizes.lenp, 'i', d), (r.offs.lenp, 'i', d)]

    def post(s, c):
        r, n, f = c.nd(c[0]), c.nd(c[1], old=True), PairVec(c.st0, c[2])
        k = qv()
        return [('result invariant', r.wf()), ('owns its storage', r.owned == 1),
                ('without fixed dimensions a copy', Implies(f.n == 0, And(eqpre(r.sizes.a, n.sizes.a, n.dim), r.storage == n.storage, same(r.data, n.data, n.storage, s.leaf)))),
                ('the sizes of the other dimensions', Implies(f.n >= 1, freesz(r.sizes.a, n.sizes.a, f.first, f.n, n.dim))),
                ('every cell is the one with the fixed categories', Implies(f.n >= 1, GATH(s.leaf)(r.data, n.data, s.key(c, r.sizes.a), r.storage)))]

    def loops(s, c, func, h, st0, hst, L):
        n, f = c.nd(c[1]), PairVec(c.st, c[2])
        out = []
        fx = [(nm, p) for nm, p in locals_of(c, L, 'FixedIndex')]
        for nm, v in L.vars():
            out.append((f'fixed dimensions below {nm} exist', lambda st, v=v: [inrng(f.first, n.dim, v(st))]))
            out.append((f'fixed categories below {nm} exist', lambda st, v=v: [valid(comp(n.sizes.a, f.first), f.second, v(st))]))
            out.append((f'fixed dimensions below {nm} are distinct', lambda st, v=v: [dist(f.first, v(st))]))
            for nm2, w in L.allvars():
                if nm2 != nm:
                    k = qv()
                    out.append((f'dimension {nm2} differs from those below {nm}', lambda st, v=v, w=w, k=k: [FA([k], Implies(And(0 <= k, k < v(st)), Select(f.first, k) != Select(f.first, w(st))), [Select(f.first, k)])]))
        for nm, p in fx:
            x = lambda st, p=p: FixedV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(n.sizes.a, x(st).full.idx.a, n.dim)]))
            out.append((f'{nm} is a position of the slice', lambda st, x=x: [valid(x(st).sizes.a, x(st).pv.x, x(st).dim)]))
            out.append((f'{nm} keeps the fixed categories', lambda st, x=x: [eqpre(comp(x(st).full.idx.a, f.first), f.second, f.n)]))
            out.append((f'cells {nm} has passed', lambda st, x=x: [GATH(s.leaf)(ND(c, st, c[0], s.leaf).data, n.data, s.key(c, ND(c, st, c[0], s.leaf).sizes.a),
                                                                            passed(x(st).atEnd, ND(c, st, c[0], s.leaf).storage, x(st).rank()))]))
        return out


# ------------------------------------------------------------------ whole-table functions
@contract(*[(f'{t} sum<{t}>(NDArray<{t}> const&)', dict(leaf=lf)) for t, lf in NDT])
class SumND(Contract):
    def pre(s, c):
        return [('array invariant', c.nd(c[0]).wf())]

    def post(s, c):
        n = c.nd(c[0])
        return [('sum of all elements', c.ret == (tsum if s.leaf == 'i' else ftsum)(n.data, n.storage))]


@contract('long min<long>(NDArray<long> const&)')
class MinND(Contract):
    """negative exactly if there is a negative element"""
    leaf = 'i'

    def pre(s, c):
        return [('array invariant', c.nd(c[0]).wf())]

    def post(s, c):
        n = c.nd(c[0])
        return [('not negative if no element is', Implies(allnn(n.data, n.storage), c.ret >= 0)), ('no element is negative if it is not', Implies(c.ret >= 0, allnn(n.data, n.storage)))]

    def loops(s, c, func, h, st0, hst, L):
        n = c.nd(c[0])
        out = []
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(n.sizes.a, x(st).idx.a, n.dim)]))
            for vn, v in L.vars():
                out.append((f'{vn} is negative iff one of the passed elements is', lambda st, v=v, x=x: [allnn(n.data, done_of(x(st))) == (v(st) >= 0)]))
        return out


@contract('double chiSq<long, double>(NDArray<long> const&, NDArray<double> const&)')
class ChiSq(Contract):
    def pre(s, c):
        o, e = c.nd(c[0], 'i'), c.nd(c[1], 'f')
        return [('array invariant', o.wf()), ('array invariant of the reference', e.wf()), ('same dimension', o.dim == e.dim), ('same shape', eqpre(o.sizes.a, e.sizes.a, o.dim))]

    def post(s, c):
        o, e = c.nd(c[0], 'i'), c.nd(c[1], 'f')
        return [('chi-squared over every cell', c.ret == fchi(o.data, e.data, o.storage))]

    def loops(s, c, func, h, st0, hst, L):
        o, e = c.nd(c[0], 'i'), c.nd(c[1], 'f')
        out = []
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(o.sizes.a, x(st).idx.a, o.dim)]))
            for vn, v in L.floats():
                out.append((f'{vn} is the statistic of the cells {nm} has passed', lambda st, v=v, x=x: [v(st) == fchi(o.data, e.data, done_of(x(st)))]))
        return out


@contract('degeneracy(NDArray<long> const&)')
class Degeneracy(Contract):
    def pre(s, c):
        return [('array invariant', c.nd(c[0], 'i').wf())]

    def post(s, c):
        o = c.nd(c[0], 'i')
        return [('S!/prod (n_i+1)! over every cell', c.ret == fdegen(o.data, o.storage, o.storage))]

    def loops(s, c, func, h, st0, hst, L):
        o = c.nd(c[0], 'i')
        out = []
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(o.sizes.a, x(st).idx.a, o.dim)]))
            for vn, v in L.floats():
                out.append((f'{vn} is the degeneracy of the cells {nm} has passed', lambda st, v=v, x=x: [v(st) == fdegen(o.data, o.storage, done_of(x(st)))]))
                out.append((f'{vn} counts down the cells {nm} has passed', lambda st, v=v, x=x: [v(st) == fdown(o.storage, done_of(x(st)))]))
        return out


class VecVec:
    """vector of vectors"""

    def __init__(s, st, p, leaf='i'):
        s.n = st.veclen(p)
        e = p.sub('E', 0)
        s.ep = e.sub('E', 0)
        s.L = st.get((e.root, s.ep.offs), leaf)
        s.lens = st.get((e.root, Vec(st, e).lenp.offs), 'i')


@contract('std::vector<std::vector<int>> listify<long>(ulong, NDArray<long> const&, int)')
class Listify(Contract):
    """one entry per individual in every list: the category of the individual's cell, cells in row-major order"""
    leaf = 'i'

    def measures(s, c, func, h, st0, hst):
        n = c.nd(c[2])
        out = []
        for r, t in c.e.roots.items():
            if r in c.e.local_roots and c.e.isclass(t, 'Index'):
                for k in list(st0.m):
                    if k[1] == (0,) and k[0] in c.e.local_roots and c.e.leaf.get(k) == 'i' and '.addr' not in k[0]:
                        out.append((f'individuals left: {k[0]}', lambda st, k=k, r=r: Select(n.data, IndexV(c, st, Ptr(r)).rank()) - st.get(k, 'i')))
        return out

    def pre(s, c):
        n = c.nd(c[2])
        k = qv()
        return [('array invariant', n.wf()), ('one-based or zero-based', And(0 <= c[3], c[3] <= 1)), ('population', And(c[1] >= 0, Implies(allnn(n.data, n.storage), c[1] == tsum(n.data, n.storage)))),
                ('fewer than 2^31-1 categories', FA([k], Implies(And(0 <= k, k < n.dim), Select(n.sizes.a, k) < (1 << 31) - 1), [Select(n.sizes.a, k)]))]

    def throws(s, c):
        n = c.nd(c[2], old=True)
        return Not(allnn(n.data, n.storage))

    def modifies(s, c):
        return [subtree(c[0], 24)]

    def listed(s, c, st, upto, d0=None, at=None):
        n = c.nd(c[2])
        v = VecVec(st, c[0])
        d, i = qv('d'), qv('i')
        e = lambda d, i: Select(Select(v.L, d), i)
        cat = lambda d, i: Select(unr(n.sizes.a, n.dim, own(n.data, n.storage, i)), d) + c[3]
        if d0 is None:
            return FA([d, i], Implies(And(0 <= d, d < n.dim, 0 <= i, i < upto), e(d, i) == cat(d, i)), [e(d, i)])
        return FA([d], Implies(And(0 <= d, d < d0), e(d, at) == cat(d, at)), [Select(v.L, d)])

    def post(s, c):
        n = c.nd(c[2], old=True)
        v = VecVec(c.st, c[0])
        d = qv('d')
        return [('one list per dimension', v.n == n.dim), ('one entry per individual', FA([d], Implies(And(0 <= d, d < n.dim), Select(v.lens, d) == c[1]), [Select(v.lens, d)])),
                ('the category of every individual\'s cell', s.listed(c, c.st, c[1]))]

    def loops(s, c, func, h, st0, hst, L):
        n = c.nd(c[2])
        out = []
        for nm, p in iters(c, L):
            x = lambda st, p=p: IndexV(c, st, p)
            out.append((f'{nm} is a position of the table', lambda st, x=x: [valid(n.sizes.a, x(st).idx.a, n.dim)]))
            for vn, v in L.allvars():
                out.append((f'at most the individuals of the current cell: {vn}', lambda st, v=v, x=x: [v(st) <= Select(n.data, x(st).rank())]))
                out.append((f'individuals of the cells {nm} has passed: {vn}', lambda st, v=v, x=x: [v(st) == tsum(n.data, done_of(x(st)))]))
                for wn, w in L.allvars():
                    if wn != vn:
                        out.append((f'{wn} individuals of the current cell: {vn}', lambda st, v=v, w=w, x=x: [v(st) == tsum(n.data, x(st).rank()) + w(st)]))
        for vn, v in L.allvars():
            out.append((f'individuals below {vn} are listed', lambda st, v=v: [s.listed(c, st, v(st))]))
            for wn, w in L.vars():
                if wn != vn and L.writes(VecVec(c.st, c[0]).ep):
                    out.append((f'individual {vn} in the lists below {wn}', lambda st, v=v, w=w: [s.listed(c, st, 0, w(st), v(st))]))
        return out


# ------------------------------------------------------------------ marginal problems
MS = [('double, double', 'double', 'f', 'f'), ('double, long', 'long', 'f', 'i'), ('long, long', 'long', 'i', 'i')]


@contract(*[f'Microsynthesis<{a}>::invert(ulong, std::vector<long> const&)' for a, _, _, _ in MS[:2]])
class Invert(Contract):
    """the numbers below max that are not excluded, in increasing order"""

    def pre(s, c):
        return [('unsigned', c[2] >= 0)]

    def modifies(s, c):
        return vecall(c[0])

    def define(s, c):
        return [(Vec(c.st, c[0]).lenp, 'i', ncnt(c.vec(c[3]).a, c.vec(c[3]).n, c[2]))]

    def post(s, c):
        f, r = c.vec(c[3]), c.vec(c[0])
        k, l = qv(), qv('l')
        M = mems(f.a, f.n)
        return [('position of every number that is not excluded', frees(r.a, f.a, f.n, c[2])), ('existing numbers', inrng(r.a, c[2], r.n)), ('distinct', dist(r.a, r.n)),
                ('not excluded', FA([k], Implies(And(0 <= k, k < r.n), Not(Select(M, Select(r.a, k)))), [Select(r.a, k)]))]

    def loops(s, c, func, h, st0, hst, L):
        f = c.vec(c[3])
        M = mems(f.a, f.n)
        out = []
        k, l = qv(), qv('l')
        for nm, v in L.vars():
            r = lambda st: Vec(st, c[0])
            out.append((f'number of entries below {nm}', lambda st, v=v: [r(st).n == ncnt(f.a, f.n, v(st))]))
            out.append((f'position of every number below {nm} that is not excluded', lambda st, v=v: [frees(r(st).a, f.a, f.n, v(st))]))
            out.append((f'existing numbers below {nm}', lambda st, v=v: [inrng(r(st).a, v(st), r(st).n)]))
            out.append((f'distinct, below {nm}', lambda st, v=v: [dist(r(st).a, r(st).n)]))
            out.append((f'not excluded, below {nm}', lambda st, v=v: [FA([k], Implies(And(0 <= k, k < r(st).n), Not(Select(M, Select(r(st).a, k)))), [Select(r(st).a, k)])]))
        return out
