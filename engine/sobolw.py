"""Contracts of the Sobol class (Sobol.cpp) over models of the C generator.  The models of nlopt_sobol_* are the contracts that
sobolproof.py discharges against SobolImpl.cpp bit-precisely: a generator is its dimension and its position, the point at a
position is a function of the two."""
from contract import *
from spec import *
import stl

SOB = z3.Function('sobol', I, I, I, I)      # dimension, position, coordinate
SKIPN = z3.Function('sobolskip', I, I)      # points a skip of n discards: 1 for n <= 2, else the largest power of two below n
LAST = (1 << 32) - 1
SDIM, POS = 0, 288


def cellof(p, o):
    return p.field(o)


def live(e, st, p, what):
    if not isinstance(p, Ptr) or p.root is None:
        e.oblige(st, f'{what}: a generator', BoolVal(False))
        raise Unsupported(f'{what} without a generator')
    e.oblige(st, f'{what}: generator alive', BoolVal((p.root, p.offs) not in st.freed))


def m_create(e, st, a, I_, d):
    r = f'heap@{st.frames[-1]["__id"]}.{e.nextid()}'
    p = Ptr(r, (0,), ())
    e.local_roots.add(r)
    e.oblige(st, 'nlopt_sobol_create: valid dimension', And(1 <= a[0], a[0] <= 1111))
    st.write(cellof(p, SDIM), 'i', a[0])
    st.write(cellof(p, POS), 'i', IntVal(0))
    return [('ok', st, p)]


def out(e, st, s_, x, n, known):
    """the first coordinates of the buffer become the point at position n"""
    dim = st.read(cellof(s_, SDIM), 'i')
    e.checkrange(st, x, x.at(add(x.idx[-1], dim)), 'nlopt_sobol: buffer of one entry per coordinate')
    base = st.arr(x, 'i')
    c = e.fresh('pt', base.sort())
    k = qv()
    b = x.idx[-1]
    inside = And(b <= k, k < b + dim)
    st.assume(FA([k], Implies(Not(inside), Select(c, k) == Select(base, k)), [Select(c, k)]))
    st.assume(FA([k], Implies(inside, Select(c, k) == SOB(dim, n, k - b) if known else And(0 <= Select(c, k), Select(c, k) <= LAST)), [Select(c, k)]))
    st.setarr(x, 'i', c)


def m_next(e, st, a, I_, d):
    s_, x = a
    live(e, st, s_, 'nlopt_sobol_next')
    n = st.read(cellof(s_, POS), 'i')
    end = st.copy()
    end.assume(n == LAST)
    st.assume(n != LAST)
    st.write(cellof(s_, POS), 'i', add(n, IntVal(1)))
    out(e, st, s_, x, n + 1, True)
    return [('ok', end, IntVal(0)), ('ok', st, IntVal(1))]


def m_skip(e, st, a, I_, d):
    s_, k, x = a
    live(e, st, s_, 'nlopt_sobol_skip')
    n = st.read(cellof(s_, POS), 'i')
    e.oblige(st, 'nlopt_sobol_skip: something to skip, in the first half of the sequence', And(k != 0, n <= (LAST - 1) // 2))
    st.write(cellof(s_, POS), 'i', add(n, SKIPN(k)))
    out(e, st, s_, x, n, False)
    return [('ok', st, None)]


def m_destroy(e, st, a, I_, d):
    p = a[0]
    live(e, st, p, 'nlopt_sobol_destroy')
    st.freed.add((p.root, p.offs))
    return [('ok', st, None)]


stl.CFUN.update(nlopt_sobol_create=m_create, nlopt_sobol_next=m_next, nlopt_sobol_skip=m_skip, nlopt_sobol_destroy=m_destroy)
stl.CFUN['std::numeric_limits<uint>::max()'] = lambda e, st, a, I_, dn: [('ok', st, IntVal(LAST))]


class SobolV(View):
    cls = 'Sobol'
    dim = property(lambda s: s.i('m_dim'))
    pos = property(lambda s: s.i('m_pos'))
    buf = property(lambda s: s.vec('m_buf'))

    @property
    def gp(s):
        p = s.st.read_ptr(s.fp('m_s'))
        if p.root is None:
            raise Unsupported('Sobol without a generator')
        return p
    sdim = property(lambda s: s.st.read(cellof(s.gp, SDIM), 'i'))
    n = property(lambda s: s.st.read(cellof(s.gp, POS), 'i'))

    def inv(s):
        return [1 <= s.dim, s.dim <= 1111, s.sdim == s.dim, s.buf.n == s.dim, 0 <= s.pos, s.pos <= s.dim, 0 <= s.n, s.n <= LAST]

    def point(s, n):
        k = qv()
        return FA([k], Implies(And(0 <= k, k < s.dim), Select(s.buf.a, k) == SOB(s.dim, n, k)), [Select(s.buf.a, k)])


class SobolC(Contract):
    gen = True

    def setup(s, c):
        if s.gen:
            p = SobolV(c, c.st, c[0]).fp('m_s')
            c.st.pt[(p.root, p.offs)] = Ptr('gen', (0,), ())

    def v(s, c, old=False):
        return SobolV(c, c.st0 if old else c.st, c[0])

    def pre(s, c):
        return [('generator invariant', s.v(c).inv())]

    def moves(s, c):
        x = s.v(c)
        return [elems(x.buf.elem(0)), cell(cellof(x.gp, POS))]


@contract('Sobol::Sobol(ulong, uint)')
class SobolCtor(SobolC):
    gen = False

    def pre(s, c):
        return [('unsigned', [c[1] >= 0, c[2] >= 0, c[2] <= LAST])]

    def throws(s, c):
        return Or(c[1] < 1, c[1] > 1111)

    def modifies(s, c):
        return [subtree(c[0], c.e.prog.layouts['Sobol']['__size'])]

    def post(s, c):
        x = s.v(c)
        return [('a generator of the dimension', [1 <= x.dim, x.dim <= 1111, x.dim == c[1], x.sdim == c[1], x.buf.n == c[1]]), ('no buffered coordinates', x.pos == x.dim),
                ('at the start, or past the skipped points', x.n == If(c[2] == 0, IntVal(0), SKIPN(c[2])))]


@contract('Sobol::buf()')
class SobolBuf(SobolC):
    """the next point; an exception (and no change) after the last"""

    def throws(s, c):
        return s.v(c).n == LAST

    def modifies(s, c):
        return s.moves(c)

    def result(s, c):
        return s.v(c).fp('m_buf')

    def post(s, c):
        x, o = s.v(c), s.v(c, True)
        return [('one point further', x.n == o.n + 1), ('the point at the new position', x.point(o.n + 1)), ('generator invariant', x.inv())]


@contract('Sobol::operator()()')
class SobolCall(SobolC):
    """the next coordinate: points in order, coordinates of a point in order"""

    def throws(s, c):
        return And(s.v(c).n == LAST, s.v(c).pos == s.v(c).dim)

    def pre(s, c):
        x = s.v(c)
        return [('generator invariant', x.inv()), ('the buffered coordinates are those of the current point', Or(x.pos == x.dim, x.point(x.n)))]

    def modifies(s, c):
        return s.moves(c) + [cell(s.v(c).fp('m_pos'))]

    def post(s, c):
        x, o = s.v(c), s.v(c, True)
        nxt = o.pos == o.dim
        return [('moves to the next point only when the current one is used up', x.n == If(nxt, o.n + 1, o.n)), ('moves to the next coordinate', x.pos == If(nxt, IntVal(1), o.pos + 1)),
                ('returns the next coordinate', c.ret == SOB(x.dim, x.n, x.pos - 1)), ('the buffer holds the current point', x.point(x.n)), ('generator invariant', x.inv())]


@contract('Sobol::skip(uint)')
class SobolSkip(SobolC):
    def pre(s, c):
        x = s.v(c)
        return [('generator invariant', x.inv()), ('something to skip, in the first half of the sequence', [c[1] >= 1, x.n <= (LAST - 1) // 2])]

    def modifies(s, c):
        return s.moves(c)

    def post(s, c):
        x, o = s.v(c), s.v(c, True)
        return [('discards the number of points', x.n == o.n + SKIPN(c[1]))]


@contract('Sobol::reset(uint)')
class SobolReset(SobolC):
    def pre(s, c):
        return SobolC.pre(s, c) + [('unsigned', [c[1] >= 0, c[1] <= LAST])]

    def modifies(s, c):
        return [subtree(c[0], c.e.prog.layouts['Sobol']['__size'])]

    def post(s, c):
        x, o = s.v(c), s.v(c, True)
        return [('the same dimension', [x.dim == o.dim, x.sdim == o.dim, x.buf.n == o.dim]), ('at the start, or past the skipped points', x.n == If(c[1] == 0, IntVal(0), SKIPN(c[1])))]


@contract('Sobol::dim() const')
class SobolDim(SobolC):
    def post(s, c):
        return [('the dimension', c.ret == s.v(c).dim)]
