"""Contracts: specification views over memory, contract objects, checking a function against its contract, and using a
contract at a call site."""
import time, sys, itertools
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal
from ir import Unsupported, T, PTR
import spec, sym, stl
from spec import I, B, Flt, FA, qv
from sym import *
from execu import Exec, UNDEF


# ------------------------------------------------------------------ views
class Vec:
    def __init__(s, st, p, leaf='i'):
        s.st, s.p, s.leaf = st, p, leaf

    @property
    def n(s):
        return s.st.veclen(s.p)

    @property
    def a(s):
        return s.st.arr(s.p.sub('E', 0), s.leaf)

    def __getitem__(s, i):
        return Select(s.a, iv(i))

    def elem(s, i):
        return s.p.sub('E', i)

    @property
    def lenp(s):
        return Ptr(s.p.root, s.p.offs + ('len',), s.p.idx)


class View:
    cls = None

    def __init__(s, c, st, p):
        s.c, s.st, s.p = c, st, p
        e = c if isinstance(c, Engine) else c.e
        s.e = e
        s.L = e.prog.layouts.get(s.cls) if s.cls else None

    def off(s, f):
        try:
            return s.L[f][0]
        except (KeyError, TypeError):
            raise Unsupported(f'no field {f} in {s.cls}')

    def fp(s, f):
        return s.p.field(s.off(f))

    def i(s, f):
        return s.st.read(s.fp(f), 'i')

    def vec(s, f, leaf='i'):
        return Vec(s.st, s.fp(f), leaf)


class IndexV(View):
    cls = 'Index'
    dim = property(lambda s: s.i('m_dim'))
    idx = property(lambda s: s.vec('m_idx'))
    sizes = property(lambda s: s.vec('m_sizes'))
    storage = property(lambda s: s.i('m_storageSize'))
    atEnd = property(lambda s: s.i('m_atEnd'))

    def shape(s):
        """the part of the invariant that iteration never changes"""
        d = s.dim
        return [d >= 1, s.idx.n == d, s.sizes.n == d, spec.pos(s.sizes.a, d), s.storage == spec.prod(s.sizes.a, d)]

    def inv(s):
        return s.shape() + [spec.valid(s.sizes.a, s.idx.a, s.dim), Or(s.atEnd == 0, s.atEnd == 1)]

    def rank(s):
        return spec.rank(s.sizes.a, s.idx.a, s.dim)


class ND(View):
    def __init__(s, c, st, p, leaf='i'):
        s.cls = 'NDArray<long>' if leaf == 'i' else 'NDArray<double>'
        s.leaf = leaf
        View.__init__(s, c, st, p)
    dim = property(lambda s: s.i('m_dim'))
    sizes = property(lambda s: s.vec('m_sizes'))
    offs = property(lambda s: s.vec('m_offsets'))
    storage = property(lambda s: s.i('m_storageSize'))
    owned = property(lambda s: s.i('m_owned'))

    @property
    def dptr(s):
        return s.st.read_ptr(s.fp('m_data'))

    @property
    def data(s):
        return s.st.arr(s.dptr, s.leaf)

    @property
    def cap(s):
        return capof(s.st, s.dptr)

    def wf(s, data=True):
        d = s.dim
        r = [d >= 1, s.sizes.n == d, s.offs.n == d, spec.pos(s.sizes.a, d), spec.wfoff(s.sizes.a, s.offs.a, d),
             s.storage == spec.prod(s.sizes.a, d)]
        if data:
            r.append(s.cap >= s.storage)
        return r

    def rank(s, x):
        return spec.rank(s.sizes.a, x, s.dim)


class PVec:
    """vector of pointers into one array: target array A, positions D, values x[k] = A[D[k]]"""

    def __init__(s, st, p):
        s.st, s.p = st, p
        q = p.sub('E', 0)
        s.r = st.pt.get((q.root, q.offs))
        if not isinstance(s.r, Region):
            raise Unsupported(f'pointer vector {p} without a known target')

    @property
    def n(s):
        return s.st.veclen(s.p)

    @property
    def d(s):
        return s.st.arr(s.p.sub('E', 0), 'i')

    @property
    def tp(s):
        return Ptr(s.r.root, s.r.offs, s.r.prefix + (IntVal(0),))

    @property
    def a(s):
        return s.st.arr(s.tp, 'i')

    @property
    def lim(s):
        """number of elements of the target"""
        return s.st.read(Ptr(s.r.root, s.r.offs[:-2] + ('len',), s.r.prefix), 'i')

    @property
    def x(s):
        return spec.comp(s.a, s.d)


class MappedV(View):
    cls = 'MappedIndex'
    dim = property(lambda s: s.i('m_dim'))
    sizes = property(lambda s: s.vec('m_sizes'))
    atEnd = property(lambda s: s.i('m_atEnd'))

    @property
    def pv(s):
        return PVec(s.st, s.fp('m_mappedIndex'))

    def shape(s):
        d = s.dim
        return [d >= 0, s.sizes.n == d, s.pv.n == d, spec.pos(s.sizes.a, d), spec.inrng(s.pv.d, s.pv.lim, d), spec.dist(s.pv.d, d)]

    def rank(s):
        return spec.rank(s.sizes.a, s.pv.x, s.dim)

    def inv(s):
        return s.shape() + [spec.valid(s.sizes.a, s.pv.x, s.dim), Or(s.atEnd == 0, s.atEnd == 1)]


class FixedV(MappedV):
    cls = 'FixedIndex'
    dim = property(lambda s: s.i('m_freeDim'))
    sizes = property(lambda s: s.vec('m_freeSizes'))
    atEnd = property(lambda s: s.i('m_atEnd'))

    @property
    def full(s):
        return IndexV(s.c, s.st, s.fp('m_fullIndex'))

    @property
    def pv(s):
        return PVec(s.st, s.fp('m_freeIndex'))


def capof(st, p):
    if p.root is None:
        return IntVal(0)
    if p.offs[-2:-1] != ('P',):
        raise Unsupported(f'capacity of {p}')
    return st.read(Ptr(p.root, p.offs[:-2] + ('cap',), p.idx[:-1]), 'i')


# ------------------------------------------------------------------ modified locations
class Mod:
    def __init__(s, kind, p, leaf=None, size=None):
        s.kind, s.p, s.leaf, s.size = kind, p, leaf, size


def cell(p, leaf='i'):
    return Mod('cell', p, leaf)


def elems(p, leaf='i'):
    """all elements of the array p points into"""
    return Mod('elems', p, leaf)


def elemsn(p, leaf='i'):
    """all elements of the arrays of all containers"""
    return Mod('all', p, leaf)


def vecall(p, leaf='i'):
    return [Mod('cell', Ptr(p.root, p.offs + ('len',), p.idx), 'i'), Mod('elems', p.sub('E', 0), leaf)]


def subtree(p, size):
    return Mod('sub', p, None, size)


def flat(l):
    out = []
    for x in l:
        if isinstance(x, (list, tuple)):
            out += flat(x)
        else:
            out.append(x)
    return out


# ------------------------------------------------------------------ contracts
class Ctx:
    def __init__(s, e, contract, args, st0, st, ret=None, dn=''):
        s.e, s.k, s.args, s.st0, s.st, s.ret, s.dn = e, contract, args, st0, st, ret, dn

    def __getitem__(s, i):
        return s.args[i]

    def index(s, p, old=False):
        return IndexV(s, s.st0 if old else s.st, p)

    def nd(s, p, leaf=None, old=False):
        return ND(s, s.st0 if old else s.st, p, leaf or s.k.leaf or 'i')

    def vec(s, p, leaf='i', old=False):
        return Vec(s.st0 if old else s.st, p, leaf)


class Contract:
    """pre/post: lists of (label, formula); throws(c): None (never), or the condition under which the function throws"""
    leaf = None
    inline_ok = False
    fl = AbsFloat

    def __init__(s, name, **kw):
        s.name = name
        s.__dict__.update(kw)

    def setup(s, c):
        pass

    def pre(s, c):
        return []

    def post(s, c):
        return []

    def modifies(s, c):
        return []

    def ptrs(s, c):
        """effects on pointer fields at a call site"""

    def define(s, c):
        """components with a definite new value: (pointer, leaf, term) for a cell, (pointer to element 0, leaf, term, n) for the
        first n elements of an array.  Obligations when the function is verified; at a call site the values are used directly
        (elements beyond the length of a container are unobservable: every access is checked against the length)"""
        return []

    def result(s, c):
        return None

    def throws(s, c):
        return BoolVal(False)

    def loops(s, c, func, h, st0, hst, mod):
        return []

    def measures(s, c, func, h, st0, hst):
        return []

    def hints(s, c):
        return []

    def always(s, c):
        """terms over the initial state that every query may need"""
        return []


class Registry:
    def __init__(s):
        s.by = {}

    def add(s, c):
        s.by[c.name] = c
        return c

    def find(s, dn):
        return s.by.get(dn)


REG = Registry()


def contract(*names, **kw):
    def deco(cls):
        for n in names:
            if isinstance(n, tuple):
                n, k2 = n
            else:
                k2 = {}
            REG.add(cls(n, **dict(kw, **k2)))
        return cls
    return deco


class Verifier(Exec):
    def __init__(s, prog, fl=None, opts=None, contracts=REG, skip=()):
        Exec.__init__(s, prog, contracts, fl, opts)
        s.models = stl.Models(prog)
        s.target = None
        s.arrlen, s.heapbytes, s.objtype = {}, {}, {}
        s.globals_read = set()
        s.loopdepth = 0
        s.modcache, s.invcache, s.deadptr = {}, {}, set()
        s.mod = None
        s.reach = {}
        s.frameskip = set()
        s.always0 = []

    def isclass(s, t, name):
        return t.k not in ('int', 'fp', 'ptr') and isinstance(t.a, str) and t.a.strip('%"').split('.', 1)[-1] == name

    def configure(s, c):
        s.refs = getattr(c, 'refs', {})

    def measures(s, func, st0, h, hst, mod):
        out = []
        newc = set()
        for key in mod['keys']:
            t = mod['hst'].m.get(key)
            if t is not None:
                newc |= consts_of(t)
        scal = [k for k, l in mod['keys'].items() if l == 'i' and depth(k[1]) == 0 and k[1][-1] != 'cap']
        for key in scal:
            rd = lambda st, key=key: st.get(key, 'i')
            for a, b in mod['cmps']:
                for x, y in ((a, b), (b, a)):
                    if consts_of(x) & consts_of(mod['hst'].m.get(key, IntVal(0))) and not consts_of(y) & newc:
                        out.append((f'bound - {kname(key)}', lambda st, rd=rd, y=y: y - rd(st)))
                        out.append((f'{kname(key)} - bound', lambda st, rd=rd, y=y: rd(st) - y))
                        break
            out.append((kname(key), lambda st, rd=rd: rd(st) + 1))
        if s.target is not None:
            touched = {k[0] for k in mod['keys']} | {k[0] for k in mod['subs']}
            for r, t in list(s.roots.items()):
                if r in touched and r in s.local_roots:
                    if s.isclass(t, 'Index'):
                        x = lambda st, r=r: IndexV(s.ctx0, st, Ptr(r))
                        out.insert(0, (f'positions left of {r}', lambda st, x=x: x(st).storage - spec.passed(x(st).atEnd, x(st).storage, x(st).rank())))
                    elif s.isclass(t, 'FixedIndex'):
                        x = lambda st, r=r: FixedV(s.ctx0, st, Ptr(r))
                        out.insert(0, (f'positions left of {r}', lambda st, x=x: (lambda n: n - spec.passed(x(st).atEnd, n, x(st).rank()))(spec.prod(x(st).sizes.a, x(st).dim))))
            out = s.target.measures(s.ctx0, func, h, st0, hst) + out
        for key in mod['ptrs']:
            p0 = st0.pt.get(key)
            if depth(key[1]) == 0 and isinstance(p0, Ptr) and p0.idx:
                for k2, v2 in list(st0.pt.items()):
                    if k2 != key and k2 not in mod['ptrs'] and isinstance(v2, Ptr) and v2.root == p0.root and v2.offs == p0.offs and depth(k2[1]) == 0 and v2.idx:
                        out.append((f'{kname(k2)} - {kname(key)}', lambda st, key=key, b=v2.idx[-1]: b - st.pt[key].idx[-1] if key in st.pt and st.pt[key].idx else IntVal(-1)))
        return out

    # references held in fields: the pointee is a single object
    def isref(s, p, n):
        return s.objref(p.root, p.offs[:n])

    refs = {}

    def objref(s, root, offs):
        ty = s.objtype.get(root)
        return ty is not None and len(offs) == 1 and offs[0] in s.refs.get(ty, ())

    def hintterms(s, st):
        return s.always0

    def checkrange(s, st, fr, to, what):
        """[fr,to) lies inside the object"""
        mk = fr.offs[-2]
        base = fr.offs[:-2]
        if mk == 'E':
            lim = st.read(Ptr(fr.root, base + ('len',), fr.idx[:-1]), 'i')
        elif mk == 'P':
            lim = capof(st, fr)
        else:
            k = (fr.root, base)
            lim = IntVal(s.arrlen[k]) if k in s.arrlen else None
            if lim is None:
                raise Unsupported('range of unknown object')
        s.oblige(st, what + ': in bounds', And(0 <= fr.idx[-1], to.idx[-1] <= lim))

    def resize_hook(s, st, v, n, T_):
        return False

    # ------------------------------------------------------------ using a contract
    def apply(s, st, c, args, I_, dn, func):
        ctx = Ctx(s, c, args, st, st, dn=dn)
        for label, f in labelled(c.pre(ctx)):
            s.oblige(st, f'precondition of {short(dn)}: {label}', f)
            st.assume(f)
        outs = []
        tc = c.throws(ctx)
        tc = BoolVal(tc) if isinstance(tc, bool) else tc
        if tc is None or not z3.is_false(tc):
            if tc is None or s.feasible(st, tc):
                st2 = st.copy()
                if tc is not None:
                    st2.assume(tc)
                # a throwing call may have modified what it is allowed to modify
                s.havocmods(st2, c.modifies(Ctx(s, c, args, st, st2, dn=dn)))
                outs.append(('throw', st2, 'std'))
            if tc is not None:
                if not s.feasible(st, Not(tc)):
                    return outs
        st1 = st.copy()
        if tc is not None:
            st1.assume(Not(tc))
        s.havocmods(st1, c.modifies(Ctx(s, c, args, st, st1, dn=dn)))
        ctx1 = Ctx(s, c, args, st, st1, dn=dn)
        for d in c.define(ctx1):
            if len(d) == 3:
                st1.write(d[0], d[1], d[2])
            else:
                st1.setarr(d[0], d[1], d[2])
        c.ptrs(ctx1)
        ret = c.result(ctx1)
        if ret is None and I_.dst:
            t = I_.ty
            if t.k == 'int':
                ret = s.fresh('ret', z3.BoolSort() if t.a == 1 else I)
            elif t.k == 'fp':
                ret = s.fresh('ret', s.fl.sort)
            elif t.k == 'struct':
                ret = tuple(s.fresh('ret', I) for _ in t.a)
            elif t.k == 'ptr':
                raise Unsupported('contract without result: ' + c.name)
        ctx1.ret = ret
        for label, f in labelled(c.post(ctx1)):
            st1.assume(f)
        outs.append(('ok', st1, ret))
        return outs

    def havocmods(s, st, mods):
        for m in flat(mods):
            if m.kind == 'cell':
                if m.leaf == 'p':
                    s.wrote((m.p.root, m.p.offs), 'p')
                    st.pt.pop((m.p.root, m.p.offs), None)
                    continue
                v = s.fresh('c^' + kname((m.p.root, m.p.offs)), LEAF[m.leaf])
                if m.p.offs[-1] in ('len', 'cap'):
                    st.assume(v >= 0)
                    s.setnn(v)
                st.write(m.p, m.leaf, v)
            elif m.kind == 'elems':
                so = z3.ArraySort(I, LEAF[m.leaf])
                st.setarr(m.p, m.leaf, s.fresh('e^' + kname((m.p.root, m.p.offs)), so))
            elif m.kind == 'all':
                key = (m.p.root, m.p.offs)
                s.wrote(key, m.leaf)
                st.m[key] = s.fresh('n^' + kname(key), st.get(key, m.leaf).sort())
            else:
                st.op('havoc', m.p, m.size)

    # ------------------------------------------------------------ checking a function against its contract
    def verify(s, c, func):
        s.target = c
        s.fnname = c.name
        func.parse()
        s.mod = func.mod
        st = State(s)
        fr = {'__id': 'top', '__fn': func}
        args = []
        for n, t, sret in func.params:
            if t.k == 'ptr':
                v = Ptr(n.lstrip('%'))
            elif t.k == 'int':
                v = z3.Const('arg^' + n, z3.BoolSort() if t.a == 1 else I)
                if t.a in (8, 16, 32):
                    st.assume(And(-(TWO(t.a) // 2) <= v, v < TWO(t.a) // 2) if t.a > 8 else And(0 <= v, v <= 1))
            elif t.k == 'fp':
                v = z3.Const('arg^' + n, s.fl.sort)
            else:
                raise Unsupported('parameter type')
            args.append(v)
            fr[n] = v
        st.frames.append(fr)
        ctx = Ctx(s, c, args, st, st, dn=c.name)
        c.setup(ctx)
        for n, (pn, t, sret) in enumerate(func.params):
            fr[pn] = args[n]
        for label, f in labelled(c.pre(ctx)):
            st.assume(f)
        st0 = st.copy()
        # a version of the initial state for old values: same constants
        s.ctx0 = Ctx(s, c, args, st0, st0, dn=c.name)
        s.always0 = c.always(s.ctx0)
        tc = c.throws(s.ctx0)
        outs = s.run(func, st, func.entry, 0, None, None)
        nret = nthrow = 0
        s.retstates = []
        for o in outs:
            if o.kind == 'ret':
                nret += 1
                s.retstates.append(o.st)
                cx = Ctx(s, c, args, st0, o.st, o.val, dn=c.name)
                h = c.hints(cx)
                if tc is not None:
                    s.oblige(o.st, 'returns normally only if it must not throw', Not(tc), h)
                for d in c.define(cx):
                    nm = kname((d[0].root, d[0].offs))
                    if len(d) == 3:
                        s.oblige(o.st, f'postcondition: value of {nm}', o.st.read(d[0], d[1]) == d[2], h)
                    else:
                        now = o.st.arr(d[0], d[1])
                        if not now.eq(d[2]):
                            k = qv()
                            s.oblige(o.st, f'postcondition: elements of {nm}', FA([k], Implies(And(0 <= k, k < d[3]), Select(now, k) == Select(d[2], k)), [Select(now, k)]), h)
                for label, f in labelled(c.post(cx)):
                    s.oblige(o.st, 'postcondition: ' + label, f, h)
                r = c.result(cx)
                if isinstance(r, Ptr):
                    if not isinstance(o.val, Ptr) or r.root != o.val.root or r.offs != o.val.offs:
                        s.oblige(o.st, 'result refers to the specified object', BoolVal(False))
                    else:
                        s.oblige(o.st, 'result refers to the specified element', ptr_eq(r, o.val), h)
                s.frame(st0, o.st, c, cx)
            elif o.kind == 'throw':
                nthrow += 1
                cx = Ctx(s, c, args, st0, o.st, dn=c.name)
                if tc is not None:
                    s.oblige(o.st, 'throws only when it must', tc, c.hints(cx))
            else:
                raise Unsupported('outcome ' + o.kind)
        s.reach = dict(ret=nret, throw=nthrow)
        return outs

    def frame(s, st0, st, c, cx):
        mods = flat(c.modifies(Ctx(s, c, cx.args, st0, st, dn=c.name)))
        subs = [SubOp('x', m.p, m.size) for m in mods if m.kind == 'sub']

        def visible(root):
            return root is not None and root not in s.local_roots and not root.startswith(('heap@', 'tmp', '@'))
        for op in st.log:
            if visible(op.root):
                if not any(covered(op, x) for x in subs) and not any(m.kind == 'elems' and (m.p.root, m.p.offs) == (op.root, op.offs) for m in mods):
                    s.oblige(st, f'modifies nothing else ({op.root} subtree)', BoolVal(False))
        for key, t in list(st.m.items()):
            root, offs = key
            if not visible(root) or key in s.frameskip:
                continue
            if any(x.covers(key) and not x.idx for x in subs):
                continue
            leaf = s.leaf[key]
            t0 = st0.get(key, leaf)
            if t0.eq(t):
                continue
            want = t0
            for m in mods:
                if m.kind == 'sub':
                    x = SubOp('x', m.p, m.size)
                    if x.covers(key):
                        want = setat(want, t, x.idx)
                elif (m.p.root, m.p.offs) == key and m.leaf == leaf:
                    want = t if m.kind == 'all' else setat(want, t, m.p.idx if m.kind == 'cell' else m.p.idx[:-1])
            if not want.eq(t):
                s.oblige(st, f'modifies nothing else ({kname(key)})', want == t)
        for key, v in st.pt.items():
            if visible(key[0]) and not isinstance(v, Region):
                o = st0.pt.get(key)
                if o is v or (o is not None and not isinstance(o, Region) and samep(o, v)):
                    continue
                if any(x.covers(key) for x in subs) or any(m.kind == 'cell' and m.leaf == 'p' and (m.p.root, m.p.offs) == key for m in mods):
                    continue
                if any((m.p.root, m.p.offs) == key for m in mods):
                    continue
                s.oblige(st, f'modifies nothing else (pointer {kname(key)})', BoolVal(False))

    # ------------------------------------------------------------ loop invariant candidates
    def candidates(s, func, st0, h, mod, body):
        out = []
        hst = mod.get('hst')
        base = len(st0.pc)
        newc = set()
        for key, leaf in mod['keys'].items():
            t = hst.m.get(key)
            if t is not None:
                newc |= consts_of(t)
        scal = []
        fid = st0.frames[-1]['__id']
        for key, leaf in mod['keys'].items():
            root, offs = key
            if leaf == 'i' and depth(offs) == 0 and isinstance(root, str) and offs[-1] not in ('cap',):
                local = root in s.local_roots
                if local and root not in s.roots and offs == (0,):
                    continue
                if local and root.partition('@')[2] != fid:
                    continue
                scal.append(key)
        bounds = []
        for a, b in mod['cmps']:
            for x in (a, b):
                if not (consts_of(x) & newc) and not any(x.eq(y) for y in bounds) and not isn(x):
                    bounds.append(x)
        for key in scal:
            nm = kname(key)
            e0 = st0.get(key, 'i')
            rd = lambda st, key=key: st.get(key, 'i')
            out.append((f'~{nm} >= 0', lambda st, rd=rd: [rd(st) >= 0]))
            out.append((f'~{nm} >= -1', lambda st, rd=rd: [rd(st) >= -1]))
            if not isn(e0):
                out.append((f'~{nm} >= entry', lambda st, rd=rd, e0=e0: [rd(st) >= e0]))
            out.append((f'~{nm} <= entry', lambda st, rd=rd, e0=e0: [rd(st) <= e0]))
            out.append((f'~{nm} == entry', lambda st, rd=rd, e0=e0: [rd(st) == e0]))
            out.append((f'~{nm} bool', lambda st, rd=rd: [And(0 <= rd(st), rd(st) <= 1)]))
            for n, b in enumerate(bounds):
                out.append((f'~{nm} <= {str(b)[:60]}', lambda st, rd=rd, b=b: [rd(st) <= b]))
        for key in mod['ptrs']:
            if depth(key[1]) == 0 and isinstance(st0.pt.get(key), Ptr) and st0.pt[key].idx:
                rd = lambda st, key=key: st.pt[key].idx[-1] if key in st.pt and st.pt[key].idx else IntVal(0)
                e0 = st0.pt[key].idx[-1]
                nm = kname(key)
                out.append((f'~{nm} >= entry', lambda st, rd=rd, e0=e0: [rd(st) >= e0]))
                for k2, v2 in list(st0.pt.items()):
                    if k2 != key and k2 not in mod['ptrs'] and isinstance(v2, Ptr) and v2.root == st0.pt[key].root and v2.offs == st0.pt[key].offs and depth(k2[1]) == 0:
                        out.append((f'~{nm} <= {kname(k2)}', lambda st, rd=rd, b=v2.idx[-1]: [rd(st) <= b]))
        if s.target is not None:
            c = s.target
            cx = s.ctx0
            for name, f in c.loops(cx, func, h, st0, hst, LoopInfo(s, func, h, st0, mod, scal, bounds)):
                out.append((name, f))
        return out


class LoopInfo:
    def __init__(s, e, func, h, st0, mod, scal, bounds):
        s.e, s.func, s.h, s.st0, s.mod, s.scal, s.bounds = e, func, h, st0, mod, scal, bounds
        s.fn = e.prog.dnames[func.name]
        s.frame = st0.frames[-1]['__id']
        # local integer variables the loop modifies
        s.locals = [k for k in scal if k[0] in e.local_roots and k[1] == (0,)]

    def vars(s):
        for k in s.locals:
            nm, _, fid = k[0].partition('@')
            if 'cleanup.dest' in nm or nm in ('%retval', '%nrvo'):
                continue
            # only initialised variables of the frame the loop belongs to
            if fid != s.frame:
                continue
            v = s.st0.m.get(k)
            if v is None or v.eq(s.e.inits.get((k, 'i'), z3.BoolVal(True))):
                continue
            yield nm, (lambda st, k=k: st.get(k, 'i'))

    def allvars(s):
        """local integer variables of the frame, modified by the loop or not"""
        for k, v in list(s.st0.m.items()):
            nm, _, fid = k[0].partition('@')
            if k[0] in s.e.local_roots and k[1] == (0,) and fid == s.frame and s.e.leaf.get(k) == 'i' and 'cleanup.dest' not in nm and not nm.endswith('.addr') and nm not in ('%retval', '%nrvo') \
                    and not v.eq(s.e.inits.get((k, 'i'), z3.BoolVal(True))):
                yield nm, (lambda st, k=k: st.get(k, 'i'))

    def floats(s):
        """local floating point variables of the frame"""
        lf = s.e.fl.leaf
        for k, v in list(s.st0.m.items()):
            nm, _, fid = k[0].partition('@')
            if k[0] in s.e.local_roots and k[1] == (0,) and fid == s.frame and s.e.leaf.get(k) == lf and not nm.endswith('.addr') and nm not in ('%retval', '%nrvo') \
                    and not v.eq(s.e.inits.get((k, lf), z3.BoolVal(True))):
                yield nm, (lambda st, k=k, lf=lf: st.get(k, lf))

    def arrays(s, leaf='i'):
        """elements of local containers the loop modifies: (name, pointer to element 0)"""
        for (root, offs), l in s.mod['keys'].items():
            if l == leaf and root in s.e.local_roots and depth(offs) == 1 and offs[-1] == 0 and root.partition('@')[2] == s.frame:
                yield root.partition('@')[0], Ptr(root, offs, (IntVal(0),))

    def writes(s, p, leaf=None):
        """does the loop modify the component p belongs to?"""
        key = (p.root, p.offs)
        if key in s.mod['keys']:
            return True
        return any(SubOp('x', Ptr(r, o), n).covers(key) for r, o, n in s.mod['subs'])


def TWO(w):
    return 1 << w


def samep(a, b):
    return a.root == b.root and a.offs == b.offs and len(a.idx) == len(b.idx) and all(x.eq(y) for x, y in zip(a.idx, b.idx))


def setat(t0, t, idx):
    """t0 with the part at idx taken from t"""
    if not idx:
        return t
    return Store(t0, idx[0], setat(Select(t0, idx[0]), Select(t, idx[0]), idx[1:]))


def covered(op, x):
    """subtree op inside modified subtree x"""
    n = len(x.offs)
    if op.root != x.root or len(op.offs) < n or op.offs[:n - 1] != x.offs[:-1]:
        return False
    if any(not a.eq(b) for a, b in zip(op.idx, x.idx)):
        return False
    o = op.offs[n - 1]
    if len(op.offs) == n:
        return x.offs[-1] <= o and o + op.size <= x.offs[-1] + x.size
    return x.offs[-1] <= o < x.offs[-1] + x.size


def labelled(l):
    out = []
    for n, x in enumerate(l):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str):
            if isinstance(x[1], list):
                for m, y in enumerate(x[1]):
                    out.append((x[0], y))
            else:
                out.append(x)
        elif isinstance(x, list):
            out += labelled(x)
        else:
            out.append((str(n), x))
    return out


def short(dn):
    return dn.split('(')[0][-50:]
