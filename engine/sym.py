"""Symbolic executor / verification condition generator over LLVM IR.

Semantics: path-splitting symbolic execution; loops cut by inductive invariants (Houdini over candidate templates);
calls to functions under contract by their contract; calls to other functions of /repo inlined; library calls by the
models in stl.py.  Memory: disjoint roots, objects addressed by paths (root, (off, marker, off, ...), indices); every
cell of a container is a z3 array component, so different fields never alias (ownership discipline of the code base)."""
import re, time, itertools, sys, hashlib
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal
from ir import Unsupported, T, PTR
import spec
from spec import I, B, Flt

MARK = ('E', 'P', 'A')


class Limit(Exception):
    pass


class QF:
    """a fact about all elements 0<=i<n of a container: instantiated by the verifier at every index term that occurs in a
    select on one of the trigger arrays; proved at a fresh index"""
    __slots__ = ('n', 'fn', 'trig', 'lo')

    def __init__(s, n, fn, trig, lo=None):
        s.n, s.fn, s.trig, s.lo = n, fn, list(trig), lo if lo is not None else IntVal(0)

    def at(s, i):
        return Implies(And(s.lo <= i, i < s.n), conj(s.fn(i)))


class Ptr:
    __slots__ = ('root', 'offs', 'idx')

    def __init__(s, root, offs=(0,), idx=()):
        s.root, s.offs, s.idx = root, tuple(offs), tuple(idx)

    def field(s, o):
        return Ptr(s.root, s.offs[:-1] + (s.offs[-1] + o,), s.idx)

    def sub(s, marker, i, o=0):
        return Ptr(s.root, s.offs + (marker, o), s.idx + (iv(i),))

    def __repr__(s):
        return f'&{s.root}{s.offs}{list(s.idx)}'

    def at(s, i):
        """same region, last index replaced"""
        return Ptr(s.root, s.offs, s.idx[:-1] + (i,))


NULL = Ptr(None)


class FnPtr:
    def __init__(s, name):
        s.name = name


class Region:
    """a pointer array component: every element points into root/offs/prefix, the last index is in the int component"""
    __slots__ = ('root', 'offs', 'prefix')

    def __init__(s, root, offs, prefix):
        s.root, s.offs, s.prefix = root, offs, prefix


def iv(x):
    return IntVal(x) if isinstance(x, int) else x


def isn(x):
    return z3.is_int_value(x)


def num(x):
    return x.as_long()


def add(a, b):
    if isn(a) and isn(b):
        return IntVal(num(a) + num(b))
    if isn(b) and num(b) == 0:
        return a
    if isn(a) and num(a) == 0:
        return b
    if isn(b) and z3.is_add(a) and a.num_args() == 2 and isn(a.arg(1)):
        return add(a.arg(0), IntVal(num(a.arg(1)) + num(b)))
    return a + b


def sub(a, b):
    if isn(b):
        return add(a, IntVal(-num(b)))
    if a.eq(b):
        return IntVal(0)
    return a - b


def mul(a, b):
    if isn(a) and isn(b):
        return IntVal(num(a) * num(b))
    for x, y in ((a, b), (b, a)):
        if isn(x) and num(x) == 1:
            return y
        if isn(x) and num(x) == 0:
            return x
    return a * b


def conj(l):
    l = [x for x in l if not z3.is_true(x)]
    return And(l) if len(l) > 1 else (l[0] if l else BoolVal(True))


def ptr_eq(a, b):
    if a.root is None or b.root is None:
        return BoolVal(a.root is None and b.root is None)
    if a.root != b.root or a.offs != b.offs or len(a.idx) != len(b.idx):
        return BoolVal(False)
    return conj([x == y for x, y in zip(a.idx, b.idx) if not x.eq(y)])


def depth(offs):
    return sum(1 for o in offs if o in MARK)


LEAF = {'i': I, 'f': Flt, 'r': z3.RealSort()}


class SubOp:
    __slots__ = ('kind', 'root', 'offs', 'size', 'idx', 'src', 'id')

    def __init__(s, kind, p, size, src=None, id=0):
        s.kind, s.root, s.offs, s.size, s.idx, s.src, s.id = kind, p.root, p.offs, size, p.idx, src, id

    def covers(s, key):
        r, o = key
        n = len(s.offs)
        return r == s.root and len(o) >= n and o[:n - 1] == s.offs[:-1] and s.offs[-1] <= o[n - 1] < s.offs[-1] + s.size

    def trans(s, key):
        """dst key -> src key for copies"""
        n = len(s.offs)
        o = key[1]
        return (s.src.root, s.src.offs[:-1] + (s.src.offs[-1] + o[n - 1] - s.offs[-1],) + o[n:])


class State:
    def __init__(s, eng):
        s.eng = eng
        s.m, s.pt, s.pc, s.log, s.frames = {}, {}, [], [], []
        s.pcids = set()
        s.trace = []
        s.qf = []
        s.freed = set()
        s.fcount = 0

    def copy(s):
        t = State(s.eng)
        t.m, t.pt, t.pc, t.log = dict(s.m), dict(s.pt), list(s.pc), list(s.log)
        t.frames = [dict(f) for f in s.frames]
        t.pcids = set(s.pcids)
        t.trace = list(s.trace)
        t.qf = list(s.qf)
        t.freed = set(s.freed)
        t.fcount = s.fcount
        return t

    def assume(s, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        if isinstance(f, QF):
            s.qf.append(f)
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                s.assume(x)
            return
        if z3.is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                s.assume(c)
            return
        if f.get_id() not in s.pcids:
            s.pcids.add(f.get_id())
            s.pc.append(f)

    # ---- memory
    def sort(s, key, leaf):
        so = LEAF[leaf]
        for _ in range(depth(key[1])):
            so = z3.ArraySort(I, so)
        return so

    def get(s, key, leaf):
        t = s.m.get(key)
        if t is None:
            t = s.hist(key, leaf, len(s.log))
            s.m[key] = t
            s.eng.leaf.setdefault(key, leaf)
        elif s.eng.leaf.get(key, leaf) != leaf:
            raise Unsupported(f'type punning at {key}: {s.eng.leaf.get(key)} vs {leaf}')
        return t

    def hist(s, key, leaf, upto):
        eng = s.eng
        t = eng.init(key, s.sort(key, leaf), leaf)
        for op in s.log[:upto]:
            if op.covers(key):
                t = s.apply(op, t, key, leaf)
        return t

    def apply(s, op, t, key, leaf, srcterm=None):
        eng = s.eng
        if op.kind == 'havoc':
            so = s.sort(key, leaf)
            for _ in op.idx:
                so = so.range()
            new = eng.const(f'h{op.id}^{kname(key)}', so)
            eng.typed(s, key, new, depth(key[1]) - len(op.idx))
        elif op.kind == 'zero':
            so = s.sort(key, leaf)
            for _ in op.idx:
                so = so.range()
            new = zero_of(so)
        else:
            sk = op.trans(key)
            st = srcterm
            if st is None:
                pos = s.log.index(op)
                st = s.hist(sk, leaf, pos)
            for i in op.src.idx:
                st = Select(st, i)
            new = st
        return s.upd(t, op.idx, new)

    def upd(s, t, idx, v):
        if not idx:
            return v
        return s.name(Store(t, idx[0], s.upd0(Select(t, idx[0]), idx[1:], v)))

    def upd0(s, t, idx, v):
        if not idx:
            return v
        return Store(t, idx[0], s.upd0(Select(t, idx[0]), idx[1:], v))

    def name(s, t):
        if z3.is_app(t) and t.num_args() == 0:
            return t
        c = s.eng.fresh('a', t.sort())
        s.assume(c == t)
        if z3.is_store(t):
            s.eng.stores[c.get_id()] = (c, t.arg(0), t.arg(1), t.arg(2))
        return c

    def read(s, p, leaf):
        key = (p.root, p.offs)
        t = s.get(key, leaf)
        for i in p.idx:
            t = Select(t, i)
        return t

    def write(s, p, leaf, v):
        key = (p.root, p.offs)
        s.eng.wrote(key, leaf)
        if p.idx:
            s.m[key] = s.upd(s.get(key, leaf), p.idx, v)
        else:
            if key not in s.m:
                s.eng.leaf.setdefault(key, leaf)
            s.m[key] = v
        s.pt.pop(key, None)

    def arr(s, p, leaf):
        """the array obtained by dropping the last index of p"""
        t = s.get((p.root, p.offs), leaf)
        for i in p.idx[:-1]:
            t = Select(t, i)
        return t

    def setarr(s, p, leaf, v):
        key = (p.root, p.offs)
        s.eng.wrote(key, leaf)
        s.m[key] = s.upd(s.get(key, leaf), p.idx[:-1], v)

    def read_ptr(s, p):
        key = (p.root, p.offs)
        v = s.pt.get(key)
        if v is None:
            if not s.eng.deref_ok(s, key):
                raise Unsupported(f'load of unknown pointer at {key}')
            return Ptr(p.root, p.offs + ('P', 0), p.idx + (IntVal(0),))
        if isinstance(v, Region):
            return Ptr(v.root, v.offs, v.prefix + (s.read(p, 'i'),))
        return v

    def write_ptr(s, p, v):
        key = (p.root, p.offs)
        if not p.idx:
            s.eng.wrote(key, 'p')
            s.pt[key] = v
            s.eng.ptrwrote(key, v)
            return
        if not isinstance(v, Ptr) or v.root is None or not v.idx:
            # a single pointer stored in an element: only supported for regions with an index
            raise Unsupported('pointer array element without index: %r' % (v,))
        r = s.pt.get(key)
        if r is None:
            s.pt[key] = Region(v.root, v.offs, v.idx[:-1])
        elif not (isinstance(r, Region) and r.root == v.root and r.offs == v.offs and all(a.eq(b) for a, b in zip(r.prefix, v.idx))):
            raise Unsupported('pointer array with elements in different regions')
        keep = s.pt[key]
        s.write(p, 'i', v.idx[-1])
        s.pt[key] = keep
        s.eng.ptrwrote(key, keep)

    # ---- subtrees
    def op(s, kind, p, size, src=None):
        o = SubOp(kind, p, size, src, s.eng.nextid())
        s.eng.wrote_sub(p, size)
        new = {}
        if kind == 'copy':
            so = SubOp('x', src, size, p)
            for key in [k for k in s.m if so.covers(k)]:
                dk = so.trans(key)
                if dk not in s.m:
                    s.get(dk, s.eng.leaf[key])
            for key in [k for k in s.m if o.covers(k)]:
                sk = o.trans(key)
                leaf = s.eng.leaf[key]
                new[key] = s.apply(o, s.m[key], key, leaf, srcterm=s.get(sk, leaf))
        else:
            for key in [k for k in s.m if o.covers(k)]:
                new[key] = s.apply(o, s.m[key], key, s.eng.leaf[key])
        npt = {}
        if kind == 'copy':
            so = SubOp('x', src, size, p)
            for key in [k for k in s.pt if so.covers(k)]:
                npt[so.trans(key)] = (key, s.pt[key])
        if not p.idx:
            for key in [k for k in s.pt if o.covers(k) and depth(k[1]) == 0]:
                if key not in npt:
                    del s.pt[key]
        s.m.update(new)
        s.log.append(o)
        for k, (sk, v) in npt.items():
            old = s.pt.get(k)
            dk, ds = depth(k[1]), depth(sk[1])
            if isinstance(v, Region):
                if old is not None and p.idx and not (isinstance(old, Region) and old.root == v.root and old.offs == v.offs and all(a.eq(b) for a, b in zip(old.prefix, v.prefix))):
                    raise Unsupported('copied pointers target different regions')
                if dk == 0:
                    raise Unsupported('region copied to scalar')
                s.pt[k] = v
            else:
                if dk == 0:
                    s.pt[k] = v
                    continue
                # single pointer copied into a container element: ownership transfer of the pointee
                if v.root is None:
                    continue
                if len(v.idx) and isn(v.idx[-1]) and num(v.idx[-1]) == 0:
                    dst = Ptr(k[0], k[1] + ('P', 0), o.idx + (IntVal(0),))
                    s.adopt(dst, v)
                else:
                    raise Unsupported('pointer copied into container element')

    def adopt(s, dst, src):
        """contents of the region src (all indices) become those of region dst"""
        def keys():
            for k in list(s.m):
                n = len(src.offs)
                if k[0] == src.root and len(k[1]) >= n and k[1][:n - 1] == src.offs[:-1]:
                    yield k
                elif k == (src.root, src.offs[:-2] + ('cap',)):
                    yield k
        for k in keys():
            dk = (dst.root, dst.offs[:-1] + k[1][len(src.offs) - 1:])
            if k[1][-1] == 'cap':
                dk = (dst.root, dst.offs[:-2] + ('cap',))
            leaf = s.eng.leaf[k]
            t = s.m[k]
            for i in src.idx[:-1]:
                t = Select(t, i)
            s.eng.wrote(dk, leaf)
            s.m[dk] = s.upd(s.get(dk, leaf), dst.idx[:-1], t)

    def veclen(s, v):
        return s.read(Ptr(v.root, v.offs + ('len',), v.idx), 'i')

    def setlen(s, v, n):
        s.write(Ptr(v.root, v.offs + ('len',), v.idx), 'i', iv(n))


def zero_of(so):
    if so == I:
        return IntVal(0)
    if so == Flt:
        return spec.fconst(0.0)
    if so == z3.RealSort():
        return z3.RealVal(0)
    return z3.K(I, zero_of(so.range()))


def kname(key):
    return f'{key[0]}:' + '.'.join(str(o) for o in key[1])


class Oblig:
    def __init__(s, fn, label, pc, goal, hints, qf, where=''):
        s.fn, s.label, s.pc, s.goal, s.hints, s.qf, s.where = fn, label, pc, goal, hints, qf, where
        s.res = None


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'blk', 'prev')

    def __init__(s, kind, st, val=None, blk=None, prev=None):
        s.kind, s.st, s.val, s.blk, s.prev = kind, st, val, blk, prev


# ------------------------------------------------------------------ float modes
class AbsFloat:
    """IEEE operations as uninterpreted functions: nothing is assumed beyond determinism"""
    leaf = 'f'
    sort = Flt

    def const(s, v):
        return spec.fconst(v)

    def bin(s, op, a, b):
        return {'fadd': spec.fadd, 'fsub': spec.fsub, 'fmul': spec.fmul, 'fdiv': spec.fdiv}[op](a, b)

    def cmp(s, pred, a, b):
        lt, eq, nan = spec.flt, spec.feq, spec.fnan
        un = Or(nan(a), nan(b))
        return {'olt': lambda: lt(a, b), 'ogt': lambda: lt(b, a), 'oeq': lambda: eq(a, b), 'ole': lambda: Or(lt(a, b), eq(a, b)),
                'oge': lambda: Or(lt(b, a), eq(a, b)), 'une': lambda: Not(eq(a, b)), 'uno': lambda: un, 'ord': lambda: Not(un),
                'one': lambda: And(Not(un), Not(eq(a, b))), 'ult': lambda: Or(un, lt(a, b)), 'ugt': lambda: Or(un, lt(b, a)),
                'ule': lambda: Or(un, lt(a, b), eq(a, b)), 'uge': lambda: Or(un, lt(b, a), eq(a, b)), 'ueq': lambda: Or(un, eq(a, b))}[pred]()

    def fromint(s, x, signed, w):
        return spec.sitof(x)

    def toint(s, x, w, eng, st):
        return spec.fptosi(IntVal(w), x)

    def neg(s, a):
        return spec.fneg(a)

    def call(s, nm, args):
        return {'fabs': spec.fabs_, 'sqrt': spec.fsqrt, 'round': spec.fround, 'floor': spec.ffloor, 'log': spec.flog, 'exp': spec.fexp, 'tgamma': spec.ftgamma}[nm](*args)

    def axioms(s):
        return []


class OrdFloat(AbsFloat):
    """the same, with the ordering facts of IEEE comparison"""
    _ax = None

    def axioms(s):
        if OrdFloat._ax is None:
            a, b, c = [spec.qv('x', Flt) for _ in range(3)]
            lt, nan, ab = spec.flt, spec.fnan, spec.fabs_
            big, nbig = spec.fconst(1.7976931348623157e308), spec.fconst(-1.7976931348623157e308)
            OrdFloat._ax = [spec.FA([a, b, c], Implies(And(lt(a, b), lt(b, c)), lt(a, c)), [(lt(a, b), lt(b, c))]),
                            spec.FA([a, b], Implies(lt(a, b), And(Not(nan(a)), Not(nan(b)), Not(lt(b, a)))), [lt(a, b)]),
                            spec.FA([a, b, c], Implies(And(Not(lt(a, b)), Not(lt(b, c)), Not(nan(b))), Not(lt(a, c))), [(lt(a, b), lt(b, c))]),
                            spec.FA([a], nan(ab(a)) == nan(a), [ab(a)]), spec.FA([a], Implies(Not(nan(a)), lt(nbig, ab(a))), [ab(a)]),
                            Not(nan(nbig)), Not(nan(big)), lt(nbig, big), spec.fneg(big) == nbig]
        return OrdFloat._ax


class RealFloat:
    """doubles as mathematical reals (rounding ignored: listed as an assumption of the contracts that use it)"""
    leaf = 'r'
    sort = z3.RealSort()

    def const(s, v):
        from fractions import Fraction
        return z3.RealVal(str(Fraction(v)))

    def bin(s, op, a, b):
        return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[op] if op != 'fdiv' else a / b

    def cmp(s, pred, a, b):
        return {'lt': a < b, 'gt': a > b, 'eq': a == b, 'le': a <= b, 'ge': a >= b, 'ne': a != b, 'no': BoolVal(False), 'rd': BoolVal(True)}[pred[1:]]

    def fromint(s, x, signed, w):
        return z3.ToReal(x)

    def toint(s, x, w, eng, st):
        return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

    def neg(s, a):
        return -a

    def call(s, nm, args):
        a = args[0]
        if nm == 'fabs':
            return If(a >= 0, a, -a)
        if nm == 'round':
            return If(a >= 0, z3.ToReal(z3.ToInt(a + z3.Q(1, 2))), -z3.ToReal(z3.ToInt(-a + z3.Q(1, 2))))
        if nm == 'floor':
            return z3.ToReal(z3.ToInt(a))
        return spec.skf('real_' + nm, *([z3.RealSort()] * (len(args) + 1)))(*args)

    def axioms(s):
        return []


# ------------------------------------------------------------------ engine
class Engine:
    def __init__(s, prog, contracts, fl=None, opts=None):
        s.prog, s.contracts = prog, contracts
        s.fl = fl or AbsFloat()
        s.opts = opts or {}
        s.obl = []
        s.leaf, s.inits, s.stores = {}, {}, {}
        s.cnt = itertools.count(1)
        s.listeners = []
        s.nn = {}
        s.dry = 0
        s.quiet = 0
        s.roots = {}
        s.local_roots = set()
        s.facts = {}
        s.fnname = '?'
        s.stats = dict(queries=0, reused=0, solver_s=0.0, paths=0, loops=0, terminating=0, candidates=0, invariants=0)
        s.inlined = set()
        s.used = set()
        s.modelled = set()
        s.nonterm = []
        s.loopinfo = []
        s.consts = {}
        s.deadline = None
        s.oblseen = set()
        s.keepalive = []

    # ---- symbols
    def nextid(s):
        return next(s.cnt)

    def fresh(s, n, sort):
        return z3.Const(f'{n}!{next(s.cnt)}', sort)

    def const(s, n, sort):
        return z3.Const(n, sort)

    def init(s, key, sort, leaf):
        k = (key, leaf)
        if k not in s.inits:
            c = z3.Const('i^' + kname(key), sort)
            s.inits[k] = c
            s.typed(None, key, c, depth(key[1]))
        return s.inits[k]

    def typed(s, st, key, c, d):
        """implicit type facts: lengths and capacities are non-negative"""
        if key[1][-1] in ('len', 'cap'):
            vs = [spec.qv() for _ in range(d)]
            t = c
            for v in vs:
                t = Select(t, v)
            f = z3.ForAll(vs, t >= 0, patterns=[t]) if vs else And(t >= 0, t <= 1 << 61) if key[1][-1] == 'len' else t >= 0
            s.facts[c.get_id()] = (c, f)

    def nonneg(s, t):
        if isn(t):
            return num(t) >= 0
        if t.get_id() in s.nn:
            return True
        if z3.is_app(t):
            if t.num_args() == 0:
                n = t.decl().name()
                return n.endswith('.len') or n.endswith('.cap')
            if z3.is_select(t):
                x = t.arg(0)
                while z3.is_select(x):
                    x = x.arg(0)
                return s.nonneg(x) if x.num_args() == 0 else False
            if z3.is_add(t) or z3.is_mul(t):
                return all(s.nonneg(c) for c in t.children())
        return False

    def setnn(s, t):
        s.nn[t.get_id()] = t

    # ---- write tracking
    def wrote(s, key, leaf):
        for l in s.listeners:
            l['keys'][key] = leaf

    def ptrwrote(s, key, v):
        for l in s.listeners:
            l['ptrs'].setdefault(key, []).append(v)

    def wrote_sub(s, p, size):
        for l in s.listeners:
            l['subs'][(p.root, p.offs, size)] = True

    def deref_ok(s, st, key):
        if key[0] not in s.local_roots:
            return True
        if len(key[1]) > 1:
            return True
        return any(o.kind != 'zero' and o.covers(key) for o in st.log)

    # ---- proving
    def base(s, fs):
        return list(fs)

    def facts_for(s, fs):
        # type facts of constants that occur
        out = []
        seen = set()
        for f in fs:
            for i in consts_of(f):
                if i in s.facts and i not in seen:
                    seen.add(i)
                    out.append(s.facts[i][1])
        return out

    def prove(s, st, goal, hints=(), timeout=None, light=False, configs=5):
        goal = s.togoal(goal)
        if z3.is_true(goal) or goal.get_id() in st.pcids:
            return 'proved'
        return check(st.pc, st.qf, goal, list(hints) + s.hintterms(st), s, timeout or s.opts.get('timeout', 10000), s.stats, light, configs)

    def togoal(s, g):
        if isinstance(g, bool):
            return BoolVal(g)
        if isinstance(g, QF):
            return g.at(s.fresh('sk', I))
        if isinstance(g, (list, tuple)):
            return conj([s.togoal(x) for x in g])
        return g

    def oblige(s, st, label, goal, hints=()):
        if s.dry or s.quiet:
            return
        goal = s.togoal(goal)
        if z3.is_true(goal):
            return
        if z3.is_and(goal):
            for n, c in enumerate(goal.children()):
                s.oblige(st, label, c, hints)
            return
        key = (label, goal.get_id(), tuple(f.get_id() for f in st.pc), len(st.qf))
        if key in s.oblseen:
            return
        s.oblseen.add(key)
        s.obl.append(Oblig(s.fnname, label, list(st.pc), goal, list(hints) + s.hintterms(st), list(st.qf)))

    def hintterms(s, st):
        return []

    def feasible(s, st, extra=None):
        if s.dry:
            return True
        pc = st.pc + ([extra] if extra is not None else [])
        sv = z3.SimpleSolver()
        sv.set('timeout', 400)
        sv.set('smt.mbqi', False)
        sv.add(pc)
        sv.add(s.facts_for(pc))
        t = time.time()
        r = sv.check()
        s.stats['queries'] += 1
        s.stats['solver_s'] += time.time() - t
        return r != z3.unsat


_constmemo = {}


def consts_of(t):
    k = t.get_id()
    h = _constmemo.get(k)
    if h is not None:
        return h[1]
    out = set()
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                out.add(i)
            else:
                st.extend(x.children())
    _constmemo[k] = (t, out)
    return out


def store_lemmas(fs, stores, hints):
    """instances of the update lemmas for sums over arrays defined as stores"""
    out = []
    allapps = {}
    for f in list(fs) + list(hints):
        allapps.update(spec.apps_of(f))
    done = set()
    work = list(allapps.values())
    while work:
        a = work.pop()
        nm = a.decl().name()
        if nm in ('ksum', 'tsum'):
            A2 = a.arg(0)
            stq = stores.get(A2.get_id())
            if stq is None or a.get_id() in done:
                continue
            done.add(a.get_id())
            _, A, p, v = stq
            if nm == 'ksum':
                f = spec.l_ksum_upd(A, A2, p, v, a.arg(1), a.arg(2), a.arg(3))
                f = Implies(a.arg(3) >= 0, f)
            else:
                f = Implies(a.arg(1) >= 0, spec.l_tsum_upd(A, A2, p, v, a.arg(1)))
            out.append(f)
            for x in spec.apps_of(f).values():
                if x.get_id() not in allapps:
                    allapps[x.get_id()] = x
                    work.append(x)
    return out


_selmemo = {}


def selects_of(t):
    """ground select terms of t: {id of array constant: {id: index}}"""
    k = t.get_id()
    h = _selmemo.get(k)
    if h is not None:
        return h[1]
    out = {}
    stack = [t]
    seen = set()
    memo = {}
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if z3.is_select(x) and not spec._has_var(x.arg(1), memo):
                out.setdefault(x.arg(0).get_id(), {})[x.arg(1).get_id()] = x.arg(1)
            stack.extend(x.children())
    _selmemo[k] = (t, out)
    return out


def inst_qf(fs, qfs, rounds=3, keep=[]):
    out = []
    done = set()
    sel = {}

    def absorb(fs):
        for f in fs:
            for a, m in selects_of(f).items():
                sel.setdefault(a, {}).update(m)
    absorb(fs)
    for _ in range(rounds):
        new = []
        for n, q in enumerate(qfs):
            for tr in q.trig:
                for iid, i in sel.get(tr.get_id(), {}).items():
                    if (n, iid) not in done:
                        done.add((n, iid))
                        new.append(q.at(i))
        if not new:
            break
        out += new
        absorb(new)
    return out


def storesin(fs, eng):
    """the arrays occurring in the formulas that are defined as updates of others"""
    out = {}
    for f in fs:
        for i in consts_of(f):
            if i in eng.stores:
                out[i] = eng.stores[i]
    return list(out.values())


def build_query(pc, qfs, goal, hints, eng, lean=False):
    """lean: definitions only, no lemmas and no hints"""
    spec._names()
    neg = Not(goal)
    fs = list(pc) + (list(goal.arg(0).children() if z3.is_and(goal.arg(0)) else [goal.arg(0)]) + [Not(goal.arg(1))] if z3.is_implies(goal) else [neg])
    hsel = [] if lean else [h for h in hints if not isinstance(h, tuple)]
    if qfs:
        fs += inst_qf(fs + hsel, qfs)
    sl = store_lemmas(fs, eng.stores, hsel)
    inst = spec.instances(fs + sl, hsel, rounds=1 if lean else 3, only=() if lean else None, unfold=not lean, stores=() if lean else storesin(fs, eng))
    if qfs:
        inst += inst_qf(inst, qfs, 1)
    allf = fs + sl + inst + list(eng.fl.axioms())
    if any(mentions(f, 'mems') for f in fs + hsel):
        mk = {}
        for f in fs + inst + hsel:
            for m in selects_of(f).values():
                mk.update(m)
            if z3.is_eq(f) and z3.is_store(f.arg(1)):
                mk[f.arg(1).arg(1).get_id()] = f.arg(1).arg(1)
        allf += [spec.mark(t) for t in mk.values() if t.sort() == I]
    fx = []
    seen = set()
    for f in allf:
        for i in consts_of(f):
            if i in eng.facts and i not in seen:
                seen.add(i)
                fx.append(eng.facts[i][1])
    return allf + fx


_skn = itertools.count(1)


def split(goal, hyps=()):
    """conjuncts of the goal, outer universal quantifiers replaced by fresh constants: [(hypotheses, goal)]"""
    if z3.is_and(goal):
        return [y for x in goal.children() for y in split(x, hyps)]
    if z3.is_quantifier(goal) and goal.is_forall():
        cs = [z3.Const(f'{goal.var_name(n).split("?")[0]}~{next(_skn)}', goal.var_sort(n)) for n in range(goal.num_vars())]
        return split(z3.substitute_vars(goal.body(), *reversed(cs)), hyps)
    if z3.is_implies(goal):
        h, g = goal.children()
        if z3.is_quantifier(g) or z3.is_and(g) or z3.is_implies(g):
            return split(g, hyps + tuple(h.children() if z3.is_and(h) else [h]))
    return [(hyps, goal)]


def check(pc, qfs, goal, hints, eng, timeout, stats, light=False, configs=5):
    res = 'proved'
    for h, g in split(goal):
        r = check1(list(pc) + list(h), qfs, g, hints, eng, timeout, stats, light, configs)
        if r != 'proved':
            return r
    return res


_cache = {}
_num = re.compile(r'([!?~])(\d+)')


def canon(fs):
    """text of formulas with fresh-name numbers replaced by order of first occurrence"""
    m = {}
    return _num.sub(lambda x: x.group(1) + str(m.setdefault(x.group(0), len(m))), '\n'.join(f.sexpr() for f in fs))


_subm = {}


class View:
    """the engine with equal integer constants identified"""

    def __init__(s, eng, sub):
        s.e, s.sub = eng, sub
        s.facts, s.fl = eng.facts, eng.fl
        s.stores = {k: (v[0], v[1]) + tuple(s.t(x) for x in v[2:]) for k, v in eng.stores.items()}

    def t(s, x):
        if isinstance(x, tuple):
            return tuple(s.t(y) if z3.is_expr(y) else y for y in x)
        if isinstance(x, list):
            return [s.t(y) for y in x]
        k = (x.get_id(), s.key)
        h = _subm.get(k)
        if h is None:
            h = _subm[k] = (x, z3.substitute(x, *s.sub))
        return h[1]

    @property
    def key(s):
        return tuple((a.get_id(), b.get_id()) for a, b in s.sub)

    def facts_for(s, fs):
        return s.e.facts_for(fs)


class VQF:
    def __init__(s, q, v):
        s.q, s.v, s.trig = q, v, q.trig

    def at(s, i):
        return s.v.t(s.q.at(i))


def equalities(pc):
    """[(constant, representative)] of the equalities between integer constants among the facts"""
    par, terms = {}, {}

    def find(i):
        while par.get(i, i) != i:
            i = par[i]
        return i

    def rank(t):
        return (not isn(t), len(t.decl().name()) if not isn(t) else 0)
    st = list(pc)
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(f.children())
        elif z3.is_eq(f):
            a, b = f.children()
            if a.sort() == I and all(isn(x) or z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in (a, b)):
                terms[a.get_id()], terms[b.get_id()] = a, b
                i, j = find(a.get_id()), find(b.get_id())
                if i != j:
                    if isn(terms[i]) and isn(terms[j]):
                        continue
                    if rank(terms[i]) < rank(terms[j]):
                        i, j = j, i
                    par[i] = j
    return [(terms[i], terms[find(i)]) for i in sorted(terms) if find(i) != i]


def check1(pc, qfs, goal, hints, eng, timeout, stats, light=False, configs=5):
    if light:
        return check0(pc, qfs, goal, hints, eng, timeout, stats, light, configs)
    sub = equalities(pc)
    if sub:
        v = View(eng, sub)
        ax = [v.t(eng.facts[a.get_id()][1]) for a, b in sub if a.get_id() in eng.facts]
        pc = [f for f in [v.t(f) for f in pc] if not (z3.is_eq(f) and f.arg(0).eq(f.arg(1)))] + [f for f in ax if not z3.is_true(z3.simplify(f))]
        goal, hints = v.t(goal), [v.t(h) for h in hints]
        qfs, eng = [VQF(q, v) for q in qfs], v
    key = None
    if not qfs:
        fs = list(pc) + [goal] + [h for h in hints if not isinstance(h, tuple)]
        key = hashlib.sha1(canon(fs + eng.facts_for(fs)).encode()).digest()
        if key in _cache:
            stats['reused'] += 1
            return 'proved'
    r = check2(pc, qfs, goal, hints, eng, timeout, stats, configs)
    if r == 'proved' and key is not None:
        _cache[key] = True
    return r


def check2(pc, qfs, goal, hints, eng, timeout, stats, configs):
    memb = mentions(goal, 'mems')
    # facts about sets of positions only matter for goals about them
    p2 = pc if memb else [f for f in pc if not mentions(f, 'mems')]
    r = check0(p2, qfs, goal, hints, eng, min(timeout, 1000), stats, False, 1, lean=True)
    if r == 'proved':
        return r
    if len(p2) < len(pc):
        r = check0(pc, qfs, goal, hints, eng, min(timeout, 300), stats, False, 1, lean=True)
        if r == 'proved':
            return r
    lims = [timeout] if timeout <= 1500 else [1000, timeout]
    for lim in lims:
        if len(p2) < len(pc):
            r = check0(p2, qfs, goal, [h for h in hints if not mentions(h, 'mems')], eng, min(lim, 300), stats, False, 1)
            if r == 'proved':
                return r
        r = check0(pc, qfs, goal, hints, eng, lim, stats, False, configs)
        if r == 'proved':
            return r
    return r


_ment = {}


def mentions(f, name):
    k = (f.get_id(), name)
    h = _ment.get(k)
    if h is None:
        h = (f, f"({name} " in f.sexpr())
        _ment[k] = h
    return h[1]


def check0(pc, qfs, goal, hints, eng, timeout, stats, light=False, configs=5, lean=False):
    t = time.time()
    if light:
        q = list(pc) + [Not(goal)]
        q += eng.facts_for(q)
        configs = 1
    else:
        q = build_query(pc, qfs, goal, hints, eng, lean)
    res = 'failed'
    for cfg in LEAN if lean or light else CONFIGS[:configs]:
        sv = z3.Solver() if cfg.get('full') else z3.SimpleSolver()
        # the limit is deterministic (z3's resource counter); the wall clock is only a backstop
        sv.set('rlimit', timeout * RL)
        sv.set('timeout', timeout * 4 + 2000)
        sv.set('smt.mbqi', False)
        for k, v in cfg.items():
            if k != 'full':
                sv.set(k, v)
        sv.add(q)
        r = sv.check()
        stats['queries'] += 1
        if r == z3.unsat:
            stats['solver_s'] += time.time() - t
            return 'proved'
        if r == z3.sat:
            res = 'failed'
            break
        why = sv.reason_unknown()
        if 'timeout' in why or 'canceled' in why or 'resource' in why:
            res = 'timeout'
    stats['solver_s'] += time.time() - t
    return res


RL = 4000       # resource units per millisecond of nominal time
LEAN = [{'smt.arith.nl': False}]
CONFIGS = [{'smt.arith.nl': False}, {}, {'full': True}, {'smt.relevancy': 0}, {'full': True, 'smt.relevancy': 0}]
