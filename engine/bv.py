"""Bit-precise verifier for the C generator code (SobolImpl.cpp): symbolic execution of its LLVM IR over 32/64-bit bit-vectors.
Functions internal to the translation unit are inlined; loops with a concrete trip count are unrolled completely, every other loop is
cut at its header with inductive invariants (Houdini over the contract's candidates).  Facts about all elements of an array are
instantiated at every index read and proved at a fresh index."""
import z3, time, itertools, multiprocessing
from z3 import BitVec, BitVecVal, BitVecSort, And, Or, Not, Implies, If, ULT, ULE, UGE, UGT, LShR, ZeroExt, SignExt, Extract, BoolVal
from ir import Unsupported
MAXDIM = 1111


class Lin:
    """row*sdim + col"""
    __slots__ = ('row', 'col', 'w')

    def __init__(s, row, col, w):
        s.row, s.col, s.w = row, col, w


class Ptr:
    __slots__ = ('obj', 'row', 'col')

    def __init__(s, obj, row=0, col=0):
        s.obj, s.row, s.col = obj, row, col

    def __repr__(s):
        return f'&{s.obj}[{s.row}][{s.col}]'


NULL = Ptr(None)


class Arr:
    """array object of 32-bit elements: rows x cols"""
    def __init__(s, base, rows, cols, writes=(), facts=()):
        s.base, s.rows, s.cols, s.writes, s.facts = base, rows, cols, writes, facts


class NeedCut(Exception):
    pass


class NeedConst(Exception):
    pass


class State:
    def __init__(s):
        s.regs, s.cells, s.arrs, s.pc, s.freed, s.sizes = [{}], {}, {}, [], frozenset(), {}

    def copy(s):
        n = State()
        n.regs = [dict(r) for r in s.regs]
        n.cells = {k: dict(v) for k, v in s.cells.items()}
        n.arrs = dict(s.arrs)
        n.pc = list(s.pc)
        n.freed = s.freed
        n.sizes = dict(s.sizes)
        return n


def bv(x, w):
    if isinstance(x, bool):
        return BitVecVal(int(x), w)
    return BitVecVal(x, w) if isinstance(x, int) else x


def mask(x, w):
    return x & ((1 << w) - 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


class BV:
    def __init__(s, mod, cands=None, tables=None):
        s.mod, s.obl, s.cands = mod, [], cands or (lambda eng, st, st0, v: [])
        s.ids = itertools.count()
        s.quiet = 0
        s.sdim = None
        s.writes = None            # recording of modified locations
        s.stats = dict(queries=0, solver_s=0.0, loops=0, invariants=0, unrolled=0, enumerated=0)
        s.S = z3.Function('S', BitVecSort(32), BitVecSort(32), BitVecSort(32))
        s.Mt = None
        s.inl = set()
        s.tab = {}
        s.depth = 0
        s.width = {}
        s.nonterm = []
        s.on_n = None

    # ------------------------------------------------------------ solver
    def valid(s, pc, g, t=20000):
        if z3.is_true(g):
            return 'proved'
        q = z3.Solver()
        q.set('timeout', t)
        q.add(*pc)
        q.add(Not(g))
        t0 = time.time()
        r = q.check()
        s.stats['queries'] += 1
        s.stats['solver_s'] += time.time() - t0
        if r == z3.sat:
            s.model = q.model()
        return 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'timeout'

    def oblige(s, st, label, g):
        if s.quiet or g is True:
            return
        g = BoolVal(g) if isinstance(g, bool) else g
        s.obl.append((label + f' [{s.fn}]', list(st.pc), g))

    def lin2bv(s, x):
        if isinstance(x, Lin):
            return bv(x.row, x.w) * (s.sdim if x.w == 32 else ZeroExt(32, s.sdim)) + bv(x.col, x.w)
        return x

    def fresh(s, n, w):
        return BitVec(f'{n}!{next(s.ids)}', w)

    # ------------------------------------------------------------ values
    def val(s, st, v, ty):
        k = v[0]
        if k == 'l':
            return st.regs[-1][v[1]]
        if k == 'i':
            return mask(v[1], ty.a)
        if k == 'null':
            return NULL
        if k == 'g':
            return Ptr('@' + v[1].lstrip('@').strip('"'), 0, 0)
        if k in ('undef', 'poison'):
            return None
        raise Unsupported('constant ' + str(k))

    def arith(s, st, op, a, b, w):
        if a is None or b is None:
            return None
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported('pointer arithmetic')
        issd = lambda x: s.sdim is not None and not isinstance(x, (int, Lin)) and (x.eq(s.sdim) or x.eq(ZeroExt(32, s.sdim)))
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if issd(y) and not isinstance(x, Lin):
                    return s.lin(st, Lin(x, 0, w))
                if isinstance(y, Lin) and isinstance(x, int):
                    r = lambda q: mask(q * x, w) if isinstance(q, int) else q * bv(x, w)
                    return s.lin(st, Lin(r(y.row), r(y.col), w))
        if op == 'shl' and isinstance(b, int):
            if issd(a):
                return s.lin(st, Lin(1 << b, 0, w))
            if isinstance(a, Lin):
                r = lambda q: mask(q << b, w) if isinstance(q, int) else q << b
                return s.lin(st, Lin(r(a.row), r(a.col), w))
        if op == 'add' and (isinstance(a, Lin) != isinstance(b, Lin)):
            l, o = (a, b) if isinstance(a, Lin) else (b, a)
            if not issd(o):
                return Lin(l.row, s.arith(st, 'add', l.col, o, w), w)
            return s.lin(st, Lin(s.arith(st, 'add', l.row, 1, w), l.col, w))
        a, b = s.lin2bv(a), s.lin2bv(b)
        if isinstance(a, int) and isinstance(b, int):
            if op == 'add': return mask(a + b, w)
            if op == 'sub': return mask(a - b, w)
            if op == 'mul': return mask(a * b, w)
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                s.oblige(st, 'shift amount', b < w)
                if b >= w: return None
                return mask(a << b, w) if op == 'shl' else a >> b if op == 'lshr' else mask(sgn(a, w) >> b, w)
            if op in ('udiv', 'urem'):
                s.oblige(st, 'division by zero', b != 0)
                return (a // b if op == 'udiv' else a % b) if b else None
        # cheap identities
        if op in ('add', 'xor', 'or', 'sub', 'shl', 'lshr') and isinstance(b, int) and b == 0:
            return a
        if op in ('add', 'xor', 'or') and isinstance(a, int) and a == 0:
            return b
        if op in ('mul', 'and'):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and x == 0:
                    return 0
                if op == 'mul' and isinstance(x, int) and x == 1:
                    return y
        A, B = bv(a, w), bv(b, w)
        if w == 1:
            raise Unsupported('i1 arithmetic')
        if op in ('shl', 'lshr', 'ashr'):
            s.oblige(st, 'shift amount below the width', ULT(B, w))
            return {'shl': lambda: A << B, 'lshr': lambda: LShR(A, B), 'ashr': lambda: A >> B}[op]()
        if op in ('udiv', 'urem'):
            s.oblige(st, 'division by zero', B != 0)
            return z3.UDiv(A, B) if op == 'udiv' else z3.URem(A, B)
        f = dict(add=lambda: A + B, sub=lambda: A - B, mul=lambda: A * B, xor=lambda: A ^ B)
        f['and'] = lambda: A & B
        f['or'] = lambda: A | B
        if op not in f:
            raise Unsupported('operation ' + op)
        return f[op]()

    def lin(s, st, l):
        """row*sdim must not overflow"""
        lim = (1 << l.w) // MAXDIM - 1
        if isinstance(l.row, int):
            if l.row > lim:
                raise Unsupported('index overflow')
        else:
            s.oblige(st, 'index does not overflow', ULE(l.row, lim))
        return l

    def icmp(s, st, pred, a, b, w):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if (a.obj is None) != (b.obj is None):
                r = False
            elif a.obj is None:
                r = True
            elif a.obj != b.obj:
                r = False
            else:
                raise Unsupported('pointer comparison')
            return r if pred == 'eq' else not r if pred == 'ne' else s.bad('pointer order')
        a, b = s.lin2bv(a), s.lin2bv(b)
        if isinstance(a, bool) or isinstance(b, bool) or z3.is_bool(a):
            raise Unsupported('i1 comparison')
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'gt': a > b, 'le': a <= b, 'ge': a >= b}[pred if pred in ('eq', 'ne') else pred[1:]]
        A, B = bv(a, w), bv(b, w)
        return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: ULT(A, B), 'ugt': lambda: UGT(A, B), 'ule': lambda: ULE(A, B), 'uge': lambda: UGE(A, B),
                'slt': lambda: A < B, 'sgt': lambda: A > B, 'sle': lambda: A <= B, 'sge': lambda: A >= B}[pred]()

    def bad(s, m):
        raise Unsupported(m)

    # ------------------------------------------------------------ memory
    def arr_read(s, st, name, row, col):
        """element of an array in the current state, with its facts instantiated"""
        o = st.arrs[name]
        ops = []
        for r, c, v in reversed(o.writes):
            same = []
            dif = False
            for x, y in ((r, row), (c, col)):
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        dif = True
                elif not (not isinstance(x, int) and not isinstance(y, int) and x.eq(y)):
                    same.append(bv(x, 32) == bv(y, 32))
            if dif:
                continue
            if not same:
                ops.append((None, v))
                break
            ops.append((And(same), v))
        if ops and ops[-1][0] is None:
            r = ops.pop()[1]
        else:
            for f in o.facts:
                st.pc.extend(f(bv(row, 32), bv(col, 32)))
            for f in s.gfacts:
                st.pc.extend(f(bv(row, 32), bv(col, 32)))
            r = o.base(bv(row, 32), bv(col, 32))
        for c, v in reversed(ops):
            r = If(c, bv(v, 32), bv(r, 32))
        return r

    def access(s, st, p, what):
        if not isinstance(p, Ptr) or p.obj is None:
            s.oblige(st, f'{what}: valid pointer', False)
            raise Unsupported(f'{what} through null')
        if p.obj in st.freed:
            s.oblige(st, f'{what}: object alive', False)
        o = st.arrs.get(p.obj)
        if o is not None:
            if isinstance(p.row, int):
                s.oblige(st, f'{what}: in bounds', p.row < o.rows)
            else:
                s.oblige(st, f'{what}: in bounds (row)', ULT(p.row, o.rows))
            c, n = p.col, o.cols
            if isinstance(c, int) and isinstance(n, int):
                s.oblige(st, f'{what}: in bounds', c < n)
            else:
                s.oblige(st, f'{what}: in bounds', ULT(bv(c, 32), bv(n, 32)))
            return o
        return None

    def load(s, st, p, ty):
        if isinstance(p, Ptr) and p.obj and p.obj.startswith('@'):
            return s.constload(st, p, ty)
        o = s.access(st, p, 'read')
        if o is not None:
            if ty.k != 'int' or ty.a != 32:
                raise Unsupported('array element type')
            return s.arr_read(st, p.obj, p.row, p.col)
        c = st.cells.get(p.obj)
        if c is None:
            raise Unsupported('load from ' + repr(p))
        k = p.col
        if isinstance(k, tuple):
            s.oblige(st, 'read: in bounds of the pointer table', ULT(k[1], bv(k[2], k[1].size())) if not isinstance(k[1], int) else k[1] < k[2])
            t = c.get(('tab', k[0]))
            if t is None:
                raise Unsupported('symbolic index into a table of pointers')
            return t(k[1])
        if k not in c:
            if ('tab', k - k % 8 if k < 272 else None) in c:
                pass
            if ('fresh',) in c:
                c[k] = s.fresh('cell', ty.a)
                return c[k]
            s.oblige(st, 'read of an initialised object', False)
            raise Unsupported('uninitialised read at ' + repr(p))
        v = c[k]
        if s.on_n and p.obj == s.on_n[0] and k == s.on_n[1]:
            s.on_n[2](st, v)
        return v

    def store(s, st, p, v, ty):
        o = s.access(st, p, 'write')
        if o is not None:
            if v is None or isinstance(v, (Ptr, Lin)):
                v = s.lin2bv(v) if isinstance(v, Lin) else s.bad('value stored')
            if s.writes is not None:
                s.writes.add(('arr', p.obj))
            st.arrs[p.obj] = Arr(o.base, o.rows, o.cols, o.writes + ((p.row, p.col, v),), o.facts)
            return
        if p.obj not in st.cells:
            raise Unsupported('store to ' + repr(p))
        if isinstance(p.col, tuple):
            raise Unsupported('store to a symbolic entry of a table of pointers')
        if s.writes is not None:
            s.writes.add(('cell', p.obj, p.col))
        if ty.k == 'int' and v is not None and not isinstance(v, (int, Ptr, Lin)) and z3.is_bool(v):
            v = If(v, BitVecVal(1, ty.a), BitVecVal(0, ty.a))
        st.cells[p.obj][p.col] = v

    def constload(s, st, p, ty):
        g = s.mod.glob(p.obj[1:])
        if g is None or g[1] is None or not g[2]:
            raise Unsupported('global ' + p.obj)
        idx = p.col if isinstance(p.col, tuple) else (p.col,)
        v = s.table(p.obj, g)
        for i in idx:
            if not isinstance(i, int):
                if isinstance(v, list) and len(v) <= 64 and all(isinstance(x, int) for x in v):
                    s.oblige(st, 'read: in bounds of a table', ULT(i, len(v)))
                    r = bv(v[-1], ty.a)
                    for n, x in list(enumerate(v))[-2::-1]:
                        r = If(i == n, bv(x, ty.a), r)
                    return r
                raise NeedConst(i)
            if isinstance(v, list):
                s.oblige(st, 'read: in bounds of a table', i < len(v))
                if i >= len(v):
                    raise Unsupported('constant table index')
                v = v[i]
        if not isinstance(v, int):
            raise Unsupported('constant table')
        return v

    def table(s, name, g):
        if name not in s.tab:
            def dec(v, ty):
                ty = s.mod.resolve(ty)
                if v[0] == 'i':
                    return mask(v[1], ty.a)
                if v[0] == 'zeroinitializer':
                    return [dec(v, ty.b) for _ in range(ty.a)] if ty.k == 'array' else 0
                if v[0] == 'agg':
                    return [dec(x, t) for t, x in v[1]]
                raise Unsupported('table constant ' + str(v[0]))
            s.tab[name] = dec(g[1], g[0])
        return s.tab[name]

    def gep(s, st, base, bt, idx):
        if base.obj is None:
            return base
        t = bt
        i0 = idx[0]
        if base.obj.startswith('@'):
            r = []
            if not (isinstance(i0, int) and i0 == 0):
                cur = list(base.col) if isinstance(base.col, tuple) else []
                if not cur or bt.k != 'int':
                    raise Unsupported('pointer arithmetic on a table')
                cur[-1] = s.arith(st, 'add', cur[-1], i0, 64)
                return Ptr(base.obj, 0, tuple(cur))
            cur = list(base.col) if isinstance(base.col, tuple) else []
            return Ptr(base.obj, 0, tuple(cur + idx[1:]))
        if base.obj in st.arrs:
            if not (bt.k == 'int' and bt.a == 32 and len(idx) == 1):
                raise Unsupported('gep on array')
            i = i0
            if isinstance(i, Lin):
                add = lambda a, b: s.arith(st, 'add', s.lo(a), s.lo(b), 32)
                return Ptr(base.obj, add(base.row, i.row), add(base.col, i.col))
            if s.sdim is not None and not isinstance(i, int) and (i.eq(s.sdim) or i.eq(ZeroExt(32, s.sdim))):
                return Ptr(base.obj, s.arith(st, 'add', base.row, 1, 32), base.col)
            if not isinstance(i, int):
                s.oblige(st, 'array index below 2^32', s.small(i))
            return Ptr(base.obj, base.row, s.arith(st, 'add', base.col, s.lo(i), 32))
        off = base.col
        if isinstance(off, tuple):
            if len(idx) == 1 and bt.k == 'ptr':
                return Ptr(base.obj, 0, (off[0], s.arith(st, 'add', off[1], i0, 64), off[2]))
            raise Unsupported('gep on table entry')
        if not isinstance(i0, int):
            raise Unsupported('symbolic offset')
        m = s.mod
        off += sgn(i0, 64) * m.size(bt)
        for i in idx[1:]:
            t = m.resolve(t)
            if t.k == 'struct':
                off += m.layout(t)[0][i]
                t = t.a[i]
            elif t.k == 'array':
                if isinstance(i, int):
                    s.oblige(st, 'index in bounds of an array member', i <= t.a)
                    off += i * m.size(t.b)
                else:
                    return Ptr(base.obj, 0, (off, i, t.a))
                t = t.b
        return Ptr(base.obj, 0, off)

    def small(s, i):
        if i.decl().name() == 'zero_extend' or i.decl().kind() == z3.Z3_OP_ZERO_EXT:
            return True
        return Extract(63, 32, i) == 0

    def lo(s, x):
        if isinstance(x, int):
            return mask(x, 32)
        if x.size() == 32:
            return x
        if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
            return x.arg(0)
        return Extract(31, 0, x)

    # ------------------------------------------------------------ execution
    def run(s, f, st, args):
        """-> list of (state, return value)"""
        s.depth += 1
        if s.depth > 12:
            raise Unsupported('recursion')
        saved, s.mod = s.mod, f.mod
        sfn, s.fn = getattr(s, 'fn', ''), f.name
        f.parse()
        params = f.params
        st.regs.append({'__id': next(s.ids)})
        for (n, t, _), a in zip(params, args):
            st.regs[-1][n] = a
        outs = s.go(f, st, f.entry, None, None)
        s.mod, s.fn = saved, sfn
        s.depth -= 1
        res = []
        for k, st2, v in outs:
            assert k == 'ret'
            dead = st2.regs.pop()['__id']
            for o in [o for o in st2.cells if o.endswith(f'@{dead}')]:
                del st2.cells[o]
            res.append((st2, v))
        return res

    def go(s, f, st, blk, prev, ctx):
        work, outs = [(st, blk, prev, 0)], []
        n = 0
        while work:
            st, blk, prev, i = work.pop()
            n += 1
            if n > 200000 or len(work) > 300:
                raise Unsupported('too many paths')
            for k, st2, x in s.block(f, st, blk, prev, i):
                if k == 'ret':
                    outs.append((k, st2, x))
                elif k == 'cont':
                    work.append((st2, blk, prev, x))
                elif ctx and x == ctx[0]:
                    outs.append(('back', st2, blk))
                elif ctx and x not in ctx[1]:
                    outs.append(('exit', st2, (x, blk)))
                elif x in f.loops:
                    for o in s.loop(f, st2, x, blk):
                        if o[0] == 'exit':
                            t, fr = o[2]
                            if ctx and t == ctx[0]:
                                outs.append(('back', o[1], fr))
                            elif ctx and t not in ctx[1]:
                                outs.append(('exit', o[1], (t, fr)))
                            elif t in f.loops:
                                # leaving one loop straight into the header of another
                                work.append((o[1], t, fr, -1))
                            else:
                                work.append((o[1], t, fr, 0))
                        else:
                            outs.append(o)
                else:
                    work.append((st2, x, blk, 0))
        return outs

    def block(s, f, st, blk, prev, i):
        if i == -1:
            return [(k, a, b) for k, a, b in s.loop(f, st, blk, prev)]
        code = f.blocks[blk]
        R = st.regs[-1]
        while True:
            I = code[i]
            op = I.op
            if op == 'phi':
                for v, b in I.x:
                    if b == prev:
                        R[I.dst] = s.val(st, v, I.ty)
                i += 1
                continue
            if op == 'br':
                if not I.args:
                    return [('goto', st, I.x[0])]
                c = R[I.args[0][1]] if I.args[0][0] == 'l' else bool(I.args[0][1])
                if c is None:
                    raise Unsupported('branch on undefined value')
                if not isinstance(c, bool):
                    c = z3.simplify(c)
                    c = True if z3.is_true(c) else False if z3.is_false(c) else c
                if isinstance(c, bool):
                    return [('goto', st, I.x[0] if c else I.x[1])]
                out = []
                ok = [cc for cc in (0, 1) if s.valid(st.pc, Not(c) if cc == 0 else c, 3000) != 'proved']
                for cc in ok:
                    st2 = st.copy()
                    st2.pc.append(c if cc == 0 else Not(c))
                    out.append(('goto', st2, I.x[cc]))
                return out
            if op == 'switch':
                v = s.val(st, I.args[0], I.ty)
                if not isinstance(v, int):
                    raise Unsupported('symbolic switch')
                for cv, t in I.x[1]:
                    if mask(cv[1], I.ty.a) == v:
                        return [('goto', st, t)]
                return [('goto', st, I.x[0])]
            if op == 'ret':
                return [('ret', st, s.val(st, I.args[0], I.ty) if I.args else None)]
            if op == 'unreachable':
                return []
            if op == 'call':
                r = s.call(f, st, I)
                if len(r) == 1:
                    st, v = r[0]
                    R = st.regs[-1]
                    if I.dst:
                        R[I.dst] = v
                    i += 1
                    continue
                out = []
                for st2, v in r:
                    if I.dst:
                        st2.regs[-1][I.dst] = v
                    out.append(('cont', st2, i + 1))
                return out
            v = s.instr(st, I)
            if I.dst:
                R[I.dst] = v
            i += 1

    def instr(s, st, I):
        op = I.op
        R = st.regs[-1]
        if op == 'load':
            return s.load(st, s.val(st, I.args[0], None), s.mod.resolve(I.ty))
        if op == 'store':
            return s.store(st, s.val(st, I.args[1], None), s.val(st, I.args[0], I.ty), s.mod.resolve(I.ty))
        if op == 'getelementptr':
            return s.gep(st, s.val(st, I.args[0], None), I.ty, [s.val(st, x, t) for t, x in I.x])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return s.arith(st, op, s.val(st, I.args[0], I.ty), s.val(st, I.args[1], I.ty), I.ty.a)
        if op == 'icmp':
            a, b = s.val(st, I.args[0], I.ty), s.val(st, I.args[1], I.ty)
            if a is None or b is None:
                raise Unsupported('undefined value compared')
            return s.icmp(st, I.x, a, b, I.ty.a)
        if op in ('zext', 'sext', 'trunc'):
            v = s.val(st, I.args[0], I.ty)
            f, t = I.ty.a, I.x.a
            if v is None:
                return None
            if f == 1:
                if isinstance(v, (bool, int)):
                    return int(bool(v)) if op == 'zext' else mask(-int(bool(v)), t)
                return If(v, BitVecVal(1 if op == 'zext' else -1, t), BitVecVal(0, t))
            if isinstance(v, Lin):
                if op == 'zext':
                    e = lambda q: q if isinstance(q, int) else ZeroExt(t - f, q)
                    return Lin(e(v.row), e(v.col), t)
                v = s.lin2bv(v)
            if isinstance(v, int):
                return mask(v if op != 'sext' else sgn(v, f), t)
            if op == 'trunc':
                return Extract(t - 1, 0, v) != 0 if t == 1 else Extract(t - 1, 0, v)
            return ZeroExt(t - f, v) if op == 'zext' else SignExt(t - f, v)
        if op == 'alloca':
            r = f'{I.dst}@{R["__id"]}'
            st.cells[r] = {}
            t = s.mod.resolve(I.ty)
            if t.k == 'int':
                s.width[(r, 0)] = t.a
            return Ptr(r, 0, 0)
        if op == 'select':
            c = s.val(st, I.args[0], I.ty)
            c = R[I.args[0][1]] if I.args[0][0] == 'l' else c
            a, b = s.val(st, I.args[1], I.ty), s.val(st, I.args[2], I.ty)
            if isinstance(c, (bool, int)):
                return a if c else b
            if isinstance(a, (Ptr, Lin)) or isinstance(b, (Ptr, Lin)) or a is None or b is None:
                raise Unsupported('select')
            return If(c, bv(a, I.ty.a), bv(b, I.ty.a))
        if op == 'freeze':
            return s.val(st, I.args[0], I.ty)
        raise Unsupported('instruction ' + I.line[:80])

    def call(s, f, st, I):
        cal = I.x['callee']
        if cal[0] != 'g':
            raise Unsupported('indirect call')
        name = cal[1].lstrip('@').strip('"')
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg')):
            return [(st, None)]
        a = [s.val(st, v, t) for t, v in I.args]
        if name.startswith(('llvm.cttz', 'llvm.ctlz')):
            x, w = a[0], I.args[0][0].a
            z = a[1]
            if isinstance(x, int):
                if x == 0:
                    return [(st, w)]
                return [(st, (x & -x).bit_length() - 1 if 'cttz' in name else w - x.bit_length())]
            if z is True or z == 1:
                s.oblige(st, 'argument of ctz is not zero', x != 0)
            r = BitVecVal(w, w)
            for k in (range(w - 1, -1, -1) if 'cttz' in name else range(w)):
                r = If(Extract(k, k, x) == 1, BitVecVal(k if 'cttz' in name else w - 1 - k, w), r)
            c = s.fresh('ctz', w)
            st.pc.append(c == r)
            return [(st, c)]
        if name in ('malloc', 'calloc'):
            n = a[0]
            if name == 'calloc':
                n = s.arith(st, 'mul', a[0], a[1], 64)
            o = f'{name}!{next(s.ids)}'
            st0 = st.copy()
            if s.sdim is not None and isinstance(n, Lin) and isinstance(n.row, int) and n.row % 4 == 0 and isinstance(n.col, int) and n.col == 0:
                base = z3.Function(o, BitVecSort(32), BitVecSort(32), BitVecSort(32))
                st.arrs[o] = Arr(base, n.row // 4, s.sdim, (), [lambda r, c, b=base: [b(r, c) == 0]] if name == 'calloc' else [])
            elif isinstance(n, int):
                st.cells[o] = {}
                st.sizes[o] = n
            else:
                raise Unsupported('allocation of symbolic size')
            return [(st0, NULL), (st, Ptr(o, 0, 0))]
        if name == 'free':
            if isinstance(a[0], Ptr) and a[0].obj:
                s.oblige(st, 'free of a live object at its start', a[0].obj not in st.freed and (a[0].row, a[0].col) == (0, 0))
                st.freed = st.freed | {a[0].obj}
            return [(st, None)]
        g = s.mod.funcs.get(name)
        if g is None:
            raise Unsupported('external function ' + name)
        s.inl.add(name)
        return s.run(g, st, a)

    # ------------------------------------------------------------ loops
    def loop(s, f, st0, h, prev):
        body = f.loops[h]
        # complete unrolling while the exit condition is concrete (or the loop only computes scalars)
        obl0, mark = list(s.obl), s.writes
        try:
            return s.unroll(f, st0.copy(), h, prev, body)
        except (NeedCut, NeedConst):
            s.obl = obl0
            s.writes = mark
            return s.cut(f, st0, h, prev, body)

    def unroll(s, f, st, h, prev, body):
        outs, cur = [], [(st, prev)]
        pure = not any(I.op == 'call' and not (I.x['callee'][0] == 'g' and 'llvm.' in I.x['callee'][1]) for b in body for I in f.blocks[b])
        for it in range(66):
            nxt = []
            for st1, pv in cur:
                n0 = len(st1.pc)
                arr0 = st1.arrs
                for o in s.go(f, st1, h, pv, (h, body)):
                    if o[0] == 'back':
                        if o[1].pc[n0:] and (not pure or any(o[1].arrs[k] is not arr0.get(k) for k in o[1].arrs)):
                            raise NeedCut
                        nxt.append((o[1], o[2]))
                    else:
                        if o[0] == 'exit' and it == 0 and o[1].pc[n0:] and not pure:
                            raise NeedCut
                        outs.append(o)
            cur = nxt
            if not cur:
                s.stats['unrolled'] += 1
                return s.merge(outs) if pure else outs
        raise NeedCut

    def merge(s, outs):
        """joins the ways out of a loop that only computed scalars"""
        if len(outs) < 2 or any(o[0] != 'exit' or o[2] != outs[0][2] for o in outs):
            return outs
        a = outs[0][1]
        n = 0
        while all(len(o[1].pc) > n and o[1].pc[n].eq(a.pc[n]) for o in outs):
            n += 1
        keys = {(o, k) for x in outs for o in x[1].cells for k in x[1].cells[o]}
        diff = []
        same = lambda x, y: x is y or type(x) == type(y) and (x == y if isinstance(x, int) else not isinstance(x, (Ptr, Lin)) and z3.is_expr(x) and x.eq(y))
        for o, k in keys:
            vs = [x[1].cells.get(o, {}).get(k) for x in outs]
            if not all(same(v, vs[0]) for v in vs):
                if any(v is None or isinstance(v, (Ptr, Lin)) for v in vs) or (o, k) not in s.width:
                    return outs
                diff.append((o, k, vs))
        if any(x[1].arrs.keys() != a.arrs.keys() or any(x[1].arrs[q] is not a.arrs[q] for q in a.arrs) or x[1].freed != a.freed for x in outs):
            return outs
        st = a.copy()
        st.pc = a.pc[:n]
        dis = [list(x[1].pc[n:]) for x in outs]
        for o, k, vs in diff:
            w = s.width[o, k]
            c = s.fresh('m', w)
            st.cells[o][k] = c
            for d, v in zip(dis, vs):
                d.append(c == bv(v, w))
        st.pc.append(Or([And(d) for d in dis]))
        for r in list(st.regs[-1]):
            if r != '__id' and any(x[1].regs[-1].get(r) is not st.regs[-1][r] for x in outs):
                del st.regs[-1][r]
        return [('exit', st, outs[0][2])]

    def havoc(s, st, st0, mods):
        for m in mods:
            if m[0] == 'arr':
                o = st.arrs[m[1]]
                st.arrs[m[1]] = Arr(z3.Function(f'{m[1]}!{next(s.ids)}', BitVecSort(32), BitVecSort(32), BitVecSort(32)), o.rows, o.cols, (), [])
            else:
                c = st.cells[m[1]]
                old = c.get(m[2])
                if isinstance(old, (Ptr, Lin)):
                    raise Unsupported('pointer modified in a loop')
                if old is None:
                    c.pop(m[2], None)      # first assigned inside the loop
                    continue
                w = s.width.get((m[1], m[2]), old.size() if not isinstance(old, int) else 32)
                c[m[2]] = s.fresh('h', w)

    width = {}
    gfacts = ()
    dbg = False

    def cut(s, f, st0, h, prev, body):
        s.stats['loops'] += 1
        for b in body:
            for I in f.blocks[b]:
                if I.op == 'phi' and b == h:
                    raise Unsupported('phi at loop header')
        # locations the loop modifies
        mods = set()
        for b in f.blocks.values():
            pass
        ws = {}
        for rnd in range(4):
            st = st0.copy()
            s.havoc(st, st0, mods)
            saved, s.writes = s.writes, set()
            s.quiet += 1
            try:
                s.go(f, st, h, prev, (h, body))
            except NeedConst:
                s.writes, w = saved, s.writes
                s.quiet -= 1
                return s.enumerate(f, st0, h, prev, body)
            finally:
                if s.writes is not saved:
                    w = s.writes
                    s.writes = saved
                    s.quiet -= 1
            live = {m for m in w if m[0] == 'arr' and m[1] in st0.arrs or m[0] == 'cell' and m[1] in st0.cells}
            if live <= mods:
                break
            mods |= live
        else:
            raise Unsupported('modified locations of a loop')
        if s.writes is not None:
            s.writes |= mods
        scal = [(m[1], m[2]) for m in sorted(mods, key=str) if m[0] == 'cell' and st0.cells[m[1]].get(m[2]) is not None]
        cands = []
        for v in scal:
            cands += s.cands(s, st0, v, scal)
        cands = [c for c in cands]
        # entry
        g = s.fresh('g', 32)

        def holds(st, c):
            st = st.copy()
            n = len(st.pc)
            goal = c[1](st, g)
            return s.valid(st.pc + [ULT(g, s.sdim)] if s.sdim is not None else st.pc, goal) == 'proved'
        s.quiet += 1
        try:
            c0 = cands
            cands = [c for c in cands if holds(st0, c)]
            if s.dbg: print('entry drops', [c[0] for c in c0 if c not in cands])
            while True:
                st = st0.copy()
                s.havoc(st, st0, mods)
                s.assume_cands(st, cands)
                drop = set()
                saved, s.writes = s.writes, set()
                outs = s.go(f, st.copy(), h, prev, (h, body))
                s.writes = saved
                for o in outs:
                    if o[0] == 'back':
                        for c in cands:
                            if c[0] not in drop and not holds(o[1], c):
                                drop.add(c[0])
                if s.dbg: print('step drops', drop)
                if not drop:
                    break
                cands = [c for c in cands if c[0] not in drop]
        finally:
            s.quiet -= 1
        s.stats['invariants'] += len(cands)
        s.last = [c[0] for c in cands]
        # final pass with obligations
        st = st0.copy()
        s.havoc(st, st0, mods)
        s.assume_cands(st, cands)
        hst = st.copy()
        outs = s.go(f, st, h, prev, (h, body))
        if not s.quiet:
            s.term(f, h, hst, outs, scal)
        return [o for o in outs if o[0] != 'back']

    def term(s, f, h, hst, outs, scal):
        """some scalar strictly decreases or increases below a bound"""
        backs = [o for o in outs if o[0] == 'back']
        for v in scal:
            a = hst.cells[v[0]][v[1]]
            if isinstance(a, int) or not z3.is_bv(a):
                continue
            for lab, fn in (('decreases', lambda x, y: ULT(y, x)), ('increases', lambda x, y: UGT(y, x))):
                if all(s.valid(o[1].pc, fn(a, bv(o[1].cells[v[0]][v[1]], a.size()))) == 'proved' for o in backs):
                    s.stats.setdefault('terminating', 0)
                    s.stats['terminating'] += 1
                    return
        s.nonterm.append(f'{f.name}: loop at {h}')

    def assume_cands(s, st, cands):
        for c in cands:
            if c[2]:      # about every element: instantiated at the indices read
                for a in c[2]:
                    if a in st.arrs:
                        o = st.arrs[a]
                        snap = st.copy()
                        snap.arrs = {k: Arr(v.base, v.rows, v.cols, v.writes, ()) for k, v in snap.arrs.items()}
                        st.arrs[a] = Arr(o.base, o.rows, o.cols, o.writes, list(o.facts) + [lambda r, t, c=c, snap=snap: [Implies(ULT(t, s.sdim), c[1](s.plain(snap), t))]])
            else:
                st.pc.append(c[1](st, None))

    def plain(s, snap):
        return snap

    def enumerate(s, f, st0, h, prev, body):
        """a loop over the dimensions whose iterations are looked up in constant tables: every iteration is executed for its own
        index; it may write only the column of its index, with values that do not depend on the state"""
        iv = None
        for I in f.blocks[h]:
            if I.op == 'load':
                p = st0.regs[-1].get(I.args[0][1])
                if isinstance(p, Ptr) and p.obj in st0.cells and isinstance(st0.cells[p.obj].get(0), int) and s.width.get((p.obj, 0)) == 32:
                    iv = p.obj
                    break
        if iv is None:
            raise Unsupported('index of an enumerated loop')
        v0 = st0.cells[iv][0]
        s.valid(st0.pc, ULE(s.sdim, MAXDIM)) == 'proved' or s.bad('unbounded enumeration')
        tasks = [list(range(k, MAXDIM, 8)) for k in range(8)]
        global _job
        _job = (s, f, st0, h, prev, body, iv, v0)
        multiprocessing.current_process()._config['daemon'] = False      # the pool below is joined before this returns
        with multiprocessing.get_context('fork').Pool(8) as p:
            res = p.map(_enum, tasks)
        T, arr = {}, None
        for r, a, nobl in res:
            if isinstance(r, str):
                raise Unsupported(r)
            T.update(r)
            arr = arr or a
            s.stats['enumerated'] += len(r)
        o = st0.arrs[arr]
        rows = {r for c in T.values() for r in c}
        base = z3.Function(f'{arr}!{next(s.ids)}', BitVecSort(32), BitVecSort(32), BitVecSort(32))
        Tab = z3.Function('Tab', BitVecSort(32), BitVecSort(32), BitVecSort(32))
        s.T, s.Tab = T, Tab
        lo = v0
        st = st0.copy()
        snap = st0.copy()

        def fact(r, c):
            old = s.arr_read(snap, arr, r, c)
            return [Implies(And(ULE(lo, c), ULT(c, s.sdim)), base(r, c) == Tab(r, c)), Implies(ULT(c, lo), base(r, c) == old)] + s.tabfacts(r, c)
        st.arrs[arr] = Arr(base, o.rows, o.cols, (), [fact])
        out = []
        st.cells[iv][0] = s.fresh('i', 32)
        st.pc += [UGE(st.cells[iv][0], s.sdim), UGE(st.cells[iv][0], lo)]
        for m in s.modified_scalars(f, st, body):
            if m != iv and m in st.cells:
                st.cells[m].pop(0, None)
        res = [x for x in s.go(f, st, h, prev, (h, body)) if x[0] != 'back']
        return res

    def tabfacts(s, r, c):
        return []


_job = None


def _enum(idx):
    s, f, st0, h, prev, body, iv, v0 = _job
    T, arr = {}, None
    try:
        for i in idx:
            if i < v0:
                continue
            st = st0.copy()
            # the state of an arbitrary iteration: everything the loop may change is unknown
            mine = st.regs[-1]['__id']
            for o in list(st.arrs):
                if st.arrs[o].rows > 1:
                    a = st.arrs[o]
                    st.arrs[o] = Arr(z3.Function('u', BitVecSort(32), BitVecSort(32), BitVecSort(32)), a.rows, a.cols, (), [])
            for k in s.modified_scalars(f, st, body):
                if k in st.cells and k != iv:
                    st.cells[k].pop(0, None)
            st.cells[iv][0] = i
            st.pc = st.pc + [ULT(BitVecVal(i, 32), s.sdim)]
            saved, s.writes = s.writes, set()
            n0 = len(s.obl)
            outs = s.go(f, st, h, prev, (h, body))
            w, s.writes = s.writes, saved
            backs = [o for o in outs if o[0] == 'back']
            if len(outs) != 1 or len(backs) != 1:
                return 'iteration of an enumerated loop forks', None, 0
            seen = {}          # one path: what held earlier in the iteration holds later
            for lab, pc, g in s.obl[n0:]:
                if g.get_id() in seen:
                    continue
                r = s.valid(pc, g)
                if r != 'proved':
                    return f'{lab} in iteration {i}: {r}', None, 0
                seen[g.get_id()] = g
            del s.obl[n0:]
            e = backs[0][1]
            if e.cells[iv][0] != i + 1:
                return 'index of an enumerated loop', None, 0
            for x in w:
                if x[0] == 'arr' and x[1] in st0.arrs:
                    arr = arr or x[1]
                    if x[1] != arr:
                        return 'enumerated loop writes several arrays', None, 0
                elif x[0] == 'cell' and x[1] in st0.cells and not x[1].endswith(f'@{mine}'):
                    return 'enumerated loop writes other objects', None, 0
            col = {}
            for r, c, v in e.arrs[arr].writes:
                if c != i or not isinstance(r, int) or not isinstance(v, int):
                    return f'iteration {i} of an enumerated loop writes outside its column or a value that depends on the state', None, 0
                col[r] = v
            T[i] = col
    except (Unsupported, NeedConst, NeedCut) as ex:
        return 'enumerated loop: ' + repr(ex)[:200], None, 0
    return T, arr, 0


def modified_scalars(s, f, st, body):
    r = set()
    for b in body:
        for I in f.blocks[b]:
            if I.op == 'store' and I.args[1][0] == 'l':
                p = st.regs[-1].get(I.args[1][1])
                if isinstance(p, Ptr):
                    r.add(p.obj)
    return r


BV.modified_scalars = modified_scalars
