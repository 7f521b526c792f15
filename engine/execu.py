"""Instruction semantics, calls, loops."""
import re, time, itertools
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal
from ir import Unsupported, T, PTR
import spec, sym, stl
from sym import *
from spec import I, B, Flt

TWO = {8: 1 << 8, 16: 1 << 16, 32: 1 << 32, 64: 1 << 64}


class Undef:
    pass


UNDEF = Undef()


class Exec(Engine):
    maxpaths = 4000

    # ------------------------------------------------------------ values
    def val(s, st, v, ty):
        k = v[0]
        if k == 'l':
            return st.frames[-1][v[1]]
        if k == 'i':
            if ty.k == 'int' and ty.a == 1:
                return BoolVal(bool(v[1]))
            return IntVal(v[1])
        if k == 'f':
            return s.fl.const(v[1])
        if k == 'g':
            return s.globptr(v[1].lstrip('@').strip('"'))
        if k == 'null':
            return NULL
        if k in ('undef', 'poison'):
            return UNDEF
        if k == 'zeroinitializer':
            return s.zero(ty)
        if k == 'cgep':
            base = s.val(st, v[2], PTR)
            return s.gep(st, base, v[1], [s.val(st, x, t) for t, x in v[3]])
        if k == 'agg':
            return tuple(s.val(st, x, t) for t, x in v[1])
        raise Unsupported('constant ' + str(v[0]))

    def zero(s, ty):
        ty = s.mod.resolve(ty)
        if ty.k == 'int':
            return BoolVal(False) if ty.a == 1 else IntVal(0)
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'fp':
            return s.fl.const(0.0)
        if ty.k == 'struct':
            return tuple(s.zero(f) for f in ty.a)
        raise Unsupported('zero of ' + str(ty))

    def globptr(s, name):
        if name in s.mod.funcs or name in s.mod.decls:
            return FnPtr(name)
        return Ptr('@' + name)

    def gep(s, st, base, bt, idx):
        if isinstance(base, FnPtr):
            raise Unsupported('gep on function')
        if base is UNDEF or base.root is None:
            return base
        i0 = idx[0]
        p = base
        m = s.mod
        sz = m.size(bt)
        if not (isn(i0) and num(i0) == 0):
            if bt.k == 'int' and bt.a == 8 and isn(i0):
                o = num(i0)
                p = p.field(o)
            else:
                if len(p.offs) < 2 or p.offs[-1] != 0:
                    if isn(i0) and len(p.offs) < 2:
                        p = p.field(num(i0) * sz)
                        i0 = None
                    else:
                        raise Unsupported(f'pointer arithmetic on {p}')
                if i0 is not None:
                    p = p.at(add(p.idx[-1], i0))
        t = bt
        for i in idx[1:]:
            t = m.resolve(t)
            if t.k == 'struct':
                p = p.field(m.layout(t)[0][num(i)])
                t = t.a[num(i)]
            elif t.k == 'array':
                p = p.sub('A', i)
                t = t.b
            else:
                raise Unsupported('gep into ' + str(t))
        return p

    # ------------------------------------------------------------ bounds
    def bounds(s, st, p, what):
        """obligation: the last indexed region of p is accessed inside its bounds"""
        if p is UNDEF or not isinstance(p, Ptr) or p.root is None:
            s.oblige(st, f'{what}: valid pointer', BoolVal(False))
            raise Unsupported(f'{what} through an undefined or null pointer')
        if st.freed and any(p.offs[n] == 'P' and (p.root, p.offs[:n]) in st.freed for n in range(len(p.offs))):
            s.oblige(st, f'{what}: object alive', BoolVal(False))
        for n in range(len(p.offs) - 1, 0, -1):
            mk = p.offs[n]
            if mk in MARK:
                d = depth(p.offs[:n + 1])
                base = p.offs[:n]
                i = p.idx[d - 1]
                pre = p.idx[:d - 1]
                if mk == 'E':
                    lim = st.read(Ptr(p.root, base + ('len',), pre), 'i')
                elif mk == 'P':
                    if isn(i) and num(i) == 0 and p.offs[n + 1] != 0:
                        continue
                    if s.objptr(p, n):
                        continue
                    lim = st.read(Ptr(p.root, base + ('cap',), pre), 'i')
                elif mk == 'A':
                    k = (p.root, base)
                    lim = s.arrlen.get(k)
                    if lim is None:
                        return
                    lim = IntVal(lim)
                if not (isn(i) and num(i) >= 0 and False):
                    s.oblige(st, f'{what}: in bounds', And(0 <= i, i < lim))
                return
        return

    def objptr(s, p, n):
        """pointers to single objects (references held in fields): index 0, no capacity"""
        i = p.idx[depth(p.offs[:n + 1]) - 1]
        return isn(i) and num(i) == 0 and s.isref(p, n)

    def isref(s, p, n):
        return (p.offs[n - 1] in s.refoffs) if hasattr(s, 'refoffs') else False

    # ------------------------------------------------------------ running
    def run(s, func, st, block, i, prev, ctx):
        """all outcomes of continuing at instruction i of block, within loop context ctx=(header, body) or None"""
        work = [(st, block, i, prev)]
        outs = []
        while work:
            st, block, i, prev = work.pop()
            s.stats['paths'] += 1
            if s.deadline and time.time() > s.deadline:
                raise Unsupported('time budget of the symbolic execution exhausted')
            if len(work) > s.maxpaths:
                raise Unsupported('too many paths in ' + func.name)
            res = s.block(func, st, block, i, prev)
            for r in res:
                if r[0] == 'goto':
                    _, st2, tgt = r
                    outs.extend(s.jump(func, st2, tgt, block, ctx, work))
                elif r[0] == 'cont':
                    work.append((r[1], block, r[2], prev))
                else:
                    outs.append(r[1])
        return outs

    def jump(s, func, st, tgt, frm, ctx, work):
        outs = []
        if ctx and tgt == ctx[0]:
            return [Outcome('back', st, prev=frm)]
        if ctx and tgt not in ctx[1]:
            return [Outcome('exit', st, blk=tgt, prev=frm)]
        if tgt in func.loops:
            for o in s.loop(func, st, tgt, frm, ctx):
                if o.kind == 'exit':
                    outs.extend(s.jump(func, o.st, o.blk, o.prev, ctx, work))
                else:
                    outs.append(o)
            return outs
        work.append((st, tgt, 0, frm))
        return outs

    def block(s, func, st, block, i, prev):
        """run instructions until a terminator or a fork"""
        code = func.blocks[block]
        saved = s.mod
        s.mod = func.mod
        try:
            if i == 0:
                phis = [(I_, s.phi(st, I_, prev)) for I_ in itertools.takewhile(lambda q: q.op == 'phi', code)]
                for I_, v in phis:
                    st.frames[-1][I_.dst] = v
                i = len(phis)
            while True:
                I_ = code[i]
                op = I_.op
                s.cur = (func, I_)
                if op == 'br':
                    if not I_.args:
                        return [('goto', st, I_.x[0])]
                    c = s.val(st, I_.args[0], T('int', 1))
                    return s.branch(func, st, c, I_.x[0], I_.x[1])
                if op == 'switch':
                    return s.switch(st, I_)
                if op == 'ret':
                    v = s.val(st, I_.args[0], I_.ty) if I_.args else None
                    return [('out', Outcome('ret', st, v))]
                if op == 'unreachable':
                    return []
                if op == 'resume':
                    return [('out', Outcome('throw', st, 'resume'))]
                if op in ('call', 'invoke'):
                    res = s.call(func, st, I_)
                    r = []
                    for kind, st2, v in res:
                        if kind == 'throw':
                            if op == 'invoke' and s.catches(func, I_.x['unwind']):
                                raise Unsupported('catch clause')
                            r.append(('out', Outcome('throw', st2, v)))
                            continue
                        if I_.dst:
                            st2.frames[-1][I_.dst] = v
                        if op == 'invoke':
                            r.append(('goto', st2, I_.x['to']))
                        else:
                            r.append(('cont', st2, i + 1))
                    if op == 'call' and len(r) == 1 and r[0][0] == 'cont':
                        st = r[0][1]
                        i += 1
                        continue
                    return r
                if op == 'select' and I_.ty.k == 'ptr':
                    c = s.val(st, I_.args[0], T('int', 1))
                    a, b = s.val(st, I_.args[1], I_.ty), s.val(st, I_.args[2], I_.ty)
                    r = []
                    for cc, vv in ((c, a), (Not(c), b)):
                        st2 = st.copy()
                        st2.assume(cc)
                        st2.frames[-1][I_.dst] = vv
                        r.append(('cont', st2, i + 1))
                    return r
                v = s.instr(st, I_)
                if I_.dst:
                    st.frames[-1][I_.dst] = v
                i += 1
        finally:
            s.mod = saved

    def catches(s, func, blk):
        return any(x.op == 'landingpad' and x.x['catch'] for x in func.blocks[blk])

    def phi(s, st, I_, prev):
        for v, b in I_.x:
            if b == prev:
                return s.val(st, v, I_.ty)
        raise Unsupported('phi without predecessor')

    def branch(s, func, st, c, a, b):
        c = z3.simplify(c) if not (z3.is_true(c) or z3.is_false(c)) else c
        if z3.is_true(c):
            return [('goto', st, a)]
        if z3.is_false(c):
            return [('goto', st, b)]
        r = []
        for cond, tgt in ((c, a), (Not(c), b)):
            if not s.feasible(st, cond):
                continue
            st2 = st.copy()
            st2.assume(cond)
            st2.trace.append(tgt)
            r.append(('goto', st2, tgt))
        return r

    def switch(s, st, I_):
        v = s.val(st, I_.args[0], I_.ty)
        d, cases = I_.x
        if v is UNDEF:
            raise Unsupported('switch on undefined')
        if isn(v):
            for cv, t in cases:
                if cv[1] == num(v):
                    return [('goto', st, t)]
            return [('goto', st, d)]
        r = []
        rest = []
        for cv, t in cases:
            c = v == cv[1]
            rest.append(Not(c))
            if s.feasible(st, c):
                st2 = st.copy()
                st2.assume(c)
                st2.trace.append(t)
                r.append(('goto', st2, t))
        c = conj(rest)
        if s.feasible(st, c):
            st2 = st.copy()
            st2.assume(c)
            st2.trace.append(d)
            r.append(('goto', st2, d))
        return r

    # ------------------------------------------------------------ instructions
    def instr(s, st, I_):
        op = I_.op
        if op == 'alloca':
            if I_.x is not None and not (I_.x[0] == 'i' and I_.x[1] == 1):
                raise Unsupported('dynamic alloca')
            r = f'{I_.dst}@{st.frames[-1]["__id"]}'
            s.local_roots.add(r)
            s.roots[r] = I_.ty
            rt = s.mod.resolve(I_.ty)
            if rt.k == 'array':
                s.arrlen[(r, (0,))] = rt.a
            return Ptr(r)
        if op == 'load':
            p = s.val(st, I_.args[0], PTR)
            return s.load(st, p, I_.ty)
        if op == 'store':
            v = s.val(st, I_.args[0], I_.ty)
            p = s.val(st, I_.args[1], PTR)
            s.store(st, p, v, I_.ty)
            return None
        if op == 'getelementptr':
            base = s.val(st, I_.args[0], PTR)
            return s.gep(st, base, I_.ty, [s.val(st, x, t) for t, x in I_.x])
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = s.val(st, I_.args[0], I_.ty), s.val(st, I_.args[1], I_.ty)
            return s.arith(st, op, a, b, I_)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return s.fl.bin(op, s.val(st, I_.args[0], I_.ty), s.val(st, I_.args[1], I_.ty))
        if op == 'fneg':
            return s.fl.neg(s.val(st, I_.args[0], I_.ty))
        if op == 'icmp':
            a, b = s.val(st, I_.args[0], I_.ty), s.val(st, I_.args[1], I_.ty)
            if I_.x[0] == 'u' and I_.ty.k == 'int' and I_.ty.a > 1:
                for x in (a, b):
                    # every value is one of the machine's (64-bit arithmetic is treated as mathematical; smaller widths are checked)
                    if z3.is_expr(x) and not isn(x) and not s.nonneg(x):
                        st.assume(x >= -(TWO[I_.ty.a] // 2))
            return s.icmp(I_.x, a, b, I_.ty)
        if op == 'fcmp':
            return s.fl.cmp(I_.x, s.val(st, I_.args[0], I_.ty), s.val(st, I_.args[1], I_.ty))
        if op in ('zext', 'sext', 'trunc'):
            return s.cast(st, op, s.val(st, I_.args[0], I_.ty), I_.ty, I_.x)
        if op in ('sitofp', 'uitofp'):
            x = s.val(st, I_.args[0], I_.ty)
            if op == 'uitofp':
                x = s.uns(x, I_.ty.a)
            return s.fl.fromint(x, True, I_.ty.a)
        if op in ('fptosi', 'fptoui'):
            return s.fl.toint(s.val(st, I_.args[0], I_.ty), I_.x.a, s, st)
        if op in ('fpext', 'fptrunc', 'bitcast', 'freeze'):
            return s.val(st, I_.args[0], I_.ty)
        if op == 'select':
            c = s.val(st, I_.args[0], T('int', 1))
            a, b = s.val(st, I_.args[1], I_.ty), s.val(st, I_.args[2], I_.ty)
            if a is UNDEF or b is UNDEF:
                raise Unsupported('select undef')
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            return If(c, a, b)
        if op == 'extractvalue':
            v = s.val(st, I_.args[0], I_.ty)
            for i in I_.x:
                v = v[i] if v is not UNDEF else UNDEF
            return v
        if op == 'insertvalue':
            v = s.val(st, I_.args[0], I_.ty)
            w = None
            raise Unsupported('insertvalue')
        if op == 'landingpad':
            raise Unsupported('landingpad reached')
        if op == 'ptrtoint':
            p = s.val(st, I_.args[0], I_.ty)
            return p
        raise Unsupported('instruction ' + I_.line[:80])

    def uns(s, x, w):
        if isn(x):
            return IntVal(num(x) % TWO[w])
        if s.nonneg(x):
            return x
        return If(x >= 0, x, x + TWO[w])

    def wrap(s, x, w):
        if isn(x):
            v = num(x) % TWO[w]
            return IntVal(v - TWO[w] if v >= TWO[w] // 2 else v)
        if z3.is_app(x) and x.decl().name() == 'if' and x.num_args() == 3 and isn(x.arg(1)) and isn(x.arg(2)):
            return x
        return (x + TWO[w] // 2) % TWO[w] - TWO[w] // 2

    def arith(s, st, op, a, b, I_):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = I_.ty.a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.offs == b.offs:
                return ('pdiff', sub(a.idx[-1], b.idx[-1]))
            raise Unsupported('pointer arithmetic')
        if isinstance(a, tuple) and a[0] == 'pdiff':
            if op == 'sdiv':
                return a[1]
            raise Unsupported('pointer difference arithmetic')
        if w == 1:
            if op == 'xor':
                return Not(a) if z3.is_true(b) else z3.Xor(a, b)
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            raise Unsupported('i1 ' + op)
        if op in ('add', 'sub', 'mul'):
            r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
            if w >= 64 or isn(r):
                return s.wrap(r, w) if isn(r) else r
            if ' nsw ' in I_.line:
                s.oblige(st, f'no signed overflow in {w}-bit {op}', And(-(TWO[w] // 2) <= r, r < TWO[w] // 2))
                return r
            return s.wrap(r, w)
        if op in ('udiv', 'urem'):
            a, b = s.uns(a, w), s.uns(b, w)
            s.oblige(st, 'division by zero', b != 0)
            return s.divmod(st, a, b)[0 if op == 'udiv' else 1]
        if op in ('sdiv', 'srem'):
            s.oblige(st, 'division by zero', b != 0)
            if isn(a) and isn(b) and num(b) != 0:
                q = abs(num(a)) // abs(num(b)) * (1 if (num(a) >= 0) == (num(b) > 0) else -1)
                return IntVal(q if op == 'sdiv' else num(a) - q * num(b))
            if isn(b) and num(b) > 0:
                q = If(a >= 0, a / b, -((-a) / b))
                return q if op == 'sdiv' else a - q * b
            q = s.fresh('q', I)
            r = s.fresh('r', I)
            st.assume(Implies(b != 0, And(a == b * q + r, Implies(a >= 0, And(0 <= r, Or(r < b, r < -b))), Implies(a < 0, And(r <= 0, Or(-r < b, -r < -b))))))
            return q if op == 'sdiv' else r
        if op == 'shl' and isn(b):
            r = mul(a, IntVal(1 << num(b)))
            return s.wrap(r, w)
        if op in ('lshr', 'ashr') and isn(b):
            x = s.uns(a, w) if op == 'lshr' else a
            if isn(x):
                return IntVal(num(x) >> num(b))
            return x / (1 << num(b))
        if op == 'and' and isn(b) and (num(b) & (num(b) + 1)) == 0 and num(b) >= 0:
            return s.uns(a, w) % (num(b) + 1)
        if isn(a) and isn(b):
            f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'xor': lambda x, y: x ^ y, 'shl': lambda x, y: x << y}[op]
            return s.wrap(IntVal(f(num(a), num(b))), w)
        raise Unsupported(f'bit operation {op}')

    def divmod(s, st, a, b):
        if isn(a) and isn(b) and num(b) != 0:
            return IntVal(num(a) // num(b)), IntVal(num(a) % num(b))
        if isn(b) and num(b) > 0:
            return a / b, a % b
        q = spec.quot(a, b)
        return q, a - b * q

    def icmp(s, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            raise Unsupported('comparison of undefined value')
        if isinstance(a, (Ptr, FnPtr)):
            r = ptr_eq(a, b)
            if pred == 'eq':
                return r
            if pred == 'ne':
                return z3.simplify(Not(r))
            if a.root == b.root and a.offs == b.offs:
                x, y = a.idx[-1], b.idx[-1]
                return {'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y}[pred]
            raise Unsupported('pointer ordering')
        if ty.k == 'int' and ty.a == 1:
            return a == b if pred == 'eq' else Not(a == b)
        if s.listeners:
            for l in s.listeners:
                l['cmps'].append((a, b))
        if pred[0] == 'u':
            a, b = s.uns(a, ty.a), s.uns(b, ty.a)
            pred = 's' + pred[1:]
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sgt': lambda: a > b, 'sle': lambda: a <= b, 'sge': lambda: a >= b}[pred]()
        if isn(a) and isn(b):
            return z3.simplify(r)
        return r

    def cast(s, st, op, v, f, t):
        if v is UNDEF:
            return UNDEF
        if op == 'trunc':
            if t.a == 1:
                if z3.is_app(v) and v.decl().name() == 'if' and isn(v.arg(1)) and isn(v.arg(2)) and num(v.arg(1)) == 1 and num(v.arg(2)) == 0:
                    return v.arg(0)
                if isn(v):
                    return BoolVal(num(v) % 2 == 1)
                return v != 0
            return s.wrap(v, t.a)
        if f.a == 1:
            if z3.is_true(v):
                return IntVal(1)
            if z3.is_false(v):
                return IntVal(0)
            return If(v, IntVal(1 if op == 'zext' else -1), IntVal(0))
        if op == 'sext':
            return v
        r = s.uns(v, f.a)
        return r

    def load(s, st, p, ty):
        if p is UNDEF or isinstance(p, FnPtr):
            raise Unsupported('load through bad pointer')
        if p.root is not None and p.root.startswith('@'):
            return s.loadglobal(st, p, ty)
        s.bounds(st, p, 'read')
        ty = s.mod.resolve(ty)
        if ty.k == 'ptr':
            return st.read_ptr(p)
        if ty.k == 'int':
            v = st.read(p, 'i')
            if ty.a == 1:
                return z3.BoolVal(num(v) != 0) if isn(v) else v != 0
            if ty.a < 64 and not isn(v) and ty.a > 8:
                st.assume(And(-(TWO[ty.a] // 2) <= v, v < TWO[ty.a] // 2))
            if ty.a == 8 and not isn(v):
                st.assume(And(0 <= v, v <= 1) if s.boolish else And(-128 <= v, v < 128))
            return v
        if ty.k == 'fp':
            return st.read(p, s.fl.leaf)
        if ty.k == 'struct':
            offs = s.mod.layout(ty)[0]
            return tuple(s.load(st, p.field(o), t) for o, t in zip(offs, ty.a))
        raise Unsupported('load of ' + str(ty))

    boolish = True

    def store(s, st, p, v, ty):
        s.bounds(st, p, 'write')
        ty = s.mod.resolve(ty)
        if v is UNDEF:
            return
        if ty.k == 'ptr':
            if isinstance(v, FnPtr) or (isinstance(v, Ptr) and v.root is not None and v.root.startswith('@_ZTV')):
                return   # vtable pointer
            st.write_ptr(p, v)
        elif ty.k == 'int':
            if isinstance(v, Ptr):
                raise Unsupported('pointer stored as integer')
            st.write(p, 'i', If(v, IntVal(1), IntVal(0)) if z3.is_bool(v) else v)
        elif ty.k == 'fp':
            st.write(p, s.fl.leaf, v)
        elif ty.k == 'struct':
            offs = s.mod.layout(ty)[0]
            for o, t, x in zip(offs, ty.a, v):
                s.store(st, p.field(o), x, t)
        else:
            raise Unsupported('store of ' + str(ty))

    def loadglobal(s, st, p, ty):
        g = s.mod.glob(p.root[1:])
        if g is None or g[1] is None:
            raise Unsupported('global ' + p.root)
        if not g[2]:
            s.globals_read.add(p.root)
            if len(p.offs) == 1 and ty.k in ('int', 'fp'):
                return st.read(p, 'i' if ty.k == 'int' else s.fl.leaf)
            raise Unsupported('mutable global ' + p.root)
        if len(p.offs) == 1 and p.offs == (0,) and g[1][0] in ('i', 'f'):
            return s.val(st, g[1], ty)
        return s.constglobal(st, p, ty, g)

    def constglobal(s, st, p, ty, g):
        raise Unsupported('constant table ' + p.root)

    # ------------------------------------------------------------ calls
    def call(s, func, st, I_):
        cal = I_.x['callee']
        if cal[0] == 'g':
            name = cal[1].lstrip('@').strip('"')
        else:
            v = st.frames[-1].get(cal[1])
            if isinstance(v, FnPtr):
                name = v.name
            else:
                raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            return [('ok', st, s.intrinsic(st, name, I_))]
        args = [s.val(st, v, t) for t, v in I_.args]
        return s.invoke(st, name, args, I_, func)

    def intrinsic(s, st, name, I_):
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')):
            return None
        a = [s.val(st, v, t) for t, v in I_.args]
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if not isn(a[2]):
                raise Unsupported('memcpy of symbolic size')
            if a[1].root.startswith('@'):
                return s.memcpy_global(st, a[0], a[1], num(a[2]))
            st.op('copy', a[0], num(a[2]), a[1])
            return None
        if name.startswith('llvm.memset'):
            if isn(a[2]) and isn(a[1]) and num(a[1]) == 0:
                st.op('zero', a[0], num(a[2]))
                for k in list(st.pt):
                    pass
                return None
            raise Unsupported('memset')
        if name.startswith('llvm.umul.with.overflow'):
            return (mul(a[0], a[1]), BoolVal(False))    # 64-bit arithmetic is treated as mathematical
        if name.startswith('llvm.fabs'):
            return s.fl.call('fabs', a)
        if name.startswith(('llvm.smax', 'llvm.smin')):
            return If(a[0] > a[1] if 'smax' in name else a[0] < a[1], a[0], a[1])
        raise Unsupported('intrinsic ' + name)

    def memcpy_global(s, st, d, g, n):
        gl = s.mod.glob(g.root[1:])
        if gl is None or not gl[2]:
            raise Unsupported('memcpy from global')
        ty, v, _ = gl

        def put(p, ty, v):
            ty = s.mod.resolve(ty)
            if ty.k == 'array':
                els = v[1] if v[0] == 'agg' else [(ty.b, ('i', 0))] * ty.a
                for i, (t, x) in enumerate(els):
                    put(p.sub('A', i), t, x)
            elif ty.k == 'struct':
                offs = s.mod.layout(ty)[0]
                els = v[1] if v[0] == 'agg' else [(t, ('zeroinitializer',)) for t in ty.a]
                for o, (t, x) in zip(offs, els):
                    put(p.field(o), t, x)
            else:
                s.store(st, p, s.val(st, v, ty), ty)
        put(d, ty, v)

    def invoke(s, st, name, args, I_, func):
        dn = s.prog.dn(func.mod, name)
        # 1. library models
        m = s.models.find(dn)
        if m is not None:
            s.modelled.add(stl.family(dn))
            return m(s, st, args, I_, dn)
        # 2. contracts
        c = s.contracts.find(dn)
        if c is not None and not (c is s.target and len(st.frames) == 1 and False):
            s.used.add(c.name)
            return s.apply(st, c, args, I_, dn, func)
        # 3. inline
        f = s.prog.lookup(func.mod, name)
        if f is None:
            raise Unsupported('call of external function ' + dn)
        if dn.startswith('std::') or dn.startswith('__gnu_cxx') or (' std::' in dn.split('(')[0] and 'operator std::' not in dn):
            raise Unsupported('library function without model: ' + dn)
        s.inlined.add(dn)
        if len(st.frames) > 12:
            raise Unsupported('inlining too deep (recursion?) ' + dn)
        return s.inline(st, f, args)

    def inline(s, st, f, args):
        f.parse()
        fr = {'__id': s.nextid_frame(st, f), '__fn': f}
        for (n, t, _), a in zip(f.params, args):
            fr[n] = a
        st.frames.append(fr)
        outs = []
        for o in s.run(f, st, f.entry, 0, None, None) if f.entry not in f.loops else []:
            o.st.frames.pop()
            if o.kind == 'ret':
                outs.append(('ok', o.st, o.val))
            elif o.kind == 'throw':
                outs.append(('throw', o.st, o.val))
            else:
                raise Unsupported('bad outcome')
        return outs

    def nextid_frame(s, st, f):
        # frame identity: a counter per state path, so that names are reproducible
        st.fcount += 1
        return f'{s.prog.short(f.name)}#{st.fcount}'

    # ------------------------------------------------------------ loops
    def loop(s, func, st0, h, prev, ctx):
        body = func.loops[h]
        key = (func.name, h, tuple(st0.trace), len(st0.frames))
        if func.blocks[h] and func.blocks[h][0].op == 'phi':
            raise Unsupported('phi at loop header')
        mod = {'keys': {}, 'subs': {}, 'ptrs': {}, 'cmps': []}
        s.loopdepth += 1
        # --- 1. what does the body modify?
        cached = s.modcache.get(key)
        if cached is not None and not s.dry:
            mod = cached
        else:
            for _ in range(12):
                st = st0.copy()
                s.havoc(st, st0, mod)
                l = {'keys': {}, 'subs': {}, 'ptrs': {}, 'cmps': []}
                s.listeners.append(l)
                s.dry += 1
                try:
                    outs = s.run(func, st, h, 0, prev, (h, body))
                finally:
                    s.dry -= 1
                    s.listeners.pop()
                stable = set(l['keys']) <= set(mod['keys']) and set(l['subs']) <= set(mod['subs'])
                mod['keys'].update(l['keys'])
                mod['subs'].update(l['subs'])
                for k, v in l['ptrs'].items():
                    mod['ptrs'].setdefault(k, [])
                    mod['ptrs'][k] += v
                mod['cmps'] = l['cmps']
                mod['hst'] = st
                if stable:
                    break
            else:
                raise Unsupported('modified set does not stabilise')
            s.modcache[key] = mod
        if s.dry:
            s.loopdepth -= 1
            return [o for o in outs if o.kind != 'back']
        # --- 2. candidates and Houdini
        cands = s.candidates(func, st0, h, mod, body)
        surv = s.invcache.get(key)
        if surv is not None:
            cands = [c for c in cands if c[0] in surv]
        else:
            s.stats['candidates'] += len(cands)
        cands = s.filter(st0, cands, 'init')
        for rnd in range(40):
            hst = st0.copy()
            s.havoc(hst, st0, mod)
            for n, f in cands:
                hst.assume(f(hst))
            s.quiet += 1
            try:
                outs = s.run(func, hst, h, 0, prev, (h, body))
            finally:
                s.quiet -= 1
            backs = [o.st for o in outs if o.kind == 'back']
            left = cands
            for b in backs:
                left = s.filter(b, left, 'step')
            if len(left) == len(cands):
                break
            cands = left
        s.invcache[key] = {c[0] for c in cands}
        # --- 3. final pass with obligations
        if not s.quiet:
            for n, f in cands:
                for j, g in enumerate(f(st0)):
                    s.oblige(st0, f'loop {h} invariant "{n}" holds on entry', g)
            hst = st0.copy()
            s.havoc(hst, st0, mod)
            for n, f in cands:
                hst.assume(f(hst))
            outs = s.run(func, hst, h, 0, prev, (h, body))
            for o in outs:
                if o.kind == 'back':
                    for n, f in cands:
                        for g in f(o.st):
                            s.oblige(o.st, f'loop {h} invariant "{n}" is preserved', g)
            s.stats['loops'] += 1
            s.stats['invariants'] += len(cands)
            s.loopinfo.append((func.name, h, [c[0] for c in cands]))
            s.termination(func, st0, h, hst, outs, mod)
        s.loopdepth -= 1
        return [o for o in outs if o.kind != 'back']

    def termination(s, func, st0, h, hst, outs, mod):
        """a natural-number measure that every iteration decreases; recorded, with the loops for which none was found"""
        backs = [o.st for o in outs if o.kind == 'back']
        if not backs:
            s.stats['terminating'] += 1
            return
        for name, f in s.measures(func, st0, h, hst, mod):
            ok = True
            for b in backs:
                a0, b0 = f(hst), f(b)
                if s.prove(b, And(a0 >= 0, b0 < a0), timeout=1500 if name.startswith('positions') else s.opts.get('light', 400), configs=2) != 'proved':
                    ok = False
                    break
            if ok:
                s.stats['terminating'] += 1
                return
        s.nonterm.append(f'{s.prog.dnames.get(func.name, func.name)} {h}')

    def measures(s, func, st0, h, hst, mod):
        return []

    def filter(s, st, cands, what):
        """the candidates that hold in st; generic ones (light) are tried without lemmas and with a short time limit"""
        keep = []
        for c in cands:
            n, f = c
            try:
                g = s.togoal(f(st))
            except Unsupported:     # speaks of an object that does not exist yet
                continue
            if n.startswith('~'):
                r = s.prove(st, g, timeout=s.opts.get('light', 400), light=True)
            else:
                r = s.prove(st, g, timeout=s.opts.get('houdini', 800), configs=s.opts.get('hconf', 2))
            if r == 'proved':
                keep.append(c)
            elif s.opts.get('debug'):
                print('   drop', what, n, r)
        return keep

    def havoc(s, st, st0, mod):
        # deterministic fresh names so that formulas are shared between passes
        for (root, offs, size) in mod['subs']:
            st.op('havoc', Ptr(root, offs, ()), size)
        for key, leaf in mod['keys'].items():
            root, offs = key
            if leaf == 'p':
                continue
            so = st.sort(key, leaf)
            st.eng.leaf.setdefault(key, leaf)
            c = s.fresh('h^' + kname(key), so)
            s.typed(st, key, c, depth(offs))
            for l in s.listeners:
                l['keys'].setdefault(key, leaf)
            st.m[key] = c
            if root in s.roots and depth(offs) == 0 and leaf == 'i':
                w = s.mod.resolve(s.roots[root])
                if w.k == 'int' and w.a == 8:
                    st.assume(And(0 <= c, c <= 1))
                elif w.k == 'int' and w.a == 32:
                    st.assume(And(-(1 << 31) <= c, c < (1 << 31)))
        for key, vs in mod['ptrs'].items():
            if depth(key[1]) > 0:
                v = vs[-1]
                if key not in st.pt and isinstance(v, Region):
                    st.pt[key] = v
                continue
            e = st0.pt.get(key)
            if e is None or not isinstance(e, Ptr):
                st.pt.pop(key, None)
                continue
            ok = all(isinstance(v, Ptr) and v.root == e.root and v.offs == e.offs for v in vs)
            if not ok:
                if all(isinstance(v, Ptr) and ptrsame(v, e) for v in vs):
                    continue
                st.pt[key] = None
                del st.pt[key]
                s.deadptr.add(key)
                continue
            idx = []
            for n, i in enumerate(e.idx):
                if all(v.idx[n].eq(i) for v in vs):
                    idx.append(i)
                else:
                    idx.append(s.fresh('hp^' + kname(key), I))
            st.pt[key] = Ptr(e.root, e.offs, idx)


def ptrsame(a, b):
    return a.root == b.root and a.offs == b.offs and len(a.idx) == len(b.idx) and all(x.eq(y) for x, y in zip(a.idx, b.idx))
