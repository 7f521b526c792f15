"""Contracts of the Sobol generator (C part), verified bit-precisely, and the lemmas that give the statement of the property."""
import time, z3
from z3 import *
from ir import Unsupported
import bv
from bv import BV as Engine, State, Arr, Ptr, NULL, MAXDIM
FF = 0xffffffff
DBG = False
W = BitVecSort(32)


def gray(n):
    return n ^ LShR(n, 1)


class Lay:
    def __init__(s, prog):
        l = prog.layouts.get('SobolData_') or prog.layouts.get('struct SobolData_') or prog.layouts.get('SobolData')
        if l is None:
            raise Unsupported('layout of SobolData_')
        o = lambda f: l[f][0]
        s.size = max(v[0] for v in l.values() if isinstance(v, (tuple, list))) + 8
        s.sdim, s.mdata, s.m, s.x, s.b, s.n = o('sdim'), o('mdata'), o('m'), o('x'), o('b'), o('n')


def rep(e, L, st, t, n):
    """position n of the sequence in coordinate t"""
    x, b = (st.cells['sd'][o] for o in (L.x, L.b))
    bx = lambda p: bv.bv(e.arr_read(st, p.obj, 0, t), 32)
    B = bx(b)
    return [ULE(B, 31), bx(x) << (31 - B) == e.S(bv.bv(n, 32), t)]


def initial(e, L, n):
    st = State()
    sd = e.sdim = BitVec('sdim', 32)
    st.pc += [UGE(sd, 1), ULE(sd, MAXDIM)]
    fn = lambda nm: Function(nm, W, W, W)
    st.arrs['md'] = Arr(fn('M'), 32, sd)
    for a in ('x', 'b', 'out'):
        st.arrs[a] = Arr(fn(a), 1, sd)
    c = {L.sdim: sd, L.mdata: Ptr('md'), L.x: Ptr('x'), L.b: Ptr('b'), L.n: n}
    c[('tab', L.m)] = lambda i: Ptr('md', e.lo(i), 0)
    for j in range(32):
        c[L.m + 8 * j] = Ptr('md', j, 0)
    st.cells['sd'] = c
    M = st.arrs['md'].base
    snap = st.copy()
    f = lambda r, t: [Implies(ULT(t, sd), And(rep(e, L, snap, t, n)))]
    for a in ('x', 'b'):
        st.arrs[a] = Arr(st.arrs[a].base, 1, sd, (), [f])
    known = []

    def on_n(st, v):
        """definition of the sequence: S(n+1,t) = S(n,t) xor direction number of the bit in which the Gray codes of n and n+1 differ"""
        V = bv.bv(v, 32)
        for k, c in known:
            if k.eq(V):
                break
        else:
            c = e.fresh('c', 32)
            known.append((V, c))
            e.gfacts = list(e.gfacts) + [lambda r, t, V=V, c=c: [Implies(And(V != FF, ULE(c, 31), gray(V) ^ gray(V + 1) == BitVecVal(1, 32) << c), e.S(V + 1, t) == e.S(V, t) ^ (M(c, t) << (31 - c)))]]
        st.pc.append(Implies(V != FF, And(ULE(c, 31), gray(V) ^ gray(V + 1) == BitVecVal(1, 32) << c)))
    e.on_n = ('sd', L.n, on_n)
    return st


def cands(L):
    def make(e, st0, v, scal):
        if 'sd' not in st0.cells or 'x' not in st0.arrs:
            return []
        out = []
        val = lambda st: st.cells[v[0]][v[1]]
        n = lambda st: bv.bv(st.cells['sd'][L.n], 32)
        v0 = st0.cells[v[0]][v[1]]
        w = e.width.get(v, 32)
        if v[0] != 'sd':
            V = lambda st: bv.bv(val(st), w)
            if w == 32:
                out.append((f'{v[0]} at most the dimension', lambda st, t: ULE(V(st), e.sdim), ()))
                i = lambda st: V(st)
                out.append((f'coordinates below {v[0]} at the new position', lambda st, t: Implies(ULT(t, i(st)), And(rep(e, L, st, t, n(st)))), ('x', 'b')))
                out.append((f'coordinates from {v[0]} at the old position', lambda st, t: Implies(UGE(t, i(st)), And(rep(e, L, st, t, n(st) - 1))), ('x', 'b')))
                out.append((f'coordinates below {v[0]} are output', lambda st, t: Implies(ULT(t, i(st)), bv.bv(e.arr_read(st, 'out', 0, t), 32) == e.S(n(st), t)), ('out',)))
            out.append((f'{v[0]} does not exceed its first value', lambda st, t: ULE(V(st), bv.bv(v0, w)), ()))
            nn = st0.cells['sd'][L.n]
            Z = lambda x, w: ZeroExt(64 - w, bv.bv(x, w)) if w < 64 else bv.bv(x, w)
            out.append((f'{v[0]} counts the points left', lambda st, t: Z(n(st), 32) + Z(val(st), w) == Z(nn, 32) + Z(v0, w), ()))
            out.append((f'{v[0]} counts the points', lambda st, t: Z(n(st), 32) - Z(nn, 32) == Z(val(st), w) - Z(v0, w), ()))
        else:
            out.append(('all coordinates at the current position', lambda st, t: And(rep(e, L, st, t, n(st))), ('x', 'b')))
            out.append(('all coordinates are output', lambda st, t: bv.bv(e.arr_read(st, 'out', 0, t), 32) == e.S(n(st), t), ('out',)))
        return out
    return make


def init_cands(e, st0, v, scal):
    w = e.width.get(v, 32)
    out = []
    if w != 32:
        return out
    V = lambda st: bv.bv(st.cells[v[0]][v[1]], 32)
    out.append((f'{v[0]} at most the dimension', lambda st, t: ULE(V(st), e.sdim), ()))
    for a, o in st0.arrs.items():
        if o.rows == 1:
            out.append((f'{a} is zero below {v[0]}', lambda st, t, a=a: Implies(ULT(t, V(st)), bv.bv(e.arr_read(st, a, 0, t), 32) == 0), (a,)))
    return out


def result(name, e, t0, extra=None):
    failed, timeout, proved = [], [], 0
    for lab, pc, g in e.obl:
        r = e.valid(pc, g)
        if r == 'proved':
            proved += 1
        else:
            (failed if r == 'failed' else timeout).append(dict(label=lab, reason='counterexample: ' + str(e.model)[:300] if r == 'failed' else 'resource limit', goal=str(g)[:400]))
    st = 'failed' if failed else 'timeout' if timeout else 'proved' if e.obl else 'vacuous'
    return dict(name=name, status=st, obligations=len(e.obl), discharged=proved, failed=failed, timeout=timeout, queries=e.stats['queries'], solver_s=round(e.stats['solver_s'], 2),
                s=round(time.time() - t0, 2), loops=e.stats['loops'], invariants=e.stats['invariants'], inlined=sorted(e.inl), used=[], models=[], floats='bit-vectors', unrolled=e.stats['unrolled'],
                enumerated=e.stats['enumerated'], termination_not_shown=e.nonterm or None)


def check_next(prog, which):
    t0 = time.time()
    L = Lay(prog)
    mod = prog.mods['SobolImpl']
    e = Engine(mod, cands(L))
    e.dbg = DBG
    f = mod.funcs[which]
    n = BitVec('n', 32)
    live = 0
    st = initial(e, L, n)
    e.fn = which
    if which == 'nlopt_sobol_next':
        outs = e.run(f, st, [Ptr('sd'), Ptr('out')])
        g = e.fresh('g', 32)
        for st1, ret in outs:
            live += e.valid(st1.pc, BoolVal(False)) == 'failed'
            n1 = bv.bv(st1.cells['sd'][L.n], 32)
            st1.pc.append(ULT(g, e.sdim))
            r = rep(e, L, st1, g, n1)
            o = bv.bv(e.arr_read(st1, 'out', 0, g), 32)
            R = bv.bv(ret, 32)
            e.fn = which
            e.oblige(st1, 'at the end of the sequence nothing is produced', Implies(n == FF, And(R == 0, n1 == n)))
            e.oblige(st1, 'otherwise one point is produced', Implies(n != FF, And(R != 0, n1 == n + 1)))
            e.oblige(st1, 'every coordinate is output', Implies(n != FF, o == e.S(n + 1, g)))
            e.oblige(st1, 'the state represents the new position', And(r))
            e.oblige(st1, 'the direction numbers are unchanged', not st1.arrs['md'].writes and st1.arrs['md'].base.name() == 'M')
            e.oblige(st1, 'pointers are unchanged', all(st1.cells['sd'][L.m + 8 * j].row == j for j in range(32)) and st1.cells['sd'][L.sdim] is st.cells['sd'][L.sdim])
    else:
        k = BitVec('skip', 32)
        st.pc += [ULE(n, 0x7fffffff), k != 0]
        outs = e.run(f, st, [Ptr('sd'), k, Ptr('out')])
        g = e.fresh('g', 32)
        K = e.fresh('K', 32)
        for st1, ret in outs:
            live += e.valid(st1.pc, BoolVal(False)) == 'failed'
            n1 = bv.bv(st1.cells['sd'][L.n], 32)
            r = rep(e, L, st1, g, n1)
            e.fn = which
            st1.pc += [ULT(g, e.sdim), K == n1 - n]
            e.oblige(st1, 'skips a power of two', And(K != 0, K & (K - 1) == 0))
            e.oblige(st1, 'one point for small numbers', Implies(ULE(k, 2), K == 1))
            e.oblige(st1, 'the largest power of two below the number', Implies(UGT(k, 2), And(ULT(K, k), ULE(ZeroExt(32, k), 2 * ZeroExt(32, K)))))
            e.oblige(st1, 'the state represents the new position', And(r))
            e.oblige(st1, 'the direction numbers are unchanged', not st1.arrs['md'].writes and st1.arrs['md'].base.name() == 'M')
        # without a generator nothing happens
    r = result(which, e, t0)
    if not live or which == 'nlopt_sobol_next' and live < 2:
        r['status'] = 'vacuous'
    return r


def check_create(prog):
    t0 = time.time()
    L = Lay(prog)
    mod = prog.mods['SobolImpl']
    e = Engine(mod, init_cands)
    sd = e.sdim = BitVec('sdim', 32)
    odd = lambda r, c: [Implies(And(UGE(c, 1), ULT(c, MAXDIM), ULE(r, 31)), e.Tab(r, c) & 1 == 1)]
    e.tabfacts = odd
    st = State()
    e.fn = 'nlopt_sobol_create'
    outs = e.run(mod.funcs['nlopt_sobol_create'], st, [sd])
    T = getattr(e, 'T', None)
    live = 0
    nn = []
    if T is not None:
        ok = all(set(T.get(i, {})) >= set(range(32)) and all(v & 1 for r, v in T[i].items() if r < 32) for i in range(1, MAXDIM))
        bad = [(i, r) for i in range(1, MAXDIM) for r in range(32) if T.get(i, {}).get(r, 0) % 2 == 0][:3]
        e.oblige(st, f'every direction number of every dimension is a constant and odd {bad or ""}', ok)
    for st1, ret in outs:
        if e.valid(st1.pc, BoolVal(False)) != 'failed':
            continue
        e.fn = 'nlopt_sobol_create'
        if ret.obj is None:
            nn.append(st1)
            continue
        live += 1
        t = e.fresh('t', 32)
        c = st1.cells[ret.obj]
        e.oblige(st1, 'only valid dimensions', And(UGE(sd, 1), ULE(sd, MAXDIM)))
        e.oblige(st1, 'dimension', bv.bv(c.get(L.sdim, 0), 32) == sd)
        e.oblige(st1, 'position 0', bv.bv(c.get(L.n, 1), 32) == 0)
        objs = {c[o].obj for o in (L.x, L.b, L.mdata)} | {ret.obj}
        e.oblige(st1, 'separate live objects of sufficient size', len(objs) == 4 and not objs & st1.freed and st1.sizes.get(ret.obj, 0) >= L.size and
                 all(st1.arrs[c[o].obj].rows >= k and (c[o].row, c[o].col) == (0, 0) for o, k in ((L.x, 1), (L.b, 1), (L.mdata, 32))))
        st1.pc.append(ULT(t, sd))
        for o in (L.x, L.b):
            e.oblige(st1, 'state of position 0', bv.bv(e.arr_read(st1, c[o].obj, 0, t), 32) == 0)
        for j in range(32):
            p = c.get(L.m + 8 * j)
            e.oblige(st1, f'row {j} of the direction numbers', isinstance(p, Ptr) and p.obj == c[L.mdata].obj and (p.row, p.col) == (j, 0))
            e.oblige(st1, f'direction numbers of row {j} are odd', bv.bv(e.arr_read(st1, c[L.mdata].obj, j, t), 32) & 1 == 1)
    r = result('nlopt_sobol_create', e, t0)
    if live < 1:
        r['status'] = 'vacuous'
    r['dimensions'] = len(T or ())
    return r


def lemma_list():
    n, m, k = BitVecs('n m k', 32)
    V = [BitVec(f'V{j}', 32) for j in range(32)]
    M = [BitVec(f'M{j}', 32) for j in range(32)]
    bit = lambda x, j: Extract(j, j, x) == 1

    def X(g, V):
        r = BitVecVal(0, 32)
        for j in range(32):
            r = r ^ If(bit(g, j), V[j], BitVecVal(0, 32))
        return r
    out = []
    c = BitVec('c', 32)
    out.append(('gray codes of neighbours differ in exactly one bit', [n != FF], Or([gray(n) ^ gray(n + 1) == (1 << j) for j in range(32)])))
    for j in range(32):
        out.append((f'closed form of a single bit {j}', [], X(BitVecVal(1 << j, 32), V) == V[j]))
    out.append(('closed form starts at zero', [], X(gray(BitVecVal(0, 32)), V) == 0))
    out.append(('gray code is injective', [gray(n) == gray(m)], n == m))
    for j in range(1, 33):
        if j < 32:
            out.append((f'gray code of numbers below 2^{j}', [], ULT(n, 1 << j) == ULT(gray(n), 1 << j)))
    a, b, v = BitVecs('a b v', 32)
    p, q = Bools('p q')
    z = BitVecVal(0, 32)
    out.append(('linearity of the closed form, one term (with which the recurrence follows from the two facts above)', [], (a ^ If(p, v, z)) ^ (b ^ If(q, v, z)) == (a ^ b) ^ If(Xor(p, q), v, z)))
    for j in range(32):
        out.append((f'bit {j} of a symmetric difference', [], Xor(bit(n, j), bit(m, j)) == bit(n ^ m, j)))
    D = [M[j] << (31 - j) for j in range(32)]
    for h in range(32):
        out.append((f'codes with highest bit {h} give non-zero values', [And([M[j] & 1 == 1 for j in range(h + 1)]), bit(k, h)] + ([Extract(31, h + 1, k) == 0] if h < 31 else []), X(k, D) != 0))
    for j in range(0, 32):
        out.append((f'codes below 2^{j} give multiples of 2^{32 - j}', [ULT(k, 1 << j) if j else k == 0], (X(k, D) & ((1 << (32 - j)) - 1) == 0) if j else X(k, D) == 0))
    return out


def lemmas():
    t0 = time.time()
    bad, l = [], lemma_list()
    for nm, hyp, g in l:
        s = Solver()
        s.set('timeout', 60000)
        s.add(*hyp, Not(g))
        if s.check() != unsat:
            bad.append(nm)
    return dict(name='*sobol-lemmas', status='timeout' if bad else 'proved', obligations=len(l), discharged=len(l) - len(bad), failed=[], timeout=[dict(label=b) for b in bad], queries=len(l),
                solver_s=round(time.time() - t0, 2), s=round(time.time() - t0, 2), used=[])


def guard(fn, name, *a):
    try:
        return fn(*a)
    except (Unsupported, bv.NeedConst, bv.NeedCut, KeyError) as ex:
        return dict(name=name, status='unsupported', why=repr(ex)[:400], used=[], failed=[], timeout=[])


def _task(fn, name, *a):
    def go(repo, tmp):
        import prog
        return guard(fn, name, prog.Prog(tmp), *a)
    return go


TASKS = {'*sobol-lemmas': lambda repo, tmp: lemmas(), '*nlopt_sobol_create': _task(check_create, 'nlopt_sobol_create'),
         '*nlopt_sobol_next': _task(check_next, 'nlopt_sobol_next', 'nlopt_sobol_next'), '*nlopt_sobol_skip': _task(check_next, 'nlopt_sobol_skip', 'nlopt_sobol_skip')}


if __name__ == '__main__':
    import prog, sys, traceback
    P = prog.Prog('/tmp/w/ir')
    DBG = 'dbg' in sys.argv
    for fn, a in ((lemmas, ()), (check_next, (P, 'nlopt_sobol_next')), (check_next, (P, 'nlopt_sobol_skip')), (check_create, (P,))):
        if len(sys.argv) > 1 and sys.argv[1] not in (fn.__name__ + str(a[1:])):
            continue
        try:
            r = fn(*a)
            print({k: v for k, v in r.items() if k not in ('failed', 'timeout')})
            for x in r['failed'][:6] + r['timeout'][:6]:
                print('  ', x)
        except Exception:
            traceback.print_exc(limit=6)
