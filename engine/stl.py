"""Models of the library functions the code calls (trusted: the C++ standard library is assumed to implement them)."""
import re
import z3
from z3 import And, Or, Not, Implies, If, Select, Store, IntVal, BoolVal, ForAll
from ir import Unsupported, T
import spec
from spec import I, Flt, FA, qv
from sym import *

MAPEND = IntVal(-(1 << 70))


def split_name(dn):
    """'std::vector<long>::operator[](ulong) const' -> ('std::vector<long>', 'operator[]', 'ulong')"""
    d = 0
    # find the parameter list: the last '(' at depth 0 that closes at the end (or before ' const')
    s = dn
    if s.endswith(' const'):
        s = s[:-6]
    if not s.endswith(')'):
        return None
    depth_ = 0
    i = len(s) - 1
    while i >= 0:
        if s[i] == ')':
            depth_ += 1
        elif s[i] == '(':
            depth_ -= 1
            if depth_ == 0:
                break
        i -= 1
    params = s[i + 1:-1]
    head = s[:i]
    # strip return type of function templates: last space at angle depth 0 (operator handled)
    a = 0
    cut = 0
    lastcc = -1
    j = 0
    while j < len(head):
        if head.startswith('operator', j) and (j == 0 or not (head[j - 1].isalnum() or head[j - 1] == '_')):
            break
        ch = head[j]
        if ch in '<(':
            a += 1
        elif ch in '>)':
            a -= 1
        elif ch == ' ' and a == 0:
            cut = j + 1
            lastcc = -1
        elif ch == ':' and a == 0 and head.startswith('::', j):
            lastcc = j
            j += 1
        j += 1
    head2 = head[cut:]
    if lastcc >= 0:
        return head[cut:lastcc], head[lastcc + 2:], params
    return '', head2, params


def targs(ty):
    """template arguments of 'X<a, b>'"""
    i = ty.index('<')
    inner = ty[i + 1:-1]
    out, d, cur = [], 0, ''
    for ch in inner:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


INTS = {'long': 64, 'ulong': 64, 'int': 32, 'uint': 32, 'bool': 8, 'char': 8, 'int64_t': 64, 'size_t': 64, 'uint32_t': 32, 'long long': 64, '_Bool': 8,
        'unsigned char': 8, 'unsigned long long': 64}


def family(dn):
    """short name of a library function: templates stripped"""
    d, k = '', 0
    for ch in dn:
        if ch == '<':
            k += 1
        elif ch == '>':
            k -= 1
        elif k == 0:
            d += ch
        if ch == '(' and k == 0:
            break
    return d.split('(')[0].split(' ')[-1].strip() or dn[:40]


class Models:
    def __init__(s, prog):
        s.prog = prog
        s.cache = {}

    def find(s, dn):
        if dn in s.cache:
            return s.cache[dn]
        r = s._find(dn)
        s.cache[dn] = r
        return r

    def _find(s, dn):
        if dn.startswith(('std::literals::', 'operator%', 'std::string operator%', 'std::basic_string<char, std::char_traits<char>> operator%')) or ' operator%<' in dn:
            return m_nop
        sp = split_name(dn)
        if sp is None:
            return CFUN.get(dn)
        cls, meth, par = sp
        if cls.startswith('std::vector<') and not cls.startswith('std::vector<bool'):
            T_ = targs(cls)[0]
            f = VEC.get(re.sub(r'<.*', '', meth) if not meth.startswith('operator') else meth)
            if meth == '~vector':
                return m_nop
            if meth == 'vector':
                return lambda e, st, a, I_, d: vec_ctor(e, st, a, I_, d, T_, par)
            if f:
                return lambda e, st, a, I_, d: f(e, st, a, I_, d, T_, par)
        if cls.startswith('__gnu_cxx::__normal_iterator<') or cls.startswith('std::move_iterator'):
            f = ITER.get(meth)
            if f:
                return lambda e, st, a, I_, d: f(e, st, a, I_, d)
        if cls.startswith('std::map<'):
            f = MAP.get(meth)
            if meth in ('~map',):
                return m_nop
            if f:
                return lambda e, st, a, I_, d: f(e, st, a, I_, d, par)
        if cls.startswith('std::_Rb_tree_'):
            f = MAPIT.get(meth)
            if f:
                return lambda e, st, a, I_, d: f(e, st, a, I_, d)
        if cls.startswith(('std::allocator<', 'std::initializer_list<', 'std::basic_string<', 'std::__new_allocator', 'std::string')) or cls in ('std::runtime_error', 'std::range_error', 'std::out_of_range', 'std::logic_error', 'std::exception', 'std::invalid_argument', 'std::domain_error', 'std::length_error'):
            return m_nop
        if cls.startswith('std::pair<'):
            if meth == 'pair':
                return lambda e, st, a, I_, d: pair_ctor(e, st, a, I_, d, targs(cls), par)
            if meth == 'operator=':
                sz = 16
                return lambda e, st, a, I_, d: (st.op('copy', a[0], sz, a[1]), [('ok', st, a[0])])[1]
        if cls.startswith('std::unique_ptr') and meth.startswith('~'):
            return m_nop
        base = re.sub(r'<.*', '', meth) if not meth.startswith('operator') else re.sub(r'^(operator(?:==|!=|[-+*/%]))<.*', r'\1', meth)
        if cls == 'std' or cls == '__gnu_cxx' or cls == '':
            f = FUN.get((cls + '::' if cls else '') + base)
            if f:
                return lambda e, st, a, I_, d: f(e, st, a, I_, d, meth, par)
        if dn in CFUN:
            return CFUN[dn]
        return None


def m_nop(e, st, a, I_, d):
    t = I_.ty
    v = UNDEFV()
    if I_.dst and t is not None and t.k == 'int':
        v = e.fresh('u', z3.BoolSort() if t.a == 1 else I)
    return [('ok', st, v)]


def UNDEFV():
    import execu
    return execu.UNDEF


def leafof(e, T_):
    T_ = T_.replace(' const', '').replace('const ', '')
    if T_ in INTS:
        return 'i'
    if T_ == 'double':
        return e.fl.leaf
    if T_.endswith('*'):
        return 'p'
    return None


def sizeof(e, T_):
    if T_ in INTS:
        return INTS[T_] // 8
    if T_ == 'double' or T_.endswith('*'):
        return 8
    if T_.startswith('std::vector<'):
        return 24
    if T_.startswith('std::map<'):
        return 48
    if T_.startswith('std::pair<'):
        a, b = targs(T_)
        sa, sb = sizeof(e, a), sizeof(e, b)
        if sa == 8 or sb == 8:
            return 16
        return sa + sb
    L = e.prog.layouts.get(T_)
    if L and '__size' in L:
        return L['__size']
    raise Unsupported('size of ' + T_)


def region(v):
    """all elements of vector v as a subtree"""
    return Ptr(v.root, v.offs + ('E', 0), v.idx)


def seen(e, p, ty):
    if len(p.offs) == 1 and p.offs[0] == 0 and not p.idx:
        e.objtype[p.root] = ty


def fillvec(e, st, v, T_, n, val=None):
    """len=n; all elements value-initialised (or val for leaves)"""
    st.setlen(v, n)
    lf = leafof(e, T_)
    elem = v.sub('E', 0)
    if lf in ('i', 'f', 'r'):
        so = {'i': I, 'f': Flt, 'r': z3.RealSort()}[lf]
        zero = val if val is not None else {'i': IntVal(0), 'f': spec.fconst(0.0), 'r': z3.RealVal(0)}[lf]
        c = e.fresh('fill', z3.ArraySort(I, so))
        k = qv()
        st.assume(FA([k], Select(c, k) == zero, [Select(c, k)]))
        st.setarr(elem, lf, c)
    elif lf == 'p':
        st.pt.pop((elem.root, elem.offs), None)
    else:
        st.op('zero', region(v), sizeof(e, T_))
        if T_.startswith('NDArray<'):
            off = e.prog.layouts[T_]['m_owned'][0]
            p = elem.field(off)
            st.setarr(p, 'i', z3.K(I, IntVal(1)))


def copyvec(e, st, d, s_, T_):
    st.setlen(d, st.veclen(s_))
    lf = leafof(e, T_)
    if lf == 'p':
        p = s_.sub('E', 0)
        r = st.pt.get((p.root, p.offs))
        st.op('copy', region(d), 8, region(s_))
        if r is not None:
            q = d.sub('E', 0)
            st.pt[(q.root, q.offs)] = r
        return
    # make sure leaf components exist so that their sort is known
    if lf:
        st.get((s_.root, s_.offs + ('E', 0)), lf)
    st.op('copy', region(d), sizeof(e, T_), region(s_))


def vec_ctor(e, st, a, I_, dn, T_, par):
    v = a[0]
    seen(e, v, f'std::vector<{T_}>')
    ps = [x.strip() for x in split_params(par)]
    ps = [p for p in ps if p]
    if ps and re.match(r'std::allocator<', ps[-1]):
        ps = ps[:-1]
    if not ps:
        st.setlen(v, 0)
        q = v.sub('E', 0)
        st.pt.pop((q.root, q.offs), None)
        return [('ok', st, None)]
    if ps == ['ulong']:
        e.oblige(st, 'vector size is non-negative', a[1] >= 0)
        fillvec(e, st, v, T_, a[1])
        return [('ok', st, None)]
    if len(ps) == 2 and ps[0] == 'ulong':
        lf = leafof(e, T_)
        e.oblige(st, 'vector size is non-negative', a[1] >= 0)
        if lf in ('i', 'f', 'r'):
            fillvec(e, st, v, T_, a[1], st.read(a[2], lf))
        else:
            # every element is a copy of *a[2]
            st.setlen(v, a[1])
            if isn(a[1]) and num(a[1]) <= 4:
                for i in range(num(a[1])):
                    st.op('copy', v.sub('E', i), sizeof(e, T_), a[2])
            else:
                fill_struct(e, st, v, T_, a[2])
        return [('ok', st, None)]
    if len(ps) == 1 and ps[0].startswith('std::vector<'):
        copyvec(e, st, v, a[1], T_)
        return [('ok', st, None)]
    if len(ps) == 1 and ps[0].startswith('std::initializer_list<'):
        arr, n = a[1], a[2]
        if isinstance(arr, tuple):
            arr, n = arr
        st.setlen(v, n)
        if not isn(n):
            raise Unsupported('initializer_list of symbolic size')
        lf = leafof(e, T_)
        for i in range(num(n)):
            src = arr.at(IntVal(i)) if arr.offs[-2:-1] == ('A',) else arr
            if lf:
                st.write(v.sub('E', i), lf, st.read(src, lf))
            else:
                st.op('copy', v.sub('E', i), sizeof(e, T_), src)
        return [('ok', st, None)]
    if len(ps) == 2 and (ps[0].endswith('*') or 'iterator' in ps[0]):
        fr, to = a[1], a[2]
        rangecopy(e, st, fr, to, v, T_)
        return [('ok', st, None)]
    raise Unsupported('vector constructor ' + par)


def fill_struct(e, st, v, T_, src):
    """all elements equal to *src"""
    sz = sizeof(e, T_)
    dst = region(v)
    so = SubOp('x', src, sz, dst)
    for key in [k for k in st.m if so.covers(k)]:
        rel = so.trans(key)
        leaf = e.leaf[key]
        t = st.m[key]
        for i in src.idx:
            t = Select(t, i)
        e.wrote(rel, leaf)
        cur = st.get(rel, leaf)
        if v.idx:
            raise Unsupported('nested fill')
        st.m[rel] = z3.K(I, t)
    return


def split_params(par):
    out, d, cur = [], 0, ''
    for ch in par:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out


def rangecopy(e, st, fr, to, v, T_):
    if fr.root != to.root or fr.offs != to.offs:
        raise Unsupported('iterator range over two objects')
    n = sub(to.idx[-1], fr.idx[-1])
    e.oblige(st, 'iterator range is valid', n >= 0)
    e.checkrange(st, fr, to, 'read of range')
    st.setlen(v, n)
    lf = leafof(e, T_)
    src = st.arr(fr, lf)
    c = shiftarr(e, st, src, fr.idx[-1], IntVal(0), n)
    st.setarr(v.sub('E', 0), lf, c)


def shiftarr(e, st, src, a, b, n, base=None):
    """array equal to base except [b,b+n) which holds src[a,a+n)"""
    if isn(a) and isn(b) and num(a) == num(b) == 0 and base is None:
        return src
    c = e.fresh('cp', src.sort())
    k = qv()
    inside = And(b <= k, k < b + n)
    s2 = Select(src, k - b + a) if not (isn(a) and isn(b) and num(a) == num(b)) else Select(src, k)
    st.assume(FA([k], If(inside, Select(c, k) == s2, (Select(c, k) == Select(base, k)) if base is not None else BoolVal(True)), [Select(c, k)]))
    return c


def v_index(e, st, a, I_, dn, T_, par):
    v, i = a
    seen(e, v, f'std::vector<{T_}>')
    e.oblige(st, 'vector index in bounds', And(0 <= i, i < st.veclen(v)))
    return [('ok', st, v.sub('E', i))]


def v_size(e, st, a, I_, dn, T_, par):
    seen(e, a[0], f'std::vector<{T_}>')
    return [('ok', st, st.veclen(a[0]))]


def v_begin(e, st, a, I_, dn, T_, par):
    return [('ok', st, a[0].sub('E', 0))]


def v_end(e, st, a, I_, dn, T_, par):
    return [('ok', st, a[0].sub('E', st.veclen(a[0])))]


def v_empty(e, st, a, I_, dn, T_, par):
    return [('ok', st, st.veclen(a[0]) == 0)]


def v_push(e, st, a, I_, dn, T_, par):
    v = a[0]
    seen(e, v, f'std::vector<{T_}>')
    n = st.veclen(v)
    p = v.sub('E', n)
    lf = leafof(e, T_)
    if lf == 'p':
        st.write_ptr(p, st.read_ptr(a[1]))
    elif lf:
        st.write(p, lf, st.read(a[1], lf))
    else:
        st.op('copy', p, sizeof(e, T_), a[1])
    st.setlen(v, add(n, IntVal(1)))
    return [('ok', st, p)]


def v_resize(e, st, a, I_, dn, T_, par):
    v, n = a[0], a[1]
    seen(e, v, f'std::vector<{T_}>')
    old = st.veclen(v)
    e.oblige(st, 'resize to a non-negative size', n >= 0)
    if isn(old) and num(old) == 0:
        fillvec(e, st, v, T_, n)
        return [('ok', st, None)]
    lf = leafof(e, T_)
    if lf in ('i', 'f', 'r'):
        src = st.arr(v.sub('E', 0), lf)
        c = e.fresh('rs', src.sort())
        k = qv()
        z = {'i': IntVal(0), 'f': spec.fconst(0.0), 'r': z3.RealVal(0)}[lf]
        st.assume(FA([k], Select(c, k) == If(k < old, Select(src, k), z), [Select(c, k)]))
        st.setarr(v.sub('E', 0), lf, c)
        st.setlen(v, n)
        return [('ok', st, None)]
    r = e.resize_hook(st, v, n, T_)
    if r:
        return [('ok', st, None)]
    raise Unsupported('resize of a non-empty vector of ' + T_)


def v_assign(e, st, a, I_, dn, T_, par):
    v = a[0]
    ps = [x.strip() for x in split_params(par)]
    if ps[0] == 'ulong' and leafof(e, T_) in ('i', 'f', 'r'):
        fillvec(e, st, v, T_, a[1], st.read(a[2], leafof(e, T_)))
        return [('ok', st, None)]
    raise Unsupported('vector::assign')


def v_set(e, st, a, I_, dn, T_, par):
    if par.startswith('std::initializer_list'):
        arr, n = a[1], a[2]
        st.setlen(a[0], n)
        for i in range(num(n)):
            st.write(a[0].sub('E', i), leafof(e, T_), st.read(arr.at(IntVal(i)) if arr.offs[-2:-1] == ('A',) else arr, leafof(e, T_)))
        return [('ok', st, a[0])]
    copyvec(e, st, a[0], a[1], T_)
    return [('ok', st, a[0])]


def v_swap(e, st, a, I_, dn, T_, par):
    r = f'tmpswap@{st.frames[-1]["__id"]}.{e.nextid()}'
    e.local_roots.add(r)
    t = Ptr(r)
    copyvec(e, st, t, a[0], T_)
    copyvec(e, st, a[0], a[1], T_)
    copyvec(e, st, a[1], t, T_)
    return [('ok', st, None)]


def v_back(e, st, a, I_, dn, T_, par):
    v = a[0]
    n = st.veclen(v)
    e.oblige(st, 'vector is not empty', n > 0)
    return [('ok', st, v.sub('E', sub(n, IntVal(1))))]


def v_front(e, st, a, I_, dn, T_, par):
    e.oblige(st, 'vector is not empty', st.veclen(a[0]) > 0)
    return [('ok', st, a[0].sub('E', 0))]


def v_pop(e, st, a, I_, dn, T_, par):
    n = st.veclen(a[0])
    e.oblige(st, 'vector is not empty', n > 0)
    st.setlen(a[0], sub(n, IntVal(1)))
    return [('ok', st, None)]


def v_clear(e, st, a, I_, dn, T_, par):
    st.setlen(a[0], 0)
    return [('ok', st, None)]


def v_nop(e, st, a, I_, dn, T_, par):
    return [('ok', st, None)]


VEC = {'operator[]': v_index, 'at': v_index, 'size': v_size, 'begin': v_begin, 'end': v_end, 'cbegin': v_begin, 'cend': v_end, 'empty': v_empty,
       'push_back': v_push, 'emplace_back': v_push, 'resize': v_resize, 'assign': v_assign, 'operator=': v_set, 'swap': v_swap,
       'back': v_back, 'front': v_front, 'pop_back': v_pop, 'data': v_begin, 'reserve': v_nop, 'clear': v_clear, 'shrink_to_fit': v_nop}
del VEC['at']


# ---- iterators (pointer-like)
def getit(st, x):
    """iterators are passed by value as pointers or by reference to an iterator object"""
    return x


def it_deref(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    return [('ok', st, p)]


def it_inc(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    st.write_ptr(a[0], p.at(add(p.idx[-1], IntVal(1))))
    return [('ok', st, a[0])]


def it_dec(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    st.write_ptr(a[0], p.at(sub(p.idx[-1], IntVal(1))))
    return [('ok', st, a[0])]


def it_plus(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    return [('ok', st, p.at(add(p.idx[-1], a[1])))]


def it_minus(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    return [('ok', st, p.at(sub(p.idx[-1], a[1])))]


def it_ctor(e, st, a, I_, dn):
    if isinstance(a[1], Ptr):
        v = st.read_ptr(a[1]) if len(a[1].offs) == 1 or True else a[1]
        st.write_ptr(a[0], v)
    return [('ok', st, None)]


def it_base(e, st, a, I_, dn):
    return [('ok', st, a[0])]


ITER = {'operator*': it_deref, 'operator->': it_deref, 'operator++': it_inc, 'operator--': it_dec, 'operator+': it_plus, 'operator-': it_minus,
        '__normal_iterator': it_ctor, 'base': it_base}


def it_eq(e, st, a, I_, dn, meth, par):
    p, q = st.read_ptr(a[0]), st.read_ptr(a[1])
    return [('ok', st, ptr_eq(p, q))]


def it_ne(e, st, a, I_, dn, meth, par):
    p, q = st.read_ptr(a[0]), st.read_ptr(a[1])
    return [('ok', st, z3.simplify(Not(ptr_eq(p, q))))]


def it_diff(e, st, a, I_, dn, meth, par):
    p, q = st.read_ptr(a[0]), st.read_ptr(a[1])
    return [('ok', st, sub(p.idx[-1], q.idx[-1]))]


# ---- map<long,long>
def mval(m, k):
    return Ptr(m.root, m.offs + ('E', 0), m.idx + (k,))


def mhas(m, k):
    return Ptr(m.root, m.offs + ('E', 8), m.idx + (k,))


def map_ctor(e, st, a, I_, dn, par):
    seen(e, a[0], 'std::map')
    if par.startswith('std::map<'):
        st.get((a[1].root, a[1].offs + ('E', 0)), 'i')
        st.get((a[1].root, a[1].offs + ('E', 8)), 'i')
        st.get((a[1].root, a[1].offs + ('len',)), 'i')
        st.op('copy', a[0], 48, a[1])
        return [('ok', st, None)]
    st.setlen(a[0], 0)
    st.setarr(mhas(a[0], IntVal(0)), 'i', z3.K(I, IntVal(0)))
    st.assume(spec.mapcard(st.arr(mhas(a[0], IntVal(0)), 'i')) == 0)
    return [('ok', st, None)]


def map_put(e, st, m, k, v, only_new):
    h = st.read(mhas(m, k), 'i')
    old = st.read(mval(m, k), 'i')
    n = st.veclen(m)
    if v is not None:
        st.write(mval(m, k), 'i', If(h == 1, old, v) if only_new else v)
    A = st.arr(mhas(m, k), 'i')
    st.write(mhas(m, k), 'i', IntVal(1))
    A2 = st.arr(mhas(m, k), 'i')
    n2 = If(h == 1, n, n + 1)
    st.assume(Or(h == 0, h == 1))
    st.setlen(m, n2)


def map_index(e, st, a, I_, dn, par):
    m, kp = a
    seen(e, m, 'std::map')
    k = st.read(kp, 'i')
    h = st.read(mhas(m, k), 'i')
    old = st.read(mval(m, k), 'i')
    map_put(e, st, m, k, If(h == 1, old, IntVal(0)), False)
    return [('ok', st, Ptr(m.root, m.offs + ('E', 0), m.idx + (k,)))]


def map_find(e, st, a, I_, dn, par):
    m, kp = a
    k = st.read(kp, 'i')
    h = st.read(mhas(m, k), 'i')
    st.assume(Or(h == 0, h == 1))
    return [('ok', st, Ptr(m.root, m.offs + ('E', 0), m.idx + (If(h == 1, k, MAPEND),)))]


def map_end(e, st, a, I_, dn, par):
    m = a[0]
    return [('ok', st, Ptr(m.root, m.offs + ('E', 0), m.idx + (MAPEND,)))]


def map_insert(e, st, a, I_, dn, par):
    m, pp = a[0], a[1]
    k = st.read(pp, 'i')
    v = st.read(pp.field(8), 'i')
    map_put(e, st, m, k, v, True)
    return [('ok', st, UNDEFV())]


def map_size(e, st, a, I_, dn, par):
    return [('ok', st, st.veclen(a[0]))]


MAP = {'map': map_ctor, 'operator[]': map_index, 'find': map_find, 'end': map_end, 'insert': map_insert, 'size': map_size,
       'insert<std::pair<long, long> >': map_insert}


def mi_arrow(e, st, a, I_, dn):
    p = st.read_ptr(a[0])
    k = p.idx[-1]
    e.oblige(st, 'map iterator is dereferenceable', k != MAPEND)
    r = f'mapelem@{st.frames[-1]["__id"]}.{e.nextid()}'
    e.local_roots.add(r)
    q = Ptr(r)
    st.write(q, 'i', k)
    st.write(q.field(8), 'i', st.read(p, 'i'))
    return [('ok', st, q)]


MAPIT = {'operator->': mi_arrow, 'operator*': mi_arrow}


# ---- pairs
def pair_ctor(e, st, a, I_, dn, ta, par):
    p = a[0]
    ps = [x.strip() for x in split_params(par)]
    if len(ps) == 1:
        st.op('copy', p, 16, a[1])
        return [('ok', st, None)]
    if len(ps) == 2 and len(a) == 3:
        off = 8 if 8 in (sizeof(e, ta[0]), sizeof(e, ta[1])) else sizeof(e, ta[0])
        for f, x, t, pt in ((p, a[1], ta[0], ps[0]), (p.field(off), a[2], ta[1], ps[1])):
            lf = leafof(e, t)
            if not lf:
                st.op('copy', f, sizeof(e, t), x)
                continue
            v = st.read(x, lf)
            st.write(f, lf, v)
        return [('ok', st, None)]
    if not ps:
        st.op('zero', p, 16)
        return [('ok', st, None)]
    raise Unsupported('pair constructor ' + dn)


def f_make_pair(e, st, a, I_, dn, meth, par):
    ps = [x.strip() for x in split_params(par)]
    w = [re.sub(r'( const)?&+$', '', p).strip() for p in ps]
    v = [st.read(x, 'i') for x in a[-2:]]
    # std::make_pair<long,long>: returned as {i64,i64}; <.., uint>: also {i64,i32 or i64}
    return [('ok', st, tuple(v))]


def f_identity(e, st, a, I_, dn, meth, par):
    return [('ok', st, a[0])]


def f_minmax(e, st, a, I_, dn, meth, par):
    ta = targs(meth)[0]
    lf = leafof(e, ta)
    x, y = st.read(a[0], lf), st.read(a[1], lf)
    lt = (lambda p, q: e.fl.cmp('olt', p, q)) if lf in ('f', 'r') else (lambda p, q: p < q)
    r = f'mm@{st.frames[-1]["__id"]}.{I_.dst}'
    e.local_roots.add(r)
    q = Ptr(r)
    if meth.startswith('min'):
        v = If(lt(y, x), y, x)
    else:
        v = If(lt(x, y), y, x)
    st.write(q, lf, v)
    return [('ok', st, q)]


def iter_range(e, st, fr, to):
    if fr.root != to.root or fr.offs != to.offs:
        raise Unsupported('range over two objects')
    return fr.idx[-1], to.idx[-1]


def elemleaf(e, st, p, par):
    k = (p.root, p.offs)
    return e.leaf.get(k)


def ptrelem(par0):
    """element type of an iterator/pointer parameter type"""
    m = re.search(r'__normal_iterator<([^,]*?)\*', par0)
    if m:
        return m.group(1).replace(' const', '').replace('const ', '').strip()
    return par0.rstrip('*').replace(' const', '').strip().rstrip('*').strip()


def f_accumulate(e, st, a, I_, dn, meth, par):
    ps = [x.strip() for x in split_params(par)]
    ty = ptrelem(ps[0])
    lf = leafof(e, ty)
    if len(a) > 3:
        raise Unsupported('accumulate with operation')
    fr, to, init = a[0], a[1], a[2]
    i, j = iter_range(e, st, fr, to)
    e.checkrange(st, fr, to, 'accumulate')
    A = st.arr(fr, lf)
    if not (isn(i) and num(i) == 0):
        raise Unsupported('accumulate from offset')
    initf = ps[2] == 'double'
    if lf == 'i' and not initf:
        if not (isn(init) and num(init) == 0):
            raise Unsupported('accumulate init')
        r = spec.tsum(A, j)
        if ps[2] == 'int':
            e.oblige(st, 'no overflow in int accumulate', And(-(1 << 31) <= r, r < (1 << 31)))
        return [('ok', st, r)]
    if lf == 'i' and initf:
        return [('ok', st, e.fl.isum(A, j, e, st))]
    if lf == 'f':
        return [('ok', st, spec.ftsum(A, j))]
    if lf == 'r':
        return [('ok', st, spec.rtsum(A, j))]
    raise Unsupported('accumulate')


def f_fill(e, st, a, I_, dn, meth, par):
    fr, to, vp = a
    i, j = iter_range(e, st, fr, to)
    e.checkrange(st, fr, to, 'fill')
    ps = [x.strip() for x in split_params(par)]
    lf = leafof(e, ptrelem(ps[0]))
    v = st.read(vp, lf)
    base = st.arr(fr, lf)
    c = e.fresh('fill', base.sort())
    k = qv()
    st.assume(FA([k], Select(c, k) == If(And(i <= k, k < j), v, Select(base, k)), [Select(c, k)]))
    st.setarr(fr, lf, c)
    return [('ok', st, None)]


def f_copy(e, st, a, I_, dn, meth, par):
    fr, to, d = a
    i, j = iter_range(e, st, fr, to)
    ps = [x.strip() for x in split_params(par)]
    tf, td = ptrelem(ps[0]), ptrelem(ps[2])
    lf, ld = leafof(e, tf), leafof(e, td)
    n = sub(j, i)
    e.checkrange(st, fr, to, 'copy source')
    e.checkrange(st, d, d.at(add(d.idx[-1], n)), 'copy destination')
    src = st.arr(fr, lf)
    if lf != ld:
        raise Unsupported('converting copy')
    base = st.arr(d, ld)
    c = e.fresh('cp', base.sort())
    b = d.idx[-1]
    k = qv()
    s2 = Select(src, k) if i.eq(b) else Select(src, k - b + i)
    st.assume(FA([k], Select(c, k) == If(And(b <= k, k < b + n), s2, Select(base, k)), [Select(c, k)] + ([Select(src, k)] if i.eq(b) else [])))
    st.setarr(d, ld, c)
    return [('ok', st, d.at(add(b, n)))]


def f_max_element(e, st, a, I_, dn, meth, par):
    fr, to = a
    i, j = iter_range(e, st, fr, to)
    e.checkrange(st, fr, to, 'max_element')
    ps = [x.strip() for x in split_params(par)]
    lf = leafof(e, ptrelem(ps[0]))
    A = st.arr(fr, lf)
    m = e.fresh('maxel', I)
    k = qv()
    st.assume(Implies(i >= j, m == j))
    if lf == 'f':
        raise Unsupported('max_element on opaque doubles')
    st.assume(Implies(i < j, And(i <= m, m < j, FA([k], Implies(And(i <= k, k < j), Select(A, k) <= Select(A, m)), [Select(A, k)]))))
    st.assume(FA([k], Implies(And(i <= k, k < m), Select(A, k) < Select(A, m)), [Select(A, k)]))
    return [('ok', st, fr.at(m))]


def f_find(e, st, a, I_, dn, meth, par):
    fr, to, vp = a
    i, j = iter_range(e, st, fr, to)
    e.checkrange(st, fr, to, 'find')
    ps = [x.strip() for x in split_params(par)]
    lf = leafof(e, ptrelem(ps[0]))
    A = st.arr(fr, lf)
    v = st.read(vp, 'i')
    m = e.fresh('find', I)
    k = qv()
    st.assume(And(i <= m, m <= j))
    st.assume(Implies(m < j, Select(A, m) == v))
    st.assume(FA([k], Implies(And(i <= k, k < m), Select(A, k) != v), [Select(A, k)]))
    return [('ok', st, fr.at(m))]


def f_distance(e, st, a, I_, dn, meth, par):
    i, j = iter_range(e, st, a[0], a[1])
    return [('ok', st, sub(j, i))]


FUN = {'std::move': f_identity, 'std::forward': f_identity, 'std::make_pair': f_make_pair, 'std::min': f_minmax, 'std::max': f_minmax,
       'std::accumulate': f_accumulate, 'std::fill': f_fill, 'std::copy': f_copy, 'std::max_element': f_max_element, 'std::find': f_find,
       'std::distance': f_distance, '__gnu_cxx::operator!=': it_ne, '__gnu_cxx::operator==': it_eq, 'bool __gnu_cxx::operator==': it_eq,
       '__gnu_cxx::operator-': it_diff, 'std::operator==': it_eq, 'std::operator!=': it_ne,
       'std::to_string': lambda e, st, a, I_, dn, m, p: m_nop(e, st, a, I_, dn), 'std::operator+': lambda e, st, a, I_, dn, m, p: m_nop(e, st, a, I_, dn),
       'std::literals::string_literals::operator""s': lambda e, st, a, I_, dn, m, p: m_nop(e, st, a, I_, dn)}


# ---- C / ABI functions, by plain name
def c_new(e, st, a, I_, dn):
    r = f'heap@{st.frames[-1]["__id"]}.{e.nextid()}'
    p = Ptr(r, (0, 'P', 0), (IntVal(0),))
    e.local_roots.add(r)
    n = a[0]
    # every array allocation of the code has 8-byte elements: the capacity is the byte count over 8
    if isn(n):
        n = IntVal(num(n) // 8)
    elif z3.is_mul(n) and n.num_args() == 2 and isn(n.arg(1)) and num(n.arg(1)) == 8:
        n = n.arg(0)
    else:
        raise Unsupported('allocation size')
    e.oblige(st, 'allocation size is non-negative', n >= 0)
    st.write(Ptr(r, (0, 'cap'), ()), 'i', n)
    return [('ok', st, p)]


def c_delete(e, st, a, I_, dn):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported('delete of undefined pointer')
    if p.root is None:
        return [('ok', st, None)]
    if p.offs[-2:-1] != ('P',):
        e.oblige(st, 'delete[] of an allocated array', BoolVal(False))
    key = (p.root, p.offs[:-2])
    if not p.idx[:-1]:
        e.oblige(st, 'delete[] only once', BoolVal(key not in st.freed))
        e.oblige(st, 'delete[] of the start of the array', p.idx[-1] == 0)
        st.freed.add(key)
    return [('ok', st, None)]


def c_throw(e, st, a, I_, dn):
    t = a[1].root if isinstance(a[1], Ptr) else ''
    return [('throw', st, t)]


def c_math(nm):
    def f(e, st, a, I_, dn):
        return [('ok', st, e.fl.call(nm, a))]
    return f


def c_rethrow(e, st, a, I_, dn):
    return [('throw', st, 'std')]


CFUN = {'operator new[](ulong)': c_new, 'operator delete[](void*)': c_delete, '__cxa_allocate_exception': lambda e, st, a, I_, dn: [('ok', st, UNDEFV())], '__cxa_throw': c_throw, '__cxa_free_exception': m_nop,
        'std::numeric_limits<long>::max()': lambda e, st, a, I_, dn: [('ok', st, IntVal((1 << 63) - 1))],
        'std::numeric_limits<double>::max()': lambda e, st, a, I_, dn: [('ok', st, e.fl.const(1.7976931348623157e308))],
        '__gnu_cxx::__enable_if<__is_integer<long>::__value, double>::__type std::tgamma<long>(long)': lambda e, st, a, I_, dn: [('ok', st, e.fl.call('tgamma', [e.fl.fromint(a[0], True, 64)]))],
        'std::isnan(double)': lambda e, st, a, I_, dn: [('ok', st, e.fl.cmp('uno', a[0], a[0]))],
        'operator delete(void*)': m_nop, 'operator delete(void*, ulong)': m_nop,
        'sqrt': c_math('sqrt'), 'round': c_math('round'), 'floor': c_math('floor'), 'log': c_math('log'), 'exp': c_math('exp'), 'fabs': c_math('fabs'), 'tgamma': c_math('tgamma')}
