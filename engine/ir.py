"""Parser for textual LLVM IR (the subset clang -O1 -Xclang -disable-llvm-passes emits for the code under
verification), with C++ record layouts.  Function bodies are parsed lazily: only what is executed is parsed."""
import re, struct, subprocess, os, functools


class Unsupported(Exception):
    """The tool cannot handle a construct (a tool limit, never a verdict about the code)."""


# ---------------------------------------------------------------- types
class T:
    __slots__ = ('k', 'a', 'b')

    def __init__(s, k, a=None, b=None):
        s.k, s.a, s.b = k, a, b

    def __repr__(s):
        return f'{s.k}{"" if s.a is None else ":" + str(s.a)}'

    def __eq__(s, o):
        return isinstance(o, T) and (s.k, s.a, s.b) == (o.k, o.a, o.b)

    def __hash__(s):
        return hash((s.k, str(s.a)))


PTR = T('ptr')
VOID = T('void')
TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!\{?[-a-zA-Z$._0-9]*\}?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<p>\.\.\.|[(){}\[\]<>,=*:|])
)''', re.X)


def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        if line[pos] == ';':
            break
        m = TOK.match(line, pos)
        if not m:
            if line[pos:].strip() == '' or line[pos:].strip().startswith(';'):
                break
            raise Unsupported('token: ' + line[pos:pos + 40])
        k = m.lastgroup
        t = m.group(k)
        if k == 'meta':
            out.append(('meta', t))
        else:
            out.append((k, t))
        pos = m.end()
    return out


class P:
    """token stream"""

    def __init__(s, toks, mod):
        s.t, s.i, s.mod = toks, 0, mod

    def peek(s, o=0):
        return s.t[s.i + o][1] if s.i + o < len(s.t) else None

    def kind(s, o=0):
        return s.t[s.i + o][0] if s.i + o < len(s.t) else None

    def next(s):
        v = s.t[s.i][1]
        s.i += 1
        return v

    def accept(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def expect(s, v):
        if not s.accept(v):
            raise Unsupported(f'expected {v} got {s.peek()} in {" ".join(x[1] for x in s.t)[:200]}')

    def type(s):
        t = s.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.fullmatch(r'i\d+', t):
            r = T('int', int(t[1:]))
        elif t in ('double', 'float', 'x86_fp80', 'half'):
            r = T('fp', t)
        elif t == 'metadata' or t == 'label' or t == 'token':
            r = T(t)
        elif t == '[':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect(']')
            r = T('array', n, e)
        elif t == '<' and s.peek() != '{':
            n = int(s.next())
            s.expect('x')
            e = s.type()
            s.expect('>')
            r = T('vec', n, e)
        elif t == '<':
            s.expect('{')
            fs = []
            while not s.accept('}'):
                fs.append(s.type())
                s.accept(',')
            s.expect('>')
            r = T('struct', tuple(fs), True)
        elif t == '{':
            fs = []
            while not s.accept('}'):
                fs.append(s.type())
                s.accept(',')
            r = T('struct', tuple(fs), False)
        elif t[0] == '%':
            r = T('named', t)
        elif t == 'opaque':
            r = T('opaque')
        else:
            raise Unsupported('type ' + t)
        # function type  ret (args)
        if s.peek() == '(' and s.kind() == 'p' and getattr(s, 'allow_fn', False):
            depth = 0
            while True:
                x = s.next()
                if x == '(':
                    depth += 1
                if x == ')':
                    depth -= 1
                    if depth == 0:
                        break
            r = T('fn', r)
        return r

    def skip_attrs(s):
        while True:
            k, v = s.kind(), s.peek()
            if k == 'attr':
                s.next()
                continue
            if k == 'word' and v in ATTRS:
                s.next()
                if s.peek() == '(':
                    s.parens()
                elif v in ('align', 'alignstack') and s.kind() == 'num':
                    s.next()
                continue
            break

    def parens(s):
        s.expect('(')
        d = 1
        while d:
            x = s.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def value(s, ty):
        k, v = s.kind(), s.peek()
        if k == 'loc':
            s.next()
            return ('l', v) if v[0] == '%' else ('g', v)
        if k == 'num':
            s.next()
            if ty.k == 'fp':
                if v.startswith('0x'):
                    return ('f', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('f', float(v))
            return ('i', int(v))
        if v in ('true', 'false'):
            s.next()
            return ('i', 1 if v == 'true' else 0)
        if v in ('null', 'none', 'undef', 'poison', 'zeroinitializer'):
            s.next()
            return (v,)
        if v == 'getelementptr':
            s.next()
            while s.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                s.next()
                if s.peek() == '(' and s.t[s.i - 1][1] == 'inrange':
                    s.parens()
            s.expect('(')
            bt = s.type()
            s.expect(',')
            pt = s.type()
            base = s.value(pt)
            idx = []
            while s.accept(','):
                while s.peek() == 'inrange':
                    s.next()
                it = s.type()
                idx.append((it, s.value(it)))
            s.expect(')')
            return ('cgep', bt, base, idx)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            s.next()
            els = []
            while not s.accept(close):
                t2 = s.type()
                els.append((t2, s.value(t2)))
                s.accept(',')
            return ('agg', els)
        if k == 'str':
            s.next()
            return ('str', v)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'sub', 'add'):
            op = s.next()
            s.parens()
            return ('cexpr', op)
        raise Unsupported(f'value {v} : ' + ' '.join(x[1] for x in s.t)[:200])


ATTRS = set('''noundef nonnull align dereferenceable dereferenceable_or_null sret byval signext zeroext inreg noalias nocapture
readonly readnone writeonly writable dead_on_unwind nofree returned nest immarg allocptr allocalign noext range initializes
fastcc ccc tail musttail notail nsw nuw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile disjoint nneg
local_unnamed_addr unnamed_addr dso_local internal linkonce_odr weak_odr private hidden available_externally
alignstack nounwind cold noreturn willreturn mustprogress captures samesign weak external common thread_local appending constant linkonce'''.split())


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'args', 'x', 'line')

    def __init__(s, op, dst, ty, args, x=None, line=''):
        s.op, s.dst, s.ty, s.args, s.x, s.line = op, dst, ty, args, x, line

    def __repr__(s):
        return s.line


class Func:
    def __init__(s, mod, name, header, body):
        s.mod, s.name, s.header, s.body = mod, name, header, body
        s._parsed = False

    def parse(s):
        if s._parsed:
            return s
        p = P(tokenize(s.header), s.mod)
        p.expect('define')
        while p.kind() in ('word', 'attr') and not (p.peek() in ('ptr', 'void', 'double', 'float', 'x86_fp80') or re.fullmatch(r'i\d+', p.peek())):
            w = p.next()
            if p.peek() == '(':
                p.parens()
            elif w == 'align':
                p.next()
        s.ret = p.type()
        s.params = []
        nm = p.next()
        p.expect('(')
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type()
            sret = False
            while p.kind() == 'word' or p.kind() == 'attr':
                w = p.next()
                if w in ('sret', 'byval'):
                    sret = w
                if p.peek() == '(':
                    p.parens()
                elif w in ('align',):
                    p.next()
            n = p.next() if p.kind() == 'loc' else f'%{len(s.params)}'
            s.params.append((n, t, sret))
            p.accept(',')
        s.blocks = {}
        s.order = []
        cur = None
        nunnamed = len([1 for n, _, _ in s.params if re.fullmatch(r'%\d+', n)])
        lines = s.body
        i = 0
        while i < len(lines):
            ln = lines[i]
            m = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', ln)
            if m:
                cur = '%' + m.group(1)
                s.blocks[cur] = []
                s.order.append(cur)
                i += 1
                continue
            st = ln.strip()
            if not st or st.startswith(';'):
                i += 1
                continue
            if cur is None:
                cur = '%' + str(nunnamed)
                s.blocks[cur] = []
                s.order.append(cur)
            # multi-line constructs: invoke ... to label, switch [...], landingpad clauses
            if ' invoke ' in ' ' + ln or st.startswith('invoke'):
                while ' unwind label ' not in ln:
                    i += 1
                    ln += ' ' + lines[i].strip()
            elif st.startswith('switch'):
                while not ln.rstrip().split(', !')[0].rstrip().endswith(']'):
                    i += 1
                    ln += ' ' + lines[i].strip()
            elif ' landingpad ' in ln:
                while i + 1 < len(lines) and re.match(r'^\s+(cleanup|catch|filter)\b', lines[i + 1]):
                    i += 1
                    ln += ' ' + lines[i].strip()
            s.blocks[cur].append(s.instr(ln))
            i += 1
        s.entry = s.order[0]
        s._parsed = True
        s._loops()
        return s

    def instr(s, ln):
        p = P(tokenize(ln), s.mod)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        I = functools.partial(Instr, op, dst, line=ln.strip())
        if op == 'alloca':
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            return I(t, [], cnt)
        if op == 'load':
            p.skip_attrs()
            t = p.type()
            p.expect(',')
            pt = p.type()
            return I(t, [p.value(pt)])
        if op == 'store':
            p.skip_attrs()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return I(t, [v, p.value(pt)])
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            pt = p.type()
            base = p.value(pt)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            return I(bt, [base], idx)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, [a, b])
        if op == 'fneg' or op == 'freeze':
            p.skip_attrs()
            t = p.type()
            return I(t, [p.value(t)])
        if op in ('icmp', 'fcmp'):
            p.skip_attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return I(t, [a, b], pred)
        if op in ('zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect('to')
            return I(t, [a], p.type())
        if op == 'select':
            p.skip_attrs()
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            return I(t, [c, a, p.value(t2)])
        if op == 'phi':
            p.skip_attrs()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not (p.peek() == ',' and p.peek(1) == '['):
                    break
                p.next()
            return I(t, [], inc)
        if op == 'br':
            if p.accept('label'):
                return I(None, [], [p.next()])
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return I(None, [c], [a, p.next()])
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv, p.next()))
            return I(t, [v], (d, cases))
        if op in ('call', 'invoke'):
            while p.kind() in ('word', 'attr') and not (p.peek() in ('ptr', 'void', 'double', 'float', 'x86_fp80') or re.fullmatch(r'i\d+', p.peek())):
                w = p.next()
                if p.peek() == '(':
                    p.parens()
                elif w == 'align':
                    p.next()
            t = p.type()
            if p.peek() == '(' and p.kind() == 'p':
                p.parens()  # varargs fn type
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                at = p.type()
                if at.k == 'metadata':
                    while p.peek() not in (',', ')'):
                        p.next()
                    p.accept(',')
                    args.append((at, ('undef',)))
                    continue
                sret = False
                while (p.kind() == 'word' and p.peek() in ATTRS) or p.kind() == 'attr':
                    w = p.next()
                    if w in ('sret', 'byval'):
                        sret = w
                    if p.peek() == '(':
                        p.parens()
                    elif w == 'align':
                        p.next()
                args.append((at, p.value(at)))
                p.accept(',')
            x = {'callee': callee}
            if op == 'invoke':
                while p.kind() in ('attr',):
                    p.next()
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                x['to'] = p.next()
                p.expect('unwind')
                p.expect('label')
                x['unwind'] = p.next()
            return I(t, args, x)
        if op == 'ret':
            t = p.type()
            return I(t, [] if t.k == 'void' else [p.value(t)])
        if op in ('unreachable', ):
            return I(None, [])
        if op == 'resume':
            return I(None, [])
        if op == 'landingpad':
            return I(None, [], dict(catch=(' catch ' in ln)))
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                if p.kind() == 'meta':
                    break
                ix.append(int(p.next()))
            return I(t, [v], ix)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            w = p.value(t2)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return I(t, [v, w], ix)
        return I(None, [], 'unsupported')

    def succs(s, b):
        t = s.blocks[b][-1]
        if t.op == 'br':
            return t.x
        if t.op == 'switch':
            return [t.x[0]] + [c[1] for c in t.x[1]]
        if t.op == 'invoke':
            return [t.x['to'], t.x['unwind']]
        return []

    def _loops(s):
        # dominators (iterative), natural loops
        order = []
        seen = set()

        def dfs(b):
            st = [(b, iter(s.succs(b)))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        st.append((y, iter(s.succs(y))))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(s.entry)
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for y in s.succs(b):
                preds[y].append(b)
        idom = {s.entry: s.entry}
        ch = True

        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [q for q in preds[b] if q in idom]
                n = ps[0]
                for q in ps[1:]:
                    n = inter(n, q)
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == s.entry:
                    return False
                b = idom[b]
        s.loops = {}
        for b in rpo:
            for h in s.succs(b):
                if num[h] <= num[b]:
                    if not dom(h, b):
                        raise Unsupported('irreducible control flow in ' + s.name)
                    body = s.loops.setdefault(h, {h})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        s.idom = idom


class Module:
    def __init__(s, path):
        s.path = path
        s.funcs, s.types, s.globals, s.decls = {}, {}, {}, set()
        s._sz = {}
        cur = None
        for ln in open(path, errors='replace'):
            ln = ln.rstrip('\n')
            if cur is not None:
                if ln == '}':
                    s.funcs[cur[0]] = Func(s, cur[0], cur[1], cur[2])
                    cur = None
                else:
                    cur[2].append(ln)
            elif ln.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                cur = (m.group(1).strip('"'), ln[:ln.rindex('{')], [])
            elif ln.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                s.decls.add(m.group(1).strip('"'))
            elif ln.startswith('%') and ' = type ' in ln:
                n, r = ln.split(' = type ', 1)
                s.types[n.strip()] = r
            elif ln.startswith('@'):
                m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                s.globals[m.group(1).strip('"')] = m.group(2)
        s._ty = {}
        s._g = {}

    def resolve(s, t):
        if t.k == 'named':
            if t.a not in s._ty:
                s._ty[t.a] = P(tokenize(s.types[t.a]), s).type()
            return s._ty[t.a]
        return t

    def align(s, t):
        t = s.resolve(t)
        if t.k == 'int':
            return max(1, min(16, (t.a + 7) // 8))
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2}[t.a]
        if t.k == 'array' or t.k == 'vec':
            return s.align(t.b)
        if t.k == 'struct':
            return 1 if t.b else max([s.align(f) for f in t.a] or [1])
        raise Unsupported('align ' + str(t))

    def size(s, t):
        key = t
        t = s.resolve(t)
        if t.k == 'int':
            return (t.a + 7) // 8
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2}[t.a]
        if t.k in ('array', 'vec'):
            return t.a * s.size(t.b)
        if t.k == 'struct':
            return s.layout(t)[1]
        raise Unsupported('size ' + str(t))

    def layout(s, t):
        t = s.resolve(t)
        if t in s._sz:
            return s._sz[t]
        off = 0
        offs = []
        for f in t.a:
            if not t.b:
                al = s.align(f)
                off = (off + al - 1) // al * al
            offs.append(off)
            off += s.size(f)
        if not t.b:
            al = s.align(t)
            off = (off + al - 1) // al * al
        s._sz[t] = (offs, off)
        return s._sz[t]

    def glob(s, name):
        """parse initializer: returns (type, value, isconst) or None for external"""
        if name in s._g:
            return s._g[name]
        r = None
        txt = s.globals.get(name)
        if txt is not None:
            txt = re.sub(r', (align|comdat|section|!).*$', '', txt)
            p = P(tokenize(txt), s)
            const = False
            while p.kind() == 'word' and not (p.peek() in ('ptr', 'double', 'float') or re.fullmatch(r'i\d+', p.peek())):
                w = p.next()
                if w == 'constant':
                    const = True
                if w in ('external',):
                    const = None
                if p.peek() == '(':
                    p.parens()
            try:
                t = p.type()
                v = p.value(t) if p.peek() is not None and p.peek() not in ('comdat', ',') else None
                r = (t, v, const)
            except Unsupported:
                r = None
        s._g[name] = r
        return r


# ---------------------------------------------------------------- demangling and layouts
def demangle(names):
    names = list(names)
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    return dict(zip(names, out))


def normalize(d):
    d = d.replace('std::__cxx11::', 'std::')
    # drop default allocator arguments
    prev = None
    while prev != d:
        prev = d
        d = re.sub(r', std::allocator<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*> ?>', '>', d)
    d = re.sub(r'\s+>', '>', d)
    d = d.replace('unsigned long', 'ulong').replace('unsigned int', 'uint')
    d = d.replace('(anonymous namespace)::', '')
    d = re.sub(r'\[abi:\w+\]', '', d)
    return d


def parse_layouts(path):
    """-fdump-record-layouts output -> {class: {field: (offset, type string)}} (bases flattened)"""
    res = {}
    cur = None
    for ln in open(path, errors='replace'):
        m = re.match(r'^\s*(\d+)(?::[-\d]*)? \|( +)(.*)$', ln)
        if cur is not None and '[sizeof=' in ln:
            cur['__size'] = int(re.search(r'sizeof=(\d+)', ln).group(1))
            continue
        if ln.startswith('*** Dumping AST Record Layout'):
            cur = None
            skip = None
            continue
        if not m:
            continue
        off, ind, txt = int(m.group(1)), len(m.group(2)), m.group(3).rstrip()
        if cur is None:
            name = re.sub(r'^(class|struct|union) ', '', txt)
            name = re.sub(r' \(empty\)$', '', name)
            cur = res.setdefault(norm_type(name), {})
            base_ind = ind
            stack = []
            skipind = None
            continue
        if skipind is not None:
            if ind > skipind:
                continue
            skipind = None
        if txt.endswith('(base)') or txt.endswith('(primary base)') or txt.endswith('(base) (empty)'):
            if 'std::' in txt.split('(')[0].replace('class ', '').replace('struct ', '')[:6]:
                pass
            continue
        if 'vtable pointer' in txt:
            cur['__vptr'] = (off, 'ptr')
            continue
        if txt.startswith('['):
            continue
        mm = re.match(r'^(.*?)\s*(\w+)(?: \(empty\))?$', txt)
        if not mm:
            continue
        ty = re.sub(r'\b(class|struct) ', '', mm.group(1)).strip()
        if mm.group(2) not in cur:
            cur[mm.group(2)] = (off, norm_type(ty))
        skipind = ind
    return res


def norm_type(t):
    t = re.sub(r'\b(class|struct) ', '', t)
    return normalize(t)
