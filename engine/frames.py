"""Frame condition for the whole library: no function keeps state in an object with static storage duration, and none calls a
function whose result depends on anything but its arguments.  Decided on the LLVM IR of every translation unit (all functions, all
paths): every use of a mutable global outside its own initialisation is an obligation."""
import re, os, subprocess, time
import ir, prog

IMPURE = re.compile(r'^(rand|srand|random|srandom|drand48|time|clock|clock_gettime|gettimeofday|getenv|secure_getenv|getpid|getrandom|rand_r)$')
IMPURE_DN = re.compile(r'^(std::random_device::|std::chrono::.*::now\(\)|std::this_thread|std::rand\()')
FOREIGN = re.compile(r'(^|[ <(*&])(pybind11|std|__gnu_cxx|__cxxabiv1|Rcpp)::|pybind11_|^__|^vtable for|^typeinfo|^VTT for|^\.str|^llvm\.|^_ZTV|^_ZTI|^_Py|^Py|^DW\.ref|^environ$')


def module_ir(repo, out):
    """the Python wrappers, if they compile here"""
    py = '/opt/vp/venv/bin/python'
    try:
        inc = subprocess.run([py, '-c', 'import pybind11,sysconfig,sys;print(pybind11.get_include());print(sysconfig.get_paths()["include"])'], capture_output=True, text=True, timeout=60).stdout.split()
        p = subprocess.run(['clang++-18'] + prog.FLAGS + ['-fvisibility=hidden', '-DHUMANLEAGUE_VERSION=0', '-S', '-emit-llvm', f'-I{repo}/src'] + [f'-I{i}' for i in inc] + [f'{repo}/src/module.cpp', '-o', f'{out}/module.ll'],
                           capture_output=True, text=True, timeout=300)
        return f'{out}/module.ll' if p.returncode == 0 else None
    except Exception:
        return None


def guarded(lines, g):
    """indices of the lines between acquiring and releasing the guard of a local static"""
    r, on = set(), False
    acq = [i for i, l in enumerate(lines) if '__cxa_guard_acquire' in l and '@_ZGV' + g[2:] in l]
    rel = [i for i, l in enumerate(lines) if ('__cxa_guard_release' in l or '__cxa_guard_abort' in l) and '@_ZGV' + g[2:] in l]
    if acq and rel:
        r = set(range(min(acq), max(rel) + 1))
    return r


def scan(path):
    """-> list of (kind, global or callee, function, line)"""
    txt = open(path).read().splitlines()
    glob, tl = {}, None
    for l in txt:
        m = re.match(r'@("?[^ "=]+"?) = (.*)', l)
        if m and re.search(r'\b(global)\b', m[2]) and not re.match(r'(external|appending)\b', m[2]) and not re.search(r'\bconstant\b', m[2].split('{')[0].split('[')[0]):
            glob[m[1]] = m[2]
    fn, body, out = None, [], []
    funcs = []
    for l in txt:
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            fn, body = m[1].strip('"'), []
        elif l == '}' and fn:
            funcs.append((fn, body))
            fn = None
        elif fn:
            body.append(l)
    calls = []
    for fn, body in funcs:
        for i, l in enumerate(body):
            for g in re.findall(r'@([\w.$]+)', l):
                if g in glob:
                    out.append((g, fn, i, l.strip(), body))
            m = re.search(r'\b(?:call|invoke)\b[^@]*@([\w.$]+)\(', l)
            if m:
                calls.append((m[1], fn, l.strip()))
    return glob, out, calls, len(funcs)


def run(repo, out):
    t0 = time.time()
    paths = [f'{out}/{t}.ll' for t in prog.TUS + ['inst']]
    m = module_ir(repo, out)
    if m:
        paths.append(m)
    failed, undecided, n, nf, names, missing = [], [], 0, 0, set(), [] if m else ['module.cpp']
    for p in paths:
        glob, uses, calls, k = scan(p)
        nf += k
        d = ir.demangle(sorted(set(glob) | {c for c, _, _ in calls} | {f for _, f, _, _, _ in uses} | {f for _, f, _ in calls}))
        mine = [g for g in glob if not FOREIGN.search(d.get(g, g).replace('guard variable for ', '')) and not g.startswith('_ZGV')]
        for g in mine:
            n += 1
            names.add(d.get(g, g))
            for _, fn, i, l, body in [u for u in uses if u[0] == g]:
                if fn.startswith(('_GLOBAL__', '__cxx_global_var_init', '__cxx_global_array_dtor')) or i in guarded(body, g):
                    continue
                if re.search(r'= load ', l) or re.search(r'(getelementptr|icmp)', l) and not l.startswith('store'):
                    # an address computation may be stored through later: undecided unless it is only loaded from
                    if 'load ' in l:
                        continue
                    v = l.split(' ')[0]
                    later = [x for x in body[i + 1:] if re.search(re.escape(v) + r'\b', x)]
                    if all(' load ' in x for x in later):
                        continue
                    undecided.append(dict(label=f'{d.get(fn, fn)[:80]} does not change {d.get(g, g)}', reason='address computed: ' + l[:120]))
                elif l.startswith('store') and re.search(r'ptr @' + re.escape(g) + r'\b', l.rsplit(', align', 1)[0].rsplit(',', 1)[-1]) or 'atomicrmw' in l or 'cmpxchg' in l:
                    failed.append(dict(label=f'{d.get(fn, fn)[:80]} does not write {d.get(g, g)}', reason='writes an object with static storage duration: ' + l[:160]))
                elif 'llvm.lifetime' in l or '__cxa_atexit' in l:
                    continue
                else:
                    c = re.search(r'@([\w.$]+)\(', l)
                    cd = d.get(c[1], c[1]) if c else ''
                    if c and (cd.endswith(' const') or re.search(r'::(size|empty|begin|end|cbegin|cend|at|operator\[\]|data|find|count)\(', cd) and False):
                        continue
                    undecided.append(dict(label=f'{d.get(fn, fn)[:80]} does not change {d.get(g, g)}', reason='its address escapes: ' + l[:120]))
        for c, fn, l in calls:
            if FOREIGN.search(d.get(fn, fn).split('(')[0]):
                continue
            if IMPURE.match(c) or IMPURE_DN.search(d.get(c, c)):
                failed.append(dict(label=f'{d.get(fn, fn)[:80]} depends on its arguments only', reason='calls ' + d.get(c, c)[:100]))
    tot = nf + n
    st = 'failed' if failed else 'timeout' if undecided or missing else 'proved'
    return dict(name='*frames', status=st, obligations=tot, discharged=tot - len(failed) - len(undecided), failed=failed, timeout=undecided, queries=0, solver_s=0, s=round(time.time() - t0, 2), used=[],
                why=f'{nf} functions, {n} mutable globals ({", ".join(sorted(names))[:300]})' + (f'; not analysed: {missing}' if missing else ''))


if __name__ == '__main__':
    import sys
    r = run('/repo', '/tmp/w/ir')
    print({k: v for k, v in r.items() if k not in ('failed', 'timeout')})
    for x in r['failed'][:10] + r['timeout'][:20]:
        print(x)
