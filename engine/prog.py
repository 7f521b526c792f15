"""Loads the code under verification: LLVM IR of /repo's current sources, generated on every run (unoptimised: the passes are
disabled, so that every statement of the source is there), plus the record layouts."""
import os, subprocess, re, sys
from concurrent.futures import ThreadPoolExecutor
import ir

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-DNDEBUG', '-DPYTHON_MODULE', '-fno-discard-value-names', '-w']
TUS = ['Index', 'QIS', 'QISI', 'Integerise', 'StatFuncs', 'Sobol', 'SobolImpl']


class BuildError(Exception):
    pass


def compile_ir(repo, out, extra=()):
    os.makedirs(out, exist_ok=True)
    srcs = [(t, f'{repo}/src/{t}.cpp') for t in TUS] + [('inst', HERE + '/inst.cpp')]

    def one(ts):
        t, src = ts
        fl = FLAGS + (['-Xclang', '-fdump-record-layouts'] if t in ('inst', 'QIS', 'QISI', 'Integerise', 'Sobol', 'SobolImpl') else [])
        p = subprocess.run(['clang++-18'] + fl + ['-S', '-emit-llvm', f'-I{repo}/src', src, '-o', f'{out}/{t}.ll'], capture_output=True, text=True)
        if p.returncode:
            raise BuildError(p.stderr[-3000:])
        with open(f'{out}/{t}.lay', 'w') as f:
            f.write(p.stdout)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, srcs))
    return out


class Prog:
    def __init__(s, out):
        s.mods = {}
        s.layouts = {}
        for t in TUS + ['inst']:
            s.mods[t] = ir.Module(f'{out}/{t}.ll')
            for k, v in ir.parse_layouts(f'{out}/{t}.lay').items():
                s.layouts.setdefault(k, v)
        names = set()
        for m in s.mods.values():
            names |= set(m.funcs) | m.decls
        d = ir.demangle(sorted(names))
        s.dnames = {n: ir.normalize(x) for n, x in d.items()}
        s.bydn = {}
        for t, m in s.mods.items():
            for n in m.funcs:
                s.bydn.setdefault(s.dnames[n], []).append((t, n))

    def dn(s, mod, name):
        if name in s.dnames:
            return s.dnames[name]
        r = ir.normalize(ir.demangle([name])[name])
        s.dnames[name] = r
        return r

    def short(s, name):
        d = s.dnames.get(name, name)
        d = d.split('(')[0]
        return re.sub(r'<[^<>]*>', '', d).split('::')[-1][-24:].strip().replace(' ', '_')

    def lookup(s, mod, name):
        """the definition of a symbol: internal ones only in the same module"""
        f = mod.funcs.get(name)
        if f is not None:
            return f
        for m in s.mods.values():
            f = m.funcs.get(name)
            if f is not None and ' internal ' not in f.header:
                return f
        # complete-object constructors and destructors that are aliases of the base-object ones
        for a, b in (('D1Ev', 'D2Ev'), ('C1E', 'C2E')):
            if a in name:
                f = s.lookup(mod, name.replace(a, b, 1))
                if f is not None:
                    return f
        return None

    def find(s, dn, mod=None):
        l = s.bydn.get(dn, [])
        if mod:
            l = [x for x in l if x[0] == mod]
        if not l:
            return None
        t, n = l[0]
        return s.mods[t].funcs[n]


def load(repo='/repo', out='/tmp/ir'):
    compile_ir(repo, out)
    return Prog(out)


if __name__ == '__main__':
    p = load(out='/tmp/w/ir')
    for d in sorted(p.bydn):
        if not d.startswith(('std::', '__gnu', 'void std::', 'bool std::', 'bool __gnu')) and ' std::' not in d.split('(')[0]:
            print(p.bydn[d][0][0], d)
    for k in ('Index', 'NDArray<long>', 'NDArray<int64_t>', 'NDArray<double>', 'MappedIndex', 'FixedIndex', 'Microsynthesis<long>', 'Microsynthesis<double, long>', 'Microsynthesis<double>', 'IPF<double>', 'QIS', 'QISI', 'Integeriser', 'Sobol'):
        print(k, p.layouts.get(k))
