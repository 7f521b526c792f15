"""Proves the lemma library of spec.py: every lemma by z3, inductive ones by induction on one integer argument, each lemma
using only lemmas proved before it (its `uses` list)."""
import inspect, time, sys
import z3
from z3 import And, Or, Not, Implies, IntVal
import spec

ORDER = []


def args_of(f):
    out = []
    for n, p in inspect.signature(f).parameters.items():
        out.append(z3.Const(f'{f.lname}_{n}', p.annotation))
    return out


def solve(fs, goal, hints, uses, timeout=20000):
    import sym
    return all(solve1(list(fs) + list(h), g, hints, uses, timeout) for h, g in sym.split(goal))


def solve1(fs, goal, hints, uses, timeout):
    q = list(fs) + [Not(goal)]
    inst = spec.instances(q, hints, only=set(uses))
    mk = {}
    import sym
    for f in q + inst + list(hints):
        for m in sym.selects_of(f).values():
            mk.update(m)
    inst += [spec.mark(t) for t in mk.values() if t.sort() == spec.I]
    k = spec.qv()
    seen = set()
    for f in q + inst + list(hints):
        for a in spec.apps_of(f).values():
            if a.decl().name() == 'mems' and a.arg(0).get_id() not in seen:
                seen.add(a.arg(0).get_id())
                inst.append(spec.FA([k], spec.mark(k), [z3.Select(a.arg(0), k)]))
    # everything that occurs is unfolded once, hints included
    for cfg in [{}, {'full': True}, {'full': True, 'smt.relevancy': 0}, {'smt.relevancy': 0}, {'auto_config': False}, {'smt.arith.solver': 2}, {'smt.random_seed': 7}]:
        sv = z3.SimpleSolver() if not cfg.get('full') else z3.Solver()
        cfg = {k: v for k, v in cfg.items() if k != 'full'}
        sv.set('timeout', timeout // 4)
        sv.set('smt.mbqi', False)
        for k, v in cfg.items():
            sv.set(k, v)
        sv.add(q + inst)
        if sv.check() == z3.unsat:
            return True
    return False


def prove(f):
    a = args_of(f)
    hints = []
    stmt = f(*a)
    def extra(a):
        out = []
        for nm, args in (f.step_lemmas(*a) if f.step_lemmas else []):
            g = spec.LEMMAS[nm]
            if list(spec.LEMMAS).index(nm) >= list(spec.LEMMAS).index(f.lname):
                raise ValueError('lemma used before it is proved: ' + nm)
            st = g(*args)
            out.append(Implies(args[g.ind] >= g.base, st) if g.ind is not None else st)
        return out
    if f.ind is None:
        h = f.hints(*a) if f.hints else []
        return [('', solve(extra(a), stmt, h, f.uses))]
    i = f.ind
    n = a[i]
    base = list(a)
    base[i] = IntVal(f.base)
    nxt = list(a)
    nxt[i] = n + 1
    hb = f.hints(*base) if f.hints else []
    hs = (f.hints(*nxt) if f.hints else []) + (f.hints(*a) if f.hints else []) + (f.step_hints(*a) if f.step_hints else [])
    r = [('base', solve(extra(base), f(*base), hb, f.uses))]
    hyp = [n >= f.base, f(*a)] + extra(a)
    # the induction hypothesis holds for all values of the other arguments
    for x in f.gen(*nxt[:i] + [n] + nxt[i + 1:]) if f.gen else []:
        assert x[i].eq(n)
        hyp.append(f(*x))
    if f.defs:
        hyp += f.defs(*nxt)
    r.append(('step', solve(hyp, f(*nxt), hs, f.uses)))
    return r


def main(names=None):
    done = []
    ok = True
    tot = 0
    for nm, f in list(spec.LEMMAS.items()):
        if names and nm not in names:
            done.append(nm)
            continue
        bad = [u for u in f.uses if u not in spec.LEMMAS or list(spec.LEMMAS).index(u) >= list(spec.LEMMAS).index(nm)]
        t = time.time()
        r = prove(f)
        res = all(x for _, x in r) and not bad
        tot += len(r)
        print(f'{"ok  " if res else "FAIL"} {nm} {r} {bad or ""} {time.time() - t:.2f}')
        ok = ok and res
    return ok, tot


if __name__ == '__main__':
    sys.exit(0 if main(sys.argv[1:])[0] else 1)
