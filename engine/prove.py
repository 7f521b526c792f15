import sys, time, z3
import prog, contract, contracts, ms, sobolw, sym
from ir import Unsupported


def run(p, name, opts=None, verbose=True):
    c = contract.REG.find(name)
    f = p.find(name)
    if f is None:
        return dict(name=name, status='missing')
    e = contract.Verifier(p, c.fl(), opts or {})
    e.configure(c)
    t = time.time()
    try:
        e.verify(c, f)
    except Unsupported as ex:
        if verbose and opts and opts.get('tb'):
            raise
        return dict(name=name, status='unsupported', why=str(ex), e=e)
    t1 = time.time() - t
    res = {'proved': 0, 'failed': [], 'timeout': []}
    for o in e.obl:
        r = sym.check(o.pc, o.qf, o.goal, o.hints, e, e.opts.get('timeout', 10000), e.stats)
        o.res = r
        if r == 'proved':
            res['proved'] += 1
        else:
            res[r].append(o)
    st = 'proved' if not res['failed'] and not res['timeout'] else 'failed' if res['failed'] else 'timeout'
    return dict(name=name, status=st, n=len(e.obl), res=res, exec_s=t1, s=time.time() - t, e=e, inlined=sorted(e.inlined), used=sorted(e.used))


if __name__ == '__main__':
    import glob
    p = prog.Prog('/tmp/w/ir')
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or list(contract.REG.by)
    for n in list(contract.REG.by):
        if not any(a in n for a in names):
            continue
        r = run(p, n, dict(tb=1, debug='-d' in sys.argv))
        print(r['status'], n, {k: v for k, v in r.items() if k in ('n', 'exec_s', 's', 'why')}, r['e'].stats, r['e'].reach)
        if '-l' in sys.argv:
            for x in r['e'].loopinfo:
                print('   loop', x)
            print('   nonterm', r['e'].nonterm)
            print('   inlined', r.get('inlined'), 'used', r.get('used'))
        for k in ('failed', 'timeout'):
            for o in r.get('res', {}).get(k, []):
                print('   ', k, o.label, str(o.goal)[:300].replace('\n', ' '))
                if '-v' in sys.argv:
                    for f in o.pc:
                        print('        ', str(f).replace('\n', ' ')[:300])
