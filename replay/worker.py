"""worker.py LIBDIR PROP SEED SECONDS MAXCASES CURRENTFILE OUTFILE [CASEFILE]: runs cases of one property against the extension built in LIBDIR"""
import sys, json, time, os


def main():
    lib, prop, seed, secs, maxn, cur, out = sys.argv[1:8]
    sys.path.insert(0, lib)
    sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
    import humanleague
    assert humanleague.__file__.startswith(lib)
    import numpy as np
    import props
    props.hl = humanleague
    g, c = props.PROPS[prop]
    if len(sys.argv) > 8:
        case = json.load(open(sys.argv[8]))['case']
        try:
            c(case)
        except props.Fail as e:
            print('FAILS:', e)
            return 1
        print('holds')
        return 0
    t0 = time.time()
    n = 0
    kinds = set()
    samples = []
    i = 0
    res = dict(n=0, fail=None)
    fd = open(cur, 'w')
    while n < int(maxn) and time.time() - t0 < float(secs):
        rng = np.random.default_rng([int(seed), i])
        case = g(rng, i)
        i += 1
        s = json.dumps(case)
        fd.seek(0)
        fd.truncate()
        fd.write(s)
        fd.flush()
        kinds.add(hash(s))
        try:
            c(case)
        except props.Fail as e:
            res['fail'] = dict(case=case, message=str(e), index=i - 1)
            break
        finally:
            n += 1
        if len(samples) < 3 and len(s) < 600:
            samples.append(case)
    res.update(n=n, distinct=len(kinds), samples=samples, wall=time.time() - t0)
    json.dump(res, open(out, 'w'))
    return 0


sys.exit(main())
