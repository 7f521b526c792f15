#!/usr/bin/env python3
"""replay_case.py FILE: runs a recorded case again on /repo's current tree"""
import sys, json, subprocess, tempfile, shutil
import check
from check import build, HERE, PY
r = json.load(open(sys.argv[1]))
tmp = tempfile.mkdtemp(prefix='verif-')
cov = dict(evaluations=0, distinct_nontrivial=0, samples=[])
try:
    k = r['kind']
    if k == 'python' and r['sub'] == 'C11E':
        lib = build.python(tmp + '/lib', [HERE + '/replay/sobolend.cpp'], ('SobolImpl.cpp',))
    elif k in ('python', 'R'):
        lib = build.python(tmp + '/lib')
    if k == 'python':
        sys.exit(subprocess.run([PY, HERE + '/replay/worker.py', lib, r['sub'], '0', '0', '0', tmp + '/c', tmp + '/o', sys.argv[1]]).returncode)
    if k == 'R':
        sys.exit(subprocess.run([PY, HERE + '/replay/roracle.py', lib, build.rpkg(lib), '0', '0', tmp + '/o', sys.argv[1]]).returncode)
    exe = build.cpp(tmp + '/x', HERE + f'/replay/{k}.cpp', ('-O1',) if k == 'arrays' else ('-O2',), k == 'arrays', ('SobolImpl.cpp',) if k == 'soboltab' else ())
    sys.exit(subprocess.run([exe] + r['case']).returncode)
finally:
    shutil.rmtree(tmp)
