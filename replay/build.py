"""Builds /repo's current sources into a scratch directory (never inside /repo)."""
import os, subprocess, glob, shutil, sysconfig
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
PYINC = ['-I/opt/vp/venv/lib/python3.12/site-packages/pybind11/include', '-I/opt/vp/venv/include', '-I/usr/include/python3.12']
PY = '/opt/vp/venv/bin/python'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-g']


class BuildError(Exception):
    pass


def run(cmd, **k):
    p = subprocess.run(cmd, capture_output=True, text=True, **k)
    if p.returncode:
        raise BuildError(' '.join(cmd[:12]) + '\n' + p.stderr[-3000:])
    return p.stdout


def sources(skip=()):
    return [f for f in sorted(glob.glob(REPO + '/src/*.cpp')) if os.path.basename(f) not in ('RcppExports.cpp', 'rcpp_api.cpp') + tuple(skip)]


def compile_all(srcs, out, flags, jobs=8):
    os.makedirs(out, exist_ok=True)
    objs = []
    cmds = []
    for s in srcs:
        o = f'{out}/{os.path.basename(s)}.o'
        objs.append(o)
        cmds.append(['g++', '-std=c++20', '-w', '-DNDEBUG', f'-I{REPO}/src', '-c', s, '-o', o] + flags)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, cmds))
    return objs


def python(out, extra_src=(), skip=(), flags=('-O2',)):
    """the extension module, importable from directory out"""
    objs = compile_all(sources(skip) + list(extra_src), out + '/obj', ['-fno-strict-overflow', '-DPYTHON_MODULE', '-fPIC', '-fvisibility=hidden'] + list(flags) + PYINC)
    run(['g++', '-shared', '-o', out + '/_humanleague.cpython-312-x86_64-linux-gnu.so'] + objs)
    shutil.rmtree(out + '/obj')
    shutil.copytree(REPO + '/humanleague', out + '/humanleague', ignore=shutil.ignore_patterns('__pycache__'))
    # package metadata, read by humanleague/__init__.py
    os.makedirs(out + '/humanleague-0.dist-info')
    with open(out + '/humanleague-0.dist-info/METADATA', 'w') as f:
        f.write('Metadata-Version: 2.1\nName: humanleague\nVersion: 0\n')
    return out


def cpp(out, driver, flags=('-O1',), san=True, skip=()):
    """a C++ driver linked with the sources"""
    fl = list(flags) + (SAN if san else [])
    objs = compile_all(sources(('module.cpp',) + tuple(skip)) + [driver], out + '/obj', fl)
    exe = out + '/' + os.path.basename(driver)[:-4]
    run(['g++', '-o', exe] + (SAN if san else []) + objs)
    shutil.rmtree(out + '/obj')
    return exe


def rpkg(out):
    """the R package, in library out/Rlib"""
    os.makedirs(out + '/Rlib')
    src = out + '/rpkg'
    os.makedirs(src)
    for f in ('DESCRIPTION', 'NAMESPACE', 'LICENCE'):
        if os.path.exists(f'{REPO}/{f}'):
            shutil.copy(f'{REPO}/{f}', src)
    for d in ('R', 'man', 'src'):
        shutil.copytree(f'{REPO}/{d}', f'{src}/{d}', ignore=shutil.ignore_patterns('*.o', '*.so'))
    env = dict(os.environ, MAKEFLAGS='-j8', R_MAKEVARS_USER='/dev/null')
    run(['R', '--vanilla', 'CMD', 'INSTALL', '--no-docs', '--no-multiarch', '--no-test-load', f'--library={out}/Rlib', src], env=env)
    return out + '/Rlib'
