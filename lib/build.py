"""Build capnpy from /repo's working tree, outside /repo.

    build(variants) -> {variant: directory to put first on PYTHONPATH}

variants: 'pyx'  compiled runtime (CPython + Cython), -O1
          'asan' the same, with -fsanitize=address,undefined-free bounds
          'pure' the sources only (for PyPy)

The result is cached under /verif/.cache/build-<hash of every source byte and of
this file>, so a change of a single byte of /repo's sources is rebuilt.
"""
import ast
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
VENV = '/opt/venv/bin/python'
PYPY = '/opt/venv-pypy/bin/python'
SKIP_DIRS = {'__pycache__', 'testing', 'benchmarks', 'build'}


class BuildError(Exception):
    pass


def _generated_c(path):
    with open(path, 'rb') as f:
        head = f.read(200)
    return (head.startswith(b'/* Generated by Cython')
            or head.startswith(b'#error Do not use this file'))


def source_files():
    out = []
    root = os.path.join(REPO, 'capnpy')
    for d, dirs, names in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for n in sorted(names):
            p = os.path.join(d, n)
            if n.endswith(('.so', '.pyc', '.html')):
                continue
            if n.endswith('.c') and _generated_c(p):
                continue
            out.append(os.path.relpath(p, REPO))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    with open(os.path.abspath(__file__), 'rb') as f:
        h.update(f.read())
    for rel in files + ['setup.py']:
        with open(os.path.join(REPO, rel), 'rb') as f:
            data = f.read()
        h.update(rel.encode() + b'\0' + hashlib.sha256(data).digest())
    return h.hexdigest()[:20]


def extension_sources():
    with open(os.path.join(REPO, 'setup.py')) as f:
        tree = ast.parse(f.read())
    for node in ast.walk(tree):
        if isinstance(node, ast.FunctionDef) and node.name == 'get_cython_extensions':
            for st in node.body:
                if isinstance(st, ast.Assign) and st.targets[0].id == 'files':
                    return ast.literal_eval(st.value)
    raise BuildError('cannot find the extension list in setup.py')


# run with VENV python: argv = tree, variant flags..., then sources
_COMPILER = r'''
import sys, os, json, subprocess, sysconfig
from multiprocessing import Pool
root, spec = sys.argv[1], json.loads(sys.argv[2])
os.chdir(root)
from Cython.Build.Dependencies import create_extension_list
from Cython.Compiler.Main import compile as cycompile, CompilationOptions
from Cython.Compiler import Options
from setuptools import Extension
INC = sysconfig.get_paths()['include']
SUF = sysconfig.get_config_var('EXT_SUFFIX')
def translate(src):
    from Cython.Build import cythonize
    name = src.replace('/', '.').replace('.pyx', '').replace('.py', '')
    ext = Extension(name, [src], include_dirs=[os.path.join(root, 'capnpy')])
    r = cythonize([ext], language_level='2', quiet=True, force=True)
    return src, r[0].sources[0]
def cc(job):
    variant, src, c = job
    v = spec['variants'][variant]
    out = os.path.join(v['dir'], src.rsplit('.', 1)[0] + SUF)
    tmp = out + '.tmp'
    p = subprocess.run(['gcc', '-shared', '-fPIC', '-w', '-fno-strict-overflow', '-I', INC,
                        '-I', os.path.join(root, 'capnpy')] + v['flags'] + [c, '-o', tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        return p.stdout.decode(errors='replace')
    os.rename(tmp, out)
    return None
def work(src):
    s, c = translate(src)
    errs = []
    for variant in spec['variants']:
        e = cc((variant, s, c))
        if e: errs.append(e)
    return errs
if __name__ == '__main__':
    order = sorted(spec['sources'], key=lambda s: -os.path.getsize(s))
    with Pool(min(8, os.cpu_count() or 1)) as pool:
        bad = [e for es in pool.imap_unordered(work, order, chunksize=1) for e in es]
    if bad:
        print('\n'.join(bad)); sys.exit(1)
'''

FLAGS = {
    'pyx': ['-O1'],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address'],
}


def _env():
    env = dict(os.environ)
    env.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1',
               PYTHONHASHSEED='0', PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
    env.pop('PYTHONPATH', None)
    return env


def build(variants=('pure', 'pyx')):
    files = source_files()
    key = tree_hash(files)
    base = os.path.join(CACHE, 'build-' + key)
    os.makedirs(CACHE, exist_ok=True)
    result = {v: os.path.join(base, v) for v in variants}
    with open(os.path.join(CACHE, 'lock-' + key), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        todo = [v for v in variants if not os.path.exists(os.path.join(base, v, '.ok'))]
        if not todo:
            return result
        for v in todo:
            shutil.rmtree(result[v], ignore_errors=True)
            for rel in files:
                dst = os.path.join(result[v], rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), dst)
        compiled = [v for v in todo if v != 'pure']
        if compiled:
            import json
            import tempfile
            # the .c files are generated in a tree of their own
            gen = tempfile.mkdtemp(prefix='gen-', dir=base)
            try:
                for rel in files:
                    dst = os.path.join(gen, rel)
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(os.path.join(REPO, rel), dst)
                spec = {'sources': extension_sources(),
                        'variants': {v: {'dir': result[v], 'flags': FLAGS[v]} for v in compiled}}
                script = os.path.join(gen, '_verif_build.py')
                with open(script, 'w') as f:
                    f.write(_COMPILER)
                p = subprocess.run([VENV, script, gen, json.dumps(spec)], env=_env(),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode:
                    raise BuildError(p.stdout.decode(errors='replace')[-4000:])
            finally:
                shutil.rmtree(gen, ignore_errors=True)
        for v in todo:
            open(os.path.join(result[v], '.ok'), 'w').close()
    return result


def prune(keep=6):
    """Drop old cached builds."""
    ds = [os.path.join(CACHE, d) for d in os.listdir(CACHE) if d.startswith('build-')]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    t = time.time()
    print(build(tuple(sys.argv[1:]) or ('pure', 'pyx')), '%.1fs' % (time.time() - t))
    prune()
