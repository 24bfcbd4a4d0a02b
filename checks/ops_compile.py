# C23: the ways of compiling a schema


class WayMod(Mod):
    """others: {basename of an imported file: module}"""

    def __init__(self, mod, L, others):
        Mod.__init__(self, mod, L, None)
        self.others = others

    def cls(self, sid):
        if sid not in self._cls:
            c = self.mod
            for part in self.L['path'][sid]:
                c = self.others[part[1:]] if part.startswith('@') else getattr(c, part)
            self._cls[sid] = c
        return self._cls[sid]


def cw_summary(M, nids):
    """What a module offers, to compare the ways"""
    import inspect
    out = {'module': sorted(n for n in vars(M.mod) if not n.startswith('_')),
           'id': M.mod.__capnpy_id__}
    for nid in nids:
        c = M.cls(nid)
        d = {'name': c.__name__, 'bases': [b.__name__ for b in c.__bases__], 'id': c.__capnpy_id__,
             'dir': sorted(n for n in dir(c) if not n.startswith('_')),
             'doc': c.__doc__ or ''}
        if nid in M.L['enums']:
            d['members'] = list(c.__members__)
        else:
            d['sizes'] = [c.__static_data_size__, c.__static_ptrs_size__]
            try:
                d['init'] = str(inspect.signature(c.__init__))
            except (TypeError, ValueError):
                d['init'] = '?'
        out[nid] = d
    try:
        r = capnpy.get_reflection_data(M.mod)
        out['reflection'] = type(r).__name__
    except Exception as e:
        out['reflection'] = 'none'
    return out


def cw_options(d):
    from capnpy.annotate import Options
    if d is None:
        return None
    return Options.from_dict(d)


def cw_flags(d, pyx):
    """The options as flags of the command line"""
    d = d or {}
    out = [] if pyx else ['--no-pyx']
    if d.get('convert_case') is False:
        out.append('--no-convert-case')
    if 'text_type' in d:
        out.append('--text-type=' + d['text_type'])
    if d.get('version_check') is False:
        out.append('--no-version-check')
    if d.get('include_reflection_data') is False:
        out.append('--no-reflection')
    return out


def cw_sub(args, cwd, path, env=()):
    import subprocess
    e = dict(os.environ, PYTHONPATH=os.pathsep.join(path), CFLAGS='-O0 -w', **dict(env))
    p = subprocess.run([sys.executable] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise Anomaly('%s failed:\n%s' % (args[:3], p.stderr.decode('utf-8', 'replace')[-2500:]))
    return p.stdout.decode('utf-8')


CW_SETUP = r'''
from setuptools import setup
setup(name='foo', version='0.1', packages=[], py_modules=[], capnpy_options=%r, capnpy_schemas=%r)
'''


class CwEnv(object):
    """A scratch directory with the files; sys.path, cwd, temporary directory and
    sys.modules are restored at the end"""

    def __init__(self, spec):
        import tempfile
        self.spec = spec
        self.old = sys.path[:], os.getcwd(), tempfile.tempdir, set(sys.modules), os.environ.get('CFLAGS')
        self.base = tempfile.mkdtemp(prefix='cw')
        os.environ['CFLAGS'] = '-O0 -w'
        for name, text in spec['files'].items():
            p = os.path.join(self.base, name)
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(p, 'w') as f:
                f.write(text)
        self.roots = [os.path.join(self.base, r) for r in spec['roots']]
        for d in self.roots:
            if not os.path.isdir(d):
                os.makedirs(d)
        tmp = os.path.join(self.base, 'tmp')
        os.mkdir(tmp)
        tempfile.tempdir = tmp

    def __enter__(self):
        return self

    def __exit__(self, *a):
        import shutil
        import tempfile
        sys.path[:] = self.old[0]
        os.chdir(self.old[1])
        tempfile.tempdir = self.old[2]
        if self.old[4] is None:
            del os.environ['CFLAGS']
        self.purge()
        shutil.rmtree(self.base, ignore_errors=True)

    def purge(self):
        import importlib
        for n in sorted(set(sys.modules) - self.old[3], reverse=True):      # 'a.b' before 'a'
            f = getattr(sys.modules[n], '__file__', None) or ''
            ps = list(getattr(sys.modules[n], '__path__', ()))
            if f.startswith(self.base) or any(str(p).startswith(self.base) for p in ps):
                del sys.modules[n]
        importlib.invalidate_caches()

    def where(self, name):
        """'pkg/x.capnp' -> the file"""
        for r in self.roots:
            p = os.path.join(r, name)
            if os.path.isfile(p):
                return p
        raise Exception('harness: no %s' % name)


def cw_load(env, c, name, how):
    """Through a dynamic compiler"""
    kw = {'pyx': env.spec['pyx'], 'options': cw_options(env.spec['options'])}
    if how == 'modname':
        return c.load_schema(name[:-6].replace('/', '.'), **kw)
    if how == 'modname=':
        return c.load_schema(modname=name[:-6].replace('/', '.'), **kw)
    if how == 'importname':
        return c.load_schema(importname='/' + name, **kw)
    f = env.where(name)
    if how == 'relative':
        os.chdir(os.path.dirname(f))
        return c.load_schema(filename=os.path.basename(f), **kw)
    if how == 'dots':
        f = os.path.join(os.path.dirname(f), '..', os.path.basename(os.path.dirname(f)), os.path.basename(f))
    if how == 'local':
        import py
        f = py.path.local(f)
    return c.load_schema(filename=f, **kw)


@op
def _cw_way(P, key, L, spec, nids):
    """Compiles spec['main'], and registers the module as key. -> summary"""
    import importlib
    way = spec['way']
    with CwEnv(spec) as env:
        path = spec['extra'] + env.roots
        path = [os.path.join(env.base, x) if x in ('nope', 'zip') else x for x in path]
        open(os.path.join(env.base, 'zip'), 'w').close()
        main, order = spec['main'], spec['order']       # the imported files first
        if way[0] == 'dynamic':
            c = DynamicCompiler(path + [ROOT])
            seen = {}
            steps = [(name, how) for name, how in way[1]]
            for name, how in steps:
                m = cw_load(env, c, name, how)
                if seen.setdefault(name, m) is not m:
                    raise Anomaly('loading %s again (by %s) gives another module' % (name, how))
                os.chdir('/')
            for name in order:
                m = cw_load(env, c, name, 'importname')
                if seen.setdefault(name, m) is not m:
                    raise Anomaly('loading %s again gives another module' % name)
            mods = seen
        elif way[0] == 'global':
            f = env.where(main)
            env.spec = dict(spec)
            m = capnpy.load_schema(f.lstrip('/')[:-6].replace('/', '.'), pyx=spec['pyx'],
                                   options=cw_options(spec['options']))
            if capnpy.load_schema(importname=f, pyx=spec['pyx']) is not m:
                raise Anomaly('load_schema(importname) gives another module')
            if capnpy.load_schema(filename=f, pyx=spec['pyx']) is not m:
                raise Anomaly('load_schema(filename) gives another module')
            mods = {main: m}
        else:
            sys.path[:0] = path
            flags = cw_flags(spec['options'], spec['pyx'])
            files = [env.where(n) for n in order]
            if way[0] == 'cli':
                from capnpy.__main__ import main as cli
                for f in files:
                    cli(['compile', f] + flags)
            elif way[0] == 'cli-sub':
                for f in files:
                    cw_sub(['-m', 'capnpy', 'compile', os.path.basename(f)] + flags, os.path.dirname(f),
                           path + [ROOT])
            elif way[0] == 'capnpify':
                from capnpy import capnpify
                os.chdir(env.roots[0])
                if way[1] == 'glob':
                    for f in files:
                        capnpify(f[:-2] + '*', pyx=spec['pyx'], options=cw_options(spec['options']))
                elif way[1] == 'one':
                    for f in files:
                        capnpify([f], pyx=spec['pyx'], options=cw_options(spec['options']))
                else:
                    capnpify([os.path.relpath(f) for f in files], pyx=spec['pyx'],
                             options=cw_options(spec['options']))
            elif way[0] == 'keywords':
                from capnpy.compiler import distutils as cd

                class Dist(object):
                    ext_modules = None
                    capnpy_options = dict(spec['options'] or {}, pyx=spec['pyx'])
                os.chdir(env.roots[0])
                d = Dist()
                cd.capnpy_options(d, 'capnpy_options', d.capnpy_options)
                cd.capnpy_schemas(d, 'capnpy_schemas', [os.path.relpath(f) for f in files])
                if d.ext_modules:
                    raise Anomaly('there are extension modules in py mode')
            elif way[0] == 'setup':
                with open(os.path.join(env.roots[0], 'setup.py'), 'w') as f:
                    f.write(CW_SETUP % (dict(spec['options'] or {}, pyx=spec['pyx']),
                                        [os.path.relpath(f, env.roots[0]) for f in files]))
                cw_sub(['setup.py', '-q', 'build_ext', '--inplace'], env.roots[0], path + [ROOT])
            else:
                raise Exception('harness: %r' % (way,))
            importlib.invalidate_caches()
            env.purge()
            mods = {}
            for n in (order if way[-1] == 'deps first' else reversed(order)):
                mods[n] = importlib.import_module(n[:-6].replace('/', '.'))
                d = os.path.dirname(env.where(n))
                if os.path.dirname(os.path.abspath(mods[n].__file__)) != os.path.abspath(d):
                    raise Anomaly('%s comes from %s' % (n, mods[n].__file__))
        M = WayMod(mods[main], L, dict((os.path.basename(n), m) for n, m in mods.items()))
        if len(MODS) > 200:
            for k in [k for k in MODS if k.startswith('cw')][:-8]:
                del MODS[k]
        MODS[key] = M
        return M, cw_summary(M, nids)


@op
def _cw_extended(P, key, name, value, obj):
    """What the file x_extended.py adds"""
    M = MODS[key]
    if M.mod.EXTRA != value:
        raise Anomaly('EXTRA is %r' % (M.mod.EXTRA,))
    c = getattr(M.mod, name)
    if c.extra_attr != value or c.__name__ != name:
        raise Anomaly('extra_attr is %r' % (c.extra_attr,))
    if obj.extra_method(value) != [value, obj.shortrepr()]:
        raise Anomaly('extra_method() is wrong')
    return None, None


CW_VERSION = r'''
import sys, json, os
spec = json.loads(sys.stdin.read())
sys.path[:0] = spec['path']
import capnpy
out = []
if capnpy.__version__ != spec['version']:
    print(json.dumps('unsupported')); sys.exit(0)
if spec['compile']:
    from capnpy.__main__ import main
    for f, flags in spec['compile']:
        main(['compile', f] + flags)
else:
    import importlib
    for name in spec['import']:
        for k in range(spec['times']):
            try:
                m = importlib.import_module(name)
                r = ['ok', sorted(n for n in vars(m) if not n.startswith('_')), name in sys.modules]
            except ImportError as e:
                r = ['ImportError', str(e), name in sys.modules]
            except BaseException as e:
                r = ['error', '%s: %s' % (type(e).__name__, e), name in sys.modules]
            out.append(r)
print(json.dumps(out))
'''


@op
def _cw_version(P, steps, files, sos):
    """steps: [{'version', 'compile': [[file, flags]] | 'import': [names]}], each in
    a process where capnpy has that version -> the answers"""
    import shutil
    import subprocess
    spec = {'files': files, 'roots': ['r'], 'pyx': False, 'options': None}
    out = []
    with CwEnv(spec) as env:
        for d, n in sos:
            for x in os.listdir(d):
                if x.endswith('.so'):
                    shutil.copy(os.path.join(d, x), os.path.join(env.base, 'r', x))
        for s in steps:
            fake = os.path.join(env.base, 'fake')
            shutil.rmtree(fake, ignore_errors=True)
            os.makedirs(os.path.join(fake, 'capnpy-%s.dist-info' % s.get('dirname', '1')))
            if s['version'] is not None:
                with open(os.path.join(fake, 'capnpy-%s.dist-info' % s.get('dirname', '1'), 'METADATA'), 'w') as f:
                    f.write('Metadata-Version: 2.1\nName: capnpy\nVersion: %s\n' % s['version'])
            r = env.roots[0]
            q = {'version': s['version'], 'path': [fake, r], 'times': 2,
                 'compile': [[os.path.join(r, f), fl] for f, fl in s.get('compile') or []],
                 'import': s.get('import') or []}
            # a schema which was not recompiled must not be found in a cache of bytecode
            p = subprocess.run([sys.executable, '-B', '-c', CW_VERSION], cwd=r, env=dict(os.environ, PYTHONPATH=ROOT),
                               input=json.dumps(q).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if p.returncode:
                raise Anomaly('step %r failed: %s' % (s, p.stderr.decode('utf-8', 'replace')[-2000:]))
            out.append(json.loads(p.stdout.decode().splitlines()[-1]))
    return None, out


@op
def _cw_recompile(P, first, second, ages, pyx, how):
    """Compiles, changes the file, compiles again: the module is the one of the last
    text. ages: [age of the first output, age of the new input] in seconds"""
    import importlib
    import time
    spec = {'files': {'r/cwr.capnp': first}, 'roots': ['r'], 'pyx': pyx, 'options': None}
    out = []
    with CwEnv(spec) as env:
        os.chdir(env.roots[0])
        sys.path.insert(0, env.roots[0])
        now = time.time()
        for k, text in enumerate([first, second]):
            with open('cwr.capnp', 'w') as f:
                f.write(text)
            if k:
                os.utime('cwr.py', (now - ages[0], now - ages[0]))
                os.utime('cwr.capnp', (now - ages[1], now - ages[1]))
            if how == 'cli':
                from capnpy.__main__ import main as cli
                cli(['compile', 'cwr.capnp', '--no-pyx'])
            else:
                capnpy.capnpify(['cwr.capnp'], pyx=False)
            with open('cwr.py') as f:
                ns = {'__name__': 'cwr'}
                exec(compile(f.read(), 'cwr.py', 'exec'), ns)
            out.append(sorted(n for n in ns if not n.startswith('_')))
    return None, out


@op
def _cw_decode(P, files, main, cls, stream, repeat, flags, sub):
    """capnpy decode -> the lines of the standard output"""
    spec = {'files': files, 'roots': ['r'], 'pyx': False, 'options': None}
    with CwEnv(spec) as env:
        f = os.path.join(env.base, 'stream')
        with open(f, 'wb') as s:
            for k in repeat:
                s.write(dec(stream[k]))
        src = env.where(main)
        if sub:
            out = cw_sub(['-m', 'capnpy', 'decode', f, main[:-6].replace('/', '.'), cls] + flags, '/',
                         env.roots + [ROOT], {'PYTHONIOENCODING': 'utf-8'}.items())
        else:
            from capnpy.__main__ import main as cli
            old = sys.stdout
            sys.stdout = io.StringIO()
            try:
                cli(['decode', f, src.lstrip('/')[:-6].replace('/', '.'), cls] + flags)
                out = sys.stdout.getvalue()
            finally:
                sys.stdout = old
    return None, out
