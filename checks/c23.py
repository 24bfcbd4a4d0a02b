"""C23: all the ways of compiling a schema give the same module"""
import re

import hypothesis

import c17
import gen
import layout
import build as B
import pyxpool
import wire
from common import *
from driver import RandG

ID = 'C23'
PLUGINS = ['ops_compile.py']
RULE = ('random schemas in packages and several directories of the search path, importing each other, with '
        'options and annotations, x ways of compiling (load_schema by module, import and file name, in any order and '
        'repeated; command line; capnpify() and the setuptools keywords; in process and in a process of their own; '
        'py and pyx mode): equal classes, same bytes written and same values read, same module when loaded '
        'again. Pairs of near versions x --no-version-check. Streams of 0 to 20001 messages through decode. '
        'non-trivial: at least three ways compared, or different versions, or at least 2 messages')
EXAMPLES = {'quick': 700, 'thorough': 15000}
SECONDS = {'quick': 30, 'thorough': 900}
LEVEL = 'exploration'
HANG = 150

DYN = ['modname', 'modname=', 'importname', 'filename', 'relative', 'dots', 'local']


def place(g, files, pyx):
    """Puts the files in packages and roots -> spec without the way"""
    names = sorted(files, key=['sch.capnp', 'other.capnp', 'dir_two.capnp'].index)
    dirs = {n: g.pick(['', 'cwp/', 'cwp/sub/', 'cwother/']) for n in names}
    new = {}
    for n in names:
        t = files[n]
        for m in names:
            t = t.replace('import "/%s"' % m, 'import "/%s%s"' % (dirs[m], m))
        new[dirs[n] + n] = t
    roots = ['r'] if pyx or g.chance(60) else ['r', g.pick(['r2', 'r 2', 'x/y'])]
    tree, order = {}, [dirs[n] + n for n in reversed(names)]
    for n in order:
        k = g.int(0, len(roots) - 1)
        tree[roots[k] + '/' + n] = new[n]
        for r in roots[k + 1:]:
            if g.chance(60):        # a file which is not to be used
                tree[r + '/' + n] = '@0xd1a2b3c4d5e6f7ff;\nstruct Decoy { a @0 :Int8; }\n'
    if len(roots) == 1 and (pyx or g.chance(50)):      # distutils wants packages
        for d in ('cwp', 'cwp/sub', 'cwother'):
            if any(x.startswith('r/%s/' % d) for x in tree):
                tree['r/%s/__init__.py' % d] = ''
    return {'files': tree, 'roots': roots, 'main': order[-1], 'order': order,
            'extra': [x for x in ('nope', 'zip') if g.chance(20)]}


def ways(g, n, spec, nfiles):
    single = len(spec['roots']) == 1
    out = [['dynamic', [[spec['main'], g.pick(DYN)]]]]
    pool = ['dynamic', 'dynamic', 'cli', 'cli', 'capnpify', 'keywords', 'keywords']
    if nfiles == 1 and ' ' not in spec['roots'][-1]:
        pool.append('global')
    if single:
        pool += ['setup']
    if g.chance(35):
        pool += ['cli-sub']
    for _ in range(n):
        w = g.pick(pool)
        if w == 'dynamic':
            steps = [[g.pick(spec['order']), g.pick(DYN)] for _ in range(g.int(1, 5))]
            out.append(['dynamic', steps])
        elif w == 'capnpify':
            out.append([w, g.pick(['glob', 'one', 'list']), g.pick(['deps first', 'main first'])])
        else:
            out.append([w, g.pick(['deps first', 'main first'])])
    return out


def opts_dict(g, kw):
    """The options of the schema, plus those which do not change its names"""
    o = dict(kw.get('options') or {})
    if g.chance(25):
        o['include_reflection_data'] = g.chance(30)
    if g.chance(25):
        o['version_check'] = g.chance(30)
    if g.chance(20):
        o.setdefault('convert_case', True)
    if g.chance(20):
        o.setdefault('text_type', 'bytes')
    return o or (None if g.chance(50) else {})


def make_ways(g, tier, pyx=False):
    files, kw, consts, levels = c17.gen_text(g, one=pyx)
    c17.check_domain(files, layout_of({'files': files, 'kw': kw}))
    spec = place(g, files, pyx)
    spec['options'] = opts_dict(g, kw) if len(files) == 1 else None
    spec['pyx'] = pyx
    case = {'t': 'ways', 'spec': spec, 'kw': {k: v for k, v in kw.items() if k != 'options'}}
    L = lay(case)
    if pyx:
        case['ways'] = [['dynamic', [[spec['main'], g.pick(DYN)], [spec['main'], g.pick(DYN)]]],
                        g.pick([['cli', 'deps first'], ['cli-sub', 'deps first']]), ['setup', 'deps first']]
        case['config'] = 'pyx'
    else:
        case['ways'] = ways(g, g.pick([2, 2, 3, 4]), spec, len(files))
        case['config'] = g.weighted([('pure', 6), ('pyx', 4), ('pypy', 1)])
    if case['config'] == 'pypy':
        case['ways'] = [w for w in case['ways'] if w[0] not in ('setup', 'cli-sub')]
    objs = []
    for k in range(g.int(1, 2)):
        sid = g.pick(gen.plain_structs(L))
        ctor = gen.ctorable(L, sid) and g.chance(60)
        vg = gen.ValueGen(g, L, ctor=ctor, full=g.chance(50) or not ctor, budget=15)
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor, 'v': vg.struct(sid)}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
        objs.append(o)
    case['objs'] = objs
    ext = [sid for sid in gen.plain_structs(L) if '.' not in L['structs'][sid]['name'] and gen.ctorable(L, sid)
           and not any(f['py'] in ('extra_attr', 'extra_method') for f in L['structs'][sid]['fields'])]
    if ext and g.chance(30):
        name = L['structs'][g.pick(ext)]['name']
        if not layout.keyword_safe(name) == name:
            return case
        case['extended'] = [name, g.int(1, 99)]
        main = [x for x in spec['files'] if x.endswith('/' + spec['main']) and 'Decoy' not in spec['files'][x]][0]
        spec['files'][main[:-6] + '_extended.py'] = (
            'EXTRA = %d\n@%s.__extend__\nclass %s:\n    extra_attr = EXTRA\n'
            '    def extra_method(self, x):\n        return [x, self.shortrepr()]\n'
            % (case['extended'][1], name, name))
    return case


def tree(case):
    """{name from the search path: text}, without what is not found"""
    spec = case['spec']
    out = {}
    for n in spec['order']:
        for r in spec['roots']:
            if r + '/' + n in spec['files']:
                out[n] = spec['files'][r + '/' + n]
                break
    return out


def lay(case):
    return layout_of({'files': tree(case), 'kw': dict(case['kw'], main=case['spec']['main'])})


NEAR = ['0.8.7', '0.10.2.dev5+g61130cf', '1.0', '1.0.0', '0.9', 'unknown', '2.0rc1', '0.0.0', '10.2', '1.0.dev0+dirty']


def near(g, v):
    """A version which looks like v"""
    k = g.int(0, 9)
    if k == 0:
        return v + g.pick(['.0', '0', '1', '.dev0', '+g1', 'a', '-1', '.post1', 'rc1'])
    if k == 1 and len(v) > 1:
        return v[:-1].rstrip('.+') or '1'
    if k == 2:
        i = g.int(0, len(v) - 1)
        return v[:i] + g.pick('0123456789') + v[i + 1:]
    if k == 3:
        return 'v' + v
    if k == 4:
        return v.upper()
    if k == 5:
        return v.replace('.', '-')
    if k == 6:
        return v.split('+')[0].split('.dev')[0]
    if k == 7:
        return '.'.join(reversed(v.split('.')))
    if k == 8:
        return g.pick(NEAR)
    return '0' + v


def make_version(g, tier):
    v1 = g.pick(NEAR)
    v2 = v1 if g.chance(20) else near(g, v1)
    flags = [['--no-version-check'] if g.chance(50) else [] for _ in range(3)]
    for f in flags:
        f.append('--no-pyx')
        if g.chance(30):
            f.append('--no-reflection')
    return {'t': 'version', 'v1': v1, 'v2': v2, 'flags': flags, 'dirs': [g.pick(['', 'cwp/', 'cwp/sub/']) for _ in range(3)],
            'config': g.pick(['pure', 'pyx']), 'recompile': g.chance(40), 'pyx': False}


def make_recompile(g, tier):
    a = g.pick([1, 2, 60, 3600, 100000])
    b = g.pick([0, 1, 2, 60, 3600, 100000])
    how = g.pick(['cli', 'capnpify'])
    if how == 'capnpify' and b > a:
        b = a           # the file was changed before it was compiled?
    return {'t': 'recompile', 'ages': [a, b], 'how': how, 'config': g.pick(['pure', 'pyx'])}


def make_decode(g, tier):
    files, kw, consts, levels = c17.gen_text(g, one=True)
    L = layout_of({'files': files, 'kw': kw})
    c17.check_domain(files, L)
    tops = [sid for sid in gen.plain_structs(L) if '.' not in L['structs'][sid]['name'] and L['structs'][sid]['fields']]
    if not tops:
        raise hypothesis.errors.UnsatisfiedAssumption()
    sid = g.pick(tops)
    msgs = []
    for k in range(g.int(1, 4)):
        vg = gen.ValueGen(g, L, full=True, budget=15)
        msgs.append([vg.struct(sid), gen.gen_plan(g)])
    n = g.weighted([(0, 1), (1, 2), (2, 2), (g.int(3, 30), 5), (g.int(30, 400), 2)])
    return {'t': 'decode', 'files': files, 'kw': kw, 's': L['structs'][sid]['name'], 'msgs': msgs, 'n': n,
            'dir': g.pick(['', 'cwp/', 'cwp/sub/']), 'sub': g.chance(12), 'config': g.pick(['pure', 'pyx', 'pyx'])}


def make(g, tier):
    k = g.int(0, 99)
    if k < 68:
        return make_ways(g, tier)
    if k < 76:
        return make_version(g, tier)
    if k < 80:
        return make_recompile(g, tier)
    return make_decode(g, tier)


def directed(tier):
    seed = int(os.environ.get('VERIF_SEED', '1'))
    out = []
    # streams longer than what is reported at once
    text = '@0xd1a2b3c4d5e6f708;\nstruct S { a @0 :Int8; t @1 :Text; }\n'
    for n in (0, 1, 9999, 10000, 10001, 20001):
        out.append({'t': 'decode', 'files': {'sch.capnp': text}, 'kw': {}, 's': 'S', 'n': n, 'dir': '', 'sub': n == 10000,
                    'msgs': [[{'a': i, 't': x}, {'seed': i}] for i, x in enumerate(['', 'a\nb\r\n"c"\\', 'x' * 300])],
                    'config': 'pyx'})
    # pyx mode
    k = 0
    for i in range({'quick': 4, 'thorough': 40}[tier]):
        while True:
            k += 1
            try:
                case = make_ways(RandG('c23-%d-%d' % (seed, k)), tier, pyx=True)
            except hypothesis.errors.UnsatisfiedAssumption:
                continue
            break
        if i % 2 == 0:
            case['ways'] = case['ways'][:2]
        else:
            case['ways'] = case['ways'][::2]
        out.append(case)
    # the same base name in several directories, in pyx mode, and in the same process
    files = {}
    for i, d in enumerate(['', 'cwp/', 'cwp/sub/']):
        files['r/%spoint.capnp' % d] = ('@0xd1a2b3c4d5e6f7%02x;\n%sstruct P%d { x @0 :Int%d; %s}\n'
                                        % (16 + i, 'using I = import "/%spoint.capnp";\n' % ['', '', 'cwp/'][i] if i else '',
                                           i, 8 << i, 'q @1 :I.P%d; ' % (i - 1) if i else ''))
    out.append({'t': 'same', 'files': files, 'order': ['point.capnp', 'cwp/point.capnp', 'cwp/sub/point.capnp'],
                'config': 'pyx', 'pyx': True})
    out.append({'t': 'same', 'files': files, 'order': ['cwp/sub/point.capnp', 'cwp/point.capnp', 'point.capnp'],
                'config': 'pyx', 'pyx': False})
    out.append({'t': 'version', 'v1': None, 'v2': '0.8.7.dev0', 'flags': [[], ['--no-version-check'], []],
                'dirs': ['', '', ''], 'config': 'pyx', 'recompile': False, 'pyx': True})
    return out


def run(case, ctx):
    return globals()['run_' + case['t']](case, ctx)


def run_ways(case, ctx):
    config, spec = case['config'], case['spec']
    S = ctx.schema(tree(case), main=spec['main'], **{k: v for k, v in case['kw'].items()})
    L = S.L
    if not S.L['file']:
        raise Skip('no file')
    labels = set(['config %s' % config, '%d ways' % len(case['ways']), 'pyx mode' if spec['pyx'] else 'py mode',
                  '%d files' % len(spec['order'])])
    main = os.path.basename(spec['main'])
    nids = [n for n in sorted(L['path']) if os.path.basename(L['nodes'][n]['display'].split(':')[0]) == main]
    WL = S.spec['L']
    prog, what, group = [], [], []

    def add(p, w):
        prog.append(p)
        what.append(w)
        return len(prog) - 1
    regs = []
    for k, way in enumerate(case['ways']):
        labels.add('way ' + way[0])
        key = 'cw-%d' % k
        w = ' '.join(str(x) for x in way)[:200]
        a = {'summary': add(['cw_way', key, WL, dict(spec, way=way), nids], 'compiling by ' + w), 'w': w, 'obs': [], 'dump': []}
        for o in case['objs']:
            sid = S.id(o['s'])
            if o['ctor']:
                reg = add(['build', key, sid, o['v'], {}], '%s: constructor of %s' % (w, o['s']))
                a['dump'].append((add(['dumps', {'$': reg}, True], '%s: dumps of %s' % (w, o['s'])), o['s']))
            else:
                msg = wire.frame(wire.Encoder(L, o['plan']).encode(sid, o['v']))
                reg = add(['loads', key, sid, msg.decode('latin-1')], '%s: loads of %s' % (w, o['s']))
            a['obs'].append((add(['observe', key, sid, {'$': reg}], '%s: reading %s' % (w, o['s'])), complete(L, sid, o['v']), o['s']))
        if case.get('extended'):
            labels.add('extended')
            name, n = case['extended']
            reg = add(['build', key, S.id(name), {}, {}], '%s: constructor of %s' % (w, name))
            add(['cw_extended', key, name, n, {'$': reg}], '%s: extension of %s' % (w, name))
        regs.append(a)
    r = ctx.run(config, prog)
    if any('dep' not in x and 'exc' in x and x['exc'][0] == 'OSError' for x in r):
        raise Skip('OSError')
    for i, x in enumerate(r):
        if 'exc' in x:
            val(x, what[i], config)
    first = None
    for a in regs:
        v = val(r[a['summary']], a['w'], config)
        if first is None:
            first = v
        elif v != first:
            raise Violation('[%s] the modules differ between %s and %s: %s'
                            % (config, regs[0]['w'], a['w'], diff(first, v) or (first, v)))
        for i, v, s in a['obs']:
            expect_same(val(r[i], what[i], config), v, 'values of %s by %s' % (s, a['w']), config)
        for (i, s), (j, _) in zip(a['dump'], regs[0]['dump']):
            if val(r[i], what[i], config) != val(r[j], what[j], config):
                raise Violation('[%s] %s: the bytes differ between %s and %s' % (config, s, regs[0]['w'], a['w']))
    if len(set(w[0] for w in case['ways'])) > 1 or len(case['ways']) >= 3:
        labels.add('nt')
    return labels


def run_same(case, ctx):
    """Files with the same base name"""
    spec = {'files': case['files'], 'roots': ['r'], 'pyx': case['pyx'], 'options': None, 'extra': []}
    prog = []
    L = {'structs': {}, 'enums': {}, 'path': {}, 'byname': {}, 'consts': {}}
    ways = [['dynamic', [[n, 'importname'] for n in case['order']]], ['cli', 'deps first']]
    r = []
    for way in ways:
        for main in case['order'] if not case['pyx'] else case['order'][-1:]:
            order = ['point.capnp', 'cwp/point.capnp', 'cwp/sub/point.capnp']
            prog.append(['cw_way', 'cw-%d' % len(prog), L, dict(spec, way=way, main=main, order=order), []])
            r.append(main)
    for main, x in zip(r, ctx.run(case['config'], prog)):
        v = val(x, 'files with the same base name', case['config'])
        want = 'P%d' % ['point.capnp', 'cwp/point.capnp', 'cwp/sub/point.capnp'].index(main)
        if [n for n in v['module'] if re.match(r'P\d$', n)] != [want]:
            raise Violation('[%s] %s holds %r' % (case['config'], main, v['module']))
    return ['same base name', 'nt']


def run_version(case, ctx):
    config = case['config']
    labels = set(['version', 'config ' + config])
    names = ['cwa', 'cwb', 'cwmain']
    paths = [d + n for d, n in zip(case['dirs'], names)]
    files = {'r/%s.capnp' % paths[0]: '@0xd1a2b3c4d5e6f711;\nstruct A { x @0 :Int8; }\n',
             'r/%s.capnp' % paths[1]: '@0xd1a2b3c4d5e6f712;\nstruct B { y @0 :Int8; }\n',
             'r/%s.capnp' % paths[2]: '@0xd1a2b3c4d5e6f713;\nusing I = import "/%s.capnp";\nstruct M { a @0 :I.A; }\n' % paths[0]}
    mods = [p.replace('/', '.') for p in paths]
    v1, v2 = case['v1'], case['v2']
    comp = [[p + '.capnp', f] for p, f in zip(paths, case['flags'])]
    if case['pyx']:
        return run_version_pyx(case, ctx)
    steps = [{'version': v1, 'compile': comp}, {'version': v2, 'import': mods}, {'version': v1, 'import': mods}]
    if case['recompile']:
        steps += [{'version': v2, 'compile': comp[:2]}, {'version': v2, 'import': mods}]
    r = val(ctx.run(config, [['cw_version', steps, files, []]])[0], 'version check', config)
    if 'unsupported' in r:
        raise Skip('cannot change the version')

    check = ['--no-version-check' not in f for f in case['flags']]

    def expect(step, versions, now):
        for i, m in enumerate(mods):
            bad = [k for k in ([i] if i < 2 else [2, 0]) if check[k] and versions[k] != now]
            for got in r[step][2 * i:2 * i + 2]:
                if bad and (got[0] != 'ImportError' or got[2]):
                    raise Violation('[%s] %s compiled with capnpy %r is imported by %r: %r' % (config, m, versions[i], now, got))
                if not bad and (got[0] != 'ok' or got[1] != ['ABM'[i]] or not got[2]):
                    raise Violation('[%s] %s compiled with capnpy %r (flags %r) cannot be imported by %r: %r'
                                    % (config, m, versions[i], case['flags'][i], now, got))
            if bad:
                labels.add('refused')
    expect(1, [v1] * 3, v2)
    expect(2, [v1] * 3, v1)
    if case['recompile']:
        expect(4, [v2, v2, v1], v2)
        labels.add('recompiled')
    if v1 != v2:
        labels.add('nt')
    return labels


PYXV = [['@0xd1a2b3c4d5e6f70%d;\nstruct S%d { x @0 :Int8; }\n' % (i, i), i] for i in (1,)]


def run_version_pyx(case, ctx):
    texts = [t for t, i in PYXV]
    pyxpool.compile_all(texts)
    names = [pyxpool.name_of(t) for t in texts]
    sos = [[os.path.join(pyxpool.pool_dir(), n), n] for n in names]
    real = __import__('subprocess').run([B.VENV, '-c', 'import capnpy; print(capnpy.__version__)'], env=dict(B._env(), PYTHONPATH=B.build(('pyx',))['pyx']),
                                        stdout=-1).stdout.decode().strip()
    v2s = [case['v2'], real + '.1', real[:-1] + '0']
    steps = [{'version': v, 'import': names} for v in v2s] + [{'version': real, 'import': names}]
    r = val(ctx.run('pyx', [['cw_version', steps, {'r/x': ''}, sos]])[0], 'version check', 'pyx')
    if 'unsupported' in r:
        raise Skip('cannot change the version')
    for v, got in zip(v2s + [real], r):
        for x in got:
            if v != real and (x[0] != 'ImportError' or x[2]):
                raise Violation('[pyxmode] a module compiled by capnpy %r is imported by %r: %r' % (real, v, x))
            if v == real and x[0] != 'ok':
                raise Violation('[pyxmode] a module compiled by capnpy %r is not imported: %r' % (real, x))
    return ['version', 'refused', 'pyx mode', 'nt']


def run_recompile(case, ctx):
    config = case['config']
    t = ['@0xd1a2b3c4d5e6f711;\nstruct Old { x @0 :Int8; }\n', '@0xd1a2b3c4d5e6f711;\nstruct New { x @0 :Int8; }\n']
    r = val(ctx.run(config, [['cw_recompile', t[0], t[1], case['ages'], False, case['how']]])[0], 'recompile', config)
    if r != [['Old'], ['New']]:
        raise Violation('[%s] compiling again by %s (ages %r) gives %r' % (config, case['how'], case['ages'], r))
    return ['recompile', 'nt', 'way ' + case['how']]


def run_decode(case, ctx):
    config = case['config']
    S = sch(ctx, case, config)
    ctx.load(config, S)
    L = S.L
    sid = S.id(case['s'])
    stream = [wire.frame(wire.Encoder(L, p).encode(sid, v)).decode('latin-1') for v, p in case['msgs']]
    o = case['kw'].get('options') or {}
    flags = ['--no-pyx']
    if o.get('convert_case') is False:
        flags.append('--no-convert-case')
    if 'text_type' in o:
        flags.append('--text-type=' + o['text_type'])
    repeat = [i % len(stream) for i in range(case['n'])]
    prog = []
    for m in stream:
        prog.append(['loads', S.key, sid, m])
        prog.append(['shortrepr', {'$': len(prog) - 1}])
    prog.append(['cw_decode', {'r/%ssch.capnp' % case['dir']: case['files']['sch.capnp']}, case['dir'] + 'sch.capnp',
                 layout.keyword_safe(case['s']), stream, repeat, flags, case['sub']])
    r = ctx.run(config, prog)
    want = [val(r[2 * i + 1], 'shortrepr()', config) for i in range(len(stream))]
    out = val(r[-1], 'capnpy decode', config)
    want = ''.join(want[i] + '\n' for i in repeat)
    if out != want or out.count('\n') != case['n']:
        a, b = out.split('\n'), want.split('\n')
        k = [i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1]]
        raise Violation('[%s] decode printed %d lines for %d messages; the first wrong is %r: %r instead of %r'
                        % (config, out.count('\n'), case['n'], k[:1], a[k[0]:k[0] + 1] if k else '', b[k[0]:k[0] + 1] if k else ''))
    labels = ['decode', 'config ' + config]
    if case['n'] > 1:
        labels.append('nt')
    if case['sub']:
        labels.append('way process')
    return labels
