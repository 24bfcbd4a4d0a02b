"""C25: attributes added with __extend__ belong to the generated class"""
import gen
import wire
from common import *

ID = 'C25'
PLUGINS = ['ops_extend.py', 'ops_pickle.py']
RULE = ('random schemas; histories of: creating objects (built, loaded from random layouts), using their '
        'structs, groups and list items, extending their classes (methods, properties, static and class '
        'methods, attributes; again with the same names), using the old and the new objects; '
        '<schema>_extended.py, also of imported schemas. non-trivial: a class is extended after its '
        'attribute was looked up, or twice, or an object inside of another one is used')
EXAMPLES = {'quick': 4000, 'thorough': 60000}
SECONDS = {'quick': 25, 'thorough': 600}
CFG = dict(groups=16, vgroups=8, keys=20, unions=14, max_structs=4, nest=40)

POOL = [('''
struct Point $Py.key("x, y") { x @0 :Int64; y @1 :Int64; name @2 :Text; }
struct Outer {
  struct Inner { a @0 :UInt8 = 7; p @1 :Point; l @2 :List(Inner); }
  inner @0 :Inner; inners @1 :List(Inner); points @2 :List(Point); p @3 :Point; outer @4 :Outer;
  g :group { p @5 :Point; n @6 :Int8; h :group { t @7 :Text; i @8 :Inner; } }
  union { none @9 :Void; one @10 :Inner; three :group { z @11 :Text; } }
  u :union { x @12 :Int8; y @13 :Point; }
  ll @14 :List(List(Point)); view @15 :Void $Py.group("p, inner");
}
''', {})]
pool = Pool('c25', POOL, CFG)
prepare = pool.prepare

KINDS = ['method', 'method', 'prop', 'static', 'class', 'lambda', 'attr']
NAMES = ['ma', 'mb', 'mc']
SPECIAL = ['__len__', '__call__', '__iter__', '__contains__', '__getitem__', '__add__', '__radd__', '__neg__',
           '__bool__', '__next__', '__matmul__', '__index__', '__enter__', '__bytes__', '__round__']


def members(g, names):
    out = {}
    for n in names:
        if g.chance(60):
            out[n] = [g.pick(KINDS), g.int(0, 99)]
    return out or {names[0]: ['method', g.int(0, 99)]}


def body(cls, mem):
    src = ['@%s.__extend__' % cls, 'class %s:' % cls.split('.')[-1]]
    for name, (kind, k) in sorted(mem.items()):
        src += {'method': ['    def %s(self, a=5, *args): return (%d, self, a) + args' % (name, k)],
                'lambda': ['    %s = lambda self: (%d, self)' % (name, k)],
                'prop': ['    @property', '    def %s(self): return (%d, self)' % (name, k)],
                'static': ['    @staticmethod', '    def %s(a): return (%d, a)' % (name, k)],
                'class': ['    @classmethod', '    def %s(cls, a): return (%d, cls, a)' % (name, k)],
                'attr': ['    %s = [%d]' % (name, k)]}[kind]
    return '\n'.join(src) + '\n'


def make(g, tier):
    if not g.chance(55):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if not g.chance(25) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
        L = layout_of(case)
        if g.chance(60):
            # the extension comes from a file
            fx = {}
            for sid in gen.plain_structs(L):
                if g.chance(60):
                    fx[L['structs'][sid]['name']] = members(g, ['fa', 'fb'])
            case['fx'] = fx
            case['imported'] = not (case.get('kw') or {}).get('options') and g.chance(50)
            if case['imported']:
                case['top'] = L['structs'][g.pick(gen.plain_structs(L))]['name']
    L = layout_of(case)
    steps, objs = [], []
    for k in range(g.int(3, 8)):
        how = g.pick(['obj', 'use', 'use', 'extend']) if objs else 'obj'
        if how == 'obj':
            sid = g.pick(gen.plain_structs(L))
            ctor = gen.ctorable(L, sid) and g.chance(40)
            v = gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=16).struct(sid)
            o = {'s': L['structs'][sid]['name'], 'v': v, 'ctor': ctor}
            if not ctor:
                o['plan'] = gen.gen_plan(g)
            objs.append(o)
            steps.append(['obj', o])
        else:
            n = g.int(0, len(objs) - 1)
            paths = struct_paths(L, L['byname'][objs[n]['s']], complete(L, L['byname'][objs[n]['s']], objs[n]['v']))
            p = g.int(0, len(paths) - 1)
            if how == 'use':
                steps.append(['use', n, p, g.pick([1, 1, 3, 20]), g.pick(['', '', '', 'pickle', 'copy', 'raw'])])
            else:
                if g.chance(70):
                    steps.append(['use', n, p, g.pick([1, 3, 20]), ''])
                steps.append(['extend', n, p, members(g, NAMES)])
                if g.chance(50):
                    steps.append(['use', n, p, g.pick([1, 3, 20]), ''])
    if g.chance(40):
        steps.append(['special', g.int(0, len(objs) - 1), g.int(0, 5), g.pick(SPECIAL)])
    case['steps'] = steps
    return case


def top_names(L):
    return sorted(x[0] for x in L['path'].values() if len(x) == 1)


def schema_of(ctx, case, config):
    """-> Schema, {struct name: members of the file}"""
    if 'fx' not in case:
        return sch(ctx, case, config), {}
    files = dict(case['files'])
    L = layout_of(case)
    seen = top_names(L)
    src = 'ext_seen = sorted(x for x in %r if x in globals())\n' % (seen,)
    src += 'def ext_helper(x): return x, ext_seen\n'
    for name, mem in sorted(case['fx'].items()):
        src += body('.'.join(L['path'][L['byname'][name]]), mem)
    files['sch_extended.py'] = src
    kw = dict(case.get('kw') or {})
    if case['imported']:
        # every struct is a field, because capnp leaves out the types which are not used
        names = sorted(L['structs'][i]['name'] for i in gen.plain_structs(L))
        files['top.capnp'] = ('@0xd1a2b3c4d5e6f7aa;\nusing S = import "/sch.capnp";\n'
                              'struct Top25 { one @0 :S.%s; many @1 :List(S.%s); %s }\n' % (
                                  case['top'], case['top'],
                                  ' '.join('x%d @%d :S.%s;' % (i, i + 2, n) for i, n in enumerate(names))))
        files['top_extended.py'] = ("ext_seen = sorted(x for x in ['Top25'] if x in globals())\n"
                                    'def ext_helper(x): return x, ext_seen\n')
        kw['main'] = 'top.capnp'
    return ctx.schema(files, **kw), case['fx']


def run(case, ctx):
    config = case['configs'][0]
    S, fx = schema_of(ctx, case, config)
    L = S.L
    ctx.load(config, S)
    labels = {'config ' + config}
    prog, objs, todo = [], [], []

    def add(*o):
        prog.append(list(o))
        return len(prog) - 1
    if 'fx' in case:
        labels.add('_extended.py')
        seen = top_names(layout_of(case))
        if case['imported']:
            labels.add('imported')
            add('ext_file_globals', S.key, '', ['Top25'])
            add('ext_file_globals', S.key, 'sch.capnp', seen)
        else:
            add('ext_file_globals', S.key, '', seen)
    used, extended = set(), {}
    byname = dict((L['structs'][i]['name'], i) for i in L['path'] if i in L['structs'])
    for st in case['steps']:
        if st[0] == 'obj':
            o = st[1]
            sid = byname[o['s']]
            if o['ctor']:
                r = add('build', S.key, sid, o['v'], {})
            else:
                r = add('loads', S.key, sid,
                        wire.frame(wire.Encoder(L, o['plan']).encode(sid, o['v'])).decode('latin-1'))
            v = complete(L, sid, o['v'])
            if case.get('imported') and o['s'] == case['top'] and o['ctor']:
                t = add('ext_top', S.key, S.id('Top25'), {'$': r})
                r = add('path', {'$': t}, ['one'] if len(objs) % 2 else ['many', 1])
                labels.add('imported object')
            objs.append((r, sid, v, struct_paths(L, sid, v)))
            todo.append((add('observe', S.key, sid, {'$': r}), v, o['s']))
            continue
        r, sid, v, paths = objs[st[1]]
        path, psid, pv = paths[st[2] % len(paths)]
        sub = add('path', {'$': r}, path) if path else r
        if st[0] == 'special':
            add('ext_special', {'$': sub}, st[3])
            labels.add('special')
            continue
        if st[0] == 'use':
            if st[4]:
                sub = add('restore', S.key, {'$': sub}, st[4], 2)
                labels.add(st[4])
            if L['structs'][psid]['name'] in fx and psid in L['path']:
                add('ext_file_check', {'$': sub}, fx[L['structs'][psid]['name']])
            add('ext_check', {'$': sub}, NAMES, st[3])
            if path and (psid in extended or psid in L['path'] and L['structs'][psid]['name'] in fx):
                labels |= {'nt', 'inner object'}
            used.add(psid)
        else:
            if psid in used:
                labels |= {'nt', 'extended after use'}
            if psid in extended:
                labels.add('extended again')
            if L['structs'][psid]['group']:
                labels.add('group')
            extended[psid] = True
            add('extend', {'$': sub}, st[3], NAMES)
    for r, sid, v, paths in objs:
        todo.append((add('observe', S.key, sid, {'$': r}), v, 'at the end: ' + L['structs'][sid]['name']))
    res = ctx.run(config, prog)
    for i, a in enumerate(res):
        val(a, '%s %s' % (prog[i][0], str(prog[i][1:])[:300]), config)
    for i, v, w in todo:
        expect_same(res[i]['v'], v, w, config)
    for i, o in enumerate(prog):
        if o[0] == 'ext_special':
            labels.add('special ' + str(res[i]['v']))
    return labels


def nontrivial(labels):
    return 'nt' in labels
