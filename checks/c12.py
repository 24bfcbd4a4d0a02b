"""C12: groups, nullable groups and virtual groups are views of their fields"""
import gen
import wire
from common import *

ID = 'C12'
PLUGINS = ['ops_group.py']
RULE = ('random schemas rich in groups (nested, inside unions, nullable with several types of flag and '
        'defaults, virtual), objects built by constructors and loaded from random layouts: every group '
        'attribute against the fields of the message, group constructors with random subsets of '
        'keywords and positional arguments against the tuple with the defaults. non-trivial: at least '
        'two groups (or one nullable or virtual) with a value')
EXAMPLES = {'quick': 5000, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=30, nullable=18, vgroups=45, unions=16, max_fields=6, depth=3, max_structs=2)

POOL = [('''
enum Color { red @0; green @1; blue @2; }
struct Point {
  position :group { x @0 :Int64; y @1 :Int64 = -7; name @9 :Text; deep :group { a @10 :UInt8 = 3; t @11 :Text; } }
  color @2 :Text;
  n :group $Py.nullable { isNull @3 :Int8; value @4 :Int64; }
  def :group $Py.nullable { isNull @5 :Bool = true; value @6 :Float64 = 2.5; }
  point :group $Py.nullable { isNull @7 :UInt8; value :group { x @8 :Int32; y @12 :Int32 = 42; } }
  col :group $Py.nullable { isNull @13 :Bool; value @14 :Color = green; }
  flat @15 :Void $Py.group("fx, fy, txt"); fx @16 :Int16 = 100; fy @17 :Bool; txt @18 :Text;
  other @19 :Void $Py.group("txt,sub , items"); sub @20 :Point; items @21 :List(Int32);
}
struct Shape {
  area @0 :Float64;
  union {
    circle @1 :Float64;
    rect :group { w @2 :UInt16; h @3 :UInt16 = 9; nul :group $Py.nullable { isNull @4 :Bool; value @5 :Int8 = -1; } }
    none @6 :Void;
  }
  style :union { plain @7 :Void; colored :group { r @8 :UInt8; g @9 :UInt8 = 5; label @10 :Text; } }
  box :group { u :union { a @11 :Int8; b :group { c @12 :Text; d @13 :Int64 = 1; } } z @14 :Int8; }
}
''', {}), ('''
$Py.options(textType=unicode, convertCase=false);
struct Big {
  aGroup :group { theText @0 :Text; aNumber @1 :Int32 = 5; inner :group { anotherText @2 :Text; flagOne @3 :Bool = true; } }
  aNull :group $Py.nullable { isNull @4 :UInt64; value @5 :UInt64 = 18446744073709551615; }
  view @6 :Void $Py.group("oneText, twoData"); oneText @7 :Text; twoData @8 :Data;
}
''', {'unicode_': True, 'convert': False})]

pool = Pool('c12', POOL, CFG)
prepare = pool.prepare

DOC = '''@0xd1a2b3c4d5e6f708;
using Py = import "/capnpy/annotate.capnp";
struct Node { seg :group $Py.nullable { isNull @0 :Int8; value @1 :Int64; } }
'''


def findings():
    return [('nullable-group-called-seg', {
        'files': {'sch.capnp': DOC}, 'kw': {}, 'configs': ['pyx'], 'ctors': [],
        'objs': [{'s': 'Node', 'v': {'seg': {'isNull': 0, 'value': 5}}, 'ctor': False, 'plan': {}}]})]


def group_paths(L, sid, out, path=(), union=False):
    for f in L['structs'][sid]['fields']:
        if f['kind'] == 'group' and not f.get('nullable'):
            p = path + (f['name'],)
            out.append((p, f['gid']))
            if f['disc'] is None:
                group_paths(L, f['gid'], out, p)
        elif f.get('vgroup'):
            out.append((path + (f['name'],), f['vgroup']))
    return out


def path_is_virtual(L, sid, path):
    for n in path:
        f = [f for f in L['structs'][sid]['fields'] if f['name'] == n][0]
        sid = f.get('gid')
    return bool(f.get('vgroup'))


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    roots = [s for s in gen.plain_structs(L) if any(
        f['kind'] == 'group' or f.get('vgroup') for f in L['structs'][s]['fields'])] or gen.plain_structs(L)
    objs, ctors = [], []
    for k in range(g.int(1, 3)):
        sid = g.pick(roots)
        ctor = gen.ctorable(L, sid) and g.chance(60)
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor,
             'v': gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=12, nul=g.chance(10)).struct(sid)}
        if ctor:
            o['style'] = {'pos': g.chance(30), 'new': g.chance(30)}
        else:
            o['plan'] = gen.gen_plan(g)
        objs.append(o)
        paths = group_paths(L, sid, [])
        for _ in range(2):
            if paths and gen.ctorable(L, sid):
                p, gid = g.pick(paths)
                ctors.append({'obj': k, 'path': list(p), 'npos': g.int(0, 3),
                              'v': gen.ValueGen(g, L, budget=4, omit=45).struct(gid)})
    case['objs'], case['ctors'] = objs, ctors
    return case


def views(L, sid, v, out, where=''):
    s = L['structs'][sid]
    for f in s['fields']:
        w = '%s.%s' % (where, f['name'])
        if f.get('vgroup'):
            out[w] = dict((x['name'], v[x['name']]) for x in L['structs'][f['vgroup']]['fields'])
        elif f['kind'] == 'group' and f['name'] in v:
            x = v[f['name']]
            if not f.get('nullable'):
                out[w] = x
                views(L, f['gid'], x, out, w)
            elif x['isNull']:
                out[w] = ['none']
            else:
                out[w] = ['value', x['value']]
                vf = L['structs'][f['gid']]['fields'][1]
                if vf['kind'] == 'group':
                    views(L, vf['gid'], x['value'], out, w + '.value')
    return out


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, what, regs = [], {}, []
        for x in case['objs']:
            sid = S.id(x['s'])
            v = complete(L, sid, x['v'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], x.get('style') or {}])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            reg = len(prog) - 1
            regs.append((reg, sid))
            prog.append(['group_views', S.key, sid, {'$': reg}])
            want = views(L, sid, v, {})
            what[len(prog) - 1] = ('groups of %s' % x['s'], want)
            prog.append(['observe', S.key, sid, {'$': reg}])
            what[len(prog) - 1] = ('value of %s' % x['s'], v)
            labels.update(kinds(L, sid, v))
            if len(want) >= 2:
                labels.add('nt')
        for c in case['ctors']:
            reg, sid = regs[c['obj']]
            # the group must be reachable in that object: it is, groups in unions are last
            prog.append(['group_ctor', S.key, sid, {'$': reg}, c['path'], c['v'], c['npos'], {}])
            what[len(prog) - 1] = ('constructor of the group %s' % '.'.join(c['path']), True)
            if path_is_virtual(L, sid, c['path']):
                labels.add('virtual group constructor')
            labels.add('group constructor' + (', nested' if len(c['path']) > 1 else ''))
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            if i not in what:
                val(a, prog[i][0], config)
                continue
            w, want = what[i]
            expect_same(val(a, w, config), want, w, config)
    return labels


def kinds(L, sid, v, out=None):
    out = set() if out is None else out
    for f in L['structs'][sid]['fields']:
        if f.get('vgroup'):
            out.add('virtual group')
        elif f['kind'] == 'group' and f['name'] in v:
            x = v[f['name']]
            if f.get('nullable'):
                out.add('nullable ' + ('null' if x['isNull'] else 'with a value') +
                        (' in union' if f['disc'] is not None else ''))
            else:
                out.add('group' + (' in union' if f['disc'] is not None else '') +
                        (' with union' if L['structs'][f['gid']]['dc'] else ''))
                kinds(L, f['gid'], x, out)
    return out


def nontrivial(labels):
    return 'nt' in labels or 'virtual group' in labels or any(x.startswith('nullable') for x in labels)
