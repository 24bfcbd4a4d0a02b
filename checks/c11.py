"""C11: exactly one union member is active and only it can be read"""
import gen
import wire
from common import *

ID = 'C11'
PLUGINS = ['ops_union.py']
RULE = ('random schemas rich in unions (anonymous, named, in groups, groups in unions), objects built by '
        'constructors, by new_*() with and without value, or loaded from random layouts also with unknown '
        'tags: which(), __which__(), is_*() and the tag enum against the tag of the message, all the '
        'inactive members must raise ValueError, constructors with two members must raise TypeError. '
        'non-trivial: an object with at least two unions, or an unknown tag, or a rejected constructor')
EXAMPLES = {'quick': 5000, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=14, unions=40, max_fields=6, depth=3, max_structs=2, nullable=4, anyptr_union=6)

POOL = [('''
struct Item { union { n @0 :Int64 = 3; t @1 :Text; sub @2 :Item; none @3 :Void; } }
struct Shape {
  area @0 :Float64;
  union {
    circle @1 :Float64 = 1.5; name @2 :Text; data @3 :Data; none @4 :Void; rect :group { w @5 :UInt16; h @6 :UInt16 = 9; }
    items @7 :List(Item); item @8 :Item; color @9 :Color = blue; yes @10 :Bool = true;
    both :group { u :union { a @11 :Int8; b @12 :Text; c :group { d @13 :Int32; e @14 :List(Int8); } } k @15 :Text; }
    big @16 :UInt64 = 18446744073709551615;
  }
  style :union { plain @17 :Void; text @18 :Text; class @19 :Int16 = -4; deep :union { x @20 :Int8; y @21 :Data; } }
  enum Color { red @0; green @1; blue @2; }
}
struct Same { union { x @0 :Int32; y @1 :Int8; } g :group { union { x @3 :Int32; z @2 :Int8; t @4 :Text; } } h :group { union { w @6 :Text; y @5 :Int16; } } }
struct Plain { x @0 :Int8; u :union { a @1 :Int8; b @2 :List(Text); } }
''', {}), ('''
$Py.options(textType=unicode, convertCase=false);
struct Uni { union { firstText @0 :Text; secondText @1 :Text; aGroup :group { tOne @2 :Text; tTwo @3 :Text; } } other @4 :Text; }
''', {'unicode_': True, 'convert': False})]

pool = Pool('c11', POOL, CFG)
prepare = pool.prepare


def unions_of(L, sid, out, path=()):
    s = L['structs'][sid]
    if s['dc'] >= 2:
        ms = [f for f in s['fields'] if f['disc'] is not None and f.get('type') != 'AnyPointer']
        if len(ms) >= 2:
            out.append((path, sid, ms))
    for f in s['fields']:
        if f['kind'] == 'group' and not f.get('nullable'):
            unions_of(L, f['gid'], out, path + (f,))
    return out


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    all_ = gen.plain_structs(L)
    roots = [s for s in all_ if unions_of(L, s, [])] or all_
    objs = []
    for k in range(g.int(1, 3)):
        sid = g.pick(roots)
        s = L['structs'][sid]
        how = g.pick(['ctor', 'ctor', 'new', 'load', 'load'])
        if how != 'load' and not gen.ctorable(L, sid):
            how = 'load'
        ctor = how != 'load'
        vg = gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=12, null=25,
                          unknown_tag=0 if ctor else g.pick([0, 0, 15]))
        o = {'s': s['name'], 'how': how, 'v': vg.struct(sid)}
        if how == 'load':
            o['plan'] = gen.gen_plan(g)
        elif how == 'new':
            if s['dc'] and '#' in o['v'] and g.chance(60):
                o['empty'] = True         # new_x() without a value
            o['style'] = {'new': True}
        else:
            o['style'] = {'pos': g.chance(20)}
        objs.append(o)
    bad = []
    for _ in range(g.int(0, 2)):
        sid = g.pick(roots)
        us = unions_of(L, sid, [])
        # groups which are members are left out: the outer union must be valid
        us = [u for u in us if all(f['disc'] is None for f in u[0])]
        if not us or not gen.ctorable(L, sid):
            continue
        path, gid, ms = g.pick(us)
        two = g.shuffled(ms)[:g.int(2, 3)]
        vg = gen.ValueGen(g, L, budget=3)
        vals = []
        for f in two:
            if f['kind'] == 'group':
                x = vg.nullable(f) if f.get('nullable') else vg.struct(f['gid'])
            else:
                x = vg.field_value(f)
            vals.append({'#': f['name'], f['name']: x})
        base = vg.struct(sid)
        top = path[0]['name'] if path else None
        base = dict((k, x) for k, x in base.items()
                    if k not in (top, '#') and (path or not any(f['name'] == k and f['disc'] is not None
                                                                for f in L['structs'][sid]['fields'])))
        base = dict((f['name'], base[f['name']]) for f in L['structs'][sid]['fields']
                    if f['name'] in base and f['disc'] is None)
        bad.append({'s': L['structs'][sid]['name'], 'path': [f['name'] for f in path], 'vals': vals,
                    'base': base})
    case['objs'], case['bad'] = objs, bad
    return case


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, what = [], {}
        for x in case['objs']:
            sid = S.id(x['s'])
            s = L['structs'][sid]
            v = x['v']
            if x.get('empty'):
                f = [f for f in s['fields'] if f['name'] == v['#']][0]
                prog.append(['new_member', S.key, sid, v['#'],
                             dict((k, y) for k, y in v.items() if k != f['name'])])
                v = dict(v)
                v[f['name']] = {} if f['kind'] == 'group' else \
                    None if is_ptr(f['type']) else f['default']
                if f.get('nullable'):
                    nf, vf = L['structs'][f['gid']]['fields'][:2]
                    v[f['name']] = {'isNull': nf['default'],
                                    'value': vf['default'] if vf['kind'] == 'slot' else {}}
                labels.add('new_x() without value')
            elif x['how'] == 'load':
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, v))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            else:
                prog.append(['build', S.key, sid, v, x['style']])
            reg = len(prog) - 1
            v = complete(L, sid, v)
            labels.add('made by ' + x['how'])
            n = kinds(L, sid, v, labels)
            prog.append(['union_check', S.key, sid, {'$': reg}, v])
            what[len(prog) - 1] = ('unions of %s' % x['s'], None)
            prog.append(['observe', S.key, sid, {'$': reg}])
            what[len(prog) - 1] = ('value of %s' % x['s'], v)
            if n >= 2:
                labels.add('nt')
            if not s['dc']:
                prog.append(['no_union', S.key, sid, {'$': reg}])
        for b in case['bad']:
            prog.append(['several_members', S.key, S.id(b['s']), b['path'], b['vals'], b['base'], {}])
            what[len(prog) - 1] = ('constructor of %s with several members of an union' % b['s'], None)
            labels.add('several members' + (' of a named union' if b['path'] else ''))
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            w, want = what.get(i, (prog[i][0], None))
            got = val(a, w, config)
            if want is not None:
                expect_same(got, want, w, config)
    return labels


def kinds(L, sid, v, out, depth=0):
    s = L['structs'][sid]
    n = 0
    if s['dc']:
        n += 1
        out.add(('anonymous union' if not s['group'] else 'named union or union in group') +
                (', depth %d' % depth if depth else ''))
        if '#tag' in v:
            out.add('unknown tag')
        else:
            f = [f for f in s['fields'] if f['name'] == v['#']][0]
            t = f['kind'] if f['kind'] == 'group' else f['type'] if isinstance(f['type'], str) else f['type'][0]
            out.add('active: ' + {'struct': 'struct', 'list': 'list', 'enum': 'enum', 'Text': 'text',
                                  'Data': 'data', 'Void': 'void', 'group': 'group'}.get(t, 'number'))
    for f in s['fields']:
        if f['kind'] == 'group' and f['name'] in v and not f.get('nullable'):
            n += kinds(L, f['gid'], v[f['name']], out, depth + 1)
    return n


def nontrivial(labels):
    return 'nt' in labels or 'unknown tag' in labels or any(x.startswith('several') for x in labels)
