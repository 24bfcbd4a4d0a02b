"""C16: pickling and raw dumps restore an equivalent object"""
import gen
import wire
from common import *

ID = 'C16'
PLUGINS = ['ops_pickle.py']
RULE = ('random schemas and values, built by constructors or loaded from random single and multi segment '
        'layouts; the object or any struct, list item, group or virtual group in it goes through pickle '
        '(protocols 0-5, alone, in containers, several in a file, twice), copy, deepcopy or '
        '_raw_dumps()/_raw_loads(), and the result is compared with the value and with the dumps() of the '
        'original. non-trivial: the object has a pointer which is not null or is part of another one')
EXAMPLES = {'quick': 3500, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=16, nullable=5, vgroups=14, keys=25, unions=14, max_structs=4, nest=40)

POOL = [('''
struct Outer $Py.key("id, name") {
  id @0 :Int32; name @1 :Text; inner @2 :Inner; inners @3 :List(Inner); me @4 :Outer; all @5 :List(Outer);
  struct Inner { a @0 :UInt8 = 7; kind @1 :Kind; deep @2 :Deep; enum Kind { x @0; y @1; }
    struct Deep { d @0 :Data; l @1 :List(List(Inner)); f @2 :Float64; } deeps @3 :List(Deep); kinds @4 :List(Kind); }
  g :group { p @6 :Inner; q @7 :Int64; h :group { t @8 :Text; } }
  union { none @9 :Void; one @10 :Inner; two @11 :List(Inner); three :group { z @12 :Text; } }
  view @13 :Void $Py.group("inner, id") $Py.key("id"); lb @14 :List(Bool); lt @15 :List(Text); any @16 :Int8;
  n :group $Py.nullable { isNull @17 :Int8; value @18 :Int64; }
}
''', {})]
pool = Pool('c16', POOL, CFG)
prepare = pool.prepare


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    objs = []
    for k in range(g.int(1, 2)):
        sid = g.pick(gen.plain_structs(L))
        ctor = gen.ctorable(L, sid) and g.chance(35)
        v = gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=20, nul=g.chance(10)).struct(sid)
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor, 'v': v}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
        paths = struct_paths(L, sid, complete(L, sid, v))
        o['ops'] = []
        for _ in range(g.int(2, 4)):
            o['ops'].append([g.int(0, len(paths) - 1) if g.chance(75) else 0,
                             g.pick(['pickle', 'pickle', 'pickle', 'file', 'twice', 'copy', 'deepcopy', 'raw', 'raw']),
                             g.int(0, 5)])
        objs.append(o)
    case['objs'] = objs
    return case


def pointers(L, sid, v):
    for f in L['structs'][sid]['fields']:
        x = v.get(f['name'])
        if x is None or f.get('vgroup'):
            continue
        if f['kind'] == 'group':
            if isinstance(x, dict) and pointers(L, f['gid'], x):
                return True
        elif is_ptr(f['type']):
            return True
    return False


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, todo = [], []
        for x in case['objs']:
            sid = S.id(x['s'])
            v = complete(L, sid, x['v'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], {}])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
                if msg[:4] != b'\0\0\0\0':
                    labels.add('multi segment')
            obj = len(prog) - 1
            paths = struct_paths(L, sid, v)
            for k, how, proto in x['ops']:
                path, psid, pv = paths[k % len(paths)]
                prog.append(['path', {'$': obj}, path])
                sub = len(prog) - 1
                prog.append(['restore', S.key, {'$': sub}, how, proto])
                new = len(prog) - 1
                prog.append(['observe', S.key, psid, {'$': new}])
                todo.append((len(prog) - 1, pv, '%s%s after %s (protocol %d)' % (x['s'], path, how, proto)))
                prog.append(['same_dumps', {'$': sub}, {'$': new}])
                labels.add(how)
                if path:
                    labels.add('sub-object')
                    if L['structs'][psid]['group']:
                        labels.add('group')
                if path or pointers(L, psid, pv):
                    labels.add('nt')
                for f in L['structs'][psid]['fields']:
                    t = f.get('type')
                    if f['kind'] == 'slot' and not f.get('vgroup') and pv.get(f['name']) is not None \
                            and f['name'] in pv and isinstance(t, list):
                        if t[0] == 'list':
                            prog.append(['attr', {'$': new}, f['py']])
                            prog.append(['restore_list', S.key, {'$': len(prog) - 1}, proto])
                            break
                        if t[0] == 'enum':
                            prog.append(['attr', {'$': new}, f['py']])
                            prog.append(['restore_enum', S.key, {'$': len(prog) - 1}, proto])
                            labels.add('enum')
                            break
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            val(a, prog[i][0], config)
        for i, v, w in todo:
            expect_same(r[i]['v'], v, w, config)
    return labels


def nontrivial(labels):
    return 'nt' in labels
