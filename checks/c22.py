"""C22: enum values are ints that survive unknown enumerants"""
import gen
import wire
from common import *

ID = 'C22'
PLUGINS = ['ops_enum.py']
RULE = ('random schemas rich in enums (up to 300 enumerants, ordinals in any order, odd names, nested, '
        'defaults, lists and lists of lists of enums, in unions and groups) and values known and unknown, '
        'up to 65535, built or loaded from random layouts: type, number, name, str(), repr(), arithmetic, '
        'hash, text and members against the schema, and the numbers in the messages written again. '
        'non-trivial: at least two enum values, or an unknown one')
EXAMPLES = {'quick': 4000, 'thorough': 50000}
SECONDS = {'quick': 25, 'thorough': 900}
CFG = dict(groups=12, unions=14, enums=3, max_enum=14, nullable=4, special=40, nest=50)


class EnumSchema(gen.SchemaGen):
    def ast(self):
        a = gen.SchemaGen.ast(self)
        for node, full in self.enums:
            n = len(node['items'])
            if self.g.chance(30):
                node['ords'] = self.g.shuffled(range(n))
        return a

    def slot(self, names, in_union):
        g = self.g
        if not self.enums or not g.chance(55):
            return gen.SchemaGen.slot(self, names, in_union)
        f = {'k': 'slot', 'name': names.new()}
        node, full = g.pick(self.enums)
        t = ['enum', full]
        r = g.int(0, 9)
        if r < 6:
            if g.chance(40):
                f['default'] = ' ' + g.pick(node['items'])
        elif r < 9:
            t = ['list', t]
        else:
            t = ['list', ['list', t]]
        f['type'] = t
        return f


POOL = [('''
enum Big { %s }
struct Holder {
  a @0 :Big = item299; b @1 :List(Big); c @2 :Inner; d @3 :Inner = three; e @4 :List(List(Inner)); f @5 :List(Holder);
  enum Inner { one @0; two @1; three @2; }
  union { g @6 :Big; h @7 :Inner = two; i @8 :List(Inner); }
  j :group { k @9 :Big = item200; l @10 :Inner; } m :group $Py.nullable { isNull @11 :Bool; value @12 :Inner = three; }
  enum Names { name @0; class @1; real @2; mro @3; none @4; nameValue @5; }
  n @13 :Names; o @14 :List(Names);
}
''' % ' '.join('item%d @%d;' % (i, i) for i in range(300)), {}), ('''
$Py.options(convertCase=false);
enum Keep { camelCase @1; otherCase @0; URLName @2; }
struct Uni { aB @0 :Keep = otherCase; cD @1 :List(Keep); }
''', {'convert': False})]
pool = Pool('c22', POOL, dict(CFG, cls=EnumSchema))
prepare = pool.prepare


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, cls=EnumSchema, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    objs = []
    for k in range(g.int(1, 3)):
        sid = g.pick(gen.plain_structs(L))
        ctor = gen.ctorable(L, sid) and g.chance(50)
        vg = gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=10, unknown_enum=g.pick([0, 25]))
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor, 'v': vg.struct(sid)}
        if ctor:
            o['style'] = {'enum': g.pick(['member', 'int'])}
        else:
            o['plan'] = gen.gen_plan(g)
        objs.append(o)
    case['objs'] = objs
    return case


def count(L, t, x, labels):
    if x is None:
        return
    if isinstance(t, list) and t[0] == 'enum':
        n = len(L['enums'][t[1]]['items'])
        labels.add('unknown enumerant' if x >= n else 'enumerant')
        if x >= 32768:
            labels.add('number > 32767')
    elif isinstance(t, list) and t[0] == 'struct':
        count_struct(L, t[1], x, labels)
    elif isinstance(t, list):
        if isinstance(t[1], list) and t[1][0] == 'enum' and x:
            labels.add('list of enums')
        for y in x:
            count(L, t[1], y, labels)


def count_struct(L, sid, v, labels):
    for f in L['structs'][sid]['fields']:
        if f['name'] in v and not f.get('vgroup'):
            if f['kind'] == 'group':
                count_struct(L, f['gid'], v[f['name']], labels)
            else:
                count(L, f['type'], v[f['name']], labels)


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, what = [], {}
        for eid in gen.plain_enums(L):
            prog.append(['enum_class', S.key, eid])
            what[len(prog) - 1] = ('enum ' + L['enums'][eid]['name'], None)
        wires = []
        for x in case['objs']:
            sid = S.id(x['s'])
            v = complete(L, sid, x['v'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], x['style']])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            reg = len(prog) - 1
            prog.append(['enum_walk', S.key, sid, {'$': reg}, v])
            what[len(prog) - 1] = ('enums of ' + x['s'], None)
            prog.append(['dumps', {'$': reg}, False])
            wires.append((len(prog) - 1, sid, v, x['s']))
            prog.append(['loads', S.key, sid, {'$': len(prog) - 1}])
            prog.append(['enum_walk', S.key, sid, {'$': len(prog) - 1}, v])
            what[len(prog) - 1] = ('enums of %s after dumps() and loads()' % x['s'], None)
            count_struct(L, sid, v, labels)
        r = ctx.run(config, prog)
        n = 0
        for i, a in enumerate(r):
            w, _ = what.get(i, (prog[i][0], None))
            got = val(a, w, config)
            if prog[i][0] == 'enum_walk':
                n += got
        for i, sid, v, name in wires:
            expect_same(wire.read(L, sid, r[i]['v'].encode('latin-1')), v, 'message of ' + name, config)
        if n >= 4:
            labels.add('nt')
    return labels


def nontrivial(labels):
    return 'nt' in labels or 'unknown enumerant' in labels
