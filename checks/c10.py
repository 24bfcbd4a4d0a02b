"""C10: $Py.key structs hash and compare like the tuple of their keys"""
import gen
import wire
from common import *

ID = 'C10'
PLUGINS = ['ops_key.py']
RULE = ('random schemas with $Py.key on structs, groups and virtual groups (keys: scalars, floats, '
        'enums, Text, Data, keyed structs and groups, nullable groups, "*"); objects built or loaded '
        'from random layouts, equal and different keys; hash, ==, !=, ordering, membership in sets '
        'against the tuple of the values. non-trivial: a key of two or more fields, or a key holding '
        'a pointer')
EXAMPLES = {'quick': 6000, 'thorough': 80000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(keys=70, vgroups=25, nullable=12, max_fields=6, groups=18, lists=True)

POOL = [('''
struct Point $Py.key("x, y") { x @0 :Int64; y @1 :Int64; name @2 :Text; }
enum Color { red @0; green @1; blue @2; }
struct AllKeys $Py.key("*") {
  i8 @0 :Int8 = -3; u8 @1 :UInt8; i16 @2 :Int16; u16 @3 :UInt16; i32 @4 :Int32 = 7; u32 @5 :UInt32;
  i64 @6 :Int64; u64 @7 :UInt64; f32 @8 :Float32; f64 @9 :Float64; b @10 :Bool; t @11 :Text;
  d @12 :Data; c @13 :Color; p @14 :Point; v @15 :Void;
}
struct Ints $Py.key("*") { a @0 :Int64; b @1 :UInt64; c @2 :UInt32; d @3 :Int32; }
struct OneText $Py.key("t") { x @0 :Int32; t @1 :Text; }
struct OneData $Py.key("d") { x @0 :Int32; d @1 :Data; t @2 :Text; }
struct Nested $Py.key("inner, n, aKey") {
  inner @0 :AllKeys; n @1 :UInt64; other @2 :List(Point);
  aKey @3 :Void $Py.group("n, txt") $Py.key("*"); txt @4 :Text;
  grp :group $Py.key("x, z") { x @5 :Int8; y @6 :Int8; z @7 :Text; }
  nul :group $Py.nullable { isNull @8 :Bool; value @9 :Int32 = 5; }
}
struct Groups $Py.key("*") {
  grp :group $Py.key("*") { x @0 :UInt64; z @1 :Text; }
  nul :group $Py.nullable { isNull @2 :Int8 = 1; value @3 :UInt64 = 5; }
}
struct Lists $Py.key("n, ints, texts, lists") {
  n @0 :Int8; ints @1 :List(Int32); texts @2 :List(Text); lists @3 :List(List(UInt8)); x @4 :Text;
}
struct NoKey { x @0 :Int64; }
''', {}), ('''
$Py.options(textType=unicode, convertCase=false);
struct Uni $Py.key("firstText, theData, anInt") {
  firstText @0 :Text; theData @1 :Data; anInt @2 :UInt16; sub @3 :Uni;
}
struct Outer $Py.key("*") { uni @0 :Uni; bytesText @1 :Text $Py.options(textType=bytes); }
''', {'unicode_': True, 'convert': False})]


pool = Pool('c10', POOL, CFG)
prepare = pool.prepare


def make(g, tier):
    if not g.chance(60):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    if 'bytesText' in list(case['files'].values())[0]:
        case['bytes_fields'] = ['bytesText']
    L = layout_of(case)
    roots = gen.plain_structs(L)
    keyed = [i for i in roots if has_keys(L, i)]
    objs = []
    for k in range(g.int(2, 4)):
        if objs and g.chance(55):
            # same value, another encoding; or a few fields changed
            o = g.pick(objs)
            v, sid = o['v'], L['byname'][o['s']]
            if g.chance(40):
                v = dict(v)
                fresh = gen.ValueGen(g, L, ctor=False, full=True, null=30, budget=10).struct(sid)
                names = [f['name'] for f in L['structs'][sid]['fields'] if f['disc'] is None]
                names = [n for n in names if n in v]
                if names:
                    n = g.pick(names)
                    v[n] = fresh[n]
            ctor = False
        else:
            sid = g.pick(keyed or roots)
            ctor = gen.ctorable(L, sid) and g.chance(50)
            v = gen.ValueGen(g, L, ctor=ctor, full=True, null=30, budget=12).struct(sid)
        o = {'s': L['structs'][sid]['name'], 'v': v, 'ctor': ctor}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
        objs.append(o)
    case['objs'] = objs
    case['perturb'] = [g.int(0, 1000) for _ in range(4)]
    return case


def has_keys(L, sid):
    s = L['structs'][sid]
    return bool(s.get('key')) or any(f['kind'] == 'group' and has_keys(L, f['gid']) or
                                     f.get('vgroup') for f in s['fields'])


class Nan(Exception):
    pass


def key_of(L, sid, v, bytes_fields=()):
    """The tuple of the keys, as a spec for ops_key"""
    s = L['structs'][sid]
    fs = dict((f['name'], f) for f in s['fields'])
    out = []
    for n in s['key']:
        f = fs[n]
        if f.get('vgroup'):
            out.append(key_of(L, f['vgroup'], v, bytes_fields))
            continue
        x = v[n]
        if f['kind'] == 'group':
            if f.get('nullable'):
                if x['isNull']:
                    out.append(['n'])
                else:
                    out.append(scalar(L['structs'][f['gid']]['fields'][1]['type'], x['value'], False))
            else:
                out.append(key_of(L, f['gid'], x, bytes_fields))
        elif isinstance(f['type'], list) and f['type'][0] == 'struct':
            out.append(['n'] if x is None else key_of(L, f['type'][1], x, bytes_fields))
        elif isinstance(f['type'], list) and f['type'][0] == 'list':
            out.append(list_key(L, f['type'][1], x, f.get('uni') and n not in bytes_fields))
        else:
            out.append(scalar(f['type'], x, f.get('uni') and n not in bytes_fields))
    return ['t', out]


def list_key(L, t, x, uni):
    if x is None:
        return ['n']
    if isinstance(t, list) and t[0] == 'list':
        return ['l', [list_key(L, t[1], y or [], uni) for y in x]]
    return ['l', [scalar(t, y, uni) for y in x]]


def scalar(t, x, uni):
    if x is None:
        return ['n']
    if isinstance(x, float) and x != x:
        raise Nan()
    if t == 'Data':
        return ['b', x]
    if t == 'Text':
        return ['u', x] if uni else ['b', x.encode('utf-8').decode('latin-1')]
    return ['v', x]


def depth(spec):
    return 1 + max([0] + [depth(x) for x in spec[1]]) if spec[0] == 't' else 0


def perturbed(spec, k):
    """Another tuple, close to the given one"""
    items = list(spec[1])
    if not items or k % 5 == 0:
        return ['t', items + [['n']]]
    if k % 5 == 1:
        return ['t', items[:-1]]
    i = (k // 5) % len(items)
    x = items[i]
    if x[0] == 'l':
        items[i] = ['l', x[1][:-1]] if k % 2 and x[1] else ['l', x[1] + x[1][:1] or [['v', 0]]]
    elif x[0] == 't':
        items[i] = perturbed(x, k // 7)
    elif x[0] in 'bu':
        items[i] = [x[0], x[1] + '\0' if k % 2 else x[1][:-1]]
        if k % 3 == 0 and all(ord(c) < 256 for c in x[1]):
            items[i] = [{'b': 'u', 'u': 'b'}[x[0]], x[1]]
    elif x[0] == 'n':
        items[i] = [['v', 0], ['b', ''], ['t', []]][k % 3]
    elif isinstance(x[1], bool):
        items[i] = ['v', not x[1]] if k % 3 else ['v', int(x[1])]
    elif isinstance(x[1], int):
        items[i] = ['v', [x[1] + 1, float(x[1]), -x[1], x[1] ^ (1 << 63), x[1] - 2 ** 64][k % 5]]
    else:
        items[i] = ['v', x[1] + 1 if x[1] == x[1] else 0]
    return ['t', items]


def run(case, ctx):
    labels = set()
    bf = case.get('bytes_fields') or ()

    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        if bf:
            for s in L['structs'].values():
                for f in s['fields']:
                    if f['name'] in bf:
                        f['uni'] = False
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, what, keyed, plain = [], {}, [], []

        def visit(reg, sid, v, path, group=False):
            s = L['structs'][sid]
            if s.get('key'):
                try:
                    spec = key_of(L, sid, v, bf)
                except Nan:
                    labels.add('NaN')
                    return
                others = [perturbed(spec, k) for k in case['perturb']]
                prog.append(['key_check', S.key, {'$': reg}, spec, others])
                what[len(prog) - 1] = path
                keyed.append((reg, spec, path))
                labels.add('keyed ' + ('virtual group' if sid.startswith('vg') else
                                       'group' if group else 'struct'))
                for n in spec[1]:
                    labels.add({'t': 'nested key', 'l': 'list in key (not hashable)', 'b': 'text or data in key', 'u': 'unicode in key',
                                'n': 'None in key', 'v': 'number in key'}[n[0]])
                if len(spec[1]) > 1 or depth(spec) > 1 or spec[1][0][0] in 'bu':
                    labels.add('nt')
            elif not group:
                plain.append((reg, path))
            for f in s['fields']:
                if sid.startswith('vg') or v.get(f['name']) is None and not f.get('vgroup'):
                    continue
                if f.get('vgroup'):
                    prog.append(['path', {'$': reg}, [f['py']]])
                    visit(len(prog) - 1, f['vgroup'], v, path + '.' + f['py'], True)
                elif f['kind'] == 'group' and not f.get('nullable'):
                    prog.append(['path', {'$': reg}, [f['py']]])
                    visit(len(prog) - 1, f['gid'], v[f['name']], path + '.' + f['py'], True)
                elif f['kind'] == 'slot' and isinstance(f['type'], list) and f['type'][0] == 'struct':
                    prog.append(['path', {'$': reg}, [f['py']]])
                    visit(len(prog) - 1, f['type'][1], v[f['name']], path + '.' + f['py'])
                elif f['kind'] == 'slot' and isinstance(f['type'], list) and f['type'][0] == 'list' and \
                        isinstance(f['type'][1], list) and f['type'][1][0] == 'struct' and v[f['name']]:
                    prog.append(['path', {'$': reg}, [f['py'], 0]])
                    visit(len(prog) - 1, f['type'][1][1], v[f['name']][0], path + '.' + f['py'] + '[0]')

        for x in case['objs']:
            sid = S.id(x['s'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], {}])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            visit(len(prog) - 1, sid, wire.complete(L, sid, x['v']), x['s'])
        pairs = {}
        for i in range(min(len(keyed), 6)):
            for j in range(i + 1, min(len(keyed), 6)):
                prog.append(['key_pair', {'$': keyed[i][0]}, {'$': keyed[j][0]}, keyed[i][1], keyed[j][1]])
                pairs[len(prog) - 1] = (keyed[i], keyed[j])
        for i in range(min(len(plain), 3)):
            j = (i + 1) % len(plain)
            prog.append(['nokey_check', {'$': plain[i][0]}, {'$': plain[j][0]}])
            what[len(prog) - 1] = plain[i][1] + ', not keyed'
            labels.add('not keyed')
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            if i in pairs:
                (_, s1, p1), (_, s2, p2) = pairs[i]
                eq = val(a, 'comparing %s and %s (keys %r, %r)' % (p1, p2, s1, s2), config)
                labels.add('equal objects' if eq else 'different objects')
            else:
                val(a, what.get(i, prog[i][0]), config)
    return labels
