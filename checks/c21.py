"""C21: constructors reject what they cannot represent"""
import gen
import wire
from common import *

ID = 'C21'
PLUGINS = ['ops_ctor.py']
RULE = ('random schemas, a valid set of constructor arguments in which one value (a field, a member of an '
        'union, a field of a group, of a nullable group, an item of a list or a list of lists) is replaced '
        'by an integer just inside or outside of the range or by a value of another type or class, or one '
        'wrong call (unknown keyword, argument given twice, too many, two members of a union): it must '
        'raise, or store exactly that value and nothing else different; the arguments stay the same and '
        'the valid call still works after it. non-trivial: the call is outside of what can be represented')
EXAMPLES = {'quick': 4000, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=20, nullable=10, unions=14, vgroups=6, max_fields=9, max_structs=3)

POOL = [('''
enum E { a @0; b @1; c @2; }
struct P { x @0 :Int64; y @1 :Int64; }
struct Q { x @0 :Int64; y @1 :Int64; t @2 :Text; }
struct A {
  i8 @0 :Int8; u8 @1 :UInt8; i16 @2 :Int16; u16 @3 :UInt16; i32 @4 :Int32; u32 @5 :UInt32; i64 @6 :Int64;
  u64 @7 :UInt64; f32 @8 :Float32; f64 @9 :Float64; b @10 :Bool; e @11 :E; t @12 :Text; d @13 :Data; p @14 :P;
  i8d @15 :Int8 = -5; u8d @16 :UInt8 = 200; i16d @17 :Int16 = -300; u16d @18 :UInt16 = 65535;
  i32d @19 :Int32 = -70000; u32d @20 :UInt32 = 4000000000; i64d @21 :Int64 = -9223372036854775808;
  u64d @22 :UInt64 = 18446744073709551615; f32d @23 :Float32 = 1.5; f64d @24 :Float64 = -0.1; bd @25 :Bool = true;
  ed @26 :E = c; b2 @27 :Bool; b3 @28 :Bool; bd2 @29 :Bool = true; q @30 :Q;
}
struct B {
  li8 @0 :List(Int8); lu8 @1 :List(UInt8); li16 @2 :List(Int16); lu16 @3 :List(UInt16); li32 @4 :List(Int32);
  lu32 @5 :List(UInt32); li64 @6 :List(Int64); lu64 @7 :List(UInt64); lf32 @8 :List(Float32);
  lf64 @9 :List(Float64); lt @10 :List(Text); ld @11 :List(Data); lp @12 :List(P); le @13 :List(E);
  lli16 @14 :List(List(Int16)); llp @15 :List(List(P)); lb @16 :List(Bool); llt @17 :List(List(Text));
  lq @18 :List(Q);
}
struct G {
  g :group { a @0 :Int8; b @1 :Text; deep :group { c @2 :UInt16 = 7; d @3 :P; l @4 :List(UInt8); } }
  n :group $Py.nullable { isNull @5 :Int8; value @6 :Int16; }
  n2 :group $Py.nullable { isNull @7 :Bool; value :group { x @8 :Int8; y @9 :UInt8 = 3; } }
  n3 :group $Py.nullable { isNull @10 :UInt8; value @11 :E = b; }
  u :union { one @12 :Int32; two @13 :List(P); three @14 :Text; four @15 :Void; }
  flat @16 :Void $Py.group("x, y"); x @17 :Int16; y @18 :Text;
}
struct U {
  first @0 :Int64;
  union { a @1 :Int8; b @2 :UInt64 = 5; c @3 :Text; d @4 :P; e @5 :List(Int16); f @6 :Void; g @7 :Bool;
          h :group { i @8 :Int8; j @9 :List(E); } k @10 :E; l @11 :Data; }
  last @12 :UInt8;
}
''', {}), ('''
$Py.options(textType=unicode);
struct T { t @0 :Text; lt @1 :List(Text); d @2 :Data; ld @3 :List(Data);
  g :group { t @4 :Text; d @5 :Data; } union { a @6 :Text; b @7 :Data; } n @8 :Int8; }
''', {'unicode_': True})]
pool = Pool('c21', POOL, CFG)
prepare = pool.prepare

COMPILED = ('pyx', 'pyxmode', 'asan')
BYTES = ['', 'a', 'ab', 'abcdefgh']


def schema_of_finding(body):
    return {'files': {'sch.capnp': '@0xd1a2b3c4d5e6f708;\n' + body}, 'kw': {}}


def findings():
    def one(body, s, field, spec, config):
        return dict(schema_of_finding(body), configs=[config], allow_known=False, calls=[],
                    bads=[{'s': s, 'v': {}, 'path': [field], 'spec': spec, 'want': RAISE, 'how': 'kw'}])
    out = []
    for config in ('pyx', 'pyxmode'):
        out.append(('float-for-int-%s' % config,
                    one('struct F { x @0 :Int16; }\n', 'F', 'x', ['float', 1.5], config)))
        out.append(('float-for-enum-%s' % config,
                    one('enum E { a @0; b @1; }\nstruct F { x @0 :E; }\n', 'F', 'x', ['float', 1.5], config)))
        out.append(('float-in-list-of-int-%s' % config,
                    one('struct F { x @0 :List(Int16); }\n', 'F', 'x', ['list', [['float', 1.5]]], config)))
    for t in ('Text', 'Data'):
        out.append(('list-for-%s-pure' % t.lower(),
                    one('struct F { x @0 :%s; }\n' % t, 'F', 'x', ['list', [['int', '65']]], 'pure')))
    return out


RAISE = ['raise']


def bad_for(g, L, f, t, item, config):
    """-> (spec, want): want is RAISE, or ['value', v] (then raising is right too), or
    ['truth', bool]. None if there is nothing to say"""
    uni = f.get('uni')
    compiled = config in COMPILED
    if isinstance(t, list) and t[0] == 'enum':
        lo, hi = 0, 65535
    elif isinstance(t, str) and t in gen.RANGE:
        lo, hi = gen.RANGE[t]
    else:
        lo = None
    others = [['str', 'a'], ['bytes', 'a'], ['object'], ['list', []], ['tuple', []], ['dict'], ['none']]
    if lo is not None:
        r = g.int(0, 9)
        if r < 6:
            x = g.pick([hi + 1, lo - 1, hi + 1, lo - 1, 2 ** 64, 2 ** 70, -2 ** 63 - 1, -2 ** 70, 2 ** 63, 2 ** 32,
                        2 ** 31, 2 ** 16, 2 ** 15, 256, 128, hi + 1 + g.int(0, hi), lo - 1 - g.int(0, hi),
                        (hi - lo + 1) * g.int(1, 5) + g.int(0, 5)])
            return ['int', str(x)], (['value', x] if lo <= x <= hi else RAISE)
        if r < 7:
            x = g.pick([lo, hi, lo + 1, hi - 1])
            return ['int', str(x)], ['value', x]
        if r < 8 and not compiled:
            return ['float', g.pick([1.5, 3.0, -0.5, 1e300, float('nan')])], RAISE
        if r < 8:
            x = g.pick([1e300, float('nan'), float('inf')])    # 1.5 -> 1 is a known finding
            return ['float', x], RAISE
        if r < 9 and not isinstance(t, list):
            return ['bool', True], ['value', 1]
        return g.pick(others), RAISE
    if t in ('Float32', 'Float64'):
        if g.chance(30):
            x = g.int(-1000, 1000)
            return ['int', str(x)], ['value', float(x)]
        return g.pick(others + [['int', str(2 ** 2000)]]), RAISE
    if t == 'Bool':
        s, b = g.pick([(['int', '2'], True), (['int', '-1'], True), (['int', '256'], True), (['int', '0'], False),
                       (['int', str(2 ** 70)], True), (['int', str(2 ** 32)], True), (['float', 0.5], True),
                       (['float', 0.0], False), (['str', ''], False), (['str', 'False'], True),
                       (['none'], False), (['list', []], False), (['list', [['int', '0']]], True),
                       (['object'], True)])
        return s, ['value', b]
    if t in ('Text', 'Data'):
        b = g.pick(BYTES)
        if t == 'Text' and uni:
            opts = [(['bytes', b], RAISE), (['bytearray', b], RAISE)]
        else:
            opts = [(['str', b], RAISE), (['bytearray', b], ['value', b])]
        opts += [(x, RAISE) for x in (['int', '5'], ['int', '0'], ['float', 1.5], ['object'], ['bool', True],
                                      ['list', [['str', 'a']]], ['list', [['int', '256']]], ['list', [['none']]])]
        if compiled:
            opts += [(x, RAISE) for x in (['list', []], ['tuple', []], ['dict'], ['list', [['int', '65']]])]
        if not item:
            opts.append((['none'], ['value', None]))
        return g.pick(opts)
    if t[0] == 'struct':
        opts = [['int', '0'], ['int', '5'], ['tuple', []], ['tuple', [['int', '1'], ['int', '2']]], ['bytes', 'ab'],
                ['str', 'ab'], ['list', []], ['object'], ['dict'], ['float', 1.5]]
        ss = [s for s in gen.plain_structs(L) if s != t[1] and gen.ctorable(L, s)]
        if ss and g.chance(60):
            s = g.pick(ss)
            return ['struct', s, gen.ValueGen(g, L, budget=3).struct(s)], RAISE
        ss = [s for s in gen.plain_structs(L) if gen.ctorable(L, s)]
        if ss and g.chance(25):
            s = g.pick(ss)
            return ['impostor', t[1], s, gen.ValueGen(g, L, budget=3).struct(s)], RAISE
        if item:
            opts.append(['none'])
        elif g.chance(10):
            return ['none'], ['value', None]
        if gen.ctorable(L, t[1]) and g.chance(20):
            return ['list', [['val', t, gen.ValueGen(g, L, budget=3).struct(t[1]), False]]], RAISE
        return g.pick(opts), RAISE
    if t[0] == 'list':
        if g.chance(15):
            opts = [['int', '0'], ['int', '5'], ['float', 1.5], ['object'], ['bool', True]]
            return g.pick(opts), RAISE
        et = t[1]
        if et in ('Bool', 'AnyPointer', 'Void'):
            return None
        x = bad_for(g, L, f, et, True, config)
        if x is None:
            return None
        spec, want = x
        if et in ('Text', 'Data') and spec == ['none']:
            return None
        vg = gen.ValueGen(g, L, budget=4)
        vs = [vg.value(et, True) for _ in range(g.int(0, 3))]
        k = g.int(0, len(vs))
        specs = [['val', et, v, uni] for v in vs]
        specs.insert(k, spec)
        spec = ['list' if g.chance(80) else 'tuple', specs]
        if want[0] == 'value':
            vs = list(vs)
            vs.insert(k, want[1])
            want = ['value', vs]
        return spec, want
    return None


def places(L, sid, v, out, path=()):
    for f in L['structs'][sid]['fields']:
        if f['name'] not in v or f.get('vgroup'):
            continue
        p = path + (f['name'],)
        if f['kind'] == 'slot':
            if f['type'] not in ('Void', 'AnyPointer'):
                out.append((p, f))
        elif f.get('nullable'):
            out.append((p, f))
        else:
            out.append((p, f))
            places(L, f['gid'], v[f['name']], out, p)
    return out


def put(L, sid, v, path, x):
    """The model of the object with the value replaced"""
    v = dict(v)
    if len(path) == 1:
        v[path[0]] = x
    else:
        v[path[0]] = put(L, None, v[path[0]], path[1:], x)
    return v


def make_bad(g, L, sid, config):
    vg = gen.ValueGen(g, L, budget=8, omit=30)
    v = vg.struct(sid)
    ps = places(L, sid, v, [])
    if not ps:
        return None
    path, f = g.pick(ps)
    b = {'s': L['structs'][sid]['name'], 'v': v, 'path': list(path), 'how': g.pick(['kw', 'kw', 'pos', 'new'])}
    if f['kind'] == 'group':
        if f.get('nullable'):
            vf = L['structs'][f['gid']]['fields'][1]
            if vf['kind'] == 'group':
                n = g.pick([-1, 1, 2])
                b['spec'], b['want'] = ['group', vf['gid'], {}, n], RAISE
                if g.chance(40):
                    b['spec'] = g.pick([['int', '5'], ['float', 1.5], ['object']])
            else:
                x = bad_for(g, L, vf, vf['type'], True, config)
                if x is None or x[0] == ['none']:
                    return None
                b['spec'], b['want'] = x
                if b['want'][0] == 'value':
                    b['want'] = ['value', {'isNull': False if L['structs'][f['gid']]['fields'][0]['type'] == 'Bool'
                                           else 0, 'value': b['want'][1]}]
        else:
            gf = [x for x in L['structs'][f['gid']]['fields']]
            n = g.pick([-1, 1, 2])
            b['spec'], b['want'] = ['group', f['gid'], v[path[0]] if len(path) == 1 else {}, n], RAISE
            if not gf or L['structs'][f['gid']]['dc'] and len(path) > 1:
                b['spec'] = ['int', '5']
            if g.chance(30):
                b['spec'] = g.pick([['int', '5'], ['float', 1.5], ['object'], ['none']])
    else:
        x = bad_for(g, L, f, f['type'], False, config)
        if x is None:
            return None
        b['spec'], b['want'] = x
    return b


def make_call(g, L, sid):
    s = L['structs'][sid]
    v = gen.ValueGen(g, L, budget=6, omit=30).struct(sid)
    c = {'s': s['name'], 'v': v}
    members = [f for f in s['fields'] if f['disc'] is not None and f.get('type') != 'AnyPointer']
    r = g.int(0, 9)
    if r < 5 and len(members) >= 2:
        ms = g.shuffled(members)[:g.int(2, 3)]
        c['v'] = v = dict((k, x) for k, x in v.items() if k != '#' and k not in [m['name'] for m in members])
        vg = gen.ValueGen(g, L, budget=6, null=0)
        vals = []
        for m in ms:
            if m['kind'] == 'group':
                vals.append([m['name'], vg.nullable(m) if m.get('nullable') else vg.struct(m['gid'])])
            else:
                vals.append([m['name'], vg.field_value(m)])
        c['wrong'] = [g.pick(['union', 'union', 'new']), vals]
    elif r < 7:
        c['wrong'] = ['unknown', g.pick(['foo', 'zzz_unknown', 'Self', '_seg', 'which', 'buf', 'x0', 'shortrepr'])]
    elif r < 8:
        c['wrong'] = ['twice']
    else:
        c['wrong'] = ['too many']
    return c


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    ss = [s for s in gen.plain_structs(L) if gen.ctorable(L, s)]
    case['bads'], case['calls'] = [], []
    if not ss:
        return case
    for _ in range(g.int(2, 6)):
        if g.chance(75):
            b = make_bad(g, L, g.pick(ss), case['configs'][0])
            if b:
                case['bads'].append(b)
        else:
            case['calls'].append(make_call(g, L, g.pick(ss)))
    return case


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, todo = [], []
        for b in case['bads']:
            sid = S.id(b['s'])
            must = b['want'][0] == 'raise'
            prog.append(['ctor_bad', S.key, sid, b['v'], b['path'], b['spec'], must, b['how'], {}])
            prog.append(['observe', S.key, sid, {'$': len(prog) - 1}])
            prog.append(['dumps', {'$': len(prog) - 2}, False])
            prog.append(['build', S.key, sid, b['v'], {}])
            prog.append(['dumps', {'$': len(prog) - 1}, False])
            todo.append(('bad', b, sid, len(prog) - 5))
        for c in case['calls']:
            sid = S.id(c['s'])
            prog.append(['ctor_call', S.key, sid, c['v'], c['wrong'], {}])
            todo.append(('call', c, sid, len(prog) - 1))
        r = ctx.run(config, prog)
        for kind, b, sid, i in todo:
            what = 'constructor of %s' % b['s']
            got = val(r[i], what, config)
            if kind == 'call':
                if got == 'raised':
                    labels.add('wrong call: ' + b['wrong'][0])
                    labels.add('nt')
                continue
            val(r[i + 3], what + ' with the valid arguments', config)
            expect_same(wire.read(L, sid, r[i + 4]['v'].encode('latin-1')), complete(L, sid, b['v']),
                        'message of ' + b['s'], config)
            w = '%s.%s with %r' % (b['s'], '.'.join(b['path']), b['spec'])
            labels.add('%s %s%s' % (got, b['spec'][0], ' in group' if len(b['path']) > 1 else ''))
            if b['want'][0] == 'raise':
                labels.add('nt')
            if got == 'stored':
                m = complete(L, sid, put(L, sid, b['v'], b['path'], b['want'][1]))
                expect_same(val(r[i + 1], w, config), m, w, config)
                expect_same(wire.read(L, sid, val(r[i + 2], w, config).encode('latin-1')), m,
                            'message of ' + w, config)
    return labels


def nontrivial(labels):
    return 'nt' in labels
