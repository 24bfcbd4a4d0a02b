"""C13: null pointers, has_x(), get_x() and defaults"""
import struct

import gen
import wire
from common import *

ID = 'C13'
PLUGINS = ['ops_null.py']
RULE = ('random schemas and objects with many null, absent (sections cut short) and empty pointer fields '
        'and default values, loaded from random layouts or built by constructors from None: value, has_x() '
        'and get_x() of every pointer field, recursively through get_x() of null structs, against the '
        'message. non-trivial: a null struct or list and a truncated section or explicit default')
EXAMPLES = {'quick': 6000, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(max_structs=3, max_fields=7, default=45, anyptr=5, anyptr_union=5, nullable=3, groups=14, unions=14)

POOL = [('''
enum Color { red @0; green @1; blue @2; }
struct Deep { a @0 :Int8 = -3; b @1 :UInt8 = 200; c @2 :Int16 = 5; d @3 :UInt16 = 65535; e @4 :Int32 = 7;
  f @5 :UInt32 = 4294967295; g @6 :Int64 = -1; h @7 :UInt64 = 18446744073709551615; i @8 :Bool = true;
  j @9 :Float32 = 2.5; k @10 :Float64 = -0.5; l @11 :Color = blue; m @12 :Text; n @13 :Data; o @14 :Deep;
  p @15 :List(Int64); q @16 :List(Deep); r @17 :List(Text);
  grp :group { x @18 :Int16 = 9; t @19 :Text; s @20 :Deep; }
  union { first @21 :Text; second @22 :Deep; third @23 :List(Int8); fourth @24 :Int8 = 4; }
  nu :union { one @25 :Deep; two @26 :Data; } any @27 :AnyPointer; lb @28 :List(Bool); ll @29 :List(List(Text));
}
struct Empty { d @0 :Deep; t @1 :Text; }
struct Huge { a @0 :List(Void); b @1 :List(Nothing); c @2 :Text; }
struct Nothing {}
''', {}), ('''
$Py.options(textType=unicode, convertCase=false);
struct Uni { oneText @0 :Text; twoSub @1 :Uni; threeList @2 :List(Text); four @3 :Data; five @4 :Int8 = 5; }
''', {'unicode_': True, 'convert': False})]
pool = Pool('c13', POOL, CFG)
prepare = pool.prepare


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    case['objs'] = objs = []
    if 'Huge' in L['byname'] and not g.chance(75):
        # lists whose items take no space: the count can be anything up to 2**29-1
        case['huge'] = [None if g.chance(20) else
                        min(max(0, (1 << g.pick([28, 29, g.int(0, 29)])) + g.pick([-1, 0, 1])), (1 << 29) - 1) for _ in range(2)]
        return case
    for k in range(g.int(1, 3)):
        sid = g.pick(gen.plain_structs(L))
        ctor = gen.ctorable(L, sid) and g.chance(35)
        null = g.pick([30, 60, 90])
        vg = gen.ValueGen(g, L, ctor=ctor, full=not ctor and g.chance(50), budget=10, null=null,
                          omit=g.pick([20, 60]))
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor, 'v': vg.struct(sid)}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
            if g.chance(50):
                o['plan'].update(trunc=100, seed=o['plan'].get('seed', 1))
        objs.append(o)
    case['objs'] = objs
    return case


def tree(L, sid, v, d, labels):
    s = L['structs'][sid]
    out = {'v': v, 'p': {}, 's': {}}
    for f in s['fields']:
        if f['name'] not in v or f.get('nullable') or f.get('vgroup'):
            continue
        if f['kind'] == 'group':
            out['s'][f['name']] = tree(L, f['gid'], v[f['name']], d, labels)
            continue
        t, x = f['type'], v[f['name']]
        if not is_ptr(t):
            if f['had'] and x == f['default']:
                labels.add('explicit default')
            continue
        if t == 'AnyPointer':
            out['p'][f['name']] = [x is not None, x]
            continue
        e = x
        if x is None:
            k = t if isinstance(t, str) else t[0]
            labels.add('null ' + k.lower())
            e = '' if isinstance(t, str) else [] if t[0] == 'list' else complete(L, t[1], {})
        elif x == '' or x == []:
            labels.add('empty, not null')
        out['p'][f['name']] = [x is not None, x, e]
        if t[0] == 'struct' and d > 0:
            out['s'][f['name']] = tree(L, t[1], e, d - 1, labels)
        elif t[0] == 'list' and isinstance(t[1], list) and t[1][0] == 'struct' and e and d > 0:
            out['s'][f['name']] = tree(L, t[1][1], e[0], d - 1, labels)
    return out


def check_tree(got, want, where, config):
    expect_same(got['v'], want['v'], 'value of ' + where, config)
    for n in want['p']:
        g, w = got['p'].get(n), want['p'][n]
        if g is None:
            raise Violation('[%s] no field %s.%s' % (config, where, n))
        for a, b, k in zip(g, w, ('has_%s()', '%s', 'get_%s()')):
            expect_same(a, b, '%s: %s' % (where, k % n), config)
    if set(got['p']) != set(want['p']) or set(got['s']) != set(want['s']):
        raise Violation('[%s] fields of %s: %s %s' % (config, where, got, want))
    for n in want['s']:
        check_tree(got['s'][n], want['s'][n], '%s.%s' % (where, n), config)


def run_huge(counts, S, config, ctx, labels):
    a, b = counts
    words = [3 << 48, 0, 0, 0]
    if a is not None:
        words[1] = 1 | 3 << 2 | a << 35
    if b is not None:
        words[2] = 1 | 1 << 2 | 7 << 32
    words[3] = 1 | 1 << 2 | 2 << 32 | 1 << 35
    words += [(b or 0) << 2, 0]
    msg = wire.frame([struct.pack('<6Q', *words)])
    prog = [['loads', S.key, S.id('Huge'), msg.decode('latin-1')], ['huge', {'$': 0}]]
    r = ctx.run(config, prog)
    val(r[0], 'loading lists of %s and %s items without size' % (a, b), config)
    want = [[x is not None, x, x or 0] for x in counts] + [[True, 0, 0]]
    expect_same(val(r[1], 'reading lists of %s and %s items without size' % (a, b), config), want,
                'has, len(x), len(get) of lists of items without size', config)
    labels.add('lists of up to 2**29-1 items without size')


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        if case.get('huge'):
            run_huge(case['huge'], S, config, ctx, labels)
        prog, wants = [], []
        for x in case['objs']:
            sid = S.id(x['s'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], {}])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
                if x['plan'].get('trunc'):
                    labels.add('sections cut short')
            prog.append(['null_tree', S.key, sid, {'$': len(prog) - 1}, 2])
            labels.add('made by ' + ('constructor' if x['ctor'] else 'load'))
            wants.append((x['s'], tree(L, sid, complete(L, sid, x['v']), 2, labels)))
        r = ctx.run(config, prog)
        for i, (name, want) in enumerate(wants):
            val(r[2 * i], 'making %s' % name, config)
            check_tree(val(r[2 * i + 1], 'pointers of %s' % name, config), want, name, config)
    return labels


def nontrivial(labels):
    return ('null struct' in labels or 'null list' in labels) and \
        ('sections cut short' in labels or 'explicit default' in labels)
