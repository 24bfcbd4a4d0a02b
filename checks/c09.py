"""C09: schemas can evolve in both directions"""
import copy

import gen
import layout
import pyxpool
import wire
from common import *

ID = 'C09'
PLUGINS = ['ops_evolve.py']
RULE = ('random schemas and random legal ancestors of them (fields, members of unions, whole unions and '
        'groups, enumerants removed from the end of the ordinals, code order changed, a field not yet in its '
        'anonymous union); data written with either, by constructors or with random layouts, is read with '
        'the other and compared with a reference reader; the objects are then written again, compacted and '
        'stored, alone and in lists with other objects, in new objects of the reader: nothing of what the '
        'reader does not know is lost. non-trivial: the two schemas give different sizes to a struct which '
        'is used, or the value uses something that the other schema does not have')
EXAMPLES = {'quick': 4000, 'thorough': 40000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=16, unions=18, max_fields=9, max_structs=3, enums=2, max_enum=6, nest=25)


def slots_of(node):
    out = []
    gen.walk(node['body'], out.append)
    return out


def cut(body, k):
    """The fields with ordinals less than k. None if it is not a legal schema"""
    out = []
    for x in body:
        if x['k'] == 'slot':
            if x['ord'] < k:
                out.append(x)
            continue
        b = cut(x['body'], k)
        if b is None:
            return None
        if not b:
            continue
        if x['k'] == 'union' and len(b) == 1:
            if x['name'] or b[0]['k'] != 'slot':
                return None
            out.append(b[0])
            continue
        out.append(dict(x, body=b))
    return out


def shuffle_body(g, body):
    body = g.shuffled(body)
    for x in body:
        if x['k'] != 'slot':
            x['body'] = shuffle_body(g, x['body'])
    return body


def all_nodes(nodes, out):
    for n in nodes:
        out.append(n)
        all_nodes(n.get('nested') or [], out)
    return out


def ancestor(g, new):
    """-> (old, new): removes from new the defaults which old cannot express"""
    new = copy.deepcopy(new)
    old = copy.deepcopy(new)
    removed = set()
    for n in all_nodes(old['nodes'], []):
        if n['k'] == 'enum' and g.chance(60):
            keep = g.int(1, len(n['items']))
            removed.update((n['name'], x) for x in n['items'][keep:])
            n['items'] = n['items'][:keep]
    for ast in (old, new):
        for n in all_nodes(ast['nodes'], []):
            if n['k'] != 'struct':
                continue
            for f in slots_of(n):
                t = f['type']
                if isinstance(t, list) and t[0] == 'enum' and f.get('default') is not None:
                    if (t[1].split('.')[-1], f['default'].strip()) in removed:
                        del f['default']
    for n in all_nodes(old['nodes'], []):
        if n['k'] != 'struct':
            continue
        if g.chance(75):
            total = len(slots_of(n))
            for k in range(g.int(1, total), total + 1):
                b = cut(n['body'], k)
                if not b:
                    continue
                m = dict(n, body=b)
                if any(f['type'] != 'Void' for f in slots_of(m)):
                    n['body'] = b
                    break
        if g.chance(30):
            n['body'] = shuffle_body(g, n['body'])
    return old, new


HAND = [('''
struct Item { a @0 :Int16; b @1 :Text; }
enum Kind { x @0; y @1; }
struct Box { item @0 :Item; items @1 :List(Item); kind @2 :Kind = y; kinds @3 :List(Kind);
  union { none @4 :Void; one @5 :Item; } deep @6 :List(List(Item)); only @7 :Int8 = 5;
  g :group { ga @8 :Int8; gi @9 :Item; } u :union { p @10 :Int64; q @11 :Item; } boxes @12 :List(Box); }
''', '''
struct Item { a @0 :Int16; b @1 :Text; c @2 :Int64 = 77; d @3 :List(Item); e @4 :Kind = z; f @5 :Text;
  union { h @6 :Void; i @7 :Text; j @8 :Item; } }
enum Kind { x @0; y @1; z @2; w @3; }
struct Box { item @0 :Item; items @1 :List(Item); kind @2 :Kind = y; kinds @3 :List(Kind);
  union { none @4 :Void; one @5 :Item; two @13 :Text; three :group { t1 @14 :Float64; t2 @15 :List(Item); } }
  deep @6 :List(List(Item)); union2 :union { z1 @24 :Void; z2 @25 :Text; } only @7 :Int8 = 5;
  g :group { ga @8 :Int8; gi @9 :Item; gnew @16 :Text; gsub :group { s1 @17 :Int8 = -1; s2 @18 :Item; } }
  u :union { p @10 :Int64; q @11 :Item; r @19 :List(Text); s :group { s1 @20 :Int64; s2 @21 :Item; } }
  boxes @12 :List(Box); last @22 :Data; flag @23 :Bool = true; }
'''), ('''
struct Tiny { a @0 :Int8; }
struct NoPtr { a @0 :UInt64; }
struct NoData { a @0 :Text; }
struct Holder { t @0 :Tiny; p @1 :NoPtr; d @2 :NoData; lt @3 :List(Tiny); lp @4 :List(NoPtr); ld @5 :List(NoData);
  first @6 :Text; ll @7 :List(List(Tiny)); }
''', '''
struct Tiny { a @0 :Int8; b @1 :Int8 = 100; c @2 :Int64 = -1; d @3 :Data; }
struct NoPtr { a @0 :UInt64; b @1 :Text; c @2 :NoPtr; }
struct NoData { a @0 :Text; b @1 :Bool = true; c @2 :Int32 = 9; d @3 :List(NoData); }
struct Holder { t @0 :Tiny; p @1 :NoPtr; d @2 :NoData; lt @3 :List(Tiny); lp @4 :List(NoPtr); ld @5 :List(NoData);
  union { first @6 :Text; second @8 :NoData; third @9 :List(Tiny); fourth @10 :Int16 = 3; } ll @7 :List(List(Tiny)); }
''')]
HEAD = '@0xd1a2b3c4d5e6f709;\nusing Py = import "/capnpy/annotate.capnp";\n'
N = {'quick': 1, 'thorough': 12}


def gen_pair(g):
    ast = gen.SchemaGen(g, **CFG).ast()
    old, new = ancestor(g, ast)
    kw = {}
    if g.chance(25):
        kw['unicode_'] = True
        for x in (old, new):
            x['ann'] = ['$Py.options(textType=unicode)']
    return layout.render(old), layout.render(new), kw


_pairs = {}


def pair(k, seed):
    from driver import RandG
    if k < len(HAND):
        return HEAD + HAND[k][0], HEAD + HAND[k][1], {}
    if (k, seed) not in _pairs:
        _pairs[k, seed] = gen_pair(RandG('c09-%d-%d' % (seed, k)))
    return _pairs[k, seed]


def prepare(tier, seed):
    ts = []
    for k in range(len(HAND) + N[tier]):
        ts += pair(k, seed)[:2]
    pyxpool.compile_all(ts)


def sub(case, which):
    return case[which]


def only_members(L, other):
    """Members of the unions of L which are fields out of the union in the other schema"""
    out = {}
    for sid, s in L['structs'].items():
        o = other['structs'].get(sid)
        if not s['dc'] or o is None or o['dc']:
            continue
        mine = [f['name'] for f in s['fields'] if f['disc'] is not None]
        have = [f['name'] for f in o['fields']]
        keep = [n for n in mine if n in have]
        if keep:
            out[sid] = keep
    return out


def embeddable(L, sid, out):
    for s in gen.plain_structs(L):
        if not gen.ctorable(L, s):
            continue
        for f in L['structs'][s]['fields']:
            t = f.get('type')
            if t == ['struct', sid]:
                out.append([s, f['name'], 'field'])
            elif t == ['list', ['struct', sid]]:
                out.append([s, f['name'], 'list'])
                out.append([s, f['name'], 'list'])
            elif t == ['list', ['list', ['struct', sid]]]:
                out.append([s, f['name'], 'deep'])
    return out


def make(g, tier):
    if not g.chance(60):
        seed = int(os.environ.get('VERIF_SEED', '1'))
        old, new, kw = pair(g.int(0, len(HAND) + N[tier] - 1), seed)
        case = {'old': pyxpool.case_of(old, kw), 'new': pyxpool.case_of(new, kw)}
        case['configs'] = ['pyxmode'] if g.chance(65) else [g.pick(['pyx', 'pure'])]
    else:
        old, new, kw = gen_pair(g)
        case = {'old': {'files': {'sch.capnp': old}, 'kw': kw}, 'new': {'files': {'sch.capnp': new}, 'kw': kw}}
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = {'old': layout_of(case['old']), 'new': layout_of(case['new'])}
    for sid in L['old']['structs']:
        a, b = L['old']['structs'][sid], L['new']['structs'].get(sid)
        assert b is not None or a['group'], 'not an ancestor'
    case['w'] = w = g.pick(['old', 'new', 'new'])
    r = 'old' if w == 'new' else 'new'
    only = only_members(L[w], L[r])
    sid = g.pick(gen.plain_structs(L[w]))
    case['s'] = L[w]['structs'][sid]['name']
    case['objs'] = []
    for _ in range(g.int(1, 3)):
        ctor = gen.ctorable(L[w], sid) and g.chance(50)
        vg = gen.ValueGen(g, L[w], ctor=ctor, full=not ctor, budget=12, only=only)
        o = {'ctor': ctor, 'v': vg.struct(sid)}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
            if w == 'old':      # the new fields would read the junk
                o['plan'].pop('grow', None)
                o['plan'].pop('junk', None)
        case['objs'].append(o)
    # objects of the reader which hold them
    case['embed'] = []
    ronly = only_members(L[r], L[w])
    opts = [o for o in embeddable(L[r], sid, []) if o[1] in ronly.get(o[0], [o[1]])
            or field_path(L[r], o[0], o[1])['disc'] is None]
    for _ in range(2):
        if not opts:
            break
        s, name, how = g.pick(opts)
        f = [x for x in L[r]['structs'][s]['fields'] if x['name'] == name][0]
        base = gen.ValueGen(g, L[r], budget=4, omit=60, only=ronly).struct(s)
        if f['disc'] is not None:
            for x in L[r]['structs'][s]['fields']:
                if x['disc'] is not None:
                    base.pop(x['name'], None)
            base['#'] = name
        base.pop(name, None)
        e = {'s': L[r]['structs'][s]['name'], 'f': name, 'how': how, 'v': base, 'items': []}
        n = 1 if how == 'field' else g.int(0, 4)
        for _ in range(n):
            if how != 'field' and gen.ctorable(L[r], sid) and g.chance(30):
                e['items'].append(['own', gen.ValueGen(g, L[r], budget=4, only=ronly).struct(sid)])
            else:
                e['items'].append(['obj', g.int(0, len(case['objs']) - 1)])
        case['embed'].append(e)
    return case


def field_path(L, sid, name):
    return [f for f in L['structs'][sid]['fields'] if f['name'] == name][0]


def run(case, ctx):
    labels = set()
    w = case['w']
    r = 'old' if w == 'new' else 'new'
    for config in case['configs']:
        S = {'old': sch(ctx, case['old'], config), 'new': sch(ctx, case['new'], config)}
        for k in ('old', 'new', 'old'):     # a worker may forget the first one to load the second
            ctx.load(config, S[k])
        labels.update(['config ' + config, 'written with the %s schema' % w])
        LW, LR = S[w].L, S[r].L
        sid = S[w].id(case['s'])
        assert sid == S[r].id(case['s'])
        if any(LW['structs'][x]['dw'] != LR['structs'][x]['dw'] or LW['structs'][x]['pw'] != LR['structs'][x]['pw']
               for x in [sid]):
            labels.add('sizes differ')
        prog, objs = [], []
        for x in case['objs']:
            v = complete(LW, sid, x['v'])
            if x['ctor']:
                prog.append(['build', S[w].key, sid, x['v'], {}])
                prog.append(['dumps', {'$': len(prog) - 1}, True])
                msg = len(prog) - 1
                prog.append(['loads', S[r].key, sid, {'$': msg}])
            else:
                m = wire.frame(wire.Encoder(LW, x['plan']).encode(sid, x['v']))
                msg = m
                prog.append(['loads', S[r].key, sid, m.decode('latin-1')])
            reg = len(prog) - 1
            prog.append(['observe', S[r].key, sid, {'$': reg}])
            prog.append(['dumps', {'$': reg}, True])
            prog.append(['dumps', {'$': reg}, False])
            prog.append(['compact', {'$': reg}])
            prog.append(['dumps', {'$': len(prog) - 1}, True])
            prog.append(['observe_ptrs', S[r].key, sid, {'$': reg}])
            objs.append((reg, msg, v))
        embeds = []
        for e in case['embed']:
            es = S[r].id(e['s'])
            items = []
            for kind, x in e['items']:
                if kind == 'own':
                    prog.append(['build', S[r].key, sid, x, {}])
                    items.append((len(prog) - 1, None, x))
                else:
                    items.append((objs[x][0], x, None))
            prog.append(['build_holding', S[r].key, es, e['v'], e['f'], e['how']] + [{'$': i[0]} for i in items])
            reg = len(prog) - 1
            prog.append(['dumps', {'$': reg}, True])
            prog.append(['observe', S[r].key, es, {'$': reg}])
            prog.append(['loads', S[w].key, es, {'$': reg + 1}])
            prog.append(['observe', S[w].key, es, {'$': reg + 3}])
            embeds.append((reg, es, e, items))
        res = ctx.run(config, prog)
        for i, a in enumerate(res):
            val(a, prog[i][0], config)
        seen = []
        for n, (reg, msg, v) in enumerate(objs):
            what = 'object %d of %s, written with the %s schema' % (n, case['s'], w)
            if not isinstance(msg, bytes):
                msg = res[msg]['v'].encode('latin-1')
                expect_same(wire.read(LW, sid, msg), v, what, config)
            exp = wire.read(LR, sid, msg)
            seen.append(exp)
            if not same(complete(LR, sid, exp), complete(LR, sid, common_part(LR, sid, v))):
                labels.add('something missing or unknown')
            expect_same(res[reg + 1]['v'], exp, what + ', read with the other', config)
            for i, how in ((2, 'dumps()'), (3, 'dumps(fastpath=False)'), (5, 'compact().dumps()')):
                expect_same(wire.read(LW, sid, res[reg + i]['v'].encode('latin-1')), v,
                            '%s, read and written again with the other by %s' % (what, how), config)
        for reg, es, e, items in embeds:
            what = '%s.%s made with the %s schema' % (e['s'], e['f'], r)
            dump = res[reg + 1]['v'].encode('latin-1')

            def value_of(own, obj):
                vs = [obj(k) if k is not None else own(x) for _, k, x in items]
                return vs[0] if e['how'] == 'field' else vs if e['how'] == 'list' else [vs, vs[:1]]
            exp = complete(LR, es, e['v'])
            exp[e['f']] = value_of(lambda x: complete(LR, sid, x), lambda k: seen[k])
            expect_same(wire.read(LR, es, dump), exp, 'message of ' + what, config)
            expect_same(res[reg + 2]['v'], exp, what, config)
            other = wire.read(LW, es, dump)
            expect_same(res[reg + 4]['v'], other, what + ' read with the other schema', config)
            if e['f'] not in other:     # a new field
                continue
            got = other[e['f']]
            flat = [got] if e['how'] == 'field' else got if e['how'] == 'list' else got[0]
            for j, (_, k, x) in enumerate(items):
                if k is not None:
                    expect_same(flat[j], objs[k][2], 'item %d of %s' % (j, what), config)
            labels.add('stored in a ' + e['how'])
            if len(items) > 1:
                labels.add('several objects in a list')
            if any(x[1] is None for x in items):
                labels.add('with objects of the reader')
    return labels


def common_part(L, sid, v):
    return dict((k, x) for k, x in v.items() if k == '#' or any(f['name'] == k for f in L['structs'][sid]['fields'])) \
        if '#' not in v or any(f['name'] == v['#'] and f['disc'] is not None for f in L['structs'][sid]['fields']) else {}


def nontrivial(labels):
    return 'sizes differ' in labels or 'something missing or unknown' in labels
