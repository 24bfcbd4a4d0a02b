"""C20: objects never change, whatever is done with them"""
import gen
import wire
from common import *

ID = 'C20'
PLUGINS = ['ops_history.py']
RULE = ('histories of 4-20 steps on a set of objects: built (their arguments are changed afterwards), loaded '
        '(the file is overwritten afterwards), sub-objects taken and parents dropped, objects and lists '
        'embedded in new objects, dumped, hashed, compared, pickled, compacted, iterated, assigned to. After '
        'the steps the value, bytes, dumps(), shortrepr() and hash() of all the objects must be the ones '
        'of the beginning, and the values the ones of the model. non-trivial: at least 3 objects, one made '
        'from another one')
EXAMPLES = {'quick': 3000, 'thorough': 40000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=16, nullable=5, vgroups=10, keys=25, unions=14, max_structs=3, nest=30)
BACKENDS = ['pyx', 'pure', 'pypy', 'asan']

POOL = [('''
struct Node $Py.key("id, name") {
  id @0 :Int32; name @1 :Text; next @2 :Node; all @3 :List(Node); leaf @4 :Leaf; leaves @5 :List(Leaf);
  struct Leaf $Py.key("a, b") { a @0 :UInt8 = 7; b @1 :Data; kind @2 :Kind; l @3 :List(Int16); lt @4 :List(Text);
    enum Kind { x @0; y @1; } }
  g :group { p @6 :Leaf; q @7 :Int64; ps @8 :List(Leaf); h :group { t @9 :Node; } }
  union { none @10 :Void; one @11 :Leaf; two @12 :List(Node); three :group { z @13 :Text; w @14 :Leaf; } }
  view @15 :Void $Py.group("leaf, id") $Py.key("id"); lb @16 :List(Bool); lt @17 :List(Text); lf @18 :List(Float64);
  n :group $Py.nullable { isNull @19 :Int8; value @20 :Int64; } ll @21 :List(List(Leaf)); ld @22 :List(Data);
}
''', {})]
pool = Pool('c20', POOL, CFG)
prepare = pool.prepare
ACTS = ['dumps', 'dump', 'repr', 'hash', 'compare', 'pickle', 'raw', 'compact', 'read', 'methods', 'assign',
        'items', 'equal-to-tuple', 'threads']


def slots(L, sid, out, path=(), in_union=False):
    """Fields of a struct and its groups: [(path, field, in_union)]"""
    for f in L['structs'][sid]['fields']:
        if f.get('nullable') or f.get('vgroup'):
            continue
        u = in_union or f['disc'] is not None
        if f['kind'] == 'group':
            slots(L, f['gid'], out, path + (f['name'],), u)
        else:
            out.append((path + (f['name'],), f, u))
    return out


def prepare_value(L, sid, v, path):
    """v with room for the field at the end of the path: groups present, right member
    of the unions"""
    v = dict(v)
    f = [x for x in L['structs'][sid]['fields'] if x['name'] == path[0]][0]
    if f['disc'] is not None:
        for x in L['structs'][sid]['fields']:
            if x['disc'] is not None and x['name'] != path[0]:
                v.pop(x['name'], None)
        v['#'] = path[0]
    if len(path) > 1:
        v[path[0]] = prepare_value(L, f['gid'], v.get(path[0]) or {}, path[1:])
    return v


def put(v, path, x):
    v = dict(v)
    v[path[0]] = x if len(path) == 1 else put(v[path[0]], path[1:], x)
    return v


def is_list_of(t, sid):
    n = 0
    while isinstance(t, list) and t[0] == 'list':
        t = t[1]
        n += 1
    return n if t == ['struct', sid] and n else 0


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2), (['asan'], 2)])
    L = layout_of(case)
    roots = gen.plain_structs(L)
    ctors = [s for s in roots if gen.ctorable(L, s)]
    allslots = dict((s, slots(L, s, [])) for s in ctors)
    live = {}           # key -> (sid, value, true struct?)
    steps = []
    count = [0]

    def key():
        count[0] += 1
        return count[0]

    def fresh():
        k = key()
        if ctors and g.chance(50):
            sid = g.pick(ctors)
            v = gen.ValueGen(g, L, budget=12).struct(sid)
            steps.append(['new', k, sid, v, {'seq': g.pick(['list', 'list', 'tuple'])}])
        else:
            sid = g.pick(roots)
            v = gen.ValueGen(g, L, ctor=False, full=True, budget=12).struct(sid)
            msg = wire.frame(wire.Encoder(L, gen.gen_plan(g)).encode(sid, v))
            steps.append(['load', k, sid, msg.decode('latin-1'), g.pick(['loads', 'file', 'bytearray'])])
        live[k] = (sid, complete(L, sid, v))

    fresh()
    for _ in range(g.int(3, 20)):
        r = g.int(0, 19)
        if not live or r < 3 and len(live) < 7:
            fresh()
            continue
        i = g.pick(sorted(live))
        sid, v = live[i]
        if r < 6 and len(live) < 8:
            ps = struct_paths(L, sid, v)[1:]
            if ps:
                p, s2, v2 = g.pick(ps)
                k = key()
                steps.append(['sub', k, i, p, s2])
                live[k] = (s2, v2)
                if g.chance(40):
                    steps.append(['drop', i, True])
                    del live[i]
        elif r < 11 and len(live) < 8:
            # embed
            opts = []
            for s2 in ctors:
                for p, f, u in allslots[s2]:
                    t = f['type']
                    if t == ['struct', sid]:
                        opts.append((s2, p, ['field'], v))
                    elif is_list_of(t, sid):
                        d = is_list_of(t, sid)
                        n = g.int(1, 3)
                        if d == 1:
                            opts.append((s2, p, ['list', n], [v] * n))
                        elif d == 2:
                            m = g.int(1, 2)
                            opts.append((s2, p, ['list', n, m], [[v] * n] * m))
                    if isinstance(t, list) and t[0] == 'list' and t[1] != 'AnyPointer':
                        for f2 in L['structs'][sid]['fields']:
                            if f2['kind'] == 'slot' and f2['type'] == t and f2['name'] in v \
                                    and bool(f2.get('uni')) == bool(f.get('uni')) and v[f2['name']] is not None:
                                if t[1] == 'Bool':
                                    continue
                                opts.append((s2, p, ['attr', [f2['py']]], v[f2['name']]))
            if opts:
                s2, p, shape, x = g.pick(opts)
                k = key()
                base = prepare_value(L, s2, gen.ValueGen(g, L, budget=5, omit=60).struct(s2), p)
                steps.append(['embed', k, i, s2, base, list(p), shape, {}])
                live[k] = (s2, complete(L, s2, put(base, p, x)))
                if g.chance(25):
                    steps.append(['drop', i, g.chance(50)])
                    del live[i]
        elif r < 12:
            steps.append(['drop', i, g.chance(50)])
            del live[i]
        else:
            steps.append(['act', i, g.pick(ACTS), g.int(0, 20), [g.pick(sorted(live)) for _ in range(2)]])
    case['steps'] = steps
    case['end'] = [[k, list(live[k])] for k in sorted(live)]
    return case


def null_items(x):
    return x


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        ctx.load(config, S)
        labels.add('config ' + config)
        r = ctx.run(config, [['history', S.key, case['steps']]])
        got = dict((k, v) for k, v in val(r[0], 'history', config))
        for k, (sid, v) in case['end']:
            expect_same(got[k], v, 'object %d at the end of the history' % k, config)
    made = 0
    objs = 0
    for s in case['steps']:
        labels.add(s[0] if s[0] != 'act' else s[2])
        if s[0] in ('sub', 'embed'):
            made += 1
            objs += 1
            if s[0] == 'embed':
                labels.add('embed ' + s[6][0])
        elif s[0] in ('new', 'load'):
            objs += 1
    if objs >= 3 and made:
        labels.add('nt')
    return labels


def nontrivial(labels):
    return 'nt' in labels
