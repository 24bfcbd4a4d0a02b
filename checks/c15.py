"""C15: lists are immutable Python sequences of their items"""
import gen
import layout
import pyxpool
import wire
from common import *

ID = 'C15'
PLUGINS = ['ops_list.py']
RULE = ('structs full of lists (all element types, nested lists), built by constructors or encoded '
        'with random layouts; random queries (len, positive/negative/out of range indexes, slices, '
        'iteration, reversed, in, ==, != against Python lists and other lists, ordering, attempts to '
        'modify) compared with the Python list of the items. non-trivial: at least 2 kinds of lists '
        'with items, and an index or slice which is negative or out of range')
EXAMPLES = {'quick': 6000, 'thorough': 80000}
SECONDS = {'quick': 30, 'thorough': 900}


def prepare(tier, seed):
    pyxpool.prepare(tier, seed)


class Gen(gen.SchemaGen):
    def slot(self, names, in_union):
        g = self.g
        if g.chance(75):
            return {'k': 'slot', 'name': names.new(), 'type': ['list', self.elem(0)]}
        return gen.SchemaGen.slot(self, names, in_union)


def gen_case(g):
    if g.chance(20):
        case = pyxpool.pick(g)
        case['configs'] = ['pyxmode']
        return case
    ast = Gen(g, void_lists=True, groups=6, unions=8).ast()
    kw = {}
    if g.chance(40):
        kw['unicode_'] = True
        ast['ann'] = ['$Py.options(textType=unicode)']
    return {'files': {'sch.capnp': layout.render(ast)}, 'kw': kw,
            'configs': g.weighted([(['pyx'], 6), (['pure'], 4), (['pypy'], 1)])}


def list_paths(L, sid, mval, pys=(), out=None):
    """-> [(python path, item type, unicode, items)]"""
    out = [] if out is None else out

    def lst(t, v, path, uni):
        if len(out) > 40:
            return
        out.append((path, t[1], uni, v))
        if isinstance(t[1], list) and t[1][0] == 'list':
            for i, x in enumerate(v):
                lst(t[1], [] if x is None else x, path + [i], uni)
        elif isinstance(t[1], list) and t[1][0] == 'struct':
            for i, x in enumerate(v):
                list_paths(L, t[1][1], x, path + [i], out)

    for f in L['structs'][sid]['fields']:
        v = mval.get(f['name'])
        if v is None:
            continue
        p = list(pys) + [f['py']]
        if f['kind'] == 'group':
            if not f.get('nullable'):
                list_paths(L, f['gid'], v, p, out)
        elif isinstance(f['type'], list) and f['type'][0] == 'struct':
            list_paths(L, f['type'][1], v, p, out)
        elif isinstance(f['type'], list) and f['type'][0] == 'list':
            lst(f['type'], v, p, f.get('uni'))
    return out


def comparable(t):
    while isinstance(t, list) and t[0] == 'list':
        t = t[1]
    return not (isinstance(t, list) and t[0] == 'struct')


def gen_queries(g, L, t, items):
    n = len(items)
    qs = []
    idx = lambda: g.pick([0, -1, n, n - 1, -n, -n - 1, n + 1, g.int(-3, 70), 2 ** 40, 2 ** 70, -2 ** 70])
    for _ in range(g.int(3, 8)):
        k = g.weighted([('get', 5), ('slice', 5), ('eq', 4), ('in', 2), ('plain', 4), ('lt', 1),
                        ('bad', 1), ('mut', 2)])
        if k == 'get':
            qs.append(['get', idx()])
        elif k == 'slice':
            s = lambda: None if g.chance(25) else idx()
            step = g.pick([None, 1, -1, 2, -2, 3, 100, -100]) if g.chance(98) else 0
            qs.append(['slice', s(), s(), step])
        elif k == 'eq':
            qs.append([g.pick(['eq', 'ne', 'req', 'rne']), mutated(g, L, t, items)])
        elif k == 'in':
            if comparable(['list', t]):
                qs.append(['in', g.pick(items) if items and g.chance(60) else other_item(g, L, t)])
        elif k == 'plain':
            qs.append([g.pick(['len', 'iter', 'list', 'reversed', 'bool', 'iter2'])])
            if g.chance(20):
                qs.append(['eqother', g.pick(['none', 'int', 'tuple', 'str', 'object'])])
        elif k == 'lt':
            qs.append(['lt', g.int(0, 3), g.pick(['list', 'self'])])
        elif k == 'bad':
            qs.append(['badindex', g.pick(['str', 'none', 'tuple'])])
        else:
            qs.append(g.pick([['set', idx()], ['del', idx()], ['setslice'], ['mutator', 'append', 1],
                              ['mutator', 'sort'], ['mutator', 'clear'], ['setattr', 'foo']]))
    return qs


def other_item(g, L, t):
    return gen.ValueGen(g, L, ctor=False, full=True, budget=4).value(t, True)


def mutated(g, L, t, items):
    """A list of items equal to, or slightly different from, the given one"""
    if not comparable(['list', t]):
        return []
    items = list(items)
    r = g.int(0, 5)
    if r < 3:
        return items
    if r == 3 and items:
        items[g.int(0, len(items) - 1)] = other_item(g, L, t)
    elif r == 4 and items:
        del items[g.pick([0, -1])]
    else:
        items.append(other_item(g, L, t))
    return items


def make(g, tier):
    case = gen_case(g)
    L = layout_of(case)
    sid = g.pick(gen.plain_structs(L))
    case['s'] = L['structs'][sid]['name']
    objs = []
    for k in range(g.int(1, 2)):
        if k and g.chance(70):
            # the same value, stored in another way
            x = {'v': objs[0]['v'], 'ctor': False}
        else:
            ctor = gen.ctorable(L, sid) and g.chance(40)
            v = gen.ValueGen(g, L, ctor=ctor, full=True, null=5, budget=20).struct(sid)
            x = {'v': v, 'ctor': ctor}
        if not x['ctor']:
            x['plan'] = gen.gen_plan(g)
        objs.append(x)
    for x in objs:
        paths = list_paths(L, sid, wire.complete(L, sid, x['v']))
        x['q'] = []
        for path, t, uni, items in (g.shuffled(paths)[:5] if len(paths) > 5 else paths):
            x['q'].append([path, t, uni, items, gen_queries(g, L, t, items)])
    case['objs'] = objs
    # pairs of lists to compare
    case['pairs'] = []
    a, b = objs[0]['q'], objs[-1]['q']
    if a and b:
        for _ in range(g.int(0, 4)):
            case['pairs'].append([g.int(0, len(a) - 1), g.int(0, len(b) - 1)])
        case['pairs'] += [[i, i] for i in range(min(len(a), len(b)))]
    return case


def pyval(t, v, uni=False):
    """A model of the Python object which compares like the item"""
    if v is None:
        return None
    if t in ('Float32', 'Float64'):
        return float(v) + 0.0 if v == v else float('nan')
    if isinstance(t, list) and t[0] == 'list':
        return [pyval(t[1], x) for x in v]
    return v


def has_nan(x):
    if isinstance(x, list):
        return any(has_nan(y) for y in x)
    return isinstance(x, float) and x != x


def expected(t, items, q):
    """-> ['v', value] | ['exc', name]"""
    name = q[0]
    n = len(items)
    cmp_ok = comparable(['list', t])
    if name == 'len':
        return ['v', n]
    if name == 'bool':
        return ['v', bool(items)]
    if name == 'get':
        try:
            return ['v', items[q[1]]]
        except IndexError:
            return ['exc', 'IndexError']
    if name == 'slice':
        try:
            return ['v', items[slice(*q[1:])]]
        except ValueError:
            return ['exc', 'ValueError']
    if name in ('iter', 'list'):
        return ['v', list(items)]
    if name == 'iter2':
        return ['v', list(items) + list(items[1:])]
    if name == 'reversed':
        return ['v', items[::-1]]
    if name == 'in':
        return ['v', any(pyval(t, x) == pyval(t, q[1]) for x in items)]
    if name in ('eq', 'ne', 'req', 'rne'):
        if not cmp_ok:
            return ['exc', 'TypeError']
        eq = [pyval(t, x) for x in items] == [pyval(t, x) for x in q[1]]
        return ['v', eq == name.endswith('eq')]
    if name == 'eqother':
        if not cmp_ok:
            return ['exc', 'TypeError']
        return ['v', [False, True]]
    if name == 'lt':
        return ['exc', 'TypeError']
    if name == 'badindex':
        return ['exc', 'TypeError']
    if name in ('set', 'del', 'setslice'):
        return ['exc', ('TypeError', 'AttributeError', 'IndexError')]
    if name == 'setattr':
        return None
    if name == 'mutator':
        return ['exc', 'AttributeError']
    raise ValueError(name)


def kind(t):
    if isinstance(t, str):
        return t
    return t[0] if t[0] != 'list' else 'list of ' + kind(t[1])


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        sid = S.id(case['s'])
        prog = []
        where = {}
        for k, x in enumerate(case['objs']):
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], {}])
                labels.add('built')
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
                labels.add('loaded')
            root = len(prog) - 1
            for i, (path, t, uni, items, qs) in enumerate(x['q']):
                prog.append(['path', {'$': root}, path])
                prog.append(['lquery', S.key, t, uni, {'$': len(prog) - 1},
                             qs + [['iter'], ['len']]])
                where[k, i] = len(prog) - 1
        first = len(prog)
        last = len(case['objs']) - 1
        for i, j in case['pairs']:
            prog.append(['leq', {'$': where[0, i]}, {'$': where[last, j]}])
        r = ctx.run(config, prog)
        for (k, i), pos in where.items():
            path, t, uni, items, qs = case['objs'][k]['q'][i]
            got = val(r[pos], 'list %s of %s' % (path, case['s']), config)
            for q, a in zip(qs + [['iter'], ['len']], got):
                if config == 'pypy' and q[0] in ('in', 'eq', 'ne', 'req', 'rne') and has_nan(items):
                    continue        # two NaNs are identical there, and thus equal in a list
                check(config, path, t, items, q, a)
                if q[0] in ('get', 'slice') and (q[1] is not None) and (q[1] < 0 or q[1] >= len(items)):
                    labels.add('negative or out of range')
                labels.add(q[0])
            labels.add('list of ' + kind(t) + ('' if items else ' (empty)'))
        for n, (i, j) in enumerate(case['pairs']):
            pa, ta, _, ia, _ = case['objs'][0]['q'][i]
            pb, tb, _, ib, _ = case['objs'][last]['q'][j]
            got = val(r[first + n], 'comparison', config)
            what = 'comparing %s (%s) with %s (%s)' % (pa, ta, pb, tb)
            if not comparable(['list', ta]) or not comparable(['list', tb]):
                for z in got[:2] if not comparable(['list', ta]) else got[2:]:
                    if not isinstance(z, list) or 'TypeError' not in z:
                        raise Violation('[%s] %s: %r instead of TypeError' % (config, what, z))
                continue
            if ta != tb or (config == 'pypy' and has_nan(ia)):
                continue
            eq = [pyval(ta, x) for x in ia] == [pyval(tb, x) for x in ib]
            if got != [eq, not eq, eq]:
                raise Violation('[%s] %s: [==, !=, reversed ==] is %r, items %r and %r'
                                % (config, what, got, ia, ib))
            labels.add('two lists equal' if eq else 'two lists different')
    return labels


def check(config, path, t, items, q, a):
    want = expected(t, items, q)
    if want is None:
        return
    what = '[%s] list %s of %s: %s' % (config, path, t, q)
    if want[0] == 'exc':
        names = want[1] if isinstance(want[1], tuple) else (want[1],)
        if a[0] != 'exc' or not any(n in a[1] for n in names):
            raise Violation('%s: %r instead of %s (%d items)' % (what, a, want[1], len(items)))
    elif a[0] != 'v' or not same(a[1], want[1]):
        raise Violation('%s: %r instead of %r' % (what, a, want[1]))


def nontrivial(labels):
    n = len([x for x in labels if x.startswith('list of') and '(empty)' not in x])
    return n >= 2 and 'negative or out of range' in labels
