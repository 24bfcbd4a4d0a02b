"""C24: AnyPointer fields classify and cast correctly"""
import gen
import pyxpool
import wire
from common import *

ID = 'C24'
PLUGINS = ['ops_any.py']
RULE = ('structs with AnyPointer fields (plain, in groups, in unions, nested inside the targets), '
        'holding null, structs, text, data and lists of all types, encoded with random layouts; '
        'classification, casts and dumps() compared with the encoded value. non-trivial: at least '
        'two AnyPointers which are not null')
EXAMPLES = {'quick': 6000, 'thorough': 80000}
SECONDS = {'quick': 30, 'thorough': 900}


def prepare(tier, seed):
    pyxpool.prepare(tier, seed)


class Values(gen.ValueGen):
    types = None

    def value(self, t, item=False):
        if t != 'AnyPointer':
            return gen.ValueGen.value(self, t, item)
        g, L = self.g, self.L
        if self.budget <= 0 or g.chance(20):
            return None
        self.budget -= 1
        roots = gen.plain_structs(L)
        r = g.int(0, 9)
        if r < 2:
            t = 'Text'
        elif r < 3:
            t = 'Data'
        elif r < 6:
            t = ['struct', g.pick(roots)]
        else:
            t = ['list', self.elem(0)]
        return {'any': t, 'v': gen.ValueGen.value(self, t, True)}

    def elem(self, depth):
        g = self.g
        r = g.int(0, 9)
        if r < 4:
            return g.pick(gen.PRIMS + ['Void', 'UInt8', 'Int8'])
        if r < 6:
            return g.pick(['Text', 'Data'])
        if r < 7 and gen.plain_enums(self.L):
            return ['enum', g.pick(gen.plain_enums(self.L))]
        if r < 8 and depth < 2:
            return ['list', self.elem(depth + 1)]
        return ['struct', g.pick(gen.plain_structs(self.L))]


def make(g, tier):
    if g.chance(15):
        case = pyxpool.pick(g)
        case['configs'] = ['pyxmode']
    else:
        case = gen_case_schema(g, anyptr=25, anyptr_union=25, max_fields=5, void=1)
        case['configs'] = g.weighted([(['pyx'], 6), (['pure'], 4), (['pypy'], 1)])
    L = layout_of(case)
    roots = [i for i in gen.plain_structs(L) if mentions_any(L, i)]
    if not roots:
        import hypothesis
        hypothesis.assume(False)
    case['vals'] = []
    for _ in range(g.int(1, 3)):
        sid = g.pick(roots)
        case['vals'].append({'s': L['structs'][sid]['name'], 'plan': gen.gen_plan(g),
                             'v': Values(g, L, ctor=False, full=True, null=10, budget=25).struct(sid),
                             'via': g.pick(['loads', 'loads', 'compact', 'redump']),
                             'style': g.pick(['type', 'itemtype', 'py']), 'uni': g.chance(50)})
    return case


def mentions_any(L, sid):
    for f in L['structs'][sid]['fields']:
        if f['kind'] == 'group':
            if mentions_any(L, f['gid']):
                return True
        elif f['type'] == 'AnyPointer':
            return True
    return False


def strip(x):
    """What reading shows: the AnyPointers are opaque"""
    if isinstance(x, dict):
        if 'any' in x and 'v' in x and len(x) == 2:
            return {'any': '?', 'v': None}
        return {k: strip(v) for k, v in x.items()}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


class Checker(object):
    def __init__(self, S, x, config, labels):
        self.S, self.L, self.x, self.config, self.labels = S, S.L, x, config, labels
        self.prog = []
        self.checks = []

    def op(self, *o):
        self.prog.append(list(o))
        return len(self.prog) - 1

    def expect(self, want, what, *o):
        i = self.op(*o)
        self.checks.append((i, want, what))
        return i

    def struct(self, reg, sid, mval, path):
        """All the AnyPointers in a struct"""
        for f in self.L['structs'][sid]['fields']:
            if f['name'] not in mval:
                continue
            v = mval[f['name']]
            p = path + '.' + f['py']
            if f['kind'] == 'group':
                if not f.get('nullable'):
                    r = self.op('path', {'$': reg}, [f['py']])
                    self.struct(r, f['gid'], v, p)
            elif f['type'] == 'AnyPointer':
                if f['disc'] is None or v is not None:
                    self.any(reg, f['py'], v, p)
            elif v is not None and isinstance(f['type'], list) and f['type'][0] == 'struct':
                if mentions_any(self.L, f['type'][1]):
                    r = self.op('path', {'$': reg}, [f['py']])
                    self.struct(r, f['type'][1], v, p)
            elif v and isinstance(f['type'], list) and f['type'][0] == 'list':
                self.list(reg, f['py'], f['type'], v, p)

    def list(self, reg, py, t, v, p):
        if isinstance(t[1], list) and t[1][0] == 'struct' and mentions_any(self.L, t[1][1]):
            for i, x in enumerate(v):
                r = self.op('path', {'$': reg}, [py, i] if py else [i])
                self.struct(r, t[1][1], x, '%s[%d]' % (p, i))

    def any(self, reg, py, v, p):
        self.expect(v is not None, '%s: has_%s()' % (p, py), 'call', {'$': reg}, 'has_' + py)
        a = self.op('path', {'$': reg}, [py])
        if v is None:
            self.expect(True, p + ' is None', 'isnone', {'$': a})
            self.labels.add('null')
            return
        t, v = v['any'], v['v']
        self.labels.add(t if isinstance(t, str) else t[0])
        blob = t in ('Text', 'Data') or t in (['list', 'UInt8'], ['list', 'Int8'])
        is_list = t in ('Text', 'Data') or t[0] == 'list'
        self.expect([not is_list, is_list, blob, blob], '%s (a %s): [is_struct, is_list, is_text, '
                    'is_data]' % (p, t), 'any_kinds', {'$': a})
        if t == 'Text':
            b = v.encode('utf-8').decode('latin-1')
            self.expect([b, b + '\0', v], p + ': as_text/as_data', 'any_blob', {'$': a})
        elif t == 'Data':
            i = self.op('any_blob', {'$': a})
            self.checks.append((i, ('data', v), p + ': as_data'))
        elif t[0] == 'struct':
            r = self.op('any_struct', self.S.key, t[1], {'$': a})
            want = strip(wire.complete(self.L, t[1], v))
            self.expect(want, p + ': as_struct(%s)' % self.L['structs'][t[1]]['name'],
                        'observe', self.S.key, t[1], {'$': r})
            d = self.op('call', {'$': a}, 'dumps')
            self.checks.append((d, ('dumps', t[1], want), p + ': dumps()'))
            r2 = self.op('loads', self.S.key, t[1], {'$': d})
            self.expect(want, p + ': dumps() and loads()', 'observe', self.S.key, t[1], {'$': r2})
            self.struct(r, t[1], v, p + '.as_struct')
        else:
            want = strip(v)
            uni = self.x['uni']
            r = self.op('any_list', self.S.key, t[1], uni, self.x['style'], {'$': a})
            self.checks.append((r, want if t[1] != 'Bool' or True else None,
                                p + ': as_list(%s)' % (t[1],)))
            self.list(r, None, t, v, p + '.as_list')


def run(case, ctx):
    labels = set()
    n = 0
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        for x in case['vals']:
            sid = S.id(x['s'])
            msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
            c = Checker(S, x, config, labels)
            r = c.op('loads', S.key, sid, msg.decode('latin-1'))
            if x['via'] == 'compact':
                r = c.op('compact', {'$': r})
            elif x['via'] == 'redump':
                r = c.op('loads', S.key, sid, {'$': c.op('dumps', {'$': r}, True)})
            c.struct(r, sid, wire.complete(L, sid, x['v']), x['s'])
            ans = ctx.run(config, c.prog)
            for i, want, what in c.checks:
                what += ' (via %s)' % x['via']
                got = val(ans[i], what, config)
                if isinstance(want, tuple) and want[0] == 'data':
                    if got[1] != want[1]:
                        raise Violation('[%s] %s: %r instead of %r' % (config, what, got[1], want[1]))
                elif isinstance(want, tuple):
                    b = got.encode('latin-1')
                    try:
                        wire.untyped(b, strict=True)
                        v = wire.read(L, want[1], b)
                    except WireError as e:
                        raise Violation('[%s] %s: bad message: %s\n%r' % (config, what, e, b))
                    expect_same(v, want[2], what, config)
                else:
                    if not same(got, want):
                        raise Violation('[%s] %s: %s (got vs expected)' % (config, what, diff(got, want)))
                n += 1
            if any(x['plan'].get(k) for k in ('nseg', 'far', 'dfar')):
                labels.add('far pointers')
            labels.add('via ' + x['via'])
    if n >= 4:
        labels.add('nt')
    return labels
