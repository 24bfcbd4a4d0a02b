"""C01: what a constructor is given is what is read back"""
import gen
import pyxpool
from common import *

ID = 'C01'
PLUGINS = ['ops_big.py']
BACKENDS = ['pyx', 'pure', 'pypy', 'asan']
RULE = ('a random schema (structs, enums, groups, unions, lists, defaults, options) and random '
        'in-range values, some fields left out, given to the constructors of capnpy on several '
        'configurations; sometimes values of up to 3 MB; non-trivial: at least 4 different kinds of '
        'fields/values are exercised, or a big value')
EXAMPLES = {'quick': 4000, 'thorough': 40000}
SECONDS = {'quick': 30, 'thorough': 900}


def prepare(tier, seed):
    pyxpool.prepare(tier, seed)


def gen_values(g, case, L, n):
    roots = [i for i in gen.plain_structs(L) if gen.ctorable(L, i)]
    vals = []
    for _ in range(n):
        sid = g.pick(roots)
        vals.append({'s': L['structs'][sid]['name'],
                     'v': gen.ValueGen(g, L, nul=g.chance(10)).struct(sid),
                     'style': gen_style(g)})
    return vals


def gen_style(g):
    st = {}
    if g.chance(30):
        st['pos'] = True
    if g.chance(40):
        st['new'] = True
    if g.chance(30):
        st['enum'] = 'member'
    if g.chance(30):
        st['seq'] = 'tuple'
    return st


def make_case(g, tier, **cfg):
    if g.chance(25):
        case = pyxpool.pick(g)
        case['configs'] = ['pyxmode']
    else:
        case = gen_case_schema(g, **cfg)
        case['configs'] = g.weighted([(['pyx'], 4), (['pure'], 3), (['pyx', 'pure'], 4),
                                      (['pypy'], 1)])
    L = layout_of(case)
    case['vals'] = gen_values(g, case, L, g.int(1, 3))
    return case


BIG = {'files': {'sch.capnp': '''@0xd1a2b3c4d5e6f70b;
struct Big { a @0 :Int8; z @1 :Int64; d @2 :Data; t @3 :Text; l @4 :List(Int64); b @5 :List(Int8);
  x @6 :List(Data); s @7 :List(Big); }
'''}, 'kw': {}}


def make(g, tier):
    if not g.chance(99):
        kinds = g.shuffled(['d', 't', 'l', 'b', 'x', 's'])
        sizes = dict((k, g.int(0, 3)) for k in kinds)
        for k in kinds[:g.pick([1, 1, 2])]:
            n = g.pick([3 << 20, 5 << 20, 1 << 20, 1 << 18, (1 << 16) - 1, 1 << 16, (1 << 16) + 1, 1 << 14, 100])
            sizes[k] = g.int(n // 2, n) // {'d': 1, 't': 1, 'l': 8, 'b': 8, 'x': 60, 's': 600}[k]
        return {'big': True, 'sizes': sizes, 'seed': g.int(0, 1 << 20), 'order': g.shuffled(kinds),
                'configs': g.weighted([(['pyx'], 4), (['pure'], 2), (['pypy'], 1), (['asan'], 3)])}
    return make_case(g, tier)


def run_big(case, ctx):
    config = case['configs'][0]
    S = sch(ctx, BIG)
    ctx.load(config, S)
    r = ctx.run(config, [['big', S.key, S.id('Big'), case['sizes'], case['seed'], case['order']]])
    n = val(r[0], 'a big object with %s' % case['sizes'], config)
    return {'config ' + config, 'config: big'} | set('big ' + k for k, x in case['sizes'].items() if x > 3) | {
        'size 1<<%d' % n.bit_length()}


def run(case, ctx):
    if case.get('big'):
        return run_big(case, ctx)
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        for x in case['vals']:
            sid = S.id(x['s'])
            want = complete(L, sid, x['v'])
            prog = [['build', S.key, sid, x['v'], x['style']],
                    ['observe', S.key, sid, {'$': 0}],
                    ['dumps', {'$': 0}, True],
                    ['loads', S.key, sid, {'$': 2}],
                    ['observe', S.key, sid, {'$': 3}],
                    ['dump', {'$': 0}],
                    ['load', S.key, sid, {'$': 5}, 'bytesio'],
                    ['observe', S.key, sid, {'$': 6}]]
            r = ctx.run(config, prog)
            expect_same(val(r[0], 'constructor of %s' % x['s'], config) or
                        val(r[1], 'reading %s' % x['s'], config), want, 'value of %s' % x['s'], config)
            val(r[2], 'dumps', config)
            val(r[3], 'loads', config)
            expect_same(val(r[4], 'reading after loads', config), want,
                        'value of %s after dumps and loads' % x['s'], config)
            val(r[5], 'dump', config)
            val(r[6], 'load', config)
            expect_same(val(r[7], 'reading after load', config), want,
                        'value of %s after dump and load' % x['s'], config)
            labels |= gen.labels_of(L, sid, x['v'])
            labels.update('style ' + k for k in x['style'])
    return labels


def nontrivial(labels):
    return len([x for x in labels if not x.startswith(('config', 'style'))]) >= 4 or 'config: big' in labels
