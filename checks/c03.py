"""C03: any legal encoding of a message reads as the same values"""
import gen
import pyxpool
import wire
from common import *

ID = 'C03'
RULE = ('random schemas and values, encoded by an independent encoder with a random layout: number '
        'of segments, order of the objects, gaps, junk in the gaps, single/double far pointers, '
        'struct sections longer or shorter than the schema says; non-trivial: a layout a plain '
        'encoder would not produce, and at least 4 kinds of fields/values')
EXAMPLES = {'quick': 5000, 'thorough': 80000}
SECONDS = {'quick': 30, 'thorough': 900}


def prepare(tier, seed):
    pyxpool.prepare(tier, seed)


def pick_schema(g, **cfg):
    if g.chance(20):
        case = pyxpool.pick(g)
        case['configs'] = ['pyxmode']
    else:
        case = gen_case_schema(g, **cfg)
        case['configs'] = g.weighted([(['pyx'], 6), (['pure'], 4), (['pypy'], 1), (['pyx', 'pure'], 3)])
    return case


def make(g, tier):
    case = pick_schema(g, void_lists=True)
    L = layout_of(case)
    case['vals'] = []
    for _ in range(g.int(1, 3)):
        sid = g.pick(gen.plain_structs(L))
        v = gen.ValueGen(g, L, ctor=False, full=True, nul=g.chance(10), unknown_enum=3).struct(sid)
        plan = gen.gen_plan(g)
        if g.chance(3):
            plan['nseg'] = g.int(6, 300)
        case['vals'].append({'s': L['structs'][sid]['name'], 'v': v, 'plan': plan,
                             'how': g.pick(['bytesio', 'file', 'buffered'])})
    return case


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        for x in case['vals']:
            sid = S.id(x['s'])
            segs = wire.Encoder(L, x['plan']).encode(sid, x['v'])
            msg = wire.frame(segs)
            want = wire.read(L, sid, msg)
            b = msg.decode('latin-1')
            r = ctx.run(config, [['loads', S.key, sid, b], ['observe', S.key, sid, {'$': 0}],
                                 ['load', S.key, sid, b, x['how']], ['observe', S.key, sid, {'$': 2}],
                                 ['loads_generic', S.key, sid, b],
                                 ['observe', S.key, sid, {'$': 4}]])
            for k, name in ((0, 'loads'), (2, 'load'), (4, 'capnpy.loads')):
                val(r[k], '%s of a %s' % (name, x['s']), config)
                expect_same(val(r[k + 1], 'reading a %s' % x['s'], config), want,
                            '%s of a %s in %d segment(s)' % (name, x['s'], len(segs)), config)
            labels |= gen.labels_of(L, sid, x['v'])
            labels |= plan_labels(x['plan'], segs)
    return labels


def plan_labels(plan, segs):
    out = {'layout ' + k for k in plan if k not in ('seed', 'nseg')}
    if len(segs) > 1:
        out.add('layout several segments')
    if len(segs) > 5:
        out.add('layout many segments')
    return out


def nontrivial(labels):
    return any(x.startswith('layout') for x in labels) and \
        len([x for x in labels if not x.startswith(('config', 'layout'))]) >= 4
