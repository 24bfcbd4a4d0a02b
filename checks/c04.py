"""C04: re-serializing loses nothing, compact() compacts"""
import c01
import c03
import gen
import pyxpool
import wire
from common import *

ID = 'C04'
RULE = ('objects loaded from random layouts (with data unknown to the schema) or built by '
        'constructors, and their sub-objects at random paths, are dumped and compacted; the untyped '
        'content of the result (every data byte and pointer) is compared with the untyped content '
        'of the source, and the result must be one segment without unused words. '
        'non-trivial: the source has an unusual layout or the object is not the root')
EXAMPLES = {'quick': 5000, 'thorough': 80000}
SECONDS = {'quick': 30, 'thorough': 900}
prepare = c01.prepare


def make(g, tier):
    case = c03.pick_schema(g, void_lists=True, anyptr=g.pick([0, 10]))
    L = layout_of(case)
    case['vals'] = []
    for _ in range(g.int(1, 3)):
        roots = gen.plain_structs(L)
        built = [i for i in roots if gen.ctorable(L, i)]
        if built and g.chance(30):
            x = c01.gen_values(g, case, L, 1)[0]
            x['built'] = True
            sid = L['byname'][x['s']]
            mval = complete(L, sid, x['v'])
        else:
            sid = g.pick(roots)
            mval = gen.ValueGen(g, L, ctor=False, full=True, unknown_enum=3, unknown_tag=2).struct(sid)
            x = {'s': L['structs'][sid]['name'], 'v': mval, 'plan': gen.gen_plan(g), 'built': False}
        steps, path = [], []
        while g.chance(50):
            ways = wire.struct_steps(L, sid, mval)
            if not ways:
                break
            step, p, sid, mval = g.pick(ways)
            steps.append(step)
            path += p
        x.update(steps=steps, path=path)
        case['vals'].append(x)
    return case


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        for x in case['vals']:
            sid = S.id(x['s'])
            if x['built']:
                prog = [['build', S.key, sid, x['v'], x['style']], ['dumps', {'$': 0}, False]]
                r = ctx.run(config, prog)
                val(r[0], 'constructor of %s' % x['s'], config)
                src = val(r[1], 'dumps', config).encode('latin-1')
                prog = prog[:1]
                labels.add('built')
            else:
                segs = wire.Encoder(L, x['plan']).encode(sid, x['v'])
                src = wire.frame(segs)
                prog = [['loads', S.key, sid, src.decode('latin-1')]]
                labels |= c03.plan_labels(x['plan'], segs)
            tree = wire.untyped(src)
            osid = sid
            for step in x['steps']:
                osid, tree = wire.untyped_step(L, osid, tree, step)
            if x['path']:
                labels.add('sub-object')
            if x['steps'] and x['steps'][-1][1] is not None:
                labels.add('list item')
            o = {'$': 1}
            prog += [['path', {'$': 0}, x['path']],
                     ['dumps', o, True], ['dumps', o, False], ['dump', o], ['gdumps', o],
                     ['compact', o], ['dumps', {'$': 6}, True], ['is_compact', {'$': 6}],
                     ['raw_size', {'$': 6}], ['is_compact', o],
                     ['observe', S.key, osid, {'$': 6}], ['observe', S.key, osid, o]]
            r = ctx.run(config, prog)
            what = '%s%s' % (x['s'], ''.join('.%s' % p for p in x['path']))
            val(r[0], 'making the source', config)
            val(r[1], 'reading %s' % what, config)
            size = None
            for k, name in ((2, 'dumps'), (3, 'dumps(fastpath=False)'), (4, 'dump'),
                            (5, 'capnpy.dumps'), (7, 'compact().dumps')):
                b = val(r[k], '%s of %s' % (name, what), config).encode('latin-1')
                try:
                    got = wire.untyped(b, strict=True)
                except WireError as e:
                    raise Violation('[%s] %s of %s is not one compact segment: %s\nfrom %r\nto   %r'
                                    % (config, name, what, e, src, b))
                if got != tree:
                    raise Violation('[%s] %s of %s: the content changed\nfrom %r\nto   %r'
                                    % (config, name, what, tree, got))
                if k == 7:
                    size = len(b) - 16
            val(r[6], 'compact() of %s' % what, config)
            if val(r[8], '_is_compact', config) is False:
                raise Violation('[%s] the result of compact() of %s is not compact' % (config, what))
            if r[9].get('v') is not None and r[9]['v'] != size and r[9]['v'] != size + 8:
                raise Violation('[%s] compact() of %s keeps a buffer of %d bytes, the object takes %d'
                                % (config, what, r[9]['v'], size))
            if x['built'] and not x['path'] and val(r[10], '_is_compact', config) is False:
                raise Violation('[%s] a new %s is not compact' % (config, what))
            expect_same(val(r[11], 'reading the compact object', config),
                        val(r[12], 'reading the object', config), 'compact() of %s' % what, config)
    return labels


def nontrivial(labels):
    return any(x.startswith(('layout', 'sub-object', 'list item')) for x in labels)
