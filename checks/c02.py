"""C02: what is written conforms to the encoding, and does not depend on the mode"""
import c01
import gen
import layout
import pyxpool
import wire
from common import *

ID = 'C02'
RULE = ('random schemas and values as in C01; the bytes written by each configuration are read by '
        'an independent strict reader (single segment, bounds, no overlap, no unused word, zero '
        'padding) and compared between configurations; some also through the capnp tool. '
        'non-trivial: at least 4 kinds of fields/values and at least one pointer field')
EXAMPLES = {'quick': 5000, 'thorough': 60000}
SECONDS = {'quick': 30, 'thorough': 900}
prepare = c01.prepare


def make(g, tier):
    if g.chance(20):
        case = pyxpool.pick(g)
        case['configs'] = ['pyxmode', g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g)
        case['configs'] = g.weighted([(['pyx', 'pure'], 8), (['pyx', 'pypy'], 1)])
    L = layout_of(case)
    case['vals'] = c01.gen_values(g, case, L, g.int(1, 3))
    case['capnp'] = g.chance(10)
    return case


def run(case, ctx):
    labels = set()
    outputs = {}
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        for i, x in enumerate(case['vals']):
            sid = S.id(x['s'])
            want = complete(L, sid, x['v'])
            r = ctx.run(config, [['build', S.key, sid, x['v'], x['style']],
                                 ['dumps', {'$': 0}, True], ['dumps', {'$': 0}, False],
                                 ['dump', {'$': 0}]])
            val(r[0], 'constructor of %s' % x['s'], config)
            b = val(r[1], 'dumps', config).encode('latin-1')
            for k, name in ((2, 'dumps(fastpath=False)'), (3, 'dump')):
                if val(r[k], name, config).encode('latin-1') != b:
                    raise Violation('[%s] dumps and %s of a new %s differ:\n%r\n%r'
                                    % (config, name, x['s'], b, r[k]['v'].encode('latin-1')))
            try:
                got = read(L, sid, b, strict=True)
            except WireError as e:
                raise Violation('[%s] the message written for %s is not well formed: %s\n%r'
                                % (config, x['s'], e, b))
            expect_same(got, want, 'message of %s read by an independent reader' % x['s'], config)
            if i in outputs and outputs[i][1] != b:
                raise Violation('%s and %s write different bytes for the same %s:\n%r\n%r'
                                % (outputs[i][0], config, x['s'], outputs[i][1], b))
            if i not in outputs:
                outputs[i] = config, b
                if case.get('capnp'):
                    check_capnp(S, x, sid, b, want)
                    labels.add('read by capnp')
            labels |= gen.labels_of(L, sid, x['v'])
    return labels


def check_capnp(S, x, sid, b, want):
    rc, out, err = layout.capnp(['convert', 'binary:binary', '-I' + layout.import_dir(),
                                 S.dir + '/' + S.main, x['s']], b)
    if rc:
        raise Violation('capnp does not read the message of %s: %s\n%r'
                        % (x['s'], err.decode('utf-8', 'replace')[:500], b))
    expect_same(wire.read(S.L, sid, out), want, 'message of %s read by capnp' % x['s'])


def nontrivial(labels):
    x = [x for x in labels if not x.startswith('config')]
    return len(x) >= 4 and any(y.startswith(('list', 'text', 'data', 'struct')) for y in x)
