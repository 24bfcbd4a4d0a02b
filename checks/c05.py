"""C05: one load() consumes exactly one message"""
import struct

import gen
import wire
from common import *

ID = 'C05'
PLUGINS = ['ops_stream.py']
RULE = ('sequences of 0-6 messages of one to several segments concatenated, complete or cut at a '
        'random byte (also the header), read with load, load_all and loads from several kinds of '
        'file-like objects; the messages which come out, the position after each one and the way '
        'it ends are compared with the model. non-trivial: at least 2 messages, or a cut')
EXAMPLES = {'quick': 6000, 'thorough': 120000}
SECONDS = {'quick': 30, 'thorough': 600}
TEXT = '''@0xd1a2b3c4d5e6f70a;
struct A { x @0 :Int32; t @1 :Text; l @2 :List(UInt16); a @3 :A; al @4 :List(A); }
'''
SHAPE = {'files': {'sch.capnp': TEXT}, 'kw': {}}
KINDS = ['bytesio', 'minimal', 'stringbuffer', 'file', 'buffered', 'fakesocket', 'socket']


def make(g, tier):
    L = layout_of(SHAPE)
    sid = L['byname']['A']
    case = {'msgs': [], 'config': g.weighted([('pyx', 5), ('pure', 4), ('pypy', 1)])}
    for _ in range(g.int(0, 6) if g.chance(70) else 1):
        v = gen.ValueGen(g, L, ctor=False, full=True, budget=g.pick([1, 3, 10])).struct(sid)
        plan = {'nseg': g.pick([1, 1, 1, 2, 2, 3, 4, 5, 8]), 'shuffle': 50, 'seed': g.int(0, 1 << 16)}
        if g.chance(2):
            plan['nseg'] = g.int(9, 700)
        case['msgs'].append({'v': v, 'plan': plan})
    case['cut'] = None
    total = sum(len(wire.frame(wire.Encoder(L, m['plan']).encode(sid, m['v']))) for m in case['msgs'])
    if case['msgs'] and g.chance(50):
        case['cut'] = g.int(1, total)           # bytes removed from the end
    case['kind'] = g.pick(KINDS)
    case['how'] = g.pick(['load', 'capnpy.load', 'load_all', 'capnpy.load_all'])
    n = g.int(0, 8)
    case['chunks'] = [g.int(1, 40) for _ in range(n)] + ([g.pick([1, 3, 4, 8])] * 60 if g.chance(30) else [])
    case['bufsize'] = g.pick([8192, 8192, 1, 5, 64])
    case['extra'] = g.bytes(g.int(1, 17)).decode('latin-1')
    if len(case['msgs']) > 1 and g.chance(40):
        n = g.int(2, 3)
        case['turns'] = {'kinds': [g.pick(KINDS) for _ in range(n)],
                         'order': [g.int(0, n - 1) for _ in range(g.int(3, 12))],
                         'what': [g.pick(['all', 'back', 'cut', 'one']) for _ in range(n)]}
    return case


def streams_of(case, msgs):
    """-> [(bytes, indexes of the complete messages, how it ends)...]"""
    out = []
    for w in case['turns']['what']:
        ix = list(range(len(msgs)))
        if w == 'back':
            ix.reverse()
        elif w == 'one':
            ix = ix[-1:]
        b = b''.join(msgs[i] for i in ix)
        if w == 'cut':
            out.append((b[:-3], ix[:-1], 'ValueError'))
        else:
            out.append((b, ix, 'end'))
    return out


def run(case, ctx):
    S = sch(ctx, SHAPE)
    L, config = S.L, case['config']
    sid = S.id('A')
    ctx.load(config, S)
    msgs = [wire.frame(wire.Encoder(L, m['plan']).encode(sid, m['v'])) for m in case['msgs']]
    data = b''.join(msgs)
    want = []
    pos = 0
    end = len(data) - (case['cut'] or 0)
    for m, b in zip(case['msgs'], msgs):
        pos += len(b)
        if pos > end:
            break
        want.append([wire.read(L, sid, b), pos])
    partial = end > (want[-1][1] if want else 0)
    data = data[:end]
    how_ends = 'ValueError' if partial else ('end' if 'load_all' in case['how'] else 'EOFError')
    prog = [['read_stream', S.key, sid, data.decode('latin-1'), case['kind'], case['chunks'],
             case['bufsize'], case['how']]]
    singles = []
    for i, b in enumerate(msgs[:2]):
        singles.append((b, 'ok', i))
        singles.append((b + case['extra'].encode('latin-1'), 'ValueError', i))
        if len(msgs) > 1:
            singles.append((b + msgs[1 - i], 'ValueError', i))
    if partial:
        tail = data[want[-1][1] if want else 0:]
        singles.append((tail, 'ValueError', None))
        last = msgs[len(want)]
        if len(tail) > 8:
            singles.append((last[:8 * (len(tail) // 8)], 'ValueError', None))
    for b, _, i in singles:
        prog.append(['loads_end', S.key, sid, b.decode('latin-1'), bool(case['bufsize'] & 1)])
    turns = case.get('turns')
    if turns:
        ss = streams_of(case, msgs)
        prog.append(['read_streams', S.key, sid, [b.decode('latin-1') for b, _, _ in ss], turns['kinds'],
                     case['chunks'], case['bufsize'], turns['order']])
    r = ctx.run(config, prog)
    got, ended = val(r[0], '%s from a %s' % (case['how'], case['kind']), config)
    for k, (g_, w) in enumerate(zip(got, want)):
        expect_same(g_[0], w[0], 'message %d of %d read by %s from a %s'
                    % (k, len(msgs), case['how'], case['kind']), config)
        if g_[1] is not None and g_[1] != w[1]:
            raise Violation('[%s] after message %d the position is %d instead of %d (%s, %s)'
                            % (config, k, g_[1], w[1], case['how'], case['kind']))
    if len(got) != len(want):
        raise Violation('[%s] %d messages read by %s from a %s instead of %d'
                        % (config, len(got), case['how'], case['kind'], len(want)))
    if ended != how_ends:
        raise Violation('[%s] %s from a %s with %d bytes of %d ends with %s instead of %s'
                        % (config, case['how'], case['kind'], end, end + (case['cut'] or 0), ended, how_ends))
    for (b, w, i), x in zip(singles, r[1:1 + len(singles)]):
        e, v = val(x, 'loads', config)
        if e != w:
            raise Violation('[%s] loads of %d bytes (a message of %s) gives %s instead of %s'
                            % (config, len(b), len(msgs[i]) if i is not None else 'more', e, w))
        if w == 'ok':
            expect_same(v, wire.read(L, sid, b), 'loads', config)
    if turns:
        for k, ((b, ix, end_), (vs, e)) in enumerate(zip(ss, val(r[-1], 'load_all of several streams', config))):
            what = 'stream %d of %d (%s, %s) read in turns' % (k, len(ss), turns['kinds'][k], turns['what'][k])
            if e != end_ or len(vs) != len(ix):
                raise Violation('[%s] %s: %d messages, then %s instead of %d, then %s'
                                % (config, what, len(vs), e, len(ix), end_))
            for i, v in zip(ix, vs):
                expect_same(v, wire.read(L, sid, msgs[i]), '%s: message %d' % (what, i), config)
    labels = {'config ' + config, 'kind ' + case['kind'], case['how'], 'ends with ' + how_ends,
              '%d messages' % len(msgs)}
    if turns:
        labels.add('several streams in turns')
    if any(m['plan']['nseg'] > 1 for m in case['msgs']):
        labels.add('several segments')
    if partial and len(tail) < 4 + 4 * case['msgs'][len(want)]['plan']['nseg']:
        labels.add('cut in the header')
    return labels


def nontrivial(labels):
    return 'ends with ValueError' in labels or \
        not ({'0 messages', '1 messages'} & set(labels))
