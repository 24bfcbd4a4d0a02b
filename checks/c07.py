"""C07: malformed messages never crash or read out of bounds"""
import struct

import gen
import pyxpool
import wire
from common import *

ID = 'C07'
PLUGINS = ['ops_fuzz.py']
VARIANTS = ('pure', 'pyx', 'asan')
TECHNIQUE = ('structure-aware fuzzing of messages on an AddressSanitizer build of the runtime, '
             'differential with the pure Python runtime')
RULE = ('valid messages with mutated pointers, tags, segment tables, truncations and random bytes, '
        'and messages made only of random pointers; everything reachable is read, compared, printed, '
        'hashed, pickled, dumped, compacted and embedded in new objects on an AddressSanitizer build '
        '(py and pyx mode). A crash, a sanitizer report, a Text/Data value which is not in the '
        'message, or a scalar which differs from the pure Python runtime is a violation. '
        'non-trivial: the message loads and at least one operation raises')
LEVEL_NOTE = ('Fuzzing with memory errors detected by AddressSanitizer (heap overflows of the message '
              'buffers and of the builders). Reads which stay inside the message are accepted; messages '
              'whose expansion (pointers shared by many objects) is large are not dumped nor printed.')
EXAMPLES = {'quick': 6000, 'thorough': 150000}
SECONDS = {'quick': 40, 'thorough': 900}
HANG = 10
HANGS_ARE_VIOLATIONS = False

TEXT = '''@0xd1a2b3c4d5e6f70b;
using Py = import "/capnpy/annotate.capnp";
struct Pt $Py.key("x, name") { x @0 :Int64; y @1 :Int16; name @2 :Text; col @3 :Col; }
enum Col { a @0; b @1; }
struct Ko $Py.key("x, pt, d, u, g") { x @0 :UInt64; pt @1 :Pt; d @2 :Data;
  u @3 :Text $Py.options(textType=unicode);
  g :group $Py.key("a, b") { a @4 :UInt8; b @5 :Text; } c @6 :Col; f @7 :Float64; ok @8 :Bool; }
struct K {
  i8 @0 :Int8; u64 @1 :UInt64 = 7; f32 @2 :Float32; b @3 :Bool = true; t @4 :Text; d @5 :Data;
  u @6 :Text $Py.options(textType=unicode);
  c @7 :Col = b; p @8 :Pt; k @9 :K; ko @10 :Ko;
  l8 @11 :List(Int8); lb @12 :List(Bool); l16 @13 :List(UInt16); l64 @14 :List(Int64);
  lf @15 :List(Float32); lc @16 :List(Col); lt @17 :List(Text); ld @18 :List(Data);
  lp @19 :List(Pt); lk @20 :List(K); ll @21 :List(List(Int16)); llp @22 :List(List(Pt));
  lv @23 :List(Void); llt @24 :List(List(Text));
  un :union { v @25 :Void; ut @26 :Text; up @27 :Pt; ul @28 :List(Int32); ua @29 :AnyPointer;
     ug :group { x @30 :Int8; s @31 :Text; } }
  grp :group { ga @32 :Int16; gt @33 :Text; gk @34 :K; glp @35 :List(Pt); gl @36 :List(Int64); }
  nul :group $Py.nullable { isNull @37 :Int8; value @38 :Int32; }
  lko @39 :List(Ko); lf64 @40 :List(Float64); l32 @41 :List(UInt32);
  lut @42 :List(Text) $Py.options(textType=unicode); any @43 :AnyPointer;
}
struct W { k @0 :K; kp @1 :Pt; lk @2 :List(K); lp @3 :List(Pt); li @4 :List(Int64);
  lb @5 :List(Bool); lt @6 :List(Text); ld @7 :List(Data); lli @8 :List(List(Int16));
  lf @9 :List(Float32); l8 @10 :List(Int8); }
'''
MAIN = 'fuzz07.capnp'
SHAPE = {'files': {MAIN: TEXT}, 'kw': {'main': MAIN}}
# a small struct, whose message is mostly pointers to it
ROOTS = ['K', 'K', 'K', 'Pt', 'Ko']


def prepare(tier, seed):
    pyxpool.compile_all([TEXT], names=[MAIN[:-6]])


def gen_ptr(g, n):
    """a word which looks like a pointer"""
    r = g.int(0, 99)
    off = g.weighted([(0, 3), (g.int(-4, 8), 6), (g.int(-n - 2, n + 2), 8),
                      (g.pick([-1, 2 ** 29 - 1, -2 ** 29, 2 ** 28, -2 ** 28]), 2)])
    off &= 0x3fffffff
    if r < 35:
        dw = g.weighted([(g.int(0, 3), 5), (g.int(0, n), 4), (g.pick([0xffff, 0x8000, 0x7fff, 100]), 1)])
        pw = g.weighted([(g.int(0, 3), 5), (g.int(0, n), 4), (g.pick([0xffff, 0x8000, 0x7fff, 100]), 1)])
        return off << 2 | dw << 32 | pw << 48
    if r < 80:
        es = g.int(0, 7)
        cnt = g.weighted([(g.int(0, 9), 5), (g.int(0, n * 8), 5), (g.int(0, n * 64), 1),
                          (g.pick([2 ** 29 - 1, 2 ** 28, 2 ** 28 + 1, 2 ** 26, 2 ** 29 - 8, 4096]), 3)])
        return 1 | off << 2 | es << 32 | cnt << 35
    if r < 97:
        return 2 | g.int(0, 1) << 2 | (g.int(0, n + 1) if g.chance(85) else g.pick([2 ** 29 - 1, 2 ** 28])) << 3 \
            | (g.int(0, 3) if g.chance(85) else g.pick([2 ** 32 - 1, 2 ** 31, 2 ** 31 - 1, 7])) << 32
    return 3 | g.int(0, 2 ** 62 - 1) << 2


def gen_tag(g, n):
    cnt = g.weighted([(g.int(0, 6), 5), (g.int(0, n), 3),
                      (g.pick([2 ** 29 - 1, 2 ** 28, 2 ** 30 - 1, 2 ** 29, 2 ** 26]), 3)])
    dw = g.weighted([(g.int(0, 3), 5), (g.pick([0, 0xffff, 0x8000]), 2)])
    pw = g.weighted([(g.int(0, 3), 5), (g.pick([0, 0xffff, 0x8000]), 2)])
    return (cnt << 2 | dw << 32 | pw << 48) & (2 ** 64 - 1)


def gen_word(g, n):
    r = g.int(0, 9)
    if r < 6:
        return gen_ptr(g, n)
    if r < 8:
        return gen_tag(g, n)
    if r < 9:
        return g.int(0, 5)
    return int.from_bytes(g.pick([b'abc\0def\0', b'\xff' * 8, b'\xe9\x80abcd\0\0', b'\x80\0\0\0\0\0\0\x80']), 'little')


def gen_mut(g, n):
    k = g.weighted([('ptr', 8), ('tag', 2), ('flip', 4), ('field', 6), ('word', 2), ('zero', 1), ('copy', 3)])
    w = g.int(0, 2 * n + 3)
    # mostly the words which are not zero
    m = {'k': k, 'w': w, 'nz': g.chance(75)}
    if k == 'ptr':
        m['v'] = gen_ptr(g, n)
    elif k == 'tag':
        m['v'] = gen_tag(g, n)
    elif k == 'word':
        m['v'] = gen_word(g, n)
    elif k == 'flip':
        m['v'] = 1 << g.int(0, 63)
    elif k == 'field':
        m['f'] = g.pick(['kind', 'off', 'lo', 'hi', 'count', 'esize'])
        m['v'] = g.pick([1, -1, 2, -2, 8, -8, 64, 1 << 12, 1 << 15, 1 << 28, 1 << 29])
    elif k == 'copy':
        m['v'] = g.int(0, 2 * n + 3)
    return m


def make(g, tier):
    L = layout_of(SHAPE, field_hook=hook)
    case = {'config': g.weighted([('asan', 6), ('asanpyx', 4), ('pyx', 1)]), 'root': g.pick(ROOTS),
            'how': g.weighted([('loads', 10), ('load', 1), ('load_all', 2)])}
    r = g.int(0, 19)
    if r < 12:
        sid = L['byname'][case['root']]
        case['kind'] = 'mutated'
        case['v'] = gen.ValueGen(g, L, ctor=False, full=True, null=g.pick([0, 30, 60, 80]),
                                 budget=g.pick([2, 6, 12]), unknown_enum=3, unknown_tag=2).struct(sid)
        case['plan'] = gen.gen_plan(g)
        case['muts'] = [gen_mut(g, 40) for _ in range(g.int(1, 6))]
        case['cut'] = g.pick([0, 0, 0, 0, 1, 2, 5, 20])
        case['hdr'] = gen_hdr(g)
    elif r < 19:
        case['kind'] = 'soup'
        ns = g.pick([1, 1, 2, 3])
        case['segs'] = []
        for i in range(ns):
            n = g.int(1, 16)
            case['segs'].append([gen_word(g, n) for _ in range(n)])
        # the root must be something
        if g.chance(70):
            n = len(case['segs'][0])
            dw = g.int(0, 6)
            case['segs'][0][0] = (g.int(0, 1) << 2) | dw << 32 | max(0, min(n - dw - 2, g.int(0, 45))) << 48
        case['hdr'] = gen_hdr(g)
    else:
        case['kind'] = 'bytes'
        case['b'] = g.bytes(g.int(0, 80)).decode('latin-1')
        if g.chance(50):
            case['b'] = g.bytes(1).decode('latin-1') + '\0\0\0' + case['b']
    return case


def gen_hdr(g):
    if g.chance(88):
        return None
    return {'i': g.int(0, 3), 'v': g.pick([0, 1, 2, 3, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe,
                                           0x20000000, 4, 100])}


def mutate(segs, muts, cut):
    flat = [(i, j) for i, s in enumerate(segs) for j in range(len(s) // 8)]
    segs = [bytearray(s) for s in segs]

    def word(i, j):
        return struct.unpack_from('<Q', segs[i], j * 8)[0]
    for m in muts:
        c = [x for x in flat if word(*x)] if m['nz'] else flat
        c = c or flat
        i, j = c[m['w'] % len(c)]
        w = word(i, j)
        k = m['k']
        if k in ('ptr', 'tag', 'word'):
            w = m['v']
        elif k == 'zero':
            w = 0
        elif k == 'flip':
            w ^= m['v']
        elif k == 'copy':
            w = word(*flat[m['v'] % len(flat)])
        else:
            f, v = m['f'], m['v']
            if f == 'kind':
                w ^= v & 3
            elif f == 'off':
                w = w & ~0xfffffffc | ((w + (v << 2)) & 0xfffffffc)
            elif f == 'lo':
                w = w & ~(0xffff << 32) | ((((w >> 32) + v) & 0xffff) << 32)
            elif f == 'hi':
                w = w & ~(0xffff << 48) | ((((w >> 48) + v) & 0xffff) << 48)
            elif f == 'count':
                w = w & ((1 << 35) - 1) | ((((w >> 35) + v) & ((1 << 29) - 1)) << 35)
            elif f == 'esize':
                w = w & ~(7 << 32) | (((w >> 32) + v) & 7) << 32
        struct.pack_into('<Q', segs[i], j * 8, w & (2 ** 64 - 1))
    if cut:
        s = segs[-1]
        del s[max(8 if len(segs) == 1 else 0, len(s) - 8 * cut):]
    return [bytes(s) for s in segs]


def message(case, L):
    if case['kind'] == 'bytes':
        return case['b'].encode('latin-1'), None
    if case['kind'] == 'soup':
        segs = [struct.pack('<%dQ' % len(s), *s) for s in case['segs']]
    else:
        segs = wire.Encoder(L, case['plan']).encode(L['byname'][case['root']], case['v'])
        segs = mutate(segs, case['muts'], case['cut'])
    b = wire.frame(segs)
    if case['hdr']:
        i = case['hdr']['i'] * 4
        if i + 4 <= len(b):
            b = b[:i] + struct.pack('<I', case['hdr']['v']) + b[i + 4:]
    return b, segs


def parse(b):
    """-> (the words after the header, offsets of the segments), as capnpy sees
    them: one flat buffer"""
    if len(b) < 8:
        return (), [0]
    n = struct.unpack_from('<I', b)[0] + 1
    if n > 1000 or 4 + 4 * n > len(b):
        return (), [0]
    h = (4 + 4 * n + 7) // 8 * 8
    offs, p = [], 0
    for x in struct.unpack_from('<%dI' % n, b, 4):
        offs.append(p)
        p += x
    body = b[h:]
    return struct.unpack_from('<%dQ' % (len(body) // 8), body), offs


def soff(p):
    off = (p >> 2) & 0x3fffffff
    return off - ((off & 0x20000000) << 1)


def cost(b):
    """How much a dump [0] and a repr [0]+[1] may have to visit, or None. Pessimistic:
    every word of every struct section is followed as a pointer if it can be one"""
    words, offs = parse(b)
    n = len(words)
    visits = items = 0
    todo = [0]
    while todo:
        w = todo.pop()
        if not 0 <= w < n:
            continue
        p = words[w]
        if p == 0 or p & 3 == 3:
            continue
        visits += 1
        if visits > LIMIT or len(todo) > LIMIT:
            return None, None
        if p & 3 == 2:
            if p >> 32 >= len(offs):
                continue
            w2 = offs[p >> 32] + ((p >> 3) & 0x1fffffff)
            if not 0 <= w2 < n:
                continue
            q = words[w2]
            if p & 4:
                if q >> 32 >= len(offs) or w2 + 1 >= n:
                    continue
                pos, p = offs[q >> 32] + ((q >> 3) & 0x1fffffff), words[w2 + 1]
            else:
                pos, p = w2 + 1 + soff(q), q
        else:
            pos = w + 1 + soff(p)
        if p & 3 == 0:
            dw, pw = (p >> 32) & 0xffff, p >> 48
            todo.extend(range(max(0, pos + dw), min(n, pos + dw + pw)))
        elif p & 3 == 1:
            es, cnt = (p >> 32) & 7, p >> 35
            items += cnt
            if es == 6:
                todo.extend(range(max(0, pos), min(n, pos + cnt)))
            elif es == 7 and 0 <= pos < n:
                t = words[pos]
                c, dw, pw = (t >> 2) & 0x3fffffff, (t >> 32) & 0xffff, t >> 48
                items += c
                if dw + pw == 0:
                    visits += c
                    continue
                for k in range(min(c, n)):
                    q = pos + 1 + k * (dw + pw)
                    todo.extend(range(max(0, q + dw), min(n, q + dw + pw)))
    return visits, items


LIMIT = 12000


def run(case, ctx):
    S = ctx.schema(SHAPE['files'], main=MAIN, pyx=case['config'] == 'asanpyx',
                   field_hook=hook)
    L = S.L
    config = case['config']
    ctx.load(config, S)
    sid, wrap = S.id(case['root']), S.id('W')
    msg, segs = message(case, L)
    a, b = cost(msg)
    heavy = a is not None
    heavy_repr = heavy and a + b < 20000
    prog = [['exercise', S.key, sid, msg.decode('latin-1'), case['how'], 60, heavy, heavy_repr, wrap]]
    r = ctx.run(config, prog)
    trace, excs, calls = val(r[0], 'reading the message %r' % msg, config)
    P = ctx.schema(SHAPE['files'], main=MAIN, pyx=False, field_hook=hook)
    ctx.load('pure', P)
    prog[0][1] = P.key
    r = ctx.run('pure', prog)
    trace2, excs2, _ = val(r[0], 'reading the message %r' % msg, 'pure')
    n = 0
    for k, v in trace.items():
        w = trace2.get(k)
        if v is not None and w is not None:
            n += 1
            if v != w:
                raise Violation('%s of a malformed message reads as %r with %s and as %r with the pure '
                                'Python runtime\n%r' % (k, v, config, w, msg))
    labels = {'config ' + config, case['kind'], case['how']}
    if 'root' in trace:
        labels.add('loads')
        labels.update('raises ' + x for x in excs)
        if excs:
            labels.add('nt')
    if heavy:
        labels.add('dumped')
    if heavy_repr:
        labels.add('printed')
    if n > 40:
        labels.add('many values compared')
    return labels


def hook(L, s, f):
    """the fields with options of TEXT"""
    if f['name'] == 'nul':
        f['nullable'] = True
    if f['name'] in ('u', 'lut'):
        f['uni'] = True
