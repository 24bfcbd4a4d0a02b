"""C08: the compiled and the pure primitives agree, and do what the encoding says"""
import struct

import wire
from common import *

ID = 'C08'
PLUGINS = ['ops_prim.py']
RULE = ('calls of the pointer codec, the packing helpers, the segment reader, the hash helpers, endof(), and '
        'sequences of operations on a segment builder (with copies of random object graphs), with all kinds of '
        'arguments and offsets around all bounds; each on the compiled modules, on the pure ones and on PyPy, '
        'against a model written from the encoding specification. non-trivial: every case with at least 10 '
        'calls, or a graph of at least 3 objects')
EXAMPLES = {'quick': 8000, 'thorough': 300000}
SECONDS = {'quick': 25, 'thorough': 900}
CONFIGS = ['pyx', 'pure', 'pypy']

M64 = 2 ** 64 - 1


def signed(x, bits=64):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x


# ------------------------------------------------------------------ model

def new_struct(off, dw, pw):
    return signed((off & 0x3fffffff) << 2 | dw << 32 | pw << 48)


def new_list(off, tag, n):
    return signed(1 | (off & 0x3fffffff) << 2 | tag << 32 | n << 35)


PTR = {
    'new_generic': lambda k, o, e: signed(k | (o & 0x3fffffff) << 2 | (e & 0xffffffff) << 32),
    'kind': lambda p: p & 3,
    'offset': lambda p: signed((p & M64) >> 2, 30),
    'extra': lambda p: signed((p & M64) >> 32, 32),
    'deref': lambda p, o: o + 8 + 8 * signed((p & M64) >> 2, 30),
    'new_struct': new_struct,
    'struct_data_size': lambda p: (p & M64) >> 32 & 0xffff,
    'struct_ptrs_size': lambda p: (p & M64) >> 48,
    'new_list': new_list,
    'list_size_tag': lambda p: (p & M64) >> 32 & 7,
    'list_item_count': lambda p: (p & M64) >> 35,
    'list_item_length': lambda t: [0, -1, 1, 2, 4, 8, 8, -1][t],
    'new_far': lambda l, o, t: signed(2 | l << 2 | o << 3 | t << 32),
    'far_landing_pad': lambda p: p >> 2 & 1,
    'far_offset': lambda p: (p & 0xffffffff) >> 3,
    'far_target': lambda p: (p & M64) >> 32,
    'round_up_to_word': lambda n: -(-n // 8) * 8,
}
FMT = 'qQdfiIhHbB'
RANGE = {'q': (-2 ** 63, 2 ** 63 - 1), 'Q': (0, M64), 'i': (-2 ** 31, 2 ** 31 - 1), 'I': (0, 2 ** 32 - 1),
         'h': (-2 ** 15, 2 ** 15 - 1), 'H': (0, 2 ** 16 - 1), 'b': (-128, 127), 'B': (0, 255)}
READS = {'read_int64': 'q', 'read_uint64': 'Q', 'read_uint64_magic': 'Q', 'read_int32': 'i', 'read_uint32': 'I',
         'read_int16': 'h', 'read_uint16': 'H', 'read_int8': 'b', 'read_uint8': 'B', 'read_double': 'd',
         'read_float': 'f'}


def m_unpack(fmt, buf, off):
    n = struct.calcsize('<' + fmt)
    if off < 0 or off + n > len(buf):
        return {'x': 'IndexError'}
    v = struct.unpack_from('<' + fmt, buf, off)[0]
    return {'f': struct.pack('<d', v).hex()} if fmt in 'df' else v


def m_endof(buf, off):
    p = struct.unpack_from('<Q', buf, off)[0]
    if p & 3 == 2:
        return -1
    pos = PTR['deref'](p, off)

    def kids(pos, n, end):
        for i in range(n):
            q = struct.unpack_from('<Q', buf, pos + 8 * i)[0]
            if q == 0 or q == new_struct(-1, 0, 0) & M64:
                continue
            if q & 3 == 2 or PTR['deref'](q, pos + 8 * i) != end:
                return -1
            end = m_endof(buf, pos + 8 * i)
            if end == -1:
                return -1
        return end
    if p & 3 == 0:
        dw, pw = p >> 32 & 0xffff, p >> 48
        return kids(pos + 8 * dw, pw, pos + 8 * (dw + pw))
    tag, n = p >> 32 & 7, p >> 35
    if tag == 7:
        t = struct.unpack_from('<Q', buf, pos)[0]
        count, dw, pw = t >> 2 & 0x3fffffff, t >> 32 & 0xffff, t >> 48
        end = pos + 8 + 8 * n
        for i in range(count if pw else 0):
            end = kids(pos + 8 + 8 * (i * (dw + pw) + dw), pw, end)
            if end == -1:
                return -1
        return end
    if tag == 6:
        return kids(pos, n, pos + 8 * n)
    return pos + -(-n * [0, 1, 8, 16, 32, 64][tag] // 64) * 8


# ------------------------------------------------------------- generators

def edge(g, lo, hi):
    """Integers, near the powers of two and the bounds"""
    k = g.int(0, 9)
    if k < 4:
        v = g.pick([-1, 1]) * ((1 << g.int(0, 64)) + g.int(-2, 2))
    elif k < 6:
        v = g.pick([lo, hi]) + g.int(-2, 2)
    elif k < 8:
        v = g.int(lo, hi)
    else:
        v = g.int(-8, 8)
    return min(max(v, lo), hi)


def anyptr(g):
    k = g.int(0, 4)
    if k == 0:
        return new_struct(edge(g, -2 ** 29, 2 ** 29 - 1), edge(g, 0, 65535), edge(g, 0, 65535))
    if k == 1:
        return new_list(edge(g, -2 ** 29, 2 ** 29 - 1), g.int(0, 7), edge(g, 0, 2 ** 29 - 1))
    if k == 2:
        return PTR['new_far'](g.int(0, 1), edge(g, 0, 2 ** 29 - 1), edge(g, 0, 2 ** 32 - 1))
    return edge(g, -2 ** 63, 2 ** 63 - 1)


def ptr_call(g):
    f = g.pick(sorted(PTR))
    off = edge(g, -2 ** 29, 2 ** 29 - 1)
    if f == 'new_generic':
        args = [g.int(0, 3), off, edge(g, -2 ** 31, 2 ** 31 - 1)]
    elif f == 'new_struct':
        args = [off, edge(g, 0, 65535), edge(g, 0, 65535)]
    elif f == 'new_list':
        args = [off, g.int(0, 7), edge(g, 0, 2 ** 29 - 1)]
    elif f == 'new_far':
        args = [g.int(0, 1), edge(g, 0, 2 ** 29 - 1), edge(g, 0, 2 ** 32 - 1)]
    elif f == 'list_item_length':
        args = [g.int(0, 7)]
    elif f == 'round_up_to_word':
        args = [edge(g, 0, 2 ** 62)]
    elif f == 'deref':
        args = [anyptr(g), edge(g, 0, 2 ** 35)]
    else:
        args = [anyptr(g)]
    return ['ptr', f, args]


def offset(g, n):
    k = g.int(0, 19)
    if k < 12:
        return g.int(-9, n + 9)
    if k < 16:
        return max(n - g.int(0, 9), -1)
    if k < 18:
        return g.int(0, max(n, 1))
    return edge(g, -2 ** 31, 2 ** 31 - 1)


def big_offset(g, n):
    if g.chance(12):
        return edge(g, -2 ** 63, 2 ** 63 - 1)
    return offset(g, n)


def number(g, fmt):
    if fmt in 'df':
        x = struct.unpack('<d', g.bytes(8))[0]
        if g.chance(40):
            x = g.pick([0.0, -0.0, 1.0, -1.0, -1.5, 0.1, float('inf'), float('-inf'), 2.0 ** 53, 1e300, -1e-300])
        if fmt == 'f':
            try:
                x = struct.unpack('<f', struct.pack('<f', x))[0]
            except OverflowError:
                x = 1.0
        if x != x:
            x = float('nan')
        return {'f': struct.pack('<d', x).hex()}
    return edge(g, *RANGE[fmt])


def undo(x):
    return struct.unpack('<d', bytes.fromhex(x['f']))[0] if isinstance(x, dict) else x


def buffer_(g):
    n = g.pick([0, 1, 3, 7, 8, 9, 12, 16, 24, 31])
    if g.chance(30):
        return g.pick([b'\xff', b'\0', b'\x80', b'\x7f', b'\xff\x7f', b'\0\0\xf0\x7f', b'\0\0\0\x80']) * n
    return g.bytes(n)


def pack_call(g):
    f = g.pick(['unpack_primitive', 'unpack_primitive', 'unpack_primitive', 'unpack_int64', 'unpack_int16',
                'unpack_uint32', 'pack_message_header', 'pack_int64', 'pack_into', 'pack_into', 'pack_int64_into'])
    buf = buffer_(g)
    if f == 'pack_message_header':
        return ['packing', f, [1, edge(g, 0, 2 ** 31 - 1), anyptr(g)]]
    if f == 'pack_int64':
        return ['packing', f, [edge(g, -2 ** 63, 2 ** 63 - 1)]]
    off = offset(g, len(buf))
    b = {'ba' if 'into' in f or (g.chance(25)) else 'b': buf.decode('latin-1')}
    fmt = g.pick(FMT)
    if not g.chance(65):        # the last valid offset, and around it
        k = {'unpack_int64': 8, 'unpack_int16': 2, 'unpack_uint32': 4, 'pack_int64_into': 8}.get(f) or struct.calcsize('<' + fmt)
        off = max(len(buf) - k + g.pick([0, 0, 1, -1]), -1)
    if f == 'unpack_primitive':
        return ['packing', f, [ord(fmt), b, off]]
    if f == 'pack_into':
        return ['packing', f, [ord(fmt), b, off, number(g, fmt)]]
    if f == 'pack_int64_into':
        return ['packing', f, [b, off, edge(g, -2 ** 63, 2 ** 63 - 1)]]
    return ['packing', f, [b, off]]


def m_pack(call):
    """-> [result, [buffers]]"""
    _, f, args = call
    bufs = [x['ba'].encode('latin-1') for x in args if isinstance(x, dict) and 'ba' in x]
    keep = [{'b': x.decode('latin-1')} for x in bufs]
    if f == 'pack_message_header':
        return [{'b': struct.pack('<iiq', 0, args[1], args[2]).decode('latin-1')}, []]
    if f == 'pack_int64':
        return [{'b': struct.pack('<q', args[0]).decode('latin-1')}, []]
    if f.startswith('unpack'):
        if f == 'unpack_primitive':
            fmt, buf, off = chr(args[0]), args[1], args[2]
        else:
            fmt, buf, off = {'unpack_int64': 'q', 'unpack_int16': 'h', 'unpack_uint32': 'I'}[f], args[0], args[1]
        return [m_unpack(fmt, list(buf.values())[0].encode('latin-1'), off), keep]
    if f == 'pack_into':
        fmt, buf, off, v = chr(args[0]), args[1], args[2], undo(args[3])
    else:
        fmt, buf, off, v = 'q', args[0], args[1], args[2]
    b = bytearray(buf['ba'].encode('latin-1'))
    if off < 0 or off + struct.calcsize('<' + fmt) > len(b):
        return [{'x': 'IndexError'}, keep]
    struct.pack_into('<' + fmt, b, off, v)
    return [None, [{'b': b.decode('latin-1')}]]


def seg_calls(g):
    buf = buffer_(g)
    if g.chance(20):
        buf = buf * g.int(1, 40)
    calls = []
    for _ in range(g.int(8, 25)):
        if g.chance(12):
            w = len(buf) // 8
            s, e = g.int(-1, w + 1) * 8, g.int(-1, w + 1) * 8
            if g.chance(5):
                e = edge(g, -2 ** 60, 2 ** 60) * 8
            calls.append(['dump_message', [anyptr(g), s, e]])
        else:
            calls.append([g.pick(sorted(READS)), [big_offset(g, len(buf))]])
    return buf, calls


def m_seg(buf, fn, args):
    if fn == 'dump_message':
        p, s, e = args
        if s < 0 or s > e or e > len(buf):
            return {'x': 'ValueError'}
        return {'b': (struct.pack('<IIq', 0, (e - s) // 8 + 1, p) + buf[s:e]).decode('latin-1')}
    return m_unpack(READS[fn], buf, args[0])


def hash_call(g):
    f = g.pick(['strhash', 'strhash', 'inthash', 'inthash', 'longhash', 'objhash', '__tuplehash_for_tests'])
    if f == 'strhash':
        b = buffer_(g) * g.int(1, 3)
        return [f, [{'b': b.decode('latin-1')}, offset(g, len(b)), g.pick([0, 1, 2, 3, 7, 8, 15, 16, 17, len(b), len(b) + 5,
                                                                           2 ** 31, 2 ** 62])]]
    near = [m + d for m in (0, 2 ** 61 - 1, 2 ** 61, 2 ** 62, 2 ** 62 - 2, 2 ** 63) for d in (-2, -1, 0, 1, 2)]
    if f == 'inthash':
        v = g.pick(near) * g.pick([1, -1]) if g.chance(50) else edge(g, -2 ** 63, 2 ** 63 - 1)
        return [f, [min(max(v, -2 ** 63), 2 ** 63 - 1)]]
    if f == 'longhash':
        v = g.pick(near + [M64, M64 - 1, 2 ** 61 * 7 - 1, 2 ** 61 * 7, 2 ** 64 - 8]) if g.chance(50) else edge(g, 0, M64)
        return [f, [min(max(v, 0), M64)]]
    if f == 'objhash':
        return [f, [g.pick([None, 3, {'b': 'abc'}, {'s': u'h\xe9'}, {'tu': [1, {'b': 'x'}]}, {'f': '000000000000f03f'}])]]
    xs = [edge(g, -2 ** 61 + 2, 2 ** 61 - 2) for _ in range(g.int(0, 9))]
    return [f, [{'tu': [x if x != -1 else -2 for x in xs]}]]


def graph(g, depth, budget, top=False):
    """A random object, as JSON"""
    budget[0] -= 1
    k = g.int(0, 9)
    if top:
        k = g.pick([0, 1, 2, 3, 4, 5, 8, 9])
    if depth <= 0 or budget[0] <= 0:
        k = g.pick([0, 5, 6, 7])

    def kid():
        if depth <= 0 or budget[0] <= 0 or g.chance(35):
            return None
        return graph(g, depth - 1, budget)

    def data(w):
        return g.bytes(8 * w).decode('latin-1')
    if k < 4:
        return {'k': 's', 'd': data(g.pick([0, 1, 1, 2, 3])), 'p': [kid() for _ in range(g.pick([0, 1, 2, 3]))] if k else []}
    if k < 8:
        tag = g.int(0, 5)
        n = g.pick([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 63, 64, 65])
        if tag == 0:
            n = g.pick([0, 1, 5, 2 ** 16, 2 ** 28 - 1, 2 ** 28, 2 ** 29 - 1])
            return {'k': 'l', 't': 0, 'n': n, 'd': ''}
        nb = -(-n * [0, 1, 8, 16, 32, 64][tag] // 8)
        d = bytearray(g.bytes(nb))
        if tag == 1 and n % 8:
            d[-1] &= (1 << n % 8) - 1
        return {'k': 'l', 't': tag, 'n': n, 'd': d.decode('latin-1')}
    if k == 8:
        return {'k': 'p', 'p': [kid() for _ in range(g.int(0, 4))]}
    dw, pw = g.pick([(0, 0), (1, 0), (0, 1), (1, 1), (2, 2), (3, 0), (0, 2)])
    return {'k': 'c', 'dw': dw, 'pw': pw, 'i': [[data(dw), [kid() for _ in range(pw)]] for _ in range(g.int(0, 3))]}


def obj(x):
    if x is None:
        return None
    O = wire.Obj
    if x['k'] == 's':
        return O('struct', data=bytearray(x['d'].encode('latin-1')), ptrs=[obj(p) for p in x['p']])
    if x['k'] == 'l':
        return O('list', esize=x['t'], count=x['n'], data=bytearray(x['d'].encode('latin-1')))
    if x['k'] == 'p':
        return O('list', esize=6, count=len(x['p']), ptrs=[obj(p) for p in x['p']])
    return O('list', esize=7, count=len(x['i']), dw=x['dw'], pw=x['pw'],
             items=[O('struct', data=bytearray(d.encode('latin-1')), ptrs=[obj(p) for p in ps]) for d, ps in x['i']])


def words(o):
    if o is None:
        return 0
    n = o.words()
    kids = list(o.ptrs or [])
    for it in o.items or []:
        kids += it.ptrs
    return n + sum(words(k) for k in kids)


def count(o):
    if o is None:
        return 0
    kids = list(o.ptrs or [])
    for it in o.items or []:
        kids += it.ptrs
    return 1 + sum(count(k) for k in kids)


def plan(g):
    p = {'seed': g.int(0, 10 ** 6)}
    if g.chance(50):
        p['nseg'] = g.int(2, 4)
        p['far'] = g.pick([0, 20, 60])
        p['dfar'] = g.pick([0, 30, 100])
    if g.chance(50):
        p['shuffle'] = 1
    if g.chance(40):
        p['gap'] = g.pick([10, 50])
        p['junk'] = g.int(0, 1)
    return p


def encode(x, pl):
    """-> segments; the root pointer is at 0"""
    return wire.Encoder({'structs': {}}, wire.Plan(pl)).encode_graph(obj(x))


def builder_case(g):
    """Operations, which know where everything is"""
    ops = [['allocate', 8 * g.int(1, 6)]]
    end = ops[0][1]
    n = [0]
    W = {'write_int8': 'b', 'write_uint8': 'B', 'write_int16': 'h', 'write_uint16': 'H', 'write_int32': 'i',
         'write_uint32': 'I', 'write_int64': 'q', 'write_uint64': 'Q', 'write_float32': 'f', 'write_float64': 'd'}
    for _ in range(g.int(3, 25)):
        f = g.pick(['allocate', 'alloc_struct', 'alloc_list', 'alloc_text', 'alloc_data', 'write', 'write', 'write',
                    'write_generic', 'write_bool', 'write_bool', 'get_length', 'as_string', 'write_slice'])
        pos = 8 * g.int(0, end // 8 - 1)
        if f == 'allocate':
            k = g.pick([0, 8, 16, 24, 8 * g.int(0, 70), 8 * g.int(0, 600)])
            ops.append([f, k])
            end += k
        elif f == 'alloc_struct':
            d, p = g.int(0, 4), g.int(0, 4)
            if g.chance(5):
                d = g.int(0, 300)
            ops.append([f, pos, d, p])
            end += 8 * (d + p)
        elif f == 'alloc_list':
            tag = g.int(0, 7)
            k = g.int(0, 20)
            body = g.pick([0, 1, 7, 8, 9, g.int(0, 60), g.int(0, 900)])
            if tag == 0:
                k, body = edge(g, 0, 2 ** 29 - 1), 0
            ops.append([f, pos, tag, k, body])
            end += -(-body // 8) * 8
        elif f in ('alloc_text', 'alloc_data'):
            s = None if g.chance(10) else g.bytes(g.pick([0, 1, 6, 7, 8, 9, 15, 16, 40]))
            if s is not None and g.chance(5):
                s = s * 40
            ops.append([f, pos, None if s is None else {'b': s.decode('latin-1')}])
            if s is not None:
                end += -(-(len(s) + (f == 'alloc_text')) // 8) * 8
        elif f == 'write':
            f = g.pick(sorted(W))
            ops.append([f, g.int(0, end - struct.calcsize('<' + W[f])), number(g, W[f])])
        elif f == 'write_generic':
            t = g.pick(FMT)
            ops.append([f, ord(t), g.int(0, end - struct.calcsize('<' + t)), number(g, t)])
        elif f == 'write_bool':
            ops.append([f, g.int(0, end - 1), g.int(0, 7), bool(g.int(0, 1))])
        elif f == 'write_slice':
            k = g.int(0, min(end, 40))
            ops.append([f, g.int(0, end - k), ['src', 0], 8, k])
        else:
            ops.append([f])
    return {'t': 'builder', 'length': g.pick([None, None, 512, 8, 64, 4096]), 'ops': ops,
            'src': g.bytes(64).decode('latin-1')}


def m_builder(case):
    """-> results, bytes"""
    b = bytearray()
    W = {'int8': 'b', 'uint8': 'B', 'int16': 'h', 'uint16': 'H', 'int32': 'i', 'uint32': 'I', 'int64': 'q',
         'uint64': 'Q', 'float32': 'f', 'float64': 'd'}
    out = []
    for o in case['ops']:
        f, a = o[0], o[1:]
        r = None
        if f == 'allocate':
            r = len(b)
            b += bytes(a[0])
        elif f == 'alloc_struct':
            r = len(b)
            b += bytes(8 * (a[1] + a[2]))
            struct.pack_into('<q', b, a[0], new_struct((r - a[0] - 8) // 8, a[1], a[2]))
        elif f in ('alloc_list', 'alloc_text', 'alloc_data'):
            if f != 'alloc_list':
                if a[1] is None:
                    struct.pack_into('<q', b, a[0], 0)
                    out.append(-1)
                    continue
                s = a[1]['b'].encode('latin-1') + (b'\0' if f == 'alloc_text' else b'')
                a = [a[0], 2, len(s), len(s)]
            r = len(b)
            b += bytes(-(-a[3] // 8) * 8)
            struct.pack_into('<q', b, a[0], new_list((r - a[0] - 8) // 8, a[1], a[2]))
            if f != 'alloc_list':
                b[r:r + len(s)] = s
        elif f == 'write_generic':
            struct.pack_into('<' + chr(a[0]), b, a[1], undo(a[2]))
        elif f == 'write_bool':
            if a[2]:
                b[a[0]] |= 1 << a[1]
        elif f == 'write_slice':
            b[a[0]:a[0] + a[3]] = case['src'].encode('latin-1')[a[2]:a[2] + a[3]]
        elif f == 'get_length':
            r = len(b)
        elif f == 'as_string':
            r = {'b': b.decode('latin-1')}
        else:
            struct.pack_into('<' + W[f[6:]], b, a[0], undo(a[1]))
        out.append(r)
    return out, bytes(b)


def make(g, tier):
    k = g.int(0, 99)
    if k < 18:
        return {'t': 'ptr', 'calls': [ptr_call(g) for _ in range(g.int(10, 40))]}
    if k < 32:
        return {'t': 'packing', 'calls': [pack_call(g) for _ in range(g.int(10, 30))]}
    if k < 44:
        buf, calls = seg_calls(g)
        return {'t': 'segment', 'buf': buf.decode('latin-1'), 'calls': calls}
    if k < 56:
        return {'t': 'hash', 'calls': [hash_call(g) for _ in range(g.int(10, 30))]}
    if k < 72:
        return builder_case(g)
    x = graph(g, g.int(1, 5), [g.int(2, 20)], True)
    if k < 86:
        inline = x['k'] == 's' and g.chance(35)
        return {'t': 'copy', 'x': x, 'plan': plan(g), 'pre': g.int(0, 3), 'inline': g.int(0, 3) if inline else None,
                'length': g.pick([None, 512, 8])}
    return {'t': 'endof', 'x': x, 'plan': dict(plan(g), nseg=1) if g.chance(60) else {'gap': g.pick([0, 0, 15])}}


# -------------------------------------------------------------------- run

def rejected(got, name):
    if not (isinstance(got, dict) and 'x' in got):
        return False
    return name in got['x'] or 'OverflowError' in got['x']      # an offset which is not a C int


def check(got, want, what, config):
    if isinstance(want, dict) and 'x' in want:
        if not rejected(got, want['x']):
            raise Violation('[%s] %s is accepted: %r' % (config, what, got))
        return
    nan = [isinstance(x, dict) and 'f' in x and undo(x) != undo(x) for x in (got, want)]
    if got != want and not all(nan):
        raise Violation('[%s] %s gives %r instead of %r' % (config, what, got, want))


def run(case, ctx):
    t = case['t']
    labels = set([t])
    configs = CONFIGS + (['asan'] if ctx.tier == 'thorough' else [])
    if t in ('ptr', 'packing'):
        labels.add('nt')
        want = [[PTR[f](*a), []] if m == 'ptr' else m_pack([m, f, a]) for m, f, a in case['calls']]
        for c in configs:
            r = val(ctx.run(c, [['pr_calls', case['calls']]])[0], t, c)
            for call, got, w in zip(case['calls'], r, want):
                check(got[0], w[0], '%s.%s%r' % tuple(call[:2] + [tuple(call[2])]), c)
                for x, y in zip(got[1], w[1]):
                    # a NaN can change its payload
                    if x != y and 'f' not in repr(call[2][-1]):
                        raise Violation('[%s] the buffer after %s.%s%r is %r instead of %r'
                                        % (c, call[0], call[1], call[2], x, y))
            if any(isinstance(w[0], dict) and 'x' in w[0] for w in want):
                labels.add('out of bounds')
    elif t == 'segment':
        labels.add('nt')
        buf = case['buf'].encode('latin-1')
        for c in configs:
            r = val(ctx.run(c, [['pr_segment', case['buf'], case['calls']]])[0], t, c)
            for (fn, a), got in zip(case['calls'], r):
                w = m_seg(buf, fn, a)
                if isinstance(w, dict) and 'x' in w:
                    labels.add('out of bounds')
                check(got, w, '%s%r of %d bytes' % (fn, tuple(a), len(buf)), c)
    elif t == 'hash':
        labels.add('nt')
        for c in configs:
            r = val(ctx.run(c, [['pr_hash', case['calls']]])[0], t, c)
            for (fn, a), (got, w) in zip(case['calls'], r):
                check(got, w, '%s%r' % (fn, tuple(a)), c)
    elif t == 'builder':
        labels.add('nt')
        want, buf = m_builder(case)
        for c in configs:
            r, b = val(ctx.run(c, [['pr_builder', case['length'], [[case['src']]], case['ops']]])[0], t, c)
            for k, (o, got, w) in enumerate(zip(case['ops'], r, want)):
                if w is not None:
                    check(got, w, 'operation %d %r' % (k, o), c)
            if b.encode('latin-1') != buf:
                raise Violation('[%s] the builder holds\n%s instead of\n%s' % (c, b.encode('latin-1').hex(), buf.hex()))
    elif t == 'copy':
        run_copy(case, ctx, labels, configs)
    else:
        segs = encode(case['x'], case['plan'])
        want = m_endof(segs[0], 0)
        labels.add('compact' if want != -1 else 'not compact')
        if count(obj(case['x'])) > 2:
            labels.add('nt')
        for c in configs:
            got = val(ctx.run(c, [['pr_endof', [s.decode('latin-1') for s in segs], 0]])[0], t, c)
            check(got, want, 'endof() of %r laid out as %s' % (case['x'], segs[0].hex()), c)
    return labels


def run_copy(case, ctx, labels, configs):
    segs = encode(case['x'], case['plan'])
    tree = wire.untyped(segs)
    o = obj(case['x'])
    if count(o) > 2:
        labels.add('nt')
    if len(segs) > 1:
        labels.add('segments')
    src = [s.decode('latin-1') for s in segs]
    pre = 8 * case['pre']
    first = None
    for c in configs:
        ops = [['allocate', pre + 8]]
        root = struct.unpack_from('<Q', segs[0], 0)[0]
        inline = case['inline'] is not None and root & 3 == 0
        if inline:
            labels.add('inline')
            dw = (root >> 32 & 0xffff) + case['inline']
            pw = root >> 48
            ops.append(['allocate', 8 * (dw + pw)])
            ops.append(['copy_inline_struct', ['r', 1, 0], ['src', 0], ['ptr', 0, 0], 0, dw])
            size = pre + 8 + 8 * case['inline'] + 8 * words(o)
        else:
            ops.append(['copy_from_pointer', pre, ['src', 0], ['ptr', 0, 0], 0])
            size = pre + 8 + 8 * words(o)
        r, b = val(ctx.run(c, [['pr_builder', case['length'], [src], ops]])[0], 'copy', c)
        b = b.encode('latin-1')
        if len(b) != size:
            raise Violation('[%s] the copy of %r takes %d bytes instead of %d' % (c, tree, len(b), size))
        try:
            u = wire.Untyped([b])
            got = ['s'] + u.body(0, pre // 8 + 1, dw, pw) if inline else u.ptr(0, pre // 8)
        except wire.WireError as e:
            raise Violation('[%s] the copy cannot be read: %s' % (c, e))
        if got != tree:
            raise Violation('[%s] the copy holds %r instead of %r' % (c, got, tree))
        if not inline and o.words() and m_endof(b, pre) != len(b):
            raise Violation('[%s] the copy of %r is not compact: %s' % (c, tree, b.hex()))
        if first is None:
            first = b
        elif first != b:
            raise Violation('[%s] the copy is\n%s instead of\n%s' % (c, b.hex(), first.hex()))


def nontrivial(labels):
    return 'nt' in labels
