"""An independent Cap'n Proto codec, driven by a layout model. It imports nothing
of capnpy.

Layout model (JSON):
  {'structs': {id: S}, 'enums': {id: {'name', 'items'}}, 'consts': ..., 'file': id}
  S = {'id','name' (dotted, inside the file),'dw','pw','dc','do','fields':[F],'group':bool,...}
  F = {'name','disc' (None or int),'kind':'slot'|'group','type':T,'off':int,
       'default': value,'gid': id of the group}
  T = 'Int8'.. | 'Bool' | 'Void' | 'Text' | 'Data' | 'AnyPointer' | ['enum',id]
      | ['struct',id] | ['list',T] | ['interface', id]

Values ("mval", JSON): ints, floats, bools; None for Void and for null pointers;
str for Text; str of latin-1 chars for Data; lists; a struct is a dict {field:
value}, plus '#' -> name of the active member if it has a union (only the active
member is present). An AnyPointer is {'any': kind, 'v': ...}.
"""
import random
import struct

ELEM = {'Void': 0, 'Bool': 1, 'Int8': 2, 'UInt8': 2, 'Int16': 3, 'UInt16': 3, 'Int32': 4,
        'UInt32': 4, 'Int64': 5, 'UInt64': 5, 'Float32': 4, 'Float64': 5}
FMT = {'Int8': 'b', 'UInt8': 'B', 'Int16': 'h', 'UInt16': 'H', 'Int32': 'i', 'UInt32': 'I',
       'Int64': 'q', 'UInt64': 'Q', 'Float32': 'f', 'Float64': 'd'}
BITS = {'Void': 0, 'Bool': 1, 'Int8': 8, 'UInt8': 8, 'Int16': 16, 'UInt16': 16, 'Int32': 32,
        'UInt32': 32, 'Int64': 64, 'UInt64': 64, 'Float32': 32, 'Float64': 64}
ESIZE_BITS = {0: 0, 1: 1, 2: 8, 3: 16, 4: 32, 5: 64, 6: 64}
RANGE = {t: (-(1 << (BITS[t] - 1)), (1 << (BITS[t] - 1)) - 1) for t in ('Int8', 'Int16', 'Int32', 'Int64')}
RANGE.update({t: (0, (1 << BITS[t]) - 1) for t in ('UInt8', 'UInt16', 'UInt32', 'UInt64')})


class WireError(Exception):
    pass


def is_ptr(t):
    if isinstance(t, str):
        return t in ('Text', 'Data', 'AnyPointer', 'Capability')
    return t[0] in ('struct', 'list', 'interface')


def bits_of(t):
    if isinstance(t, str):
        return BITS[t]
    assert t[0] == 'enum'
    return 16


def to_raw(t, v):
    """value -> the unsigned integer stored"""
    if not isinstance(t, str):
        return v & 0xffff
    if t == 'Void':
        return 0
    if t == 'Bool':
        return int(bool(v))
    f = FMT[t]
    u = {'b': 'B', 'h': 'H', 'i': 'I', 'q': 'Q', 'f': 'I', 'd': 'Q'}.get(f, f)
    return struct.unpack('<' + u, struct.pack('<' + f, v))[0]


def from_raw(t, raw):
    if not isinstance(t, str):
        return raw
    if t == 'Void':
        return None
    if t == 'Bool':
        return bool(raw)
    f = FMT[t]
    u = {'b': 'B', 'h': 'H', 'i': 'I', 'q': 'Q', 'f': 'I', 'd': 'Q'}.get(f, f)
    return struct.unpack('<' + f, struct.pack('<' + u, raw))[0]


def zero_of(t):
    if is_ptr(t):
        return None
    return from_raw(t, 0)


def same(a, b):
    """Equality of mvals: bitwise on floats, NaN equal to NaN, 0 is not False"""
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        if a != a or b != b:
            return a != a and b != b
        if a == 0 and b == 0 and isinstance(a, float) and isinstance(b, float):
            return str(a) == str(b)
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return type(a) == type(b) and a == b


def diff(a, b, path=''):
    """A short description of where two mvals differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return '%s.%s: missing on the left, %r on the right' % (path, k, b[k])
            if k not in b:
                return '%s.%s: %r on the left, missing on the right' % (path, k, a[k])
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s: length %d vs %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if same(a, b):
        return None
    return '%s: %.200r vs %.200r' % (path or '.', a, b)


# --------------------------------------------------------------------------
# object graph
# --------------------------------------------------------------------------

class Obj(object):
    """struct: data (bytearray), ptrs (list). list: esize, count, body|ptrs|items"""
    __slots__ = ('kind', 'data', 'ptrs', 'esize', 'count', 'items', 'dw', 'pw', 'seg', 'pos')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.data = self.ptrs = self.items = None
        self.esize = self.count = self.dw = self.pw = self.seg = self.pos = None
        for k, v in kw.items():
            setattr(self, k, v)

    def words(self):
        if self.kind == 'struct':
            return len(self.data) // 8 + len(self.ptrs)
        if self.esize == 7:
            return 1 + self.count * (self.dw + self.pw)
        if self.esize == 6:
            return self.count
        return (len(self.data) + 7) // 8


def put_bits(data, bitoff, nbits, raw):
    if nbits == 0:
        return
    if nbits == 1:
        if raw:
            data[bitoff >> 3] |= 1 << (bitoff & 7)
        else:
            data[bitoff >> 3] &= ~(1 << (bitoff & 7)) & 0xff
        return
    o = bitoff // 8
    data[o:o + nbits // 8] = int(raw).to_bytes(nbits // 8, 'little')


def get_bits(data, bitoff, nbits):
    if nbits == 0:
        return 0
    o = bitoff >> 3
    if nbits == 1:
        if o >= len(data):
            return 0
        return (data[o] >> (bitoff & 7)) & 1
    n = nbits // 8
    if o + n > len(data):
        return 0
    return int.from_bytes(bytes(data[o:o + n]), 'little')


class Plan(object):
    """How to lay out a message. All zero = what a plain encoder does."""
    KNOBS = ('nseg', 'shuffle', 'gap', 'junk', 'far', 'dfar', 'grow', 'trunc', 'wide', 'hole')

    def __init__(self, d=None):
        d = d or {}
        self.nseg = d.get('nseg', 1)
        self.shuffle = d.get('shuffle', 0)
        self.gap = d.get('gap', 0)
        self.junk = d.get('junk', 0)
        self.far = d.get('far', 0)
        self.dfar = d.get('dfar', 0)
        self.grow = d.get('grow', 0)
        self.trunc = d.get('trunc', 0)
        self.wide = d.get('wide', 0)        # how many structs get huge sections
        self.hole = d.get('hole', 0)        # how many huge gaps between objects
        self.rnd = random.Random(d.get('seed', 0))

    def p(self, percent):
        return percent and self.rnd.randrange(100) < percent


class Encoder(object):

    def __init__(self, L, plan=None):
        self.L = L
        self.plan = plan if isinstance(plan, Plan) else Plan(plan)

    # ---- mval -> graph

    def S(self, sid):
        return self.L['structs'][sid]

    def struct_obj(self, sid, mval):
        s = self.S(sid)
        o = Obj('struct', data=bytearray(s['dw'] * 8), ptrs=[None] * s['pw'])
        self.fill(s, mval, o)
        return o

    def fill(self, s, mval, o):
        if '#tag' in mval:
            put_bits(o.data, s['do'] * 16, 16, mval['#tag'])
        elif s['dc'] and '#' in mval:
            f = [f for f in s['fields'] if f['name'] == mval['#']][0]
            put_bits(o.data, s['do'] * 16, 16, f['disc'])
        for f in s['fields']:
            if f['name'] not in mval:
                continue
            v = mval[f['name']]
            if f['kind'] == 'group':
                self.fill(self.S(f['gid']), v, o)
            elif is_ptr(f['type']):
                o.ptrs[f['off']] = self.ptr_obj(f['type'], v)
            else:
                n = bits_of(f['type'])
                raw = to_raw(f['type'], v) ^ to_raw(f['type'], f['default'])
                put_bits(o.data, f['off'] * n, n, raw)

    def ptr_obj(self, t, v):
        if v is None:
            return None
        if t == 'AnyPointer':
            return self.ptr_obj(v['any'], v['v'])
        if t == 'Text':
            b = v.encode('utf-8', 'surrogateescape') + b'\0'
            return Obj('list', esize=2, count=len(b), data=bytearray(b))
        if t == 'Data':
            b = v.encode('latin-1')
            return Obj('list', esize=2, count=len(b), data=bytearray(b))
        if t[0] == 'struct':
            return self.grown(self.struct_obj(t[1], v))
        assert t[0] == 'list', t
        et = t[1]
        if is_ptr(et) and not (isinstance(et, list) and et[0] == 'struct'):
            return Obj('list', esize=6, count=len(v), ptrs=[self.ptr_obj(et, x) for x in v])
        if isinstance(et, list) and et[0] == 'struct':
            items = [self.struct_obj(et[1], x) for x in v]
            return self.composite(et[1], items)
        n = bits_of(et)
        data = bytearray((n * len(v) + 7) // 8)
        for i, x in enumerate(v):
            put_bits(data, i * n, n, to_raw(et, x))
        return Obj('list', esize=ELEM[et] if isinstance(et, str) else 3, count=len(v), data=data)

    def grown(self, o):
        dw, pw = len(o.data) // 8, len(o.ptrs)
        ndw, npw = self.sizes([o], dw, pw)
        self.resize(o, ndw, npw)
        pl = self.plan
        if pl.wide and pl.rnd.random() < .5:
            pl.wide -= 1
            n = [pl.rnd.randint(0, (1 << pl.rnd.randint(4, 16)) - 1) if pl.rnd.random() < .7 else 65535
                 for _ in range(2)]
            k = pl.rnd.randrange(3)
            if k != 1 and n[0] > len(o.data) // 8:
                o.data.extend(bytearray(n[0] * 8 - len(o.data)))
                if pl.junk and n[0] > dw:       # not a part of what was truncated
                    o.data[-8:] = b'\x81unknown'
            if k != 0 and n[1] > len(o.ptrs):
                o.ptrs.extend([None] * (n[1] - len(o.ptrs)))
                if pl.junk and n[1] > pw:
                    o.ptrs[-1] = Obj('list', esize=2, count=4, data=bytearray(b'far\0'))
        return o

    def sizes(self, items, dw, pw):
        pl = self.plan
        if pl.p(pl.trunc):
            need_d = max([0] + [(len(bytes(o.data).rstrip(b'\0')) + 7) // 8 for o in items])
            need_p = max([0] + [i + 1 for o in items for i, x in enumerate(o.ptrs) if x is not None])
            dw = need_d if pl.rnd.random() < .5 else pl.rnd.randint(need_d, dw)
            pw = need_p if pl.rnd.random() < .5 else pl.rnd.randint(need_p, pw)
        if pl.p(pl.grow):
            dw += pl.rnd.randint(0, 3)
            pw += pl.rnd.randint(0, 2)
        return dw, pw

    def resize(self, o, ndw, npw):
        dw, pw = len(o.data) // 8, len(o.ptrs)
        pl = self.plan
        del o.data[ndw * 8:]
        if ndw > dw:
            o.data.extend(bytearray(pl.rnd.getrandbits(8) if pl.junk else 0
                                    for _ in range((ndw - dw) * 8)))
        del o.ptrs[npw:]
        while len(o.ptrs) < npw:
            x = None
            if pl.junk and pl.rnd.random() < .5:
                x = Obj('list', esize=2, count=4, data=bytearray(b'new\0'))
            o.ptrs.append(x)

    def composite(self, sid, items):
        s = self.S(sid)
        dw, pw = self.sizes(items, s['dw'], s['pw'])
        for o in items:
            self.resize(o, dw, pw)
        return Obj('list', esize=7, count=len(items), items=items, dw=dw, pw=pw)

    # ---- graph -> segments

    def encode_graph(self, root):
        pl = self.plan
        rnd = pl.rnd
        nseg = max(1, pl.nseg)
        # 1. collect (slot, child) edges in preorder; a slot is (owner, index)
        objs, edges = [], []

        def visit(o):
            objs.append(o)
            if o.kind == 'struct':
                kids = [((o, 'p', i), c) for i, c in enumerate(o.ptrs)]
            elif o.esize == 6:
                kids = [((o, 'l', i), c) for i, c in enumerate(o.ptrs)]
            elif o.esize == 7:
                kids = [((o, ('c', k), i), c) for k, it in enumerate(o.items)
                        for i, c in enumerate(it.ptrs)]
            else:
                kids = []
            for slot, c in kids:
                if c is not None:
                    edges.append((slot, c))
                    visit(c)
        rootslot = ('root',)
        if root is not None:
            edges.append((rootslot, root))
            visit(root)
        # 2. segments
        for o in objs:
            o.seg = rnd.randrange(nseg) if nseg > 1 and rnd.random() < .7 else (0 if nseg == 1 else None)
        parent = {id(c): slot for slot, c in edges}
        for o in objs:              # preorder, so the parent is already placed
            if o.seg is None:
                slot = parent[id(o)]
                o.seg = 0 if slot == rootslot else slot[0].seg
        # 3. pads
        blocks = [(o.seg, o.words(), 'obj', o) for o in objs]
        pads = {}
        for i, (slot, c) in enumerate(edges):
            sseg = 0 if slot == rootslot else slot[0].seg
            if c.words() == 0 and c.kind == 'struct':
                # the pointer of an empty struct points to itself; do not use a
                # far pointer for it
                continue
            if sseg != c.seg or (nseg > 1 and pl.p(pl.far)):
                if pl.p(pl.dfar):
                    pad = ['double', rnd.randrange(nseg), None]
                    blocks.append((pad[1], 2, 'pad', pad))
                else:
                    pad = ['single', c.seg, None]
                    blocks.append((pad[1], 1, 'pad', pad))
                pads[i] = pad
        if pl.shuffle:
            rnd.shuffle(blocks)
        # 4. positions
        size = [1] + [0] * (nseg - 1)
        gaps = []
        for seg, words, k, what in blocks:
            if pl.p(pl.gap):
                g = rnd.randint(1, 3)
                gaps.append((seg, size[seg], g))
                size[seg] += g
            if pl.hole and rnd.random() < .4:
                pl.hole -= 1
                size[seg] += rnd.randint(1, 1 << rnd.randint(4, 17))
            if k == 'obj':
                what.pos = size[seg]
            else:
                what[2] = size[seg]
            size[seg] += words
        for seg in range(nseg):
            if pl.p(pl.gap):
                gaps.append((seg, size[seg], 1))
                size[seg] += 1
        segs = [bytearray(8 * n) for n in size]
        if pl.junk:
            for seg, pos, g in gaps:
                segs[seg][pos * 8:(pos + g) * 8] = bytearray(rnd.getrandbits(8) for _ in range(g * 8))

        def put(seg, word, v):
            segs[seg][word * 8:word * 8 + 8] = struct.pack('<Q', v & (2 ** 64 - 1))

        def near(o, ppos):
            """pointer to o, stored at word ppos of o's segment"""
            if o.kind == 'struct':
                if o.words() == 0:
                    return ((-1 & 0x3fffffff) << 2)
                off = o.pos - ppos - 1
                return ((off & 0x3fffffff) << 2) | (len(o.data) // 8) << 32 | len(o.ptrs) << 48
            off = o.pos - ppos - 1
            n = o.count if o.esize != 7 else o.count * (o.dw + o.pw)
            return 1 | ((off & 0x3fffffff) << 2) | o.esize << 32 | n << 35

        def tagword(o):
            """the pointer without offset, second word of a double far pad"""
            return near(o, o.pos - 1)

        # 5. contents
        for o in objs:
            p = o.pos * 8
            if o.kind == 'struct':
                segs[o.seg][p:p + len(o.data)] = o.data
            elif o.esize == 7:
                put(o.seg, o.pos, ((o.count & 0x3fffffff) << 2) | o.dw << 32 | o.pw << 48)
                for k, it in enumerate(o.items):
                    q = p + 8 + k * 8 * (o.dw + o.pw)
                    segs[o.seg][q:q + len(it.data)] = it.data
            elif o.esize != 6:
                segs[o.seg][p:p + len(o.data)] = o.data
        for i, (slot, c) in enumerate(edges):
            if slot == rootslot:
                sseg, spos = 0, 0
            else:
                o, k, idx = slot
                sseg = o.seg
                if k == 'p':
                    spos = o.pos + len(o.data) // 8 + idx
                elif k == 'l':
                    spos = o.pos + idx
                else:
                    spos = o.pos + 1 + k[1] * (o.dw + o.pw) + o.dw + idx
            if i not in pads:
                put(sseg, spos, near(c, spos))
            else:
                kind, pseg, ppos = pads[i]
                if kind == 'single':
                    put(pseg, ppos, near(c, ppos))
                    put(sseg, spos, 2 | ppos << 3 | pseg << 32)
                else:
                    put(pseg, ppos, 2 | c.pos << 3 | c.seg << 32)
                    put(pseg, ppos + 1, tagword(c))
                    put(sseg, spos, 2 | 4 | ppos << 3 | pseg << 32)
        return [bytes(s) for s in segs]

    def encode(self, sid, mval):
        """-> list of segments"""
        t = ['struct', sid]
        return self.encode_graph(self.ptr_obj(t, mval))


def frame(segs):
    n = len(segs)
    hdr = struct.pack('<%dI' % (n + 1), n - 1, *[len(s) // 8 for s in segs])
    if len(hdr) % 8:
        hdr += b'\0\0\0\0'
    return hdr + b''.join(segs)


def unframe(b):
    if len(b) < 4:
        raise WireError('short header')
    n = struct.unpack_from('<I', b)[0] + 1
    if n > 100000:
        raise WireError('too many segments')
    h = 4 + 4 * n
    h += h % 8
    if len(b) < h:
        raise WireError('short header')
    sizes = struct.unpack_from('<%dI' % n, b, 4)
    segs, p = [], h
    for s in sizes:
        segs.append(b[p:p + s * 8])
        p += s * 8
    if p != len(b):
        raise WireError('message of %d bytes, %d expected' % (len(b), p))
    return segs


# --------------------------------------------------------------------------
# reader
# --------------------------------------------------------------------------

class Reader(object):
    """Reads a message. strict=True (single segment written by capnpy) also
    checks that the objects do not overlap, that all the space is used, that
    padding and unknown bits are zero and that Text is NUL-terminated."""

    def __init__(self, L, segs, strict=False, allow_gaps=False):
        self.L = L
        self.segs = segs
        self.strict = strict
        self.used = [bytearray(len(s) // 8) for s in segs]
        self.depth = 0
        self.nobj = 0

    def word(self, seg, w):
        if seg >= len(self.segs) or w < 0 or (w + 1) * 8 > len(self.segs[seg]):
            raise WireError('pointer word %d of segment %d out of bounds' % (w, seg))
        return struct.unpack_from('<Q', self.segs[seg], w * 8)[0]

    def claim(self, seg, pos, n, what):
        if pos < 0 or (pos + n) * 8 > len(self.segs[seg]):
            raise WireError('%s at words %d..%d out of segment %d of %d words'
                            % (what, pos, pos + n, seg, len(self.segs[seg]) // 8))
        u = self.used[seg]
        if self.strict and any(u[pos:pos + n]):
            raise WireError('%s at words %d..%d overlaps another object' % (what, pos, pos + n))
        for i in range(pos, pos + n):
            u[i] = 1

    def follow(self, seg, w):
        """-> None or (seg, position in words, tag word)"""
        p = self.word(seg, w)
        if p == 0:
            return None
        if p & 3 == 2:
            if self.strict:
                raise WireError('far pointer in a single segment message')
            pseg, ppos = p >> 32, (p >> 3) & 0x1fffffff
            if not p & 4:
                q = self.word(pseg, ppos)
                off = (q >> 2) & 0x3fffffff
                off -= (off & 0x20000000) << 1
                return pseg, ppos + 1 + off, q
            q = self.word(pseg, ppos)
            tag = self.word(pseg, ppos + 1)
            return q >> 32, (q >> 3) & 0x1fffffff, tag
        off = (p >> 2) & 0x3fffffff
        off -= (off & 0x20000000) << 1
        return seg, w + 1 + off, p

    def root(self, sid):
        self.claim(0, 0, 1, 'root pointer')
        v = self.ptr(['struct', sid], 0, 0, '')
        if self.strict:
            for seg, u in enumerate(self.used):
                if not all(u):
                    raise WireError('word %d of segment %d is not part of any object'
                                    % (bytes(u).index(0), seg))
        return v

    def ptr(self, t, seg, w, path):
        r = self.follow(seg, w)
        if r is None:
            return None
        seg, pos, tag = r
        self.nobj += 1
        if t == 'AnyPointer':
            return {'any': '?', 'v': None}
        kind = tag & 3
        if isinstance(t, list) and t[0] == 'struct':
            if kind != 0:
                raise WireError('%s: expected a struct pointer' % path)
            dw, pw = (tag >> 32) & 0xffff, tag >> 48
            if dw + pw:
                self.claim(seg, pos, dw + pw, 'struct %s' % path)
            elif self.strict and not (-1 <= pos - 0 <= len(self.segs[seg]) // 8):
                raise WireError('empty struct %s out of bounds' % path)
            return self.struct(t[1], seg, pos, dw, pw, path)
        if kind != 1:
            raise WireError('%s: expected a list pointer' % path)
        esize, n = (tag >> 32) & 7, tag >> 35
        buf = self.segs[seg]
        if t in ('Text', 'Data'):
            if esize != 2:
                raise WireError('%s: expected a byte list' % path)
            self.claim(seg, pos, (n + 7) // 8, 'blob ' + path)
            b = bytes(buf[pos * 8:pos * 8 + n])
            self.padding(seg, pos, n * 8, (n + 7) // 8, path)
            if t == 'Data':
                return b.decode('latin-1')
            if not b or b[-1]:
                raise WireError('%s: text without NUL' % path)
            return b[:-1].decode('utf-8', 'surrogateescape')
        et = t[1]
        if isinstance(et, list) and et[0] == 'struct':
            if esize != 7:
                raise WireError('%s: expected a composite list' % path)
            self.claim(seg, pos, n + 1, 'list ' + path)
            tagw = self.word(seg, pos)
            if tagw & 3:
                raise WireError('%s: bad tag' % path)
            count = (tagw >> 2) & 0x3fffffff
            dw, pw = (tagw >> 32) & 0xffff, tagw >> 48
            if count * (dw + pw) != n if self.strict else count * (dw + pw) > n:
                raise WireError('%s: %d items of %d words in a list of %d words'
                                % (path, count, dw + pw, n))
            return [self.struct(et[1], seg, pos + 1 + i * (dw + pw), dw, pw, '%s[%d]' % (path, i))
                    for i in range(count)]
        if is_ptr(et):
            if esize != 6:
                raise WireError('%s: expected a list of pointers' % path)
            self.claim(seg, pos, n, 'list ' + path)
            return [self.ptr(et, seg, pos + i, '%s[%d]' % (path, i)) for i in range(n)]
        nb = bits_of(et)
        want = ELEM[et] if isinstance(et, str) else 3
        if esize != want:
            raise WireError('%s: element size %d instead of %d' % (path, esize, want))
        self.claim(seg, pos, (n * nb + 63) // 64, 'list ' + path)
        self.padding(seg, pos, n * nb, (n * nb + 63) // 64, path)
        body = buf[pos * 8:pos * 8 + (n * nb + 7) // 8]
        return [from_raw(et, get_bits(body, i * nb, nb)) for i in range(n)]

    def padding(self, seg, pos, usedbits, words, path):
        if not self.strict:
            return
        b = int.from_bytes(self.segs[seg][pos * 8:(pos + words) * 8], 'little')
        if b >> usedbits:
            raise WireError('%s: padding is not zero' % path)

    def struct(self, sid, seg, pos, dw, pw, path):
        s = self.L['structs'][sid]
        data = bytes(self.segs[seg][pos * 8:(pos + dw) * 8]) if dw else b''
        mask = bytearray(len(data)) if self.strict else None
        usedptr = set()
        v = self.fields(s, data, mask, usedptr, seg, pos + dw, pw, path)
        if self.strict:
            if (dw, pw) != (s['dw'], s['pw']) and not self.lenient_size(dw, pw, s):
                raise WireError('%s: struct of %d+%d words instead of %d+%d'
                                % (path, dw, pw, s['dw'], s['pw']))
            for i, (a, m) in enumerate(zip(data, mask)):
                if a & ~m:
                    raise WireError('%s: unused byte %d is not zero' % (path, i))
            for i in range(pw):
                if i not in usedptr and self.word(seg, pos + dw + i):
                    raise WireError('%s: unused pointer %d is not null' % (path, i))
        return v

    def lenient_size(self, dw, pw, s):
        return False

    def fields(self, s, data, mask, usedptr, seg, ppos, pw, path):
        out = {}
        active = None
        if s['dc']:
            active = get_bits(data, s['do'] * 16, 16)
            self.mark(mask, s['do'] * 16, 16)
            out['#'] = None
            for f in s['fields']:
                if f['disc'] == active:
                    out['#'] = f['name']
            if out['#'] is None:
                del out['#']
                out['#tag'] = active
        for f in s['fields']:
            if f['disc'] is not None and f['disc'] != active:
                continue
            fp = '%s.%s' % (path, f['name'])
            if f['kind'] == 'group':
                out[f['name']] = self.fields(self.L['structs'][f['gid']], data, mask, usedptr,
                                             seg, ppos, pw, fp)
            elif is_ptr(f['type']):
                usedptr.add(f['off'])
                if f['off'] >= pw:
                    out[f['name']] = None
                else:
                    out[f['name']] = self.ptr(f['type'], seg, ppos + f['off'], fp)
            else:
                n = bits_of(f['type'])
                raw = get_bits(data, f['off'] * n, n)
                self.mark(mask, f['off'] * n, n)
                out[f['name']] = from_raw(f['type'], raw ^ to_raw(f['type'], f['default']))
        return out

    @staticmethod
    def mark(mask, off, n):
        if mask is None:
            return
        for b in range(off, off + n):
            if b >> 3 < len(mask):
                mask[b >> 3] |= 1 << (b & 7)


def read(L, sid, msg, strict=False):
    segs = unframe(msg)
    if strict and len(segs) != 1:
        raise WireError('%d segments' % len(segs))
    return Reader(L, segs, strict).root(sid)


def default_of(L, sid):
    """The mval of a struct read from nothing"""
    return Reader(L, [b'\0' * 8]).struct(sid, 0, 0, 0, 0, '')


def complete(L, sid, mval):
    """mval with the missing fields set to their default: the first union member
    is active if no one is"""
    s = L['structs'][sid]
    out = {}
    if '#tag' in mval:
        out['#tag'] = mval['#tag']
    elif s['dc']:
        out['#'] = mval.get('#') or [f['name'] for f in s['fields'] if f['disc'] == 0][0]
    for f in s['fields']:
        if f['disc'] is not None and f['name'] != out.get('#'):
            continue
        if f['kind'] == 'group':
            out[f['name']] = complete(L, f['gid'], mval.get(f['name'], {}))
        elif f['name'] in mval:
            out[f['name']] = complete_value(L, f['type'], mval[f['name']])
        else:
            out[f['name']] = None if is_ptr(f['type']) else f['default']
    return out


def complete_value(L, t, v):
    if v is None or isinstance(t, str):
        return v
    if t[0] == 'struct':
        return complete(L, t[1], v)
    if t[0] == 'list':
        return [complete_value(L, t[1], x) for x in v]
    return v


# --------------------------------------------------------------------------
# untyped view: what a message holds, whatever the schema
# --------------------------------------------------------------------------

class Untyped(object):
    """tree(): nested lists which do not depend on the layout. Trailing zeros of
    the data sections and trailing nulls of the pointer sections are dropped.
      null -> None; struct -> ['s', data, ptrs]; list of structs -> ['c', [[data,
      ptrs]...]]; list of pointers -> ['p', [...]]; other lists -> ['l', esize,
      count, data]; capability -> ['cap', index]
    strict: single segment, no far pointers, no overlaps, no unused words."""

    def __init__(self, segs, strict=False):
        self.r = Reader({'structs': {}}, segs, strict)
        self.segs = segs
        self.strict = strict

    def tree(self):
        self.r.claim(0, 0, 1, 'root pointer')
        t = self.ptr(0, 0)
        if self.strict:
            if len(self.segs) != 1:
                raise WireError('%d segments' % len(self.segs))
            u = self.r.used[0]
            if not all(u):
                raise WireError('word %d of %d is not part of any object' % (bytes(u).index(0), len(u)))
        return t

    def ptr(self, seg, w):
        p = self.r.word(seg, w)
        if p & 3 == 3:
            return ['cap', p >> 32]
        f = self.r.follow(seg, w)
        if f is None:
            return None
        seg, pos, tag = f
        if tag & 3 == 0:
            dw, pw = (tag >> 32) & 0xffff, tag >> 48
            if dw + pw:
                self.r.claim(seg, pos, dw + pw, 'struct')
            return ['s'] + self.body(seg, pos, dw, pw)
        if tag & 3 != 1:
            raise WireError('bad pointer kind')
        esize, n = (tag >> 32) & 7, tag >> 35
        if esize == 7:
            self.r.claim(seg, pos, n + 1, 'list')
            tw = self.r.word(seg, pos)
            count, dw, pw = (tw >> 2) & 0x3fffffff, (tw >> 32) & 0xffff, tw >> 48
            if tw & 3:
                raise WireError('bad tag of a list')
            if count * (dw + pw) > n or (self.strict and count * (dw + pw) != n):
                raise WireError('%d items of %d words in a list of %d words' % (count, dw + pw, n))
            return ['c', [self.body(seg, pos + 1 + i * (dw + pw), dw, pw) for i in range(count)]]
        if esize == 6:
            self.r.claim(seg, pos, n, 'list')
            return ['p', [self.ptr(seg, pos + i) for i in range(n)]]
        bits = ESIZE_BITS[esize] * n
        words = (bits + 63) // 64
        self.r.claim(seg, pos, words, 'list')
        raw = int.from_bytes(self.segs[seg][pos * 8:(pos + words) * 8], 'little')
        if self.strict and raw >> bits:
            raise WireError('padding of a list is not zero')
        raw &= (1 << bits) - 1
        return ['l', esize, n, raw.to_bytes((bits + 7) // 8, 'little').decode('latin-1')]

    def body(self, seg, pos, dw, pw):
        data = bytes(self.segs[seg][pos * 8:(pos + dw) * 8]).rstrip(b'\0').decode('latin-1')
        ptrs = [self.ptr(seg, pos + dw + i) for i in range(pw)]
        while ptrs and ptrs[-1] is None:
            ptrs.pop()
        return [data, ptrs]


def untyped(msg, strict=False):
    segs = unframe(msg) if isinstance(msg, bytes) else msg
    return Untyped(segs, strict).tree()


def untyped_step(L, sid, tree, step):
    """tree: ['s', data, ptrs]. step: [field name, index or None] -> (sid, tree)"""
    name, i = step
    s = L['structs'][sid]
    for n in name.split('.')[:-1]:
        g = [f for f in s['fields'] if f['name'] == n][0]
        s = L['structs'][g['gid']]
    f = [f for f in s['fields'] if f['name'] == name.split('.')[-1]][0]
    t = f['type']
    x = tree[2][f['off']] if f['off'] < len(tree[2]) else None
    if i is None:
        return t[1], x
    return t[1][1], ['s'] + x[1][i]


def struct_steps(L, sid, mval, prefix='', pys=()):
    """The ways of going one level down from a struct: [(step, python path, sid, mval)]"""
    out = []
    for f in L['structs'][sid]['fields']:
        v = mval.get(f['name'])
        if v is None:
            continue
        if f['kind'] == 'group':
            if isinstance(v, dict) and not f.get('nullable'):
                out += struct_steps(L, f['gid'], v, prefix + f['name'] + '.', tuple(pys) + (f['py'],))
        elif isinstance(f['type'], list) and f['type'][0] == 'struct':
            out.append(([prefix + f['name'], None], list(pys) + [f['py']], f['type'][1], v))
        elif isinstance(f['type'], list) and f['type'][0] == 'list' and \
                isinstance(f['type'][1], list) and f['type'][1][0] == 'struct':
            for i, x in enumerate(v):
                out.append(([prefix + f['name'], i], list(pys) + [f['py'], i], f['type'][1][1], x))
    return out
