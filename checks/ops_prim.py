# C08: the primitives, called directly
import struct as _struct


def pr_dec(x):
    if isinstance(x, dict):
        if 'b' in x:
            return dec(x['b'])
        if 'ba' in x:
            return bytearray(dec(x['ba']))
        if 'f' in x:
            return _struct.unpack('<d', bytes.fromhex(x['f']))[0]
        if 'tu' in x:
            return tuple(pr_dec(y) for y in x['tu'])
        if 's' in x:
            return x['s']
    return x


def pr_enc(x):
    if isinstance(x, (bytes, bytearray)):
        return {'b': enc(bytes(x))}
    if isinstance(x, float):
        return {'f': _struct.pack('<d', x).hex()}
    if isinstance(x, (tuple, list)):
        return [pr_enc(y) for y in x]
    if x is None or isinstance(x, (bool, str)):
        return x
    return int(x)


def pr_try(f, *args):
    try:
        return pr_enc(f(*args))
    except Exception as e:
        return {'x': [c.__name__ for c in type(e).__mro__]}


@op
def _pr_calls(P, calls):
    """[[module, function, args...]] -> results; a bytearray argument is returned too"""
    import importlib
    out = []
    for m, fn, args in calls:
        f = getattr(importlib.import_module('capnpy.' + m), fn)
        args = [pr_dec(x) for x in args]
        r = pr_try(f, *args)
        bas = [x for x in args if isinstance(x, bytearray)]
        out.append([r, [pr_enc(x) for x in bas]])
    return None, out


@op
def _pr_segment(P, buf, calls):
    from capnpy.segment.base import BaseSegmentForTests
    s = BaseSegmentForTests(dec(buf))
    return None, [pr_try(getattr(s, fn), *args) for fn, args in calls]


@op
def _pr_hash(P, calls):
    """-> [[result, what hash() gives]]"""
    from capnpy import _hash
    out = []
    for fn, args in calls:
        args = [pr_dec(x) for x in args]
        if fn == 'strhash':
            want = hash(args[0][args[1]:args[1] + args[2]])
        else:
            want = hash(args[0])
        out.append([pr_try(getattr(_hash, fn), *args), want])
    return None, out


def pr_source(segs):
    from capnpy.segment.segment import Segment, MultiSegment
    segs = [dec(s) for s in segs]
    if len(segs) == 1:
        return Segment(segs[0]), (0,)
    offs, n = [], 0
    for s in segs:
        offs.append(n)
        n += len(s)
    return MultiSegment(b''.join(segs), tuple(offs)), offs


@op
def _pr_builder(P, length, sources, ops):
    """ops: [name, args...]; ['r', k, d] is the result of operation k plus d, ['src', i]
    a source and ['ptr', i, o] the pointer of source i at offset o -> [results, as_string()]"""
    from capnpy.segment.builder import SegmentBuilder
    b = SegmentBuilder() if length is None else SegmentBuilder(length)
    srcs = [pr_source(s)[0] for s in sources]
    res = []

    def arg(x):
        if isinstance(x, list):
            if x[0] == 'r':
                return res[x[1]] + x[2]
            if x[0] == 'src':
                return srcs[x[1]]
            if x[0] == 'ptr':
                return _struct.unpack_from('<q', srcs[x[1]].buf, x[2])[0]
        return pr_dec(x)
    for o in ops:
        if o[0] == 'as_string' and False:
            pass
        res.append(getattr(b, o[0])(*[arg(x) for x in o[1:]]))
    return None, [[pr_enc(r) for r in res], enc(b.as_string())]


@op
def _pr_endof(P, segs, off):
    from capnpy.segment.endof import endof
    s, _ = pr_source(segs)
    p = _struct.unpack_from('<q', s.buf, off)[0]
    return None, pr_try(endof, s, p, off)
