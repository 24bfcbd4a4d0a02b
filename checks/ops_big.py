# C01, C04: values of megabytes


def big_values(sizes, seed):
    import random
    rnd = random.Random(seed)

    def data(n):
        return bytes(bytearray(rnd.getrandbits(8) for _ in range(min(n, 997)))) * (n // 997) + b'\x05' * (n % 997) \
            if n > 997 else bytes(bytearray(rnd.getrandbits(8) for _ in range(n)))
    ints = list(range(seed, seed + 50)) + [-2**63, 2**63 - 1]
    return {'d': data(sizes['d']), 't': b'text \xc3\xa9 ' * (sizes['t'] // 8),
            'l': (ints * (sizes['l'] // len(ints) + 1))[:sizes['l']],
            'b': [(i * 7 + seed) % 256 - 128 for i in range(sizes['b'])],
            'x': [b'x%d' % i for i in range(sizes['x'])],
            's': sizes['s']}


@op
def _big(P, mod, sid, sizes, seed, order):
    M = MODS[mod]
    cls = M.cls(sid)
    v = big_values(sizes, seed)
    subs = [cls(i % 200 - 100, 7, t=b'sub%d' % i) for i in range(v['s'])]
    obj = cls(-1, seed, v['d'], v['t'], v['l'], v['b'], v['x'], subs)
    objs = [('built', obj), ('loaded', cls.loads(obj.dumps())), ('copied', cls(s=[obj, obj]).s[1]),
            ('compact', obj.compact())]
    for how, o in objs:
        if (o.a, o.z) != (-1, seed):
            raise Anomaly('%s: numbers are %r' % (how, (o.a, o.z)))
        for k in order:
            got = getattr(o, k)
            if k == 's':
                if len(got) != v['s'] or [(x.a, x.z, x.t, x.d) for x in got] != [
                        (i % 200 - 100, 7, b'sub%d' % i, None) for i in range(v['s'])]:
                    raise Anomaly('%s: the list of %d structs is different' % (how, v['s']))
            elif (got if isinstance(got, bytes) else list(got)) != v[k]:
                raise Anomaly('%s: %s of %d bytes or items is different (%d)' % (how, k, len(v[k]), len(got)))
        if how != 'built':
            continue
        if len(o._seg.buf) % 8 or len(o._seg.buf) < len(v['d']) + 8 * len(v['l']):
            raise Anomaly('the message has %d bytes' % len(o._seg.buf))
    if objs[0][1].dumps() != objs[3][1].dumps():
        raise Anomaly('compact() of a constructed object gives other bytes')
    return None, len(obj._seg.buf)
