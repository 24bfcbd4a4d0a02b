# C22: enums


def enum_check(M, eid, v, n, where):
    e = M.L['enums'][eid]
    py, items = e['py'], e['items']
    cls = M.cls(eid)

    def want(what, got, exp):
        if type(got) is not type(exp) or got != exp:
            raise Anomaly('%s: %s is %r instead of %r (value %d)' % (where, what, got, exp, n))
    if type(v) is not cls or not issubclass(cls, int):
        raise Anomaly('%s: %r is not an instance of %r' % (where, v, cls))
    known = n < len(py)
    name = py[n] if known else 'unknown<%d>' % n
    want('int()', int(v), n)
    want('== int', v == n, True)
    want('!= int', v != n, False)
    want('== another int', v == n + 1, False)
    want('hash()', hash(v), hash(n))
    want('+ 1', v + 1, n + 1)
    want('in a dict', {n: 1}.get(v), 1)
    want('%d', '%d' % v, '%d' % n)
    want('str()', str(v), name)
    want('repr()', repr(v), '<%s.%s: %d>' % (cls.__name__, name, n))
    if 'name' not in py:
        want('name', v.name, name)
    if 'shortrepr' not in py:
        want('shortrepr()', v.shortrepr(), items[n] if known else name)
    same = cls(n)
    if type(same) is not cls or same != v or repr(same) != repr(v):
        raise Anomaly('%s: %s(%d) is %r, the value is %r' % (where, cls.__name__, n, same, v))
    if known:
        m = getattr(cls, name)
        if type(m) is not cls or m != n or repr(m) != repr(v):
            raise Anomaly('%s: %s.%s is %r' % (where, cls.__name__, name, m))
    else:
        for i, x in enumerate(py):
            if getattr(cls, x) == v:
                raise Anomaly('%s: unknown value %d is equal to %s' % (where, n, x))


@op
def _enum_class(P, mod, eid):
    M = MODS[mod]
    e = M.L['enums'][eid]
    cls = M.cls(eid)
    if type(cls.__members__) is not tuple or cls.__members__ != tuple(e['py']):
        raise Anomaly('__members__ of %s is %r instead of %r' % (cls.__name__, cls.__members__, e['py']))
    for i in list(range(len(e['py']))) + [len(e['py']), 255, 256, 32767, 32768, 65535]:
        enum_check(M, eid, cls(i), i, cls.__name__)
    for i, x in enumerate(e['py']):
        enum_check(M, eid, getattr(cls, x), i, '%s.%s' % (cls.__name__, x))
    return None, len(e['py'])


@op
def _enum_walk(P, mod, sid, obj, want):
    M = MODS[mod]
    n = [0]

    def shown(eid, x):
        items = M.L['enums'][eid]['items']
        return items[x] if x < len(items) else 'unknown<%d>' % x

    def value(t, v, x, where):
        if x is None or not isinstance(t, list):
            return
        if t[0] == 'enum':
            n[0] += 1
            enum_check(M, t[1], v, x, where)
        elif t[0] == 'struct':
            visit(t[1], v, x, where)
        else:
            for i, y in enumerate(x):
                value(t[1], v[i], y, '%s[%d]' % (where, i))
            for i, y in enumerate(v):
                value(t[1], y, x[i], 'iterating %s, item %d' % (where, i))
            if isinstance(t[1], list) and t[1][0] == 'enum':
                if v != x or list(v) != x:
                    raise Anomaly('%s is %r instead of %r' % (where, v, x))
                for i, y in enumerate(v[::-1]):
                    value(t[1], y, x[-1 - i], '%s[::-1][%d]' % (where, i))

    def visit(sid, o, v, where):
        s = M.structs[sid]
        text = o.shortrepr()
        for f in s['fields']:
            if f['name'] not in v or f.get('vgroup'):
                continue
            x, w = v[f['name']], '%s.%s' % (where, f['name'])
            if f['kind'] == 'group':
                if f.get('nullable'):
                    vf = M.structs[f['gid']]['fields'][1]
                    if not x['isNull'] and vf['kind'] == 'slot':
                        value(vf['type'], getattr(o, f['py']), x['value'], w)
                else:
                    visit(f['gid'], getattr(o, f['py']), x, w)
                continue
            t = f['type']
            if x is not None:
                value(t, getattr(o, f['py']), x, w)
                if isinstance(t, list) and t[0] == 'enum':
                    e = '%s = %s' % (f['name'], shown(t[1], x))
                    if e not in text:
                        raise Anomaly('%s: shortrepr() is %r, without %r' % (w, text, e))
                elif isinstance(t, list) and t[0] == 'list' and isinstance(t[1], list) and t[1][0] == 'enum' \
                        and f['disc'] is None:
                    e = '%s = [%s]' % (f['name'], ', '.join(shown(t[1][1], y) for y in x))
                    if e not in text:
                        raise Anomaly('%s: shortrepr() is %r, without %r' % (w, text, e))
    visit(sid, obj, want, '')
    return None, n[0]
