# C17: names


@op
def _names_type(P, mod, nid, absent):
    """A struct or an enum is reachable, with the right id and members"""
    M = MODS[mod]
    cls = M.cls(nid)
    if cls.__capnpy_id__ != int(nid, 16):
        raise Anomaly('%r has the id %#x' % (cls, cls.__capnpy_id__))
    if nid in M.L['enums']:
        py = M.L['enums'][nid]['py']
        if tuple(cls.__members__) != tuple(py):
            raise Anomaly('members %r' % (cls.__members__,))
        for i, n in enumerate(py):
            if int(getattr(cls, n)) != i:
                raise Anomaly('%s is %r' % (n, getattr(cls, n)))
    else:
        for f in M.structs[nid]['fields']:
            if not hasattr(cls, f['py']):
                raise Anomaly('no attribute %r for the field %s' % (f['py'], f['name']))
    for n in absent:
        if hasattr(cls, n):
            raise Anomaly('there is an attribute %r' % n)
    return cls, None


@op
def _names_path(P, mod, path, nid):
    """An annotation, or a constant (nid is None)"""
    o = MODS[mod].mod
    for n in path:
        o = getattr(o, n)
    if nid is not None:
        if o.__capnpy_id__ != int(nid, 16):
            raise Anomaly('%s has the id %#x' % ('.'.join(path), o.__capnpy_id__))
        return o, None
    return o, enc(o) if isinstance(o, (bytes, str)) else int(o)


@op
def _names_walk(P, mod, sid, obj, absent):
    """obj and all that it contains: the classes, and no attributes but the
    documented ones. absent: {struct or group id: [names]}"""
    M = MODS[mod]
    n = [0]

    def visit(sid, o, depth):
        n[0] += 1
        for a in absent.get(sid, ()):
            if hasattr(o, a):
                raise Anomaly('%r has an attribute %r' % (type(o), a))
        s = M.structs[sid]
        if not s['group'] and type(o) is not M.cls(sid):
            raise Anomaly('an object of %r instead of %r' % (type(o), M.cls(sid)))
        active = o.__which__() if s['dc'] else None
        if s['dc']:
            for f in s['fields']:
                if f['disc'] is not None and getattr(o, 'is_' + f['py'])() != (f['disc'] == active):
                    raise Anomaly('is_%s() is wrong' % f['py'])
                if f['disc'] is not None and f['disc'] == active and str(o.which()) != f['py']:
                    raise Anomaly('which() is %s for %s' % (o.which(), f['name']))
        for f in s['fields']:
            if f['disc'] is not None and f['disc'] != active:
                continue
            if f['kind'] == 'group':
                visit(f['gid'], getattr(o, ('_' if f.get('nullable') else '') + f['py']), depth)
            elif not f.get('vgroup') and isinstance(f['type'], list) and depth < 4:
                v = getattr(o, f['py'])
                if f['type'][0] == 'struct' and v is not None:
                    visit(f['type'][1], v, depth + 1)
                elif f['type'][0] == 'enum' and type(v) is not M.cls(f['type'][1]):
                    raise Anomaly('an enum of %r' % type(v))
                elif f['type'][0] == 'list' and v is not None and f['type'][1][0] == 'struct':
                    for x in list(v)[:4]:
                        visit(f['type'][1][1], x, depth + 1)
    visit(sid, obj, 0)
    return None, n[0]
