# C18: constants


@op
def _const_value(P, mod, path, t, uni):
    """The constant reached from the module -> the constant, its value"""
    M = MODS[mod]
    o = M.mod
    for n in path:
        o = getattr(o, n)
    where = '.'.join(path)
    if t == 'Text' and type(o) is str:
        # the documentation says nothing about the type of Text constants
        return o, o
    v = observe_value(M, t, o, uni and t != 'Text', where)
    again = M.mod
    for n in path:
        again = getattr(again, n)
    if isinstance(t, list) and t[0] != 'enum':
        repr(o)
        if observe_value(M, t, again, uni, where + ' (again)') != v and 'nan' not in repr(v).lower():
            raise Anomaly('%s changed' % where)
    if isinstance(t, list) and t[0] == 'enum' and getattr(M.cls(t[1]), M.L['enums'][t[1]]['py'][v]) != o \
            if isinstance(t, list) and t[0] == 'enum' else False:
        raise Anomaly('%s is %r' % (where, o))
    return o, v


@op
def _const_dumps(P, o, fast):
    return None, enc(o.dumps(fastpath=fast))


@op
def _wrap_const(P, mod, sid, py, o):
    """A new object which holds the constant in one of its fields"""
    x = MODS[mod].cls(sid)(**{py: o})
    return x, enc(x.dumps())
