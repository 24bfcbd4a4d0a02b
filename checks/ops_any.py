# C24: queries on AnyPointer fields
from capnpy.type import Types
from capnpy import list as capnpy_list


def item_type(M, t, uni, style):
    """What to give to as_list"""
    if isinstance(t, str):
        if t == 'Text':
            return str if uni else bytes
        if t == 'Data':
            return Types.data
        if t == 'Int64' and style == 'py':
            return int
        if t == 'Float64' and style == 'py':
            return float
        bt = getattr(Types, t.lower())
        if style == 'itemtype' and t not in ('Void', 'Bool'):
            return capnpy_list.PrimitiveItemType(bt)
        return bt
    if t[0] == 'struct':
        if style == 'itemtype':
            return capnpy_list.StructItemType(M.cls(t[1]))
        return M.cls(t[1])
    if t[0] == 'enum':
        return M.cls(t[1])
    return [item_type(M, t[1], uni, 'type')]


@op
def _any_kinds(P, a):
    if not isinstance(a, AnyPointer):
        raise Anomaly('not an AnyPointer: %r' % (a,))
    r = [a.is_struct(), a.is_list(), a.is_text(), a.is_data()]
    for x in r:
        if type(x) is not bool:
            raise Anomaly('is_*() returned %r' % (x,))
    return None, r


@op
def _any_struct(P, mod, sid, a):
    return a.as_struct(MODS[mod].cls(sid)), None


@op
def _any_list(P, mod, t, uni, style, a):
    M = MODS[mod]
    lst = a.as_list(item_type(M, t, uni, style))
    return lst, observe_value(M, ['list', t], lst, uni, 'as_list')


@op
def _any_blob(P, a):
    u = None
    try:
        u = a.as_text_unicode()
    except UnicodeDecodeError:
        pass
    b, d = a.as_text_bytes(), a.as_data()
    if type(b) is not bytes or type(d) is not bytes or (u is not None and type(u) is not str):
        raise Anomaly('as_text/as_data: %r %r %r' % (b, d, u))
    return None, [enc(b), enc(d), u]
