# C21: constructors with wrong arguments


class Thing(object):
    pass


def bad_value(M, spec, style):
    k = spec[0]
    if k == 'int':
        return int(spec[1])
    if k in ('float', 'bool', 'str'):
        return spec[1]
    if k == 'none':
        return None
    if k == 'bytes':
        return dec(spec[1])
    if k == 'bytearray':
        return bytearray(dec(spec[1]))
    if k == 'object':
        return Thing()
    if k == 'val':
        return build_value(M, spec[1], spec[2], spec[3], style)
    if k == 'struct':
        return build(M, spec[1], spec[2], style)
    if k == 'impostor':         # another class with the same name
        o = build(M, spec[2], spec[3], style)
        cls = type(M.cls(spec[1]).__name__, (Struct,), {})
        return cls.from_buffer(o._seg, o._data_offset, o._data_size, o._ptrs_size)
    if k == 'list':
        return [bad_value(M, x, style) for x in spec[1]]
    if k == 'tuple':
        return tuple(bad_value(M, x, style) for x in spec[1])
    if k == 'dict':
        return {}
    if k == 'group':            # the right tuple, made longer or shorter
        t = tuple_of_group(M, spec[1], field_args(M, spec[1], spec[2], style))
        return t + (0,) * abs(spec[3]) if spec[3] >= 0 or not t else t[:spec[3]]
    raise ValueError(k)


def args_with(M, sid, mval, path, spec, style):
    """The arguments for mval, with the value at the end of the path replaced"""
    s = M.structs[sid]
    f = [x for x in s['fields'] if x['name'] == path[0]][0]
    args = field_args(M, sid, dict((k, v) for k, v in mval.items() if k != f['name']), style)
    if len(path) == 1:
        v = bad_value(M, spec, style)
    else:
        v = tuple_of_group(M, f['gid'], args_with(M, f['gid'], mval[f['name']], path[1:], spec, style))
    return args + [(f['py'], v)]


def freeze(v):
    """What must not change in an argument"""
    if isinstance(v, (list, tuple)):
        return [id(v), type(v).__name__] + [freeze(x) for x in v]
    if hasattr(v, '_seg'):
        return [id(v), v._seg.buf]
    if isinstance(v, (bytearray, dict)):
        return [id(v), bytes(v) if isinstance(v, bytearray) else dict(v)]
    return [id(v), repr(v) if isinstance(v, (int, float, str, bytes)) else None]


def rejects(what, args, kwargs, f):
    """None if it raised"""
    before = freeze(list(args) + [kwargs[k] for k in sorted(kwargs)])[2:]
    try:
        obj = f(*args, **kwargs)
    except Exception:
        obj = None
    after = freeze(list(args) + [kwargs[k] for k in sorted(kwargs)])[2:]
    if before != after:
        raise Anomaly('%s changed its arguments' % what)
    return obj


def short(v):
    r = repr(v)
    return r if len(r) < 200 else r[:200] + '...'


@op
def _ctor_bad(P, mod, sid, mval, path, spec, must, how, style):
    """-> 'raised' or ['stored']; the register is the object"""
    M = MODS[mod]
    cls = M.cls(sid)
    args = args_with(M, sid, mval, path, spec, style)
    pos = []
    f = cls
    if how == 'new' and mval.get('#') and M.structs[sid]['dc']:
        m = [x for x in M.structs[sid]['fields'] if x['name'] == mval['#']][0]
        f = getattr(cls, 'new_' + m['py'])
    kw = dict(args)
    if how == 'pos' and f is cls:
        for x in M.structs[sid]['fields']:
            if x['kind'] == 'slot' and x['type'] == 'Void' and x['disc'] is None:
                continue
            if x['py'] not in kw:
                break
            pos.append(kw.pop(x['py']))
    obj = rejects('the constructor', pos, kw, lambda *a, **k: f(*a, **k))
    if obj is None:
        return None, 'raised'
    if must:
        raise Anomaly('%s accepted %s for %s and made %s' % (
            M.structs[sid]['name'], short(bad_value(M, spec, style)), '.'.join(path), short(obj.shortrepr())))
    return obj, 'stored'


@op
def _ctor_call(P, mod, sid, mval, wrong, style):
    """Calls with the wrong set of arguments"""
    M = MODS[mod]
    s = M.structs[sid]
    cls = M.cls(sid)
    kw = dict(field_args(M, sid, mval, style))
    order = [x for x in s['fields'] if not (x['kind'] == 'slot' and x['type'] == 'Void' and x['disc'] is None)]
    pos, f = [], cls
    if wrong[0] == 'unknown':
        if any(x['py'] == wrong[1] for x in s['fields']):
            return None, 'skipped'
        kw[wrong[1]] = None
    elif wrong[0] == 'twice':
        if not order or order[0]['py'] not in kw:
            return None, 'skipped'
        pos = [kw[order[0]['py']]]
    elif wrong[0] == 'too many':
        pos = []
        for x in order:
            if x['py'] in kw:
                pos.append(kw.pop(x['py']))
            elif x['disc'] is not None:
                from capnpy.struct_ import undefined
                pos.append(undefined)
            elif x['kind'] == 'group' or x.get('type') == 'AnyPointer':
                return None, 'skipped'
            else:
                pos.append(None if is_ptr(x['type']) else x['default'])
        if kw:
            return None, 'skipped'
        pos.append(0)
    elif wrong[0] == 'union':       # [members: values]
        ms = [(x, v) for x in order if x['disc'] is not None for n, v in wrong[1] if x['name'] == n]
        for x, v in ms:
            kw.update(field_args(M, sid, {x['name']: v}, style))
    elif wrong[0] == 'new':         # new_a(b=...)
        ms = [(x, v) for x in order if x['disc'] is not None for n, v in wrong[1] if x['name'] == n]
        f = getattr(cls, 'new_' + ms[0][0]['py'])
        for x in order:
            if x['disc'] is not None:
                kw.pop(x['py'], None)
        for x, v in ms:
            kw.update(field_args(M, sid, {x['name']: v}, style))
    obj = rejects('the constructor', pos, kw, lambda *a, **k: f(*a, **k))
    if obj is not None:
        raise Anomaly('%s accepted the wrong arguments %r (%s) and made %s' % (
            s['name'], wrong[0], ', '.join(sorted(kw)), short(obj.shortrepr())))
    return None, 'raised'
