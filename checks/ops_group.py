# C12: groups, nullable groups and virtual groups


def group_ctor_of(cls, py):
    name = py.capitalize()
    return getattr(cls, name + '_' if keyword.iskeyword(name) else name)


def has_union(M, gid):
    g = M.structs[gid]
    return bool(g['dc']) or any(f['kind'] == 'group' and has_union(M, f['gid']) for f in g['fields'])


def derived_names(M, sid):
    """The attributes which a struct or group has because of its fields"""
    s = M.structs[sid]
    out = set()
    for f in s['fields']:
        out.add(f['py'])
        for p in ('has_', 'get_', 'is_', 'new_', '_'):
            out.add(p + f['py'])
        name = f['py'].capitalize()
        out.add(name)
        out.add(name + '_')
    if s['dc']:
        out.update(['which', '__which__', '__tag__'])
    return out


@op
def _group_views(P, mod, sid, obj):
    """All the groups of obj against the fields of obj. -> observations of the
    groups with the paths: {path: value}"""
    M = MODS[mod]
    out = {}

    def foreign(sid, gid, g, where):
        # the fields of the parent are not in the group
        known = derived_names(M, gid)
        for f in M.structs[sid]['fields']:
            if f['py'] not in known and not hasattr(Struct, f['py']) and hasattr(type(g), f['py']):
                raise Anomaly('%s has an attribute %r, which is a field of its parent' % (where, f['py']))

    def visit(sid, o, where):
        s = M.structs[sid]
        active = o.__which__() if s['dc'] else None
        for f in s['fields']:
            if f['disc'] is not None and f['disc'] != active:
                continue
            w = '%s.%s' % (where, f['name'])
            if f.get('vgroup'):
                g = getattr(o, f['py'])
                foreign(sid, f['vgroup'], g, w)
                out[w] = observe(M, f['vgroup'], g, w)
                for x in M.structs[f['vgroup']]['fields']:
                    if x['kind'] == 'slot' and is_ptr(x['type']):
                        if getattr(g, 'has_' + x['py'])() != getattr(o, 'has_' + x['py'])():
                            raise Anomaly('%s.has_%s() differs from the one of the struct' % (w, x['py']))
            elif f['kind'] == 'group' and f.get('nullable'):
                v = getattr(o, f['py'])
                if v is None:
                    out[w] = ['none']
                    continue
                vf = M.structs[f['gid']]['fields'][1]
                if vf['kind'] == 'group':
                    out[w] = ['value', observe(M, vf['gid'], v, w)]
                    visit(vf['gid'], v, w + '.value')
                else:
                    out[w] = ['value', observe_value(M, vf['type'], v, vf.get('uni'), w)]
            elif f['kind'] == 'group':
                g = getattr(o, f['py'])
                if not isinstance(g, Struct):
                    raise Anomaly('%s is %r' % (w, g))
                if type(getattr(o, f['py'])) is not type(g):
                    raise Anomaly('%s: two reads return objects of different types' % w)
                foreign(sid, f['gid'], g, w)
                out[w] = observe(M, f['gid'], g, w)
                visit(f['gid'], g, w)
    visit(sid, obj, '')
    return None, out


@op
def _group_ctor(P, mod, sid, obj, path, mval, npos, style):
    """The group constructor of the last group of the path, called with mval"""
    M = MODS[mod]
    o, cur = obj, sid
    cls = M.cls(sid)
    for i, n in enumerate(path):
        f = [x for x in M.structs[cur]['fields'] if x['name'] == n][0]
        if i == len(path) - 1:
            break
        o = getattr(o, f['py'])
        cls, cur = type(o), f['gid']
    ctor = group_ctor_of(cls, f['py'])
    gid = f.get('vgroup') or f['gid']
    args = field_args(M, gid, mval, style)
    order = [x['py'] for x in M.structs[gid]['fields']
             if not (x['kind'] == 'slot' and x['type'] == 'Void' and x['disc'] is None)]
    d = dict(args)
    pos = []
    for n in order[:npos]:
        if n not in d:
            break
        pos.append(d.pop(n))
    got = ctor(*pos, **d)
    if type(got) is not tuple or len(got) != len(order):
        raise Anomaly('the constructor of the group returned %r, instead of a tuple with %s'
                      % (got, order))
    if not has_union(M, gid):
        want = tuple_of_group(M, gid, args)
        if not same_args(got, want):
            raise Anomaly('the constructor of the group returned %r instead of %r (fields %s)'
                          % (got, want, order))
    else:
        for n, x in zip(order, got):
            if n in dict(args) and not same_args(x, dict(args)[n]):
                raise Anomaly('%s is %r instead of %r' % (n, x, dict(args)[n]))
    for bad in ('noSuchField', 'no_such_field'):
        try:
            x = ctor(**{bad: 1})
        except TypeError:
            continue
        raise Anomaly('the constructor of the group accepted %s, and returned %r' % (bad, x))
    return None, True


def same_args(a, b):
    if a is b:
        return True
    if type(a) is tuple and type(b) is tuple:
        return len(a) == len(b) and all(same_args(x, y) for x, y in zip(a, b))
    if isinstance(a, Struct) or isinstance(b, Struct):
        return False
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_args(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('d', a) == struct.pack('d', b) or (a != a and b != b)
    return a == b
