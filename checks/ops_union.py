# C11: unions


def must_raise(exc, f, what):
    try:
        x = f()
    except exc as e:
        if not str(e):
            raise Anomaly('%s raised %s without a message' % (what, exc.__name__))
        return
    except Exception as e:
        raise Anomaly('%s raised %s: %s' % (what, type(e).__name__, e))
    raise Anomaly('%s returned %r instead of raising %s' % (what, x, exc.__name__))


@op
def _union_check(P, mod, sid, obj, want):
    """Everything about the tags of obj and of its groups. want: mval. -> the
    number of unions seen"""
    M = MODS[mod]
    n = [0]

    def visit(sid, o, v, where):
        s = M.structs[sid]
        if s['dc']:
            n[0] += 1
            members = sorted((f for f in s['fields'] if f['disc'] is not None), key=lambda f: f['disc'])
            if '#tag' in v:
                tag, cur = v['#tag'], None
            else:
                cur = [f for f in members if f['name'] == v['#']][0]
                tag = cur['disc']
            names = tuple(f['py'] for f in members)
            T = type(o).__tag__
            if tuple(T.__members__) != names:
                raise Anomaly('%s: __tag__.__members__ is %r instead of %r' % (where, T.__members__, names))
            for i, x in enumerate(names):
                m = getattr(T, x)
                if type(m) is not T or m != i:
                    raise Anomaly('%s: __tag__.%s is %r' % (where, x, m))
            raw = o.__which__()
            if type(raw) is not int or raw != tag:
                raise Anomaly('%s: __which__() is %r instead of %r' % (where, raw, tag))
            w = o.which()
            if type(w) is not T or w != tag:
                raise Anomaly('%s: which() is %r instead of the tag %d' % (where, w, tag))
            name = names[tag] if tag < len(names) else 'unknown<%d>' % tag
            if str(w) != name or repr(w) != '<%s.%s: %d>' % (T.__name__, name, tag):
                raise Anomaly('%s: which() shows as %s %r instead of %s' % (where, w, w, name))
            if 'name' not in names and w.name != name:
                raise Anomaly('%s: which().name is %r' % (where, w.name))
            for f in members:
                r = getattr(o, 'is_' + f['py'])()
                if type(r) is not bool or r != (f is cur):
                    raise Anomaly('%s: is_%s() is %r, the tag is %d (%s)' % (where, f['py'], r, tag, name))
                if f is not cur:
                    what = '%s.%s, not active (the tag is %s),' % (where, f['py'], name)
                    must_raise(ValueError, lambda: getattr(o, f['py']), what)
                    if f['kind'] == 'slot' and is_ptr(f['type']) and f['type'] != 'AnyPointer':
                        must_raise(ValueError, lambda: getattr(o, 'get_' + f['py'])(), 'get: ' + what)
        for f in s['fields']:
            if f['name'] not in v or f.get('vgroup'):
                continue
            x, fw = v[f['name']], '%s.%s' % (where, f['name'])
            if f['kind'] == 'group':
                if f.get('nullable'):
                    vf = M.structs[f['gid']]['fields'][1]
                    if not x['isNull'] and vf['kind'] == 'group':
                        visit(vf['gid'], getattr(o, f['py']), x['value'], fw)
                else:
                    visit(f['gid'], getattr(o, f['py']), x, fw)
            elif x is not None and isinstance(f['type'], list) and f['type'][0] == 'struct':
                visit(f['type'][1], getattr(o, f['py']), x, fw)
            elif x and isinstance(f['type'], list) and f['type'][0] == 'list' and \
                    isinstance(f['type'][1], list) and f['type'][1][0] == 'struct':
                for i, item in enumerate(getattr(o, f['py'])):
                    visit(f['type'][1][1], item, x[i], '%s[%d]' % (fw, i))
    visit(sid, obj, want, '')
    return None, n[0]


@op
def _new_member(P, mod, sid, name, mval):
    """Cls.new_<name>() with the fields of mval and without a value"""
    M = MODS[mod]
    s = M.structs[sid]
    f = [f for f in s['fields'] if f['name'] == name][0]
    args = dict(field_args(M, sid, mval, {}))
    args.pop(f['py'], None)
    return getattr(M.cls(sid), 'new_' + f['py'])(**args), None


def several(M, sid, path, groups, mvals, style):
    """keyword arguments with several members of the union at the end of the path"""
    s = M.structs[sid]
    if not path:
        out = {}
        for v in mvals:
            out.update(field_args(M, sid, v, style))
        return out
    f = [f for f in s['fields'] if f['name'] == path[0]][0]
    args = several(M, f['gid'], path[1:], None, mvals, style)
    return {f['py']: tuple_of_group(M, f['gid'], list(args.items()))}


@op
def _several_members(P, mod, sid, path, mvals, base, style):
    """A constructor with two members of the same union"""
    M = MODS[mod]
    cls = M.cls(sid)
    kw = several(M, sid, path, None, mvals, style)
    args = dict(field_args(M, sid, base, style))
    args.update(kw)
    must_raise(TypeError, lambda: cls(**args), '%s(%s)' % (cls.__name__, args))
    if not path:
        for v in mvals:
            f = [f for f in M.structs[sid]['fields'] if f['name'] == v['#']][0]
            must_raise(TypeError, lambda: getattr(cls, 'new_' + f['py'])(**args),
                       'new_%s(%s)' % (f['py'], args))
    return None, True


@op
def _no_union(P, mod, sid, obj):
    """which() of a struct without anonymous union"""
    must_raise(TypeError, lambda: obj.which(), 'which() of a struct without union')
    must_raise(TypeError, lambda: obj.__which__(), '__which__() of a struct without union')
    return None, True
