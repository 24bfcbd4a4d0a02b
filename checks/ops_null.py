# C13: null pointers, has_x() and get_x()


@op
def _null_tree(P, mod, sid, obj, depth):
    M = MODS[mod]

    def tree(sid, o, d, where):
        """{'v': value, 'p': {pointer: [has, value, get]}, 's': {struct or group: tree of get_x()}}"""
        s = M.structs[sid]
        out = {'v': observe(M, sid, o, where), 'p': {}, 's': {}}
        active = o.__which__() if s['dc'] else None
        for f in s['fields']:
            if f['disc'] is not None and f['disc'] != active or f.get('nullable') or f.get('vgroup'):
                continue
            w = '%s.%s' % (where, f['name'])
            if f['kind'] == 'group':
                out['s'][f['name']] = tree(f['gid'], getattr(o, f['py']), d, w)
                continue
            if not is_ptr(f['type']):
                for p in ('has_', 'get_'):
                    if not hasattr(Struct, p + f['py']) and \
                            p + f['py'] not in [x['py'] for x in s['fields']] and \
                            hasattr(o, p + f['py']):
                        raise Anomaly('%s is not a pointer, but there is %s%s' % (w, p, f['py']))
                continue
            x = getattr(o, f['py'])
            has = getattr(o, 'has_' + f['py'])()
            if type(has) is not bool:
                raise Anomaly('%s: has_ returned %r' % (w, has))
            v = observe_value(M, f['type'], x, f.get('uni'), w)
            if f['type'] == 'AnyPointer':
                out['p'][f['name']] = [has, v]
                continue
            g = getattr(o, 'get_' + f['py'])()
            out['p'][f['name']] = [has, v, observe_value(M, f['type'], g, f.get('uni'), w + '(get)')]
            t = f['type']
            if t[0] == 'struct' and d > 0:
                out['s'][f['name']] = tree(t[1], g, d - 1, w + '(get)')
            elif t[0] == 'list':
                if not isinstance(g, List) or len(list(g)) != len(g):
                    raise Anomaly('%s: get_ returned %r' % (w, g))
                if isinstance(t[1], list) and t[1][0] == 'struct' and len(g) and d > 0:
                    out['s'][f['name']] = tree(t[1][1], g[0], d - 1, w + '(get)[0]')
        return out
    return None, tree(sid, obj, depth, '')


@op
def _huge(P, obj):
    """has, len and len of get_ of the fields of struct Huge"""
    return None, [[getattr(obj, 'has_' + n)(), None if getattr(obj, n) is None else len(getattr(obj, n)),
                   len(getattr(obj, 'get_' + n)())] for n in ('a', 'b', 'c')]
