# C15: queries on lists. Items are reported through observe_value


def _show(M, t, uni, x):
    return observe_value(M, t, x, uni, 'item')


def _query(M, t, uni, lst, q):
    name = q[0]
    if name == 'len':
        return len(lst)
    if name == 'bool':
        return bool(lst)
    if name == 'get':
        return _show(M, t, uni, lst[q[1]])
    if name == 'slice':
        r = lst[slice(*q[1:])]
        if type(r) is not list:
            raise Anomaly('slice of a list: %r' % type(r))
        return [_show(M, t, uni, x) for x in r]
    if name == 'iter':
        return [_show(M, t, uni, x) for x in lst]
    if name == 'iter2':     # two iterators at once, one abandoned
        a, b = iter(lst), iter(lst)
        next(b, None)
        out = [_show(M, t, uni, x) for x in a]
        return out + [_show(M, t, uni, x) for x in b]
    if name == 'list':
        return [_show(M, t, uni, x) for x in list(lst)]
    if name == 'reversed':
        return [_show(M, t, uni, x) for x in reversed(lst)]
    if name == 'in':
        return build_value(M, t, q[1], uni, {}) in lst
    if name in ('eq', 'ne', 'req', 'rne'):
        other = [build_value(M, t, x, uni, q[2] if len(q) > 2 else {}) for x in q[1]]
        return {'eq': lambda: lst == other, 'ne': lambda: lst != other,
                'req': lambda: other == lst, 'rne': lambda: other != lst}[name]()
    if name == 'eqother':
        other = {'none': None, 'int': 3, 'tuple': tuple(lst), 'str': 'x', 'object': object()}[q[1]]
        return [lst == other, lst != other]
    if name == 'lt':
        other = list(lst) if q[2] == 'list' else lst
        return [lambda: lst < other, lambda: lst <= other, lambda: lst > other,
                lambda: lst >= other][q[1]]()
    if name == 'badindex':
        return lst[{'str': 'x', 'none': None, 'float': 0.5, 'tuple': (0, 1)}[q[1]]]
    if name == 'set':
        lst[q[1]] = lst[q[1]]
        return 'done'
    if name == 'setslice':
        lst[:] = []
        return 'done'
    if name == 'del':
        del lst[q[1]]
        return 'done'
    if name == 'setattr':
        setattr(lst, q[1], 1)
        return 'done'
    if name == 'mutator':
        getattr(lst, q[1])(*q[2:])
        return 'done'
    raise ValueError(name)


@op
def _lquery(P, mod, t, uni, lst, queries):
    M = MODS[mod]
    if not isinstance(lst, List):
        raise Anomaly('not a list: %r' % (lst,))
    out = []
    for q in queries:
        try:
            out.append(['v', _query(M, t, uni, lst, q)])
        except Anomaly as e:
            out.append(['anomaly', str(e)])
        except Exception as e:
            out.append(['exc', [c.__name__ for c in type(e).__mro__]])
    return lst, out


@op
def _leq(P, a, b):
    """[a == b, a != b], or the exceptions"""
    out = []
    for f in (lambda: a == b, lambda: a != b, lambda: b == a):
        try:
            out.append(f())
        except Exception as e:
            out.append([c.__name__ for c in type(e).__mro__])
    return None, out
