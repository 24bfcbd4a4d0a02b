# C10: hash and equality of $Py.key structs


def key_value(spec):
    k = spec[0]
    if k == 't':
        return tuple(key_value(x) for x in spec[1])
    if k == 'b':
        return dec(spec[1])
    if k == 'n':
        return None
    if k == 'l':
        return [key_value(x) for x in spec[1]]
    return spec[1]


def hashable(t):
    try:
        hash(t)
    except TypeError:
        return False
    return True


class TupleSubclass(tuple):
    pass


@op
def _key_check(P, mod, obj, spec, others):
    """obj must behave like the tuple; others: [[spec, relation]...] other tuples"""
    t = key_value(spec)

    def want(what, got, exp):
        if type(got) is not type(exp) or got != exp:
            raise Anomaly('%s is %r instead of %r; key %r' % (what, got, exp, t))
    h = hashable(t)
    if h:
        want('hash()', hash(obj), hash(t))
        want('second hash()', hash(obj), hash(t))
    elif hashable(obj):
        raise Anomaly('hash() returned a value, but the key contains a list: %r' % (t,))
    for u in [t] + [key_value(x) for x in others]:
        eq = t == u
        want('obj == %r' % (u,), obj == u, eq)
        want('obj != %r' % (u,), obj != u, not eq)
        want('%r == obj' % (u,), u == obj, eq)
        want('%r != obj' % (u,), u != obj, not eq)
        if h and hashable(u):
            want('%r in {obj}' % (u,), u in {obj}, eq)
            want('obj in {%r}' % (u,), obj in {u: 1}, eq)
        else:
            want('%r in [obj]' % (u,), u in [obj], eq)
    want('obj == TupleSubclass', obj == TupleSubclass(t), True)
    for x in (None, 0, 'x', b'x', list(t), object(), set(), 1.5):
        want('obj == %r' % (x,), obj == x, False)
        want('obj != %r' % (x,), obj != x, True)
        want('%r == obj' % (x,), x == obj, False)
    import operator
    for o in (operator.lt, operator.le, operator.gt, operator.ge):
        for a, b in ((obj, obj), (obj, t), (t, obj)):
            try:
                r = o(a, b)
            except TypeError:
                continue
            raise Anomaly('%s(%r, %r) returned %r' % (o.__name__, a, b, r))
    return obj, None


@op
def _key_pair(P, a, b, ta, tb):
    ta, tb = key_value(ta), key_value(tb)
    eq = ta == tb
    got = [a == b, a != b, b == a, b != a, [a] == [b], (a,) == (b,)]
    exp = [eq, not eq, eq, not eq, eq, eq]
    if hashable(ta) and hashable(tb):
        got += [a in {b}, len({a, b}) == 1]
        exp += [eq, eq]
    if got != exp:
        raise Anomaly('[==, !=, reversed ==, reversed !=, in set, ...]: %r instead of %r; keys %r %r'
                      % (got, exp, ta, tb))
    return None, eq


@op
def _nokey_check(P, a, b):
    """Structs without key"""
    import operator
    ops = [('hash', lambda: hash(a)), ('in set', lambda: a in {b: 1})]
    for o in (operator.eq, operator.ne, operator.lt, operator.le, operator.gt, operator.ge):
        ops.append((o.__name__, lambda o=o: o(a, b)))
        ops.append((o.__name__ + ' with a tuple', lambda o=o: o(a, (1, 2))))
    for name, f in ops:
        try:
            r = f()
        except TypeError:
            continue
        raise Anomaly('%s returned %r' % (name, r))
    return None, None
