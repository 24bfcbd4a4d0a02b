# C16: pickling and raw dumps


def registered(M, f):
    mods = dict((m.__name__, m) for m in M._imports.values())
    mods[M.mod.__name__] = M.mod
    old = dict((name, sys.modules.get(name)) for name in mods)
    sys.modules.update(mods)
    try:
        return f()
    finally:
        for name in mods:
            if old[name] is None:
                del sys.modules[name]
            else:
                sys.modules[name] = old[name]


@op
def _restore(P, mod, obj, how, proto):
    """The object after a round trip"""
    import copy
    import io
    import pickle
    import warnings
    M = MODS[mod]
    cls = type(obj)
    before = obj._seg.buf

    def go():
        if how == 'pickle':
            return pickle.loads(pickle.dumps(obj, proto))
        if how == 'file':
            f = io.BytesIO()
            f.write(b'junk')
            pickle.Pickler(f, proto).dump({'x': [obj], 'y': obj})
            pickle.Pickler(f, proto).dump(obj)
            f.seek(4)
            d = pickle.Unpickler(f).load()
            if d['x'][0] is not d['y'] or list(d) != ['x', 'y']:
                raise Anomaly('identity in a pickled container is lost')
            again = pickle.Unpickler(f).load()
            if again._seg.buf != d['y']._seg.buf or type(again) is not type(d['y']):
                raise Anomaly('the second pickle in a file is different')
            return d['y'] if proto % 2 else again
        if how == 'twice':
            s = pickle.dumps(obj, proto)
            s2 = pickle.dumps(pickle.loads(s), proto)
            return pickle.loads(s2)
        if how == 'copy':
            return copy.copy(obj)
        if how == 'deepcopy':
            return copy.deepcopy([obj, (obj,)])[1][0]
        if how == 'raw':
            with warnings.catch_warnings():
                warnings.simplefilter('error')
                return cls._raw_loads(obj._raw_dumps())
        raise ValueError(how)
    res = registered(M, go)
    if type(res) is not cls:
        raise Anomaly('%s gives a %s instead of a %s' % (how, type(res), cls))
    if obj._seg.buf != before:
        raise Anomaly('the original changed')
    return res, None


@op
def _restore_list(P, mod, lst, proto):
    """Lists do not support pickling: they must say so"""
    import pickle
    try:
        pickle.dumps(lst, proto)
    except TypeError:
        return None, None
    raise Anomaly('a list was pickled')


@op
def _same_dumps(P, a, b):
    if a.dumps() != b.dumps():
        raise Anomaly('dumps() is different: %r instead of %r' % (b.dumps(), a.dumps()))
    if a.dumps(fastpath=False) != b.dumps(fastpath=False):
        raise Anomaly('dumps(fastpath=False) is different')
    if a.shortrepr() != b.shortrepr():
        raise Anomaly('shortrepr() is different')
    if hasattr(a, '_key'):
        try:
            h = hash(a)
        except TypeError:
            return None, None
        if a != b and a == a:
            raise Anomaly('not equal to the original')
        if hash(b) != h and a == a:
            raise Anomaly('the hash is different')
    return None, None


@op
def _restore_enum(P, mod, e, proto):
    import copy
    import pickle
    M = MODS[mod]
    for x in registered(M, lambda: [pickle.loads(pickle.dumps(e, proto)), copy.copy(e), copy.deepcopy(e)]):
        if type(x) is not type(e) or int(x) != int(e) or repr(x) != repr(e):
            raise Anomaly('%r instead of %r' % (x, e))
    return None, None
