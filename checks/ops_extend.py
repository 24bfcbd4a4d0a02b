# C25: __extend__ and <schema>_extended.py
import itertools
_EXT_N = itertools.count()


def ext_body(members, n):
    """the source of a class with the members {name: [kind, K]}"""
    src = ['class X:', '    """another doc"""']
    for name, (kind, k) in sorted(members.items()):
        name += n
        if kind == 'method':
            src += ['    def %s(self, a=5, *args): return (%d, self, a) + args' % (name, k)]
        elif kind == 'lambda':
            src += ['    %s = lambda self: (%d, self)' % (name, k)]
        elif kind == 'prop':
            src += ['    @property', '    def %s(self): return (%d, self)' % (name, k)]
        elif kind == 'static':
            src += ['    @staticmethod', '    def %s(a): return (%d, a)' % (name, k)]
        elif kind == 'class':
            src += ['    @classmethod', '    def %s(cls, a): return (%d, cls, a)' % (name, k)]
        else:
            src += ['    %s = [%d]' % (name, k)]
    return '\n'.join(src) + '\n'


def ext_expect(o, cls, name, kind, k, use):
    """o has the attribute; use: a function which reads it and was used often"""
    def want(got, exp):
        if type(got) is not type(exp) or len(got) != len(exp) or \
                any(a is not b and a != b for a, b in zip(got, exp) if a is not o and a is not cls) or \
                any((a is o) != (b is o) or (a is cls) != (b is cls) for a, b in zip(got, exp)):
            raise Anomaly('%s.%s (%s %d) gives %r instead of %r' % (cls.__name__, name, kind, k, got, exp))
    if kind == 'method':
        want(use(o)(), (k, o, 5))
        want(getattr(o, name)(7, 8), (k, o, 7, 8))
        want(getattr(cls, name)(o, a=1), (k, o, 1))
    elif kind == 'lambda':
        want(use(o)(), (k, o))
    elif kind == 'prop':
        want(use(o), (k, o))
    elif kind == 'static':
        want(use(o)(3), (k, 3))
        want(getattr(cls, name)(3), (k, 3))
    elif kind == 'class':
        want(use(o)(3), (k, cls, 3))
        want(getattr(cls, name)(3), (k, cls, 3))
    else:
        want(use(o), [k])
        if use(o) is not getattr(cls, name):
            raise Anomaly('the object and the class have different attributes %s' % name)


def ext_known(P):
    if not hasattr(P, 'ext'):
        P.ext = {}              # class -> {name: [kind, k]}
        P.ext_n = '_%d' % next(_EXT_N)
        P.ext_use = {}
    return P.ext


@op
def _extend(P, obj, members, names):
    """extend the class of obj; names: the other names which are used"""
    known = ext_known(P)
    cls = type(obj)
    ns = {}
    exec(ext_body(members, P.ext_n), ns)
    X = ns['X']
    before = dict(cls.__dict__)
    about = cls.__name__, cls.__module__, cls.__doc__, cls.__mro__
    got = cls.__extend__(X)
    if got is not cls:
        raise Anomaly('__extend__ returned %r instead of %r' % (got, cls))
    del X, ns
    import gc
    gc.collect(0)
    after = dict(cls.__dict__)
    new = set(m + P.ext_n for m in members)
    for x in set(before) | set(after):
        if x not in new and before.get(x) is not after.get(x) and x not in ('__abstractmethods__',):
            raise Anomaly('__extend__ changed %s.%s' % (cls.__name__, x))
    if (cls.__name__, cls.__module__, cls.__doc__, cls.__mro__) != about:
        raise Anomaly('__extend__ changed the name, the doc or the bases of %s' % cls.__name__)
    if cls not in known:
        known[cls] = {}
    known[cls].update(members)
    return None, None


@op
def _ext_check(P, obj, names, times):
    """obj has exactly those of the names which its class was extended with"""
    known = ext_known(P)
    cls = type(obj)
    mine = known.get(cls, {})
    for name in names:
        full = name + P.ext_n
        use = P.ext_use.get((cls, name))
        if use is None:
            ns = {}
            exec('def use(o): return o.%s' % full, ns)
            use = P.ext_use[cls, name] = ns['use']
        for _ in range(times):
            if name in mine:
                ext_expect(obj, cls, full, mine[name][0], mine[name][1], use)
                if not hasattr(obj, full) or not hasattr(cls, full):
                    raise Anomaly('no attribute %s' % full)
            else:
                try:
                    x = use(obj)
                except AttributeError:
                    pass
                else:
                    raise Anomaly('%s.%s is %r although it was not added' % (cls.__name__, full, x))
                if hasattr(obj, full) or hasattr(cls, full):
                    raise Anomaly('hasattr(%s) is true although it was not added' % full)
    return None, None


EXT_SPECIAL = {
    '__len__': ('def __len__(self): return 13', 'len(o) == 13'),
    '__call__': ('def __call__(self, x): return (x, 13)', 'o(4) == (4, 13)'),
    '__iter__': ('def __iter__(self): return iter([1, 2])', 'list(o) == [1, 2]'),
    '__contains__': ('def __contains__(self, x): return x == 13', '13 in o and 4 not in o'),
    '__getitem__': ('def __getitem__(self, x): return x + 13', 'o[4] == 17'),
    '__add__': ('def __add__(self, x): return x + 13', 'o + 4 == 17'),
    '__radd__': ('def __radd__(self, x): return x + 13', '4 + o == 17'),
    '__neg__': ('def __neg__(self): return 13', '-o == 13'),
    '__bool__': ('def __bool__(self): return False', 'not o'),
    '__next__': ('def __next__(self): return 13', 'next(o) == 13'),
    '__matmul__': ('def __matmul__(self, x): return 13', 'o @ 4 == 13'),
    '__index__': ('def __index__(self): return 1', '[4, 5][o] == 5'),
    '__enter__': ('def __enter__(self): return 13\n    def __exit__(self, *args): pass', 'ext_with(o) == 13'),
    '__bytes__': ('def __bytes__(self): return b"xyz"', 'bytes(o) == b"xyz"'),
    '__round__': ('def __round__(self, n=0): return n + 13', 'round(o, 4) == 17'),
}


def ext_with(o):
    with o as x:
        return x


@op
def _ext_special(P, obj, name):
    """A special method works, or it is refused"""
    cls = type(obj)
    src, expr = EXT_SPECIAL[name]
    ns = {}
    exec('class X:\n    %s\n' % src, ns)
    names = [x for x in ns['X'].__dict__ if x in src]
    if any(x in cls.__dict__ for x in names):
        return None, 'present'
    try:
        cls.__extend__(ns['X'])
    except TypeError as e:
        if cls.__flags__ & (1 << 9):
            raise Anomaly('%s refused: %s' % (name, e))
        if any(x in cls.__dict__ for x in names):
            raise Anomaly('%s refused, but it is there' % name)
        return None, 'refused'
    try:
        if not eval(expr, {'o': obj, 'ext_with': ext_with}):
            raise Anomaly('%s was accepted, but %s is false' % (name, expr))
    finally:
        if cls.__flags__ & (1 << 9):
            for x in names:
                delattr(cls, x)
    return None, 'works'


@op
def _ext_file_check(P, obj, members):
    """The members which come from <schema>_extended.py"""
    cls = type(obj)
    for name, (kind, k) in sorted(members.items()):
        ext_expect(obj, cls, name, kind, k, lambda o: getattr(o, name))
    return None, None


@op
def _ext_file_globals(P, mod, fname, want):
    """What <schema>_extended.py saw and defined in the namespace of the module"""
    M = MODS[mod]
    m = M.mod
    if fname:
        m = M.imported(fname)
    if m.ext_seen != want:
        raise Anomaly('names seen by the extension: %r instead of %r' % (m.ext_seen, want))
    if m.ext_helper(4) != (4, m.ext_seen):
        raise Anomaly('the function defined by the extension does not see the globals')
    return None, None


@op
def _ext_top(P, mod, sid, obj):
    """An object of an imported class inside of a new one"""
    cls = MODS[mod].cls(sid)
    return cls(obj, [obj, obj, obj]), None
