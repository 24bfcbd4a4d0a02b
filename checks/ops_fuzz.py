# C07: exercise everything reachable from an object of a malformed message
import copy


class Budget(Exception):
    pass


class Fuzz(object):
    """Walks an object, calling every read operation. trace: {path: value} of the
    scalars which could be read"""

    def __init__(self, M, msg, nodes, heavy, heavy_repr):
        self.M, self.msg = M, msg
        self.nodes, self.heavy, self.heavy_repr = nodes, heavy, heavy_repr
        self.trace = {}
        self.excs = {}
        self.calls = 0
        self.pool = []

    def call(self, f, *args):
        self.calls += 1
        try:
            return f(*args)
        except (SystemExit, KeyboardInterrupt):
            raise
        except Exception as e:
            if type(e) is SystemError and 'exception' in str(e):
                # e.g. "returned NULL without setting an exception"
                raise Anomaly('SystemError in %s%s: %s' % (getattr(f, '__name__', f), args, e))
            n = type(e).__name__
            self.excs[n] = self.excs.get(n, 0) + 1
            return None

    def scalar(self, path, v):
        if type(v) is float:
            v = struct.pack('<d', v).hex() if v == v else 'nan'
        elif isinstance(v, bytes):
            if v not in self.msg:
                raise Anomaly('%s: %r is not part of the message' % (path, v[:200]))
            v = enc(v)
        elif isinstance(v, int) and type(v) not in (int, bool):
            v = int(v)
        elif isinstance(v, str):
            if v.encode('utf-8', 'surrogatepass') not in self.msg:
                raise Anomaly('%s: %r is not part of the message' % (path, v[:200]))
        self.trace[path] = v

    def value(self, path, t, v):
        if v is None:
            return
        if isinstance(v, Struct):
            self.pool.append(v)
            if isinstance(t, list) and t[0] == 'struct':
                self.struct(path, t[1], v)
        elif isinstance(v, List):
            self.list(path, t, v)
        elif isinstance(v, AnyPointer):
            self.any(path, v)
        else:
            self.scalar(path, v)

    def list(self, path, t, v):
        self.nodes -= 1
        et = t[1] if isinstance(t, list) and t[0] == 'list' else None
        n = self.call(len, v)
        self.trace[path + '#'] = n
        self.call(repr, v)
        if n is None:
            return
        idx = sorted(set(range(min(n, 6))) | {n - 1, n // 2, -1, -n, n, -n - 1})
        for i in idx:
            x = self.call(v.__getitem__, i)
            if self.nodes > 0:
                self.value('%s[%d]' % (path, i), et, x)
        self.call(v.__getitem__, slice(0, 5))
        # (the items of a list of lists are not required to be lists)
        big = isinstance(et, list) and et[0] == 'list' and \
            (self.call(lambda: max([0] + [len(x) for x in v])) or 0) > 5000
        if n < 5000 and self.heavy_repr and not big:
            self.call(list, v)
            self.call(lambda: v == v)
            self.call(lambda: v == list(v))
            self.call(v.shortrepr)
        self.pool.append(v)

    def any(self, path, v):
        self.nodes -= 1
        for k in ('is_struct', 'is_list', 'is_text', 'is_data'):
            self.trace[path + k] = self.call(getattr(v, k))
        for k in ('as_text_bytes', 'as_text_unicode', 'as_data'):
            x = self.call(getattr(v, k))
            if x is not None:
                self.scalar(path + k, x)
        ids = [self.M.byname[n] for n in ('K', 'Pt', 'Ko')]
        cls = [self.M.cls(i) for i in ids]
        for i, c in zip(ids + [None], cls + [Struct]):
            x = self.call(v.as_struct, c)
            if x is not None and self.nodes > 0:
                self.pool.append(x)
                if i:
                    self.struct(path + c.__name__, i, x)
        for t in (int, bytes, str, float, [int], [bytes], [cls[0]], cls[0]):
            x = self.call(v.as_list, t)
            if x is not None and self.nodes > 0:
                self.list('%s<%s>' % (path, t), None, x)
        if self.heavy:
            self.call(v.dumps)

    def struct(self, path, sid, obj):
        self.nodes -= 1
        if self.nodes < 0:
            return
        s = self.M.structs[sid]
        if s['dc']:
            self.trace[path + '.which'] = self.call(obj.__which__)
            self.call(obj.which)
        for f in s['fields']:
            p = '%s.%s' % (path, f['name'])
            n = ('_' if f.get('nullable') else '') + f['py']
            if f['disc'] is not None:
                self.trace[p + '?'] = self.call(lambda: getattr(obj, 'is_' + f['py'])())
            x = self.call(getattr, obj, n)
            if f['kind'] == 'group':
                if x is not None:
                    self.struct(p, f['gid'], x)
                continue
            self.value(p, f['type'], x)
            if is_ptr(f['type']):
                self.trace[p + '.has'] = self.call(lambda: getattr(obj, 'has_' + f['py'])())
                if f['type'] != 'AnyPointer':
                    g = self.call(lambda: getattr(obj, 'get_' + f['py'])())
                    if g is not None and isinstance(f['type'], str):
                        self.scalar(p + '.get', g)

    def whole(self, obj):
        self.call(obj._is_compact) if hasattr(obj, '_is_compact') else None
        if self.heavy:
            for fast in (True, False):
                b = self.call(lambda: obj.dumps(fastpath=fast))
                if b is not None and type(b) is not bytes:
                    raise Anomaly('dumps() returned %r' % type(b))
                if b is not None and fast:
                    self.call(lambda: type(obj).loads(b) and type(obj).loads(b).dumps())
            c = self.call(obj.compact)
            if c is not None:
                self.call(c.dumps)
        if self.heavy_repr:
            self.call(obj.shortrepr)
            self.call(repr, obj)
        self.call(hash, obj)
        self.call(lambda: obj == obj)
        self.call(lambda: obj == (1, 2, b'x'))
        self.call(lambda: obj != None)
        c = self.call(copy.copy, obj)
        if c is not None:
            self.call(lambda: c.dumps() if self.heavy else None)
        self.call(copy.deepcopy, obj)
        r = self.call(lambda: obj._raw_dumps())
        if r is not None:
            self.call(lambda: type(obj)._raw_loads(r))

    def embed(self, wrap):
        """give the objects to constructors"""
        if not self.heavy:
            return
        for x in self.pool[:12]:
            if isinstance(x, Struct):
                if not self.heavy_repr and type(x).__name__ not in ('K', 'Pt'):
                    continue
                right = {'K': 'k', 'Pt': 'p'}.get(type(x).__name__, '')
                for k in ('k', 'kp'):
                    if not self.heavy_repr and k[-1] != right:
                        continue        # the error shows the repr of the object
                    o = self.call(lambda: wrap(**{k: x}))
                    if o is not None:
                        self.call(o.dumps)
                for k in ('lk', 'lp'):
                    if not self.heavy_repr and k[-1] != right:
                        continue
                    o = self.call(lambda: wrap(**{k: [x, x]}))
                    if o is not None:
                        self.call(o.dumps)
            else:
                for k in ('lk', 'lp', 'li', 'lb', 'lt', 'ld', 'lli', 'lf', 'l8'):
                    if not self.heavy_repr or not self.call(len, x) or len(x) > 5000:
                        continue
                    o = self.call(lambda: wrap(**{k: x}))
                    if o is not None:
                        self.call(o.dumps)


@op
def _exercise(P, mod, sid, msg, how, nodes, heavy, heavy_repr, wrap):
    """-> [trace, exceptions, calls]"""
    M = MODS[mod]
    cls = M.cls(sid)
    msg = tobytes(msg)
    F = Fuzz(M, msg, nodes, heavy, heavy_repr)
    if how == 'loads':
        obj = F.call(cls.loads, msg)
    elif how == 'load':
        obj = F.call(cls.load, io.BytesIO(msg))
    else:
        obj = None
        F.call(lambda: [F.pool.append(x) for x in cls.load_all(io.BytesIO(msg))])
        if F.pool:
            obj = F.pool[0]
    if obj is not None:
        if type(obj) is not cls:
            raise Anomaly('object of type %s' % type(obj))
        F.trace['root'] = True
        F.pool.append(obj)
        F.struct('', sid, obj)
        for x in F.pool[-1:] + F.pool[:6]:
            if isinstance(x, Struct):
                F.whole(x)
        F.embed(M.cls(wrap))
        if len(F.pool) > 1:
            for x in F.pool[1:4]:
                F.call(lambda: obj == x)
                F.call(lambda: x == F.pool[-1])
    return None, [F.trace, F.excs, F.calls]
