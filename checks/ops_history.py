# C20: histories of operations on a set of objects
import gc
import io


class Entry(object):
    def __init__(self, M, sid, obj):
        self.M, self.sid, self.obj = M, sid, obj
        self.hash_ = None
        self.first = self.state()

    def state(self):
        o = self.obj
        buf = o._seg.buf
        val = observe(self.M, self.sid, o)
        return [val, bytes(buf), o._data_offset, o._data_size, o._ptrs_size,
                o.dumps(), o.shortrepr(),
                # the hash of a NaN depends on its address
                None if 'nan' in repr(val) else self.get_hash()]

    def get_hash(self):
        if 'key' not in self.M.structs[self.sid]:
            return None
        try:
            return hash(self.obj)
        except TypeError:
            return 'unhashable'


NAMES = ['value', 'bytes', 'offset', 'data size', 'ptrs size', 'dumps()', 'shortrepr()', 'hash()']


def equal_state(a, b):
    # NaN: the reprs are the same
    return a == b or repr(a) == repr(b)


def spoil(v):
    """Change or empty everything mutable in an argument"""
    if isinstance(v, list):
        for x in list(v):
            spoil(x)
        if len(v) % 2:
            v.reverse()
            v.append(v[0])
            v[0] = 'spoilt'
        else:
            del v[:]
    elif isinstance(v, tuple):
        for x in v:
            spoil(x)
    elif isinstance(v, dict):
        v.clear()


def replaced(M, sid, mval, path, value, style):
    s = M.structs[sid]
    f = [x for x in s['fields'] if x['name'] == path[0]][0]
    args = field_args(M, sid, dict((k, v) for k, v in mval.items() if k != f['name']), style)
    if len(path) > 1:
        value = tuple_of_group(M, f['gid'], replaced(M, f['gid'], mval[f['name']], path[1:], value, style))
    return args + [(f['py'], value)]


def walk(o, path):
    for x in path:
        o = getattr(o, x) if isinstance(x, str) else o[x]
    return o


def must_fail(what, f):
    try:
        f()
    except (AttributeError, TypeError):
        return
    except Exception as e:
        raise Anomaly('%s raised %r' % (what, e))
    raise Anomaly('%s was accepted' % what)


def fields_of(M, sid):
    return M.structs[sid]['fields']


def act(M, e, kind, n, others):
    """An operation which must not change anything"""
    import copy
    import pickle
    o = e.obj
    fs = fields_of(M, e.sid)
    if kind == 'dumps':
        o.dumps()
        o.dumps(fastpath=False)
    elif kind == 'dump':
        import capnpy
        f = io.BytesIO()
        capnpy.dump(o, f) if n % 2 else f.write(capnpy.dumps(o))
    elif kind == 'repr':
        repr(o), str(o), o.shortrepr()
    elif kind == 'hash':
        e.get_hash()
        {id(o): o}
    elif kind == 'compare':
        for x in others:
            for a, b in ((o, x), (x, o)):
                try:
                    a == b, a != b
                except (TypeError, ValueError):
                    pass
                try:
                    a < b
                except TypeError:
                    pass
    elif kind == 'pickle':
        name = M.mod.__name__
        old = sys.modules.get(name)
        sys.modules[name] = M.mod
        try:
            pickle.loads(pickle.dumps(o, n % 6))
            copy.copy(o)
            copy.deepcopy(o)
        finally:
            if old is None:
                del sys.modules[name]
            else:
                sys.modules[name] = old
    elif kind == 'raw':
        type(o)._raw_loads(o._raw_dumps())
    elif kind == 'compact':
        o.compact()
        o._is_compact() if hasattr(o, '_is_compact') else None
    elif kind == 'read':
        for f in fs:
            try:
                v = getattr(o, f['py'])
            except ValueError:
                continue        # not the active member
            if isinstance(v, List):
                list(v), v[:], v[::-1], reversed(v), len(v), repr(v)
                l = v[0:len(v)]
                if isinstance(l, list):
                    spoil(l)
                l = list(v)
                try:
                    v == l
                except TypeError:
                    pass
                spoil(l)
            elif hasattr(v, '__members__'):
                v + 1, str(v), repr(v)
            elif hasattr(v, 'dumps'):
                v.dumps(), v.shortrepr()
    elif kind == 'methods':
        for name in dir(type(o)):
            if name.startswith(('has_', 'get_', 'is_')) and not name.startswith('__'):
                try:
                    getattr(o, name)()
                except (ValueError, TypeError, NotImplementedError):
                    pass
        if M.structs[e.sid]['dc']:
            o.which() if hasattr(o, 'which') and not any(f['py'] == 'which' for f in fs) else None
            o.__which__()
    elif kind == 'assign':
        if not fs:
            return
        for f in fs[n % len(fs):] + fs[:n % len(fs)]:
            for v in (0, None, 'x', b'x', [], o) if f is fs[n % len(fs)] else (b'x', []):
                must_fail('assigning to %s' % f['py'], lambda: setattr(o, f['py'], v))
            must_fail('deleting %s' % f['py'], lambda: delattr(o, f['py']))
    elif kind == 'items':
        for f in fs:
            if f['kind'] == 'slot' and isinstance(f['type'], list) and f['type'][0] == 'list':
                try:
                    l = getattr(o, f['py'])
                except ValueError:
                    continue
                if l is None:
                    continue
                ex = l[0] if len(l) else 0
                for i in (0, -1, n):
                    must_fail('assigning to an item', lambda: l.__setitem__(i, ex))
                    must_fail('deleting an item', lambda: l.__delitem__(i))

                def aug():
                    ll = l
                    ll += [ex]
                    if ll is l:
                        return
                    raise TypeError
                must_fail('+=', aug)
    elif kind == 'equal-to-tuple':
        for x in ((), (1, 2), None):
            try:
                o == x, x == o
            except TypeError:
                pass
    else:
        raise ValueError(kind)


def in_threads(entries, n):
    """The entries are read by several threads at once"""
    import threading
    bad = []

    def go(k):
        try:
            for j in range(3):
                for e in entries[k % len(entries):] + entries[:k % len(entries)]:
                    now = e.state()
                    if not equal_state(now, e.first):
                        bad.append('%r instead of %r' % (now[:1] + now[5:], e.first[:1] + e.first[5:]))
        except Exception as x:
            bad.append('%s: %s' % (type(x).__name__, x))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=go, args=(k,)) for k in range(2 + n % 3)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    if bad:
        raise Anomaly('several threads which read: ' + bad[0])


@op
def _history(P, mods, steps):
    """-> [[index, value]...] of the objects which are alive at the end"""
    M = MODS[mods]
    pool = {}

    def verify(what, keys=None):
        for k in sorted(pool if keys is None else keys):
            e = pool.get(k)
            if e is None:
                continue
            now = e.state()
            if not equal_state(now, e.first):
                which = [NAMES[i] for i in range(len(NAMES)) if not equal_state(now[i], e.first[i])]
                raise Anomaly('%s changed the %s of object %d: %r instead of %r' % (
                    what, ', '.join(which), k, [now[NAMES.index(w)] for w in which][:2],
                    [e.first[NAMES.index(w)] for w in which][:2]))

    def add(k, sid, obj):
        pool[k] = Entry(M, sid, obj)

    for n, s in enumerate(steps):
        k = s[0]
        what = 'step %d (%s)' % (n, ' '.join(str(x) for x in s[:3] if not isinstance(x, dict)))
        if k == 'new':
            _, key, sid, mval, style = s
            args = field_args(M, sid, mval, style)
            kw = dict(args)
            add(key, sid, M.cls(sid)(**kw))
            spoil([v for _, v in args])
            spoil(kw)
        elif k == 'load':
            _, key, sid, b, how = s
            import capnpy
            b = dec(b)
            if how == 'loads':
                obj = capnpy.loads(b, M.cls(sid))
            elif how == 'file':
                f = io.BytesIO(b)
                obj = capnpy.load(f, M.cls(sid))
                f.seek(0)
                f.write(b'\xff' * len(b))
                f.truncate(4)
            else:
                ba = bytearray(b)
                f = io.BytesIO(ba)
                obj = M.cls(sid).load(f)
                ba[:] = b'\xaa' * len(ba)
                f.close()
            add(key, sid, obj)
        elif k == 'sub':
            _, key, i, path, sid = s
            add(key, sid, walk(pool[i].obj, path))
        elif k == 'embed':
            # pool[i] becomes the field, or one or more items of the list
            _, key, i, sid, mval, path, shape, style = s
            v = pool[i].obj
            if shape[0] == 'list':
                v = [v] * shape[1] if len(shape) == 2 else [[v] * shape[1]] * shape[2]
            elif shape[0] == 'attr':
                v = walk(v, shape[1])
            args = replaced(M, sid, mval, path, v, style)
            add(key, sid, M.cls(sid)(**dict(args)))
            spoil([v for _, v in args])
        elif k == 'drop':
            del pool[s[1]]
            if s[2]:
                gc.collect()
                x = [bytearray(64) for _ in range(50)]      # reuse the memory
                del x
        elif k == 'act' and s[2] == 'threads':
            in_threads([pool[i] for i in [s[1]] + s[4] if i in pool], s[3])
        elif k == 'act':
            act(M, pool[s[1]], s[2], s[3], [pool[i].obj for i in s[4] if i in pool])
        verify(what, [s[1]] + s[4] if k == 'act' and n % 4 != 3 else None)
    verify('the history')
    return None, [[k, pool[k].first[0]] for k in sorted(pool)]
