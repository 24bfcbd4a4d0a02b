"""The only process which imports capnpy. Runs small programs received as JSON
lines on stdin; see driver-side class Worker in workers.py.

A program is a list of operations [name, arg...]; operation i leaves its object
in register i. The answer is a list of {'v': json} | {'exc': [type, message,
[base classes]]} | {'dep': i} (an operand could not be computed).

Must run on CPython 3.12 and PyPy 3.9.
"""
import io
import json
import keyword
import os
import pickle
import struct
import sys

sys.setrecursionlimit(3000)

real_stdout = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
sys.stdout = sys.stderr

import capnpy                                            # noqa: E402
from capnpy.compiler.compiler import DynamicCompiler     # noqa: E402
from capnpy.struct_ import Struct                        # noqa: E402
from capnpy.list import List                             # noqa: E402
from capnpy.anypointer import AnyPointer                 # noqa: E402


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(capnpy.__file__)))


class Anomaly(Exception):
    """The API returned something whose shape is wrong (type, consistency)"""


def enc(b):
    return b.decode('latin-1')


def dec(s):
    return s.encode('latin-1')


class Mod(object):
    def __init__(self, mod, L, compiler, dirname=None):
        self.mod, self.L, self.compiler = mod, L, compiler
        self.structs = L['structs']
        self.byname = L['byname']
        self._cls = {}
        self._imports = {}
        if dirname is not None:
            # now, because the files might be removed later
            for path in L['path'].values():
                if path[0].startswith('@') and os.path.exists(os.path.join(dirname, path[0][1:])):
                    self.imported(path[0][1:])

    def imported(self, fname):
        if fname not in self._imports:
            self._imports[fname] = self.compiler.load_schema(importname='/' + fname)
        return self._imports[fname]

    def cls(self, sid):
        """the class of a struct or enum id"""
        if sid not in self._cls:
            c = self.mod
            for part in self.L['path'][sid]:
                if part.startswith('@'):        # an imported file
                    c = self.imported(part[1:])
                else:
                    c = getattr(c, part)
            self._cls[sid] = c
        return self._cls[sid]


MODS = {}


def load_so(spec):
    """A schema compiled in advance in pyx mode (see pyxpool.py)"""
    import importlib
    d = spec['so_dir']
    if spec['so_name'] in sys.modules:
        return sys.modules[spec['so_name']]
    if not any(f.endswith('.so') for f in os.listdir(d)):
        with open(os.path.join(d, 'log'), errors='replace') as f:
            raise Anomaly('the command line compiler failed:\n' + f.read()[-2500:])
    sys.path.insert(0, d)
    try:
        return importlib.import_module(spec['so_name'])
    finally:
        sys.path.remove(d)


def load_mod(spec):
    key = spec['key']
    if key in MODS:
        return MODS[key]
    if spec.get('so_dir'):
        MODS[key] = Mod(load_so(spec), spec['L'], None)
        return MODS[key]
    c = DynamicCompiler([spec['dir'], ROOT])
    if spec.get('request') is not None and hasattr(c, '_capnp_compile'):
        # only to save the time of running capnp again
        c.capnproto_version = '1.0.1'
        req = dec(spec['request'])
        orig = c._capnp_compile
        main = os.path.join(spec['dir'], spec['main'])
        c._capnp_compile = lambda filename: req if str(filename) == main else orig(filename)
    opts = None
    if spec.get('options'):
        from capnpy.annotate import Options, TextType
        kw = dict(spec['options'])
        if 'text_type' in kw:
            kw['text_type'] = getattr(TextType, kw['text_type'])
        opts = Options(**kw)
    mod = c.load_schema(filename=os.path.join(spec['dir'], spec['main']),
                        pyx=spec.get('pyx', False), options=opts)
    MODS[key] = Mod(mod, spec['L'], c, spec['dir'])
    return MODS[key]


# ---------------------------------------------------------------- values

def observe_value(M, t, v, uni, where):
    if t == 'Void':
        if v is not None:
            raise Anomaly('%s: Void reads as %r' % (where, v))
        return None
    if t == 'Bool':
        if type(v) is not bool:
            raise Anomaly('%s: Bool reads as %r' % (where, v))
        return v
    if t in ('Float32', 'Float64'):
        if type(v) is not float and not (type(v) is int and v == 0):
            raise Anomaly('%s: float reads as %r' % (where, v))
        return float(v)
    if isinstance(t, str) and ('Int' in t):
        if type(v) is not int:
            raise Anomaly('%s: integer reads as %r' % (where, v))
        return v
    if t == 'AnyPointer':
        if v is None:
            return None
        if not isinstance(v, AnyPointer):
            raise Anomaly('%s: AnyPointer reads as %r' % (where, v))
        return {'any': '?', 'v': None}
    if v is None:
        return None
    if t == 'Text':
        if uni:
            if type(v) is not str:
                raise Anomaly('%s: unicode Text reads as %r' % (where, v))
            return v
        if type(v) is not bytes:
            raise Anomaly('%s: Text reads as %r' % (where, v))
        return v.decode('utf-8', 'surrogateescape')
    if t == 'Data':
        if type(v) is not bytes:
            raise Anomaly('%s: Data reads as %r' % (where, v))
        return enc(v)
    if t[0] == 'enum':
        if not isinstance(v, int) or type(v) is int:
            raise Anomaly('%s: enum reads as %r' % (where, v))
        c = M.cls(t[1]) if t[1] in M.L['path'] else None
        if c is not None and type(v) is not c:
            raise Anomaly('%s: enum of type %s instead of %s' % (where, type(v), c))
        return int(v)
    if t[0] == 'struct':
        c = M.cls(t[1])
        if type(v) is not c:
            raise Anomaly('%s: struct of type %s instead of %s' % (where, type(v), c))
        return observe(M, t[1], v, where)
    assert t[0] == 'list'
    if not isinstance(v, List):
        raise Anomaly('%s: list reads as %r' % (where, v))
    return [observe_value(M, t[1], v[i], uni, '%s[%d]' % (where, i)) for i in range(len(v))]


def observe(M, sid, obj, where=''):
    s = M.structs[sid]
    out = {}
    active = None
    if s['dc']:
        active = obj.__which__()
        names = [f['name'] for f in s['fields'] if f['disc'] == active]
        if names:
            out['#'] = names[0]
        else:
            out['#tag'] = active
    for f in s['fields']:
        if f['disc'] is not None and f['disc'] != active:
            continue
        w = '%s.%s' % (where, f['name'])
        if f['kind'] == 'group':
            g = getattr(obj, ('_' if f.get('nullable') else '') + f['py'])
            out[f['name']] = observe(M, f['gid'], g, w)
        elif f.get('vgroup'):
            out[f['name']] = None
        else:
            v = getattr(obj, f['py'])
            out[f['name']] = observe_value(M, f['type'], v, f.get('uni'), w)
    return out


def is_ptr(t):
    if isinstance(t, str):
        return t in ('Text', 'Data', 'AnyPointer')
    return t[0] in ('struct', 'list')


def empty_struct(M, sid):
    """observation of the object returned by get_x() for a null struct"""
    return None


def observe_ptrs(M, sid, obj, where=''):
    """has_x / get_x of every readable pointer field, and of the union members
    which are not active: -> {field: [has, value, get]}, nested"""
    s = M.structs[sid]
    out = {}
    active = obj.__which__() if s['dc'] else None
    for f in s['fields']:
        if f['disc'] is not None and f['disc'] != active:
            continue
        w = '%s.%s' % (where, f['name'])
        if f['kind'] == 'group':
            g = getattr(obj, ('_' if f.get('nullable') else '') + f['py'])
            out[f['name']] = observe_ptrs(M, f['gid'], g, w)
        elif is_ptr(f['type']):
            v = getattr(obj, f['py'])
            has = getattr(obj, 'has_' + f['py'])()
            if type(has) is not bool:
                raise Anomaly('%s: has_ returned %r' % (w, has))
            x = observe_value(M, f['type'], v, f.get('uni'), w)
            if f['type'] == 'AnyPointer':
                out[f['name']] = [has, x, None]
            else:
                g = getattr(obj, 'get_' + f['py'])()
                out[f['name']] = [has, x, observe_value(M, f['type'], g, f.get('uni'), w + '(get)')]
    return out


def build_value(M, t, v, uni, style):
    if v is None:
        return None
    if t == 'Text':
        return v if uni else v.encode('utf-8', 'surrogateescape')
    if t == 'Data':
        return dec(v)
    if isinstance(t, str):
        return v
    if t[0] == 'enum':
        c = M.cls(t[1])
        if style.get('enum') == 'member' and v < len(c.__members__):
            return getattr(c, M.L['enums'][t[1]]['py'][v])
        return v
    if t[0] == 'struct':
        return build(M, t[1], v, style)
    assert t[0] == 'list'
    items = [build_value(M, t[1], x, uni, style) for x in v]
    if style.get('seq') == 'tuple':
        items = tuple(items)
    return items


def field_args(M, sid, mval, style):
    """-> [(python name, value)] for the fields present"""
    s = M.structs[sid]
    out = []
    for f in s['fields']:
        if f['name'] not in mval:
            continue
        if f['type' if f['kind'] == 'slot' else 'kind'] == 'Void' and f['disc'] is None:
            continue
        v = mval[f['name']]
        if f['kind'] == 'group':
            if f.get('nullable'):
                if v is None or isinstance(v, dict):
                    g = M.structs[f['gid']]
                    vf = g['fields'][1]
                    if v is None or v['isNull']:
                        v = None
                    elif vf['kind'] == 'group':
                        v = tuple_of_group(M, vf['gid'], field_args(M, vf['gid'], v['value'], style))
                    else:
                        v = build_value(M, vf['type'], v['value'], False, style)
                out.append((f['py'], v))
            else:
                out.append((f['py'], build_group(M, sid, f, v, style)))
        else:
            out.append((f['py'], build_value(M, f['type'], v, f.get('uni'), style)))
    return out


def owner_of_group(M, gid):
    """The class which has the static constructor of the group"""
    return None


def build_group(M, sid, f, v, style):
    s = M.structs[sid]
    cls = M.cls(sid) if sid in M.L['path'] else None
    args = field_args(M, f['gid'], v, style)
    if cls is None:
        cls = M.group_cls(sid) if hasattr(M, 'group_cls') else None
    if cls is None:
        # a group in a group: the constructor is on the class of the group,
        # which is not reachable by name. Build the tuple by hand
        return tuple_of_group(M, f['gid'], args)
    name = f['py'].capitalize()
    ctor = getattr(cls, name + '_' if keyword.iskeyword(name) else name)
    return ctor(**dict(args))


def tuple_of_group(M, gid, args):
    from capnpy.struct_ import undefined
    g = M.structs[gid]
    d = dict(args)
    out = []
    for f in g['fields']:
        if f['kind'] == 'slot' and f['type'] == 'Void' and f['disc'] is None:
            continue
        if f['py'] in d:
            out.append(d[f['py']])
        elif f['disc'] is not None:
            out.append(undefined)
        elif f.get('nullable'):
            nf, vf = M.structs[f['gid']]['fields'][:2]
            if nf['default']:
                out.append(None)
            else:
                out.append(vf['default'] if vf['kind'] == 'slot' else tuple_of_group(M, vf['gid'], []))
        elif f['kind'] == 'group':
            out.append(tuple_of_group(M, f['gid'], []))
        else:
            out.append(None if is_ptr(f['type']) else f['default'])
    return tuple(out)


def build(M, sid, mval, style):
    cls = M.cls(sid)
    args = field_args(M, sid, mval, style)
    s = M.structs[sid]
    if style.get('new') and s['dc'] and mval.get('#') is not None:
        m = [f for f in s['fields'] if f['name'] == mval['#']][0]
        ctor = getattr(cls, 'new_' + m['py'])
    else:
        ctor = cls
    if style.get('pos') and ctor is cls:
        # as many positional arguments as the fields present allow
        order = [f['py'] for f in s['fields']
                 if not (f['kind'] == 'slot' and f['type'] == 'Void' and f['disc'] is None)]
        d = dict(args)
        pos = []
        for n in order:
            if n not in d:
                break
            pos.append(d.pop(n))
        return ctor(*pos, **d)
    return ctor(**dict(args))


# ---------------------------------------------------------------- operations

OPS = {}


def op(f):
    OPS[f.__name__.lstrip('_')] = f
    return f


class Prog(object):
    def __init__(self):
        self.regs = []


@op
def _build(P, mod, sid, mval, style):
    return build(MODS[mod], sid, mval, style), None


def tobytes(b):
    return b if isinstance(b, bytes) else dec(b)


@op
def _loads(P, mod, sid, b):
    return MODS[mod].cls(sid).loads(tobytes(b)), None


@op
def _loads_generic(P, mod, sid, b):
    return capnpy.loads(tobytes(b), MODS[mod].cls(sid)), None


@op
def _load(P, mod, sid, b, how='bytesio'):
    """from a stream which must be at its end after"""
    cls = MODS[mod].cls(sid)
    b = tobytes(b)
    if how == 'bytesio':
        f = io.BytesIO(b)
    elif how == 'file':
        f = open(os.path.join(os.environ['TMPDIR'], 'msg-%d' % os.getpid()), 'w+b')
        f.write(b)
        f.seek(0)
    elif how == 'buffered':
        from capnpy.buffered import StringBuffer
        f = StringBuffer(b)
    try:
        if how == 'file':
            r = capnpy.load(f, cls)
        else:
            r = cls.load(f)
        if f.read(1) != b'':
            raise Anomaly('load() did not consume the whole message')
    finally:
        if how == 'file':
            f.close()
    return r, None


@op
def _observe(P, mod, sid, r):
    if r is None:
        return None, None
    M = MODS[mod]
    if sid in M.L['path'] and type(r) is not M.cls(sid):
        raise Anomaly('object of type %s instead of %s' % (type(r), M.cls(sid)))
    return None, observe(M, sid, r)


@op
def _observe_field(P, mod, t, r, uni):
    return None, observe_value(MODS[mod], t, r, uni, '')


@op
def _observe_ptrs(P, mod, sid, r):
    return None, observe_ptrs(MODS[mod], sid, r)


@op
def _dumps(P, r, fastpath):
    b = r.dumps(fastpath=fastpath)
    if type(b) is not bytes:
        raise Anomaly('dumps() returned %r' % type(b))
    return b, enc(b)


@op
def _gdumps(P, r):
    b = capnpy.dumps(r)
    return b, enc(b)


@op
def _dump(P, r):
    f = io.BytesIO()
    capnpy.dump(r, f)
    return f.getvalue(), enc(f.getvalue())


@op
def _compact(P, r):
    return r.compact(), None


@op
def _is_compact(P, r):
    return None, bool(r._is_compact()) if hasattr(r, '_is_compact') else None


@op
def _raw_size(P, r):
    """size of the buffer which holds the object; None if it cannot be known"""
    try:
        return None, len(r._seg.buf)
    except AttributeError:
        return None, None


@op
def _attr(P, r, name):
    v = getattr(r, name)
    return v, None


@op
def _item(P, r, i):
    return r[i], None


@op
def _path(P, r, path):
    """navigate: strings are attributes, ints are items"""
    for x in path:
        r = getattr(r, x) if isinstance(x, str) else r[x]
    return r, None


@op
def _isnone(P, r):
    return None, r is None


@op
def _call(P, r, name, *args):
    v = getattr(r, name)(*args)
    if isinstance(v, bytes):
        return v, enc(v)
    if v is None or isinstance(v, (bool, int, str, float)):
        return v, v
    return v, None


@op
def _shortrepr(P, r):
    s = r.shortrepr()
    return s, s


@op
def _repr(P, r):
    s = repr(r)
    return s, s


@op
def _classname(P, r):
    return None, type(r).__name__


@op
def _const(P, v):
    return v, None


def execute(prog):
    P = Prog()
    out = []
    bad = set()
    for i, o in enumerate(prog):
        name, args = o[0], o[1:]
        dep = None
        real = []
        for a in args:
            if isinstance(a, dict) and '$' in a and len(a) == 1:
                if a['$'] in bad:
                    dep = a['$']
                    break
                real.append(P.regs[a['$']])
            else:
                real.append(a)
        if dep is not None:
            bad.add(i)
            P.regs.append(None)
            out.append({'dep': dep})
            continue
        try:
            reg, v = OPS[name](P, *real)
            P.regs.append(reg)
            out.append({'v': v})
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            bad.add(i)
            P.regs.append(None)
            out.append({'exc': [type(e).__name__, str(e)[:500],
                                [c.__name__ for c in type(e).__mro__]]})
    return out


def main():
    for plugin in os.environ.get('VERIF_PLUGINS', '').split(':'):
        if plugin:
            with open(plugin) as f:
                exec(compile(f.read(), plugin, 'exec'), globals())
    real_stdout.write(json.dumps({'ready': True, 'file': capnpy.__file__,
                                  'pyx': bool(__import__('capnpy.blob').blob.PYX)}) + '\n')
    real_stdout.flush()
    for line in sys.stdin:
        msg = json.loads(line)
        try:
            if 'load' in msg:
                if msg.get('clear'):
                    MODS.clear()
                try:
                    load_mod(msg['load'])
                    ans = {'v': True}
                except BaseException as e:
                    import traceback
                    ans = {'exc': [type(e).__name__, str(e)[:3000], traceback.format_exc()[:400] + traceback.format_exc()[-3000:]]}
            else:
                ans = {'v': execute(msg['prog'])}
        except BaseException:
            import traceback
            ans = {'harness': traceback.format_exc()}
        real_stdout.write(json.dumps(ans) + '\n')
        real_stdout.flush()


if __name__ == '__main__':
    main()
