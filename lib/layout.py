"""Schema text -> layout model (see wire.py), through `capnp compile` and a small
reader of its CodeGeneratorRequest, independent of capnpy. Also the AST -> text
renderer and the documented naming rules."""
import functools
import hashlib
import itertools
import keyword
import os
import re
import shutil
import struct
import subprocess
import tempfile

from wire import get_bits, unframe, from_raw, zero_of, is_ptr

ANNOTATE_ID = None
NAMES = {0: 'Void', 1: 'Bool', 2: 'Int8', 3: 'Int16', 4: 'Int32', 5: 'Int64', 6: 'UInt8',
         7: 'UInt16', 8: 'UInt32', 9: 'UInt64', 10: 'Float32', 11: 'Float64', 12: 'Text',
         13: 'Data', 18: 'AnyPointer'}


class P(object):
    """A generic struct reader"""

    def __init__(self, segs, seg, pos, dw, pw):
        self.segs, self.seg, self.pos, self.dw, self.pw = segs, seg, pos, dw, pw
        self.data = segs[seg][pos * 8:(pos + dw) * 8]

    @classmethod
    def root(cls, msg):
        segs = unframe(msg)
        return cls(segs, 0, 0, 0, 1).struct(0)

    def u(self, off, bits):          # off in units of bits
        return get_bits(self.data, off * bits, bits)

    def _follow(self, i):
        if i >= self.pw:
            return None
        return self._at(self.seg, self.pos + self.dw + i)

    def _at(self, seg, w):
        p = struct.unpack_from('<Q', self.segs[seg], w * 8)[0]
        if p == 0:
            return None
        if p & 3 == 2:
            seg2, w2 = p >> 32, (p >> 3) & 0x1fffffff
            q = struct.unpack_from('<Q', self.segs[seg2], w2 * 8)[0]
            if p & 4:
                tag = struct.unpack_from('<Q', self.segs[seg2], w2 * 8 + 8)[0]
                return q >> 32, (q >> 3) & 0x1fffffff, tag
            p, seg, w = q, seg2, w2
        off = (p >> 2) & 0x3fffffff
        off -= (off & 0x20000000) << 1
        return seg, w + 1 + off, p

    def struct(self, i):
        r = self._follow(i)
        if r is None:
            return P([b''], 0, 0, 0, 0)
        seg, pos, t = r
        return P(self.segs, seg, pos, (t >> 32) & 0xffff, t >> 48)

    def data_(self, i):
        r = self._follow(i)
        if r is None:
            return None
        seg, pos, t = r
        return self.segs[seg][pos * 8:pos * 8 + (t >> 35)]

    def text(self, i):
        b = self.data_(i)
        return None if b is None else b[:-1].decode('utf-8')

    def structs(self, i):
        r = self._follow(i)
        if r is None:
            return []
        seg, pos, t = r
        assert (t >> 32) & 7 == 7
        w = struct.unpack_from('<Q', self.segs[seg], pos * 8)[0]
        n, dw, pw = (w >> 2) & 0x3fffffff, (w >> 32) & 0xffff, w >> 48
        return [P(self.segs, seg, pos + 1 + k * (dw + pw), dw, pw) for k in range(n)]


def type_of(p):
    w = p.u(0, 16)
    if w in NAMES:
        return NAMES[w]
    if w == 14:
        return ['list', type_of(p.struct(0))]
    return [{15: 'enum', 16: 'struct', 17: 'interface'}[w], '%x' % p.u(1, 64)]


def value_of(p, t, L):
    """A schema.Value, as an mval"""
    if t == 'Void':
        return None
    if t == 'Text':
        return p.text(0)
    if t == 'Data':
        b = p.data_(0)
        return None if b is None else b.decode('latin-1')
    if isinstance(t, list) and t[0] in ('struct', 'list'):
        from wire import Reader
        r = Reader(L, p.segs)
        if p.pw == 0:
            return None
        return r.ptr(t, p.seg, p.pos + p.dw, '')
    if is_ptr(t):
        return None
    if t == 'Bool':
        return bool(p.u(16, 1))
    if isinstance(t, list):
        return p.u(1, 16)
    bits = {'Int8': (2, 8), 'UInt8': (2, 8), 'Int16': (1, 16), 'UInt16': (1, 16), 'Int32': (1, 32),
            'UInt32': (1, 32), 'Int64': (1, 64), 'UInt64': (1, 64), 'Float32': (1, 32),
            'Float64': (1, 64)}[t]
    return from_raw(t, p.u(*bits))


def parse_request(msg):
    root = P.root(msg)
    nodes = {}
    for n in root.structs(0):
        nodes['%x' % n.u(0, 64)] = n
    files = []
    for f in root.structs(1):
        files.append({'id': '%x' % f.u(0, 64), 'filename': f.text(0)})
    L = {'structs': {}, 'enums': {}, 'consts': {}, 'files': files, 'nodes': {},
         'file': files[0]['id'] if files else None}

    later = []

    def anns(p, i):
        out = []
        for a in p.structs(i):
            v = a.struct(0)
            x = {'id': '%x' % a.u(0, 64)}
            if v.u(0, 16) == 12:
                x['text'] = v.text(0) or ''
            later.append((x, v))
            out.append(x)
        return out
    for nid, n in nodes.items():
        kind = n.u(6, 16)
        prefix = n.u(2, 32)
        dn = n.text(0)
        info = {'id': nid, 'kind': ['file', 'struct', 'enum', 'interface', 'const', 'annotation'][kind],
                'display': dn, 'short': dn[prefix:], 'scope': '%x' % n.u(2, 64),
                'nested': [['%x' % x.u(0, 64), x.text(0)] for x in n.structs(1)],
                'anns': anns(n, 2)}
        L['nodes'][nid] = info
        name = dn.split(':', 1)[1] if ':' in dn else ''
        info['name'] = name
        if kind == 1:
            L['structs'][nid] = {
                'id': nid, 'name': name, 'dw': n.u(7, 16), 'pw': n.u(12, 16),
                'group': bool(n.u(224, 1)), 'dc': n.u(15, 16), 'do': n.u(8, 32), 'fields': []}
        elif kind == 2:
            items = [e.text(0) for e in n.structs(3)]
            L['enums'][nid] = {'id': nid, 'name': name, 'items': items,
                               'anns': [anns(e, 1) for e in n.structs(3)]}
    for nid, n in nodes.items():
        kind = n.u(6, 16)
        if kind == 1:
            s = L['structs'][nid]
            for f in n.structs(3):
                d = f.u(1, 16) ^ 0xffff
                F = {'name': f.text(0), 'disc': None if d == 0xffff else d, 'order': f.u(0, 16),
                     'anns': anns(f, 1)}
                if f.u(4, 16) == 0:
                    t = type_of(f.struct(2))
                    F.update(kind='slot', type=t, off=f.u(1, 32), had=bool(f.u(128, 1)))
                    F['default'] = None if is_ptr(t) else value_of(f.struct(3), t, L)
                    if F['default'] is None:
                        F['default'] = zero_of(t)
                else:
                    F.update(kind='group', gid='%x' % f.u(2, 64))
                s['fields'].append(F)
        elif kind == 4:
            t = type_of(n.struct(3))
            L['consts'][nid] = {'id': nid, 'name': L['nodes'][nid]['name'], 'type': t}
    for x, v in later:
        if x['id'] in nodes:
            x['type'] = type_of(nodes[x['id']].struct(3))
            x['value'] = value_of(v, x['type'], L)
    for nid, c in L['consts'].items():
        c['value'] = value_of(nodes[nid].struct(4), c['type'], L)
    L['byname'] = {info['name']: nid for nid, info in L['nodes'].items()
                   if info['display'].split(':')[0] == (files[0]['filename'] if files else '')
                   or info['display'].split(':')[0].endswith('/' + os.path.basename(files[0]['filename']))}
    return L


def capnp(args, input=b'', cwd=None, timeout=60):
    p = subprocess.run(['capnp'] + args, input=input, stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout, p.stderr


class SchemaError(Exception):
    pass


_dir = None


def scratch():
    global _dir
    if _dir is None:
        import atexit
        _dir = tempfile.mkdtemp(prefix='verif-')
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_dir, ignore_errors=True)
        atexit.register(clean)
    return _dir


def import_dir():
    """A directory holding /capnpy/annotate.capnp"""
    import build
    return build.REPO


_cache = {}
_counter = itertools.count()


def write_files(files, d=None):
    """{name: text} -> directory"""
    if d is None:
        d = os.path.join(scratch(), 's%d' % next(_counter))     # whoever asks can remove it
    for name, text in files.items():
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(text)
    return d


def compile_text(files, main='sch.capnp', keep=False):
    """-> (request bytes, directory)"""
    if isinstance(files, str):
        files = {main: files}
    d = write_files(files)
    rc, out, err = capnp(['compile', '-o-', '-I' + d, '-I' + import_dir(), os.path.join(d, main)])
    if rc:
        raise SchemaError(err.decode('utf-8', 'replace'))
    return out, d


def load(files, main='sch.capnp'):
    """-> layout model"""
    key = repr((sorted(files.items()) if isinstance(files, dict) else files, main))
    if key not in _cache:
        if len(_cache) > 400:
            _cache.clear()
        msg, d = compile_text(files, main)
        L = parse_request(msg)
        L['dir'] = d
        _cache[key] = L
        try:
            if isinstance(files, dict) and len(files) > 1:
                pass
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _cache[key]


# --------------------------------------------------------------------------
# names: from the documentation ("Compiler options", "Reserved keywords")
# --------------------------------------------------------------------------

def snake(name):
    s = re.sub('(.)([A-Z][a-z]+)', r'\1_\2', name)
    return re.sub('([a-z0-9])([A-Z])', r'\1_\2', s).lower()


def keyword_safe(name):
    return name + '_' if keyword.iskeyword(name) else name


def pyname(name, convert=True):
    if convert:
        name = snake(name)
    if keyword.iskeyword(name):
        name += '_'
    return name


# --------------------------------------------------------------------------
# AST -> text
# --------------------------------------------------------------------------
# file = {'id': hex, 'ann': [str], 'nodes': [node], 'head': [str]}
# node = {'k':'struct','name','ann','body':[field...], 'nested':[node]}
#      | {'k':'enum','name','items':[str], 'ann'} | {'k':'const','name','type','value'}
#      | {'k':'raw','text'}
# field = {'k':'slot','name','type','ord','default','ann'}
#       | {'k':'group','name','body','ann'} | {'k':'union','name' or None,'body','ann'}

def rtype(t):
    if isinstance(t, str):
        return t
    if t[0] == 'list':
        return 'List(%s)' % rtype(t[1])
    return t[1]


def rlit(v):
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if v is None:
        return 'void'
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if v in (float('inf'), float('-inf')):
            return ' inf' if v > 0 else ' -inf'
        return ' ' + repr(v)
    return ' %s' % v


def rann(a):
    return ''.join(' ' + x for x in (a or []))


def render_field(f, out, ind):
    sp = '  ' * ind
    if f['k'] == 'slot':
        d = ' =' + rlit(f['default']) if f.get('default') is not None else ''
        out.append('%s%s @%d :%s%s%s;' % (sp, f['name'], f['ord'], rtype(f['type']), d, rann(f.get('ann'))))
        return
    if f['k'] == 'group':
        out.append('%s%s :group%s {' % (sp, f['name'], rann(f.get('ann'))))
    elif f['name']:
        out.append('%s%s :union%s {' % (sp, f['name'], rann(f.get('ann'))))
    else:
        out.append('%sunion {' % sp)
    for x in f['body']:
        render_field(x, out, ind + 1)
    out.append(sp + '}')


def render_node(n, out, ind=0):
    sp = '  ' * ind
    if n['k'] == 'struct':
        out.append('%sstruct %s%s {' % (sp, n['name'], rann(n.get('ann'))))
        for x in n.get('nested') or []:
            render_node(x, out, ind + 1)
        for f in n['body']:
            render_field(f, out, ind + 1)
        out.append(sp + '}')
    elif n['k'] == 'enum':
        out.append('%senum %s%s {' % (sp, n['name'], rann(n.get('ann'))))
        for i, x in enumerate(n['items']):
            a = rann(n['item_anns'][i]) if n.get('item_anns') else ''
            out.append('%s  %s @%d%s;' % (sp, x, n['ords'][i] if n.get('ords') else i, a))
        out.append(sp + '}')
    elif n['k'] == 'const':
        out.append('%sconst %s :%s =%s;' % (sp, n['name'], rtype(n['type']), n['value']))
    else:
        out.append(sp + n['text'])


def render(ast):
    out = ['@0x%s;' % ast['id']]
    out.append('using Py = import "/capnpy/annotate.capnp";')
    for h in ast.get('head') or []:
        out.append(h)
    for a in ast.get('ann') or []:
        out.append(a + ';')
    for n in ast['nodes']:
        render_node(n, out)
    return '\n'.join(out) + '\n'
