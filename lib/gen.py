"""Generators of schemas (as text) and of values. All the choices are made
through g (see driver.G), so that they shrink."""
import struct

import layout
from wire import RANGE, complete, is_ptr

INTS = ['Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64']
PRIMS = INTS + ['Bool', 'Float32', 'Float64']

WORDS = ['a', 'b', 'x', 'fooBar', 'myText', 'aLongerName', 'count', 'snakeCase', 'httpPort', 'v',
         'valueOne', 'node', 'key', 'item', 'leftSide', 'someURL']
# names which are keywords, builtins, or likely to be locals of the generated code
SPECIAL = ['class', 'from', 'in', 'is', 'pass', 'lambda', 'global', 'with', 'not', 'or', 'and',
           'list', 'int', 'type', 'len', 'bytes', 'object', 'data', 'ptr', 'str', 'name', 'pos',
           'size', 'value', 'length', 'buf', 'res', 'offset', 'builder', 'args', 'id', 'tuple',
           'none', 'true', 'false', 'struct', 'text', 'kwargs', 'cls1', 'x', 'p', 'float', 'bool',
           'default', 'seg', 'segment', 'parts', 'other', 'start', 'end', 'body', 'tag', 'val']


# internals of Struct which the private name of a nullable group must not hide
PRIVATE = ['_seg', '_key', '_equals', '_data_offset', '_data_size', '_ptrs_offset', '_ptrs_size']


class Names(object):
    def __init__(self, g, special=15, bad=()):
        self.g, self.special = g, special
        self.used = set(bad)
        self.n = 0

    def new(self):
        g = self.g
        self.n += 1
        if g.chance(self.special):
            w = g.pick(SPECIAL)
        else:
            w = g.pick(WORDS) + str(self.n)
        p = layout.pyname(w)
        if w in self.used or p in self.used or p.rstrip('_') in self.used:
            w = g.pick(WORDS) + 'Z' + str(self.n)
            p = layout.pyname(w)
        self.used.update((w, p))
        return w


CFG = dict(max_structs=3, max_fields=7, groups=12, unions=18, anyptr=0, enums=2, lists=True,
           nest=25, default=30, void=3, special=15, depth=2, anyptr_union=0, bool_lists=True,
           nested_lists=True, max_enum=5, anonymous=50, nullable=0, vgroups=0, keys=0)


class SchemaGen(object):
    Names = Names

    def __init__(self, g, **cfg):
        self.g = g
        self.c = dict(CFG)
        self.c.update(cfg)

    def ast(self):
        g, c = self.g, self.c
        ns = g.int(1, c['max_structs'])
        ne = g.int(0, c['enums'])
        self.structs, self.enums = [], []
        placed = []
        top = []
        for i in range(ns):
            node = {'k': 'struct', 'name': 'St%d' % i, 'nested': [], 'body': []}
            if placed and g.chance(c['nest']):
                par, pname = g.pick(placed)
                par['nested'].append(node)
                full = pname + '.' + node['name']
            else:
                top.append(node)
                full = node['name']
            placed.append((node, full))
            self.structs.append((node, full))
        for i in range(ne):
            n = g.int(1, c['max_enum'])
            names = self.Names(g, c['special'])
            node = {'k': 'enum', 'name': 'En%d' % i, 'items': [names.new() for _ in range(n)]}
            if g.chance(c['nest']):
                par, pname = g.pick(placed)
                par['nested'].append(node)
                full = pname + '.' + node['name']
            else:
                top.append(node)
                full = node['name']
            self.enums.append((node, full))
        self.keyed = set(full for node, full in self.structs if g.chance(c['keys'])) if c['keys'] else ()
        for node, full in self.structs:
            self.fill(node)
            if c['vgroups'] or c['keys']:
                self.annotate(node, full)
        if g.chance(30):
            top = g.shuffled(top)
        return {'id': 'd1a2b3c4d5e6f708', 'nodes': top}

    def fill(self, node):
        g, c = self.g, self.c
        names = self.Names(g, c['special'])
        node['body'] = self.body(g.int(1, c['max_fields']), 0, names, False)
        slots = []
        walk(node['body'], slots.append)
        if not any(f['type'] != 'Void' for f in slots):
            f = {'k': 'slot', 'name': names.new(), 'type': 'Int16'}
            node['body'].append(f)
            slots.append(f)
        if g.chance(40):
            slots = g.shuffled(slots)
        for i, f in enumerate(slots):
            f['ord'] = i
        self.order_nullables(node['body'])

    def order_nullables(self, body):
        # isNull must come first
        for x in body:
            if x['k'] == 'slot':
                continue
            if '$Py.nullable' in (x.get('ann') or []):
                slots = []
                walk(x['body'][1:], slots.append)
                first = min(slots, key=lambda f: f['ord'])
                a = x['body'][0]
                if a['ord'] > first['ord']:
                    a['ord'], first['ord'] = first['ord'], a['ord']
            self.order_nullables(x['body'])

    def nullable(self, names, depth):
        g, c = self.g, self.c
        t = g.pick(['Bool', 'Int8', 'UInt8', 'Bool', 'Int16', 'UInt64'])
        a = {'k': 'slot', 'name': 'isNull', 'type': t}
        if g.chance(25):
            a['default'] = True if t == 'Bool' else 1
        if g.chance(25):
            sub = names if g.chance(50) else self.Names(g, c['special'])
            b = {'k': 'group', 'name': 'value', 'body': [self.slot(sub, False) for _ in range(g.int(1, 3))]}
            walk(b['body'], lambda f: f.update(type='UInt8') if f['type'] == 'Void' else None)
        else:
            b = {'k': 'slot', 'name': 'value'}
            if self.enums and g.chance(20):
                node, full = g.pick(self.enums)
                b['type'] = ['enum', full]
                if g.chance(c['default']):
                    b['default'] = ' ' + g.pick(node['items'])
            else:
                b['type'] = self.prim()
                if g.chance(c['default']):
                    b['default'] = self.default(b['type'])
        name = names.new()
        while '_' + layout.pyname(name) in PRIVATE:      # see KNOWN_FINDINGS.txt
            name = names.new()
        return {'k': 'group', 'name': name, 'ann': ['$Py.nullable'], 'body': [a, b]}

    def annotate(self, node, full):
        """$Py.key and $Py.group"""
        g, c = self.g, self.c
        used = [f['name'] for f in node['body'] if f['name']]
        names = self.Names(g, c['special'], used + [layout.pyname(x) for x in used])
        names.n = 50

        def hashable(f):
            if f['k'] != 'slot':
                a = f.get('ann') or []
                if '$Py.nullable' in a:
                    return f['body'][1]['k'] == 'slot'
                return any(x.startswith('$Py.key') for x in a)
            t = f['type']
            if f.get('ann'):
                return any(x.startswith('$Py.key') for x in f['ann'])
            if isinstance(t, list):
                return t[0] == 'enum' or (t[0] == 'struct' and t[1] in self.keyed)
            return t != 'AnyPointer'

        def key(fields):
            ok = [f for f in fields if f['k'] != 'union' and hashable(f)]
            if len(ok) == len(fields) and g.chance(40):
                return '$Py.key("*")'
            if not ok:
                return None
            ok = g.shuffled(ok)[:g.int(1, len(ok))]
            return '$Py.key("%s")' % g.pick([', ', ',', ' , ']).join(f['name'] for f in ok)

        def groups(body):
            for f in body:
                if f['k'] == 'slot':
                    continue
                groups(f['body'])
                if f['k'] == 'group' and not f.get('ann') and g.chance(c['keys']):
                    k = key(f['body'])
                    if k:
                        f['ann'] = [k]
        groups(node['body'])
        n = [0]
        walk(node['body'], lambda f: n.__setitem__(0, n[0] + 1))
        for _ in range(2):
            if not g.chance(c['vgroups']):
                continue
            slots = [f for f in node['body'] if f['k'] == 'slot' and not f.get('ann')]
            slots = g.shuffled(slots)[:g.int(1, 4)]
            if not slots:
                break
            ann = ['$Py.group("%s")' % g.pick([', ', ',']).join(f['name'] for f in slots)]
            k = key(slots) if g.chance(c['keys']) else None
            if k:
                ann.append(k)
            node['body'].append({'k': 'slot', 'name': names.new(), 'type': 'Void', 'ann': ann, 'ord': n[0]})
            n[0] += 1
        if full in self.keyed:
            k = key(node['body'])
            if not k:
                f = {'k': 'slot', 'name': names.new(), 'type': 'Int16', 'ord': n[0]}
                node['body'].append(f)
                k = '$Py.key("%s")' % f['name']
            node['ann'] = (node.get('ann') or []) + [k]

    def body(self, n, depth, names, in_union):
        g, c = self.g, self.c
        out = []
        anon = depth > 0 and in_union
        for _ in range(n):
            r = g.int(0, 99)
            if c['nullable'] and g.chance(c['nullable']):
                out.append(self.nullable(names, depth))
            elif depth < c['depth'] and r >= 100 - c['groups']:
                sub = names if g.chance(70) else self.Names(g, c['special'])
                out.append({'k': 'group', 'name': names.new(),
                            'body': self.body(g.int(1, 3), depth + 1, sub, False)})
            elif depth < c['depth'] and r >= 100 - c['groups'] - c['unions'] and \
                    not (anon and not in_union):
                if not anon and not in_union and g.chance(c['anonymous']):
                    anon = True
                    out.append({'k': 'union', 'name': None,
                                'body': self.body(g.int(2, 4), depth + 1, names, True)})
                else:
                    sub = names if g.chance(70) else self.Names(g, c['special'])
                    out.append({'k': 'union', 'name': names.new(),
                                'body': self.body(g.int(2, 4), depth + 1, sub, True)})
            else:
                out.append(self.slot(names, in_union))
        return out

    def slot(self, names, in_union):
        g, c = self.g, self.c
        f = {'k': 'slot', 'name': names.new()}
        r = g.int(0, 99)
        if r < (25 if in_union else c['void']):
            f['type'] = 'Void'
        elif r < 55:
            f['type'] = self.prim()
            if g.chance(c['default']):
                f['default'] = self.default(f['type'])
        elif r < 60 and self.enums:
            node, full = g.pick(self.enums)
            f['type'] = ['enum', full]
            if g.chance(c['default']):
                f['default'] = ' ' + g.pick(node['items'])
        elif c['anyptr'] and r < 60 + c['anyptr']:
            f['type'] = 'AnyPointer'
        elif c['anyptr_union'] and in_union and r < 60 + c['anyptr_union']:
            f['type'] = 'AnyPointer'
        else:
            f['type'] = self.ptr(c['lists'])
        return f

    def prim(self):
        return self.g.pick(PRIMS)

    def default(self, t):
        g = self.g
        if t == 'Bool':
            return g.chance(70)
        if t == 'Float32':
            return g.pick([1.5, -0.0, 0.25, -100.0, float('inf'), float('-inf'), 3.0e38, 1e-40])
        if t == 'Float64':
            return g.pick([1.5, -0.0, 0.1, -1e300, float('inf'), float('-inf'), 5e-324])
        return gen_int(g, t)

    def ptr(self, lists, depth=0):
        g, c = self.g, self.c
        r = g.int(0, 9)
        if r < 3:
            return 'Text'
        if r < 4:
            return 'Data'
        if r < 6 or not lists:
            return ['struct', g.pick(self.structs)[1]]
        return ['list', self.elem(depth)]

    def elem(self, depth):
        g, c = self.g, self.c
        r = g.int(0, 11)
        if r < 4:
            t = self.prim()
            if t == 'Bool' and not c['bool_lists']:
                t = 'Int8'
            return t
        if r < 5:
            return 'Text'
        if r < 6:
            return 'Data'
        if r < 7 and self.enums:
            return ['enum', g.pick(self.enums)[1]]
        if r < 8 and depth < 2 and c['nested_lists']:
            return ['list', self.elem(depth + 1)]
        if r < 9 and c.get('void_lists'):
            return 'Void'
        return ['struct', g.pick(self.structs)[1]]


def walk(body, f):
    for x in body:
        if x['k'] == 'slot':
            f(x)
        else:
            walk(x['body'], f)


def gen_schema(g, **cfg):
    """-> (text, Schema keyword arguments)"""
    cls = cfg.pop('cls', SchemaGen)
    ast = cls(g, **cfg).ast()
    kw = {}
    opts = []
    if g.chance(15):
        kw['convert'] = False
        opts.append('convertCase=false')
    if g.chance(25):
        kw['unicode_'] = True
        opts.append('textType=unicode')
    if opts:
        ast['ann'] = ['$Py.options(%s)' % ', '.join(opts)]
    return layout.render(ast), kw


# ---------------------------------------------------------------- values

M61 = 2 ** 61 - 1


def gen_int(g, t):
    lo, hi = RANGE[t]
    r = g.int(0, 7)
    if r < 2:
        return g.int(max(lo, -3), 3)
    if r < 4:
        return g.pick([hi, lo, hi - 1, lo + 1, hi // 2, hi // 2 + 1])
    if r < 5:
        if hi >= 2 ** 63 - 1 and g.chance(50):
            # around the modulus of hash(int)
            x = g.int(1, hi // M61) * M61 + g.pick([0, 0, -1, 1])
        else:
            x = (1 << g.int(0, hi.bit_length() - 1)) + g.pick([0, 0, -1, 1])
        if lo < 0 and g.chance(35):
            x = -x
        return min(max(x, lo), hi)
    return g.int(lo, hi)


F64 = [0.0, -0.0, 1.5, -1.0, 0.1, float('inf'), float('-inf'), float('nan'), 1.7976931348623157e308,
       5e-324, 1e22, 123456789.123, -2.5e-10, 1 / 3.]
F32 = [struct.unpack('<f', struct.pack('<f', x))[0] for x in
       [0.0, -0.0, 1.5, -1.0, 0.1, float('inf'), float('-inf'), float('nan'), 3.4028234e38, 1e-45,
        1e10, 123456.79, -2.5e-10, 1 / 3.]]


def gen_float(g, t):
    if g.chance(75):
        return g.pick(F64 if t == 'Float64' else F32)
    if t == 'Float64':
        return struct.unpack('<d', struct.pack('<Q', g.int(0, 2 ** 64 - 1)))[0]
    return struct.unpack('<f', struct.pack('<I', g.int(0, 2 ** 32 - 1)))[0]


CHARS = ['a', 'b', 'Z', '0', ' ', '"', '\\', '\n', '\'', '\t', '\x01', '\x7f', '\xe9', '\u20ac',
         '\U0001f600', '\r', '%', '{', '\x00']


def gen_text(g, nul=False, big=True):
    r = g.int(0, 19)
    if r == 0:
        return ''
    if big and r == 19:
        return 'x' * g.int(20, 300)
    n = g.int(0, 9)
    cs = CHARS if nul else CHARS[:-1]
    if r < 12:
        cs = cs[:4]
    return ''.join(g.pick(cs) for _ in range(n))


def gen_data(g, big=True):
    r = g.int(0, 9)
    if r == 0:
        return ''
    if big and r == 9:
        return '\x00\xff' * g.int(10, 100)
    n = g.int(0, 17)
    return g.bytes(n).decode('latin-1')


def gen_prim(g, t, L=None):
    if not isinstance(t, str):
        n = len(L['enums'][t[1]]['items'])
        return g.int(0, n - 1)
    if t == 'Bool':
        return g.chance(50)
    if t == 'Void':
        return None
    if t in ('Float32', 'Float64'):
        return gen_float(g, t)
    return gen_int(g, t)


class ValueGen(object):
    """ctor: the values accepted by constructors (no bool lists with items...).
    full: all the fields are present (what a message holds); else some are
    left out."""

    def __init__(self, g, L, ctor=True, full=False, null=20, budget=25, anykinds=None, omit=30,
                 unknown_enum=0, nul=False, unknown_tag=0, only=None):
        self.g, self.L = g, L
        self.ctor, self.full, self.null, self.budget = ctor, full, null, budget
        self.omit = omit
        self.unknown_enum = unknown_enum
        self.unknown_tag = unknown_tag
        self.nul = nul
        self.only = only or {}      # {struct id: names of the union members to use}
        self.depth = 0

    def struct(self, sid):
        g = self.g
        s = self.L['structs'][sid]
        out = {}
        active = None
        self.budget -= 1
        self.depth += 1
        try:
            if s['dc']:
                members = [f for f in s['fields'] if f['disc'] is not None
                           and not (self.ctor and f.get('type') == 'AnyPointer')
                           and f['name'] in self.only.get(sid, [f['name']])]
                if self.unknown_tag and g.chance(self.unknown_tag):
                    out['#tag'] = g.pick([s['dc'], s['dc'] + 1, 255, 32767, 32768, 65535])
                    active = '#'
                elif members and (self.full or not g.chance(self.omit)):
                    active = g.pick(members)['name']
                    out['#'] = active
            for f in s['fields']:
                if f['disc'] is not None:
                    if f['name'] != active:
                        continue
                elif not self.full and g.chance(self.omit):
                    continue
                if f['kind'] == 'group':
                    if f.get('nullable'):
                        out[f['name']] = self.nullable(f)
                    else:
                        out[f['name']] = self.struct(f['gid'])
                else:
                    if f['type'] == 'Void' and f['disc'] is None and (not self.full or f.get('vgroup')):
                        continue
                    out[f['name']] = self.field_value(f)
        finally:
            self.depth -= 1
        return out

    def nullable(self, f):
        """for a constructor: a null has the default value"""
        g = self.g
        nf, vf = self.L['structs'][f['gid']]['fields'][:2]

        def value():
            return self.struct(vf['gid']) if vf['kind'] == 'group' else self.field_value(vf)
        t = nf['type'] == 'Bool'
        if g.chance(35):
            if not self.ctor and g.chance(40):
                return {'isNull': True if t else g.pick([1, 2, 100]), 'value': value()}
            v = {} if vf['kind'] == 'group' else vf['default']
            if not self.ctor and vf['kind'] == 'group':
                v = complete(self.L, vf['gid'], {})
            return {'isNull': True if t else 1, 'value': v}
        return {'isNull': False if t else 0, 'value': value()}

    def field_value(self, f):
        t = f['type']
        if not is_ptr(t) and self.g.chance(15):
            return f['default']
        return self.value(t)

    def value(self, t, item=False):
        g = self.g
        if not is_ptr(t):
            if self.unknown_enum and isinstance(t, list) and g.chance(self.unknown_enum):
                n = len(self.L['enums'][t[1]]['items'])
                return g.pick([n, n + 1, n + 7, 255, 256, 32767, 32768, 65535])
            return gen_prim(g, t, self.L)
        if not item and g.chance(self.null):
            return None
        if t == 'AnyPointer':
            return None
        if t == 'Text':
            return gen_text(g, self.nul)
        if t == 'Data':
            return gen_data(g)
        if t[0] == 'struct':
            if self.budget <= 0 and not item:
                return None
            if self.ctor and not ctorable(self.L, t[1]):
                return None
            return self.struct(t[1])
        et = t[1]
        if self.budget <= 0:
            n = 0
        elif isinstance(et, str) and not is_ptr(et):
            n = g.int(0, 5) if g.chance(80) else g.int(0, 70)
        else:
            n = g.int(0, 3) if g.chance(85) else g.int(0, 7)
        if et == 'Bool' and self.ctor:
            n = 0
        if self.ctor and isinstance(et, list) and et[0] == 'struct' and not ctorable(self.L, et[1]):
            n = 0
        out = []
        for _ in range(n):
            self.budget -= 0 if not is_ptr(et) else 1
            out.append(self.value(et, True))
        return out


def has_any(L, sid):
    """AnyPointer fields which are always present"""
    for f in L['structs'][sid]['fields']:
        if f['kind'] == 'group':
            if has_any(L, f['gid']):
                return True
        elif f['type'] == 'AnyPointer' and f['disc'] is None:
            return True
    return False


def ctorable(L, sid):
    """Can the struct be built by its constructor?"""
    return bool(L['structs'][sid]['fields']) and not has_any(L, sid)


def plain_structs(L):
    main = L['nodes'][L['file']]['display']
    return sorted((s['id'] for s in L['structs'].values()
                   if not s['group'] and L['nodes'][s['id']]['display'].split(':')[0] == main),
                  key=lambda i: L['structs'][i]['name'])


def plain_enums(L):
    main = L['nodes'][L['file']]['display']
    return sorted((i for i in L['enums'] if L['nodes'][i]['display'].split(':')[0] == main),
                  key=lambda i: L['enums'][i]['name'])


def gen_plan(g):
    """A layout for wire.Encoder"""
    r = g.int(0, 9)
    if r < 1:
        return {}
    p = {'seed': g.int(0, 1 << 20)}
    if r < 3:       # one thing at a time
        k = g.pick(['nseg', 'shuffle', 'gap', 'grow', 'trunc', 'far'])
        p[k] = 3 if k == 'nseg' else 70
        return p
    if g.chance(60):
        p['nseg'] = g.int(1, 5)
    for k in ('shuffle', 'gap', 'junk', 'far', 'dfar', 'grow', 'trunc'):
        if g.chance(50):
            p[k] = g.pick([100, 60, 30])
    if not g.chance(97):        # huge messages
        k = g.pick(['wide', 'hole', 'nseg'])
        p[k] = g.pick([200, 300, 1000]) if k == 'nseg' else g.int(1, 2)
    return p


def labels_of(L, sid, mval, out=None):
    """Which features a value exercises"""
    out = set() if out is None else out

    def vv(t, v):
        if isinstance(t, list) and t[0] == 'enum':
            out.add('enum')
            return
        if not is_ptr(t):
            if t == 'Bool':
                out.add('bool')
            elif 'Float' in t:
                out.add('float')
            elif t == 'Void':
                out.add('void')
            else:
                out.add('int')
                if v in RANGE[t]:
                    out.add('int limit')
            return
        if v is None:
            out.add('null pointer')
            return
        if t in ('Text', 'Data'):
            out.add(t.lower() + (' empty' if not v else ''))
        elif t == 'AnyPointer':
            out.add('anypointer')
        elif t[0] == 'struct':
            out.add('struct field')
            ss(t[1], v)
        else:
            et = t[1]
            k = et if isinstance(et, str) else et[0]
            k = {'Text': 'text', 'Data': 'data', 'struct': 'struct', 'list': 'list',
                 'enum': 'enum'}.get(k, 'primitive')
            out.add('list of ' + k + (' (empty)' if not v else ''))
            for x in v:
                vv(et, x)

    def ss(sid, v, group=False):
        s = L['structs'][sid]
        if s['dc']:
            out.add('union' + (' in group' if group else ''))
            if '#' not in v:
                out.add('union, no member given')
        for f in s['fields']:
            if f['name'] not in v:
                if f['disc'] is None:
                    out.add('field left out')
                continue
            if f['kind'] == 'group':
                out.add('group' + (' in group' if group else '') +
                        (' in union' if f['disc'] is not None else ''))
                if isinstance(v[f['name']], dict):
                    ss(f['gid'], v[f['name']], True)
            else:
                if f['had'] and not is_ptr(f['type']) and f['default'] not in (0, False):
                    out.add('explicit default')
                vv(f['type'], v[f['name']])
    ss(sid, mval)
    return out
