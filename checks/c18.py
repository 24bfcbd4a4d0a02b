"""C18: schema constants have the declared values"""
import random
import re

import hypothesis

import gen
import layout
import pyxpool
import wire
from common import *

ID = 'C18'
PLUGINS = ['ops_const.py']
RULE = ('random schemas to which constants are added in the file and in (nested) structs: scalars incl. inf '
        'and nan, text, data, enums, structs with unions and groups, lists, references to other constants, '
        'types of imported files, with and without reflection data, long ones so that the description of '
        'the schema has several segments. The value in the module (and in the messages made from it) is '
        'compared with the one `capnp compile` assigns, read by an independent decoder. non-trivial: a '
        'struct or list constant with contents, or a reference')
EXAMPLES = {'quick': 1500, 'thorough': 15000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(max_structs=3, max_fields=6, groups=14, unions=20, enums=2, default=40, nullable=4, void_lists=True)
# names which hide what the generated class needs, see C17
AVOID = set('which dumps loads load load_all compact shortrepr from_buffer property staticmethod classmethod '
            'print exec cdef cpdef isinstance none ord hash globals object'.split())


def quote(s):
    out = ''
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif c == '\n':
            out += '\\n'
        elif c < ' ' or c == '\x7f':
            out += '\\x%02x' % ord(c)
        else:
            out += c
    return '"%s"' % out


def lit(g, L, t, v):
    """A value as capnp text"""
    if t == 'Void':
        return 'void'
    if v is None:
        if isinstance(t, str):
            return '""'
        return '[]' if t[0] == 'list' else '()'
    if t == 'Bool':
        return 'true' if v else 'false'
    if t in ('Float32', 'Float64'):
        if v != v:
            return 'nan'
        if v in (float('inf'), -float('inf')):
            return 'inf' if v > 0 else '-inf'
        return repr(v)
    if t == 'Text':
        return quote(v)
    if t == 'Data':
        if not v:
            return '""'
        return '0x"%s"' % ' '.join('%02x' % ord(c) for c in v)
    if isinstance(t, str):
        return str(v)
    if t[0] == 'enum':
        return L['enums'][t[1]]['items'][v]
    if t[0] == 'list':
        return '[%s]' % ', '.join(lit(g, L, t[1], x) for x in v)
    return '(%s)' % ', '.join(lit_fields(g, L, t[1], v))


def lit_fields(g, L, sid, v):
    out = []
    for f in L['structs'][sid]['fields']:
        if f['name'] not in v or f.get('vgroup') or f.get('type') == 'AnyPointer':
            continue
        x = v[f['name']]
        if f['kind'] == 'group':
            if x is None:
                continue
            out.append('%s = (%s)' % (f['name'], ', '.join(lit_fields(g, L, f['gid'], x))))
        elif x is None and is_ptr(f['type']) and f['disc'] is None:
            continue
        elif x is None and is_ptr(f['type']):
            out.append('%s = %s' % (f['name'], lit(g, L, f['type'], x)))
        else:
            out.append('%s = %s' % (f['name'], lit(g, L, f['type'], x)))
    return out


def type_name(L, t, prefix=''):
    if isinstance(t, str):
        return t
    if t[0] == 'list':
        return 'List(%s)' % type_name(L, t[1], prefix)
    n = L['structs'][t[1]]['name'] if t[0] == 'struct' else L['enums'][t[1]]['name']
    return prefix + n


def gen_type(g, L, depth=0, refl=True):
    r = g.int(0, 99)
    structs, enums = gen.plain_structs(L), gen.plain_enums(L)
    if r < 30 or (depth and r < 45):
        return g.pick(gen.PRIMS + ['Void', 'Float32', 'Float64'])
    if r < 42:
        return g.pick(['Text', 'Data'])
    if r < 52 and enums:
        return ['enum', g.pick(enums)]
    if r < 78 and structs:
        return ['struct', g.pick(structs)]
    if depth < 3 and refl:
        return ['list', gen_type(g, L, depth + 1)]
    return g.pick(['Text', 'Int64'])


class Consts(object):
    def __init__(self, g, L, prefix, refl):
        self.g, self.L, self.prefix, self.refl = g, L, prefix, refl
        self.known = []             # (type, absolute reference)
        self.n = 0

    def name(self):
        g = self.g
        self.n += 1
        if g.chance(25):
            w = g.pick(gen.SPECIAL + ['fooBar', 'def', 'import', 'aVeryLongName', 'x'])
            if w not in self.used and w not in AVOID:
                self.used.add(w)
                return w
        return 'k%s%d' % (g.pick(['', 'Value', 'fooBar']), self.n)

    def block(self, scope, count, used=()):
        """lines declaring constants in the scope ('' or A.B)"""
        g, L = self.g, self.L
        self.used = set(used)
        out = []
        for _ in range(count):
            refs = self.known
            if refs and g.chance(12):
                t, ref = g.pick(refs)
                value = '.' + ref
            else:
                t = gen_type(g, L, refl=self.refl)
                big = g.chance(6)
                vg = gen.ValueGen(g, L, ctor=False, full=g.chance(50), budget=60 if big else 12, null=20)
                v = vg.value(t, True)
                if big and t in ('Text', 'Data'):
                    v = 'xyz' * g.int(1000, 4000)
                elif big and isinstance(t, list) and t[0] == 'list' and v:
                    v = v * g.int(1, 200)
                value = lit(g, L, t, v)
                same_t = [ref for t2, ref in self.known if isinstance(t, list) and t[0] == 'list' and t[1] == t2]
                if same_t and v and g.chance(50):
                    value = '[%s]' % ', '.join([lit(g, L, t[1], x) for x in v[1:]] + ['.' + g.pick(same_t)])
            n = self.name()
            out.append('const %s :%s = %s;' % (n, type_name(L, t, self.prefix), value))
            if not n.startswith('k') or len(n) > 1:
                self.known.append((t, (scope + '.' if scope else '') + n))
        return out


def plain_members(L, sid):
    """The names which are taken in the scope of a struct"""
    s = L['structs'][sid]
    out = set()
    for f in s['fields']:
        out.add(f['name'])
        if f['kind'] == 'group':
            out |= plain_members(L, f['gid'])
    out |= {'get_' + layout.pyname(x) for x in out} | {layout.pyname(x, c) for x in out for c in (0, 1)}
    out |= {x[1] for x in L['nodes'][sid]['nested']}
    return out


def with_consts(g, text, L, prefix='', refl=True, scale=1):
    c = Consts(g, L, prefix, refl)
    lines = text.rstrip('\n').split('\n')
    tail = []
    tail += c.block('', g.int(1, 5 * scale))
    if g.chance(60):
        tail.append('struct KScope {')
        tail += ['  ' + x for x in c.block('KScope', g.int(1, 3 * scale))]
        if g.chance(60):
            tail.append('  struct Inner { f @0 :Int32;')
            tail += ['    ' + x for x in c.block('KScope.Inner', g.int(1, 2))]
            tail.append('  }')
        if g.chance(40):
            tail.append('  g @0 :Int8;')
        tail.append('}')
    if not prefix:
        out = []
        for line in lines:
            out.append(line)
            m = re.match(r'^struct (\w+)[^{]*\{$', line)
            if m and g.chance(35):
                sid = L['byname'][m.group(1)]
                out += ['  ' + x for x in c.block(m.group(1), g.int(1, 3), plain_members(L, sid))]
        lines = out
    return '\n'.join(lines + tail) + '\n'


def gen_text(g):
    """-> files, kw"""
    text, kw = gen.gen_schema(g, **CFG)
    if g.chance(12):
        kw = {}
        text = text.replace('$Py.options(convertCase=false);\n', '').replace('$Py.options(textType=unicode);\n', '') \
            .replace('$Py.options(convertCase=false, textType=unicode);\n', '')
        L = layout_of({'files': {'other.capnp': text}, 'kw': {'main': 'other.capnp'}})
        head = '@0xe1a2b3c4d5e6f701;\nusing O = import "/other.capnp";\n'
        return {'sch.capnp': with_consts(g, head, L, 'O.'), 'other.capnp': text}, kw
    L = layout_of({'files': {'sch.capnp': text}, 'kw': kw})
    refl = True
    if g.chance(30):
        refl = False
        kw['options'] = {'include_reflection_data': False}
    return {'sch.capnp': with_consts(g, text, L, refl=refl)}, kw


HAND = [('''
enum Color { red @0; green @1; blue @2; }
struct Point { x @0 :Int64; y @1 :Int64; name @2 :Text; sub @3 :Point; }
struct U { union { a @0 :Int8; b @1 :Text; c :group { d @2 :Point; e @3 :List(Color); } } n :union { f @4 :Void; g @5 :Bool; } }
const aBool :Bool = true; const anInt :Int64 = -9223372036854775808; const aUint :UInt64 = 18446744073709551615;
const f32 :Float32 = -inf; const f64 :Float64 = nan; const f1 :Float32 = 0.1; const nothing :Void = void;
const text :Text = "quote \\" brace {x} back \\\\ new\\nline caf\u00e9"; const data :Data = 0x"00 01 7b 7d ff";
const color :Color = blue; const colors :List(Color) = [blue, red]; const class :Int8 = -1;
const point :Point = (x = 1, y = -2, name = "p", sub = (x = 3)); const samePoint :Point = .point;
const points :List(Point) = [.point, (y = 5), ()]; const u1 :U = (b = "hello", n = (g = true));
const u2 :U = (c = (d = (x = 7), e = [green]), n = (f = void)); const us :List(U) = [(a = 3), .u2];
const bools :List(Bool) = [true, false, true]; const voids :List(Void) = [void, void]; const texts :List(Text) = ["a", "", "b"];
const datas :List(Data) = [0x"61", ""]; const lists :List(List(Int16)) = [[1], [], [2, 3]]; const empty :List(Int64) = [];
struct Scope { const def :Int32 = 5; const inner :Point = (x = 8); const colors :List(Color) = [green];
  struct Deep { const deepest :List(Point) = [(x = 9)]; const color :Color = green; f @0 :Int8; }
  enum Mine { one @0; two @1; } const mine :Mine = two; x @0 :Int8; }
''', {})]


class ConstPool(Pool):
    def get(self, k, seed):
        if k < len(self.hand):
            return Pool.get(self, k, seed)
        if (k, seed) not in self._gen:
            from driver import RandG
            g = RandG('c18-%d-%d' % (seed, k))
            while True:
                try:
                    files, kw = gen_text(g)
                    layout_of({'files': files, 'kw': kw})
                except hypothesis.errors.UnsatisfiedAssumption:
                    continue
                if len(files) == 1 and not kw.get('options'):
                    break
            self._gen[k, seed] = files['sch.capnp'], kw
        return self._gen[k, seed]


pool = ConstPool('c18', HAND, CFG)
pool.n = {'quick': 4, 'thorough': 40}
prepare = pool.prepare


def directed(tier):
    import os
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for k in range(pool.count(tier)):
        case = pyxpool.case_of(*pool.get(k, seed))
        case['configs'] = ['pyxmode', 'pure']
        yield case


def findings():
    text = '@0xd1a2b3c4d5e6f708;\n'
    text += 'struct P { x @0 :Int64; }\nconst p :P = (x = 3);\nconst ord :Int8 = 1;\n'
    return [('constant-called-ord', {'files': {'sch.capnp': text}, 'kw': {}, 'configs': ['pure']})]


def make(g, tier):
    files, kw = gen_text(g)
    case = {'files': files, 'kw': kw}
    case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    layout_of(case)
    return case


def interesting(L, t, v, labels):
    labels.add('constant of type %s' % (t if isinstance(t, str) else t[0]))
    if isinstance(t, list) and t[0] in ('struct', 'list') and v:
        labels.add('nt')


def run(case, ctx):
    labels = set()
    text = case['files'][case['kw'].get('main', 'sch.capnp')]
    if re.search(r'(= |, )\.', text):
        labels.add('reference')
    if len(case['files']) > 1:
        labels.add('types of an imported file')
    if case['kw'].get('options'):
        labels.add('without reflection data')
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        labels.add('config ' + config)
        ctx.load(config, S)
        if len(wire.unframe(S.request)) > 1:
            labels.add('description in several segments')
        uni = bool(case['kw'].get('unicode_'))
        prog, what = [], []
        main = L['files'][0]['id']
        for cid, c in sorted(L['consts'].items(), key=lambda x: x[1]['name']):
            info = L['nodes'][cid]
            if info['display'].split(':')[0] != L['nodes'][main]['display']:
                continue
            scope = [] if info['scope'] == main else L['path'][info['scope']]
            path = scope + [layout.keyword_safe(info['short'])]
            if info['scope'] != main:
                labels.add('nested constant')
            what.append((len(prog), 'value', c, '.'.join(path)))
            prog.append(['const_value', S.key, path, c['type'], uni])
            k = len(prog) - 1
            if isinstance(c['type'], list) and c['type'][0] == 'struct':
                for fast in (True, False):
                    what.append((len(prog), 'dumps', c, 'dumps() of ' + '.'.join(path)))
                    prog.append(['const_dumps', {'$': k}, fast])
            if isinstance(c['type'], list) and c['type'][0] != 'enum' and not has_bool_list(L, c['type']):
                owner = holder(L, c['type'])
                if owner:
                    sid, f = owner
                    what.append((len(prog), ('wrap', sid, f['name']), c, 'an object made from ' + '.'.join(path)))
                    prog.append(['wrap_const', S.key, sid, f['py'], {'$': k}])
        r = ctx.run(config, prog)
        for i, kind, c, name in what:
            v = val(r[i], name, config)
            if kind == 'value':
                expect_same(v, c['value'], 'constant ' + name, config)
                interesting(L, c['type'], c['value'], labels)
            elif kind == 'dumps':
                got = wire.read(L, c['type'][1], v.encode('latin-1'))
                expect_same(got, c['value'], name, config)
            else:
                got = wire.read(L, kind[1], v.encode('latin-1'))
                expect_same(got[kind[2]], c['value'], name, config)
                labels.add('used in a constructor')
    return labels


def has_bool_list(L, t):
    return isinstance(t, list) and t[0] == 'list' and (t[1] in ('Bool', 'Void') or has_bool_list(L, t[1]))


def holder(L, t):
    """A struct with a plain field of the type"""
    for sid in gen.plain_structs(L):
        if not gen.ctorable(L, sid):
            continue
        for f in L['structs'][sid]['fields']:
            if f['kind'] == 'slot' and f['disc'] is None and f['type'] == t and not f.get('vgroup'):
                return sid, f
    return None


def nontrivial(labels):
    return 'nt' in labels or 'reference' in labels
