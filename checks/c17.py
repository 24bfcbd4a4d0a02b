"""C17: Python names and per-node options follow the documented rules"""
import re

import hypothesis

import gen
import layout
import pyxpool
import wire
from common import *
from driver import RandG

ID = 'C17'
PLUGINS = ['ops_names.py']
RULE = ('random schemas with difficult names (acronyms, digits, single letters, keywords, builtins), in one '
        'or several files which import each other, with $Py.options on the file, on (nested) structs and on '
        'fields, and options given to load_schema(): every type, enumerant, constant, annotation and field '
        'under the name the rules give it and not under another one, with the type of text the options '
        'say, when reading messages encoded independently, in constructors, in which() and is_x(). '
        'non-trivial: options on at least two levels, or several files')
EXAMPLES = {'quick': 3000, 'thorough': 50000}
SECONDS = {'quick': 25, 'thorough': 900}
CFG = dict(max_structs=4, groups=14, unions=18, enums=3, nest=50, nullable=5, vgroups=6, keys=8, max_fields=6)

# names which hide the methods of Struct, or which do not compile: see KNOWN_FINDINGS.txt
AVOID = set('which dumps loads load load_all compact shortrepr from_buffer print exec cdef cpdef '
            'staticmethod classmethod property'.split())
PREFIX = re.compile('^(is|has|get|new)_')


def capitalized(s):
    return s[:1].upper() + s[1:]


class WildNames(gen.Names):
    def new(self):
        g = self.g
        if g.chance(35):
            return gen.Names.new(self)
        for _ in range(20):
            if g.chance(25):
                w = g.pick(gen.SPECIAL + ['self', 'cls', 'def', 'import', 'try', 'async', 'await', 'nonlocal',
                                          'yield', 'raise', 'print1', 'exec2', 'super', 'hash', 'repr'])
            else:
                w = ''
                for k in range(g.int(1, 4)):
                    part = g.pick(['foo', 'x', 'ab', 'y', 'Bar', 'X', 'Aa', 'URL', 'HTTP', 'ID', '2', '10', '7',
                                   'a1', 'B2', 'C3po', 'is', 'not', 'Class', 'In'])
                    w += part
                w = w.lstrip('0123456789')
                w = w[:1].lower() + w[1:]
            p = layout.pyname(w)
            if not w or w in AVOID or p in AVOID or PREFIX.match(p):
                continue
            if w in self.used or p in self.used or layout.pyname(w, False) in self.used or p.rstrip('_') in self.used:
                continue
            self.used.update((w, p, layout.pyname(w, False)))
            return w
        return gen.Names.new(self)


class WildSchema(gen.SchemaGen):
    Names = WildNames


def options(g, pconv, puni):
    """-> (annotation or None, conv or None, uni or None)"""
    parts = []
    conv = uni = None
    if g.chance(pconv):
        conv = g.chance(50)
        parts.append('convertCase=%s' % ('true' if conv else 'false'))
    elif g.chance(5):
        parts.append('convertCase=notset')
    if g.chance(puni):
        uni = g.chance(60)
        parts.append('textType=%s' % ('unicode' if uni else 'bytes'))
    elif g.chance(5):
        parts.append('textType=notset')
    if g.chance(4):
        parts.append('versionCheck=%s' % g.pick(['true', 'notset']))
    parts = g.shuffled(parts)
    return '$Py.options(%s)' % ', '.join(parts) if parts else None, conv, uni


def merge(o, conv, uni):
    return [o[0] if conv is None else conv, o[1] if uni is None else uni]


def add_ann(node, a, g):
    if a:
        node['ann'] = (node.get('ann') or []) + [a]
        node['ann'] = g.shuffled(node['ann'])


def annotate(g, fn, ast, base, opts, levels):
    """Adds $Py.options everywhere, and fills opts"""
    if g.chance(50):
        a, conv, uni = options(g, 50, 50)
        if a:
            levels.add('file')
            ast['ann'] = [a]
            base = merge(base, conv, uni)
    opts['%s:' % fn] = base

    def fields(body, path, o):
        for f in body:
            if f['k'] == 'slot':
                if g.chance(14):
                    a, conv, uni = options(g, 70, 60)
                    if a:
                        levels.add('field')
                        add_ann(f, a, g)
                        opts['%s:%s#%s' % (fn, path, f['name'])] = merge(o, conv, uni)
            elif f['name']:
                fields(f['body'], path + '.' + f['name'], o)
            else:
                fields(f['body'], path, o)

    def visit(nodes, prefix, o):
        for n in nodes:
            if n['k'] != 'struct':
                continue
            path = prefix + n['name']
            p = o
            if g.chance(35):
                a, conv, uni = options(g, 70, 60)
                if a:
                    levels.add('nested struct' if prefix else 'struct')
                    add_ann(n, a, g)
                    p = merge(o, conv, uni)
                    opts['%s:%s' % (fn, path)] = p
            fields(n['body'], path, p)
            visit(n.get('nested') or [], path + '.', p)
    visit(ast['nodes'], '', base)


def extras(g, ast, found, prefix):
    """Constants and annotations. found: [(path, value)]"""
    n = [0]

    def name():
        n[0] += 1
        w = g.pick(['aConst', 'def', 'FOOBar', 'fooBar', 'x', 'class', 'lambda', 'someURL', 'isIt'])
        w = w[:1].lower() + w[1:]
        return w if w in ('def', 'class', 'lambda') and g.chance(50) and n[0] < 2 else '%sK%d' % (w, n[0])

    def at(path):
        w = name()
        if g.chance(65):
            v = g.int(-100, 100)
            t = 'const %s :Int16 = %d;' % (w, v)
            found.append((path + [w], v))
        else:
            t = 'annotation %s(%s) :%s;' % (w, g.pick(['*', 'field', 'struct, enum', 'file']),
                                            g.pick(['Int8', 'Text', 'Void']))
            found.append((path + [w], None))
        return {'k': 'text', 'text': t}

    def visit(nodes, path):
        for x in nodes:
            if x['k'] == 'struct':
                visit(x.get('nested') or [], path + [x['name']])
                if g.chance(20):
                    x['nested'] = (x.get('nested') or []) + [at(path + [x['name']])]
    visit(ast['nodes'], [])
    for _ in range(g.int(0, 3)):
        ast['nodes'].append(at([]))


TYPES = ['HTTPServer', 'URL', 'None', 'True', 'Foo', 'FooBar2', 'A1', 'XYZ', 'Node', 'Struct', 'List', 'Enum',
         'Segment', 'Types', 'Text', 'Int64', 'Camel', 'Request', 'Object', 'BaseEnum', 'False', 'Ptr', 'Type']


def rename(g, texts, prefix):
    """Better names for the types StN and EnN"""
    free = g.shuffled(TYPES)
    m = {}

    def sub(x):
        x = x.group(0)
        if x not in m:
            m[x] = x
            if g.chance(45) and free:
                new = free.pop()
                m[x] = new if new not in ('Text', 'List', 'Int64') else 'Inner' + new
        return m[x]
    return [re.sub(r'\b%s(St|En)\d+\b' % prefix, sub, t) for t in texts]


def gen_text(g, one=False, decorate=None):
    """-> (files, kw, constants, levels)"""
    levels = set()
    kw = {}
    base = [True, False]
    nfiles = 1 if one else g.pick([1, 1, 2, 3])
    if nfiles == 1 and not one and g.chance(35):
        o = {}
        if g.chance(70):
            base[0] = g.chance(40)
            o['convert_case'] = base[0]
        if g.chance(60):
            base[1] = g.chance(70)
            o['text_type'] = 'unicode' if base[1] else 'bytes'
        if o:
            kw['options'] = o
            levels.add('load_schema')
    opts, files, consts = {}, {}, []
    names = ['sch.capnp', 'other.capnp', 'dir_two.capnp'][:nfiles]
    made = []
    for i in reversed(range(nfiles)):
        cfg = dict(CFG) if i == 0 else dict(CFG, max_structs=3, max_fields=4)
        s = WildSchema(g, **cfg)
        ast = s.ast()
        prefix = ['', 'Ot', 'Th'][i]
        ast['id'] = ['d1a2b3c4d5e6f708', 'd1a2b3c4d5e6f70a', 'd1a2b3c4d5e6f70b'][i]
        used = [k for k in range(i + 1, nfiles) if k == i + 1 or g.chance(40)]
        ast['head'] = ['using %s = import "/%s";' % ('IO'[k % 2] + 'mp%d' % k, names[k]) for k in used]
        for k in used:
            for node, full in s.structs:
                if not g.chance(50) and not (node is s.structs[0][0]):
                    continue
                nn = WildNames(g, bad=['zz'])
                n = [0]
                gen.walk(node['body'], lambda f: n.__setitem__(0, n[0] + 1))
                osch = made[nfiles - 1 - k]
                if osch.enums and g.chance(30):
                    t = ['enum', 'IO'[k % 2] + 'mp%d.' % k + ['', 'Ot', 'Th'][k] + g.pick(osch.enums)[1].replace(
                        '.St', '.' + ['', 'Ot', 'Th'][k] + 'St').replace('.En', '.' + ['', 'Ot', 'Th'][k] + 'En')]
                else:
                    t = ['struct', 'IO'[k % 2] + 'mp%d.' % k + ['', 'Ot', 'Th'][k] + g.pick(osch.structs)[1].replace(
                        '.St', '.' + ['', 'Ot', 'Th'][k] + 'St')]
                if g.chance(30):
                    t = ['list', t]
                node['body'].append({'k': 'slot', 'name': g.pick(['zzImp', 'zzURL']) + 'Field%d' % k, 'type': t,
                                     'ord': n[0]})
        annotate(g, names[i], ast, base if nfiles == 1 else [True, False], opts, levels)
        if i == 0:
            extras(g, ast, consts, prefix)
        if decorate:
            decorate(g, i, names, s, ast, used)
        text = layout.render(ast)
        if i:
            text = re.sub(r'(?<![\w.])((?:St|En)\d+)\b', prefix + r'\1', text)
            text = re.sub(r'\.((?:St|En)\d+)\b', '.' + prefix + r'\1', text)
            for k in list(opts):
                if k.startswith(names[i] + ':'):
                    opts[re.sub(r'([:.])((?:St|En)\d+)\b', r'\1' + prefix + r'\2', k)] = opts.pop(k)
        files[names[i]] = text
        made.append(s)
    # the final names of the types
    fs, os_ = sorted(files), sorted(opts)
    cs = ['.'.join(p) for p, v in consts]
    for prefix in ['', 'Ot', 'Th'][:nfiles]:
        out = rename(g, [files[f] for f in fs] + os_ + cs, prefix)
        vals = [opts[o] for o in os_]
        files = dict(zip(fs, out))
        os_ = out[len(fs):len(fs) + len(os_)]
        cs = out[len(fs) + len(os_):]
        opts = dict(zip(os_, vals))
    kw['opts'] = opts
    consts = [[c.split('.'), v] for c, (p, v) in zip(cs, consts)]
    if nfiles > 1:
        levels.add('%d files' % nfiles)
    return files, kw, consts, sorted(levels)


def finding(body, config):
    text = '@0xd1a2b3c4d5e6f708;\n' + body + '\n'
    return {'files': {'sch.capnp': text}, 'kw': {}, 'consts': [], 'levels': [], 'objs': [], 'configs': [config]}


def findings():
    out = [('nested-type-called-like-a-group',
            finding('struct S { address :group { x @0 :Int8; } struct Address { y @0 :Int8; } }', 'pure'))]
    for key, text in PYX_FINDINGS:
        case = pyxpool.case_of(text, {})
        case.update(consts=[], levels=[], objs=[], configs=['pyxmode'])
        out.append((key, case))
    return out


PYX_FINDINGS = [('field-called-%s-pyx' % x, '@0xd1a2b3c4d5e6f708;\nstruct S { %s @0 :Int8; g :group { y @1 :Int8; } }\n' % x)
                for x in ('print', 'exec', 'cdef', 'staticmethod')]


class NamesPool(Pool):
    def get(self, k, seed):
        """-> text, kw, constants, levels"""
        if (k, seed) not in self._gen:
            g = RandG('c17-%d-%d' % (seed, k))
            while True:
                try:
                    files, kw, consts, levels = gen_text(g, one=True)
                    check_domain(files, layout_of({'files': files, 'kw': kw}))
                except hypothesis.errors.UnsatisfiedAssumption:
                    continue
                break
            text = files['sch.capnp']
            fn = pyxpool.name_of(text) + '.capnp'
            kw['opts'] = {fn + o[len('sch.capnp'):]: x for o, x in kw['opts'].items()}
            self._gen[k, seed] = text, kw, consts, levels
        return self._gen[k, seed]

    def case(self, g, tier):
        seed = int(os.environ.get('VERIF_SEED', '1'))
        text, kw, consts, levels = self.get(g.int(0, self.count(tier) - 1), seed)
        return dict(pyxpool.case_of(text, kw), consts=consts, levels=levels)


pool = NamesPool('c17', [], CFG)
pool.n = {'quick': 5, 'thorough': 40}


def prepare(tier, seed):
    pyxpool.compile_all([pool.get(k, seed)[0] for k in range(pool.count(tier))] + [t for k, t in PYX_FINDINGS])


def check_domain(files, L):
    for fn in sorted(files):        # capnp refuses some groups, a bug of its past
        if fn != 'sch.capnp' and len(files) > 1:
            layout_of({'files': files, 'kw': {'main': fn}})
    for sid, x in L['structs'].items():     # see KNOWN_FINDINGS.txt
        if not sid.startswith('vg:'):
            groups = set(f['py'].capitalize() for f in x['fields'] if f['kind'] == 'group')
            if groups & set(n[1] for n in L['nodes'][sid]['nested']):
                raise hypothesis.errors.UnsatisfiedAssumption()


def make(g, tier):
    if g.chance(20):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode']
        L = layout_of(case)
    else:
        files, kw, consts, levels = gen_text(g)
        case = {'files': files, 'kw': kw, 'consts': consts, 'levels': levels}
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
        L = layout_of(case)
        check_domain(files, L)
    objs = []
    for k in range(g.int(1, 3)):
        sid = g.pick(gen.plain_structs(L))
        ctor = gen.ctorable(L, sid) and g.chance(50)
        vg = gen.ValueGen(g, L, ctor=ctor, full=g.chance(60) or not ctor, budget=20)
        o = {'s': L['structs'][sid]['name'], 'ctor': ctor, 'v': vg.struct(sid)}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
        objs.append(o)
    case['objs'] = objs
    return case


def absent_names(L):
    """{struct, group or enum id: the names which the members do not have}"""
    out = {}
    for sid, s in L['structs'].items():
        if sid.startswith('vg:'):
            continue
        have = set()
        for f in s['fields']:
            have |= {f['py'], f['py'].capitalize(), f['py'].capitalize() + '_'}
            have |= {p + f['py'] for p in ('is_', 'has_', 'get_', 'new_', '_')}
        have |= {x[1] for x in L['nodes'][sid]['nested']}
        no = set()
        for f in s['fields']:
            no |= {layout.pyname(f['name'], c) for c in (True, False)} | {f['name'], layout.snake(f['name'])}
        out[sid] = sorted(x for x in no - have if not x.startswith('__') and x not in BASE)
    for eid, e in L['enums'].items():
        no = set()
        for x in e['items']:
            no |= {layout.pyname(x, c) for c in (True, False)} | {x, layout.snake(x)}
        out[eid] = sorted(x for x in no - set(e['py']) if x not in BASE)
    return out


# attributes of every struct, enum or int
BASE = set(dir(int)) | AVOID | set('name which compact'.split())


def run(case, ctx):
    labels = set('options on ' + x if 'files' not in x else x for x in case['levels'])
    if len(case['levels']) >= 2 or len(case['files']) > 1:
        labels.add('nt')
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        absent = absent_names(L)
        prog, what, wires = [], {}, []

        def add(p, w):
            prog.append(p)
            what[len(prog) - 1] = w
            return len(prog) - 1
        for sid in sorted(L['path']):
            fn = os.path.basename(L['nodes'][sid]['display'].split(':')[0])
            if fn in case['files']:
                add(['names_type', S.key, sid, absent.get(sid, []) if sid in L['enums'] else
                     [x for x in absent.get(sid, []) if x not in BASE]], 'type ' + L['nodes'][sid]['display'])
        consts = {}
        for path, v in case['consts']:
            p = [layout.keyword_safe(x) for x in path]
            nid = None
            if v is None:
                nid = L['byname']['.'.join(path)]
            consts[add(['names_path', S.key, p, nid], '.'.join(path))] = v
            labels.add('constant' if v is not None else 'annotation')
        for x in case['objs']:
            sid = S.id(x['s'])
            v = complete(L, sid, x['v'])
            if x['ctor']:
                reg = add(['build', S.key, sid, x['v'], {}], 'constructor of ' + x['s'])
                labels.add('constructor')
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                reg = add(['loads', S.key, sid, msg.decode('latin-1')], 'loads ' + x['s'])
            add(['names_walk', S.key, sid, {'$': reg}, absent], 'names in ' + x['s'])
            k = add(['observe', S.key, sid, {'$': reg}], 'values of ' + x['s'])
            wires.append((k, v, x['s']))
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            got = val(a, what[i], config)
            if i in consts and consts[i] is not None and got != consts[i]:
                raise Violation('[%s] constant %s is %r instead of %r' % (config, what[i], got, consts[i]))
        for i, v, name in wires:
            expect_same(r[i]['v'], v, 'values of ' + name, config)
    return labels


def nontrivial(labels):
    return 'nt' in labels
