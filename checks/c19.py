"""C19: reflection data describes the schema"""
import re

import hypothesis

import c17
import gen
import layout
import pyxpool
import wire
from common import *
from driver import RandG

ID = 'C19'
PLUGINS = ['ops_reflect.py']
RULE = ('random schemas (one or several files, options at all levels, odd names, groups, unions, virtual groups) '
        'where files, structs, fields, groups, unions, enums, enumerants, constants and annotations have random '
        'annotations of all types, also declared in other scopes and files. The nodes, fields, enumerants, '
        'names and all the combinations of an entity and an annotation class, against the description of the '
        'schema by `capnp compile` read by an independent decoder. non-trivial: at least 3 annotations on '
        'different kinds of things')
EXAMPLES = {'quick': 3000, 'thorough': 50000}
SECONDS = {'quick': 25, 'thorough': 900}

ATYPES = ['Void', 'Bool', 'Int8', 'Int16', 'Int32', 'Int64', 'UInt8', 'UInt16', 'UInt32', 'UInt64', 'Float32',
          'Float64', 'Text', 'Data', 'AnnKind', 'AnnVal']
DECLS = '''enum AnnKind { plain @0; someOther @1; third @2; }
struct AnnVal { num @0 :Int32 = 7; txt @1 :Text; lst @2 :List(Int8); kind @3 :AnnKind; sub @4 :AnnVal; }'''


def value(g, t, depth=0):
    """The literal of a random value, or '' for void"""
    if t == 'Void':
        return ''
    if t == 'Bool':
        return g.pick(['true', 'false'])
    if t in gen.INTS:
        return '%d' % g.pick([0, 1, gen.gen_int(g, t)])
    if t in ('Float32', 'Float64'):
        return g.pick(['0', '-1.5', '2.5e10', 'inf', 'nan', '0.1' if t == 'Float64' else '0.5'])
    if t == 'Text':
        return g.pick(['""', '"x"', '"hello world"', '"a\\nb\\"{}%s"', '"%s"' % ('long' * 100)])
    if t == 'Data':
        return g.pick(['""', '0x"00 ff 61"', '0x"0a"'])
    if t == 'AnnKind':
        return g.pick(['plain', 'someOther', 'third'])
    fs = []
    if g.chance(60):
        fs.append('num = %d' % g.int(-5, 5))
    if g.chance(50):
        fs.append('txt = %s' % value(g, 'Text'))
    if g.chance(40):
        fs.append('lst = [%s]' % ', '.join(str(g.int(-3, 3)) for _ in range(g.int(0, 4))))
    if g.chance(40):
        fs.append('kind = third')
    if depth < 2 and g.chance(40):
        fs.append('sub = (%s)' % value(g, 'AnnVal', depth + 1))
    return ', '.join(fs) if depth else '(%s)' % ', '.join(fs)


TARGETS = ['file', 'struct', 'field', 'group', 'union', 'enum', 'enumerant', 'const', 'annotation',
           'annotation', 'interface', 'method']


class Deco(object):
    """Declares annotations and applies them: the decorate() of c17.gen_text()"""

    def __init__(self):
        self.decls = {}         # file number -> [(reference inside of the file, type)]
        self.count = 0
        self.kinds = set()

    def __call__(self, g, i, names, s, ast, used):
        pre = ['', 'Ot', 'Th'][i]
        mine = []
        if g.chance(80):
            for t in DECLS.split('\n'):
                ast['nodes'].append({'k': 'text', 'text': t.replace('AnnKind', 'AnnKind%d' % i)
                                     .replace('AnnVal', 'AnnVal%d' % i)})
            types = ATYPES
        else:
            types = ATYPES[:-2]
        for k in range(g.int(2, 7)):
            t = g.pick(types)
            n = g.pick(['ann', 'myNote', 'dbTable', 'is', 'class', 'f']) + ('' if g.chance(15) else '%d' % k)
            if any(x[2] == n and not x[3] for x in mine):
                continue
            par = g.pick(s.structs) if g.chance(25) else None
            targets = '*'
            if g.chance(45):
                targets = g.shuffled(TARGETS)[:g.int(1, 4)]
            text = {'k': 'text', 'nth': len(mine), 'text': 'annotation %s(%s) :%s;' % (n, ', '.join(targets), t.replace('Ann', 'Ann') + (
                str(i) if t.startswith('Ann') else ''))}
            if par:
                par[0].setdefault('nested', []).append(text)
                full = par[1] + '.' + n
                if any(x[0] == full for x in mine):
                    par[0]['nested'].pop()
                    continue
                taken = [f['name'] for f in par[0]['body']]
                if n in taken:
                    par[0]['nested'].pop()
                    continue
            else:
                ast['nodes'].append(text)
                full = n
            mine.append((full, t, n, par is not None, targets))
        self.decls[i] = [(re.sub(r'\b((?:St|En)\d+)', pre + r'\1', x[0]), x[1], x[4]) for x in mine]
        usable = [('.' + x[0], x[1], x[4]) for x in mine]
        for k in used:
            usable += [('IO'[k % 2] + 'mp%d.' % k + x[0], x[1], x[2]) for x in self.decls.get(k, [])]
        if not usable:
            return
        rate = g.pick([20, 40, 60])

        def some(kind, rate=rate, usable=usable):
            out = []
            usable = [(r, t) for r, t, targets in usable if targets == '*' or kind in targets]
            if usable and g.chance(rate):
                for ref, t in g.shuffled(usable)[:g.pick([1, 1, 2, 4])]:
                    out.append('$%s(%s)' % (ref.lstrip('.') if t != 'x' else ref, value(g, t)) if t != 'Void'
                               else '$' + ref.lstrip('.'))
                self.count += len(out)
                if i == 0:
                    self.kinds.add(kind)
            return out

        def put(x, key, kind):
            a = some(kind)
            if a:
                x[key] = g.shuffled((x.get(key) or []) + a)

        def fields(body):
            for f in body:
                if f['k'] == 'slot':
                    put(f, 'ann', 'field')
                elif f['name']:
                    put(f, 'ann', f['k'])
                    fields(f['body'])
                else:
                    fields(f['body'])

        def visit(nodes):
            for n in nodes:
                if n['k'] == 'struct':
                    put(n, 'ann', 'struct')
                    fields(n['body'])
                    visit(n.get('nested') or [])
                elif n['k'] == 'enum':
                    put(n, 'ann', 'enum')
                    n['item_anns'] = [some('enumerant') for _ in n['items']]
                elif n['k'] == 'text' and n['text'].startswith(('const', 'annotation')):
                    # an annotation cannot depend on itself
                    n['text'] = n['text'][:-1] + layout.rann(
                        some(n['text'].split()[0], rate, usable[:n.get('nth', len(usable))])) + ';'
        visit(ast['nodes'])
        put(ast, 'ann', 'file')


def gen_text(g, one=False):
    d = Deco()
    files, kw, consts, levels = c17.gen_text(g, one, d)
    if not one and g.chance(6):
        kw['options'] = dict(kw.get('options') or {}, include_reflection_data=False)
    return files, kw, sorted(d.kinds)


HAND = '''@0xd1a2b3c4d5e6f708;
using Py = import "/capnpy/annotate.capnp";
annotation note(*) :Text;
struct Vg $note("a struct") {
  x @0 :Int32 $note(""); y @1 :Text; pair @2 :Void $Py.group("x, y") $Py.key("y");
  other @3 :Void $Py.group("y") $note("virtual");
  g :group $note("a group") { a @4 :Int8 $note("in a group"); b @5 :Vg; }
  nul :group $Py.nullable $note("nullable") { isNull @6 :Bool; value @7 :Int8; }
  u :union $note("union") { c @8 :Void $note("void"); d @9 :Text; }
  union { e @10 :Bool; f @11 :List(Vg) $note("in an anonymous union"); }
  struct In $Py.options(convertCase=false) { camelCase @0 :Int8; keepIt :group { aB @1 :Int8; } }
  inner @12 :In; someURL @13 :Col $Py.options(convertCase=false);
}
enum Col $note("enum") { aRed @0 $note("red"); aGreen @1; class @2 $note(""); }
const num :Int8 = 3 $note("const"); const lst :List(Vg) = [(x = 1)] $note("list");
$note("file");
'''


class ReflectPool(Pool):
    def get(self, k, seed):
        if k == 0:
            fn = pyxpool.name_of(HAND) + '.capnp'
            return HAND, {'opts': {fn + ':': [True, False], fn + ':Vg.In': [False, False],
                                   fn + ':Vg#someURL': [False, False]}}, ['field', 'struct', 'file', 'group', 'enum']
        if (k, seed) not in self._gen:
            g = RandG('c19-%d-%d' % (seed, k))
            while True:
                try:
                    files, kw, kinds = gen_text(g, one=True)
                    c17.check_domain(files, layout_of({'files': files, 'kw': kw}))
                except hypothesis.errors.UnsatisfiedAssumption:
                    continue
                break
            text = files['sch.capnp']
            fn = pyxpool.name_of(text) + '.capnp'
            kw['opts'] = {fn + o[len('sch.capnp'):]: x for o, x in kw['opts'].items()}
            self._gen[k, seed] = text, kw, kinds
        return self._gen[k, seed]

    def case(self, g, tier):
        seed = int(os.environ.get('VERIF_SEED', '1'))
        text, kw, kinds = self.get(g.int(0, self.count(tier) - 1), seed)
        return dict(pyxpool.case_of(text, kw), kinds=kinds)


pool = ReflectPool('c19', [], c17.CFG)
pool.n = {'quick': 4, 'thorough': 40}
prepare = pool.prepare


def make(g, tier):
    if g.chance(20):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode']
        L = layout_of(case)
    else:
        files, kw, kinds = gen_text(g)
        case = {'files': files, 'kw': kw, 'kinds': kinds}
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
        L = layout_of(case)
        c17.check_domain(files, L)
    objs = []
    for k in range(g.int(0, 2)):
        sid = g.pick(gen.plain_structs(L))
        vg = gen.ValueGen(g, L, ctor=False, full=g.chance(60), budget=15)
        objs.append({'s': L['structs'][sid]['name'], 'v': vg.struct(sid)})
    case['objs'] = objs
    return case


def entities(L, main):
    """-> (nodes, annotation classes)"""
    ents, anns = [], []
    for nid, n in sorted(L['nodes'].items(), key=lambda x: (x[1]['display'], x[0])):
        fn = os.path.basename(n['display'].split(':')[0])
        here = fn == main
        if n['display'].split(':')[0].endswith('capnpy/annotate.capnp'):
            if n['kind'] == 'annotation':
                anns.append((nid, ['!capnpy.annotate', n['name']]))
            continue
        e = {'id': nid, 'display': n['display'], 'kind': n['kind'], 'scope': n['scope'], 'nested': n['nested'],
             'anns': n['anns']}
        if n['kind'] == 'file':
            if not here:
                continue
        elif nid in L['path']:
            e['path'] = L['path'][nid]
        elif n['kind'] in ('annotation', 'const'):
            e['path'] = ([] if here else ['@' + fn]) + [layout.keyword_safe(x) for x in n['name'].split('.')]
            if n['kind'] == 'annotation':
                anns.append((nid, e['path']))
        if not here and n['kind'] != 'annotation':
            # names depend on the options of the other file, which have no part here
            continue
        ents.append(e)
    return ents, anns


def run(case, ctx):
    labels = set('annotations on a %s' % x for x in case['kinds'])
    if len(case['kinds']) >= 3:
        labels.add('nt')
    main = case['kw'].get('main', 'sch.capnp')
    if len(case['files']) > 1:
        labels.add('several files')
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        if (case['kw'].get('options') or {}).get('include_reflection_data') is False:
            r = ctx.run(config, [['reflect_none', S.key]])
            if val(r[0], 'get_reflection_data()', config) != 'ValueError':
                raise Violation('[%s] no ValueError without reflection data' % config)
            labels.add('without reflection data')
            continue
        if len(wire.unframe(S.request)) > 1:
            labels.add('description in several segments')
        ents, anns = entities(L, main)
        prog = [['reflect', S.key, ents, anns, sorted(L['nodes'])]]
        for x in case['objs']:
            sid = S.id(x['s'])
            msg = wire.frame(wire.Encoder(L, {}).encode(sid, x['v']))
            prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            prog.append(['reflect_object', S.key, sid, {'$': len(prog) - 1}])
        prog.append(prog[0])
        r = ctx.run(config, prog)
        for i, a in enumerate(r):
            val(a, prog[i][0], config)
    return labels


def nontrivial(labels):
    return 'nt' in labels
