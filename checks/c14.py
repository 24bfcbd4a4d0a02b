"""C14: shortrepr() is faithful capnp text"""
import os
import re
import subprocess

import gen
import layout
import wire
from common import *

ID = 'C14'
RULE = ('random schemas (enums, groups, unions, nullable groups, options, odd names) and values (control '
        'characters, quotes, non-ASCII text, binary data, limits of the integers, infinities, NaN, '
        'denormals), loaded from random layouts or built; the text of the objects, of sub-objects, lists '
        'and groups is given to `capnp encode` and the resulting message compared with the value. '
        'non-trivial: at least 4 kinds of fields/values are exercised')
EXAMPLES = {'quick': 3000, 'thorough': 40000}
SECONDS = {'quick': 30, 'thorough': 900}
CFG = dict(groups=14, unions=18, nullable=4, vgroups=8, enums=2, default=40, void_lists=True)

POOL = [('''
enum Color { red @0; darkGreen @1; class @2; name @3; }
struct Point { x @0 :Int64; y @1 :Int64; }
struct Repr {
  i8 @0 :Int8 = -3; u8 @1 :UInt8; i64 @2 :Int64; u64 @3 :UInt64; f32 @4 :Float32; f64 @5 :Float64 = 0.5; b @6 :Bool;
  t @7 :Text; d @8 :Data; color @9 :Color = darkGreen; point @10 :Point; v @11 :Void;
  aLongName :group { isNull @12 :Int8; theText @13 :Text; pass @14 :Bool = true; }
  nul :group $Py.nullable { isNull @15 :Bool; value @16 :Float32; }
  union { one @17 :Text; two @18 :Data; three @19 :List(Text); four @20 :Point; five @21 :Void; six @22 :Color;
          seven :group { x @23 :Int8; y @24 :Text; } eight :group $Py.nullable { isNull @25 :Int8; value @26 :Int8; } }
  named :union { a @27 :Bool; b @28 :Float64; c :group { d @29 :Int8; e @30 :List(Point); } }
  l1 @31 :List(Int8); l2 @32 :List(UInt64); l3 @33 :List(Float32); l4 @34 :List(Float64); l5 @35 :List(Bool); l6 @36 :List(Text);
  l7 @37 :List(Data); l8 @38 :List(Color); l9 @39 :List(Repr); l10 @40 :List(List(Int16)); l11 @41 :List(List(Data)); l12 @42 :List(Void);
  sub @43 :Repr;
}
''', {}), ('''
$Py.options(textType=unicode, convertCase=false);
struct Uni { oneText @0 :Text; twoSub @1 :Uni; threeList @2 :List(Text); four @3 :Data; five @4 :Int8 = 5; six @5 :List(List(Text));
  union { firstText @6 :Text; secondText @7 :Text; } k @8 :Kind; ks @9 :List(Kind); enum Kind { someKind @0; otherKind @1; } }
''', {'unicode_': True, 'convert': False})]
pool = Pool('c14', POOL, CFG)
prepare = pool.prepare


def list_and_group_fields(L, sid, v):
    s = L['structs'][sid]
    out = []
    for f in s['fields']:
        if f['kind'] == 'group' and v.get(f['name']) is not None and not f.get('nullable'):
            out.append(f['name'])
        elif f['kind'] == 'slot' and isinstance(f['type'], list) and v.get(f['name']) is not None and \
                f['type'][0] in ('list', 'enum'):
            out.append(f['name'])
    return out


def make(g, tier):
    if not g.chance(65):
        case = pool.case(g, tier)
        case['configs'] = ['pyxmode'] if g.chance(75) else [g.pick(['pyx', 'pure'])]
    else:
        case = gen_case_schema(g, **CFG)
        case['configs'] = g.weighted([(['pyx'], 5), (['pure'], 4), (['pypy'], 2)])
    L = layout_of(case)
    objs = []
    roots = gen.plain_structs(L)
    for k in range(g.int(1, 4)):
        sid = g.pick(roots)
        ctor = gen.ctorable(L, sid) and g.chance(40)
        odd = not ctor and g.chance(15)      # not expressible: only to see that it can be printed
        vg = gen.ValueGen(g, L, ctor=ctor, full=not ctor, budget=12, null=g.pick([10, 30]), nul=g.chance(20),
                          unknown_enum=15 * odd, unknown_tag=15 * odd)
        o = {'odd': odd, 's': L['structs'][sid]['name'], 'ctor': ctor, 'v': vg.struct(sid)}
        if not ctor:
            o['plan'] = gen.gen_plan(g)
        v = complete(L, sid, o['v'])
        path, cur = [], sid
        while g.chance(30):
            ways = wire.struct_steps(L, cur, v)
            if not ways:
                break
            step, p, cur, v = g.pick(ways)
            path += p
        o['path'], o['sub'] = path, L['structs'][cur]['name']
        fs = list_and_group_fields(L, cur, v)
        if fs:
            o['field'] = g.pick(fs)
        objs.append(o)
    case['objs'] = objs
    return case


def shown(L, sid, v):
    """The value which the text can express: null members of unions are shown as
    their empty value, unless they are the first one"""
    s = L['structs'][sid]
    out = dict(v)
    for f in s['fields']:
        if f['name'] not in v or f.get('vgroup'):
            continue
        x = v[f['name']]
        if f['kind'] == 'group':
            out[f['name']] = shown(L, f['gid'], x)
        elif f['disc'] and is_ptr(f['type']) and x is None:
            t = f['type']
            out[f['name']] = '' if isinstance(t, str) else [] if t[0] == 'list' else \
                complete(L, t[1], {})
        else:
            out[f['name']] = shown_value(L, f['type'], x)
    return out


def shown_value(L, t, x):
    if x is None or isinstance(t, str):
        return x
    if t[0] == 'struct':
        return shown(L, t[1], x)
    if t[0] == 'list':
        return [shown_value(L, t[1], y) for y in x]
    return x


def messages(out):
    """the messages of a stream"""
    import struct as st
    i = 0
    while i < len(out):
        n = st.unpack_from('<I', out, i)[0] + 1
        h = (4 + 4 * n + 7) // 8 * 8
        size = h + 8 * sum(st.unpack_from('<%dI' % n, out, i + 4))
        yield out[i:i + size]
        i += size


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"')


def sanitized(text):
    """capnp encode looks for the end of a message by counting the brackets, even
    those inside strings (and comments): escape them"""
    def literal(m):
        return re.sub(r'\\.|[#()\[\]]', lambda c: c.group() if len(c.group()) > 1 else '\\x%02x' % ord(c.group()),
                      m.group(), flags=re.S)
    return TOKEN.sub(literal, text)


def encode(S, name, text):
    text = sanitized(text)
    p = subprocess.run(['capnp', 'encode', '-I' + layout.import_dir(), os.path.join(S.dir, S.main), name],
                       input=text.encode('utf-8', 'surrogateescape'), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout, p.stderr.decode('utf-8', 'replace')


def walk(L, sid, v, path):
    """the object at the end of the path"""
    cur, x = sid, v
    while path:
        for step, p, c2, v2 in wire.struct_steps(L, cur, x):
            if list(p) == list(path[:len(p)]):
                cur, x, path = c2, v2, path[len(p):]
                break
        else:
            raise Skip('path')
    return cur, x


def run(case, ctx):
    labels = set()
    for config in case['configs']:
        S = sch(ctx, case, config)
        L = S.L
        ctx.load(config, S)
        labels.add('config ' + config)
        prog, info = [], []
        for x in case['objs']:
            sid = S.id(x['s'])
            v = complete(L, sid, x['v'])
            if x['ctor']:
                prog.append(['build', S.key, sid, x['v'], {}])
            else:
                msg = wire.frame(wire.Encoder(L, x['plan']).encode(sid, x['v']))
                prog.append(['loads', S.key, sid, msg.decode('latin-1')])
            reg = len(prog) - 1
            cur, cv = walk(L, sid, v, x['path'])
            prog.append(['path', {'$': reg}, x['path']])
            sub = len(prog) - 1
            prog.append(['shortrepr', {'$': sub}])
            prog.append(['repr', {'$': sub}])
            i = {'at': len(prog) - 2, 's': L['structs'][cur]['name'], 'sid': cur, 'v': cv}
            if x.get('odd'):
                labels.add('config: unknown enumerants or tags')
                i['odd'] = True
                info.append(i)
                continue
            labels |= gen.labels_of(L, sid, v)
            if x['path']:
                labels.add('config: sub-object')
            if x.get('field'):
                f = [f for f in L['structs'][cur]['fields'] if f['name'] == x['field']][0]
                prog.append(['path', {'$': sub}, [f['py']]])
                prog.append(['shortrepr', {'$': len(prog) - 1}])
                i['field'], i['fat'] = f, len(prog) - 1
                labels.add('config: text of ' + (f['kind'] if f['kind'] == 'group' else f['type'][0]))
            info.append(i)
        r = ctx.run(config, prog)
        texts = {}
        for i in info:
            t = val(r[i['at']], 'shortrepr() of %s' % i['s'], config)
            rep = val(r[i['at'] + 1], 'repr() of %s' % i['s'], config)
            if t not in rep:
                raise Violation('[%s] repr() %r does not contain shortrepr() %r' % (config, rep, t))
            if i.get('odd'):
                continue
            texts.setdefault(i['s'], []).append((t, i['sid'], shown(L, i['sid'], i['v']), 'shortrepr() of ' + i['s']))
            if i.get('field'):
                f = i['field']
                t = '(%s = %s)' % (f['name'], val(r[i['fat']], 'shortrepr() of %s.%s' % (i['s'], f['name']), config))
                w = {f['name']: i['v'][f['name']]}
                if f['disc'] is not None:
                    w['#'] = f['name']
                w = complete(L, i['sid'], w)
                texts[i['s']].append((t, i['sid'], shown(L, i['sid'], w), 'shortrepr() of %s.%s' % (i['s'], f['name'])))
        for name, ts in texts.items():
            rc, out, err = encode(S, name, '\n'.join(t for t, _, _, _ in ts))
            if rc:
                raise Violation('[%s] capnp encode does not accept the text of %s: %s\n%s'
                                % (config, name, err[:400], '\n'.join(t for t, _, _, _ in ts)[:600]))
            msgs = list(messages(out))
            if len(msgs) != len(ts):
                raise Violation('[%s] capnp encode read %d messages instead of %d from the text of %s: %s'
                                % (config, len(msgs), len(ts), name, '\n'.join(t for t, _, _, _ in ts)))
            for m, (t, sid, want, what) in zip(msgs, ts):
                expect_same(wire.read(L, sid, m), want, '%s: %s' % (what, t[:300]), config)
    return labels


def nontrivial(labels):
    return len([x for x in labels if not x.startswith('config')]) >= 4
