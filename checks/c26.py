"""C26: capnpy decode and print_buffer show what is in the data"""
import re
import struct

import gen
import wire
import c14
from common import *

ID = 'C26'
RULE = ('`capnpy decode` of streams of 0 to 6 messages (random schemas and layouts, several segments, schemas in '
        'packages or which import others, every combination of options, complete or cut at any byte), in the '
        'process or as a command: its output against the reference values, through `capnp encode`, and '
        'against shortrepr(); print_buffer of random buffers and messages against an independent rendering. '
        'non-trivial: a stream with at least 2 messages or cut, or a buffer of at least 3 words')
EXAMPLES = {'quick': 2500, 'thorough': 40000}
SECONDS = {'quick': 28, 'thorough': 600}
PLUGINS = ['ops_cli.py']
CFG = dict(groups=14, unions=18, nullable=4, vgroups=4, enums=2, default=40)
OPTS = ['--no-convert-case', '--text-type=unicode', '--text-type=bytes', '--no-version-check', '--no-reflection']


def make(g, tier):
    if g.chance(35):
        return make_buffer(g)
    case = gen_case_schema(g, **CFG)
    case['what'] = 'decode'
    case['config'] = g.weighted([('pyx', 5), ('pure', 4), ('pypy', 2)])
    L = layout_of(case)
    sid = g.pick([i for i in gen.plain_structs(L) if len(L['path'][i]) == 1])     # not nested
    case['s'] = L['structs'][sid]['name']
    case['msgs'] = []
    for _ in range(g.pick([2, 3, 0, 1, 2, 4, 5, 6])):
        v = gen.ValueGen(g, L, ctor=False, full=True, budget=g.pick([1, 3, 10]), null=g.pick([10, 30])).struct(sid)
        case['msgs'].append({'v': v, 'plan': gen.gen_plan(g)})
    case['cut'] = None
    if case['msgs'] and g.chance(40):
        case['cut'] = g.int(1, 1 << 20)         # modulo the size
    case['dir'] = g.pick(['', '', 'pkg/', 'pkg/sub_1/', '_x/'])
    case['opts'] = [o for o in OPTS if g.chance(30)]
    if '--text-type=unicode' in case['opts'] and '--text-type=bytes' in case['opts']:
        case['opts'].remove('--text-type=bytes')
    case['sub'] = not g.chance(95)
    return case


def make_buffer(g):
    case = {'what': 'buffer', 'config': g.weighted([('pyx', 5), ('pure', 4), ('pypy', 2)]), 'words': []}
    n = g.pick([0, 1, 2, 3, 5, 8, 20, 60])
    for _ in range(n):
        k = g.pick(['struct', 'list', 'bytes', 'float', 'int', 'zero', 'ascii', 'far'])
        off = g.pick([0, 1, -1, g.int(-20, 100), g.int(-1 << 29, (1 << 29) - 1)])
        if k == 'struct':
            w = (off & 0x3fffffff) << 2 | g.pick([0, 1, 2, 99, 100, 65535]) << 32 | g.pick([0, 1, 5, 99, 100, 65535]) << 48
        elif k == 'list':
            w = (off & 0x3fffffff) << 2 | 1 | g.int(0, 7) << 32 | \
                g.pick([0, 1, 5, 65535, 65536, (1 << 29) - 1, g.int(0, 1000)]) << 35
        elif k == 'far':
            w = 2 | g.int(0, 1) << 2 | g.pick([0, 7, (1 << 29) - 1]) << 3 | g.pick([0, 1, 99, 100, (1 << 32) - 1]) << 32
        elif k == 'float':
            w = struct.unpack('<Q', struct.pack('<d', g.pick([0.0, -0.0, 1.0, 0.1, -2.5, 1e300, 1e-300, 5e-324, 12345678.5,
                                                              float('inf'), float('-inf'), float('nan'), -1e7,
                                                              float(g.int(-1000, 1000)) / 8])))[0]
        elif k == 'int':
            w = g.pick([65535, 65536, 1, 3, (1 << 63), (1 << 64) - 1, g.int(0, (1 << 64) - 1)])
        elif k == 'zero':
            w = 0
        else:
            b = g.bytes(8) if k == 'bytes' else g.pick([b'hello wo', b'\x7f~ \x1f\x80a0Z', b'A\\\'"%\n\t['])
            w = struct.unpack('<Q', b[:8].ljust(8, b'\0'))[0]
        case['words'].append(w)
    case['start'] = g.pick([0, 0, 8, 8 * g.int(0, n)])
    case['end'] = g.pick([None, None, 8 * g.int(0, n)])
    case['human'] = g.chance(75)
    case['how'] = g.pick(['class', 'function'])
    return case


def run(case, ctx):
    return run_decode(case, ctx) if case['what'] == 'decode' else run_buffer(case, ctx)


def run_decode(case, ctx):
    config = case['config']
    S = sch(ctx, case, config)
    L = S.L
    ctx.load(config, S)
    sid = S.id(case['s'])
    labels = {'config ' + config, 'decode'}
    msgs = [wire.frame(wire.Encoder(L, m['plan']).encode(sid, m['v'])) for m in case['msgs']]
    data = b''.join(msgs)
    cut = case['cut'] and 1 + case['cut'] % len(data)
    stream = data[:len(data) - (cut or 0)]
    n = pos = 0
    while n < len(msgs) and pos + len(msgs[n]) <= len(stream):
        pos += len(msgs[n])
        n += 1
    end = 'end' if pos == len(stream) else 'ValueError'
    d = case['dir']
    files = dict((d + k, v) for k, v in case['files'].items())
    opts = list(case['opts'])
    if config == 'pyx' or case['sub']:
        opts.append('--no-pyx')
    prog = []
    for m in msgs[:n]:
        prog.append(['loads', S.key, sid, m.decode('latin-1')])
        prog.append(['shortrepr', {'$': len(prog) - 1}])
    prog.append(['cli_decode', files, stream.decode('latin-1'), d + 'sch.capnp', L['path'][sid][-1], opts, case['sub']])
    r = ctx.run(config, prog)
    texts = [val(r[2 * i + 1], 'shortrepr()', config) for i in range(n)]
    out, how = val(r[-1], 'capnpy decode %s' % ' '.join(opts), config)
    what = 'capnpy decode %s of %d messages' % (' '.join(opts), n)
    if how != end:
        raise Violation('[%s] %s ends with %s instead of %s' % (config, what, how, end))
    lines = out.split('\n')
    if lines[-1]:
        raise Violation('[%s] %s: no newline at the end of the output: %r' % (config, what, out[-200:]))
    lines = lines[:-1]
    if len(lines) != n:
        raise Violation('[%s] %s prints %d lines: %r' % (config, what, len(lines), out[:500]))
    for i, (a, b) in enumerate(zip(lines, texts)):
        if a != b:
            raise Violation('[%s] %s: line %d is %s\ninstead of %s' % (config, what, i, a[:400], b[:400]))
    if n:
        rc, enc, err = c14.encode(S, case['s'], out)
        if rc:
            raise Violation('[%s] %s: capnp encode does not accept the output: %s\n%s'
                            % (config, what, err[:400], out[:600]))
        got = list(c14.messages(enc))
        if len(got) != n:
            raise Violation('[%s] %s: capnp encode found %d messages' % (config, what, len(got)))
        for i, (m, x) in enumerate(zip(got, case['msgs'])):
            expect_same(wire.read(L, sid, m), c14.shown(L, sid, complete(L, sid, x['v'])),
                        '%s: message %d, %s' % (what, i, lines[i][:300]), config)
    labels |= set('option ' + o for o in opts)
    labels.add('%d messages' % min(n, 2))
    if cut:
        labels.add('cut, then ' + end)
    if case['sub']:
        labels.add('as a command')
    if d:
        labels.add('in a package')
    return labels


HEX = r'((?:[0-9A-F]{2} ){7}[0-9A-F]{2})'
LINE = re.compile(r'^ *(\d+):  ' + HEX + r'  (.{8})  (.{0,40}?) +(\S+) *  (-?\d+)$', re.S)
TAGS = ['v', 'bit', '8', '16', '32', '64', 'ptr', 'cmp']


def sbits(x, n):
    return x - (1 << n) if x >> (n - 1) else x


def pointer_text(w, pos):
    """What is shown of a pointer; None: not checked"""
    if w == 0:
        return 'NULL'
    kind = w & 3
    if kind == 3:
        return ''
    if kind == 2:
        return None

    def small(x, n):
        return str(x) if x < n else '?'
    off = sbits(w >> 2 & 0x3fffffff, 30)
    dest = str(pos + 8 + 8 * off) if -1000 < off < 1000 else '?'
    if kind == 0:
        return 'struct %s %s to %s' % (small(w >> 32 & 0xffff, 100), small(w >> 48, 100), dest)
    return 'list<%s> %s to %s' % (TAGS[w >> 32 & 7], small(w >> 35, 65536), dest)


def run_buffer(case, ctx):
    config = case['config']
    ws = case['words']
    start, end = case['start'], case['end']
    if case['how'] == 'function':
        end = None
    data = struct.pack('<%dQ' % len(ws), *ws)
    r = ctx.run(config, [['print_buffer', data.decode('latin-1'), start, end, case['human'], case['how']]])
    out = val(r[0], 'print_buffer', config)
    todo = list(range(start, len(data) if end is None else end, 8))
    labels = {'config ' + config, 'print_buffer', 'human' if case['human'] else 'repr', '%d words' % min(3, len(todo))}

    def bad(s, *a):
        raise Violation('[%s] print_buffer: %s\n%s' % (config, s % a, out[:800]))
    if not case['human']:
        lines = out.split('\n')[:-1]
        if len(lines) != len(todo):
            bad('%d lines instead of %d', len(lines), len(todo))
        for pos, line in zip(todo, lines):
            m = re.match(r"^ *(\d+): (b?'.*'|b?\".*\")$", line)
            if not m or int(m.group(1)) != pos or len(m.group(1)) < 5 and not line.startswith(' ' * (5 - len(m.group(1)))):
                bad('line %r', line)
            body = m.group(2)
            v = eval(body if body.startswith('b') else 'b' + body)
            if v != data[pos:pos + 8]:
                bad('the word at %d is shown as %s', pos, body)
        return labels
    # 0x7f is shown as it is
    lines = out.split('\n')
    if len(lines) != len(todo) + 2 or lines[-1] or 'Offset' not in lines[0]:
        bad('%d lines instead of %d', len(lines), len(todo) + 2)
    for pos, line in zip(todo, lines[1:]):
        m = LINE.match(line)
        if not m:
            bad('line %r', line)
        b, w = data[pos:pos + 8], ws[pos // 8]
        if int(m.group(1)) != pos or bytes(bytearray.fromhex(m.group(2).replace(' ', ''))) != b:
            bad('the word at %d is shown as %r', pos, line)
        if m.group(3) != ''.join(chr(c) if 32 <= c <= 127 else '.' for c in bytearray(b)):
            bad('text of the word at %d: %r', pos, m.group(3))
        p = pointer_text(w, pos)
        if p is not None and ' '.join(m.group(4).split()) != p:
            bad('pointer at %d: %r instead of %r', pos, m.group(4), p)
        if int(m.group(6)) != sbits(w, 64):
            bad('integer at %d: %s', pos, m.group(6))
        x, y = struct.unpack('<d', b)[0], float(m.group(5))
        if not (x == y or x != x and y != y or abs(x - y) <= abs(x) * .006 or abs(x) < 1e-305 and abs(y) < 1e-305):
            bad('float at %d: %s instead of %r', pos, m.group(5), x)
    return labels


def nontrivial(labels):
    return bool({'2 messages', 'cut, then ValueError', '3 words'} & set(labels))
