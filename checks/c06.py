"""C06: the buffered readers are the concatenation of the chunks"""
import io

from common import *

ID = 'C06'
PLUGINS = ['ops_stream.py']
RULE = ('random data with newlines split in random chunks, and a random sequence of read(n), '
        'read(-1), read() and readline() on BufferedStream, BufferedSocket (fake and real sockets) '
        'and StringBuffer, compared call by call with io.BytesIO; random write/flush sequences, alone or '
        'interleaved with reads on the same socket. '
        'non-trivial: at least 2 chunks and 3 calls which return data (or 2 writes)')
EXAMPLES = {'quick': 16000, 'thorough': 400000}
SECONDS = {'quick': 25, 'thorough': 600}


def make(g, tier):
    case = {'config': g.weighted([('pyx', 5), ('pure', 3), ('pypy', 1)])}
    if not g.chance(95):
        # both directions of one socket
        case.update(duplex=[g.pick(['line', 'flush', 'flush', 0, 1, 3, 9, 'all',
                                    [g.bytes(g.int(0, 5)).decode('latin-1')],
                                    [g.bytes(g.int(0, 5)).decode('latin-1')]])
                            for _ in range(g.int(2, 14))],
                    chunks=[''.join(g.pick(['a', 'b', '\n', '\xff']) for _ in range(g.int(1, 9)))
                            for _ in range(g.int(0, 5))],
                    bufsize=g.pick([8192, 1, 2, 3, 7]))
        return case
    if g.chance(15):
        calls = []
        for _ in range(g.int(1, 12)):
            if g.chance(35):
                calls.append('flush')
            else:
                calls.append(g.bytes(g.int(0, 6)).decode('latin-1') * g.pick([1, 1, 1, 500]))
        case.update(write=calls, real=g.chance(30))
        if not g.chance(90):
            # a lot of data: not on a real socket, nobody reads the other end
            case.update(write=calls[:4], real=False, times=g.pick([8192, 20000, 40000, 65536]))
        return case
    if not g.chance(98):
        # many chunks: calls which span (tens of) thousands of them
        n, size = g.pick([(1000, 1), (1500, 3), (5000, 2), (20000, 1), (20000, 3), (3, 70000), (2, 140000)])
        unit = ''.join(g.pick(['a', 'b', '\n', '\x00', 'cc']) for _ in range(g.int(1, 9)))
        gap = g.pick([0, n * size // 2, n * size])        # a long line before the first newline
        calls = [g.pick(['line', 'line', 'all', n * size // 3, n * size // 2, n * size, 1, 7]) for _ in range(g.int(1, 7))]
        case.update(kind=g.pick(['buffered', 'fakesocket', 'buffered', 'socket' if n * size < 80000 else 'stringbuffer']),
                    gap=gap, unit=unit,
                    count=n * size // len(unit), size=size, chunks=[], calls=calls,
                    bufsize=g.pick([8192, 1, 2, 3] if n > 3 else [8192, 8192, 65536, 1000000]))
        return case
    chunks = []
    for _ in range(g.int(0, 8)):
        n = g.int(1, 12)
        c = ''.join(g.pick(['a', 'b', '\n', '\x00', '\xff', 'c']) for _ in range(n))
        if g.chance(5):
            c = c * 50
        chunks.append(c)
    total = sum(map(len, chunks))
    calls = []
    for _ in range(g.int(1, 14)):
        r = g.int(0, 9)
        if r < 5:
            calls.append(g.int(0, 15))
        elif r < 8:
            calls.append('line')
        elif r < 9:
            calls.append(g.pick([total, total + 1, total // 2, 1000]))
        else:
            calls.append(g.pick(['all', -1]))
    case.update(kind=g.pick(['buffered', 'fakesocket', 'buffered', 'stringbuffer', 'socket']),
                chunks=chunks, calls=calls, bufsize=g.pick([8192, 1, 2, 3, 7]))
    return case


def short(s):
    return repr(s) if len(s) < 300 else '%r... (%d bytes)' % (s[:300], len(s))


def duplex(case, ctx):
    config = case['config']
    data = ''.join(case['chunks'])
    f = io.BytesIO(data.encode('latin-1'))
    r = ctx.run(config, [['duplex', data, [len(c) for c in case['chunks']], case['bufsize'],
                          case['duplex'] + ['flush']]])
    got = val(r[0], 'reading and writing %r' % case['duplex'], config)
    written = flushed = ''
    n = w = 0
    for i, (c, (ret, sent)) in enumerate(zip(case['duplex'] + ['flush'], got)):
        want = None
        if c == 'flush':
            flushed = written
        elif isinstance(c, list):
            written += c[0]
            w += 1
        else:
            want = (f.readline() if c == 'line' else f.read() if c == 'all' else f.read(c)).decode('latin-1')
            n += bool(want)
        if want != ret:
            raise Violation('[%s] duplex, chunks %r: call %d of %r returned %r instead of %r'
                            % (config, case['chunks'], i, case['duplex'], ret, want))
        if not written.startswith(sent) or not sent.startswith(flushed):
            raise Violation('[%s] duplex: after call %d of %r: %r was sent, %r was written and %r flushed'
                            % (config, i, case['duplex'], sent, written, flushed))
    return {'duplex', 'config ' + config} | ({'nt'} if n > 1 and w > 1 else set())


def run(case, ctx):
    config = case['config']
    if 'write' in case:
        case = dict(case, write=[c if c == 'flush' else (c * case.get('times', 1))[:150000] for c in case['write']])
        r = ctx.run(config, [['writers', case['write'] + ['flush'], case['real']]])
        got = val(r[0], 'write/flush', config)
        written = ''
        for i, (c, s) in enumerate(zip(case['write'] + ['flush'], got)):
            if c != 'flush':
                written += c
            if c == 'flush' and s != written:
                raise Violation('[%s] call %d: after flush() %r was sent instead of %r'
                                % (config, i, short(s), short(written)))
            if not written.startswith(s):
                raise Violation('[%s] call %d: %r was sent, %r written' % (config, i, short(s), short(written)))
        return {'write', 'config ' + config} | \
            ({'nt'} if len([c for c in case['write'] if c != 'flush']) > 1 else set())
    if 'duplex' in case:
        return duplex(case, ctx)
    data = ''.join(case['chunks'])
    sizes = [len(c) for c in case['chunks']]
    if 'unit' in case:
        data = 'x' * case['gap'] + case['unit'] * case['count']
        sizes = [case['size']] * (len(data) // case['size'])
        if case['kind'] == 'socket':        # a socket has room for a few hundreds of packets
            sizes = sizes[:100]
    f = io.BytesIO(data.encode('latin-1'))
    want = []
    for c in case['calls']:
        if c == 'line':
            x = f.readline()
        elif c == 'all':
            x = f.read()
        else:
            x = f.read(c)
        want.append(x.decode('latin-1'))
    show = case['chunks'] or '%d of %d bytes' % (len(sizes), case.get('size', 0))
    r = ctx.run(config, [['readers', case['kind'], data, sizes, case['bufsize'], case['calls']]])
    got = val(r[0], '%s with calls %r on chunks %r' % (case['kind'], case['calls'], show), config)
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            raise Violation('[%s] %s with chunks %r: call %d of %r returned %r instead of %r'
                            % (config, case['kind'], show, i, case['calls'], short(a), short(b)))
    labels = {'kind ' + case['kind'], 'config ' + config}
    if 'unit' in case:
        labels.add('over 1000 chunks')
    if len(sizes) > 1 and len([x for x in want if x]) > 2:
        labels.add('nt')
    if 'line' in case['calls']:
        labels.add('readline')
    if any(x == '' for x in want):
        labels.add('read at the end')
    return labels
