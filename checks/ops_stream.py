# operations for C05 and C06 (executed in the worker)
import collections
import socket
import tempfile
from capnpy.buffered import BufferedStream, BufferedSocket, StringBuffer


class ChunkStream(BufferedStream):
    """after the end of the data _readchunk returns b'' for ever"""

    def __init__(self, chunks):
        super(ChunkStream, self).__init__()
        self.chunks = collections.deque(chunks)

    def _readchunk(self):
        if self.chunks:
            return self.chunks.popleft()
        return b''


class FakeSocket(object):
    def __init__(self, chunks=()):
        self.chunks = collections.deque(chunks)
        self.sent = []
        self.closed = False

    def recv(self, n):
        if not self.chunks:
            return b''
        c = self.chunks[0]
        if len(c) <= n:
            return self.chunks.popleft()
        self.chunks[0] = c[n:]
        return c[:n]

    def sendall(self, data):
        self.sent.append(bytes(data))

    def close(self):
        self.closed = True


class Minimal(object):
    """the least a file-like object needs"""

    def __init__(self, data):
        self._f = io.BytesIO(data)

    def read(self, n=-1):
        return self._f.read(n)

    def readline(self):
        return self._f.readline()


def split(data, sizes):
    out = []
    i = 0
    for n in sizes:
        if i >= len(data):
            break
        out.append(data[i:i + n])
        i += n
    if i < len(data):
        out.append(data[i:])
    return out


def open_stream(kind, data, chunks, bufsize=8192):
    """-> file-like object, function returning the position or None, closer"""
    nop = lambda: None
    if kind == 'bytesio':
        f = io.BytesIO(data)
        return f, f.tell, nop
    if kind == 'minimal':
        f = Minimal(data)
        return f, f._f.tell, nop
    if kind == 'stringbuffer':
        f = StringBuffer(data)
        return f, f.tell, nop
    if kind == 'file':
        f = tempfile.TemporaryFile()
        f.write(data)
        f.seek(0)
        return f, f.tell, f.close
    if kind == 'buffered':
        return ChunkStream(split(data, chunks)), None, nop
    if kind == 'fakesocket':
        return BufferedSocket(FakeSocket(split(data, chunks)), bufsize), None, nop
    if kind == 'socket':
        a, b = socket.socketpair()
        for c in split(data, chunks):
            a.sendall(c)
        a.shutdown(socket.SHUT_WR)
        f = BufferedSocket(b, bufsize)

        def close():
            a.close()
            f.close()
        return f, None, close
    raise ValueError(kind)


@op
def _read_stream(P, mod, sid, data, kind, chunks, bufsize, how):
    """-> [[value or None, position]...], how it ended"""
    M = MODS[mod]
    cls = M.cls(sid)
    f, tell, close = open_stream(kind, dec(data), chunks, bufsize)
    out = []

    def add(obj):
        out.append([None if obj is None else observe(M, sid, obj), tell() if tell else None])
        if len(out) > 200:
            raise Anomaly('load() goes on for ever')
    end = None
    try:
        if how == 'load_all':
            for obj in cls.load_all(f):
                add(obj)
            end = 'end'
        elif how == 'capnpy.load_all':
            for obj in capnpy.load_all(f, cls):
                add(obj)
            end = 'end'
        else:
            while True:
                add(cls.load(f) if how == 'load' else capnpy.load(f, cls))
    except (EOFError, ValueError) as e:
        end = type(e).__name__
    finally:
        close()
    return None, [out, end]


@op
def _read_streams(P, mod, sid, datas, kinds, chunks, bufsize, order):
    """Several streams, read in turns. -> [[values..., how it ended]...]"""
    M = MODS[mod]
    cls = M.cls(sid)
    fs = [open_stream(k, dec(d), chunks, bufsize) for k, d in zip(kinds, datas)]
    its = [cls.load_all(f[0]) if i % 2 else capnpy.load_all(f[0], cls) for i, f in enumerate(fs)]
    objs = [[] for _ in fs]
    ends = [None for _ in fs]
    try:
        turns = list(order)
        while None in ends:
            i = turns.pop(0) if turns else ends.index(None)
            if ends[i] is not None:
                continue
            try:
                objs[i].append(next(its[i]))
            except StopIteration:
                ends[i] = 'end'
            except (EOFError, ValueError) as e:
                ends[i] = type(e).__name__
            if len(objs[i]) > 200:
                raise Anomaly('load_all() goes on for ever')
    finally:
        for f in fs:
            f[2]()
    return None, [[[None if o is None else observe(M, sid, o) for o in os_], e] for os_, e in zip(objs, ends)]


@op
def _loads_end(P, mod, sid, data, how):
    M = MODS[mod]
    cls = M.cls(sid)
    data = dec(data)
    try:
        obj = cls.loads(data) if how else capnpy.loads(data, cls)
    except (EOFError, ValueError) as e:
        return None, [type(e).__name__, None]
    return None, ['ok', None if obj is None else observe(M, sid, obj)]


@op
def _readers(P, kind, data, chunks, bufsize, calls):
    """the results of a sequence of calls"""
    f, tell, close = open_stream(kind, dec(data), chunks, bufsize)
    out = []
    try:
        for c in calls:
            if c == 'line':
                r = f.readline()
            elif c == 'all':
                r = f.read()
            else:
                r = f.read(c)
            if type(r) is not bytes:
                raise Anomaly('%r returned %r' % (c, type(r)))
            out.append(enc(r))
    finally:
        close()
    return None, out


@op
def _writers(P, calls, real):
    """-> after each call, all that was sent"""
    if real:
        a, b = socket.socketpair()
        b.setblocking(False)
        got = []

        def sent():
            while True:
                try:
                    x = b.recv(1 << 16)
                except (BlockingIOError, OSError):
                    break
                if not x:
                    break
                got.append(x)
            return b''.join(got)
    else:
        a = FakeSocket()
        sent = lambda: b''.join(a.sent)
    f = BufferedSocket(a)
    out = []
    for c in calls:
        if c == 'flush':
            f.flush()
        elif isinstance(c, list):
            buf = bytearray(dec(c[0]))
            f.write(bytes(buf))
        else:
            f.write(dec(c))
        out.append(enc(sent()))
    f.close()
    if real:
        b.close()
    return None, out


@op
def _duplex(P, data, chunks, bufsize, calls):
    """-> [returned, all that was sent] for each call"""
    a = FakeSocket(split(dec(data), chunks))
    f = BufferedSocket(a, bufsize)
    out = []
    for c in calls:
        r = None
        if c == 'flush':
            f.flush()
        elif isinstance(c, list):
            f.write(dec(c[0]))
        else:
            r = f.readline() if c == 'line' else f.read() if c == 'all' else f.read(c)
            if type(r) is not bytes:
                raise Anomaly('%r returned %r' % (c, type(r)))
            r = enc(r)
        out.append([r, enc(b''.join(a.sent))])
    return None, out
