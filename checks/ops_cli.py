# C26: capnpy decode and print_buffer


def cli_run(argv):
    """capnpy.__main__.main(argv) -> stdout, stderr, how it ended"""
    import contextlib
    import io
    import capnpy.__main__ as cli
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            r = cli.main(argv)
            end = 'end' if r in (None, 0) else repr(r)
        except (ValueError, EOFError, SystemExit) as e:
            end = type(e).__name__
            if end == 'SystemExit':
                end += ' %r' % (e.code,)
    return out.getvalue(), err.getvalue(), end


@op
def _cli_decode(P, files, data, main, cls, options, sub):
    """files: {name: text}. main: 'a/b/sch.capnp'. -> [stdout, end]"""
    import shutil
    import tempfile
    base = tempfile.mkdtemp(prefix='cli')
    known = set(capnpy._compiler.modules)
    try:
        for name, text in files.items():
            p = os.path.join(base, name)
            if not os.path.isdir(os.path.dirname(p)):
                os.makedirs(os.path.dirname(p))
            with open(p, 'w') as f:
                f.write(text)
        stream = os.path.join(base, 'stream.bin')
        with open(stream, 'wb') as f:
            f.write(dec(data))
        modname = main[:-len('.capnp')].replace('/', '.')
        if sub:
            import subprocess
            env = dict(os.environ, PYTHONPATH=os.pathsep.join(x for x in sys.path if x), PYTHONIOENCODING='utf-8')
            p = subprocess.Popen([sys.executable, '-m', 'capnpy', 'decode', 'stream.bin', modname, cls] + options,
                                 cwd=base, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            out, err = p.communicate()
            out, err = out.decode('utf-8'), err.decode('utf-8', 'replace')
            end = 'end'
            if p.returncode:
                end = err.strip().split('\n')[-1].split(':')[0] if p.returncode == 1 else 'exit %s' % p.returncode
        else:
            # '/' is in the path of the compiler
            modname = base.strip('/').replace('/', '.') + '.' + modname
            out, err, end = cli_run(['decode', stream, modname, cls] + options)
        if (end == 'end') != ('stream decoded in' in err):
            raise Anomaly('%s, with this output: %r' % (end, err[-300:]))
        return None, [out, end]
    finally:
        for k in set(capnpy._compiler.modules) - known:
            del capnpy._compiler.modules[k]
        shutil.rmtree(base, ignore_errors=True)


@op
def _cli_bad(P, argv):
    return None, list(cli_run(argv))


@op
def _print_buffer(P, data, start, end, human, how):
    """-> the text, without the colours"""
    import contextlib
    import io
    import re
    from capnpy.printer import BufferPrinter, print_buffer
    out, other = io.StringIO(), io.StringIO()
    data = dec(data)
    if how == 'function':
        with contextlib.redirect_stdout(out):
            print_buffer(data, start=start, human=human)
    else:
        with contextlib.redirect_stdout(other):
            BufferPrinter(data, out).printbuf(start=start, end=end, human=human)
        if other.getvalue():
            raise Anomaly('printed on stdout instead of the given stream: %r' % other.getvalue()[:200])
    return None, re.sub('\x1b\\[[0-9;]*m', '', out.getvalue())
