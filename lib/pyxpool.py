"""Schemas compiled in pyx mode. It takes a few seconds each, so a fixed set of them
(generated from the seed, plus some written by hand) is compiled in parallel before
starting; cases pick a schema of the set and generate only values. Everything goes
through the command line compiler, i.e. the public interface."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

import build as B

HAND = [
    # a bit of everything
    ('''
struct Point $Py.key("x, y") { x @0 :Int64; y @1 :Int64; name @2 :Text; color @3 :Color = green; }
enum Color { red @0; green @1; darkBlue @2; class @3; }
struct Kitchen {
  anInt8 @0 :Int8 = -5;  u8 @1 :UInt8;  i16 @2 :Int16;  u16 @3 :UInt16 = 65535;
  i32 @4 :Int32; u32 @5 :UInt32 = 4000000000; i64 @6 :Int64 = -9223372036854775808;
  u64 @7 :UInt64 = 18446744073709551615;
  f32 @8 :Float32 = 1.5; f64 @9 :Float64 = -0.1; yes @10 :Bool = true; no @11 :Bool;
  text @12 :Text; data @13 :Data; color @14 :Color = darkBlue; point @15 :Point;
  union { none @16 :Void; oneInt @17 :Int32 = 7; oneText @18 :Text; onePoint @19 :Point;
          grp :group { ga @20 :Int8 = 3; gb @21 :Text; } oneColor @22 :Color; }
  shape :union { circle @23 :Float64; square @24 :Float64 = 2; empty @25 :Void;
                 rect :group { w @26 :UInt16; h @27 :UInt16 = 9; } }
  position :group { lat @28 :Float64; lon @29 :Float64 = 1; deep :group { a @30 :Int8; b @31 :Text; } }
  li8 @32 :List(Int8); lu64 @33 :List(UInt64); lf64 @34 :List(Float64); lf32 @35 :List(Float32);
  lbool @36 :List(Bool); ltext @37 :List(Text); ldata @38 :List(Data); lcolor @39 :List(Color);
  lpoint @40 :List(Point); lli16 @41 :List(List(Int16)); llpoint @42 :List(List(Point));
  lkitchen @43 :List(Kitchen); kitchen @44 :Kitchen; li16 @45 :List(Int16); lu32 @46 :List(UInt32);
  nothing @47 :Void;
}
''', {}),
    ('''
$Py.options(convertCase=false, textType=unicode);
struct Outer {
  firstText @1 :Text; struct Inner { aB @0 :UInt8 = 200; listOfText @1 :List(Text); enum Kind { kA @0; kB @1; } kind @2 :Kind = kB; }
  inner @0 :Inner; kinds @2 :List(Inner.Kind); inners @3 :List(Inner);
  u :union { one @4 :Bool = true; two @5 :Inner; three @6 :List(Inner); four :group { x @7 :Int8; y @8 :Inner; } }
}
''', {'convert': False, 'unicode_': True}),
]

CFG = dict(max_structs=4, max_fields=10, groups=14, unions=20)

_script = r'''
import sys, os, runpy
sys.argv = ['capnpy', 'compile', sys.argv[1]] + sys.argv[2:]
sys.path.insert(0, '')
runpy.run_module('capnpy', run_name='__main__', alter_sys=True)
'''


def pool_dir():
    key = B.tree_hash(B.source_files())
    d = os.path.join(B.CACHE, 'pyxpool-' + key)
    os.makedirs(d, exist_ok=True)
    return d


def texts(tier, seed, n=None):
    """-> [(text, kw)]"""
    from driver import RandG
    import gen
    out = []
    for body, kw in HAND:
        out.append(('@0xd1a2b3c4d5e6f709;\nusing Py = import "/capnpy/annotate.capnp";\n' + body, kw))
    n = n or {'quick': 6, 'thorough': 46}[tier]
    for i in range(n):
        text, kw = gen.gen_schema(RandG('%d-%d' % (seed, i)), **CFG)
        out.append((text, kw))
    return out


def name_of(text):
    return 'px' + hashlib.sha1(text.encode()).hexdigest()[:10]


def case_of(text, kw):
    main = name_of(text) + '.capnp'
    return {'files': {main: text}, 'kw': dict(kw, main=main)}


def start(text, name=None):
    """compile in background -> process or None"""
    name = name or name_of(text)
    d = os.path.join(pool_dir(), name)
    os.makedirs(d, exist_ok=True)
    if os.path.exists(os.path.join(d, 'done')):
        with open(os.path.join(d, name + '.capnp')) as f:
            if f.read() == text:
                return None
        shutil.rmtree(d)
        os.makedirs(d)
    with open(os.path.join(d, name + '.capnp'), 'w') as f:
        f.write(text)
    root = B.build(('pyx',))['pyx']
    tmp = os.path.join(d, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    env = dict(B._env(), PYTHONPATH=root, CFLAGS='-O0 -w', TMPDIR=tmp, PYTHONHASHSEED='1')
    log = open(os.path.join(d, 'log'), 'wb')
    p = subprocess.Popen([B.VENV, '-c', _script, os.path.join(d, name + '.capnp')],
                         stdout=log, stderr=subprocess.STDOUT, env=env, cwd=d)
    p.poolname = name
    return p


def finish(p):
    rc = p.wait()
    d = os.path.join(pool_dir(), p.poolname)
    shutil.rmtree(os.path.join(d, 'tmp'), ignore_errors=True)
    with open(os.path.join(d, 'done'), 'w') as f:
        f.write(str(rc))


def compile_all(ts, jobs=8, names=None):
    """names: of the modules, by default made from the text"""
    with open(os.path.join(pool_dir(), 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        running, todo = [], list(zip(ts, names or [None] * len(ts)))
        while todo or running:
            while todo and len(running) < jobs:
                p = start(*todo.pop())
                if p is not None:
                    running.append(p)
            for p in list(running):
                if p.poll() is not None:
                    finish(p)
                    running.remove(p)
            time.sleep(.02)


_texts = None


def prepare(tier, seed, n=None):
    t = texts(tier, seed, n)
    compile_all([x for x, _ in t])
    with open(os.path.join(pool_dir(), 'current-%s-%d-%s.json' % (tier, seed, n)), 'w') as f:
        json.dump(t, f)
    os.environ['VERIF_POOL'] = os.path.join(pool_dir(), 'current-%s-%d-%s.json' % (tier, seed, n))


def all_texts():
    global _texts
    if _texts is None:
        with open(os.environ['VERIF_POOL']) as f:
            _texts = json.load(f)
    return _texts


def pick(g, ok=None):
    """-> case"""
    ts = all_texts()
    text, kw = g.pick(ts)
    return case_of(text, kw)


def ensure(schema):
    """Compile now the schema of a case, if it was not; tell the worker where it is"""
    name = schema.main.rsplit('.', 1)[0]
    d = os.path.join(pool_dir(), name)
    if not os.path.exists(os.path.join(d, 'done')):
        compile_all([schema.files[schema.main]], names=[name])
    schema.spec['so_dir'] = d
    schema.spec['so_name'] = name
