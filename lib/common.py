"""Shared by the check modules"""
import json
import os

import gen
import layout
import wire
from driver import Violation, Skip, val, BACKEND     # noqa: F401
from wire import same, diff, complete, default_of, read, WireError, is_ptr   # noqa: F401


def expect_same(got, want, what, config=''):
    if not same(got, want):
        raise Violation('[%s] %s: %s (got vs expected)' % (config, what, diff(got, want)))


def sch(ctx, case, config=None):
    """The Schema of a case {'files', 'kw'} for a configuration"""
    kw = dict(case.get('kw') or {})
    return ctx.schema(case['files'], pyx=(config == 'pyxmode'), **kw)


def gen_case_schema(g, **cfg):
    text, kw = gen.gen_schema(g, **cfg)
    return {'files': {'sch.capnp': text}, 'kw': kw}


_L = {}


def layout_of(case, **hooks):
    """The layout model, for the generators: with python names and options"""
    from schema import Schema
    key = json.dumps([case['files'], case.get('kw')], sort_keys=True)
    if key not in _L:
        if len(_L) > 30:
            for x in _L.values():
                x.forget()
            _L.clear()
        try:
            _L[key] = Schema(case['files'], **dict(case.get('kw') or {}, **hooks))
        except layout.SchemaError as e:
            import hypothesis
            if os.environ.get('VERIF_DEBUG'):
                print(e, case['files'])
            raise hypothesis.errors.UnsatisfiedAssumption()
    return _L[key].L


class Pool(object):
    """Schemas of one check which are compiled in pyx mode in advance: some written
    by hand [(body, kw)], some generated with a configuration"""

    def __init__(self, name, hand, cfg=None, n=None):
        self.name, self.hand, self.cfg = name, hand, cfg
        self.n = n or {'quick': 2, 'thorough': 30}
        if cfg is None:
            self.n = {'quick': 0, 'thorough': 0}
        self._gen = {}

    def count(self, tier):
        return len(self.hand) + self.n[tier]

    def get(self, k, seed):
        from driver import RandG
        if k < len(self.hand):
            body, kw = self.hand[k]
            if not body.lstrip().startswith('@0x'):
                body = '@0xd1a2b3c4d5e6f709;\nusing Py = import "/capnpy/annotate.capnp";\n' + body
            return body, dict(kw)
        key = (k, seed)
        if key not in self._gen:
            self._gen[key] = gen.gen_schema(RandG('%s-%d-%d' % (self.name, seed, k - len(self.hand))),
                                            **self.cfg)
        return self._gen[key]

    def prepare(self, tier, seed):
        import pyxpool
        pyxpool.compile_all([self.get(k, seed)[0] for k in range(self.count(tier))])

    def case(self, g, tier, ok=None):
        import pyxpool
        seed = int(os.environ.get('VERIF_SEED', '1'))
        k = g.int(0, self.count(tier) - 1)
        return pyxpool.case_of(*self.get(k, seed))


def struct_paths(L, sid, mval, pys=(), out=None):
    """-> [(python path, struct or group id, value)] for an object and all that
    it contains. mval is complete"""
    if out is None:
        out = []
    if len(out) > 60:
        return out
    out.append((list(pys), sid, mval))

    def lst(t, v, path):
        for i, x in enumerate(v):
            if x is None:
                continue
            if isinstance(t[1], list) and t[1][0] == 'list':
                lst(t[1], x, path + [i])
            elif isinstance(t[1], list) and t[1][0] == 'struct':
                struct_paths(L, t[1][1], x, path + [i], out)

    for f in L['structs'][sid]['fields']:
        p = list(pys) + [f['py']]
        if f.get('vgroup'):
            out.append((p, f['vgroup'], dict((x['name'], mval[x['name']])
                                             for x in L['structs'][f['vgroup']]['fields'])))
            continue
        v = mval.get(f['name'])
        if v is None:
            continue
        if f['kind'] == 'group':
            if not f.get('nullable'):
                struct_paths(L, f['gid'], v, p, out)
        elif isinstance(f['type'], list) and f['type'][0] == 'struct':
            struct_paths(L, f['type'][1], v, p, out)
        elif isinstance(f['type'], list) and f['type'][0] == 'list':
            lst(f['type'], v, p)
    return out
