"""A schema ready to be used by driver and workers: layout model + Python names +
the specification sent to the workers."""
import hashlib
import os

import layout


class Schema(object):
    """files: {name: text}. convert, unicode_: the options which apply to the whole
    schema, or opts: {'file:path#field': [convert, unicode]}, see options_of()"""

    def __init__(self, files, main='sch.capnp', convert=True, unicode_=False, options=None,
                 pyx=False, field_hook=None, opts=None):
        if isinstance(files, str):
            files = {main: files}
        self.files, self.main, self.pyx = files, main, pyx
        self.request, d = layout.compile_text(files, main)
        self.dir = d
        L = layout.parse_request(self.request)
        self.L = L
        L['path'] = {}
        fileid = L['file']
        self.opts = opts
        self.annotate(convert, unicode_, field_hook)
        key = hashlib.sha1(repr((sorted(files.items()), main, sorted((options or {}).items()), pyx, convert,
                                 unicode_, sorted((opts or {}).items()))).encode())
        self.key = key.hexdigest()[:16]
        self.spec = {'key': self.key, 'dir': d, 'main': main, 'pyx': pyx, 'options': options,
                     'L': self.worker_L(),
                     'request': self.request.decode('latin-1') if len(files) == 1 else None}

    def python_annotations(self):
        """The annotations of /capnpy/annotate.capnp"""
        L = self.L

        def get(anns, name):
            for a in anns:
                n = L['nodes'].get(a['id'])
                if n is not None and n['name'] == name and \
                        n['display'].split(':')[0].endswith('capnpy/annotate.capnp'):
                    return a
            return None

        def names(text, fields):
            if text.strip() == '*':
                return [f['name'] for f in fields]
            return [x.strip() for x in text.split(',')]

        for sid, s in list(L['structs'].items()):
            a = get(L['nodes'][sid]['anns'], 'key')
            if a:
                s['key'] = names(a['text'], s['fields'])
            for f in s['fields']:
                if not f['anns']:
                    continue
                if get(f['anns'], 'nullable'):
                    f['nullable'] = True
                a = get(f['anns'], 'group')
                k = get(f['anns'], 'key')
                if a:
                    vs = {'id': 'vg:%s:%s' % (sid, f['name']), 'name': s['name'] + '.' + f['name'],
                          'group': True, 'dc': 0, 'do': 0, 'dw': s['dw'], 'pw': s['pw']}
                    fs = dict((x['name'], x) for x in s['fields'])
                    vs['fields'] = [fs[x] for x in names(a['text'], s['fields'])]
                    f['vgroup'] = vs['id']
                    L['structs'][vs['id']] = vs
                    if k:
                        vs['key'] = names(k['text'], vs['fields'])
                elif k:
                    gs = L['structs'][f['gid']]
                    gs['key'] = names(k['text'], gs['fields'])

    def options_of(self, display, field, default):
        """What self.opts says about a field or an enumerant (field) of a node: the
        closest of 'file:A.B#field', 'file:A.B', 'file:A', 'file:'"""
        if self.opts is None:
            return default
        fn, _, path = display.partition(':')
        fn = os.path.basename(fn)
        o = self.opts.get('%s:%s#%s' % (fn, path, field))
        while o is None:
            o = self.opts.get('%s:%s' % (fn, path))
            if not path:
                break
            path = path.rpartition('.')[0]
        return o or default

    def annotate(self, convert, unicode_, hook):
        L = self.L
        self.python_annotations()
        for nid, info in L['nodes'].items():
            s = L['structs'].get(nid)
            if s is not None:
                for f in s['fields']:
                    conv, uni = self.options_of(info['display'], f['name'], (convert, unicode_))
                    f['py'] = layout.pyname(f['name'], conv)
                    f['uni'] = uni
                    if hook is not None:
                        hook(L, s, f)
            if (s is not None and not s['group']) or nid in L['enums']:
                path = [layout.keyword_safe(x) for x in info['name'].split('.')]
                fn = os.path.basename(info['display'].split(':')[0])
                if fn != os.path.basename(self.main):
                    path = ['@' + fn] + path
                L['path'][nid] = path
        for nid, e in L['enums'].items():
            e['py'] = [layout.pyname(x, self.options_of(L['nodes'][nid]['display'], x, (convert, unicode_))[0])
                       for x in e['items']]
        for s in L['structs'].values():
            s['py'] = s['name']

    def worker_L(self):
        L = self.L
        return {'structs': L['structs'], 'enums': L['enums'], 'path': L['path'], 'byname': L['byname'],
                'consts': L['consts']}

    def id(self, name):
        return self.L['byname'][name]

    def forget(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)
