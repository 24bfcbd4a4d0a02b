# C19: reflection data
from capnpy.reflection import get_reflection_data


@op
def _reflect_none(P, mod):
    """A module without reflection data"""
    try:
        r = get_reflection_data(MODS[mod].mod)
    except ValueError:
        return None, 'ValueError'
    return r, repr(r)


def entity_of(M, e):
    if e['kind'] == 'file':
        return M.mod
    o = M.mod
    for n in e['path']:
        if n.startswith('@'):
            o = M.imported(n[1:])
        elif n.startswith('!'):
            import importlib
            o = importlib.import_module(n[1:])
        else:
            o = getattr(o, n)
    return o


def check_anns(M, r, what, where, anns, classes):
    """what: an entity, node, field or enumerant. anns: what it has"""
    have = {}
    for a in anns:
        have.setdefault(a['id'], a)
    for aid, acls in classes:
        a = have.get(aid)
        got = r.has_annotation(what, acls)
        if got is not (a is not None):
            raise Anomaly('%s: has_annotation(%s) is %r' % (where, acls.__name__, got))
        if a is None:
            try:
                v = r.get_annotation(what, acls)
            except KeyError:
                continue
            raise Anomaly('%s: get_annotation(%s) is %r instead of KeyError' % (where, acls.__name__, v))
        v = r.get_annotation(what, acls)
        t = a['type']
        if isinstance(t, list) and t[0] == 'enum':
            v = int(v)
        elif isinstance(t, list) and t[0] == 'struct' and M.L['path'][t[1]][0] == '@annotate.capnp':
            continue            # $Py.options
        elif isinstance(t, list) and t[0] == 'struct' and v is not None:
            v = observe(M, t[1], v.as_struct(M.cls(t[1])), where)
            if not same(v, a['value']):
                raise Anomaly('%s: annotation %s is %r instead of %r' % (where, acls.__name__, v, a['value']))
            continue
        elif isinstance(t, list):
            continue
        else:
            v = observe_value(M, t, v, False, where)
        want = a['value']
        if t in ('Text', 'Data') and v is None:
            v = ''
        if t in ('Text', 'Data') and want is None:
            want = ''
        if v != want and not (v != v and want != want):
            raise Anomaly('%s: annotation %s is %r instead of %r' % (where, acls.__name__, v, want))


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return all(same(a.get(k), b.get(k)) for k in set(a) | set(b))
    if a in (None, '', []) and b in (None, '', []):
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


@op
def _reflect(P, mod, ents, annpaths, ids):
    """ents: the nodes of the schema, annpaths: [(id, path)] of the annotations"""
    M = MODS[mod]
    r = get_reflection_data(M.mod)
    if get_reflection_data(M.mod) is not r:
        raise Anomaly('get_reflection_data() gives another object')
    classes = [(aid, entity_of(M, {'kind': 'annotation', 'path': p})) for aid, p in annpaths]
    for i in ids:
        if int(i, 16) not in r.allnodes:
            raise Anomaly('no node %s in allnodes' % i)
    for e in ents:
        nid = int(e['id'], 16)
        where = e['display']
        node = r.get_node(nid)
        if node.id != nid:
            raise Anomaly('%s: get_node(id) has the id %#x' % (where, node.id))
        if not node.displayName.endswith(b'.capnp' if e['kind'] == 'file' else e['display'].split(':')[-1].encode()):
            raise Anomaly('%s: displayName is %r' % (where, node.displayName))
        if str(node.which()) != e['kind'] or not getattr(node, 'is_' + e['kind'])():
            raise Anomaly('%s: which() is %r' % (where, node.which()))
        if e['kind'] == 'file' and node.scopeId or e['kind'] != 'file' and node.scopeId != int(e['scope'], 16):
            raise Anomaly('%s: scopeId is %#x' % (where, node.scopeId))
        nested = [['%x' % n.id, n.name.decode('ascii')] for n in node.nestedNodes or ()]
        if nested != e['nested']:
            raise Anomaly('%s: nestedNodes are %r' % (where, nested))
        targets = [node, nid]
        if e.get('path') is not None or e['kind'] == 'file':
            ent = entity_of(M, e)
            if e['kind'] == 'const':
                pass
            else:
                if ent.__capnpy_id__ != nid:
                    raise Anomaly('%s: __capnpy_id__ is %#x' % (where, ent.__capnpy_id__))
                node2 = r.get_node(ent)
                if node2.id != nid or node2.displayName != node.displayName:
                    raise Anomaly('%s: get_node() of it is %r' % (where, node2))
                targets.append(ent)
        for t in targets:
            check_anns(M, r, t, where, e['anns'], classes)
        if e['kind'] == 'struct':
            s = M.structs[e['id']]
            for again in range(2):
                fields = node.get_struct_fields()
                names = [f.name.decode('ascii') for f in fields or ()]
                if names != [f['name'] for f in s['fields']]:
                    raise Anomaly('%s: the fields are %r' % (where, names))
            if bool(node.struct.isGroup) != s['group'] or node.struct.discriminantCount != s['dc'] or \
                    node.struct.dataWordCount != s['dw'] or node.struct.pointerCount != s['pw']:
                raise Anomaly('%s: node.struct is wrong' % where)
            for f, F in zip(fields or (), s['fields']):
                w = '%s.%s' % (where, F['name'])
                if r.field_name(f) != F['py']:
                    raise Anomaly('%s: field_name() is %r instead of %r' % (w, r.field_name(f), F['py']))
                disc = None if f.discriminantValue == 65535 else f.discriminantValue
                if disc != F['disc']:
                    raise Anomaly('%s: discriminantValue is %r' % (w, f.discriminantValue))
                if str(f.which()) != F['kind']:
                    raise Anomaly('%s: which() is %r' % (w, f.which()))
                if F['kind'] == 'group':
                    if f.group.typeId != int(F['gid'], 16) or not r.get_node(f.group.typeId).struct.isGroup:
                        raise Anomaly('%s: the typeId is %#x' % (w, f.group.typeId))
                else:
                    t = F['type']
                    name = t[0].lower() + t[1:] if isinstance(t, str) else t[0]
                    name = name.replace('uInt', 'uint')
                    if str(f.slot.type.which()) != name or f.slot.offset != F['off'] or \
                            bool(f.slot.hadExplicitDefault) != F['had']:
                        raise Anomaly('%s: f.slot is %s' % (w, f.slot.shortrepr()))
                    if isinstance(t, list) and t[0] in ('struct', 'enum') and \
                            getattr(f.slot.type, t[0]).typeId != int(t[1], 16):
                        raise Anomaly('%s: the typeId is wrong' % w)
                check_anns(M, r, f, w, F['anns'], classes)
        elif e['kind'] == 'enum':
            E = M.L['enums'][e['id']]
            items = node.get_enum_enumerants()
            names = [x.name.decode('ascii') for x in items or ()]
            if names != E['items']:
                raise Anomaly('%s: the enumerants are %r' % (where, names))
            for x, py, a in zip(items or (), E['py'], E['anns']):
                if r.field_name(x) != py:
                    raise Anomaly('%s.%s: field_name() is %r' % (where, x.name, r.field_name(x)))
                check_anns(M, r, x, where + '.' + py, a, classes)
    return r, None


@op
def _reflect_object(P, mod, sid, obj):
    """The nodes of the classes of an object and of what it contains"""
    M = MODS[mod]
    r = get_reflection_data(M.mod)
    n = [0]

    def visit(sid, o, depth):
        n[0] += 1
        s = M.structs[sid]
        node = r.get_node(type(o))
        if not sid.startswith('vg:') and node.id != int(sid, 16):
            raise Anomaly('get_node(%r) is %r' % (type(o), node))
        names = [f.name.decode('ascii') for f in node.get_struct_fields() or ()]
        if names != [f['name'] for f in s['fields']]:
            raise Anomaly('get_node(%r): the fields are %r' % (type(o), names))
        if r.get_node(o).id != node.id:
            raise Anomaly('get_node() of an object')
        active = o.__which__() if s['dc'] else None
        for f in s['fields']:
            if f['disc'] is not None and f['disc'] != active:
                continue
            if f['kind'] == 'group':
                visit(f['gid'], getattr(o, ('_' if f.get('nullable') else '') + f['py']), depth)
            elif f.get('vgroup'):
                visit(f['vgroup'], getattr(o, f['py']), depth)
            elif isinstance(f['type'], list) and depth < 3:
                v = getattr(o, f['py'])
                if f['type'][0] == 'struct' and v is not None and f['type'][1] in M.L['path'] and \
                        not M.L['path'][f['type'][1]][0].startswith('@'):
                    visit(f['type'][1], v, depth + 1)
                elif f['type'][0] == 'enum' and r.get_node(type(v)).id != int(f['type'][1], 16):
                    raise Anomaly('get_node(%r)' % type(v))
    visit(sid, obj, 0)
    return None, n[0]
