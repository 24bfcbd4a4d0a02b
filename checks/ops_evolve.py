# C09: objects which hold other objects


@op
def _build_holding(P, mod, sid, mval, name, how, *objs):
    M = MODS[mod]
    f = [x for x in M.structs[sid]['fields'] if x['name'] == name][0]
    args = dict(field_args(M, sid, mval, {}))
    objs = list(objs)
    args[f['py']] = objs[0] if how == 'field' else objs if how == 'list' else [objs, objs[:1]]
    return M.cls(sid)(**args), None
