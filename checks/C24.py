"""C24: objects are checked again whenever they are put into another object, so one that was made invalid is refused."""

from checks.values import *
from checks.C17 import value as any_value, complete_value, WRONG
from sx.harness import H

# where objects of a kind can be put: [(owner kind, python name, document name, how)]
OWNERS = {}
for _o, (_m, _x, _f) in CLASSES.items():
    for _py, _g in _f.items():
        def _holds(t, how):
            if t[0] == "model" and t[1] != "Reference":
                OWNERS.setdefault(t[1], []).append((_o, _py, _g[0], how))
            elif t[0] == "union":
                if all(a[0] != "dict" and a != ("model", "Reference") or a == ("model", "Reference") for a in t[1]):
                    for a in t[1]:
                        _holds(a, how)
            elif t[0] == "list":
                _holds(t[1], (*how, "list"))
            elif t[0] == "dict" and len(t) > 1:
                _holds(t[1], (*how, "dict"))
        _holds(_g[5], ())
MAPS = {}
for _c, (_m, _t) in CONTAINERS.items():
    for _a in _t[1] if _t[0] == "union" else [_t]:
        if _a != ("model", "Reference"):
            MAPS.setdefault(_a[1], []).append(_c)


def value(cx, cname, py, wide):
    """A raw value for the field: of its type, or of another."""
    if wide:
        return any_value(cx, cname, py)
    t = CLASSES[cname][2][py][5]
    how = cx.pick("kind", ["good", "null", "number", "text", "map", "ref"])
    if how == "good":
        return simple(cx, t, "v", "deep" if t[0] in ("list", "dict", "model") else False)[0]
    return WRONG[how]


def spoil(cx, cname, py, wide):
    """An object changed behind its own checks, and the data it now stands for."""
    raw = dict(minimal_model(cname) if wide and cx.choose("minimal", 2) else complete(cname))
    m = cls(cname).model_validate(raw)
    f = CLASSES[cname][2][py]
    how = cx.pick("how", ["set", "build", "delete", "extra"])
    if how in ("set", "build"):
        v = value(cx, cname, py, wide)
        raw[f[0]] = v
        if how == "set":
            m.__dict__[py] = v
            m.__pydantic_fields_set__.add(py)
        else:
            m = cls(cname).model_construct(_fields_set=None, **{**m.__dict__, **(m.__pydantic_extra__ or {}), py: v})
    elif how == "delete":
        del m.__dict__[py]
        raw.pop(f[0], None)
    else:
        k = cx.pick("name", ["zz", "x-ok", "x-", "X-no"]) 
        if m.__pydantic_extra__ is None:
            return None, None
        m.__pydantic_extra__[k] = 1
        raw[k] = 1
    return m, raw


def into(cx, cname, owner, m, raw):
    """Puts the object, and in parallel the data, into an owner."""
    o, py, alias, how = owner
    base = supplement(o, alias)

    def wrap(x):
        for h in reversed(how):
            x = [x] if h == "list" else {"k": x}
        return x

    way = cx.pick("way", ["parse", "construct", "assign", "again"])
    ok2, n = attempt(cls(o).model_validate, {**base, alias: wrap(raw)})
    if way == "parse":
        ok, p = attempt(cls(o).model_validate, {**base, alias: wrap(m)})
    elif way == "construct":
        ok, p = attempt(cls(o), **{**base, alias: wrap(m)})
    elif way == "assign":
        ok, p = attempt(cls(o).model_validate, base)
        if not ok:
            return None, None, None, None
        ok, e = attempt(setattr, p, py, wrap(m))
    else:
        p = cls(o).model_validate({**base, alias: wrap(complete(cname))})
        p.__dict__[py] = wrap(m)
        ok, p = attempt(cls(o).model_validate, p)
    return ok, p, ok2, n


def again(cx, cname, pys, owners, maps, wide):
    """Accepted exactly when the data it stands for is."""
    py = cx.pick("field", pys)
    m, raw = spoil(cx, cname, py, wide)
    if m is None:
        return
    target = cx.pick("into", [*owners, *maps, None])
    if target is None:
        ok, p = attempt(cls(cname).model_validate, m)
        ok2, n = attempt(cls(cname).model_validate, raw)
    elif isinstance(target, str):
        ok2, n = attempt(cls(target).model_validate, {"k": raw})
        way = cx.pick("way", ["parse", "item", "again"])
        if way == "parse":
            ok, p = attempt(cls(target).model_validate, {"k": m})
        elif way == "item":
            p = cls(target).model_validate({})
            ok, _ = attempt(p.__setitem__, "k", m)
        else:
            p = cls(target).model_validate({})
            p.root["k"] = m
            ok, p = attempt(cls(target).model_validate, p)
    else:
        ok, p, ok2, n = into(cx, cname, target, m, raw)
        if ok is None:
            return
    ok2 = attempt(cls(cname).model_validate, raw)[0] and ok2  # (what is no multi-format schema could be read as a schema)
    cx.check(ok == ok2, f"a {cname} with a changed {py} was {'accepted' if ok else 'refused'} by {target}, its data is not")
    cx.reach("accepted" if ok else "refused")
    if ok and ok2:
        cx.check(same(tidy(dump(p)), tidy(dump(n))), f"a {cname} with a changed {py} became something else in {target}")


def tidy(d):
    """Fields in a fixed order, entries whose names are symbolic last and in their own order."""
    if isinstance(d, dict):
        fixed = sorted((k for k in d if type(k) is str))
        return [[k, tidy(d[k])] for k in fixed] + [[k, tidy(v)] for k, v in d.items() if type(k) is not str]
    if isinstance(d, list):
        return [tidy(x) for x in d]
    return d


def maps_(cx, mname):
    """Named maps changed behind their checks are refused, too, by what holds them."""
    m = cls(mname).model_validate({"a": entry(mname)})
    k = text(cx, "name", 2)
    good = cx.choose("good", 2)
    m.root[k] = cls("Reference").model_validate({"$ref": "#/a"}) if good else cx.pick("value", [5, None, [1], "s", cx.int("n"), cls("Contact").model_validate({})])
    owners = OWNERS.get(mname, [])
    o = cx.pick("into", [*owners, None])
    want = And(legal_key(k), good == 1)
    if not good:
        want = False
    if o is None:
        ok, p = attempt(cls(mname).model_validate, m)
    else:
        alias = o[2]
        way = cx.pick("way", ["construct", "assign", "again"])
        base = supplement(o[0], alias)
        if way == "construct":
            ok, p = attempt(cls(o[0]), **{**base, alias: m})
        elif way == "assign":
            p = cls(o[0]).model_validate(base)
            ok, _ = attempt(setattr, p, o[1], m)
        else:
            p = cls(o[0]).model_validate(base)
            p.__dict__[o[1]] = m
            ok, p = attempt(cls(o[0]).model_validate, p)
    cx.check(Iff(ok, want), f"{mname} with an entry added behind its checks was {'accepted' if ok else 'refused'}")
    cx.reach("accepted" if ok else "refused")


def deep(cx, path, cname, pys, wide):
    """However deep the object is that was changed: the document is refused when it is checked again, and only then."""
    raw = complete(cname)
    D = cls("AsyncAPI3")
    spec = D.model_validate(at(path, raw))
    m = spec
    t = ("model", "AsyncAPI3")
    for seg in path:
        here, inner = member(t, seg)
        m = m[seg] if here[0] in ("list", "dict") or here[1] in CONTAINERS else getattr(m, next(py for py, f in CLASSES[here[1]][2].items() if f[0] == seg))
        t = inner
    py = cx.pick("field", pys)
    v = value(cx, cname, py, wide)
    m.__dict__[py] = v
    ok, p = attempt(D.model_validate, spec)
    ok2, n = attempt(D.model_validate, at(path, {**raw, CLASSES[cname][2][py][0]: v}))
    cx.check(ok == ok2, f"a document with a changed {cname}.{py} was {'accepted' if ok else 'refused'} when checked again")
    cx.reach("accepted" if ok else "refused")
    if ok and ok2:
        cx.check(same(tidy(dump(p)), tidy(dump(n))), "the checked document differs")


def lists(cx, owner, py, alias, t):
    """Elements appended to a list behind the checks are checked when its owner is."""
    base = {**supplement(owner, alias), alias: []} if alias != "scopes" else {"type": "oauth2", "flows": {}, "scopes": []}
    m = cls(owner).model_validate(base)
    v = cx.pick("wrong", [5, None, "s", [1], {"zz": 1}, 1.5, True, "own"])
    if v == "own":
        v = simple(cx, t, "v")[0]
    getattr(m, py).append(v)
    ok, p = attempt(cls(owner).model_validate, m)
    ok2, n = attempt(cls(owner).model_validate, {**base, alias: [v]})
    cx.check(ok == ok2, f"{owner}.{py} with an element appended was {'accepted' if ok else 'refused'}")
    if ok and ok2:
        cx.check(same(tidy(dump(p)), tidy(dump(n))), "the appended element became something else")
    cx.reach("accepted" if ok else "refused")


HARNESSES = []
FEW, MANY = "values of its type, null, or one of 4 others", "values of its type or 13 others"
for _n, (_m, _x, _f) in CLASSES.items():
    if not _f or _n == "AsyncAPI3":
        continue
    _os = OWNERS.get(_n, [])
    HARNESSES.append(H(f"again[{_n}]", again, reach=["refused"], cname=_n, pys=list(_f), owners=_os[:1], maps=MAPS.get(_n, [])[:1], wide=False,
                       bounds=f"complete object, each field set or deleted behind the checks to {FEW}, extra fields; put into an owner in four ways, into a map in three"))
    HARNESSES.append(H(f"again-wide[{_n}]", again, thorough_only=True, cname=_n, pys=list(_f), owners=_os, maps=MAPS.get(_n, []), wide=True,
                       bounds=f"minimal and complete object, each field set or deleted behind the checks to {MANY}, extra fields; put into every owner in four ways, into every map in three"))
for _c in CONTAINERS:
    HARNESSES.append(H(f"map[{_c}]", maps_, reach=["refused"], mname=_c, bounds="one entry added behind the checks, names of 0..2 characters; put into each owner in three ways"))
for _o, (_m, _x, _f) in CLASSES.items():
    for _py, _g in _f.items():
        if _g[5][0] == "list":
            HARNESSES.append(H(f"list[{_o}.{_py}]", lists, reach=["refused"], owner=_o, py=_py, alias=_g[0], t=_g[5][1], bounds="one element appended"))
for _p, _n in [
    (("info", "contact"), "Contact"), (("info", "tags", 0, "externalDocs"), "ExternalDocumentation"), (("servers", "s", "variables", "v"), "ServerVariable"),
    (("channels", "c", "messages", "m", "traits", 0, "examples", 0), "MessageExample"), (("operations", "o", "reply", "address"), "OperationReplyAddress"),
    (("components", "securitySchemes", "s", "flows", "password"), "OAuthFlow"), (("components", "messages", "m", "correlationId"), "CorrelationID"),
    (("operations", "o", "bindings", "solace"), "SolaceOperationBindings"), (("components", "operationBindings", "b", "solace", "destinations", 0, "queue"), "SolaceQueue"),
    (("channels", "c", "bindings", "amqp", "queue"), "AMQPQueue"), (("components", "channelBindings", "b", "ibmmq"), "IBMMQChannelBindings"),
    (("components", "serverBindings", "b", "mqtt", "lastWill"), "MQTTLastWill"), (("operations", "o", "traits", 0, "security", 0), "SecurityScheme"),
    (("channels", "c"), "Channel"), (("components", "channels", "c", "parameters", "p"), "Parameter"), (("components", "schemas", "s", "externalDocs"), "ExternalDocumentation"),
    (("servers", "s"), "Server"), (("operations", "o"), "Operation"), (("components",), "Components"), (("info",), "Info"),
]:
    for _w in (False, True):
        HARNESSES.append(H(f"deep{'-wide' if _w else ''}[{'/'.join(map(str, _p))}]", deep, reach=["refused"], thorough_only=_w, path=_p, cname=_n, pys=list(CLASSES[_n][2]), wide=_w,
                           bounds=f"each field set behind the checks to {MANY if _w else FEW}"))
