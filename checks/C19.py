"""C19: field names and document names are interchangeable, absent and null fields mean the same, defaults are the documented ones."""

from checks.values import *
from sx.harness import H


def content(cx, cname, pick):
    """A raw object: the required fields and one chosen other (or all)."""
    if pick == "all":
        return dict(complete(cname))
    raw = dict(minimal_model(cname))
    if pick is not None:
        f = CLASSES[cname][2][pick]
        raw.update(supplement(cname, f[0]))
        raw[f[0]] = simple(cx, f[5], "v")[0] if f[0] not in raw or f[1] and not SPECIAL.get(cname) else raw[f[0]]
        if cname in RULED or cname == "AsyncAPI3":
            raw[f[0]] = complete(cname).get(f[0], raw[f[0]])
            if cname == "MessageExample":
                raw[f[0]] = {"a": 1} if f[0] == "headers" else "x"
    return raw


def python_names(cname, raw):
    to = {f[0]: py for py, f in CLASSES[cname][2].items()}
    return {to.get(k, k): v for k, v in raw.items()}


def spellings(cx, cname, picks):
    raw = content(cx, cname, cx.pick("field", picks))
    C = cls(cname)
    py = python_names(cname, raw)
    ok, a = attempt(C.model_validate, raw)
    how = cx.pick("how", ["kwargs", "mapping", "mixed", "document-kwargs", "objects", "nulls"])
    if how == "kwargs":
        ok2, b = attempt(C, **py)
    elif how == "mapping":
        ok2, b = attempt(C.model_validate, py)
    elif how == "mixed":
        i = cx.choose("which", len(raw) + 1)
        ks = list(raw)
        to = python_names(cname, {k: k for k in ks})
        back = {v: k for k, v in to.items()}
        ok2, b = attempt(C.model_validate, {**{(back[k] if j == i else k): raw[k] for j, k in enumerate(ks)}})
    elif how == "document-kwargs":
        ok2, b = attempt(C, **raw)
    elif how == "objects":
        if not ok:
            return
        held = {p: getattr(a, p) for p, f in CLASSES[cname][2].items() if f[0] in raw}
        held.update({k: v for k, v in raw.items() if k not in [f[0] for f in CLASSES[cname][2].values()]})
        ok2, b = attempt(C, **held)
    else:
        nulls = {p: None for p, f in CLASSES[cname][2].items() if f[0] not in raw and f[3] and (f[2] is None)}
        i = cx.choose("null", len(nulls) + 1)
        chosen = nulls if i == 0 else {list(nulls)[i - 1]: None}
        ok2, b = attempt(C, **{**chosen, **py})
    cx.check(ok == ok2, f"{cname} given by {how}: {'accepted' if ok2 else 'rejected'}, but by document names {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok and ok2:
        cx.check(same(dump(a), dump(b)), f"{cname} given by {how} is a different object")
        cx.check(a == b, f"{cname} given by {how} is not equal")
        for p, f in CLASSES[cname][2].items():
            v = getattr(b, p)
            if f[0] not in raw:
                cx.check(same(v, f[2]), f"{cname}.{p} should be {f[2]!r} when absent")
            elif f[5][0] in ("str", "int", "bool", "lit", "email"):
                cx.check(same(v, raw[f[0]]), f"{cname}.{p} does not hold what was given")


def inside(cx, path, cname, picks):
    """The same inside a document, where the fields stand below other objects, lists and maps."""
    raw = content(cx, cname, cx.pick("field", picks))
    ok, a = attempt(cls("AsyncAPI3").model_validate, at(path, raw))
    ok2, b = attempt(cls("AsyncAPI3").model_validate, at(path, python_names(cname, raw)))
    cx.check(ok == ok2, f"{cname} in a document: names matter")
    if ok and ok2:
        cx.check(same(dump(a), dump(b)), f"{cname} in a document differs by the names used")
    cx.reach("accepted" if ok else "rejected")


def all_python(t, raw):
    """A raw document with every field by its field name."""
    if isinstance(raw, list):
        return [all_python(t[1] if t[0] == "list" else ("any",), x) for x in raw]
    if not isinstance(raw, dict) or t[0] in ("any",):
        return raw
    if t[0] == "union":
        if any(a[0] == "dict" for a in t[1]):
            return raw  # free-form alternatives keep the names they are given
        return all_python(alternative(t[1], raw), raw)
    if t[0] == "dict":
        return {k: all_python(t[1], v) for k, v in raw.items()} if len(t) > 1 else raw
    if t[1] in CONTAINERS:
        return {k: all_python(CONTAINERS[t[1]][1], v) for k, v in raw.items()}
    by = {f[0]: (py, f[5]) for py, f in CLASSES[t[1]][2].items()}
    return {(by[k][0] if k in by else k): (all_python(by[k][1], v) if k in by else v) for k, v in raw.items()}


def document(cx, field):
    """Whole documents, all names replaced."""
    raw = doc(**{field: complete("AsyncAPI3")[field]}) if field != "all" else complete("AsyncAPI3")
    raw = {**raw, "info": {"title": cx.str("title", 3), "version": "1"}}
    ok, a = attempt(cls("AsyncAPI3").model_validate, raw)
    ok2, b = attempt(cls("AsyncAPI3").model_validate, all_python(("model", "AsyncAPI3"), raw))
    cx.check(ok and ok2, "the document was rejected")
    if ok and ok2:
        cx.check(same(dump(a), dump(b)), "the document differs by the names used")
    cx.reach("accepted" if ok and ok2 else "rejected")


def assigned(cx, cname, pys):
    """Attributes read back what was assigned under the field name, and it is written under the document name."""
    m = cls(cname).model_validate(complete(cname) if cx.choose("complete", 2) else minimal_model(cname))
    py = cx.pick("field", pys)
    alias, req, default, nullable, omitted, t = CLASSES[cname][2][py]
    v, exp = simple(cx, t, "v")
    if cname == "AsyncAPI3" and py == "asyncapi":
        v = exp = "3.0.1"
    ok, _ = attempt(setattr, m, py, v)
    if not ok:
        cx.check(cname in RULED or cname == "CorrelationID", f"{cname}.{py}: a valid value was refused")
        return
    d = dump(m)
    cx.check(alias in d and agree(exp, d[alias]), f"{cname}.{py} is written as {alias}")
    cx.check(py == alias or py not in d, f"{cname}.{py} is not written under its field name")
    if t[0] in ("str", "int", "bool", "lit", "email"):
        cx.check(same(getattr(m, py), v), f"{cname}.{py} reads back")
    cx.reach("assigned")
    if nullable:
        ok, _ = attempt(setattr, m, py, None)
        if ok:
            cx.check(getattr(m, py) is None, f"{cname}.{py} is null")
            cx.check(alias not in dump(m) if omitted else dump(m)[alias] is None, f"a null {cname}.{py} is {'omitted' if omitted else 'written'}")
            cx.reach("nulled")
        else:
            cx.check(cname in RULED, f"{cname}.{py}: null was refused")


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    if not _f:
        continue
    _picks = [None, *_f, "all"]
    HARNESSES.append(H(f"spellings[{_n}]", spellings, reach=["accepted"], cname=_n, picks=_picks, bounds="each field alone or all together; 6 ways to give them; texts of 0..2 characters"))
    if _n not in ("Reference", "OAuthFlows"):
        HARNESSES.append(H(f"assigned[{_n}]", assigned, reach=["assigned"], cname=_n, pys=list(_f), bounds="each field of a minimal and of a complete object, then null"))
for _p, _n in [
    (("info",), "Info"), (("info", "contact"), "Contact"), (("servers", "s"), "Server"), (("channels", "c"), "Channel"), (("components",), "Components"),
    (("channels", "c", "messages", "m"), "Message"), (("operations", "o"), "Operation"), (("components", "messages", "m", "traits", 0), "MessageTrait"),
    (("components", "securitySchemes", "s"), "SecurityScheme"), (("servers", "s", "variables", "v"), "ServerVariable"), (("components", "schemas", "s"), "Schema"),
    (("components", "securitySchemes", "s", "flows", "implicit"), "OAuthFlow"), (("channels", "c", "bindings"), "ChannelBindingsObject"),
    (("servers", "s", "bindings", "mqtt"), "MQTTServerBindings"), (("channels", "c", "bindings", "sqs", "queue"), "SQSQueue"),
    (("components", "operationBindings", "b", "solace", "destinations", 0), "SolaceDestination"), (("operations", "o", "reply"), "OperationReply"),
]:
    if member(type_at(_p[:-1]), _p[-1]) is not None:
        HARNESSES.append(H(f"inside[{'/'.join(map(str, _p))}]", inside, reach=["accepted"], path=_p, cname=_n, picks=[None, *CLASSES[_n][2], "all"], bounds="each field alone or all together"))
HARNESSES += [H(f"document[{_f}]", document, reach=["accepted"], field=_f, bounds="complete content, every name replaced") for _f in ("servers", "channels", "operations", "components", "all")]
