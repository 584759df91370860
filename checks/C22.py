"""C22: parsing, checking and writing have no memory and no side effects."""

import copy

from checks.values import *
from checks.C13 import SHALLOW, fill
from sx.harness import H


def frozen(v):
    """A copy of plain data that shares nothing with it."""
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [frozen(x) for x in v]
    return v


def inputs_kept(cx, cname, pys):
    """Parsing leaves its input alone, accepted or not; what is made does not change when it is written."""
    raw = dict(complete(cname)) if cx.choose("complete", 2) else dict(minimal_model(cname))
    py = cx.pick("field", [None, *pys])
    if py is not None:
        f = CLASSES[cname][2][py]
        how = cx.pick("how", ["good", "wrong", "null"])
        raw[f[0]] = simple(cx, f[5], "v")[0] if how == "good" else object if how == "wrong" else None
        if how == "wrong":
            raw[f[0]] = cx.pick("wrong", [5, "zz", [1], {"zz": [2]}])
    raw = frozen(raw)
    before = frozen(raw)
    way = cx.pick("way", ["parse", "construct"])
    ok, m = attempt(cls(cname).model_validate, raw) if way == "parse" else attempt(cls(cname), **raw)
    cx.check(same(raw, before), f"making {cname} changed its input")
    if ok:
        d = dump(m)
        cx.check(same(d, dump(m)), "writing twice gives the same")
        ok2, n = attempt(cls(cname).model_validate, raw)
        cx.check(ok2 and same(dump(n), d), "the same input gives the same object")
        cx.check(n == m, "objects of the same content are equal")
        frozen_d = frozen(d)
        ok3, _ = attempt(cls(cname).model_validate, d)
        cx.check(same(d, frozen_d), "reading back changed what was written")
    cx.reach("accepted" if ok else "refused")


def apart(cx, cname, pys):
    """Two objects of the same input do not follow each other's changes."""
    raw = frozen(complete(cname) if cx.choose("complete", 2) else minimal_model(cname))
    before = frozen(raw)
    a = cls(cname).model_validate(raw)
    b = cls(cname).model_validate(raw)
    d = dump(b)
    py = cx.pick("field", pys)
    f = CLASSES[cname][2][py]
    attempt(setattr, a, py, simple(cx, f[5], "v")[0])
    held = getattr(a, py)
    if type(held).__name__ in CONTAINERS:
        held["new"] = entry(type(held).__name__)
        for k in list(held):
            if k != "new":
                del held[k]
    elif hasattr(held, "model_fields_set"):
        for p, g in CLASSES[type(held).__name__][2].items():
            attempt(setattr, held, p, None)
            attempt(setattr, held, p, "zz")
    if CLASSES[cname][1] != "forbid":
        attempt(setattr, a, "x-new", 1)
    cx.check(same(dump(b), d), f"changing one {cname} changed another")
    cx.check(same(raw, before), f"changing {cname} changed the input it was made from")
    ok, c = attempt(cls(cname).model_validate, raw)
    cx.check(ok and same(dump(c), d), f"changing one {cname} changed what is made next")


def verdict(V, spec):
    return accepts(V, spec)


def history(cx, vname, positions, same_instance):
    """The verdict on a document does not depend on the documents and references seen before."""
    import asyncapi3.validators as v

    path, kinds = cx.pick("position", positions)
    kind = kinds[0]
    home = HOMES[kind][0]
    other = "Tag" if kind != "Tag" else "Schema"
    a, r = name_(cx, "a"), name_(cx, "r")
    for x in (a, r):
        cx.assume(x != "c")
        cx.assume(x != "k1")
    p = fill(path, ["k1", "k2", "k3", "k4"])
    ref = {"$ref": pointer_to(home, r)}
    holding = merge(merge(doc(channels={"c": {}}), nested(home, {a: HOMES[kind][1]})), at(p, ref))
    lacking = merge(doc(channels={"c": {}}), at(p, ref))
    full = merge(merge(doc(channels={"c": {}}), nested(home, {r: HOMES[kind][1]})), at(p, ref))
    loop = merge(merge(doc(channels={"c": {}}), nested(home, {r: {"$ref": pointer_to(home, r)}})), at(p, ref))
    first = cx.pick("first", ["lacking", "full", "loop"][: 3 if vname.startswith("Unified") else 2])  # the others leave loops to it
    D = cls("AsyncAPI3")
    ok, d1 = attempt(D.model_validate, {"lacking": lacking, "full": full, "loop": loop}[first])
    ok2, d2 = attempt(D.model_validate, holding)
    cx.check(ok and ok2, "a document was refused")
    if not (ok and ok2):
        return
    V = getattr(v, vname)
    V1 = V()
    verdict(V1, d1)
    V2 = V1 if same_instance else V()
    good = a == r
    got = verdict(V2, d2)
    cx.check(Iff(got, good), f"after a {first} document, {'/'.join(map(str, path))} was {'accepted' if got else 'refused'}")
    cx.check(Iff(verdict(V2, d2), good), "the second verdict differs from the first")
    cx.check(Iff(verdict(V1, d1), first == "full"), "going back to the first document changed its verdict")
    cx.reach("accepted" if got else "refused")


def resolved(cx):
    """Resolution in one document does not remember another, nor references resolved before."""
    from asyncapi3.validators.utils import resolve_reference

    a, b, r = name_(cx, "a"), name_(cx, "b"), name_(cx, "r")
    D = cls("AsyncAPI3")
    mp = cx.pick("map", ["tags", "schemas", "messages"])
    item = {"name": "n"} if mp == "tags" else {}
    one = D.model_validate(doc(components={mp: {a: item}}))
    two = D.model_validate(doc(components={mp: {b: {"$ref": f"#/components/{mp}/zzz"}, "zzz": item}}))
    ref = f"#/components/{mp}/" + r
    for i in range(3):
        spec = cx.pick(f"doc{i}", ["one", "two"])
        ok, out = attempt(resolve_reference, ref, one if spec == "one" else two)
        cx.check(Iff(ok, r == a if spec == "one" else Or(r == b, r == "zzz")), f"resolution {i} in document {spec}")
        if ok:
            m = getattr((one if spec == "one" else two).components, mp)
            cx.check(out.resolved_object is (m[a] if spec == "one" else m["zzz"]), "the object of this document is found")
            cx.reach("found")
        else:
            cx.reach("missing")


def rechained(cx, mp):
    """Resolution follows the document as its chains are changed."""
    from asyncapi3.validators.utils import resolve_reference

    py, kind, item = {"tags": ("tags", "Tag", lambda i: {"name": str(i)}), "schemas": ("schemas", "Schema", lambda i: {"title": str(i)}),
                      "externalDocs": ("external_docs", "ExternalDocumentation", lambda i: {"url": f"https://e.com/{i}"})}[mp]
    r = name_(cx, "r")
    to = lambda k: {"$ref": f"#/components/{mp}/" + k}
    state = {"a": "b", "b": "d", "c": "a", "d": 0}
    spec = cls("AsyncAPI3").model_validate(doc(components={mp: {k: to(v) if isinstance(v, str) else item(v) for k, v in state.items()}}))
    for i in range(3):
        k, n = r, 0
        while n < 6 and k is not None:
            hit = [x for x in state if k == x]
            k = state[hit[0]] if hit else None
            n += 1
            if isinstance(k, int):
                break
        ok, out = attempt(resolve_reference, f"#/components/{mp}/" + r, spec)
        cx.check(ok == isinstance(k, int), f"resolution {i} is {'accepted' if ok else 'refused'}")
        if ok:
            cx.check(same(tidy_item(out.resolved_object), item(k)), f"resolution {i} found another object")
        cx.reach("found" if ok else "missing")
        if i == 2:
            return
        held = getattr(spec.components, py)
        op = cx.pick(f"op{i}", ["replace", "remove", "short", "loop", "edit", "whole", "nothing"])
        if op == "replace":
            held["d"] = item(i + 1)
            state["d"] = i + 1
        elif op == "remove":
            if "d" in state:
                del held["d"], state["d"]
        elif op == "short":
            held["a"] = item(i + 5)
            state["a"] = i + 5
        elif op == "loop":
            held["b"] = to("c")
            state["b"] = "c"
        elif op == "edit":
            if isinstance(state.get("d"), int):
                setattr(held["d"], {"tags": "name", "schemas": "title", "externalDocs": "url"}[mp], item(i + 8)[{"tags": "name", "schemas": "title", "externalDocs": "url"}[mp]])
                state["d"] = i + 8
        elif op == "whole":
            state = {"a": i + 12, "d": "a"}
            setattr(spec.components, py, {"a": item(i + 12), "d": to("a")})


def tidy_item(m):
    return {k: str(v) for k, v in dump(m).items() if v is not None and k in ("name", "title", "url")}


def changed(cx, vname):
    """The verdict follows the document as it is changed."""
    import asyncapi3.validators as v

    V = getattr(v, vname)()
    D = cls("AsyncAPI3")
    mp, kind = ("externalDocs", "ExternalDocumentation") if vname.startswith("External") else ("tags", "Tag")
    py = {"externalDocs": "external_docs"}.get(mp, mp)
    a, r = name_(cx, "a"), name_(cx, "r")
    ref = {"$ref": f"#/components/{mp}/" + r}
    raw = doc(components={mp: {a: minimal_model(kind)}})
    raw["info"] = {"title": "t", "version": "1", mp: [ref] if mp == "tags" else ref}
    spec = D.model_validate(raw)
    have = [a]
    for i in range(3):
        cx.check(Iff(verdict(V, spec), Or(*[r == x for x in have])), f"verdict {i}")
        op = cx.pick(f"op{i}", ["add", "remove", "clear", "fix", "repoint"])
        held = getattr(spec.components, py)
        if op == "add":
            held["new"] = minimal_model(kind)
            have = [*have, "new"]
        elif op == "remove":
            for x in list(held):
                if x == a:
                    del held[x]
            have = [x for x in have if not (x is a)]
        elif op == "clear":
            setattr(spec.components, py, None)
            setattr(spec.components, py, {})
            have = []
        elif op == "fix":
            setattr(spec.info, py, None if mp == "externalDocs" else [])
            cx.check(verdict(V, spec), "a document without references was refused")
            return
        else:
            r = "new"
            x = {"$ref": f"#/components/{mp}/new"}
            setattr(spec.info, py, [x] if mp == "tags" else x)
    cx.check(Iff(verdict(V, spec), Or(*[r == x for x in have])), "last verdict")
    cx.reach("end")


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    if _f and _n != "AsyncAPI3":
        HARNESSES.append(H(f"inputs[{_n}]", inputs_kept, reach=["accepted", "refused"], cname=_n, pys=list(_f), bounds="minimal and complete object with each field given, null or wrong"))
        HARNESSES.append(H(f"apart[{_n}]", apart, cname=_n, pys=list(_f), bounds="minimal and complete object, each field changed and emptied"))
HARNESSES.append(H("inputs[AsyncAPI3]", inputs_kept, reach=["accepted", "refused"], cname="AsyncAPI3", pys=list(CLASSES["AsyncAPI3"][2]), bounds="minimal and complete document with each field given, null or wrong"))
HARNESSES.append(H("apart[AsyncAPI3]", apart, cname="AsyncAPI3", pys=list(CLASSES["AsyncAPI3"][2]), bounds="minimal and complete document, each field changed and emptied"))
_U = [(p, k) for p, k in SHALLOW if k[0] in HOMES]
for _i in range(4):
    for _s in (0, 1):
        HARNESSES.append(H(f"history-unified-{_i}{'-one' if _s else ''}", history, reach=["accepted", "refused"], vname="UnifiedReferencesValidator", positions=_U[_i::4], same_instance=_s,
                           bounds="positions of every kind, 3 kinds of earlier document, names of 1..2 characters; " + ("one validator for both" if _s else "a new validator")))
for _v, _k in (("TagsRefValidator", "Tag"), ("ExternalDocsRefValidator", "ExternalDocumentation")):
    _ps = [(p, k) for p, k in REF_POSITIONS if k == [_k] and p[0] in ("info", "servers", "channels", "operations") and len(p) < 5 and "parameters" not in p]
    HARNESSES.append(H(f"history-{_v}", history, reach=["accepted", "refused"], vname=_v, positions=_ps, same_instance=1, bounds="positions up to four levels deep, 2 kinds of earlier document, names of 1..2 characters"))
HARNESSES.append(H("resolved", resolved, reach=["found", "missing"], bounds="3 resolutions in 2 documents in any order, names of 1..2 characters"))
for _m in ("tags", "schemas", "externalDocs"):
    HARNESSES.append(H(f"rechained[{_m}]", rechained, reach=["found", "missing"], mp=_m, bounds="3 resolutions in a document with chains of up to 4 references, changed in 7 ways between them, names of 1..2 characters"))
for _v in ("TagsRefValidator", "ExternalDocsRefValidator", "UnifiedReferencesValidator"):
    HARNESSES.append(H(f"changed[{_v}]", changed, reach=["end"], vname=_v, bounds="3 changes of 5 kinds, names of 1..2 characters"))
