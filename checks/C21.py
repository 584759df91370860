"""C21: the builder makes a valid, empty, checked document from what it is given, independent of other documents."""

from checks.values import *
from sx.harness import H

COMPONENT_MAPS = {f[0]: py for py, f in CLASSES["Components"][2].items()}
EMPTY = {
    "asyncapi": "3.0.0", "info": {"title": "Sample APP", "version": "0.0.1"}, "servers": {}, "channels": {}, "operations": {},
    "components": {a: {} for a in COMPONENT_MAPS},
}


def build(**kw):
    return attempt(cls("AsyncAPI3").as_builder, **kw)


def empty(cx):
    """Nothing given: the documented defaults; every collection is there, empty, and can be filled at once."""
    ok, m = build()
    cx.check(ok, "the builder refused nothing")
    d = dump(m)
    cx.check(agree(Obj({**EMPTY, "info": Obj(EMPTY["info"]), "components": Obj(EMPTY["components"])}), d), "the documented defaults")
    c = cx.pick("collection", ["servers", "channels", "operations", *COMPONENT_MAPS])
    name = name_(cx, "name")
    held = getattr(m, c) if c in EMPTY else getattr(m.components, COMPONENT_MAPS[c])
    kind = {"servers": "Servers", "channels": "Channels", "operations": "Operations"}.get(c) or next(k for k, ps in MAP_POSITIONS.items() if ("components", c) in ps)
    cx.check(type(held) is cls(kind), f"{c} is a {kind} map")
    item = entry(kind)
    if kind == "Operations":
        item = {"$ref": "https://a.b/c"}
    held[name] = item
    d2 = dump(m)
    where = d2[c] if c in EMPTY else d2["components"][c]
    cx.check(And(len(where) == 1, name in where), "the entry is in the document")
    ok, other = build()
    cx.check(same(dump(other), d), "another document is empty")
    ok, again = attempt(cls("AsyncAPI3").model_validate, d2)
    cx.check(ok, "the filled document is valid")


INFO = ["title", "version", "description", "terms_of_service", "contact", "license", "tags", "external_docs"]


def info(cx, pick):
    """Everything given about the application is in its information object, the rest are defaults."""
    kw = {}
    for n in INFO:
        if n not in pick:
            continue
        how = cx.pick(n + "#how", ["absent", "given", "null"] if n not in ("title", "version") else ["absent", "given"])
        if how == "null":
            kw[n] = None
        elif how == "given":
            kw[n] = {
                "title": lambda: cx.str("title", 3), "version": lambda: cx.str("version", 2), "description": lambda: cx.str("description", 2),
                "terms_of_service": lambda: URL, "contact": lambda: cls("Contact")(name=cx.str("cname", 1)), "license": lambda: cls("License")(name=cx.str("lname", 1)),
                "tags": lambda: [cls("Tag")(name=cx.str("tname", 1)) for _ in range(cx.choose("tags#n", 3))],
                "external_docs": lambda: cls("ExternalDocumentation")(url=URL) if cx.choose("docs#ref", 2) else cls("Reference")(ref="https://a.b/" + cx.str("dref", 1)),
            }[n]()
    ok, m = build(**kw)
    cx.check(ok, "valid information was refused")
    if not ok:
        return
    d = dump(m)["info"]
    want = {"title": "Sample APP", "version": "0.0.1"}
    alias = {"terms_of_service": "termsOfService", "external_docs": "externalDocs"}
    for n, v in kw.items():
        if v is not None:
            want[alias.get(n, n)] = [dump(x) for x in v] if isinstance(v, list) else v if isinstance(v, str) else dump(v)
    cx.check(agree(Obj(want), d), "the information object holds what was given")
    cx.check(agree(Obj(EMPTY["components"]), dump(m)["components"]), "and nothing else is in the document")
    cx.reach("built")


def given(cx, fields):
    """Other fields replace the builder's own, given as data or as objects, by field name or document name."""
    f = cx.pick("field", fields)
    alias, _, _, nullable, _, t = CLASSES["AsyncAPI3"][2][f]
    k = name_(cx, "name")
    raw = {"servers": {k: minimal_model("Server")}, "channels": {k: {}}, "operations": {}, "components": {"schemas": {k: {}}, "x-e": 1}, "asyncapi": "3.1.0-" + k,
           "id": URL, "default_content_type": cx.str("ct", 2)}[f]
    how = cx.pick("how", ["data", "object", "null", "by document name"])
    v = raw
    if how == "object":
        v = getattr(cls("AsyncAPI3").model_validate({**doc(), alias: raw}), f)
    elif how == "null":
        if not nullable:
            return
        v = None
    ext = cx.choose("extension", 2)
    kw = {alias if how == "by document name" else f: v}
    if how == "by document name" and alias != f:
        kw = {alias: v}
    if ext:
        kw["x-e.1"] = cx.int("ext")
    ok, m = build(**kw)
    cx.check(ok, f"a valid {f} was refused")
    if not ok:
        return
    d = dump(m)
    if how == "null":
        cx.check(alias not in d, f"a null {f} is absent")
    else:
        cx.check(agree(expected(t, raw), d[alias]), f"{f} is what was given")
    for o in ("servers", "channels", "operations"):
        if o != f:
            cx.check(o in d and len(d[o]) == 0, f"{o} is empty")
    if f != "components":
        cx.check(agree(Obj(EMPTY["components"]), d["components"]), "the components are there and empty")
    cx.check(("x-e.1" in d) == bool(ext), "the extension is kept")
    cx.reach(how)


def same_verdict(cx):
    """The builder refuses exactly what construction with the reference validator refuses."""
    from asyncapi3.validators import UnifiedReferencesValidator

    k, r = name_(cx, "k"), name_(cx, "r", 3)
    case = cx.pick("case", ["reference", "key", "version", "extension", "field", "title", "info"])
    kw = {"channels": {"c": {}}}
    if case == "reference":
        kw["operations"] = {"o": {"action": "send", "channel": {"$ref": cx.pick("lead", ["#/channels/", "#/servers/", "#/components/channels/", "", "#/"]) + r}}}
        kw["channels"] = {k: {}}
    elif case == "key":
        kw["channels"] = {cx.str("key", 2): {}}
    elif case == "version":
        kw["asyncapi"] = "3." + cx.str("v", 3)
    elif case == "extension":
        kw[cx.pick("ext", ["x-a", "x-", "xa", "X-a", "x-a b", "x-a\n", "x-.-_", "foo"])] = 1
    elif case == "field":
        kw["servers"] = {"s": {"host": "h"}}
    elif case == "title":
        kw["title"] = cx.pick("t", [5, None, "t"])
    elif case == "info":
        kw["external_docs"] = cx.pick("d", [{"url": "no url"}, {"$ref": "#/components/externalDocs/" + r}, {"url": URL}])
    ok, m = build(**kw)
    raw = {n: v for n, v in kw.items() if n not in ("title", "external_docs")}
    i = {"title": kw.get("title", "Sample APP"), "version": "0.0.1"}
    if "external_docs" in kw:
        i["externalDocs"] = kw["external_docs"]
    raw = {"info": i, **raw, "extra_validators": [UnifiedReferencesValidator]}
    ok2, n = attempt(cls("AsyncAPI3").model_validate, raw)
    cx.check(ok == ok2, f"the builder {'accepted' if ok else 'refused'} what construction did not")
    cx.reach("accepted" if ok else "refused")
    if not ok and case == "reference":
        ok3, _ = build(**{**kw, "extra_validators": []})
        cx.check(ok3, "a builder told not to check references checked them")
    if ok:
        ok3, _ = attempt(setattr, m, "operations", {"p": {"action": "send", "channel": {"$ref": "#/channels/none"}}})
        cx.check(not ok3, "the builder's document accepts a dangling reference later")


def apart(cx):
    """Documents built one after another share nothing."""
    a, b = name_(cx, "a"), name_(cx, "b")
    ok, m = build(title="A")
    ok2, n = build(title="B")
    before = dump(n)
    what = cx.pick("what", ["servers", "schemas", "messages", "tags", "title", "validators", "extension"])
    if what == "servers":
        m.servers[a] = minimal_model("Server")
        del m.servers[a]
        m.servers[b] = minimal_model("Server")
    elif what == "title":
        m.info.title = a
        m.info.description = b
    elif what == "validators":
        m.extra_validators.clear()
        m.extra_converters.append(5)
    elif what == "extension":
        setattr(m, "x-" + a, 1)
    else:
        getattr(m.components, what)[a] = {"name": "n"}
    cx.check(same(dump(n), before), "changing one document changed another")
    ok3, o = build(title="B")
    cx.check(ok3 and same(dump(o), before), "changing a document changed the builder")
    ok4, _ = build(operations={"o": {"action": "send", "channel": {"$ref": "#/channels/none"}}})
    cx.check(not ok4, "the builder no longer checks references")


HARNESSES = [H("empty", empty, bounds="each of the 22 collections filled with one entry, names of 1..2 characters")]
for _i, _p in enumerate([["title", "version", "description"], ["terms_of_service", "contact", "license"], ["tags", "external_docs", "title"], ["contact", "tags", "description"], ["license", "external_docs", "version"]]):
    HARNESSES.append(H(f"info-{_i}", info, reach=["built"], pick=_p, bounds="three of the eight arguments absent, null or given, texts of 0..3 characters"))
HARNESSES += [
    H("given", given, reach=["data", "object", "null", "by document name"], fields=["servers", "channels", "operations", "components", "asyncapi", "id", "default_content_type"],
      bounds="7 fields, 4 ways to give them, with and without an extension"),
    H("same-verdict", same_verdict, reach=["accepted", "refused"], bounds="7 kinds of document; names, references, keys, versions and extensions of 0..3 characters"),
    H("apart", apart, bounds="7 kinds of change, names of 1..2 characters"),
    H("all-info", info, reach=["built"], pick=INFO, bounds="all eight arguments absent, null or given"),
]
