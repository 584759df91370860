"""C27: external references are reported by warnings, and the documented hooks of the reference validators decide."""

from checks.common import *
from checks.C13 import SHALLOW, base, fill, splice, target
from checks.C14 import MUST as TAGS
from checks.C15 import MUST as DOCS
from sx import warned
from sx.harness import H

KIND = {"TagsRefValidator": ("tags", "Tag", "tag_ref"), "ExternalDocsRefValidator": ("externalDocs", "ExternalDocumentation", "external_doc_ref")}


def vcls(name):
    import asyncapi3.validators as v

    return getattr(v, name)


def quoted(logged, text):
    """A warning quotes the text."""
    r = False
    for level, texts in logged:
        for t in texts:
            if isinstance(t, str) or type(t).__name__ == "SymStr":
                r = Or(r, text in t)
    return r


LIKE = {"http://": "http://2.", "https://a.b/c#/": "https://b.b/c#/", "": "!", "./x": "./y"}  # another start


def warns(cx, vname, positions, n, through):
    """Every external reference the validator looks at is reported by a warning quoting it; without any there is none."""
    path = cx.pick("position", positions)
    kinds = dict((p, k) for p, k in REF_POSITIONS)[path]
    first = cx.pick("lead", ["http://", "https://a.b/c#/"] if vname == "UnifiedReferencesValidator" else ["", "https://a.b/c#/", "./x"])
    text = first + cx.str("ref", n)
    extra, inner = target(kinds[0], "t")
    raw = merge(base(), extra)
    what = cx.pick("references", ["one", "two", "none"])
    cx.assume(Not(text.startswith("#")))
    p = fill(path, ["k1", "k2", "k3", "k4"])
    spots = [i for i, x in enumerate(path) if x in (KEY, 0)]
    other = cx.pick("other", ["http://second/" + text, LIKE[first] + text])
    r = at(p, {"$ref": inner if what == "none" else text})
    if what == "two" and spots:
        r = splice(r, at(p, {"$ref": other}), p, spots[cx.choose("repeat at", len(spots))])
    raw = merge(raw, r)
    ok, spec = attempt(cls("AsyncAPI3").model_validate, raw)
    cx.check(ok, "the document itself was rejected")
    if not ok:
        return
    logged = warned.start()
    if through == "call":
        ok, _ = attempt(vcls(vname)(), spec)
    else:
        ok, _ = attempt(cls("AsyncAPI3").model_validate, {**raw, "extra_validators": [vcls(vname)]})
    warned.stop()
    cx.check(ok, "a document with external references was refused")
    if what == "none":
        cx.check(len(logged) == 0, f"{'/'.join(map(str, path))}: a warning without external references")
        cx.reach("silent")
        return
    cx.check(quoted(logged, text), f"{'/'.join(map(str, path))}: no warning quotes the external reference")
    if what == "two" and spots:
        cx.check(quoted(logged, other), f"{'/'.join(map(str, path))}: no warning quotes the other external reference")
    cx.check(all(level == 30 for level, _ in logged), "external references are reported by warnings only")
    cx.reach("warned")


def again(cx, vname, positions):
    """What was reported before does not silence a later run: on the same document, or on another one with the same or another reference."""
    path = cx.pick("position", positions)
    text = cx.str("text", 2)
    two = cx.pick("two", ["same", "other"])
    one, other = "http://1" + text, ("http://1" if two == "same" else "http://2") + text
    p = fill(path, ["k1", "k2", "k3", "k4"])
    V = vcls(vname)
    v = V()
    later = cx.pick("later", ["same validator", "other validator", "parse"])
    for i, ref in enumerate([one, other]):
        raw = merge(base(), at(p, {"$ref": ref}))
        ok, spec = attempt(cls("AsyncAPI3").model_validate, raw)
        cx.check(ok, "the document itself was rejected")
        if not ok:
            return
        logged = warned.start()
        if i and later == "parse":
            ok, _ = attempt(cls("AsyncAPI3").model_validate, {**raw, "extra_validators": [V]})
        else:
            ok, _ = attempt(V() if i and later == "other validator" else v, spec)
        warned.stop()
        cx.check(ok, "a document with external references was refused")
        cx.check(quoted(logged, ref), f"{'/'.join(map(str, path))}: no warning quotes the external reference of document {i + 1}")
    cx.reach("warned")


def hooked(cx, vname, positions, n, lead):
    """Overriding the handling of external or internal references replaces it for every reference, and only for that kind."""
    cmap, kind, hook = KIND[vname]
    path = cx.pick("position", positions)
    text = lead + cx.str("ref", n)
    act = cx.pick("act", ["accept", "refuse", "defer"])
    over = cx.pick("override", ["external", "internal", "both"])
    V = vcls(vname)
    calls = []

    def handler(which):
        def run(self, spec, ref, context):
            calls.append([which, ref.ref, type(spec).__name__, isinstance(context, str)])
            if act == "refuse":
                raise ValueError("mine")
            if act == "defer":
                getattr(V, f"validate_{which}_{hook}")(self, spec, ref, context)

        return run

    class Mine(V):
        pass

    for which in ("external", "internal"):
        if over in (which, "both"):
            setattr(Mine, f"validate_{which}_{hook}", handler(which))
    raw = merge(base(), {"components": {cmap: {"a": minimal_model(kind)}}})
    raw = merge(raw, at(fill(path, ["k1", "k2", "k3"]), {"$ref": text}))
    through = cx.pick("through", ["call", "parse"])
    if through == "call":
        ok, spec = attempt(cls("AsyncAPI3").model_validate, raw)
        cx.check(ok, "the document itself was rejected")
        if not ok:
            return
        ok, e = attempt(Mine(), spec)
    else:
        ok, e = attempt(cls("AsyncAPI3").model_validate, {**raw, "extra_validators": [Mine]})
    inner = text.startswith("#")
    good = text == f"#/components/{cmap}/a"
    if path[:2] == ("components", cmap) and len(path) == 3:
        good = Or(good, text == f"#/components/{cmap}/k1")
    good = Or(good, Not(inner))
    where = "/".join(map(str, path))
    if inner:
        mine, which = over != "external", "internal"
    else:
        mine, which = over != "internal", "external"
    if mine:
        cx.check(len(calls) > 0, f"{where}: the override was not asked")
        cx.check(same([[w, r] for w, r, _, _ in calls[:1]], [[which, text]]), f"{where}: the override was asked about something else")
        cx.check(all(w == which and s == "AsyncAPI3" and c for w, _, s, c in calls), f"{where}: the override got the wrong arguments")
        want = True if act == "accept" else False if act == "refuse" else good
    else:
        cx.check(len(calls) == 0, f"{where}: the override was asked about a reference of the other kind")
        want = good
    cx.check(Iff(ok, want), f"{where}: {'accepted' if ok else 'refused'} against the override")
    cx.reach("accepted" if ok else "refused")


HARNESSES = []
for _v, _ps in (("TagsRefValidator", TAGS), ("ExternalDocsRefValidator", DOCS), ("UnifiedReferencesValidator", [p for p, _ in SHALLOW])):
    for _i in range(2):
        HARNESSES.append(H(f"again[{_v}]-{_i}", again, reach=["warned"], vname=_v, positions=_ps[_i::2], bounds="every listed position; two documents, references of 0..2 free characters"))
for _v, _ps in (("TagsRefValidator", TAGS), ("ExternalDocsRefValidator", DOCS), ("UnifiedReferencesValidator", [p for p, _ in SHALLOW])):
    for _i in range(3):
        HARNESSES.append(H(f"warns[{_v}]-{_i}", warns, reach=["warned", "silent"], vname=_v, positions=_ps[_i::3], n=2, through="call" if _i else "parse",
                           bounds="every listed position; 3 starts and 0..2 characters; alone or with another external reference"))
for _v, _ps in (("TagsRefValidator", TAGS), ("ExternalDocsRefValidator", DOCS)):
    for _i in range(4):
        for _lead in ("", f"#/components/{KIND[_v][0]}/"):
            HARNESSES.append(H(f"hooked[{_v}{' catalogue' if _lead else ''}]-{_i}", hooked, reach=["accepted", "refused"], vname=_v, positions=_ps[_i::4], n=2, lead=_lead,
                               bounds="every listed position; overrides of either or both kinds that accept, refuse or defer; nothing or the catalogue path, and 0..2 characters"))
