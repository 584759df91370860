"""Shared by C14 and C15: validators that tie one kind of reference to one components map."""

from checks.common import *
from checks.C13 import SHALLOW, fill, splice, splice_many, validate
from sx.harness import H


def call(name, spec):
    import asyncapi3.validators as v

    return attempt(getattr(v, name)(), spec)


def judged(cx, vname, raw, good, what, through="call"):
    D = cls("AsyncAPI3")
    if through == "call":
        ok, spec = attempt(D.model_validate, raw)
        cx.check(ok, "the document itself was rejected")
        if not ok:
            return
        before = dump(spec)
        ok, out = call(vname, spec)
        if ok:
            cx.check(out is spec, "the validator hands back the document")
        cx.check(same(dump(spec), before), "the validator changes nothing")
    else:
        import asyncapi3.validators as v

        if through == "parse":
            ok, _ = attempt(D.model_validate, {**raw, "extra_validators": [getattr(v, vname)]})
        else:
            kw = {k: x for k, x in raw.items() if k != "asyncapi"}
            ok, _ = attempt(D.as_builder, **{**kw, "extra_validators": [getattr(v, vname)]})
    cx.check(good if ok else Not(good), f"{what}: {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


def base():
    return doc(channels={"c": {}})


def catalogue(cmap, obj, names):
    return {"components": {cmap: {n: dict(obj) for n in names}}} if names is not None else {}


def free(cx, vname, cmap, obj, positions, n, lead):
    """Every text of the reference."""
    path = cx.pick("position", positions)
    ref = lead + cx.str("ref", n)
    names = cx.pick("names", [None, [], ["a"], ["a", "bc"]])
    raw = merge(base(), catalogue(cmap, obj, names))
    raw = merge(raw, at(fill(path, ["k1", "k2", "k3"]), {"$ref": ref}))
    mine = [] if names is None else list(names)
    if path[:2] == ("components", cmap) and len(path) == 3:
        mine.append("k1")
    good = Not(ref.startswith("#"))
    for x in mine:
        good = Or(good, ref == "#/components/" + cmap + "/" + x)
    judged(cx, vname, raw, good, "/".join(map(str, path)))


def named(cx, vname, cmap, obj, positions, n):
    """Names in the catalogue are free."""
    path = cx.pick("position", positions)
    a = cx.str("a", range(1, n + 1), KEYCHARS)
    r = cx.str("r", range(1, n + 1), KEYCHARS)
    k = cx.str("k", range(1, n + 1), KEYCHARS) if KEY in path else "k"
    for x in ("zz", k):
        cx.assume(a != x)
    cx.assume(k != "c")
    cx.assume(k != "zz")
    raw = merge(base(), catalogue(cmap, obj, ["zz", a] if cx.choose("order", 2) else [a, "zz"]))
    raw = merge(raw, at(fill(path, [k, "k2", "k3"]), {"$ref": "#/components/" + cmap + "/" + r}))
    good = Or(r == a, r == "zz", And(path[:2] == ("components", cmap), len(path) == 3, r == k))
    judged(cx, vname, raw, good, "/".join(map(str, path)), through=cx.pick("through", ["call", "parse", "build"]))


def later(cx, vname, cmap, obj, positions):
    """The offending reference is not the first entry of its list or map, and others are fine."""
    path = cx.pick("position", positions)
    bad = cx.pick("ref", ["#/components/" + cmap + "/zz", "#/components/" + cmap + "/a", "#/info", "#", "#/components/" + cmap + "/a/"])
    raw = merge(base(), catalogue(cmap, obj, ["a"]))
    p = fill(path, ["k1", "k2", "k3"])
    where = [i for i, x in enumerate(path) if x in (KEY, 0)]
    good = cx.pick("other", [{"$ref": "#/components/" + cmap + "/a"}, {"$ref": "https://a.b/c"}, dict(obj)])
    r = at(p, {"$ref": bad})
    if where:
        r = splice(r, at(p, good), p, where[cx.choose("repeat at", len(where))])
        if cx.choose("reverse", 2):
            r = backwards(r)
    judged(cx, vname, merge(raw, r), bad == "#/components/" + cmap + "/a", "/".join(map(str, path)))


def many(cx, vname, cmap, obj, positions):
    """One of many in its list or map, and a large catalogue."""
    path = cx.pick("position", positions)
    n = cx.pick("size", SIZES)
    bad = cx.choose("bad", 2)
    big = cx.choose("catalogue", 2)
    names = [f"m{j}" for j in range(n if big else 1)]
    raw = merge(base(), catalogue(cmap, obj, names))
    p = fill(path, ["k1", "k2", "k3"])
    where = [i for i, x in enumerate(path) if x in (KEY, 0)]
    r = at(p, {"$ref": "#/components/" + cmap + ("/zz" if bad else "/" + names[-1])})
    if where:
        r = splice_many(r, at(p, {"$ref": "#/components/" + cmap + "/m0"}), p, where[cx.choose("repeat at", len(where))], 1 if big else n, cx.choose("last", 2))
    if big and path[:2] == ("components", cmap):
        r = at(p, {"$ref": "#/components/" + cmap + ("/zz" if bad else "/" + names[-1])})
    judged(cx, vname, merge(raw, r), not bad, "/".join(map(str, path)))


def backwards(v):
    if isinstance(v, dict):
        return {k: backwards(x) for k, x in reversed(list(v.items()))}
    if isinstance(v, list):
        return [backwards(x) for x in reversed(v)]
    return v


def beside_references(cx, vname, cmap, obj, positions):
    """References standing where containers of the position could be are skipped, whatever they say."""
    path = cx.pick("position", positions)
    p = fill(path, ["k1", "k2", "k3"])
    cuts = [i for i, x in enumerate(path) if x in (KEY, 0) and i + 1 < len(path)]
    bad = cx.choose("bad", 2)
    raw = merge(base(), catalogue(cmap, obj, ["a"]))
    r = at(p, {"$ref": "#/components/" + cmap + ("/zz" if bad else "/a")})
    if cuts:
        i = cuts[cx.choose("cut", len(cuts))]
        if any(q == path[: i + 1] for q, _ in REF_POSITIONS):
            ref = "#/components/" + cmap + "/a" if any(q == path[: i + 1] for q in positions) else cx.pick("other ref", ["#/nowhere/at/all", "x"])
            r = splice(r, at(p[: i + 1], {"$ref": ref}), p, i)
    judged(cx, vname, merge(raw, r), not bad, "/".join(map(str, path)))


def unlisted(cx, vname, cmap, obj, positions):
    """Where the validator is not promised to look, right and external references are accepted all the same."""
    path = cx.pick("position", positions)
    ref = cx.pick("ref", ["#/components/" + cmap + "/a", "https://a.b/c"])
    raw = merge(merge(base(), catalogue(cmap, obj, ["a"])), at(fill(path, ["k1", "k2", "k3"]), {"$ref": ref}))
    judged(cx, vname, raw, True, "/".join(map(str, path)))


def ignored(cx, vname, positions):
    """References of other kinds are none of this validator's business."""
    path, kinds = cx.pick("position", positions)
    ref = cx.pick("ref", ["#/nowhere", "#", "x", "#/components/tags/none"])
    judged(cx, vname, merge(base(), at(fill(path, ["k1", "k2", "k3"]), {"$ref": ref})), True, "/".join(map(str, path)))


B = ["accepted", "rejected"]


def harnesses(vname, cmap, kind, must):
    obj = minimal_model(kind)
    mine = [p for p, k in REF_POSITIONS if k == [kind]]
    assert all(p in mine for p in must)
    other = [p for p in mine if p not in must]
    lead = "#/components/" + cmap + "/"
    kw = dict(vname=vname, cmap=cmap, obj=obj)
    hs = []
    for i in range(4):
        ps = must[i::4]
        hs.append(H(f"text-{i}", free, reach=B, positions=ps, n=3, lead=lead, bounds="every listed position; the catalogue path and 0..3 characters; 4 catalogues", **kw))
        hs.append(H(f"start-{i}", free, reach=B, positions=ps, n=3, lead="", bounds="every listed position; 0..3 characters", **kw))
        hs.append(H(f"names-{i}", named, reach=B, positions=ps, n=2, bounds="every listed position; names and reference of 1..2 characters; called, parsed and built", **kw))
        hs.append(H(f"later-{i}", later, reach=B, positions=ps, bounds="every listed position; second and first entry of each list and map on the way", **kw))
        hs.append(H(f"many-{i}", many, reach=B, positions=ps, bounds="every listed position; among 9, 33 and more others, first or last, or in a catalogue of as many (more: around integers new in the source)", **kw))
        hs.append(H(f"beside-references-{i}", beside_references, reach=B, positions=ps, bounds="every listed position; a reference beside each container on the way", **kw))
    first = must[:2]
    hs.append(H("prefix", free, reach=B, positions=first, n=6, lead=lead[:-4], bounds="two positions; most of the catalogue path and 0..6 characters", **kw))
    hs.append(H("whole", free, reach=B, positions=first[:1], n=len(lead) + 3, lead="", bounds="one position; every text up to two characters beyond the catalogue path", **kw))
    hs.append(H("repeated-prefix", free, reach=["rejected"], positions=first, n=3, lead=lead + lead, bounds="two positions; the catalogue path twice and 0..3 characters", **kw))
    if other:
        hs.append(H("elsewhere", unlisted, reach=["accepted"], positions=other, bounds="every other position of this kind", **kw))
    hs.append(H("other-kinds", ignored, reach=["accepted"], vname=vname, positions=[(p, k) for p, k in SHALLOW if k != [kind]], bounds="positions of every other kind"))
    return hs
