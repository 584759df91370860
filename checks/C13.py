"""C13: the reference validator accepts a document exactly when every reference reaches an object of the right kind."""

from checks.common import *
from sx.harness import H

OTHER = ["#/info", "#/info/title", "#/components", "#/components/schemas", "#/asyncapi"]
KINDS = list(HOMES)
WORDS = ["channel", "root", "messages", "payload", "traits", "key", "bindings", "servers", "security", "tags", "reply", "address", "external_docs", "0", "spec"]


def validate(spec):
    import asyncapi3.validators as v

    return attempt(v.UnifiedReferencesValidator(), spec)


def target(kind, name):
    home, obj = HOMES[kind]
    return nested(home, {name: dict(obj)}), pointer_to(home, name)


def base():
    """What the references that required fields bring along point to."""
    return doc(channels={"c": {}})


def fill(path, names):
    it = iter(names)
    return tuple(next(it) if x == KEY else x for x in path)


def run(cx, raw, good, what, through="call"):
    if through == "call":
        ok, spec = attempt(cls("AsyncAPI3").model_validate, raw)
        cx.check(ok, "the document itself was rejected")
        if not ok:
            return
        ok, out = validate(spec)
        if ok:
            cx.check(out is spec, "the validator hands back the document")
    else:
        import asyncapi3.validators as v

        ok, _ = attempt(cls("AsyncAPI3").model_validate, {**raw, "extra_validators": [v.UnifiedReferencesValidator]})
    if isinstance(good, bool):
        cx.check(ok == good, f"{what}: {'accepted' if ok else 'rejected'}")
    else:
        cx.check(good if ok else Not(good), f"{what}: {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


def single(cx, group):
    """One reference, every kind of target."""
    path, kinds = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    t = cx.pick("target", [*KINDS, "missing", "external", "root", "other"])
    raw = base()
    if t in HOMES:
        extra, ref = target(t, "t")
        raw = merge(raw, extra)
        good = t in kinds
    elif t == "missing":
        ref, good = target(kinds[0], "t")[1], False
    elif t == "external":
        ref, good = "https://example.com/x.json#/a", True
    elif t == "root":
        t, ref, extra = cx.pick("root", [("Server", "#/servers/t", {"servers": {"t": HOMES["Server"][1]}}), ("Channel", "#/channels/c", {}),
                                         ("Operation", "#/operations/t", {"operations": {"t": HOMES["Operation"][1]}}),
                                         ("Message", "#/channels/t/messages/m", {"channels": {"t": {"messages": {"m": {}}}}}),
                                         ("Parameter", "#/channels/t/parameters/m", {"channels": {"t": {"address": "{m}", "parameters": {"m": {}}}}})])
        raw, good = merge(raw, extra), t in kinds
    else:
        ref, good = cx.pick("other", OTHER), False
        raw = merge(raw, {"components": {"schemas": {}}})
    run(cx, merge(raw, at(p, {"$ref": ref})), good, f"{'/'.join(map(str, path))} -> {t}")


def names(cx, group, n, words):
    """Names on the way to the reference and of its target are free."""
    path, kinds = cx.pick("position", group)
    keys = len([x for x in path if x == KEY])
    ks = ["k"] * keys
    if keys:
        i = cx.choose("which", keys) if words else 0
        ks[i] = cx.pick("word", WORDS) if words else cx.str("k", range(1, n + 1), KEYCHARS)
    kind = cx.pick("kind", [kinds[0], "Schema" if kinds[0] == "CorrelationID" else "CorrelationID", kinds[-1]])
    if words:
        name = aim = cx.pick("target", ["t", "channel"])
    else:
        name = cx.str("name", range(1, n + 1), KEYCHARS)
        aim = cx.str("aim", range(1, n + 1), KEYCHARS)
    home = HOMES[kind][0]
    for i, x in enumerate(ks):
        cx.assume(x != "c")
        if i == 0:
            cx.assume(x != name)
            if not words:
                cx.assume(x != aim)
    if home[-1] == "channels" or not words:
        cx.assume(name != "c")
        cx.assume(aim != "c")
    extra, _ = target(kind, name)
    raw = merge(merge(base(), extra), at(fill(path, ks), {"$ref": pointer_to(home, aim)}))
    run(cx, raw, And(aim == name, kind in kinds), f"{'/'.join(map(str, path))} -> {kind}")


def pairs(cx, p1s, p2s):
    """Two references with the same or different targets: both count."""
    a, ka = cx.pick("first", p1s)
    b, kb = cx.pick("second", p2s)
    t = cx.pick("target", [ka[0], kb[0]] if ka[0] != kb[0] else [ka[0]])
    extra, ref = target(t, "t")
    raw = merge(base(), extra)
    n = min(len(a), len(b))
    alike = cx.pick("names", ["other", "same"]) if a[:n] != b[:n] else "other"
    one, two = at(fill(a, ["k1", "k2", "k3", "k4"]), {"$ref": ref}), at(fill(b, ["k1", "k2", "k3", "k4"] if alike == "same" else ["l1", "l2", "l3", "l4"]), {"$ref": ref})
    raw = merge(merge(raw, one), two)
    run(cx, raw, t in ka and t in kb, f"{'/'.join(map(str, a))} and {'/'.join(map(str, b))} -> {t}")


def chained(cx, group):
    """A reference to a reference: the end of the chain counts."""
    path, kinds = cx.pick("position", group)
    k = cx.pick("kind", [kinds[0], kinds[-1], "Tag" if kinds[0] != "Tag" else "Parameter"])
    home, obj = HOMES[k]
    end = cx.pick("end", ["object", "missing", "cycle", "external"])
    u = {"object": dict(obj), "missing": {"$ref": pointer_to(home, "none")}, "cycle": {"$ref": pointer_to(home, "t")}, "external": {"$ref": "http://a.b/c"}}[end]
    raw = merge(base(), nested(home, {"t": {"$ref": pointer_to(home, "u")}, "u": u}))
    raw = merge(raw, at(fill(path, ["k1", "k2", "k3", "k4"]), {"$ref": pointer_to(home, "t")}))
    run(cx, raw, end == "external" or (end == "object" and k in kinds), f"{'/'.join(map(str, path))} -> {k} -> {end}")


def second(cx, group):
    """References that are not the first element of their list or map."""
    path, kinds = cx.pick("position", group)
    t = cx.pick("target", [kinds[0], "Tag" if kinds[0] != "Tag" else "Schema"])
    extra, ref = target(t, "t")
    p = fill(path, ["k1", "k2", "k3", "k4"])
    where = cx.choose("repeat at", len([x for x in path if x in (KEY, 0)]))
    raw = multiply(at(p, {"$ref": ref}), at(p, {"$ref": "https://a.b/c"}), p, path, where)
    run(cx, merge(merge(base(), extra), raw), t in kinds, f"a later reference at {'/'.join(map(str, path))} -> {t}", through=cx.pick("through", ["call", "parse"]))


def many(cx, group):
    """The reference under test comes after (or before) many harmless ones."""
    path, kinds = cx.pick("position", group)
    t = cx.pick("target", [kinds[0], "Tag" if kinds[0] != "Tag" else "Schema"])
    extra, ref = target(t, "t")
    p = fill(path, ["k1", "k2", "k3", "k4"])
    spots = [i for i, x in enumerate(path) if x in (KEY, 0)]
    raw = splice_many(at(p, {"$ref": ref}), at(p, {"$ref": "https://a.b/c"}), p, spots[cx.choose("repeat at", len(spots))], cx.pick("size", SIZES), cx.choose("last", 2))
    run(cx, merge(merge(base(), extra), raw), t in kinds, f"one of many at {'/'.join(map(str, path))} -> {t}")


def splice_many(raw, good, p, i, n, last):
    k = p[0]
    if i:
        return [splice_many(raw[0], good[0], p[1:], i - 1, n, last)] if k == 0 else {**raw, k: splice_many(raw[k], good[k], p[1:], i - 1, n, last)}
    if k == 0:
        return [good[0]] * n + [raw[0]] if last else [raw[0]] + [good[0]] * n
    some = {f"n{j}": good[k] for j in range(n)}
    return {**some, k: raw[k]} if last else {k: raw[k], **some}


def multiply(raw, good, p, path, where):
    """The where-th list or map on the path holds the harmless branch first and the one under test second."""
    n = -1
    i = next(i for i, x in enumerate(path) if x in (KEY, 0) and (n := n + 1) == where)
    return splice(raw, good, p, i)


def splice(raw, good, p, i):
    if i == 0:
        return [good[0], raw[0]] if p[0] == 0 else {"aa": good[p[0]], p[0]: raw[p[0]]}
    k = p[0]
    if k == 0:
        return [splice(raw[0], good[0], p[1:], i - 1)]
    return {**raw, k: splice(raw[k], good[k], p[1:], i - 1)}


def built(cx, group):
    """A document made by the builder is checked by default."""
    D = cls("AsyncAPI3")
    path, kinds = cx.pick("position", group)
    t = cx.pick("target", [kinds[0], "Tag" if kinds[0] != "Tag" else "Schema", "missing"])
    ref = target(kinds[0] if t == "missing" else t, "t")[1]
    raw = merge(base(), at(fill(path, ["k1", "k2", "k3", "k4"]), {"$ref": ref}))
    if t != "missing":
        raw = merge(raw, target(t, "t")[0])
    kw = {k: v for k, v in raw.items() if k not in ("asyncapi",)}
    ok, _ = attempt(D.as_builder, **kw)
    cx.check(ok == (t in kinds), f"builder, {'/'.join(map(str, path))} -> {t}: {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    # and on every assignment
    m = D.as_builder(**{k: v for k, v in merge(base(), target(t, "t")[0] if t in HOMES else {}).items() if k != "asyncapi"})
    top = path[0]
    v = merge({"components": {}, "channels": {}, **kw}, {})[top] if top != "components" else kw["components"]
    ok, _ = attempt(setattr, m, top, v)
    cx.check(ok == (t in kinds) or top == "operations" and "operations" not in kw, f"assignment, {'/'.join(map(str, path))} -> {t}: {'accepted' if ok else 'rejected'}")


def variable(cx, where, n, lead):
    """Names of server variables are free text."""
    k = lead + cx.str("k", n)
    t = cx.pick("target", ["ServerVariable", "Parameter", "missing"])
    extra, ref = target("ServerVariable" if t == "missing" else t, "t")
    raw = base() if t == "missing" else merge(base(), extra)
    run(cx, merge(raw, at((*where, "variables", k), {"$ref": ref})), t == "ServerVariable", f"a server variable -> {t}")


B = ["accepted", "rejected"]


def groups(n):
    return [REF_POSITIONS[i::n] for i in range(n)]


SHALLOW = {}
for _p, _k in REF_POSITIONS:  # one position per expected kind, under different root fields
    SHALLOW.setdefault((tuple(_k), _p[0] == "components"), (_p, _k))
SHALLOW = list(SHALLOW.values())
HARNESSES = [H(f"single-{i}", single, reach=B, group=g, bounds=f"all {len(REF_POSITIONS)} positions x every kind of target, missing and external") for i, g in enumerate(groups(24))]
HARNESSES += [H(f"names-{i}", names, reach=B, group=g, n=2, words=False, bounds="all positions; first name on the path, target name and reference of 1..2 free characters") for i, g in enumerate(groups(16))]
HARNESSES += [H(f"field-like-names-{i}", names, reach=B, group=g, n=0, words=True, bounds="positions of one kind each; names that look like fields", thorough_only=False) for i, g in enumerate([SHALLOW[j::6] for j in range(6)])]
HARNESSES += [H(f"chained-{i}", chained, reach=B, group=g, bounds="all positions, chains of two") for i, g in enumerate(groups(8))]
HARNESSES += [H(f"later-{i}", second, reach=B, group=[x for x in g if KEY in x[0] or 0 in x[0]], bounds="all positions; second entry of each list or map on the way") for i, g in enumerate(groups(8))]
HARNESSES += [H(f"many-{i}", many, reach=B, group=g, bounds="positions of one kind each; among 9, 33 and more external references (more: around integers new in the source), first or last")
              for i, g in enumerate([[x for x in SHALLOW if KEY in x[0] or 0 in x[0]][j::4] for j in range(4)])]
HARNESSES += [H(f"pairs-{i}", pairs, reach=B, p1s=SHALLOW[i::4], p2s=SHALLOW, bounds="pairs of positions of each kind, same target, other or the same names on the way") for i in range(4)]
HARNESSES += [H(f"builder-{i}", built, reach=B, group=g, bounds="positions of one kind each") for i, g in enumerate([SHALLOW[j::3] for j in range(3)])]
HARNESSES += [H(f"variable-names[{'/'.join(w)}{'+' + lead if lead else ''}]", variable, reach=B, where=w, n=n, lead=lead, bounds="server variable names of any characters: 0..3, or a field-like word and 0..2 more")
              for w in (("servers", "s"), ("components", "servers", "s")) for lead, n in (("", 3), ("root", 2), ("x.root.", 2))]
