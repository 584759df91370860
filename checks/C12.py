"""C12: references resolve along the document, through chains, and fail cleanly otherwise."""

from checks.common import *
from sx.engine import ALPHA
from sx.harness import H

MAPS = [p[-1] for ps in MAP_POSITIONS.values() for p in ps if p[0] == "components"]
ENTRY = {p[-1]: CONTAINERS[c][1] for c, ps in MAP_POSITIONS.items() for p in ps if p[0] == "components"}
CHAINED = ["schemas", "servers", "messages", "tags", "externalDocs", "channelBindings", "replyAddresses"]


SEGCHARS = "".join(c for c in ALPHA if c != "/")


def resolve(spec, ref):
    import asyncapi3.validators.utils as u

    return u.resolve_reference(ref, spec)


def validator(name):
    import asyncapi3.validators as v

    return getattr(v, name)


def snake(s):
    r = ""
    for c in s:
        r += "_" + c.lower() if c in UPPER else c
    return r


RAW = {
    **doc(),
    "servers": {"s": {"host": "h", "protocol": "p", "variables": {"v": {"enum": ["a"]}}}},
    "channels": {"c": {"address": "{p}", "messages": {"m": {"payload": {"type": "object"}, "headers": {"type": "object"}}}, "parameters": {"p": {}}}},
    "operations": {"o": {"action": "send", "channel": {"$ref": "#/channels/c"}, "reply": {"address": {"location": "$message.header#/r"}}}},
    "components": {m: {"k": minimal(ENTRY[m])} for m in MAPS},
}


def points(t, raw, at_=()):
    """Every path of RAW over named fields and maps, with the kind of object there."""
    out = []
    if not isinstance(raw, dict):
        return out
    for k, v in raw.items():
        hit = member(t, k)
        if hit is None:
            continue
        inner = hit[1]
        if isinstance(v, dict):
            out.append(((*at_, k), inner))
            out += points(inner, v, (*at_, k))
    return out


POINTS = points(("model", "AsyncAPI3"), RAW)


def kind_of(t):
    """Class names an object at a position of this type may have."""
    if t[0] == "union":
        return [n for a in t[1] for n in kind_of(a)]
    return [t[1]] if t[0] == "model" and t[1] != "Reference" else ["dict"] if t[0] == "dict" else []


def pointer(cx, prefix, n, tail):
    """The document always holds the same objects; the pointer is symbolic."""
    spec = cls("AsyncAPI3").model_validate(RAW)
    s = cx.str("seg", range(1, n + 1), SEGCHARS)
    segs = [*prefix, s, *tail]
    ref = "#/" + prefix_join(segs)
    ok, r = attempt(resolve, spec, ref)
    hit = None
    for path, t in POINTS:
        if len(path) == len(segs) and all(True for a, b in zip(path, segs) if a is b or a == b) and all(a == b for a, b in zip(path, segs)):
            hit = (path, t)
            break
    if hit is not None:
        cx.check(ok and r is not None, "a reference to an existing object was rejected")
        o = r.resolved_object
        want = spec
        for x in hit[0]:
            want = child(want, x)
        if type(want).__name__ == "Reference":
            want = spec.channels["c"]  # the only reference in RAW
        else:
            cx.check(type(o).__name__ in kind_of(hit[1]), "the object found has the right kind")
        cx.check(type(o) is r.resolved_type, "its kind is reported")
        cx.check(o is want, "it is the object at that path")
        cx.reach("resolved")
    elif ok and r is not None and type(r.resolved_object).__name__ in CLASSES:
        # nothing there by its document name: only the python spelling of a field may be accepted
        known_snake = False
        for path, t in POINTS:
            if len(path) == len(segs) and all(a == b or snake(a) == b for a, b in zip(path, segs)):
                known_snake = True
                break
        cx.check(known_snake, "a reference to a missing object was accepted")
        cx.reach("python name")
    else:
        cx.reach("missing")


def prefix_join(segs):
    r = segs[0]
    for x in segs[1:]:
        r = r + "/" + x
    return r


def child(o, seg):
    """The value of an object at a document name."""
    if type(o).__name__ in CONTAINERS:
        return o.root[seg]
    if isinstance(o, dict):
        return o[seg]
    for py, row in CLASSES[type(o).__name__][2].items():
        if row[0] == seg:
            return getattr(o, py)
    return None


def form(cx, n, lead, how):
    """Which strings are references at all: '#/...' is local, 'http://' and 'https://' are external, the rest is an error."""
    s = lead + cx.str("ref", n)
    spec = cls("AsyncAPI3").model_validate(RAW)
    if how == "resolve":
        ok, r = attempt(resolve, spec, s)
    else:
        spec.info.tags = [cls("Reference")(ref=s)]
        ok, r = attempt(validator("UnifiedReferencesValidator")(), spec)
    external = Or(s.startswith("http://"), s.startswith("https://"))
    if ok and (r is None or how == "validator"):
        cx.check(external, "a reference that is neither local nor external was accepted") if how == "resolve" else cx.check(
            Or(external, s.startswith("#")), "a reference that is neither local nor external was accepted")
        cx.reach("external")
    elif ok:
        cx.check(s.startswith("#"), "only local references resolve")
    else:
        cx.check(Not(external), "an external reference was rejected")
        cx.reach("rejected")


def chain(cx, m, size, keylen):
    """Entries of a components map that refer to each other in every way."""
    keys = [cx.str(f"key{i}", range(1, keylen + 1), KEYCHARS) if keylen else "abcdef"[i] for i in range(size)]
    for i in range(size):
        for j in range(i):
            cx.assume(keys[i] != keys[j])
    item = minimal(ENTRY[m])
    to = [cx.pick(f"to{i}", ["object", "missing", "external", *range(size)]) for i in range(size)]
    if keylen:
        missing = cx.str("missing", range(1, keylen + 1), KEYCHARS)
        for k in keys:
            cx.assume(k != missing)
    else:
        missing = "nowhere"
    entries = {}
    for i in range(size):
        t = to[i]
        base = "#/components/" + m + "/"
        entries[keys[i]] = item if t == "object" else {"$ref": base + missing if t == "missing" else "https://a.b/c#/d" if t == "external" else base + keys[t]}
    spec = cls("AsyncAPI3").model_validate(doc(channels={"c": {}}, components={m: entries}))
    before = dump(spec)
    verdicts = []
    for i in range(size):
        seen = [i]
        t = to[i]
        while isinstance(t, int) and t not in seen:
            seen.append(t)
            t = to[t]
        end = "cycle" if isinstance(t, int) else t
        verdicts.append(end)
        ok, r = attempt(resolve, spec, "#/components/" + m + "/" + keys[i])
        if end == "object":
            cx.check(ok and r is not None and r.resolved_object is child(spec.components, m).root[keys[seen[-1]]], "the chain ends at its object")
            cx.check(ok and r is not None and r.resolved_type is type(r.resolved_object), "the kind of the object is reported")
        elif end == "external":
            cx.check(ok and r is None, "a chain that leaves the document is not checked further")
        else:
            cx.check(not ok, f"a chain with a {end} was accepted")
        cx.reach(end)
    ok, _ = attempt(validator("UnifiedReferencesValidator")(), spec)
    cx.check(ok == all(v in ("object", "external") for v in verdicts), f"the document was {'accepted' if ok else 'rejected'}")
    cx.check(same(dump(spec), before), "resolving changes nothing")


def cross(cx, size):
    """Chains across the root map, the components map and a channel's messages."""
    names = ["#/channels/c", "#/channels/d", "#/components/channels/c", "#/components/channels/e"]
    to = [cx.pick(f"to{i}", ["object", "missing", *names]) for i in range(size)]
    e = [{"address": "a"} if t == "object" else {"$ref": "#/channels/none" if t == "missing" else t} for t in to]
    raw = doc(channels={"c": e[0], "d": e[1]}, components={"channels": {"c": e[2], "e": e[3]}},
              operations={"o": {"action": "send", "channel": {"$ref": "#/channels/c"}}})
    spec = cls("AsyncAPI3").model_validate(raw)
    good = []
    for i in range(size):
        seen = {i}
        t = to[i]
        while t in names and names.index(t) not in seen:
            seen.add(names.index(t))
            t = to[names.index(t)]
        end = t if t in ("object", "missing") else "cycle"
        good.append(end == "object")
        ok, r = attempt(resolve, spec, names[i])
        cx.check(ok == (end == "object"), f"{names[i]} ({end})")
    ok, _ = attempt(validator("UnifiedReferencesValidator")(), spec)
    cx.check(ok == all(good), f"the document was {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


def repeated(cx):
    """Resolving is a function of the document: earlier resolutions, failed ones too, do not matter."""
    refs = ["#/components/tags/a", "#/components/tags/b", "#/components/tags/c", "#/components/tags/zz"]
    raw = doc(components={"tags": {"a": {"name": "a"}, "b": {"$ref": "#/components/tags/a"}, "c": {"$ref": "#/components/tags/c"}}})
    spec = cls("AsyncAPI3").model_validate(raw)
    for i in range(3):
        j = cx.choose(f"r{i}", 4)
        ok, r = attempt(resolve, spec, refs[j])
        cx.check(ok == (j < 2), f"{refs[j]} was {'accepted' if ok else 'rejected'} as resolution {i}")
        if ok:
            cx.check(r.resolved_object is spec.components.tags["a"], "the right object")
        cx.reach("ok" if ok else "failed")


def long_chain(cx, m):
    """A chain through many references."""
    n = cx.pick("size", SIZES)
    end = cx.pick("end", ["object", "missing", "cycle", "external"])
    base = "#/components/" + m + "/"
    entries = {f"n{i}": {"$ref": base + f"n{i + 1}"} for i in range(n)}
    entries[f"n{n}"] = {"object": minimal(ENTRY[m]), "missing": {"$ref": base + "none"}, "cycle": {"$ref": base + "n0"}, "external": {"$ref": "https://a.b/c"}}[end]
    if cx.choose("reverse", 2):
        entries = {k: entries[k] for k in reversed(list(entries))}
    spec = cls("AsyncAPI3").model_validate(doc(channels={"c": {}}, components={m: entries}))
    ok, r = attempt(resolve, spec, base + "n0")
    if end == "object":
        cx.check(ok and r is not None and r.resolved_object is child(spec.components, m).root[f"n{n}"], "the long chain ends at its object")
    else:
        cx.check((ok and r is None) if end == "external" else not ok, f"a long chain with a {end}")
    ok, _ = attempt(validator("UnifiedReferencesValidator")(), spec)
    cx.check(ok == (end in ("object", "external")), f"a document with a long chain was {'accepted' if ok else 'rejected'}")
    cx.reach(end)


def longer_chain(cx, m, sizes):
    """A chain longer than the stack is deep."""
    n = cx.pick("size", sizes)
    end = cx.pick("end", ["object", "missing", "cycle", "external"])
    base = "#/components/" + m + "/"
    entries = {f"n{i}": {"$ref": base + f"n{i + 1}"} for i in range(n)}
    entries[f"n{n}"] = {"object": minimal(ENTRY[m]), "missing": {"$ref": base + "none"}, "cycle": {"$ref": base + "n0"}, "external": {"$ref": "https://a.b/c"}}[end]
    spec = cls("AsyncAPI3").model_validate(doc(channels={"c": {}}, components={m: entries}))
    ok, r = attempt(resolve, spec, base + "n0")
    if end == "object":
        cx.check(ok and r is not None and r.resolved_object is child(spec.components, m).root[f"n{n}"], "the long chain ends at its object")
    else:
        cx.check((ok and r is None) if end == "external" else not ok, f"a long chain with a {end}")
    cx.reach(end)


WORDS = ["root", "items", "keys", "get", "ref", "$ref", "__root__", "external_docs_", "model_fields", "properties", "alias", "copy", "schema", "0", ""]


def keywords(cx, where, free):
    """Free-form keywords of a schema do not get in the way of its fields."""
    k = cx.str("keyword", 5, "rot$a-") if free else cx.pick("keyword", WORDS)
    v = cx.pick("value", [{"externalDocs": 5, "a": 1}, {"url": URL}, 5, ["externalDocs"]])
    schema = {k: v, "externalDocs": {"url": URL}} if cx.choose("first", 2) else {"externalDocs": {"url": URL}, k: v}
    raw = at(where, schema)
    raw["info"] = {"title": "t", "version": "1", "externalDocs": {"$ref": "#/" + prefix_join(where) + "/externalDocs"}}
    spec = cls("AsyncAPI3").model_validate(merge(doc(), raw) if "info" not in raw else raw)
    ok, r = attempt(resolve, spec, "#/" + prefix_join(where) + "/externalDocs")
    cx.check(ok and r is not None and type(r.resolved_object).__name__ == "ExternalDocumentation", "the field of a schema with this keyword is not found")
    ok, _ = attempt(validator("UnifiedReferencesValidator")(), spec)
    cx.check(ok, "a document whose schema has this keyword was refused")
    cx.reach("resolved")


FULL = {"resolved", "missing"}
HARNESSES = [
    *[H(f"pointer[{'/'.join([*p, '*', *t])}]", pointer, reach=r, prefix=p, tail=t, n=n, bounds="one free segment of 1..n characters (n = 17 for field names, 3 for keys), the rest fixed")
      for p, t, n, r in [
          ([], [], 17, FULL), ([], ["c"], 10, FULL), ([], ["k"], 10, {"missing"}), (["components"], [], 17, FULL), (["components"], ["k"], 17, FULL),
          *[(["components", m], [], 3, FULL) for m in MAPS],
          (["servers"], [], 3, FULL), (["channels"], [], 3, FULL), (["operations"], [], 3, FULL),
          (["channels", "c"], ["m"], 10, FULL), (["channels", "c", "messages"], [], 3, FULL), (["channels", "c", "messages", "m"], [], 8, FULL),
          (["channels", "c", "parameters"], [], 3, FULL), (["channels"], ["messages", "m"], 3, FULL), (["servers", "s"], [], 9, FULL),
          (["servers", "s", "variables"], [], 3, FULL), (["operations", "o"], [], 7, FULL), (["operations", "o", "channel"], [], 8, {"missing"}),
          (["operations", "o", "channel", "messages"], [], 3, {"missing"}), (["components", "messages", "k"], [], 8, {"missing"}),
      ]],
    H("form-resolve", form, reach=["external", "rejected"], n=9, lead="", how="resolve", bounds="0..9 characters"),
    H("form-resolve-http", form, reach=["external", "rejected"], n=4, lead="http", how="resolve", bounds="'http' and 0..4 characters"),
    H("form-validator", form, reach=["external", "rejected"], n=4, lead="http", how="validator", bounds="'http' and 0..4 characters"),
    H("form-validator-free", form, reach=["external", "rejected"], n=9, lead="", how="validator", bounds="0..9 characters"),
    *[H(f"chain[{m}]", chain, reach=["object", "missing", "external", "cycle"], m=m, size=3, keylen=0, bounds="every graph over 3 entries") for m in MAPS],
    *[H(f"chain-names[{m}]", chain, reach=["object", "missing", "external", "cycle"], m=m, size=2, keylen=2, bounds="every graph over 2 entries, names of 1..2 characters") for m in CHAINED],
    *[H(f"chain-four[{m}]", chain, thorough_only=True, m=m, size=4, keylen=0, bounds="every graph over 4 entries") for m in CHAINED],
    H("longer-chain[tags]", longer_chain, reach=["object", "missing", "external", "cycle"], m="tags", sizes=[1500], bounds="chains of 1500 references"),
    H("longer-chain[schemas]", longer_chain, reach=["object", "missing", "external", "cycle"], m="schemas", sizes=[5000], thorough_only=True, bounds="chains of 5000 references"),
    *[H(f"long-chain[{m}]", long_chain, reach=["object", "missing", "external", "cycle"], m=m, bounds="chains of 9, 33 and more references (more: around integers new in the source)") for m in CHAINED],
    H("across-maps", cross, reach=["accepted", "rejected"], size=4, bounds="every graph over 4 channels in two maps"),
    *[H(f"keywords{'-free' if f else ''}[{'/'.join(w)}]", keywords, reach=["resolved"], where=w, free=f, bounds="one keyword " + ("of 0..5 characters over 'rot$a-'" if f else "out of 15") + ", 4 values")
      for w in (("components", "schemas", "s"), ("channels", "c", "messages", "m", "payload"), ("components", "messageTraits", "t", "headers")) for f in (False, True)],
    H("repeated", repeated, reach=["ok", "failed"], bounds="3 resolutions in any order"),
]
