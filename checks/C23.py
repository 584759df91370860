"""C23: an object with only '$ref' is a reference wherever a reference may stand, is kept exactly, and is one nowhere else."""

from checks.values import *
from checks.C13 import fill
from sx.harness import H


def down(m, t, path):
    """The object at a path of a parsed document."""
    for seg in path:
        here, inner = member(t, seg)
        if here[0] in ("list", "dict") or here[1] in CONTAINERS:
            m = m[seg]
        else:
            m = getattr(m, next(py for py, f in CLASSES[here[1]][2].items() if f[0] == seg))
        t = inner
    return m


def written(d, path):
    for seg in path:
        d = d[seg]
    return d


DOC = ("model", "AsyncAPI3")


def stands(cx, group):
    """Any text: read as a reference with that text, written as it was."""
    path, kinds = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    r = text(cx, "ref", 3, pads=True) if cx.choose("long", 2) else cx.str("ref", 2)
    how = cx.pick("how", ["raw", "object", "by-name"])
    if how == "object":
        ok, v = attempt(cls("Reference"), ref=r)
        cx.check(ok, "a reference object was refused")
        if not ok:
            return
    else:
        v = {"$ref": r} if how == "raw" else {"ref": r}
    if how == "by-name" and (kinds[0] in ANY or path[-1] in ANYWHERE):
        return  # a free field named ref
    ok, d = attempt(cls("AsyncAPI3").model_validate, at(p, v))
    cx.check(ok, f"a reference was refused at {'/'.join(map(str, path))}")
    if not ok:
        return
    m = down(d, DOC, p)
    cx.check(isinstance(m, cls("Reference")), f"{'/'.join(map(str, path))} holds {type(m).__name__}")
    if isinstance(m, cls("Reference")):
        cx.check(m.ref == r, "the text changed")
        cx.check(same(written(dump(d), p), {"$ref": r}), "written differently")
        cx.check(same(written(d.model_dump(mode="json"), p), {"$ref": r}), "written differently by default")
    cx.reach("reference")


# kinds with free fields: an object with '$ref' and more is such an object
ANY = {"Schema", "KafkaTopicConfiguration"}
ANYWHERE = {"key"}  # the Kafka message key may be any mapping


def beside(cx, group):
    """Nothing may stand beside '$ref'."""
    path, kinds = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    k = cx.str("field", [1, 2, 3]) if cx.choose("long", 2) else cx.pick("name", ["x-a", "description", "name", "$id", "summary", "title", "extra_validators"])
    cx.assume(k != "ref")
    v = {"$ref": "#/components/tags/t", k: cx.pick("value", [1, None, "s"])}
    if cx.choose("before", 2):
        v = dict(reversed(list(v.items())))
    ok, _ = attempt(cls("AsyncAPI3").model_validate, at(p, v))
    cx.check(not ok, f"a field beside $ref was accepted at {'/'.join(map(str, path))}")
    cx.reach("refused" if not ok else "accepted")


def merged(cx, group):
    """A complete object of the kind plus '$ref' is not accepted either."""
    path, kinds = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    kind = cx.pick("kind", kinds)
    raw = cx.pick("of", [complete(kind), minimal_model(kind)])
    cx.assume(raw != {})
    v = {**raw, "$ref": cx.str("ref", 1)}
    ok, _ = attempt(cls("AsyncAPI3").model_validate, at(p, v))
    cx.check(not ok, f"{kind} with $ref was accepted at {'/'.join(map(str, path))}")
    cx.reach("refused")


def wrong(cx, group):
    """The text of a reference is text, and there is one."""
    path, kinds = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    v = {"$ref": cx.pick("ref", [None, 5, True, ["#/a"], {"$ref": "#/a"}, cx.int("n"), 1.5])}
    ok, _ = attempt(cls("AsyncAPI3").model_validate, at(p, v))
    cx.check(not ok, f"accepted at {'/'.join(map(str, path))}")
    cx.reach("refused")


def _plain(t, path, seen):
    """Where objects, lists or maps stand that cannot be references."""
    if t[0] == "union":
        for a in t[1]:
            if all(b[0] != "dict" for b in t[1]):
                yield from _plain(a, path, seen)
    elif t[0] == "list":
        yield path
        if t[1][0] == "model" and t[1][1] not in ANY and t[1][1] != "Reference":
            yield (*path, 0)
        yield from _plain(t[1], (*path, 0), seen)
    elif t[0] == "model" and t[1] in CONTAINERS:
        yield path
        yield from _plain(CONTAINERS[t[1]][1], (*path, KEY), seen)
    elif t[0] == "model" and t[1] != "Reference" and t[1] not in seen:
        for alias, _, _, _, _, ft in CLASSES[t[1]][2].values():
            if ft[0] == "model" and ft[1] not in ANY and ft[1] != "Reference":
                yield (*path, alias)
            yield from _plain(ft, (*path, alias), (*seen, t[1]))


PLAIN = sorted({p for p in _plain(DOC, (), ()) if not any(r == p for r, _ in REF_POSITIONS)}, key=str)


def nowhere(cx, group):
    """A reference where none may stand is refused."""
    path = cx.pick("position", group)
    p = fill(path, ["k1", "k2", "k3", "k4"])
    r = cx.str("ref", 1)
    v = {"$ref": r} if cx.choose("object", 2) else cls("Reference").model_validate({"$ref": r})
    ok, _ = attempt(cls("AsyncAPI3").model_validate, at(p, v))
    cx.check(not ok, f"a reference was accepted at {'/'.join(map(str, path))}")
    cx.reach("refused")


def free(kinds, path):
    return bool(set(kinds) & ANY) or bool(set(path) & ANYWHERE)


STRICT = [(p, k) for p, k in REF_POSITIONS if not free(k, p)]
BOTH = [(p, k) for p, k in STRICT if k and not set(p) & {None}]
OWN = [(p, k) for p, k in BOTH if (p[-1] if p[-1] != 0 else p[-2]) not in ("channel", "messages", "servers") or "bindings" in p]
HARNESSES = []
N = 8
for _i in range(N):
    HARNESSES.append(H(f"stands-{_i}", stands, reach=["reference"], group=REF_POSITIONS[_i::N], bounds="every position, references of 0..2 characters and long ones, as data, as an object, and by field name"))
    HARNESSES.append(H(f"beside-{_i}", beside, reach=["refused"], group=STRICT[_i::N], bounds="every position but schemas, other field names of 1..3 characters and common ones"))
    HARNESSES.append(H(f"merged-{_i}", merged, reach=["refused"], group=OWN[_i::N], bounds="every position but schemas, minimal and complete objects"))
    HARNESSES.append(H(f"wrong-{_i}", wrong, reach=["refused"], group=STRICT[_i::N], bounds="every position but schemas, values of 7 other types, every integer"))
for _i in range(4):
    HARNESSES.append(H(f"nowhere-{_i}", nowhere, reach=["refused"], group=PLAIN[_i::4], bounds="every place an object, list or named map stands that is not a reference position"))
