"""C18: reference factories point at the object of that name; equal references hash equal."""

from checks.common import *
from sx.harness import H

FACTORIES = {
    "to_root_server_name": ("servers",), "to_root_channel_name": ("channels",), "to_root_operation_name": ("operations",),
    "to_component_schema_name": ("components", "schemas"), "to_component_server_name": ("components", "servers"),
    "to_component_channel_name": ("components", "channels"), "to_component_operation_name": ("components", "operations"),
    "to_component_message_name": ("components", "messages"), "to_component_security_scheme_name": ("components", "securitySchemes"),
    "to_component_server_variable_name": ("components", "serverVariables"), "to_component_parameter_name": ("components", "parameters"),
    "to_component_correlation_id_name": ("components", "correlationIds"), "to_component_reply_name": ("components", "replies"),
    "to_component_reply_address_name": ("components", "replyAddresses"), "to_component_external_doc_name": ("components", "externalDocs"),
    "to_component_tag_name": ("components", "tags"), "to_component_operation_trait_name": ("components", "operationTraits"),
    "to_component_message_trait_name": ("components", "messageTraits"), "to_component_server_binding_name": ("components", "serverBindings"),
    "to_component_channel_binding_name": ("components", "channelBindings"), "to_component_operation_binding_name": ("components", "operationBindings"),
    "to_component_message_binding_name": ("components", "messageBindings"),
}
MAP_AT = {p: c for c, ps in MAP_POSITIONS.items() for p in ps}


def make(cx, factory):
    """Every name: the reference is the pointer to that entry, spelled exactly."""
    R = cls("Reference")
    n = text(cx, "name", 5, pads=True)
    how = cx.choose("how", 2)
    f = getattr(R, factory)
    r = f(n) if how else getattr(R.model_validate({"$ref": "x"}), factory)(n)
    cx.check(type(r) is R, "a reference is made")
    cx.check(r.ref == pointer_to(FACTORIES[factory], n), f"{factory} points to the entry of that name")
    cx.check(same(dump(r), {"$ref": pointer_to(FACTORIES[factory], n)}), "and is written so")
    cx.check(same(dump(R.model_validate(dump(r))), dump(r)), "and read back")


def resolves(cx, factory):
    """The reference resolves in a document to the very entry, whatever else the map and its neighbours hold."""
    from asyncapi3.validators.utils import resolve_reference

    path = FACTORIES[factory]
    item = entry(MAP_AT[path])
    a, b = name_(cx, "a"), name_(cx, "b")
    cx.assume(a != b)
    raw = merge(doc(), nested(path, {a: item, b: item}))
    other = cx.pick("other", [p for p in MAP_AT if p != path and p[-1] == path[-1]] or [None])
    if other:
        raw = merge(raw, nested(other, {a: entry(MAP_AT[other])}))
    ok, spec = attempt(cls("AsyncAPI3").model_validate, raw)
    cx.check(ok, "the document was rejected")
    if not ok:
        return
    m = spec
    for seg in path:
        m = getattr(m, SNAKE.get(seg, seg))
    n = cx.str("n", range(1, 3), KEYCHARS)
    ok, out = attempt(resolve_reference, getattr(cls("Reference"), factory)(n).ref, spec)
    if ok:
        hit = Or(n == a, n == b)
        cx.check(hit, "a missing name was resolved")
        if hit:
            cx.check(out.resolved_object is m[n], "the entry itself is found")
        cx.reach("found")
    else:
        cx.check(And(n != a, n != b), f"{factory} does not lead to the entry")
        cx.reach("missing")


SNAKE = {"securitySchemes": "security_schemes", "serverVariables": "server_variables", "correlationIds": "correlation_ids", "replyAddresses": "reply_addresses",
         "externalDocs": "external_docs", "operationTraits": "operation_traits", "messageTraits": "message_traits", "serverBindings": "server_bindings",
         "channelBindings": "channel_bindings", "operationBindings": "operation_bindings", "messageBindings": "message_bindings"}


def pair(cx, n):
    """Equality is equality of the text, and agrees with the hash and with membership in sets and mappings."""
    R = cls("Reference")
    s, t = cx.str("s", n), cx.str("t", n)
    how = cx.choose("how", 4)
    a = R.model_validate({"$ref": s})
    if how == 0:
        b = R(ref=t)
    elif how == 1:
        b = R(**{"$ref": t})
    elif how == 2:
        b = R(ref="#/x")
        b.ref = t
    else:
        b = R.model_validate(R.model_validate({"$ref": t}))
    eq = s == t
    cx.check(Iff(a == b, eq), "references are equal when their texts are")
    cx.check(Iff(a != b, Not(eq)), "and unequal otherwise")
    cx.check(Implies(eq, hash(a) == hash(b)), "equal references hash equal")
    cx.check(hash(a) == hash(a), "the hash is stable")
    seen = {a}
    cx.check(Iff(b in seen, eq), "membership in a set follows equality")
    seen.add(b)
    cx.check(len(seen) == (1 if eq else 2), "sets drop equal references")
    d = {a: 1}
    d[b] = 2
    cx.check(d[a] == (2 if eq else 1), "mappings identify equal references")
    cx.reach("equal" if eq else "different")


def used_before(cx, n):
    """Hashing, comparing, writing or keeping a reference in a set does not change what it is equal to; its text at the moment counts."""
    R = cls("Reference")
    s, t, u = cx.str("s", n), cx.str("t", n), cx.str("u", n)
    a, b = R(ref=s), R.model_validate({"$ref": t})
    act = cx.choose("before", 5)
    if act == 1:
        hash(a)
    elif act == 2:
        hash(b)
    elif act == 3:
        dump(a)
    elif act == 4:
        cx.check(Iff(a == R(ref=u), s == u), "references are equal when their texts are")
        repr(type(a))
    cx.check(Iff(a == b, s == t), "references are equal when their texts are, whatever was done with them")
    cx.check(Implies(s == t, hash(a) == hash(b)), "and then they hash equal")
    a.ref = u
    fresh = R(ref=u)
    cx.check(a == fresh, "a reference with a new text equals one made with it")
    cx.check(hash(a) == hash(fresh), "and hashes like it")
    cx.check(Iff(a == b, u == t), "the new text decides about equality")
    cx.check(Iff(fresh in {a}, True), "it is found in a set holding the other")
    cx.check(same(dump(a), {"$ref": u}), "and written")
    cx.reach("equal" if s == t else "different")


def families(cx):
    """Factories of different kinds never make equal references, whatever the names."""
    R = cls("Reference")
    fs = sorted(FACTORIES)
    i = cx.choose("f", len(fs))
    j = cx.choose("g", len(fs))
    if i > j:
        i, j = j, i
    m, n = name_(cx, "m", 3), name_(cx, "n", 3)
    a, b = getattr(R, fs[i])(m), getattr(R, fs[j])(n)
    cx.check(Iff(a == b, And(i == j, m == n)), "references are equal only for the same kind and name")
    cx.check(Implies(And(i == j, m == n), hash(a) == hash(b)), "and then hash equal")


def used(cx, factory):
    """The reference is accepted by the reference validator where an object of its kind may stand."""
    path = FACTORIES[factory]
    kind = [a[1] for a in CONTAINERS[MAP_AT[path]][1][1] if a != ("model", "Reference")][-1]
    places = [p for p, k in REF_POSITIONS if kind in k and len(p) < 7]
    p = cx.pick("place", places)
    n = name_(cx, "n")
    for i in range(7):
        cx.assume(n != f"k{i}")
    p = tuple(f"k{i}" if x == KEY else x for i, x in enumerate(p))
    ref = dump(getattr(cls("Reference"), factory)(n))
    raw = merge(merge(doc(), nested(path, {n: minimal_model(kind)})), at(p, ref))
    if "operations" in p:
        raw = merge(raw, {"channels": {"c": {}}})
    from asyncapi3.validators import UnifiedReferencesValidator

    raw["extra_validators"] = [UnifiedReferencesValidator]
    ok, _ = attempt(cls("AsyncAPI3").model_validate, raw)
    cx.check(ok, f"{factory} is refused at {'/'.join(map(str, p))}")
    cx.reach("accepted" if ok else "rejected")


HARNESSES = [H(f"make[{f}]", make, factory=f, bounds="names of 0..5 characters, or a long run with 4 free characters") for f in FACTORIES]
HARNESSES += [H(f"resolves[{f}]", resolves, reach=["found", "missing"], factory=f, bounds="two entries and a name of 1..2 characters, the same names in the map of the same field elsewhere") for f in FACTORIES]
HARNESSES += [H(f"used[{f}]", used, reach=["accepted"], factory=f, bounds="every position up to six levels deep, names of 1..2 characters") for f in FACTORIES]
HARNESSES += [
    H("pair", pair, reach=["equal", "different"], n=4, bounds="two texts of 0..4 characters, 4 ways to make them"),
    H("used-before", used_before, reach=["equal", "different"], n=2, bounds="three texts of 0..2 characters; references hashed, written or compared before, then given another text"),
    H("families", families, bounds="all pairs of the 22 factories, names of 1..3 characters"),
]
