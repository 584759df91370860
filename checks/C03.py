"""C03: unknown fields: specification extensions where allowed, nothing elsewhere, nothing lost."""

from checks.common import *
from sx.engine import ALPHA
from sx.harness import H

ASSUMPTIONS = ["extension names with letters outside ASCII may be accepted or rejected"]
FIRST = ["x-first", *[x for t in NEW_TEXTS for x in (t, "x-" + t) if x.startswith("x-") and x not in ("x-", "x-last") and not set(x) - set(EXTCHARS)]]
BAD = "".join(c for c in ALPHA if not (c in EXTCHARS or (ord(c) > 127 and (c.isalnum() or c == "_"))))


def known(cname):
    out = []
    for py, (alias, *_rest) in CLASSES[cname][2].items():
        out += [py, alias]
    if cname == "AsyncAPI3":
        out += ["extra_converters", "extra_validators"]
    return out


def must_accept(k):
    return And(k.startswith("x-"), len(k) > 2, chars_in(k[2:], EXTCHARS))


def must_reject(k):
    bad = Or(Not(k.startswith("x-")), len(k) <= 2)
    for c in k[2:]:
        bad = Or(bad, c in BAD)
    return bad


def judge(cx, policy, k, ok, what):
    if policy == "x":
        cx.check(Not(must_reject(k)) if ok else Not(must_accept(k)), f"{what} was {'accepted' if ok else 'rejected'}")
    elif policy == "any":
        cx.check(ok, f"{what} was rejected")
    else:
        cx.check(not ok, f"{what} was accepted")
    cx.reach("accepted" if ok else "rejected")


def parse(cx, cname, how, n):
    policy = CLASSES[cname][1]
    base = minimal_model(cname)
    if how == "free":
        k = cx.str("key", n)
    else:
        k = "x-" + text(cx, "key", n, pads=True)
    for f in known(cname):
        cx.assume(k != f)
    v = cx.pick("value", [cx.int("v"), {"a": [1, None]}, None]) if how == "free" else 1
    ok, m = attempt(cls(cname).model_validate, {**base, k: v})
    judge(cx, policy, k, ok, "an unknown field")
    if ok:
        d = dump(m)
        cx.check(k in d, "the field is dumped")
        cx.check(same(d[k], v), "its value is kept")


def several(cx, cname, n):
    base = minimal_model(cname)
    policy = CLASSES[cname][1]
    k = cx.pick("prefix", ["", "x-"]) + cx.str("key", n)
    first = cx.pick("first", FIRST)
    for f in [*known(cname), first, "x-last"]:
        cx.assume(k != f)
    order = cx.choose("order", 3)
    if order == 0:
        raw = {**base, k: 1, first: 2, "x-last": 3}
    elif order == 1:
        raw = {first: 2, k: 1, **base, "x-last": 3}
    else:
        raw = {first: 2, "x-last": 3, **base, k: 1}
    ok, m = attempt(cls(cname).model_validate, raw)
    judge(cx, policy, k, ok, "an unknown field among extensions")


def many(cx, cname, n):
    """A free name among many extensions."""
    base = minimal_model(cname)
    policy = CLASSES[cname][1]
    k = cx.pick("prefix", ["", "x-"]) + cx.str("key", n)
    size = cx.pick("size", SIZES)
    some = {f"x-n{i}": i for i in range(size)}
    for f in [*known(cname), *some]:
        cx.assume(k != f)
    raw = {**some, k: 1, **base} if cx.choose("order", 2) else {**base, **some, k: 1}
    ok, m = attempt(cls(cname).model_validate, raw)
    judge(cx, policy, k, ok, "an unknown field among many extensions")
    if ok:
        d = dump(m)
        cx.check(And(len(d) >= size + 1, k in d, *[x in d for x in some]), "every extension is dumped")


def nested(cx, path, cname, n):
    """The rule holds for objects inside a document."""
    k = cx.pick("prefix", ["", "x-"]) + cx.str("key", n)
    for f in known(cname):
        cx.assume(k != f)
    if CLASSES[cname][1] == "x":
        cx.assume(k != "$ref")
    ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, {**minimal_model(cname), k: 1}))
    judge(cx, CLASSES[cname][1], k, ok, f"an unknown field of {cname} in a document")


def assign(cx, cname, n):
    base = minimal_model(cname)
    policy = CLASSES[cname][1]
    m = cls(cname).model_validate(base)
    before = dump(m)
    k = cx.pick("prefix", ["x-", "foo", "X-a", "y-a", "-x-a", "xa", "x_a"])
    if k == "x-":
        k = k + cx.str("key", n)
    try:
        setattr(m, k, 1)
        ok = True
    except ValueError:
        ok = False
    judge(cx, policy, k, ok, "assigning an unknown attribute")
    after = dump(m)
    if ok:
        cx.check(And(k in after, len(after) == len(before) + 1), "the attribute is dumped")
        # a later assignment of another extension keeps it
        setattr(m, "x-zz", 2)
        d = dump(m)
        cx.check(And(k in d, "x-zz" in d), "the attribute survives the next assignment")
    else:
        cx.check(same(before, after), "a rejected assignment changed the object")


HARNESSES = []
EXT = [n for n, (_, p, _f) in CLASSES.items() if p != "forbid"]
CLOSED = [n for n, (_, p, _f) in CLASSES.items() if p == "forbid"]
for _c in EXT:
    _r = ["accepted", "rejected"] if CLASSES[_c][1] == "x" else ["accepted"]
    HARNESSES.append(H(f"any-name[{_c}]", parse, reach=_r, cname=_c, how="free", n=4, bounds="names of 0..4 characters, 3 kinds of value"))
    HARNESSES.append(H(f"x-name[{_c}]", parse, reach=_r, cname=_c, how="x", n=6, bounds="'x-' and 0..6 characters, or a long run with 4 free characters"))
    HARNESSES.append(H(f"several[{_c}]", several, reach=_r, cname=_c, n=3, bounds="3 extension fields, one with a free name of 0..3 characters"))
    HARNESSES.append(H(f"many[{_c}]", many, reach=_r, cname=_c, n=1, bounds="a name of 0..1 characters after '' or 'x-' among 9, 33 and more extensions (more: around integers new in the source)"))
    HARNESSES.append(H(f"assign[{_c}]", assign, reach=_r, cname=_c, n=3, bounds="'x-' and 0..3 characters, 6 other fixed names"))
for _c in CLOSED:
    HARNESSES.append(H(f"any-name[{_c}]", parse, reach=["rejected"], cname=_c, how="free", n=3, bounds="names of 0..3 characters"))
    HARNESSES.append(H(f"x-name[{_c}]", several, reach=["rejected"], cname=_c, n=2, bounds="'x-' and 0..2 characters"))
for _p, _c in [
    (("info",), "Info"), (("info", "contact"), "Contact"), (("info", "license"), "License"), (("info", "tags", 0), "Tag"),
    (("servers", "s"), "Server"), (("channels", "c"), "Channel"), (("channels", "c", "messages", "m"), "Message"),
    (("operations", "o"), "Operation"), (("components",), "Components"), (("components", "messageTraits", "t"), "MessageTrait"),
    (("servers", "s", "bindings"), "ServerBindingsObject"), (("channels", "c", "bindings"), "ChannelBindingsObject"),
    (("components", "securitySchemes", "s"), "SecurityScheme"), (("components", "replies", "r"), "OperationReply"),
    (("components", "correlationIds", "r"), "CorrelationID"), (("components", "messages", "m", "examples", 0), "MessageExample"),
    (("components", "serverBindings", "b", "kafka"), "KafkaServerBindings"), (("components", "channelBindings", "b", "ws"), "WebSocketsChannelBindings"),
    (("components", "operationBindings", "b", "mqtt"), "MQTTOperationBindings"), (("components", "messageBindings", "b", "jms"), "JMSMessageBindings"),
]:
    _r = ["accepted", "rejected"] if CLASSES[_c][1] == "x" else ["rejected"]


    HARNESSES.append(H(f"document[{'/'.join(map(str, _p))}]", nested, reach=_r, path=_p, cname=_c, n=2, bounds="names of 0..2 characters after '' or 'x-'"))
