"""C08: dependencies between the fields of protocol bindings."""

from checks.common import *
from sx.harness import H

Q = {"AMQPChannelBindings": {"name": "q"}, "IBMMQChannelBindings": {"objectName": "o"}, "SolaceDestination": {"name": "n"}}
X = {"AMQPChannelBindings": {"name": "e", "type": "topic"}, "IBMMQChannelBindings": {"string": "t"}, "SolaceDestination": {"topicSubscriptions": []}}


def given(f, n):
    return f.get(n) is not None


RULES = {
    "AMQPChannelBindings": lambda f: And(Or(f.get("is") == "queue", f.get("is") == "routingKey"),
                                         given(f, "queue") == (f.get("is") == "queue"), given(f, "exchange") == (f.get("is") == "routingKey")),
    "IBMMQChannelBindings": lambda f: And(f.get("destinationType", "topic") in ("queue", "topic"), not (given(f, "queue") and given(f, "topic")),
                                          Implies(f.get("destinationType", "topic") == "queue", given(f, "queue"))),
    "IBMMQMessageBindings": lambda f: And(f.get("type", "string") in ("string", "jms", "binary"), Implies(given(f, "headers"), f.get("type", "string") == "binary")),
    "KafkaServerBindings": lambda f: Implies(given(f, "schemaRegistryVendor"), given(f, "schemaRegistryUrl")),
    "SolaceDestination": lambda f: And(Or(f.get("destinationType") == "queue", f.get("destinationType") == "topic"),
                                       given(f, "queue") == (f.get("destinationType") == "queue"), given(f, "topic") == (f.get("destinationType") == "topic")),
}
# the fields that take part, and the values of interest; "text" is any short string
FIELDS = {
    "AMQPChannelBindings": [("is", ["absent", "queue", "routingKey"]), ("queue", ["absent", None, {}, "Q"]), ("exchange", ["absent", None, "X"]), ("bindingVersion", ["absent", "text"])],
    "IBMMQChannelBindings": [("destinationType", ["absent", "queue", "topic"]), ("queue", ["absent", None, "Q"]), ("topic", ["absent", None, {}, "X"]), ("maxMsgLength", ["absent", 5])],
    "IBMMQMessageBindings": [("type", ["absent", "string", "jms", "binary"]), ("headers", ["absent", None, "text"]), ("description", ["absent", "text"]), ("expiry", ["absent", 0])],
    "KafkaServerBindings": [("schemaRegistryUrl", ["absent", None, "text"]), ("schemaRegistryVendor", ["absent", None, "text"]), ("bindingVersion", ["absent", "text"])],
    "SolaceDestination": [("destinationType", ["absent", "queue", "topic"]), ("queue", ["absent", None, {}, "Q"]), ("topic", ["absent", None, {}, "X"]), ("deliveryMode", ["absent", "direct"])],
}
SELECT = {"AMQPChannelBindings": "is", "IBMMQChannelBindings": "destinationType", "IBMMQMessageBindings": "type", "SolaceDestination": "destinationType"}
WHERE = {
    "AMQPChannelBindings": [("channels", "c", "bindings", "amqp"), ("components", "channels", "c", "bindings", "amqp"), ("components", "channelBindings", "b", "amqp")],
    "IBMMQChannelBindings": [("channels", "c", "bindings", "ibmmq"), ("components", "channelBindings", "b", "ibmmq")],
    "IBMMQMessageBindings": [("channels", "c", "messages", "m", "bindings", "ibmmq"), ("components", "messages", "m", "bindings", "ibmmq"),
                             ("components", "messageTraits", "m", "bindings", "ibmmq"), ("components", "messageBindings", "b", "ibmmq")],
    "KafkaServerBindings": [("servers", "s", "bindings", "kafka"), ("components", "servers", "s", "bindings", "kafka"), ("components", "serverBindings", "s", "kafka")],
    "SolaceDestination": [("operations", "o", "bindings", "solace", "destinations", 0), ("components", "operationBindings", "o", "solace", "destinations", 0),
                          ("components", "operationTraits", "o", "bindings", "solace", "destinations", 0)],
}


def value(cx, c, n, vals, tag=""):
    v = cx.pick(tag + n, vals)
    return {"Q": Q.get(c), "X": X.get(c)}.get(v, cx.str(tag + n + "#", 2) if v == "text" else v) if isinstance(v, str) else v


def fields(cx, c, tag=""):
    f = {}
    for n, vals in FIELDS[c]:
        v = value(cx, c, n, vals, tag)
        if v != "absent":
            f[n] = v
    return f


def pyname(c, alias):
    return next(py for py, row in CLASSES[c][2].items() if row[0] == alias)


def judge(cx, c, f, ok, what):
    good = RULES[c](f)
    cx.check(good if ok else Not(good), f"{what} {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


def parse(cx, c, how):
    f = fields(cx, c)
    items = list(f.items())
    if cx.choose("reversed", 2):
        items.reverse()
    if how == "parse":
        ok, m = attempt(cls(c).model_validate, dict(items))
    else:
        ok, m = attempt(cls(c), **{pyname(c, k): v for k, v in items})
    judge(cx, c, f, ok, c)
    if ok:
        d = dump(m)
        for k, v in f.items():
            if v is None:
                cx.check(k not in d, "an explicit null is dumped")
            elif not isinstance(v, dict):
                cx.check(same(d[k], v), f"{k} is kept")
            else:
                cx.check(k in d, f"{k} is kept")


def selector(cx, c, n):
    """Every text as the selecting field."""
    s = SELECT[c]
    f = {s: cx.str("selector", n)}
    for name, vals in FIELDS[c][1:3]:
        v = cx.pick(name, ["absent", vals[-1]])
        if v != "absent":
            f[name] = {"Q": Q.get(c), "X": X.get(c), "text": "h"}[v]
    ok, m = attempt(cls(c).model_validate, f)
    judge(cx, c, f, ok, c)


def assign(cx, c):
    """Histories: two assignments to an object that was valid."""
    f = fields(cx, c, "start-")
    ok, m = attempt(cls(c).model_validate, f)
    if not ok:
        return
    now = dict(f)
    for i in range(2):
        n, vals = cx.pick(f"field{i}", FIELDS[c][:3])
        v = value(cx, c, n, [x for x in vals if x != "absent"], f"v{i}-")
        ok, _ = attempt(setattr, m, pyname(c, n), v)
        nxt = {**now, n: v}
        judge(cx, c, nxt, ok, f"assigning {n}")
        if ok:
            now = nxt
    d = dump(m)
    cx.check(RULES[c](d), "the object is consistent afterwards")


def document(cx, c, path):
    f = fields(cx, c)
    ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, f))
    judge(cx, c, f, ok, f"{c} in a document")


def embed(cx, c, path):
    """An object made inconsistent through its parts, then embedded."""
    sel = SELECT[c]
    m = cls(c).model_validate({"AMQPChannelBindings": {"is": "queue", "queue": {}}, "SolaceDestination": {"destinationType": "queue", "queue": {}},
                               "IBMMQChannelBindings": {"destinationType": "queue", "queue": Q["IBMMQChannelBindings"]}}[c])
    new = cx.pick("selector", ["queue", "routingKey", "topic"])
    bad = cx.choose("bypass", 2)
    if bad:
        m.__dict__[pyname(c, sel)] = new
    good = (not bad) or new == "queue" or (c == "IBMMQChannelBindings" and new == "topic")
    outer, field = {"AMQPChannelBindings": ("ChannelBindingsObject", "amqp"), "IBMMQChannelBindings": ("ChannelBindingsObject", "ibmmq"),
                    "SolaceDestination": ("SolaceOperationBindings", "destinations")}[c]
    ok, _ = attempt(cls(outer), **{field: [m] if field == "destinations" else m})
    cx.check(ok == good, "embedding an object")
    cx.reach("accepted" if ok else "rejected")


B = ["accepted", "rejected"]
HARNESSES = []
for _c in RULES:
    HARNESSES += [H(f"parse[{_c}]", parse, reach=B, c=_c, how="parse", bounds="every combination of absent, null and given for the fields of the rule; texts of 0..2 characters"),
                  H(f"construct[{_c}]", parse, reach=B, c=_c, how="construct", bounds="every combination of absent, null and given; texts of 0..2 characters"),
                  H(f"assign[{_c}]", assign, reach=B, c=_c, bounds="every valid start, two assignments", weight=3)]
    HARNESSES += [H(f"document[{'/'.join(map(str, p))}]", document, reach=B, c=_c, path=p, bounds="every combination of absent, null and given") for p in WHERE[_c]]
    if _c in SELECT:
        HARNESSES.append(H(f"selector[{_c}]", selector, reach=B, c=_c, n=11, bounds="selectors of 0..11 characters"))
    if _c in ("AMQPChannelBindings", "IBMMQChannelBindings", "SolaceDestination"):
        HARNESSES.append(H(f"embed[{_c}]", embed, reach=B, c=_c, path=None, bounds="listed values"))
