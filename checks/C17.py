"""C17: assigning to a field means parsing the object with that field changed; a refused assignment changes nothing."""

from checks.values import *
from sx.harness import H

WRONG = {"number": 5, "text": "zz", "true": True, "list": [5], "map": {"zz": 5}, "empty-map": {}, "empty-list": [], "null": None, "float": 1.5, "ref": {"$ref": "#/x"},
         "long": "s" * 11000, "negative": -1, "big": 10**12}


def state(m):
    return (dump(m), sorted(m.model_fields_set, key=str) if not any(type(k) is not str for k in m.model_fields_set) else len(m.model_fields_set))


def names(cname, deep=False):
    return [py for py, f in CLASSES[cname][2].items()]


def start(cx, cname):
    how = cx.pick("start", ["minimal", "complete"])
    return dict(minimal_model(cname) if how == "minimal" else complete(cname))


def value(cx, cname, py, tag="v"):
    """A raw value for the field: of its type, or of another."""
    f = CLASSES[cname][2][py]
    how = cx.pick(tag + "#kind", ["good", "object", "object-list", *WRONG])
    if how == "good":
        return simple(cx, f[5], tag)[0]
    if how == "object":
        return complete_value(f[5])
    if how == "object-list":
        return [complete_value(f[5])]
    return WRONG[how]


def complete_value(t):
    if t[0] == "model" and t[1] not in CONTAINERS:
        return complete(t[1])
    if t[0] == "union":
        return complete_value(t[1][0])
    if t[0] == "list":
        return [complete_value(t[1])]
    if t[0] == "model":
        return {"k": complete_value(CONTAINERS[t[1]][1])}
    return minimal(t)


def step(cx, m, cname, raw, tag, pys):
    """One assignment; raw is what the object was parsed from. Returns what it would be parsed from now."""
    py = cx.pick(tag + "field", pys)
    alias = CLASSES[cname][2][py][0]
    v = value(cx, cname, py, tag + "v")
    before = dump(m)
    held = {p: getattr(m, p) for p in CLASSES[cname][2]}
    was_set = len(m.model_fields_set)
    ok, _ = attempt(setattr, m, py, v)
    new = {**raw, alias: v}
    ok2, n = attempt(cls(cname).model_validate, new)
    cx.check(ok == ok2, f"{cname}.{py}: the assignment was {'accepted' if ok else 'refused'}, parsing says otherwise")
    cx.reach("accepted" if ok else "refused")
    if ok:
        if ok2:
            cx.check(same(sort(dump(m), cname), sort(dump(n), cname)), f"{cname}.{py}: the object is what parsing would give")
        for p, x in held.items():
            if p != py and isinstance(x, (str, int)):
                cx.check(getattr(m, p) == x, f"{cname}.{p} was touched by assigning {py}")
        return new
    cx.check(same(dump(m), before), f"{cname}.{py}: a refused assignment changed the object")
    for p, x in held.items():
        cx.check(getattr(m, p) is x, f"{cname}.{p} was replaced by a refused assignment to {py}")
    cx.check(len(m.model_fields_set) == was_set, "a refused assignment marked a field as set")
    return raw


def sort(d, cname):
    """Top-level fields in table order, then the others in their own order."""
    order = [f[0] for f in CLASSES[cname][2].values()]
    return [[k, d[k]] for k in order if k in d] + [[k, v] for k, v in d.items() if k not in order]


def assign(cx, cname, pys):
    raw = start(cx, cname)
    m = cls(cname).model_validate(raw)
    step(cx, m, cname, raw, "", pys)
    ok, _ = attempt(cls(cname).model_validate, dump(m))
    cx.check(ok, f"{cname} holds something it would not accept")


def history(cx, cname, steps, kinds):
    """Several assignments in a row, with the values that matter to the rules of the object."""
    raw = dict(cx.pick("start", kinds))
    m = cls(cname).model_validate(raw)
    for i in range(steps):
        py = cx.pick(f"f{i}", list(CHOICES[cname]))
        alias = CLASSES[cname][2][py][0]
        v = cx.pick(f"v{i}", CHOICES[cname][py])
        before = dump(m)
        ok, _ = attempt(setattr, m, py, v)
        new = {**raw, alias: v}
        ok2, n = attempt(cls(cname).model_validate, new)
        cx.check(ok == ok2, f"{cname}.{py}: the assignment was {'accepted' if ok else 'refused'}, parsing says otherwise")
        cx.reach("accepted" if ok else "refused")
        if ok:
            raw = new
            if ok2:
                cx.check(same(sort(dump(m), cname), sort(dump(n), cname)), f"{cname}.{py}: the object is what parsing would give")
        else:
            cx.check(same(dump(m), before), f"{cname}.{py}: a refused assignment changed the object")


CHOICES = {
    "SecurityScheme": {"type_": ["plain", "http", "oauth2", "apiKey", "nope"], "scheme": [None, "bearer", "basic"], "bearer_format": [None, "JWT"], "in_": [None, "user", "header"],
                       "flows": [None, {}], "scopes": [None, ["s"]], "name": [None, "n"]},
    "Channel": {"address": [None, "a", "{p}", "{}"], "parameters": [None, {}, {"p": {}}, {"bad key": {}}], "title": [None, 5]},
    "AMQPChannelBindings": {"is_": ["queue", "routingKey", "no"], "queue": [None, {}, {"name": "x" * 256}], "exchange": [None, {"name": "e", "type": "topic"}]},
    "SolaceDestination": {"destination_type": ["queue", "topic", None], "queue": [None, {}], "topic": [None, {}]},
    "MessageExample": {"headers": [None, {}], "payload": [None, 0, ""], "name": [None, 5]},
    "IBMMQChannelBindings": {"destination_type": [None, "queue", "topic"], "queue": [None, {"objectName": "q"}], "topic": [None, {}]},
    "OAuthFlows": {k: [None, {"availableScopes": {}}, {"availableScopes": {}, "authorizationUrl": URL}, {"availableScopes": {}, "authorizationUrl": URL, "tokenUrl": URL}]
                   for k in ("implicit", "password", "client_credentials", "authorization_code")},
    "KafkaServerBindings": {"schema_registry_url": [None, "u"], "schema_registry_vendor": [None, "v"], "binding_version": ["1", None]},
    "IBMMQMessageBindings": {"type": [None, "string", "binary", "jms"], "headers": [None, "h"], "expiry": [None, 0, -1]},
    "AsyncAPI3": {"asyncapi": ["3.1.0", "2.0.0", 3], "id": [None, URL, "no url"], "servers": [None, {"s": minimal_model("Server")}, {"a b": minimal_model("Server")}],
                  "components": [None, {"schemas": {"s": {}}}, {"schemas": {"s": 5}}]},
}
KINDS = {
    "SecurityScheme": [{"type": "plain"}, {"type": "http", "scheme": "bearer", "bearerFormat": "JWT"}, {"type": "oauth2", "flows": {}, "scopes": []}],
    "Channel": [{}, {"address": "{p}", "parameters": {"p": {}}}],
    "AMQPChannelBindings": [{"is": "queue", "queue": {}}, {"is": "routingKey", "exchange": {"name": "e", "type": "topic"}}],
    "SolaceDestination": [{"destinationType": "queue", "queue": {}}, {"destinationType": "topic", "topic": {}}],
    "MessageExample": [{"payload": 0}, {"headers": {}, "payload": 1}],
    "IBMMQChannelBindings": [{}, {"destinationType": "queue", "queue": {"objectName": "q"}}, {"destinationType": "topic", "topic": {}}],
    "OAuthFlows": [{}, {"implicit": {"availableScopes": {}, "authorizationUrl": URL}}],
    "KafkaServerBindings": [{}, {"schemaRegistryUrl": "u", "schemaRegistryVendor": "v"}],
    "IBMMQMessageBindings": [{}, {"type": "binary", "headers": "h"}],
    "AsyncAPI3": [doc(), doc(servers={"s": minimal_model("Server")})],
}


def inside(cx, path, cname, pys):
    """Assigning to an object inside a document: the document follows, or stays as it was."""
    raw0 = complete(cname)
    d = at(path, raw0)
    spec = cls("AsyncAPI3").model_validate(d)
    m = spec
    for i, seg in enumerate(path):
        m = m[seg] if isinstance(seg, int) else walk(m, seg, type_at(path[:i]))
    before = dump(spec)
    py = cx.pick("field", pys)
    v = value(cx, cname, py)
    ok, _ = attempt(setattr, m, py, v)
    ok2, n = attempt(cls("AsyncAPI3").model_validate, at(path, {**raw0, CLASSES[cname][2][py][0]: v}))
    cx.check(ok == ok2, f"{cname}.{py} in a document: the assignment was {'accepted' if ok else 'refused'}, parsing says otherwise")
    cx.reach("accepted" if ok else "refused")
    cx.check(same(dump(spec), dump(n) if ok and ok2 else before) if ok == ok2 else True, "the document is what parsing would give" if ok else "a refused assignment changed the document")


LOOSE = [None, 0, 1, False, True, "", "a", [], [1], [True], {}, {"a": 1}, {"a": True}, 1.0]
ABSENT = "absent"


def loose(cx, cname, where, values, steps):
    """Extensions and free-form fields: every assigned value replaces what was there, also one that is nearly the same."""
    raw = dict(minimal_model(cname))
    py, alias = where
    i = cx.choose("start", len(values) + 1)
    if i:
        raw[alias] = values[i - 1]
    other = {"x-zz": 5} if CLASSES[cname][1] != "forbid" else {}
    raw = {**raw, **other}
    ok, m = attempt(cls(cname).model_validate, raw)
    if not ok:
        return
    for k in range(steps):
        v = cx.pick(f"v{k}", [*values, ABSENT])
        if v == ABSENT and isinstance(v, str):
            v = cx.str(f"text{k}", 2)
        ok, _ = attempt(setattr, m, py, v)
        new = {**raw, alias: v}
        ok2, n = attempt(cls(cname).model_validate, new)
        cx.check(ok == ok2, f"{cname}.{py}: the assignment was {'accepted' if ok else 'refused'}, parsing says otherwise")
        if ok and ok2:
            raw = new
            cx.check(same(sort(dump(m), cname), sort(dump(n), cname)), f"{cname}.{py}: the object is what parsing would give")
            got = getattr(m, py)
            cx.check(same(got, getattr(n, py)) if isinstance(v, (str, int, type(None))) and type(got).__module__ == "builtins" else True, f"{cname}.{py} reads back what parsing would give")
        cx.reach("accepted" if ok else "refused")


def walk(m, seg, t):
    if isinstance(m, dict):
        return m[seg]
    here = type(m).__name__
    if here in CONTAINERS:
        return m[seg]
    return getattr(m, next(py for py, f in CLASSES[here][2].items() if f[0] == seg))


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    if _f:
        HARNESSES.append(H(f"assign[{_n}]", assign, reach=["accepted", "refused"], cname=_n, pys=list(_f),
                           bounds="minimal and complete object, each field, values of its type (texts of 0..2 characters, numbers 1..255) and 13 others"))
def _free(t):
    return t[0] in ("any", "dict") or t[0] == "union" and any(_free(x) for x in t[1])


_FEW = [None, 0, False, 1, True, "", [], {}]
for _n, (_m, _x, _f) in CLASSES.items():
    if _x == "x":
        _full = _n in ("Info", "Channel", "AsyncAPI3", "Message")
        HARNESSES.append(H(f"extension[{_n}]", loose, reach=["accepted"], cname=_n, where=("x-a", "x-a"), values=LOOSE if _full else _FEW, steps=1,
                           bounds=f"one extension, absent or one of {len(LOOSE if _full else _FEW)} values, assigned one of them or a text of 0..2 characters, beside another extension"))
    if _x == "any":
        for _w in ("const", "x-a", "a b"):
            HARNESSES.append(H(f"keyword[{_n}.{_w}]", loose, reach=["accepted"], cname=_n, where=(_w, _w), values=LOOSE, steps=1, bounds=f"one keyword, absent or one of {len(LOOSE)} values, assigned one of them or a text of 0..2 characters"))
    for _py, _d in _f.items():
        if _free(_d[5]):
            HARNESSES.append(H(f"free-form[{_n}.{_py}]", loose, reach=["accepted"], cname=_n, where=(_py, _d[0]), values=LOOSE, steps=1,
                               bounds=f"a free-form field, absent or one of {len(LOOSE)} values, assigned one of them or a text of 0..2 characters"))
for _n, _w in (("Schema", "const"), ("Info", "x-a")):
    HARNESSES.append(H(f"again[{_n}]", loose, reach=["accepted"], cname=_n, where=(_w, _w), values=_FEW, steps=2, bounds="two assignments in a row of 8 values or texts of 0..2 characters"))
for _n in CHOICES:
    HARNESSES.append(H(f"two-steps[{_n}]", history, reach=["accepted", "refused"], cname=_n, steps=2, kinds=KINDS[_n], bounds="every two assignments of the listed values"))
    HARNESSES.append(H(f"three-steps[{_n}]", history, thorough_only=True, cname=_n, steps=3, kinds=KINDS[_n], bounds="every three assignments of the listed values"))
for _p, _n in [
    (("info",), "Info"), (("info", "contact"), "Contact"), (("info", "tags", 0), "Tag"), (("servers", "s"), "Server"), (("channels", "c"), "Channel"),
    (("channels", "c", "messages", "m"), "Message"), (("operations", "o"), "Operation"), (("components",), "Components"),
    (("components", "messages", "m", "correlationId"), "CorrelationID"), (("components", "securitySchemes", "s"), "SecurityScheme"),
    (("servers", "s", "variables", "v"), "ServerVariable"), (("channels", "c", "parameters", "p"), "Parameter"), (("components", "schemas", "s"), "Schema"),
    (("channels", "c", "bindings", "kafka", "topicConfiguration"), "KafkaTopicConfiguration"), (("components", "serverBindings", "b", "mqtt"), "MQTTServerBindings"),
    (("operations", "o", "bindings", "amqp"), "AMQPOperationBindings"), (("components", "channelBindings", "b", "ws"), "WebSocketsChannelBindings"),
    (("operations", "o", "reply"), "OperationReply"), (("components", "messages", "m", "examples", 0), "MessageExample"),
]:
    HARNESSES.append(H(f"inside[{'/'.join(map(str, _p))}]", inside, reach=["accepted", "refused"], path=_p, cname=_n, pys=list(CLASSES[_n][2]),
                       bounds="complete object in a document, each field, values of its type and 13 others"))
