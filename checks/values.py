"""Generators of documents and the oracle of what they are written out as, both driven by the table."""

from checks.common import *

# classes whose objects obey rules between fields: C05..C10 decide which combinations are accepted
RULED = {"SecurityScheme", "OAuthFlow", "OAuthFlows", "AMQPChannelBindings", "SolaceDestination", "IBMMQChannelBindings", "IBMMQMessageBindings",
         "KafkaServerBindings", "Channel", "MessageExample"}
# fields with a numeric range or a length limit are covered by C09; here their values stay inside
SMALL = {"AMQPOperationBindings.expiration", "IBMMQMessageBindings.expiry", "IBMMQServerBindings.heartBeatInterval", "IBMMQChannelBindings.maxMsgLength",
         "KafkaChannelBindings.partitions", "KafkaChannelBindings.replicas", "SolaceOperationBindings.priority"}


class Obj(dict):
    """Expected content of an object: the order of its fields is not significant."""


def anyvalue(cx, tag, n=2):
    k = cx.pick(tag + "#any", ["text", "int", "true", "false", "zero", "empty", "list", "map", "fieldlike"])
    return {
        "text": lambda: cx.str(tag, n), "int": lambda: cx.int(tag), "true": lambda: True, "false": lambda: False, "zero": lambda: 0,
        "empty": lambda: cx.pick(tag + "#e", ["", [], {}]), "list": lambda: [cx.str(tag + "0", 1), None, [], {"b": cx.int(tag + "1")}, False],
        "map": lambda: {cx.str(tag + "k", 2): None, "x-zz": {"a": []}},
        "fieldlike": lambda: {"external_docs": 1, "binding_version": None, "type_": [{"in_": None}], "description": None},
    }[k]()


def simple(cx, t, tag, full=False, n=2):
    """(raw, expected) for a value of a type; models are minimal, or complete if ``full``."""
    k = t[0]
    if k == "str":
        v = cx.str(tag, n)
    elif k == "int":
        v = cx.int(tag, 1, 255)
    elif k == "bool":
        v = cx.bool(tag)
    elif k == "lit":
        v = cx.pick(tag, t[1])
    elif k == "url":
        v = URL
    elif k == "httpurl":
        v = URL
    elif k == "email":
        v = "a.b@c.de"
    elif k == "any":
        v = anyvalue(cx, tag) if full != "deep" else 1
    elif k == "dict":
        return holder(cx, t, tag, full)
    elif k == "list":
        m = cx.choose(tag + "#len", 3) if full != "deep" else 1
        pairs = [simple(cx, t[1], f"{tag}.{i}", full if i == m - 1 else "deep") for i in range(m)]
        return [p[0] for p in pairs], [p[1] for p in pairs]
    elif k == "union":
        return simple(cx, t[1][cx.choose(tag + "#alt", len(t[1]))] if full != "deep" else t[1][0], tag, full)
    elif k == "model":
        if t[1] in CONTAINERS:
            return holder(cx, t, tag, full)
        if t[1] == "Reference":
            v = {"$ref": "#/" + cx.str(tag, 1)}
            return v, Obj(v)
        raw = complete(t[1]) if full else minimal_model(t[1])
        return raw, expected(("model", t[1]), raw)
    return v, v


def holder(cx, t, tag, full):
    inner = CONTAINERS[t[1]][1] if t[0] == "model" else t[1] if len(t) > 1 else ("any",)
    if full == "deep":
        raw = {"k": simple(cx, inner, tag, full)[0]}
        return raw, expected(t, raw)
    m = cx.choose(tag + "#len", 3)
    raw, exp = {}, {}
    for i in range(m):
        if t[0] == "model":
            k = "k" + str(i) + cx.str(f"{tag}.k{i}", 1, KEYCHARS)
        else:
            k = str(i) + cx.str(f"{tag}.k{i}", 1)
        raw[k], exp[k] = simple(cx, inner, f"{tag}.{i}", full if i == m - 1 else "deep")
    return raw, exp


# complete objects: every field that can be present together (the first alternative of each union, one element per list)
CHOICE = {
    "SecurityScheme": {"type": "oauth2", "description": "d", "name": "n", "in": "user", "scheme": "s", "flows": {"implicit": {"authorizationUrl": URL, "availableScopes": {"s": "t"}}}, "scopes": ["s"]},
    "OAuthFlow": {"authorizationUrl": URL, "tokenUrl": URL, "refreshUrl": URL, "availableScopes": {"s": "t"}},
    "AMQPChannelBindings": {"is": "queue", "queue": {"name": "q", "durable": True, "exclusive": False, "autoDelete": True, "vhost": "/"}, "bindingVersion": "0.3.0"},
    "SolaceDestination": {"destinationType": "queue", "queue": {"name": "q", "topicSubscriptions": ["t"], "accessType": "exclusive", "maxMsgSpoolSize": "1", "maxTtl": "2"}, "deliveryMode": "direct"},
    "IBMMQChannelBindings": {"destinationType": "topic", "topic": {"string": "s", "objectName": "o", "durablePermitted": True, "lastMsgRetained": False}, "maxMsgLength": 5, "bindingVersion": "0.1.0"},
    "Tag": {"name": "n", "description": "d", "externalDocs": {"url": URL, "description": "e"}, "x-t": 1},
    "Schema": {"discriminator": "d", "externalDocs": {"url": URL}, "deprecated": True, "type": "object", "properties": {"a": {"type": "string", "description": None}}, "x-s": [None]},
    "Reference": {"$ref": "#/components/tags/t"},
    "CorrelationID": {"location": "$message.header#/c", "description": "d", "x-c": None},
}
_complete = {}


def complete(name, seen=()):
    if name in _complete:
        return _complete[name]
    if CHOICE.get(name):
        r = CHOICE[name]
    elif name in seen:
        return minimal_model(name)
    else:
        r = {}
        for alias, required, _, _, _, t in CLASSES[name][2].values():
            r[alias] = _whole(t, (*seen, name), alias)
        if name == "Channel":
            r["address"] = "{p}"
        if name == "AsyncAPI3":
            r["asyncapi"] = "3.0.0"
        if name == "IBMMQMessageBindings":
            r["type"] = "binary"
        if CLASSES[name][1] != "forbid":
            r["x-ext"] = {"a": [None, 1]}
    if not seen:
        _complete[name] = r
    return r


def _whole(t, seen, alias=""):
    k = t[0]
    if k == "model" and t[1] not in CONTAINERS:
        return complete(t[1], seen)
    if k in ("model", "dict"):
        inner = CONTAINERS[t[1]][1] if k == "model" else t[1] if len(t) > 1 else ("any",)
        return {"p": _whole(inner, seen)}
    if k == "list":
        return [_whole(t[1], seen)]
    if k == "union":
        alts = [a for a in t[1] if a[1:] != ("MultiFormatSchema",)]
        return _whole(alts[0], seen)
    return {"str": "s-" + alias, "int": 7, "bool": True, "url": URL, "httpurl": URL, "email": "a@b.co", "any": {"a": None}}.get(k) or t[1][-1]


def expected(t, raw):
    """What a document of the type is written out as. Unions of models are told apart by their fields."""
    k = t[0]
    if raw is None:
        return None
    if k == "union":
        return expected(alternative(t[1], raw), raw)
    if k == "list":
        return [expected(t[1], x) for x in raw]
    if k == "dict":
        return {n: expected(t[1], x) for n, x in raw.items()} if len(t) > 1 else raw
    if k == "model":
        if t[1] in CONTAINERS:
            return {n: expected(CONTAINERS[t[1]][1], x) for n, x in raw.items()}
        if t[1] == "Reference":
            return Obj(raw)
        r = Obj()
        known = set()
        for alias, required, default, nullable, omitted, ft in CLASSES[t[1]][2].values():
            known.add(alias)
            if alias in raw:
                v = expected(ft, raw[alias])
            elif required:
                continue
            else:
                v = default
            if v is not None or not omitted:
                r[alias] = v
        for n, x in raw.items():
            if not isinstance(n, str) or n not in known:
                r[n] = x
        return r
    return raw


def alternative(alts, raw):
    if isinstance(raw, dict):
        if "$ref" in raw and ("model", "Reference") in alts:
            return ("model", "Reference")
        if ("model", "MultiFormatSchema") in alts:
            return ("model", "MultiFormatSchema" if "schema" in raw else "Schema")
        return next(a for a in alts if a[0] in ("model", "dict"))
    if isinstance(raw, list):
        return next(a for a in alts if a[0] == "list")
    return next((a for a in alts if a[0] not in ("model", "list", "dict")), alts[0])


def agree(exp, got):
    """Expected against written data."""
    if isinstance(exp, Obj):
        if not isinstance(got, dict) or len(got) != len(exp):
            return False
        r = True
        free = []
        for k, v in exp.items():
            if type(k) is not str:
                free.append((k, v))
            elif k not in got:
                return False
            else:
                r = And(r, agree(v, got[k]))
        if free:
            rest = [(k, v) for k, v in got.items() if not (type(k) is str and k in exp)]
            if len(rest) != len(free):
                return False
            for (k, v), (k2, v2) in zip(free, rest):
                r = And(r, k == k2, agree(v, v2))
        return r
    if isinstance(exp, dict):
        if not isinstance(got, dict) or len(exp) != len(got):
            return False
        r = True
        for (k, v), (k2, v2) in zip(exp.items(), got.items()):
            r = And(r, k == k2, agree(v, v2))
        return r
    if isinstance(exp, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(exp) != len(got):
            return False
        r = True
        for a, b in zip(exp, got):
            r = And(r, agree(a, b))
        return r
    return same(exp, got)
