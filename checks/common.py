"""Vocabulary of the checks. Everything here is an independent oracle or an input builder: nothing is taken from the
library except the classes under test (looked up by their documented name)."""

import importlib

import sx.engine
from sx.mined import INTS, NEW_INTS, NEW_TEXTS
from checks.table import CLASSES, CONTAINERS
from sx.engine import And, Iff, Implies, Not, Or

UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = "abcdefghijklmnopqrstuvwxyz"
DIGITS = "0123456789"
KEYCHARS = UPPER + LOWER + DIGITS + "_-"
EXTCHARS = KEYCHARS + "."
PADS = [30, 100, 300, *[n - 2 for n in INTS if 12 <= n <= 3000]]

# how many harmless neighbours stand beside the one under test, where that is varied
SIZES = sorted({9, 33, *[m for n in NEW_INTS if 2 <= n <= 300 for m in (n, n + 1)][:6]})

sx.engine.NEAR = NEW_TEXTS

_cls = {}


def cls(name):
    c = _cls.get(name)
    if c is None:
        mod = (CLASSES.get(name) or CONTAINERS[name])[0]
        c = _cls[name] = getattr(importlib.import_module(mod), name)
    return c


def attempt(fn, *args, **kw):
    """(True, result) or (False, the rejection). Only ValueError (pydantic's ValidationError is one) is a rejection."""
    try:
        return True, fn(*args, **kw)
    except ValueError as e:
        return False, e


def accepts(fn, *args, **kw):
    return attempt(fn, *args, **kw)[0]


# --- characters -------------------------------------------------------------------------------------------------
def chars_in(s, allowed):
    r = True
    for c in s:
        r = And(r, c in allowed)
    return r


def legal_key(s):
    return And(len(s) > 0, chars_in(s, KEYCHARS))


def text(cx, name, n=6, pads=False, chars=None):
    """A symbolic string of 0..n characters, or (pads) a long one: free ends around a literal run."""
    if pads:
        p = cx.choose(name + "#shape", 1 + len(PADS))
        if p:
            return cx.str(name + "<", 2, chars) + "a" * PADS[p - 1] + cx.str(name + ">", 2, chars)
    return cx.str(name, n, chars)


def name_(cx, name, n=2):
    """A legal key of 1..n characters."""
    return cx.str(name, range(1, n + 1), KEYCHARS)


# --- values -----------------------------------------------------------------------------------------------------
URL = "https://example.com/a"


def minimal(t):
    """The smallest valid document of a type of the table (references excluded)."""
    k = t[0]
    if k == "model":
        return minimal_model(t[1])
    if k == "union":
        return minimal(t[1][0])
    return {"str": "s", "int": 1, "bool": True, "url": URL, "httpurl": URL, "email": "a@b.co", "any": 1, "dict": {}, "list": []}[k] if k != "lit" else t[1][0]


SPECIAL = {
    "SecurityScheme": {"type": "plain"},
    "CorrelationID": {"location": "$message.header#/c"},
    "MessageExample": {"payload": 1},
    "AMQPChannelBindings": {"is": "queue", "queue": {}},
    "SolaceDestination": {"destinationType": "queue", "queue": {}},
    "Operation": {"action": "send", "channel": {"$ref": "#/channels/c"}},
}


def minimal_model(name):
    if name in CONTAINERS:
        return {}
    if name == "Reference":
        return {"$ref": "#/components/tags/t"}
    if name in SPECIAL:
        return dict(SPECIAL[name])
    return {alias: minimal(t) for alias, required, _, _, _, t in CLASSES[name][2].values() if required}


def entry(cname):
    """A minimal raw entry of a container."""
    return minimal(CONTAINERS[cname][1])


# --- comparison -------------------------------------------------------------------------------------------------
def same(a, b):
    """Deep equality of plain data, order of mapping entries included; never forks."""
    if isinstance(a, dict):
        if not isinstance(b, dict) or len(a) != len(b):
            return False
        r = True
        for (k, v), (k2, v2) in zip(a.items(), b.items()):
            r = And(r, k == k2, same(v, v2))
            if r is False:
                return False
        return r
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = And(r, same(x, y))
            if r is False:
                return False
        return r
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, int) != isinstance(b, int) or isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def dump(m):
    return m.model_dump(mode="json", by_alias=True)


# --- documents --------------------------------------------------------------------------------------------------
def doc(**kw):
    return {"asyncapi": "3.0.0", "info": {"title": "t", "version": "1"}, **kw}


def member(t, seg):
    """The alternative of a type that the path segment ``seg`` descends into, and the type of what is there."""
    if t[0] == "union":
        for a in t[1]:
            r = member(a, seg)
            if r is not None:
                return r
        return None
    if t[0] == "list":
        return (t, t[1]) if seg == 0 else None
    if t[0] == "dict":
        return (t, t[1]) if seg != 0 else None
    if t[0] == "model":
        if t[1] in CONTAINERS:
            return t, CONTAINERS[t[1]][1]
        if t[1] == "Reference":
            return None
        for alias, _, _, _, _, ft in CLASSES[t[1]][2].values():
            if alias == seg:
                return t, ft
    return None


def type_at(path, t=("model", "AsyncAPI3")):
    for seg in path:
        t = member(t, seg)[1]
    return t


def put(t, path, value):
    """A raw document of type ``t`` holding ``value`` at ``path`` (document names; 0 = only element of a list), with the
    fields required on the way filled in. Segments of maps may be symbolic strings."""
    if not path:
        return value
    here, inner = member(t, path[0])
    value = put(inner, path[1:], value)
    if here[0] == "list":
        return [value]
    if here[0] == "dict" or here[1] in CONTAINERS:
        return {path[0]: value}
    return {**supplement(here[1], path[0]), path[0]: value}


def supplement(name, field):
    """A minimal valid document of a model in which ``field`` may be present."""
    if name == "Channel" and field == "parameters":
        return {"address": "{p}"}
    if name == "SecurityScheme":
        return {"flows": {"type": "oauth2"}, "openIdConnectUrl": {"type": "openIdConnect", "openIdConnectUrl": URL}}.get(field, {"type": "plain"})
    if name == "AMQPChannelBindings":
        return {"is": "routingKey"} if field == "exchange" else {"is": "queue"}
    if name == "SolaceDestination":
        return {"destinationType": field} if field in ("queue", "topic") else minimal_model(name)
    if name == "AsyncAPI3":
        return doc()
    return minimal_model(name)


def at(path, value):
    return put(("model", "AsyncAPI3"), path, value)


# where each named map lives in a document: (path)
MAP_POSITIONS = {
    "Servers": [("servers",), ("components", "servers")],
    "Channels": [("channels",), ("components", "channels")],
    "Operations": [("operations",), ("components", "operations")],
    "Messages": [("components", "messages")],
    "Schemas": [("components", "schemas")],
    "Parameters": [("components", "parameters")],
    "SecuritySchemes": [("components", "securitySchemes")],
    "ServerVariables": [("components", "serverVariables")],
    "CorrelationIDs": [("components", "correlationIds")],
    "Replies": [("components", "replies")],
    "ReplyAddresses": [("components", "replyAddresses")],
    "ExternalDocs": [("components", "externalDocs")],
    "Tags": [("components", "tags")],
    "OperationTraits": [("components", "operationTraits")],
    "MessageTraits": [("components", "messageTraits")],
    "ServerBindings": [("components", "serverBindings")],
    "ChannelBindings": [("components", "channelBindings")],
    "OperationBindings": [("components", "operationBindings")],
    "MessageBindings": [("components", "messageBindings")],
}


# --- a finite automaton over a symbolic string, without forking ---------------------------------------------------
def automaton(s, start, accept, edges):
    """edges: [(state, characters, state)]; characters may be a string or a predicate on one character."""
    now = {start: True}
    for c in s:
        nxt = {}
        for a, chars, b in edges:
            if a in now:
                hit = chars(c) if callable(chars) else c in chars
                nxt[b] = Or(nxt.get(b, False), And(now[a], hit))
        now = nxt
    return Or(*[now.get(a, False) for a in accept])


# --- where references may stand -----------------------------------------------------------------------------------
KEY = "<key>"


def _refs(t, path, seen):
    if t[0] == "union":
        alts = [a for a in t[1] if a != ("model", "Reference")]
        if len(alts) < len(t[1]):
            yield path, alts
        for a in alts:
            yield from _refs(a, path, seen)
    elif t[0] == "list":
        yield from _refs(t[1], (*path, 0), seen)
    elif t[0] == "dict":
        yield from _refs(t[1], (*path, KEY), seen)
    elif t[0] == "model":
        if t[1] == "Reference":
            yield path, None
        elif t[1] in CONTAINERS:
            yield from _refs(CONTAINERS[t[1]][1], (*path, KEY), seen)
        elif t[1] not in seen:
            for alias, _, _, _, _, ft, *_ in CLASSES[t[1]][2].values():
                yield from _refs(ft, (*path, alias), (*seen, t[1]))


# fields that hold only references: what they must point to
ONLY = {"servers": ["Server"], "channel": ["Channel"], "messages": ["Message"]}
# [(path, names of the kinds of object a reference there may point to)]
REF_POSITIONS = []
for _p, _alts in _refs(("model", "AsyncAPI3"), (), ()):
    REF_POSITIONS.append((_p, [a[1] for a in _alts if a[0] == "model"] if _alts is not None else ONLY[_p[-1] if _p[-1] != 0 else _p[-2]]))

# a home for one object of each kind: (path of the map, minimal object)
HOMES = {}
for _c, _ps in MAP_POSITIONS.items():
    for _a in (CONTAINERS[_c][1][1] if CONTAINERS[_c][1][0] == "union" else [CONTAINERS[_c][1]]):
        if _a != ("model", "Reference"):
            HOMES[_a[1]] = (next(p for p in _ps if p[0] == "components"), minimal(_a))


def merge(a, b):
    """Two raw documents in one (maps are joined, lists appended)."""
    r = dict(a)
    for k, v in b.items():
        r[k] = v if k not in r else merge(r[k], v) if isinstance(v, dict) else [*r[k], *v] if isinstance(v, list) else v
    return r


def nested(path, value):
    for k in reversed(path):
        value = {k: value}
    return value


def pointer_to(path, name):
    r = "#"
    for k in path:
        r = r + "/" + k
    return r + "/" + name
