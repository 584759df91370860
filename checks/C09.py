"""C09: documented numeric ranges and length limits of protocol bindings."""

from checks.common import *
from sx.harness import H

# (class, field, lowest, highest, where in a document)
INTS = [
    ("AMQPOperationBindings", "expiration", 0, None, [("operations", "o", "bindings", "amqp"), ("components", "operationBindings", "b", "amqp")]),
    ("IBMMQServerBindings", "heartBeatInterval", 0, 999999, [("servers", "s", "bindings", "ibmmq"), ("components", "serverBindings", "b", "ibmmq")]),
    ("IBMMQChannelBindings", "maxMsgLength", 0, 104857600, [("channels", "c", "bindings", "ibmmq"), ("components", "channels", "c", "bindings", "ibmmq")]),
    ("IBMMQMessageBindings", "expiry", 0, None, [("components", "messages", "m", "bindings", "ibmmq"), ("components", "messageBindings", "m", "ibmmq")]),
    ("KafkaChannelBindings", "partitions", 1, None, [("channels", "c", "bindings", "kafka"), ("components", "channelBindings", "c", "kafka")]),
    ("KafkaChannelBindings", "replicas", 1, None, [("channels", "c", "bindings", "kafka"), ("components", "channelBindings", "c", "kafka")]),
    ("SolaceOperationBindings", "priority", 0, 255, [("operations", "o", "bindings", "solace"), ("components", "operationTraits", "t", "bindings", "solace")]),
]
# integers without a documented range: every one is accepted
FREE = [("AMQPOperationBindings", "priority"), ("SolaceOperationBindings", "timeToLive"), ("MQTTServerBindings", "keepAlive"),
        ("KafkaTopicConfiguration", "retention.ms"), ("HTTPMessageBindings", "statusCode"), ("JMSMessageBindings", None)]
FREE = [f for f in FREE if f[1]]
# (class, field, longest, unit, other required fields)
TEXTS = [
    ("AMQPExchange", "name", 255, [("components", "channels", "c", "bindings", "amqp", "exchange")]),
    ("AMQPQueue", "name", 255, [("components", "channels", "c", "bindings", "amqp", "queue")]),
    ("IBMMQQueue", "objectName", 48, [("channels", "c", "bindings", "ibmmq", "queue")]),
    ("IBMMQTopic", "objectName", 48, [("channels", "c", "bindings", "ibmmq", "topic")]),
    ("IBMMQTopic", "string", 10240, [("components", "channelBindings", "c", "ibmmq", "topic")]),
    ("NATSOperationBindings", "queue", 255, [("operations", "o", "bindings", "nats"), ("components", "operationBindings", "b", "nats")]),
]


def pyname(c, alias):
    return next(py for py, row in CLASSES[c][2].items() if row[0] == alias)


def in_range(v, lo, hi):
    return And(v >= lo, True if hi is None else v <= hi)


def check_int(cx, c, f, lo, hi, how, path=None):
    form = cx.pick("form", ["int", "text", "float", None, True, False] if how == "parse" else ["int"])
    if form == "int":
        v = raw = cx.int("v")
    elif form in ("text", "float"):
        near = [lo - 1, lo, lo + 1, 7, -1] + ([] if hi is None else [hi - 1, hi, hi + 1])
        v = cx.pick("near", near)
        raw = str(v) if form == "text" else float(v)
    else:
        v, raw = (None if form is None else int(form)), form
    base = minimal_model(c)
    if how == "parse":
        ok, m = attempt(cls(c).model_validate, {**base, f: raw})
    elif how == "construct":
        ok, m = attempt(cls(c), **{pyname(c, f): raw})
    elif how == "assign":
        m = cls(c).model_validate(base)
        ok, _ = attempt(setattr, m, pyname(c, f), raw)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, {**base, f: raw}))
    good = True if v is None else in_range(v, lo, hi)
    if ok:
        cx.check(good, f"{f} out of range was accepted")
        if how != "document":
            d = dump(m)
            cx.check(f not in d if v is None else same(d[f], v), "the number is kept")
    elif form in ("int", None):
        cx.check(Not(good), f"{f} in range was rejected")
    cx.reach("accepted" if ok else "rejected")


def check_free(cx, c, f):
    v = cx.int("v")
    ok, m = attempt(cls(c).model_validate, {**minimal_model(c), f: v})
    cx.check(ok, "a number was rejected")
    cx.check(same(dump(m)[f], v), "the number is kept")
    cx.reach("accepted")


def near_limit(cx, limit, how):
    """Strings around the limit and around every length the code mentions, with free characters at the ends, or short ones."""
    shape = cx.choose("shape", 4 if how == "parse" else 2)
    if shape == 0:
        return cx.str("s", 4)
    if shape == 1:
        return cx.str("a", range(2), None) + "n" * (limit - 2) + cx.str("b", 3)
    if shape == 2:
        return "é" * (limit - 2) + cx.str("b", 4)
    return text(cx, "s", 2, pads=True)


def check_text(cx, c, f, limit, how, path=None):
    s = near_limit(cx, limit, how)
    base = minimal_model(c)
    if how == "parse":
        ok, m = attempt(cls(c).model_validate, {**base, f: s})
    elif how == "assign":
        m = cls(c).model_validate(base)
        ok, _ = attempt(setattr, m, pyname(c, f), s)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, {**base, f: s}))
    cx.check(ok == (len(s) <= limit), f"{f} {'accepted' if ok else 'rejected'}")
    if ok and how != "document":
        cx.check(same(dump(m)[f], s), "the text is kept")
    cx.reach("accepted" if ok else "rejected")



def utf8_at_most(s, limit):
    """Whether the UTF-8 encoding fits, as a formula over counts (an automaton whose state is the number of bytes above the minimum)."""
    base = len(s)
    over = limit - base
    if over < 0:
        return False
    now = {0: True}
    for c in s:
        nxt = {}
        for k, cond in now.items():
            for extra, lo, hi in ((0, "\x00", "\x7f"), (1, "\x80", "\u07ff"), (2, "\u0800", "\uffff"), (3, "\U00010000", "\U0010ffff")):
                t = min(k + extra, over + 1)
                hit = And(cond, c >= lo, c <= hi)
                if hit is False:
                    continue
                nxt[t] = Or(nxt.get(t, False), hit)
        now = nxt
    return Or(*[v for k, v in now.items() if k <= over])


def client_name(cx, how, path=None):
    p = cx.choose("run", 6)
    run = ["", "a" * 157, "é" * 79, "水" * 52, "😀" * 39, "a" * 158 + "é"][p]
    s = run + cx.str("s", 4)
    c, f = "SolaceServerBindings", "clientName"
    if how == "parse":
        ok, m = attempt(cls(c).model_validate, {f: s})
    elif how == "assign":
        m = cls(c)()
        ok, _ = attempt(setattr, m, "client_name", s)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, {f: s}))
    good = utf8_at_most(s, 160)
    cx.check(good if ok else Not(good), f"clientName {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


B = ["accepted", "rejected"]
HARNESSES = []
for _c, _f, _lo, _hi, _ps in INTS:
    for _how in ("parse", "construct", "assign"):
        HARNESSES.append(H(f"{_how}[{_c}.{_f}]", check_int, reach=B, c=_c, f=_f, lo=_lo, hi=_hi, how=_how, bounds="every integer; as text or float near the limits"))
    for _p in _ps:
        HARNESSES.append(H(f"document[{_f} at {'/'.join(_p)}]", check_int, reach=B, c=_c, f=_f, lo=_lo, hi=_hi, how="document", path=_p, bounds="every integer"))
HARNESSES += [H(f"unlimited[{_c}.{_f}]", check_free, reach=["accepted"], c=_c, f=_f, bounds="every integer") for _c, _f in FREE]
for _c, _f, _n, _ps in TEXTS:
    for _how in ("parse", "assign"):
        HARNESSES.append(H(f"{_how}[{_c}.{_f}]", check_text, reach=B, c=_c, f=_f, limit=_n, how=_how, bounds="texts of 0..4 characters, texts of limit-2..limit+2 characters with up to 4 free characters"))
    for _p in _ps:
        HARNESSES.append(H(f"document[{_c}.{_f} at {'/'.join(_p)}]", check_text, reach=B, c=_c, f=_f, limit=_n, how="document", path=_p, bounds="as parse"))
HARNESSES += [H(f"clientName-{h}", client_name, reach=B, how=h, bounds="runs of 1-, 2-, 3- and 4-byte characters near the limit with 4 free characters") for h in ("parse", "assign")]
HARNESSES += [H(f"clientName-document[{'/'.join(p)}]", client_name, reach=B, how="document", path=p, bounds="as parse")
              for p in (("servers", "s", "bindings", "solace"), ("components", "serverBindings", "s", "solace"))]
