"""C10: message examples have content and correlation identifiers point into the message."""

from checks.common import *
from sx.harness import H

EXAMPLE_AT = [(*p, "examples", 0) for p in (("components", "messages", "m"), ("channels", "c", "messages", "m"), ("components", "messageTraits", "t"),
                                            ("components", "channels", "c", "messages", "m"), ("components", "messages", "m", "traits", 0))]
CORRELATION_AT = [("components", "correlationIds", "c"), *[(*p[:-2], "correlationId") for p in EXAMPLE_AT]]


def example_fields(cx):
    f = {}
    h = cx.pick("headers", ["absent", None, {}, "map"])
    if h != "absent":
        f["headers"] = {cx.str("hname", 1): cx.int("hval")} if h == "map" else h
    p = cx.pick("payload", ["absent", None, False, 0, 0.0, "", [], {}, "text", "number", "nested"])
    if not (isinstance(p, str) and p == "absent"):
        f["payload"] = cx.str("ptext", 3) if p == "text" else cx.int("pint") if p == "number" else [{"a": None}, None] if p == "nested" else p
    for n in ("name", "summary"):
        if cx.choose("has-" + n, 2):
            f[n] = cx.str(n, 1)
    if cx.choose("ext", 2):
        f["x-a"] = cx.pick("extval", [None, 1])
    return f


def example(cx, how, path=None):
    f = example_fields(cx)
    good = f.get("headers") is not None or f.get("payload") is not None
    if how == "parse":
        ok, m = attempt(cls("MessageExample").model_validate, f)
    elif how == "construct":
        ok, m = attempt(cls("MessageExample"), **f)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, f))
    cx.check(ok == good, f"an example was {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok and how != "document":
        d = dump(m)
        for k, v in f.items():
            if v is not None:
                cx.check(k in d and (True if isinstance(v, float) else same(d[k], v)), f"{k} is kept")


def example_assign(cx):
    m = cls("MessageExample").model_validate(cx.pick("start", [{"headers": {}}, {"payload": 0}, {"headers": {"a": 1}, "payload": ""}]))
    now = {"headers": m.headers, "payload": m.payload}
    for i in range(3):
        f = cx.pick(f"field{i}", ["headers", "payload"])
        v = cx.pick(f"v{i}", [None, {}])
        ok, _ = attempt(setattr, m, f, v)
        nxt = {**now, f: v}
        good = nxt["headers"] is not None or nxt["payload"] is not None
        cx.check(ok == good, f"assigning {f} was {'accepted' if ok else 'rejected'}")
        cx.reach("accepted" if ok else "rejected")
        if ok:
            now = nxt
        cx.check(same(m.headers, now["headers"]) and same(m.payload, now["payload"]), "the example holds what was assigned")


def location(cx, how, lead, n, pads=False, path=None):
    s = lead + text(cx, "s", n, pads=pads)
    C = cls("CorrelationID")
    if how == "parse":
        ok, m = attempt(C.model_validate, {"location": s, "description": "d"})
    elif how == "construct":
        ok, m = attempt(C, location=s)
    elif how == "assign":
        m = C(location="$message.header#/a")
        ok, _ = attempt(setattr, m, "location", s)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, {"location": s}))
    good = s.startswith("$message.")
    cx.check(good if ok else Not(good), f"a location was {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if how != "document" and ok:
        cx.check(same(dump(m)["location"], s), "the location is kept")


def reply_address(cx, path):
    """The location of a reply address is any text."""
    s = cx.str("s", 6)
    raw = {"location": s}
    ok, m = attempt(cls("OperationReplyAddress").model_validate, raw) if path is None else attempt(cls("AsyncAPI3").model_validate, at(path, raw))
    cx.check(ok, "a reply address was rejected")
    cx.reach("accepted")


B = ["accepted", "rejected"]
HARNESSES = [
    H("example-parse", example, reach=B, how="parse", bounds="every combination of absent, null, falsy and other values"),
    H("example-construct", example, reach=B, how="construct", bounds="every combination of absent, null, falsy and other values"),
    H("example-assign", example_assign, reach=B, bounds="3 starts, 3 assignments"),
    *[H(f"example-document[{'/'.join(map(str, p))}]", example, reach=B, how="document", path=p, bounds="every combination of absent, null, falsy and other values") for p in EXAMPLE_AT],
    H("location-parse", location, reach=B, how="parse", lead="", n=11, bounds="0..11 characters"),
    H("location-construct", location, reach=B, how="construct", lead="", n=11, bounds="0..11 characters"),
    H("location-assign", location, reach=B, how="assign", lead="", n=11, bounds="0..11 characters"),
    *[H(f"location-{h}-prefixed", location, reach=["accepted"], how=h, lead="$message.", n=6, pads=True, bounds="'$message.' and 0..6 characters, or a long run") for h in ("parse", "construct", "assign")],
    *[H(f"location-document[{'/'.join(map(str, p))}]", location, reach=B, how="document", lead=lead, n=n, path=p, bounds="'$message' and 0..3 characters")
      for p in CORRELATION_AT for lead, n in (("$message", 3),)],
    *[H(f"reply-address[{'/'.join(p) if p else 'alone'}]", reply_address, reach=["accepted"], path=p, bounds="0..6 characters")
      for p in (None, ("components", "replyAddresses", "a"), ("operations", "o", "reply", "address"), ("components", "replies", "r", "address"))],
]
