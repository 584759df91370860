"""C05: channel parameters need an address with an expression."""

from checks.common import *
from sx.harness import H


def has_expression(s):
    """A '{', at least one character other than '}', then a '}'."""
    return automaton(s, 0, [3], [
        (0, lambda c: True, 0), (0, "{", 1), (1, lambda c: c != "}", 2), (2, lambda c: c != "}", 2), (2, "}", 3), (3, lambda c: True, 3),
    ])


def params(cx):
    p = cx.choose("parameters", 5)
    if p == 0:
        return {}, False
    if p == 1:
        return {"parameters": None}, False
    if p == 2:
        return {"parameters": {}}, True
    if p == 3:
        return {"parameters": {name_(cx, "pkey", 2): {}}}, True
    return {"parameters": {"a": {"$ref": "#/components/parameters/p"}, "b": {"description": "d"}}}, True


def address(cx, n, shape):
    if shape == "free":
        a = cx.choose("address", 3)
        if a == 0:
            return {}, None
        if a == 1:
            return {"address": None}, None
        s = cx.str("addr", n)
    elif shape == "braces":
        s = cx.str("addr", n, "{}a/.")
    else:
        s = text(cx, "addr", n, pads=True, chars="{}a\n")
    return {"address": s}, s


def parse(cx, n, shape, path=None):
    a, s = address(cx, n, shape)
    p, given = params(cx)
    raw = {**a, **p} if cx.choose("order", 2) else {**p, **a}
    if path is None:
        ok, m = attempt(cls("Channel").model_validate, raw)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, raw))
    good = True if not given else False if s is None else has_expression(s)
    cx.check(good if ok else Not(good), f"channel {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok and path is None:
        cx.check(same(m.address, s), "the address is kept")


def assign(cx, n):
    a, s = address(cx, n, "braces" if cx.choose("braces", 2) else "free")
    p, given = params(cx)
    C = cls("Channel")
    which = cx.pick("which", ["address", "parameters", "both"])
    if which == "address":
        m = C.model_validate({"address": "{x}", **p})
        ok, _ = attempt(setattr, m, "address", s)
    elif which == "parameters":
        ok, m = attempt(C.model_validate, a)
        cx.check(ok, "an address alone was rejected")
        ok, _ = attempt(setattr, m, "parameters", p.get("parameters"))
    else:
        m = C.model_validate(a)
        ok, _ = attempt(setattr, m, "parameters", p.get("parameters"))
        if ok:
            attempt(setattr, m, "address", None)
            s = m.address
    good = True if not given else False if s is None else has_expression(s)
    cx.check(good if ok else Not(good), f"assignment {'accepted' if ok else 'rejected'}")
    cx.check(Not(And(m.parameters is not None, Not(False if m.address is None else has_expression(m.address)))), "the channel is still consistent")
    cx.reach("accepted" if ok else "rejected")


B = ["accepted", "rejected"]
HARNESSES = [
    H("parse-free", parse, reach=B, n=4, shape="free", bounds="addresses of 0..4 characters"),
    H("parse-braces", parse, reach=B, n=7, shape="braces", bounds="addresses of 0..7 characters over '{}a/.'"),
    H("parse-long", parse, reach=B, n=5, shape="long", bounds="long literal runs with 4 free characters"),
    H("assign", assign, reach=B, n=3, bounds="addresses of 0..3 characters"),
    *[H(f"document[{'/'.join(p)}]", parse, reach=B, n=4, shape="braces", path=p, bounds="addresses of 0..4 characters over '{}a/.'")
      for p in (("channels", "c"), ("components", "channels", "c"))],
    H("parse-free-long", parse, thorough_only=True, reach=B, n=7, shape="free", bounds="addresses of 0..7 characters"),
]
