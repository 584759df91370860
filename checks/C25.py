"""C25: enumerated fields accept exactly their documented values."""

from checks.values import *
from sx.harness import H


def enums(t, how=()):
    if t[0] == "lit":
        yield t[1], how
    elif t[0] == "list":
        yield from enums(t[1], (*how, "list"))
    elif t[0] == "union":
        for a in t[1]:
            yield from enums(a, how)


FIELDS = [(n, py, f[0], f[1], f[3], vals, how) for n, (_m, _x, fs) in CLASSES.items() for py, f in fs.items() for vals, how in enums(f[5])]
# a valid object for each value, where other fields must fit it
FITTING = {
    ("AMQPChannelBindings", "is"): lambda v: {"queue": {}} if v == "queue" else {"exchange": {"name": "e", "type": "topic"}},
    ("IBMMQChannelBindings", "destinationType"): lambda v: {"queue": {"objectName": "q"}} if v == "queue" else {},
    ("SolaceDestination", "destinationType"): lambda v: {v: {}},
    ("SecurityScheme", "type"): lambda v: {"http": {"scheme": "basic"}, "apiKey": {"in": "user"}, "httpApiKey": {"name": "n", "in": "query"},
                                          "oauth2": {"flows": {}}, "openIdConnect": {"openIdConnectUrl": URL}}.get(v, {}),
    ("SecurityScheme", "in"): lambda v: {"type": "apiKey"} if v in ("user", "password") else {"type": "httpApiKey", "name": "n"},
}


def others(cname, alias, v):
    base = {k: x for k, x in minimal_model(cname).items() if k != alias}
    fit = FITTING.get((cname, alias))
    if fit:
        base = {k: x for k, x in base.items() if k not in ("queue", "topic", "exchange")}
        base = {**base, **fit(v)}
    return base


def candidate(cx, vals):
    kind = cx.pick("kind", ["text", "case", "near", "number", "other"])
    words = [v for v in vals if isinstance(v, str)]
    if kind == "text":
        return cx.str("value", max(map(len, words), default=1) + 1)
    if kind == "number":
        return cx.int("number")
    if kind == "other":
        return cx.pick("other", [1.5, [vals[0]], {vals[0]: 1}, "", [], {}])
    if not words:
        return cx.str("value", 2, "abc xyz\n-")
    w = cx.pick("word", words)
    if kind == "near":
        i = cx.choose("at", len(w) + 1)
        return w[:i] + cx.str("middle", 2) + w[min(len(w), i + cx.choose("skip", 2)):]
    return cx.pick("variant", [w.upper(), w.title(), w + " ", " " + w, w + "\n", w + "s", w.replace("-", "_"), w[:-1]])


def value_of(vals, v):
    """The condition that v is a documented value (a text for texts, a whole number for numbers), or None where it is left open."""
    if any(isinstance(w, int) for w in vals) and not isinstance(v, int):
        return False
    r = False
    for w in vals:
        if isinstance(w, int) == isinstance(v, int) and isinstance(w, str) == isinstance(v, str):
            r = Or(r, v == w)
    return r


def one(cx, field):
    cname, py, alias, required, nullable, vals, how = field
    like = cx.pick("others fit", vals if (cname, alias) in FITTING else [vals[0]])
    base = others(cname, alias, like)
    v = candidate(cx, vals)
    good = value_of(vals, v)
    if (cname, alias) in FITTING:
        fit = FITTING[(cname, alias)]
        alike = [w for w in vals if same(others(cname, alias, w), base)]
        good = And(good, value_of(alike, v)) if cname != "IBMMQChannelBindings" else good
        rest = [w for w in vals if w not in alike]
        if rest:
            cx.assume(Not(value_of(rest, v)))  # whether the others fit is C06 and C08
    way = cx.pick("way", ["parse", "construct", "name", "assign", "wrap"])
    put = [v] if "list" in how else v
    if "list" in how and cx.choose("second", 2):
        put = [vals[-1], v]
    if way == "parse":
        ok, m = attempt(cls(cname).model_validate, {**base, alias: put})
    elif way == "construct":
        ok, m = attempt(cls(cname), **{**base, alias: put})
    elif way == "name":
        ok, m = attempt(cls(cname).model_validate, {py: put, **base})
    elif way == "assign":
        m = cls(cname).model_validate({**base, alias: [] if how else like})
        ok, e = attempt(setattr, m, py, put)
    else:
        t = cx.pick("holder", HOLD.get(cname, [None]))
        if t is None:
            return
        o, oalias, wrap = t
        ok, m = attempt(cls(o).model_validate, {**supplement(o, oalias), oalias: [{**base, alias: put}] if wrap else {**base, alias: put}})
        if ok:
            m = getattr(m, next(p for p, f in CLASSES[o][2].items() if f[0] == oalias))
            m = m[0] if wrap else m
    cx.check(Iff(ok, good), f"{cname}.{alias} {'accepted' if ok else 'refused'} this value")
    if ok:
        got = getattr(m, py)
        cx.check(same(got, put), "the value changed")
        cx.check(same(dump(m)[alias], put), "the value is written differently")
        cx.reach("accepted")
    else:
        cx.reach("refused")


HOLD = {}
for _o, (_m, _x, _f) in CLASSES.items():
    for _py, _g in _f.items():
        for _t, _w in ((_g[5], False), (_g[5][1] if _g[5][0] == "list" else None, True)):
            if _t and _t[0] == "model" and _t[1] not in CONTAINERS and len(HOLD.setdefault(_t[1], [])) < 1:
                HOLD[_t[1]].append((_o, _g[0], _w))
HOLD = {k: v for k, v in HOLD.items() if v}


def all_values(cx, field):
    """Every documented value is accepted."""
    cname, py, alias, required, nullable, vals, how = field
    v = cx.pick("value", vals)
    raw = {**others(cname, alias, v), alias: [v] if how else v}
    ok, m = attempt(cls(cname).model_validate, raw)
    cx.check(ok, f"{cname}.{alias} refuses {v!r}")
    if ok:
        cx.check(dump(m)[alias] == raw[alias], "written differently")
    raw[alias] = None
    ok, m = attempt(cls(cname).model_validate, raw)
    if (cname, alias) not in FITTING or not nullable:
        cx.check(ok == nullable, f"{cname}.{alias} {'accepts' if ok else 'refuses'} null")
    if not required and (cname, alias) not in FITTING:
        del raw[alias]
        cx.check(accepts(cls(cname).model_validate, raw), f"{cname}.{alias} must be given")
    cx.reach("seen")


HARNESSES = []
for _x in FIELDS:
    _n = f"[{_x[0]}.{_x[1]}]"
    HARNESSES.append(H("values" + _n, all_values, reach=["seen"], field=_x, bounds="every documented value, null, absent"))
    HARNESSES.append(H("exact" + _n, one, reach=["accepted", "refused"], field=_x,
                       bounds="every text up to one character longer than the longest value, every integer, each value with up to two characters inserted or one replaced anywhere, other types; parsed, built, assigned, and inside an owner"))
