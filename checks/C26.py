"""C26: values of the wrong type, missing required fields and nulls where none may stand are refused everywhere."""

from checks.values import *
from checks.C25 import others, FITTING
from sx.harness import H

WRONG = {"number": 5, "float": 1.5, "text": "zz", "true": True, "list": [5], "texts": ["zz"], "empty-list": [], "map": {"zz": 5}, "empty-map": {}, "ref": {"$ref": "#/x"}, "class": None, "object": None}


def fits(t, v, alias=""):
    """Whether a value can stand for a type: True, False, or None (left open)."""
    k = t[0]
    if k == "any":
        return True
    if k == "union":
        rs = [fits(a, v) for a in t[1]]
        return True if True in rs else None if None in rs else False
    if k == "lit":
        return None if not isinstance(v, (list, dict, float)) else False
    if isinstance(v, type) or type(v).__name__ == "Stranger":
        return False
    if k in ("str", "email", "url", "httpurl"):
        return False if not isinstance(v, str) else True if k == "str" else None
    if k == "int":
        if isinstance(v, bool) or isinstance(v, str) and v.strip().lstrip("+-").replace("_", "").replace(".", "").isdigit():
            return None
        return isinstance(v, int)
    if k == "bool":
        return True if isinstance(v, bool) else None if isinstance(v, (int, float)) and v in (0, 1) else False
    if k == "list":
        if not isinstance(v, list):
            return False
        rs = [fits(t[1], x) for x in v]
        return False if False in rs else None if None in rs else True
    if k == "dict":
        return isinstance(v, dict) and (True if len(t) < 2 else all(fits(t[1], x) is not False for x in v.values()) or False)
    if not isinstance(v, dict):
        return False
    return None


class Stranger:
    """An object of no kind of the library."""

    url = name = title = "s"


def strangers(cx, cname, py):
    """Instances of other classes never fit, even those with the same fields."""
    t = CLASSES[cname][2][py][5]
    kinds = kinds_of(t)
    other = cx.pick("other", ["Contact", "Tag", "Schema", "Reference", "Servers", "Schemas", "AMQPQueue", "ServerVariable", "MQTTMessageBindings"])
    cx.assume(other not in kinds)
    if any(k in ("any",) for k in flat(t)) or ("list" in flat(t) and other in CONTAINERS):
        return None  # (a list may be made from anything that can be iterated, such as the names of a map)
    m = cls(other).model_validate({} if other in CONTAINERS else minimal_model(other))
    return m


def flat(t):
    yield t[0]
    for x in t[1:]:
        for y in x if isinstance(x, list) else [x]:
            if isinstance(y, tuple):
                yield from flat(y)


def kinds_of(t):
    if t[0] == "model":
        return {t[1]}
    if t[0] == "union":
        return set().union(*[kinds_of(a) for a in t[1]])
    return set()


def bad(cx, cname, py):
    """A value that cannot stand for the type of the field."""
    t = CLASSES[cname][2][py][5]
    how = cx.pick("wrong", ["number", *WRONG, "stranger"])
    if how == "stranger":
        v = strangers(cx, cname, py)
        cx.assume(v is not None)
        return v
    if how == "class":
        v = Stranger
    elif how == "object":
        v = Stranger()
    else:
        v = WRONG[how]
    if how == "number":
        v = cx.int("n", 2)
    cx.assume(fits(t, v) is False)
    return v


def ways(cx, cname, py, raw, alias, v):
    """Every way a value gets into an object."""
    way = cx.pick("way", ["parse", "construct", "name", "assign", "held"])
    base = {k: x for k, x in raw.items() if k != alias}
    if way == "parse":
        return attempt(cls(cname).model_validate, {**raw, alias: v})
    if way == "construct":
        return attempt(cls(cname), **{py: v}, **base)
    if way == "name":
        return attempt(cls(cname).model_validate, {**base, py: v})
    if way == "assign":
        m = cls(cname).model_validate(raw)
        return attempt(setattr, m, py, v)
    held = {**raw, alias: v}
    home = HELD.get(cname)
    if home is None:
        return attempt(cls(cname).model_validate, held)
    o, oalias, wrap = home
    x = held
    for w in reversed(wrap):
        x = [x] if w == "list" else {"k": x}
    return attempt(cls(o).model_validate, {**supplement(o, oalias), oalias: x})


HELD = {}
for _o, (_m, _x, _f) in CLASSES.items():
    for _py, _g in _f.items():
        def _h(t, w):
            if t[0] == "list":
                _h(t[1], (*w, "list"))
            elif t[0] == "dict" and len(t) > 1:
                _h(t[1], (*w, "map"))
            elif t[0] == "model" and t[1] in CONTAINERS:
                _h(CONTAINERS[t[1]][1], (*w, "map"))
            elif t[0] == "model" and t[1] not in HELD:
                HELD[t[1]] = (_o, _g[0], w)
            elif t[0] == "union" and all(a[0] == "model" for a in t[1]) and ("model", "MultiFormatSchema") not in t[1]:
                for a in t[1]:
                    _h(a, w)
        _h(_g[5], ())
HELD.pop("Reference", None)
HELD.pop("MultiFormatSchema", None)


def types(cx, cname, pys):
    py = cx.pick("field", pys)
    f = CLASSES[cname][2][py]
    raw = dict(complete(cname))
    v = bad(cx, cname, py)
    ok, _ = ways(cx, cname, py, raw, f[0], v)
    cx.check(not ok, f"{cname}.{f[0]} accepted {type(v).__name__}")
    cx.reach("refused")


def elements(cx, cname, pys):
    """Elements of lists and values of maps are checked, wherever among good ones."""
    py = cx.pick("field", pys)
    f = CLASSES[cname][2][py]
    raw = dict(complete(cname))
    t = next(a for a in (f[5][1] if f[5][0] == "union" else [f[5]]) if collection(a))
    inner = t[1]
    v = cx.pick("wrong", [5, 1.5, "zz", True, None, [5], [], {"zz": 5}, {}, {"$ref": "#/x"}])
    cx.assume(v is None and inner != ("any",) or fits(inner, v) is False)
    good = [_good(inner) for _ in range(cx.choose("before", 3))], [_good(inner) for _ in range(cx.choose("after", 2))]
    xs = [*good[0], v, *good[1]]
    x = xs if t[0] == "list" else {f"k{i}": y for i, y in enumerate(xs)}
    ok, _ = ways(cx, cname, py, raw, f[0], x)
    cx.check(not ok, f"{cname}.{f[0]} accepted {v!r} among its elements")
    cx.reach("refused")


def collection(t):
    return t[0] == "list" or t[0] == "dict" and len(t) > 1 and t[1] != ("any",)


def _good(t):
    return {"url": URL} if t == ("model", "ExternalDocumentation") else minimal(t)


def required(cx, cname, pys):
    """Required fields are given, not null, whatever else is; others may be left out; null is refused where the table says so."""
    raw = dict(complete(cname) if cx.choose("complete", 2) else minimal_model(cname))
    py = cx.pick("field", pys)
    alias, req, default, nullable, _, t = CLASSES[cname][2][py]
    null = cx.choose("null", 2)
    if null:
        raw[alias] = None
    else:
        cx.assume(req)
        raw.pop(alias, None)
    way = cx.pick("way", ["parse", "construct", "assign", "beside", "held"])
    if null and nullable:
        cx.reach("nothing to refuse")
        return
    if way == "parse":
        ok, _ = attempt(cls(cname).model_validate, raw)
    elif way == "construct":
        ok, _ = attempt(cls(cname), **raw)
    elif way == "assign":
        if not null:
            return
        m = cls(cname).model_validate(complete(cname))
        ok, _ = attempt(setattr, m, py, None)
    elif way == "beside":
        # names that look like the missing one
        k = cx.str("name", 2)
        near = alias[:-1] + k if cx.choose("end", 2) else k + alias[1:]
        cx.assume(near != alias)
        cx.assume(near != py)
        cx.assume(null == 0)
        ok, _ = attempt(cls(cname).model_validate, {**raw, near: complete(cname)[alias]})
    else:
        home = HELD.get(cname)
        if home is None:
            return
        o, oalias, wrap = home
        x = raw
        for w in reversed(wrap):
            x = [x] if w == "list" else {"k": x}
        ok, _ = attempt(cls(o).model_validate, {**supplement(o, oalias), oalias: x})
    cx.check(not ok, f"{cname} accepted without {alias}" if not null else f"{cname}.{alias} accepted null")
    cx.reach("refused")


def whole(cx, cname):
    """An object is not made from anything but a mapping or an object of its own kind."""
    v = cx.pick("value", [5, 1.5, "zz", "", True, None, [], [5], [["url", URL]], Stranger, "stranger", "other", "number", "text"])
    if v == "number":
        v = cx.int("n")
    elif v == "text":
        v = cx.str("s", 2)
    elif v == "stranger":
        v = Stranger()
    elif v == "other":
        n = cx.pick("kind", ["Contact", "Tag", "Servers", "Reference"])
        cx.assume(n != cname)
        v = cls(n).model_validate({} if n in CONTAINERS else minimal_model(n))
    ok, _ = attempt(cls(cname).model_validate, v)
    cx.check(not ok, f"{cname} was made from {type(v).__name__}")
    cx.reach("refused")


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    HARNESSES.append(H(f"whole[{_n}]", whole, reach=["refused"], cname=_n, bounds="values of 10 other types, every integer, every text of 0..2 characters, objects of other kinds"))
    if not _f:
        continue
    HARNESSES.append(H(f"types[{_n}]", types, reach=["refused"], cname=_n, pys=[p for p, g in _f.items() if g[5] != ("any",)],
                       bounds="complete object, each field with values of up to 13 other types, every integer; parsed, built, by field name, assigned, inside an owner"))
    _l = [p for p, g in _f.items() for t in (g[5][1] if g[5][0] == "union" else [g[5]])
          if collection(t)]
    if _l:
        HARNESSES.append(H(f"elements[{_n}]", elements, reach=["refused"], cname=_n, pys=_l, bounds="one wrong element with up to two good ones before and one after, parsed in five ways"))
    HARNESSES.append(H(f"required[{_n}]", required, reach=["refused"] if any(g[1] or not g[3] for g in _f.values()) else [], cname=_n, pys=list(_f),
                       bounds="minimal and complete object, each field absent or null, fields of similar names (one or two characters changed)"))
for _n in CONTAINERS:
    HARNESSES.append(H(f"whole[{_n}]", whole, reach=["refused"], cname=_n, bounds="as for objects"))
