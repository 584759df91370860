"""C16: what is parsed is what is written, and it parses back to the same."""

from checks.values import *
from sx.harness import H

# an explicit null of a field that has a default other than null is dropped and comes back as the default
VALUES = {("AsyncAPI3", "asyncapi"): "3.1.0-x"}
LOST_NULL = {
    ("AnypointMQChannelBindings", "destinationType"): "K01", ("PulsarRetention", "time"): "K02", ("PulsarRetention", "size"): "K03",
}


def kept(cx, cname, raw, exp, strict):
    ok, m = attempt(cls(cname).model_validate, raw)
    if strict:
        cx.check(ok, f"a valid {cname} was rejected")
    cx.reach("kept" if ok else "rejected")
    if not ok:
        return
    d = dump(m)
    cx.check(agree(exp, d), f"{cname} is written as it was read")
    cx.check(same(d, m.model_dump(mode="json")), "document names are used unasked")
    ok, again = attempt(cls(cname).model_validate, d)
    cx.check(ok, f"what {cname} writes is refused when read back")
    if ok:
        back = dump(again)
        lost = {n: LOST_NULL[cname, n] for n in raw if type(n) is str and (cname, n) in LOST_NULL and raw[n] is None}
        if lost:
            cx.check(agree(Obj({**d, **{n: field(cname, n)[2] for n in lost}}), back), f"{cname} read back differs by more than the lost null")
            cx.check(same(back, d), f"{cname} read back is written the same", known={lost[n]: True for n in sorted(lost)})
        else:
            cx.check(same(back, d), f"{cname} read back is written the same")


def required(cx, name, full=False):
    raw, exp = {}, Obj()
    for alias, req, default, nullable, omitted, t in CLASSES[name][2].values():
        if req:
            if name in SPECIAL and alias in SPECIAL[name]:
                raw[alias] = SPECIAL[name][alias]
                exp[alias] = expected(t, raw[alias])
            else:
                raw[alias], exp[alias] = simple(cx, t, alias, full)
    for alias, v in SPECIAL.get(name, {}).items():
        if alias not in raw:
            raw[alias] = v
            exp[alias] = expected(field(name, alias)[5], v)
    return raw, exp


def field(name, alias):
    return next(f for f in CLASSES[name][2].values() if f[0] == alias)


def defaults(name, raw, exp):
    for alias, req, default, nullable, omitted, t in CLASSES[name][2].values():
        if alias not in raw and not req and (default is not None or not omitted):
            exp[alias] = default


def fill_in(cx, cname, f, raw, exp, states, full=False):
    alias, req, default, nullable, omitted, t = f
    how = cx.pick(alias + "#how", [s for s in states if s != "null" or nullable])
    if how == "null":
        raw[alias] = None
        exp.pop(alias, None)
        if not omitted:
            exp[alias] = None
    elif how == "given":
        raw[alias], exp[alias] = simple(cx, t, alias, full) if (cname, alias) not in VALUES else 2 * [VALUES[cname, alias]]
    return how


def fields(cx, cname, groups, then=kept):
    """Some fields are free, the others absent."""
    group = cx.pick("fields", groups)
    raw, exp = required(cx, cname, "deep")
    heavy = [a for a in group if field(cname, a)[5][0] in ("model", "union", "list", "dict", "any")]
    free = heavy[cx.choose("free", len(heavy))] if len(heavy) > 1 else None
    for alias in group:
        f = field(cname, alias)
        if f[1] and alias in SPECIAL.get(cname, {}):
            continue
        fill_in(cx, cname, f, raw, exp, ["given"] if f[1] else ["absent", "null", "given"], "deep" if free and alias in heavy and alias != free else False)
    defaults(cname, raw, exp)
    if cx.choose("reverse", 2):
        raw = {k: raw[k] for k in reversed(list(raw))}
    if cname == "Channel" and "parameters" in raw and raw["parameters"] is not None:
        raw = {**raw, "address": "{p}"}
        exp["address"] = "{p}"
    then(cx, cname, raw, exp, cname not in RULED)


def nested_field(cx, cname, aliases, then=kept):
    """One field holds a complete object; extensions stand before and after."""
    alias = cx.pick("field", aliases)
    raw, exp = required(cx, cname, "deep")
    f = field(cname, alias)
    for i in range(1):
        raw[alias], exp[alias] = nest(cx, f[5], alias)
    if cname == "Channel" and alias == "parameters":
        raw["address"] = exp["address"] = "{p}"
    if cname in ("AMQPChannelBindings", "SolaceDestination", "SecurityScheme"):
        s = supplement(cname, alias)
        raw.update(s)
        exp.update(expected(("model", cname), s) if cname != "SecurityScheme" else s)
        raw[alias], exp[alias] = nest(cx, f[5], alias)
    if CLASSES[cname][1] != "forbid":
        v = anyvalue(cx, "ext")
        raw = {"x-a": v, **raw, "x-b": None}
        exp = Obj({"x-a": v, **exp, "x-b": None})
    defaults(cname, raw, exp)
    then(cx, cname, raw, exp, cname not in RULED)


def nest(cx, t, alias):
    """Every alternative of the type, complete, in lists and maps of up to two."""
    if t[0] == "union":
        alts = [("model", "Schema") if a == ("model", "Reference") else a for a in t[1]]
        a = t[1][cx.choose(alias + "#alt", len(alts))]
        return nest(cx, a, alias)
    if t[0] == "list":
        n = cx.choose(alias + "#n", 3)
        p = [nest(cx, t[1], f"{alias}.{i}") if i == n - 1 else simple(cx, t[1], f"{alias}.{i}", "deep") for i in range(n)]
        return [x[0] for x in p], [x[1] for x in p]
    if t[0] == "dict" or t[0] == "model" and t[1] in CONTAINERS:
        inner = CONTAINERS[t[1]][1] if t[0] == "model" else t[1] if len(t) > 1 else ("any",)
        n = cx.choose(alias + "#n", 3)
        raw, exp = {}, {}
        for i in range(n):
            k = "ab"[i] + cx.str(f"{alias}.k{i}", 1, KEYCHARS if t[0] == "model" else None)
            raw[k], exp[k] = nest(cx, inner, f"{alias}.{i}") if i == n - 1 else simple(cx, inner, f"{alias}.{i}", "deep")
        return raw, exp
    if t[0] == "model" and t[1] != "Reference":
        raw = complete(t[1])
        return raw, expected(t, raw)
    return simple(cx, t, alias)


def whole(cx, cname, then=kept):
    raw = dict(complete(cname))
    exp = expected(("model", cname), raw)
    drop = cx.pick("without", [None, *[a for a, req, *_ in CLASSES[cname][2].values() if not req and a in raw]])
    if drop and not (cname in CHOICE and CHOICE[cname]) and cname not in RULED:
        how = cx.pick("how", ["absent", "null"]) if field(cname, drop)[3] else "absent"
        if how == "absent":
            del raw[drop]
        else:
            raw[drop] = None
        exp = expected(("model", cname), raw)
    if cx.choose("reverse", 2):
        raw = {k: raw[k] for k in reversed(list(raw))}
    then(cx, cname, raw, exp, True)


def container(cx, cname, then=kept):
    inner = CONTAINERS[cname][1]
    n = cx.choose("size", 3)
    raw, exp = {}, {}
    for i in range(n):
        k = "ba"[i] + cx.str(f"k{i}", 3, KEYCHARS)
        raw[k], exp[k] = nest(cx, inner, f"v{i}")
    then(cx, cname, raw, exp, True)


def placed(cx, paths):
    """Whatever stands at a place of a document is written there."""
    path, t = cx.pick("path", paths)
    p = tuple(("n" + str(i) + cx.str(f"n{i}", 1, KEYCHARS)) if x == KEY else x for i, x in enumerate(path))
    raw = complete(t[1]) if t[0] == "model" and t[1] not in CONTAINERS else nest(cx, t, "v")[0]
    d = at(p, raw)
    ok, m = attempt(cls("AsyncAPI3").model_validate, d)
    cx.check(ok, f"a valid document with {'/'.join(map(str, path))} was rejected")
    cx.reach("kept" if ok else "rejected")
    if ok:
        out = dump(m)
        cx.check(agree(expected(("model", "AsyncAPI3"), d), out), f"{'/'.join(map(str, path))} is written as it was read")
        ok, again = attempt(cls("AsyncAPI3").model_validate, out)
        cx.check(ok, "the written document is refused")
        if ok:
            cx.check(same(dump(again), out), "the written document is read back the same")


def _places(t, path, seen):
    if t[0] == "union":
        for a in t[1]:
            if a != ("model", "Reference"):
                yield from _places(a, path, seen)
    elif t[0] == "list":
        yield from _places(t[1], (*path, 0), seen)
    elif t[0] == "dict" and len(t) > 1:
        yield from _places(t[1], (*path, KEY), seen)
    elif t[0] == "model" and t[1] != "Reference":
        if t[1] in CONTAINERS:
            yield from _places(CONTAINERS[t[1]][1], (*path, KEY), seen)
        elif t[1] not in seen:
            if path:
                yield path, t
            for alias, _, _, _, _, ft, *_ in CLASSES[t[1]][2].values():
                yield from _places(ft, (*path, alias), (*seen, t[1]))


PLACES = list(_places(("model", "AsyncAPI3"), (), ()))


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    _free = [a for a, *_r in _f.values()]
    if _n == "Reference":
        HARNESSES.append(H("reference", lambda cx: kept(cx, "Reference", {"$ref": (r := cx.str("ref", 5))}, Obj({"$ref": r}), True), reach=["kept"], bounds="text of 0..5 characters"))
        continue
    if len(_free) <= 9:
        _g = [[a, b] for i, a in enumerate(_free) for b in _free[i + 1:]] or [_free]
    else:
        _g = [[a] for a in _free]
    HARNESSES.append(H(f"fields[{_n}]", fields, reach=["kept"], cname=_n, groups=_g, bounds="each field, or two of them, absent, null or given, values free; both orders"))
    _deep = [a for a, r, d, nu, o, t in _f.values() if t[0] in ("model", "union", "list", "dict", "any")]
    if _deep:
        HARNESSES.append(H(f"nested[{_n}]", nested_field, reach=["kept"], cname=_n, aliases=_deep, bounds="each compound field with complete content, up to two entries; extensions around"))
    if _free:
        HARNESSES.append(H(f"whole[{_n}]", whole, reach=["kept"], cname=_n, bounds="all fields present, or all but one"))
for _c in CONTAINERS:
    HARNESSES.append(H(f"map[{_c}]", container, reach=["kept"], cname=_c, bounds="0..2 entries, names of 1..4 characters, every alternative"))
for _i in range(10):
    HARNESSES.append(H(f"placed-{_i}", placed, reach=["kept"], paths=PLACES[_i::10], bounds="every place of a document an object can stand at, complete content, names of 2..3 characters"))
