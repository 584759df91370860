"""C28: an object rebuilt from its Python data, from its own parts, from itself or copied is the same object."""

import copy

from checks.C16 import LOST_NULL, container, fields, nested_field, whole
from checks.values import *
from sx.harness import H


def mutable(x, out):
    """Ids of all models, maps and lists an object is made of."""
    if isinstance(x, BASE):
        out[id(x)] = x
        for v in x.__dict__.values():
            mutable(v, out)
        for v in (getattr(x, "__pydantic_extra__", None) or {}).values():
            mutable(v, out)
    elif isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutable(v, out)
    elif isinstance(x, list):
        out[id(x)] = x
        for v in x:
            mutable(v, out)
    return out


from pydantic import BaseModel as BASE


def parts(m):
    """What the object is made of, under the names of the document."""
    if type(m).__name__ in CONTAINERS:
        return dict(m.root)
    r = {f.alias or n: getattr(m, n) for n, f in type(m).model_fields.items() if n in m.model_fields_set and not f.exclude}
    for k, v in (m.model_extra or {}).items():
        r[k] = v
    return r


def rebuilt(cx, cname, raw, exp, strict):
    C = cls(cname)
    ok, m = attempt(C.model_validate, raw)
    cx.reach("kept" if ok else "rejected")
    if not ok:
        return
    d = dump(m)
    lost = any(type(n) is str and (cname, n) in LOST_NULL and raw[n] is None for n in raw)
    ways = {
        "its Python data": lambda: C.model_validate(m.model_dump()),
        "its parts": lambda: C.model_validate(parts(m)),
        "itself": lambda: C.model_validate(m),
        "a deep copy": lambda: m.model_copy(deep=True),
        "its data without unset fields": lambda: C.model_validate(m.model_dump(mode="json", exclude_unset=True)),
        "its data without defaults": lambda: C.model_validate(m.model_dump(exclude_defaults=True)),
    }
    for how, make in ways.items():
        if lost and "data" in how:
            continue
        ok, again = attempt(make)
        cx.check(ok, f"{cname} from {how}: refused")
        if not ok:
            continue
        cx.check(type(again) is C, f"{cname} from {how}: another kind")
        cx.check(again == m, f"{cname} from {how}: not equal")
        cx.check(same(dump(again), d), f"{cname} from {how}: written differently")
        if how == "a deep copy":
            mine = mutable(m, {})
            cx.check(not any(i in mine for i in mutable(again, {})), f"{cname}: a deep copy shares a part")
            ok, third = attempt(C.model_validate, again)
            cx.check(ok, f"{cname}: a deep copy is refused")
            if ok:
                cx.check(same(dump(third), d), f"{cname}: a deep copy read again is written differently")
    cx.check(same(dump(m), d), f"{cname}: rebuilding changed the original")


HARNESSES = []
for _n, (_m, _x, _f) in CLASSES.items():
    _free = [a for a, *_r in _f.values()]
    if _n == "Reference":
        continue
    HARNESSES.append(H(f"fields[{_n}]", lambda cx, cname, groups: fields(cx, cname, groups, then=rebuilt), reach=["kept"], cname=_n, groups=[[a] for a in _free] or [[]],
                       bounds="each field absent, null or given, values free; both orders"))
    _deep = [a for a, r, d, nu, o, t in _f.values() if t[0] in ("model", "union", "list", "dict", "any")]
    if _deep:
        HARNESSES.append(H(f"nested[{_n}]", lambda cx, cname, aliases: nested_field(cx, cname, aliases, then=rebuilt), reach=["kept"], cname=_n, aliases=_deep,
                           bounds="each compound field with complete content, up to two entries; extensions around"))
    if _free:
        HARNESSES.append(H(f"whole[{_n}]", lambda cx, cname: whole(cx, cname, then=rebuilt), reach=["kept"], cname=_n, bounds="all fields present, or all but one"))
for _c in CONTAINERS:
    HARNESSES.append(H(f"map[{_c}]", lambda cx, cname: container(cx, cname, then=rebuilt), reach=["kept"], cname=_c, bounds="0..2 entries, names of 1..4 characters, every alternative"))


LOG = []


class Refused(ValueError):
    pass


def processed(cx):
    """A rebuilt or copied document keeps its processors: they run for it as for the original, also if it was made while they ran."""
    D = cls("AsyncAPI3")
    kept_copies = []
    inside = cx.pick("made by", ["user", "converter", "validator"])
    how = cx.pick("how", ["deep copy", "copy", "itself"]) if inside == "user" else cx.pick("how", ["deep copy", "copy"])
    title = cx.str("title", 2)
    later = cx.str("later", 2)

    def copied(spec):
        return spec.model_copy(deep=True) if how == "deep copy" else copy.copy(spec) if how == "copy" else D.model_validate(spec)

    class Converter:
        def __call__(self, spec):
            LOG.append("c")
            if inside == "converter":
                kept_copies.append(copied(spec))
            return spec

    class Validator:
        def __call__(self, spec):
            LOG.append("v")
            if inside == "validator":
                kept_copies.append(copied(spec))
            if spec.info.title == "no":
                raise Refused("title")
            return spec

    cx.assume(title != "no")
    LOG.clear()
    ok, m = attempt(D.model_validate, {**doc(), "info": {"title": title, "version": "1"}, "extra_converters": [Converter], "extra_validators": [Validator]})
    cx.check(ok, "a valid document was refused")
    if not ok:
        return
    if inside == "user":
        LOG.clear()
        ok, again = attempt(copied, m)
        cx.check(ok, f"{how}: refused")
        if not ok:
            return
        if how == "itself":
            cx.check(LOG == ["c", "v"], f"{how}: the processors did not run once more")
    else:
        again = kept_copies[0]
    cx.check(again.extra_converters == [Converter] and again.extra_validators == [Validator], f"{how}: other processors")
    cx.check(again == m, f"{how} by {inside}: not equal")
    cx.check(same(dump(again), dump(m)), f"{how}: written differently")
    LOG.clear()
    ok, e = attempt(setattr, again, "info", {"title": later, "version": "1"})
    cx.check(Iff(ok, Not(later == "no")), f"{how} by {inside}: the processors do not decide about an assignment")
    cx.check(LOG == ["c", "v"], f"{how} by {inside}: the processors did not run on an assignment")
    cx.check(again.info.title == (later if ok else title), f"{how} by {inside}: the assignment was not made or undone")
    cx.check(m.info.title == title, f"{how} by {inside}: the original was changed")
    ok2, e = attempt(setattr, m, "info", {"title": "no", "version": "1"})
    cx.check(not ok2, f"{how} by {inside}: the original lost its processors")
    cx.reach("accepted" if ok else "refused")


HARNESSES.append(H("processors", processed, reach=["accepted", "refused"], bounds="3 makers, 3 ways; titles of 0..2 characters before and after"))
