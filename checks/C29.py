"""C29: the JSON Schema the library publishes describes the documents it reads and writes."""

import re

from checks.C16 import container, fields, nested_field, whole
from checks.C26 import fits
from checks.values import *
from sx.harness import H

PROCESSORS = ("extra_converters", "extra_validators")
# rules of texts and combinations that a JSON Schema does not state: other properties decide them
TEXT_RULES = {("AsyncAPI3", "asyncapi"), ("CorrelationID", "location")}
_published = {}


def published(cname, mode):
    key = (cname, mode)
    if key not in _published:
        _published[key] = cls(cname).model_json_schema(mode=mode)
    return _published[key]


UNREAD = {"if", "then", "else", "dependentRequired", "dependentSchemas", "contains", "multipleOf", "uniqueItems", "prefixItems", "unevaluatedProperties", "unevaluatedItems", "$dynamicRef"}


def a_type(t, v):
    if t == "object":
        return isinstance(v, dict)
    if t == "array":
        return isinstance(v, list)
    if t == "string":
        return isinstance(v, str)
    if t == "null":
        return v is None
    if t == "boolean":
        return isinstance(v, bool)
    if t == "integer":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "number":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    raise AssertionError(f"unknown type {t}")


def valid(s, v, defs):
    """Whether v is valid against the schema, as a formula over its free parts (draft 2020-12, the keywords in use)."""
    if s is True or s == {}:
        return True
    if s is False:
        return False
    unread = set(s) & UNREAD
    if unread:
        raise AssertionError(f"keywords of the published schema not understood: {sorted(unread)}")
    r = True
    if "$ref" in s:
        r = And(r, valid(defs[s["$ref"].removeprefix("#/$defs/")], v, defs))
    if "anyOf" in s:
        r = And(r, Or(*[valid(a, v, defs) for a in s["anyOf"]]))
    if "allOf" in s:
        r = And(r, *[valid(a, v, defs) for a in s["allOf"]])
    if "oneOf" in s:
        alts = [valid(a, v, defs) for a in s["oneOf"]]
        r = And(r, Or(*alts), *[Not(And(a, b)) for i, a in enumerate(alts) for b in alts[i + 1:]])
    if "type" in s:
        ts = s["type"] if isinstance(s["type"], list) else [s["type"]]
        r = And(r, any(a_type(t, v) for t in ts))
    if "enum" in s:
        r = And(r, Or(*[json_equal(v, x) for x in s["enum"]]))
    if "const" in s:
        r = And(r, json_equal(v, s["const"]))
    if "not" in s:
        r = And(r, Not(valid(s["not"], v, defs)))
    if r is False:
        return False
    if isinstance(v, dict):
        r = And(r, len(v) >= s.get("minProperties", 0), len(v) <= s.get("maxProperties", 10**9))
        for k in v if "propertyNames" in s else ():
            r = And(r, valid(s["propertyNames"], k, defs))
        for n in s.get("required", ()):
            if n not in v:
                return False
        props = s.get("properties", {})
        more = s.get("additionalProperties", True)
        if "patternProperties" in s:
            raise AssertionError("patternProperties in the published schema")
        for k, x in v.items():
            at_name = [k == n for n in props]
            if type(k) is str:
                r = And(r, valid(props[k] if k in props else more, x, defs))
            else:
                # a free name is either that of a property or another one
                for n, here in zip(props, at_name):
                    r = And(r, Implies(here, valid(props[n], x, defs)))
                r = And(r, Or(*at_name, valid(more, x, defs)))
    if isinstance(v, list):
        r = And(r, len(v) >= s.get("minItems", 0), len(v) <= s.get("maxItems", 10**9))
        for x in v if "items" in s else ():
            r = And(r, valid(s["items"], x, defs))
    if isinstance(v, str):
        if "pattern" in s:
            r = And(r, re.search(s["pattern"], v) is not None)
        r = And(r, len(v) >= s.get("minLength", 0), len(v) <= s.get("maxLength", 10**9))
    if isinstance(v, int) and not isinstance(v, bool):
        for k, f in (("minimum", lambda m: v >= m), ("maximum", lambda m: v <= m), ("exclusiveMinimum", lambda m: v > m), ("exclusiveMaximum", lambda m: v < m)):
            if k in s:
                r = And(r, f(s[k]))
    return r


def json_equal(a, b):
    if isinstance(a, bool) != isinstance(b, bool) or (a is None) != (b is None) or isinstance(a, str) != isinstance(b, str):
        return False
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return type(a) is type(b) and same(a, b)
    return True if a is None else a == b


def conforms(cname, v, mode="validation"):
    s = published(cname, mode)
    return valid(s, v, s.get("$defs", {}))


def described(cx, cname, raw, exp, strict):
    """What is read is valid against the schema for reading, what is written against the one for writing."""
    ok, m = attempt(cls(cname).model_validate, raw)
    cx.reach("kept" if ok else "rejected")
    if not ok:
        cx.check(not strict, f"a valid {cname} was rejected")
        return
    cx.check(conforms(cname, raw), f"{cname}: an accepted object is not valid against the published schema")
    cx.check(conforms(cname, dump(m), "serialization"), f"{cname}: a written object is not valid against the published schema")


OTHERS = {"number": lambda cx: cx.int("v"), "float": lambda cx: 1.5, "true": lambda cx: True, "null": lambda cx: None, "text": lambda cx: cx.str("v", 2), "list": lambda cx: [],
          "filled list": lambda cx: [cx.str("v", 1)], "numbers": lambda cx: [cx.int("v")], "map": lambda cx: {}, "filled map": lambda cx: {"zz": cx.int("v")}, "texts": lambda cx: {"zz": cx.str("v", 1)}}


class Fixed:
    """The same values, not free (URLs are read by compiled code)."""

    int = staticmethod(lambda name: 5)
    str = staticmethod(lambda name, n: "zz")


class Letters:
    """Texts that are no way to write a number."""

    def __init__(self, cx):
        self.int = cx.int
        self.str = lambda name, n: cx.str(name, n, LOWER)


LOOSE = ("number", "float", "true", "text", "filled list", "numbers", "filled map", "texts")  # ways to write numbers and truth values that pydantic reads


def decided(cx, cname, aliases):
    """A field with any value, or missing: the schema accepts what the parser accepts."""
    alias = cx.pick("field", aliases)
    f = field(cname, alias)
    t = f[5]
    raw = dict(complete(cname)) if cx.choose("complete", 2) else dict(minimal_model(cname))
    how = cx.pick("value", ["missing", *OTHERS])
    if how == "missing":
        raw.pop(alias, None)
    else:
        raw[alias] = OTHERS[how](Fixed if {"url", "httpurl"} & kinds(t) else Letters(cx) if {"int", "bool", "lit"} & kinds(t) else cx)
    good = conforms(cname, raw)
    ok, m = attempt(cls(cname).model_validate, raw)
    open_ = how != "missing" and (fits(t, raw[alias]) is None and not isinstance(raw[alias], dict) or bool({"int", "bool"} & kinds(t)) and how in LOOSE)
    if ok:
        # pydantic reads some numbers from texts and some truth values from numbers
        if not open_:
            cx.check(good, f"{cname}.{alias} ({how}): accepted, but not valid against the published schema")
    elif cname not in RULED and (cname, alias) not in TEXT_RULES and not ({"url", "httpurl", "email"} & kinds(t)) and f"{cname}.{alias}" not in SMALL and not (isinstance(raw.get(alias), dict) and raw[alias]):
        if not open_ or kinds(t) <= {"lit", "union"}:
            cx.check(Not(good), f"{cname}.{alias} ({how}): refused, but valid against the published schema")
    cx.reach("accepted" if ok else "refused")


def kinds(t):
    out = {t[0]}
    for x in t[1:]:
        for y in x if isinstance(x, (list, tuple)) else [x]:
            if isinstance(y, tuple):
                out |= kinds(y)
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= kinds(x) if x[0] in ("list", "union", "dict", "model", "str", "int", "bool", "url", "httpurl", "email", "any", "lit") else set()
    return out


def field(cname, alias):
    return next(f for f in CLASSES[cname][2].values() if f[0] == alias)


def enumerated(cx, cname, aliases):
    """Enumerations are the same in the schema and in the parser."""
    alias = cx.pick("field", aliases)
    t = field(cname, alias)[5]
    values = [x for x in t[1] if isinstance(x, str)] if t[0] == "lit" else [x for a in t[1] if a[0] == "lit" for x in a[1] if isinstance(x, str)]
    raw = dict(minimal_model(cname))
    n = max(len(x) for x in values) if values else 1
    near = cx.pick("near", ["", *values])
    raw[alias] = cx.str("v", 3) if not near else near[:-1] + cx.str("v", 2)
    ok, m = attempt(cls(cname).model_validate, raw)
    good = conforms(cname, raw)
    if cname in RULED:
        cx.check(Implies(ok, good), f"{cname}.{alias}: accepted, but not valid against the published schema")
        ok2, _ = attempt(cls(cname).model_validate, {**raw, **supplement_of(cname, raw[alias])})
    else:
        cx.check(Iff(ok, good), f"{cname}.{alias}: {'accepted' if ok else 'refused'} against the published schema")
    cx.reach("accepted" if ok else "refused")


def supplement_of(cname, v):
    return {}


def unknown(cx, cname):
    """Unknown fields are as open or closed in the schema as in the parser."""
    raw = dict(minimal_model(cname))
    k = cx.pick("lead", ["", "x-"]) + cx.str("k", 3, KEYCHARS)
    names = [n for n in CLASSES[cname][2]] + [f[0] for f in CLASSES[cname][2].values()]
    for n in names:
        cx.assume(k != n)
    raw[k] = cx.pick("value", [None, 1, "s", [], {"a": None}])
    ok, m = attempt(cls(cname).model_validate, raw)
    good = conforms(cname, raw)
    if ok:
        cx.check(good, f"{cname}: an unknown field is accepted, but not valid against the published schema")
        cx.check(conforms(cname, dump(m), "serialization"), f"{cname}: an unknown field is written, but not valid against the published schema")
    elif CLASSES[cname][1] == "forbid":
        cx.check(Not(good), f"{cname}: an unknown field is refused, but valid against the published schema")
    cx.reach("accepted" if ok else "refused")


def document(cx):
    """The schema of whole documents: processors are not part of it, special texts are marked."""
    mode = cx.pick("mode", ["validation", "serialization"])
    s = published("AsyncAPI3", mode)
    props = s["properties"]
    cx.check(all(n not in props for n in PROCESSORS), "processors are part of the published schema")
    for cname in ("Contact", "License", "ExternalDocumentation", "OAuthFlow", "SecurityScheme", "Info"):
        ps = s["$defs"][cname]["properties"]
        for alias, *_, t in CLASSES[cname][2].values():
            for k, fmt in (("url", "uri"), ("httpurl", "uri"), ("email", "email")):
                if k in kinds(t):
                    cx.check(ps[alias].get("format") == fmt or any(a.get("format") == fmt for a in ps[alias].get("anyOf", ())), f"{cname}.{alias}: the published schema does not name the format {fmt}")
    for cname, (_, _, fs) in CLASSES.items():
        d = s["$defs"].get(cname)
        if d is None or cname == "AsyncAPI3":
            continue
        cx.check(sorted(d.get("properties", {})) == sorted(f[0] for f in fs.values()), f"{cname}: the published schema has other fields")
        cx.check(sorted(d.get("required", [])) == sorted(f[0] for f in fs.values() if f[1]), f"{cname}: the published schema requires other fields")
    v = cx.str("title", 3)
    raw = {**doc(), "info": {"title": v, "version": "1"}}
    cx.check(conforms("AsyncAPI3", raw, mode), "a small document is not valid against the published schema")
    cx.reach("done")


HARNESSES = [H("document", document, reach=["done"], bounds="both modes; every kind's field names and required fields")]
for _n, (_m, _x, _f) in CLASSES.items():
    _free = [a for a, *_r in _f.values()]
    if _n == "Reference":
        continue
    HARNESSES.append(H(f"fields[{_n}]", lambda cx, cname, groups: fields(cx, cname, groups, then=described), reach=["kept"], cname=_n, groups=[[a] for a in _free] or [[]],
                       bounds="each field absent, null or given, values free; both orders"))
    _deep = [a for a, r, d, nu, o, t in _f.values() if t[0] in ("model", "union", "list", "dict", "any")]
    if _deep:
        HARNESSES.append(H(f"nested[{_n}]", lambda cx, cname, aliases: nested_field(cx, cname, aliases, then=described), reach=["kept"], cname=_n, aliases=_deep,
                           bounds="each compound field with complete content, up to two entries; extensions around"))
    if _free:
        HARNESSES.append(H(f"whole[{_n}]", lambda cx, cname: whole(cx, cname, then=described), reach=["kept"], cname=_n, bounds="all fields present, or all but one"))
        HARNESSES.append(H(f"any[{_n}]", decided, reach=["accepted"], cname=_n, aliases=_free, bounds="each field missing or of 11 kinds of value, numbers and texts free"))
    _enum = [a for a, r, d, nu, o, t in _f.values() if t[0] == "lit" or t[0] == "union" and any(x[0] == "lit" for x in t[1])]
    if _enum:
        HARNESSES.append(H(f"enumeration[{_n}]", enumerated, reach=["refused"], cname=_n, aliases=_enum, bounds="texts of 0..3 characters, and each value without its last character followed by 0..2"))
    HARNESSES.append(H(f"unknown[{_n}]", unknown, reach=["refused"] if _x == "forbid" else ["accepted"], cname=_n, bounds="names of 0..3 characters, or after x-"))
for _c in CONTAINERS:
    HARNESSES.append(H(f"map[{_c}]", lambda cx, cname: container(cx, cname, then=described), reach=["kept"], cname=_c, bounds="0..2 entries, names of 1..4 characters, every alternative"))
