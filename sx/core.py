"""
Executes pydantic core schemas over symbolic values.

pydantic-core is compiled code, so the validators and serializers of the model classes are replaced, in the symbolic
process only, by this interpreter of the *same* core schemas that the classes of the current source produced.  Leaves
that hold no symbolic value are delegated to the real pydantic-core.  Every explored path is replayed on the real
library, which also cross-checks this interpreter.
"""

import collections.abc
import copy
import enum
import inspect
import types

import pydantic
import pydantic_core
import z3
from pydantic import BaseModel, RootModel, ValidationError
from pydantic_core import PydanticCustomError, PydanticUndefined, SchemaValidator, core_schema

from . import engine as en
from . import instrument as ins
from .engine import SYMTYPES, SymBool, SymInt, SymStr, Unsupported

LAX, STRICT, EXACT = 0, 1, 2
_STAR = ins.STAR


class VErr(Exception):
    """Line errors: (type, loc, exc)."""

    def __init__(self, errors):
        self.errors = errors


def err(kind, loc=(), exc=None):
    return VErr([(kind, loc, exc)])


class State:
    __slots__ = ("exact", "fsc", "by_alias", "by_name", "context", "self_instance", "data", "field_name", "config")

    def __init__(self):
        self.exact = None
        self.fsc = None
        self.by_alias = None
        self.by_name = None
        self.context = None
        self.self_instance = None
        self.data = None
        self.field_name = None
        self.config = None

    def floor(self, e):
        if self.exact is not None and self.exact > e:
            self.exact = e

    def add_fields(self, n):
        self.fsc = n if self.fsc is None else self.fsc + n


class Info:
    def __init__(self, st):
        self.context = st.context
        self.config = st.config
        self.mode = "python"
        self.data = st.data
        self.field_name = st.field_name


def _call(fn, *args):
    try:
        return fn(*args)
    except ValidationError as e:
        raise VErr([(x["type"], tuple(x["loc"]), x.get("ctx")) for x in e.errors(include_input=False, include_url=False)])
    except (ValueError, AssertionError) as e:
        raise VErr([("value_error" if isinstance(e, ValueError) else "assertion_error", (), {"error": e})])


def deep_sym(v, depth=12, seen=None):
    t = type(v)
    if t in SYMTYPES:
        return True
    if t in (str, int, bool, float, bytes) or v is None:
        return False
    if depth == 0:
        return True
    if t in (list, tuple, set, frozenset):
        return any(deep_sym(x, depth - 1) for x in v)
    if isinstance(v, dict):
        return any(deep_sym(k, depth - 1) or deep_sym(x, depth - 1) for k, x in v.items())
    if isinstance(v, BaseModel):
        return deep_sym(v.__dict__, depth - 1) or deep_sym(v.__pydantic_extra__ or {}, depth - 1)
    return False


_delegates = {}


def delegate(node, v, loc=()):
    """Validate a fully concrete leaf with the real pydantic-core."""
    key = id(node)
    d = _delegates.get(key)
    if d is None:
        d = _delegates[key] = (SchemaValidator(node), node)
    try:
        return d[0].validate_python(v)
    except ValidationError as e:
        raise VErr([(x["type"], tuple(x["loc"]), x.get("ctx")) for x in e.errors(include_input=False, include_url=False)])


class Compiler:
    def __init__(self):
        self.defs = {}

    def compile(self, node, cfg=None):
        t = node["type"]
        fn = getattr(self, "c_" + t.replace("-", "_"), None)
        if fn is None:
            return self.c_other(node, cfg)
        return fn(node, cfg)

    def c_other(self, node, cfg):
        def val(v, st):
            if deep_sym(v):
                if node["type"] == "url" and type(v) in (SymInt, SymBool):
                    raise err("url_type")
                raise Unsupported(f"core schema '{node['type']}' on a symbolic value")
            st.floor(STRICT)
            return delegate(node, v)

        return val

    def c_any(self, node, cfg):
        def val(v, st):
            st.floor(STRICT)
            return v

        return val

    def c_nullable(self, node, cfg):
        inner = self.compile(node["schema"], cfg)
        return lambda v, st: None if v is None else inner(v, st)

    def c_none(self, node, cfg):
        def val(v, st):
            if v is not None:
                raise err("none_required")

        return val

    def c_default(self, node, cfg):
        inner = self.compile(node["schema"], cfg)
        on_error = node.get("on_error", "raise")
        get = default_of(node)

        def val(v, st):
            if v is PydanticUndefined and get is not None:
                return get()
            try:
                return inner(v, st)
            except VErr:
                if on_error == "default" and get is not None:
                    return get()
                raise

        val.default = get
        val.validate_default = node.get("validate_default") or (cfg or {}).get("validate_default")
        val.inner = inner
        return val

    def c_str(self, node, cfg):
        cfg = cfg or {}
        maxl = node.get("max_length", cfg.get("str_max_length"))
        minl = node.get("min_length", cfg.get("str_min_length"))
        pat = node.get("pattern")
        strip = node.get("strip_whitespace", cfg.get("str_strip_whitespace"))
        lower = node.get("to_lower", cfg.get("str_to_lower"))
        upper = node.get("to_upper", cfg.get("str_to_upper"))
        strict = node.get("strict")

        def val(v, st):
            t = type(v)
            if t not in SYMTYPES:
                if t is not str:
                    st.floor(STRICT if isinstance(v, str) and not isinstance(v, enum.Enum) else LAX)
                return delegate(node, v)
            if t is en.OpaqueStr:
                return v
            if t is not SymStr:
                raise err("string_type")
            if v.pytype is not str:
                st.floor(STRICT)
                v = SymStr(v.parts)
            if strip:
                v = v.strip()
            if maxl is not None and ins.b_len(v) > maxl:
                raise err("string_too_long", (), {"max_length": maxl})
            if minl is not None and ins.b_len(v) < minl:
                raise err("string_too_short", (), {"min_length": minl})
            if pat is not None:
                import re

                p = pat if isinstance(pat, re.Pattern) else re.compile(rust_pattern(pat))
                if not ins.h_meth(p, "search", v):
                    raise err("string_pattern_mismatch")
            if lower:
                v = ins.h_meth(v, "lower")
            if upper:
                v = ins.h_meth(v, "upper")
            return v

        return val

    def c_int(self, node, cfg):
        bounds = [(k, node[k]) for k in ("ge", "gt", "le", "lt", "multiple_of") if node.get(k) is not None]
        strict = node.get("strict", (cfg or {}).get("strict"))

        def val(v, st):
            t = type(v)
            if t not in SYMTYPES:
                if t is not int:
                    st.floor(LAX)
                return delegate(node, v)
            if t is SymBool:
                if strict:
                    raise err("int_type")
                st.floor(LAX)
                v = v + 0
            elif t is SymStr:
                if strict:
                    raise err("int_type")
                st.floor(LAX)
                v = sym_str_to_int(v)
            elif t is not SymInt:
                raise err("int_type")
            for k, b in bounds:
                ok = {
                    "ge": lambda: v >= b, "gt": lambda: v > b, "le": lambda: v <= b, "lt": lambda: v < b,
                    "multiple_of": lambda: v % b == 0,
                }[k]()
                if not ok:
                    raise err("int_bound")
            return v

        return val

    def c_bool(self, node, cfg):
        strict = node.get("strict", (cfg or {}).get("strict"))

        def val(v, st):
            t = type(v)
            if t not in SYMTYPES:
                if t is not bool:
                    st.floor(LAX)
                return delegate(node, v)
            if t is SymBool:
                return v
            if strict:
                raise err("bool_type")
            if t is SymInt:
                st.floor(LAX)
                if v == 0:
                    return False
                if v == 1:
                    return True
                raise err("bool_parsing")
            if t is SymStr:
                st.floor(LAX)
                for words, r in ((("0", "off", "f", "false", "n", "no"), False), (("1", "on", "t", "true", "y", "yes"), True)):
                    if en.mkbool(en.f_or([ci_equal(v, w) for w in words])):
                        return r
                raise err("bool_parsing")
            raise err("bool_type")

        return val

    def c_literal(self, node, cfg):
        expected = list(node["expected"])

        def val(v, st):
            t = type(v)
            if t not in SYMTYPES:
                if t is not str and isinstance(v, str):
                    st.floor(STRICT)
                return delegate(node, v)
            for e in expected:
                if t is SymStr and isinstance(e, str) or t is SymInt and type(e) is int or t is SymBool and type(e) is bool:
                    if v == e:
                        return e
            raise err("literal_error")

        return val

    def c_list(self, node, cfg):
        inner = self.compile(node["items_schema"], cfg) if "items_schema" in node else None
        mn, mx = node.get("min_length"), node.get("max_length")
        strict = node.get("strict")

        def val(v, st):
            if type(v) in SYMTYPES:
                raise err("list_type")
            if not isinstance(v, list):
                if strict or isinstance(v, (str, bytes, bytearray, dict, collections.abc.Mapping, BaseModel)) or not isinstance(
                    v, (tuple, set, frozenset, collections.deque, collections.abc.ValuesView, collections.abc.KeysView, types.GeneratorType)
                ):
                    raise err("list_type")
                st.floor(LAX)
                v = list(v)
            elif type(v) is not list:
                st.floor(STRICT)
            if inner is None:
                st.floor(STRICT)
                out = list(v)
            else:
                out, errs = [], []
                for i, x in enumerate(v):
                    try:
                        out.append(inner(x, st))
                    except VErr as e:
                        errs.extend((k, (i, *l), x) for k, l, x in e.errors)
                if errs:
                    raise VErr(errs)
            if mn is not None and len(out) < mn:
                raise err("too_short")
            if mx is not None and len(out) > mx:
                raise err("too_long")
            return out

        return val

    def c_dict(self, node, cfg):
        kf = self.compile(node["keys_schema"], cfg) if "keys_schema" in node else self.c_any({}, cfg)
        vf = self.compile(node["values_schema"], cfg) if "values_schema" in node else self.c_any({}, cfg)
        mn, mx = node.get("min_length"), node.get("max_length")

        def val(v, st):
            if not isinstance(v, dict):
                if type(v) not in SYMTYPES and isinstance(v, collections.abc.Mapping):
                    st.floor(LAX)
                    v = ins.h_mkdict([(k, v[k]) for k in v])
                else:
                    raise err("dict_type")
            elif type(v) is not dict:
                st.floor(STRICT)
            out, errs = {}, []
            for k, x in v.items():
                try:
                    k2 = kf(k, st)
                    ok = True
                except VErr as e:
                    ok = False
                    errs.extend((t, (_loc(k), "[key]", *l), z) for t, l, z in e.errors)
                try:
                    x2 = vf(x, st)
                except VErr as e:
                    errs.extend((t, (_loc(k), *l), z) for t, l, z in e.errors)
                    ok = False
                if ok:
                    if k2 is k:
                        # keys of one dict are pairwise distinct
                        with ins.hashing() if ins.is_symkey(k) else _null:
                            dict.__setitem__(out, k, x2)
                    else:
                        ins._put(out, k2, x2)
            if errs:
                raise VErr(errs)
            if mn is not None and len(out) < mn:
                raise err("too_short")
            if mx is not None and len(out) > mx:
                raise err("too_long")
            return out

        return val

    def c_is_instance(self, node, cfg):
        cls = node["cls"]

        def val(v, st):
            if not isinstance(v, cls):
                raise err("is_instance_of")
            return v

        return val

    def c_function_after(self, node, cfg):
        inner = self.compile(node["schema"], cfg)
        call = caller(node, cfg)

        def val(v, st):
            return call(inner(v, st), st)

        def assign(obj, name, value, st):
            return call(inner.assign(obj, name, value, st), st)

        if hasattr(inner, "assign"):
            val.assign = assign
        return val

    def c_function_before(self, node, cfg):
        inner = self.compile(node["schema"], cfg)
        call = caller(node, cfg)

        def val(v, st):
            si, st.self_instance = st.self_instance, None
            v = call(v, st)
            st.self_instance = si
            return inner(v, st)

        def assign(obj, name, value, st):
            # pydantic-core validates the object before the assignment
            call(obj, st)
            return inner.assign(obj, name, value, st)

        if hasattr(inner, "assign"):
            val.assign = assign
        return val

    def c_function_wrap(self, node, cfg):
        inner = self.compile(node["schema"], cfg)
        call = caller(node, cfg)

        def val(v, st):
            def handler(x, loc=None):
                return _surface(lambda: inner(x, st))

            return call(v, st, handler)

        def assign(obj, name, value, st):
            def handler(x, loc=None):
                return _surface(lambda: inner.assign(x, name, value, st))

            return call(obj, st, handler)

        if hasattr(inner, "assign"):
            val.assign = assign
        return val

    def c_function_plain(self, node, cfg):
        call = caller(node, cfg)
        return lambda v, st: call(v, st)

    def c_chain(self, node, cfg):
        steps = [self.compile(s, cfg) for s in node["steps"]]

        def val(v, st):
            for s in steps:
                v = s(v, st)
            return v

        return val

    def c_lax_or_strict(self, node, cfg):
        return self.compile(node["lax_schema"], cfg)

    def c_json_or_python(self, node, cfg):
        return self.compile(node["python_schema"], cfg)

    def c_definitions(self, node, cfg):
        for d in node["definitions"]:
            self.defs[d["ref"]] = None
        for d in node["definitions"]:
            self.defs[d["ref"]] = self.compile(d, cfg)
        return self.compile(node["schema"], cfg)

    def c_definition_ref(self, node, cfg):
        ref, defs = node["schema_ref"], self.defs

        def val(v, st):
            return defs[ref](v, st)

        def assign(obj, name, value, st):
            return defs[ref].assign(obj, name, value, st)

        val.assign = assign
        return val

    def c_union(self, node, cfg):
        choices = [self.compile(c[0] if isinstance(c, tuple) else c, cfg) for c in node["choices"]]
        if node.get("mode", "smart") == "left_to_right":

            def val(v, st):
                errs = []
                for c in choices:
                    try:
                        return c(v, st)
                    except VErr as e:
                        errs.extend(e.errors)
                raise VErr(errs)

            return val

        def val(v, st):
            oe, of = st.exact, st.fsc
            best, errs = None, []
            for c in choices:
                st.exact, st.fsc = EXACT, None
                try:
                    r = c(v, st)
                except VErr as e:
                    errs.extend(e.errors)
                    continue
                e, f = st.exact, st.fsc
                if e == EXACT and f is None:
                    st.exact, st.fsc = oe, of
                    return r
                if best is None:
                    better = True
                elif best[2] is not None and f is not None and best[2] != f:
                    better = best[2] < f
                else:
                    better = best[1] < e
                if better:
                    best = (r, e, f)
            st.exact, st.fsc = oe, of
            if best is None:
                raise VErr(errs)
            st.floor(best[1])
            if best[2] is not None:
                st.add_fields(best[2])
            return best[0]

        return val

    # --- models ---------------------------------------------------------------------------------------------
    def c_model(self, node, cfg):
        cls = node["cls"]
        config = node.get("config", {})
        root = node.get("root_model", False)
        inner = self.compile(node["schema"], config)
        reval = node.get("revalidate_instances") or config.get("revalidate_instances", "never")
        post = node.get("post_init")
        custom_init = node.get("custom_init")
        frozen = node.get("frozen") or config.get("frozen")
        strict = node.get("strict", config.get("strict"))

        def finish(obj, d, extra, fset, st):
            s = object.__setattr__
            s(obj, "__dict__", d)
            s(obj, "__pydantic_extra__", extra)
            s(obj, "__pydantic_fields_set__", fset)
            if not hasattr(obj, "__pydantic_private__"):
                s(obj, "__pydantic_private__", None)
            if post:
                _call(getattr(obj, post), st.context)
            return obj

        def build(v, fset, st, obj=None):
            si, st.self_instance = st.self_instance, None
            oa, on, od, of, oc = st.by_alias, st.by_name, st.data, st.field_name, st.config
            st.config = config
            try:
                if root:
                    r = inner(v, st)
                    given = set() if v is PydanticUndefined else {"root"}
                    if obj is None:
                        obj = cls.__new__(cls)
                    return finish(obj, {"root": r}, None, given if fset is None else fset, st)
                if custom_init and obj is None:
                    if not isinstance(v, dict):
                        raise err("model_type")
                    return _call(lambda: cls(**{str(k): x for k, x in v.items()}))
                d, extra, fs = inner(v, st)
                if obj is None:
                    obj = cls.__new__(cls)
                return finish(obj, d, extra, fs if fset is None else fset, st)
            finally:
                st.self_instance = si
                st.data, st.field_name, st.config = od, of, oc

        def val(v, st):
            if st.self_instance is not None:
                return build(v, None, st, st.self_instance)
            if type(v) not in SYMTYPES and isinstance(v, cls):
                if reval == "always" or reval == "subclass-instances" and type(v) is not cls:
                    fset = v.__pydantic_fields_set__
                    if root:
                        return build(v.__dict__["root"], fset, st)
                    src = dict(v.__dict__)
                    if v.__pydantic_extra__:
                        src = ins.h_mkdict([*src.items(), *v.__pydantic_extra__.items()])
                    return build(src, fset, st)
                return v
            if strict:
                raise err("model_type")
            st.floor(STRICT)
            return build(v, None, st)

        def assign(obj, name, value, st):
            if frozen:
                raise err("frozen_instance")
            old = st.config
            st.config = config
            try:
                if root:
                    if name != "root":
                        raise err("no_such_attribute")
                    r = inner(value, st)
                    object.__setattr__(obj, "__dict__", {"root": r})
                    _fs_add(obj, "root")
                    return obj
                d, extra, fs = inner.assign(obj, name, value, st)
                for n in fs:
                    _fs_add(obj, n)
                object.__setattr__(obj, "__dict__", d)
                object.__setattr__(obj, "__pydantic_extra__", extra)
                return obj
            finally:
                st.config = old

        val.assign = assign
        val.cls = cls
        return val

    def c_model_fields(self, node, cfg):
        cfg = cfg or {}
        extra_mode = node.get("extra_behavior") or cfg.get("extra_fields_behavior", "ignore")
        extras_schema = node.get("extras_schema")
        exf = self.compile(extras_schema, cfg) if extras_schema else None
        by_alias0 = cfg.get("validate_by_alias", True)
        by_name0 = cfg.get("validate_by_name", cfg.get("populate_by_name", False))
        fields = []
        for name, f in node["fields"].items():
            alias = f.get("validation_alias")
            if alias is None:
                paths = None
            elif isinstance(alias, str):
                paths = [[alias]]
            elif alias and isinstance(alias[0], list):
                paths = alias
            else:
                paths = [alias]
            s = f["schema"]
            fields.append((name, paths, self.compile(s, cfg), f.get("frozen", False)))
        byname = {f[0]: f for f in fields}
        fieldcfg = cfg

        def find(d, path):
            k = ins.lookup(d, path[0])
            if k is _STAR:
                return _STAR, None
            with ins.hashing() if ins.is_symkey(k) else _null:
                v = d[k]
            for p in path[1:]:
                if isinstance(p, str) and isinstance(v, dict):
                    k2 = ins.lookup(v, p)
                    if k2 is _STAR:
                        return _STAR, None
                    v = ins.d_getitem(v, k2)
                elif isinstance(p, int) and isinstance(v, (list, tuple)):
                    try:
                        v = v[p]
                    except IndexError:
                        return _STAR, None
                else:
                    return _STAR, None
            return k, v

        def val(v, st):
            if not isinstance(v, dict):
                if type(v) not in SYMTYPES and isinstance(v, collections.abc.Mapping):
                    v = ins.h_mkdict([(k, v[k]) for k in v])
                else:
                    raise err("model_type")
            by_alias = by_alias0 if st.by_alias is None else st.by_alias
            by_name = by_name0 if st.by_name is None else st.by_name
            out, fset, errs, used, count = {}, set(), [], [], 0
            for name, paths, fn, frozen in fields:
                k, x = _STAR, None
                if paths is None:
                    k, x = find(v, [name])
                else:
                    if by_alias:
                        for p in paths:
                            k, x = find(v, p)
                            if k is not _STAR:
                                break
                    if k is _STAR and by_name:
                        k, x = find(v, [name])
                if k is not _STAR:
                    used.append(k)
                    st.data, st.field_name = out, name
                    try:
                        out[name] = fn(x, st)
                    except VErr as e:
                        errs.extend((t, (_loc(k), *l), z) for t, l, z in e.errors)
                        continue
                    fset.add(name)
                    count += 1
                else:
                    get = getattr(fn, "default", None)
                    if get is None:
                        errs.append(("missing", (name,), None))
                    else:
                        d = get()
                        if getattr(fn, "validate_default", False):
                            d = fn(d, st)
                        out[name] = d
            st.add_fields(count)
            extra = {} if extra_mode == "allow" else None
            if extra_mode != "ignore":
                for k, x in v.items():
                    if any(k is u for u in used) or (not ins.is_symkey(k) and any(not ins.is_symkey(u) and k == u for u in used)):
                        continue
                    if not isinstance(k, str):
                        errs.append(("invalid_key", (_loc(k),), None))
                        continue
                    if extra_mode == "forbid":
                        errs.append(("extra_forbidden", (_loc(k),), None))
                        continue
                    if exf is not None:
                        try:
                            x = exf(x, st)
                        except VErr as e:
                            errs.extend((t, (_loc(k), *l), z) for t, l, z in e.errors)
                            continue
                    with ins.hashing() if ins.is_symkey(k) else _null:
                        extra[k] = x
                        fset.add(k)
            if errs:
                raise VErr(errs)
            return out, extra, fset

        def assign(obj, name, value, st):
            d = dict(obj.__dict__)
            extra = obj.__pydantic_extra__
            extra = dict(extra) if extra is not None else ({} if extra_mode == "allow" else None)
            if type(name) in SYMTYPES:
                for n in byname:
                    if name == n:
                        name = n
                        break
            f = byname.get(name) if type(name) not in SYMTYPES else None
            if f is not None:
                if f[3]:
                    raise err("frozen_field")
                st.data, st.field_name = {k: x for k, x in d.items() if k != name}, name
                d[name] = f[2](value, st)
                return d, extra, {name}
            if extra_mode != "allow":
                raise err("no_such_attribute")
            if exf is not None:
                value = exf(value, st)
            ins._put(extra, name, value)
            return d, extra, _one(name)

        val.assign = assign
        return val

    c_typed_dict = c_other
    c_dataclass = c_other


def _one(name):
    with ins.hashing():
        return {name}


def _fs_add(obj, n):
    fs = obj.__pydantic_fields_set__
    if ins.is_symkey(n) or ins.symkeys(fs):
        ins._s_add(fs, n)
    else:
        fs.add(n)


class _Null:
    def __enter__(self):
        return None

    def __exit__(self, *a):
        return False


_null = _Null()


def _loc(k):
    return k if type(k) in (str, int) else "<key>"


def default_of(node):
    if "default_factory" in node:
        f = node["default_factory"]
        if node.get("default_factory_takes_data"):
            return lambda: (_ for _ in ()).throw(Unsupported("default_factory with data"))
        return lambda: f()
    if "default" in node:
        d = node["default"]
        try:
            hash(d)
            return lambda: d
        except TypeError:
            return lambda: copy.deepcopy(d)
    return None


def caller(node, cfg):
    f = node["function"]
    fn = f["function"]
    if f["type"] == "with-info":
        fname = f.get("field_name")

        def call(v, st, *h):
            info = Info(st)
            if fname:
                info.field_name = fname
            return _call(fn, v, *h, info)

        return call
    return lambda v, st, *h: _call(fn, v, *h)


def _surface(thunk):
    """Inside a wrap validator the inner errors surface as a ValidationError."""
    try:
        return thunk()
    except VErr as e:
        raise to_validation_error("wrapped", e)


def rust_pattern(p):
    out, i, cls = [], 0, False
    while i < len(p):
        c = p[i]
        if c == "\\":
            out.append(p[i : i + 2])
            i += 2
            continue
        if c == "[":
            cls = True
        elif c == "]":
            cls = False
        elif c == "$" and not cls:
            out.append("\\Z")
            i += 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def ci_equal(s, word):
    def fn(cells):
        if len(cells) != len(word):
            return False
        return en.f_and([en.cell_in(c, en.mask_chars(w + w.upper()), lambda ch, w=w: ch in (w, w.upper())) for c, w in zip(cells, word)])

    return en.lift(fn, s)


def sym_str_to_int(v):
    dig = en.mask_chars("0123456789")
    cells = v.cells()
    ok = en.f_and([en.cell_in(c, dig, lambda ch: ch in "0123456789") for c in cells]) if cells else False
    if en.CX.branch(ok):
        return ins.b_int(v)
    # definitely unparsable: contains a character no number has
    may = en.mask_of(lambda c: c in "0123456789+-_. \t\n\r\f\v\x1c\x1d\x1e\x1f" or c.isspace())
    if not cells or en.CX.branch(en.f_or([en.f_not(en.cell_in(c, may)) for c in cells])):
        raise err("int_parsing")
    raise Unsupported("decorated integer literal")


def to_validation_error(title, e):
    lines = []
    for kind, loc, ctx in e.errors[:16]:
        line = {"type": kind, "loc": loc, "input": None}
        if isinstance(ctx, dict):
            line["ctx"] = ctx
            if isinstance(ctx.get("error"), BaseException):
                # the compiled error object is not garbage collected: keep it from holding frames
                ctx["error"].__traceback__ = ctx["error"].__context__ = None
        try:
            ValidationError.from_exception_data(title, [line])
        except (KeyError, TypeError):
            line = {"type": PydanticCustomError(kind, kind), "loc": loc, "input": None}
        lines.append(line)
    return ValidationError.from_exception_data(title, lines)


class ShimValidator:
    """Stands in for cls.__pydantic_validator__."""

    def __init__(self, cls, real):
        self.cls = cls
        self.real = real
        self._fn = None

    @property
    def fn(self):
        if self._fn is None:
            schema = self.cls.__pydantic_core_schema__
            self._fn = Compiler().compile(schema)
        return self._fn

    @property
    def title(self):
        return self.cls.__name__

    def validate_python(self, data, *, strict=None, extra=None, from_attributes=None, context=None, self_instance=None,
                        allow_partial=False, by_alias=None, by_name=None):
        if isinstance(en.CX, ins.NullCtx):
            return self.real.validate_python(data, strict=strict, from_attributes=from_attributes, context=context,
                                             self_instance=self_instance, by_alias=by_alias, by_name=by_name)
        if strict or from_attributes or extra is not None:
            raise Unsupported("model_validate(strict/from_attributes/extra)")
        en.CX.tick()
        st = State()
        st.by_alias, st.by_name, st.context, st.self_instance = by_alias, by_name, context, self_instance
        try:
            return self.fn(data, st)
        except VErr as e:
            exc = to_validation_error(self.title, e)
        try:
            raise exc from None
        finally:
            del exc

    def validate_assignment(self, obj, name, value, **kw):
        st = State()
        try:
            return self.fn.assign(obj, name, value, st)
        except VErr as e:
            exc = to_validation_error(self.title, e)
        try:
            raise exc from None
        finally:
            del exc

    def isinstance_python(self, data, **kw):
        try:
            self.validate_python(data, **kw)
            return True
        except ValidationError:
            return False

    def validate_json(self, data, **kw):
        if deep_sym(data):
            raise Unsupported("model_validate_json on symbolic text")
        kw.pop("strict", None)
        import json

        return self.validate_python(json.loads(data), **{k: v for k, v in kw.items() if k in ("context", "by_alias", "by_name")})

    def get_default_value(self, **kw):
        return self.real.get_default_value(**kw)

    def __getattr__(self, name):
        return getattr(self.real, name)


# --------------------------------------------------------------------------------------------------------------
# serialization
# --------------------------------------------------------------------------------------------------------------
class Ser:
    __slots__ = ("mode", "by_alias", "exclude_unset", "exclude_defaults", "exclude_none", "round_trip")


def ser(v, o):
    t = type(v)
    if t in SYMTYPES:
        if t is SymStr and v.pytype is not str:
            return SymStr(v.parts) if o.mode == "json" else v
        return v
    if isinstance(v, BaseModel):
        return ser_model(v, o)
    if t in (str, int, bool, float) or v is None:
        return v
    if isinstance(v, dict):
        out = {}
        for k, x in v.items():
            ins._put(out, k, ser(x, o))
        return out
    if t is list or t is tuple and o.mode == "json":
        return [ser(x, o) for x in v]
    if t is tuple:
        return tuple(ser(x, o) for x in v)
    if isinstance(v, (set, frozenset)):
        return [ser(x, o) for x in v] if o.mode == "json" else type(v)(ser(x, o) for x in v)
    if o.mode == "json":
        return pydantic_core.to_jsonable_python(v)
    return v


_sercache = {}


def fields_of(cls):
    r = _sercache.get(cls)
    if r is None:
        node = cls.__pydantic_core_schema__
        defs = {}
        custom = False
        while True:
            if node["type"] == "definitions":
                defs.update({d["ref"]: d for d in node["definitions"]})
                node = node["schema"]
            elif node["type"] == "definition-ref":
                node = defs[node["schema_ref"]]
            elif node["type"].startswith("function-"):
                if node.get("serialization"):
                    custom = True
                node = node["schema"]
            else:
                break
        if node.get("serialization"):
            custom = True
        root = node.get("root_model", False)
        cfg = node.get("config", {})
        flds = {}
        if not root:
            inner = node["schema"]
            while inner["type"] != "model-fields":
                inner = inner["schema"]
            if inner.get("computed_fields"):
                custom = True
            for n, f in inner["fields"].items():
                s = f["schema"]
                ser_fn = None
                q = s
                while isinstance(q, dict):
                    if q.get("serialization") and q["type"] not in ("function-wrap",):
                        ser_fn = True
                    q = q.get("schema")
                flds[n] = (f.get("serialization_alias"), f.get("serialization_exclude", False), f.get("serialization_exclude_if"), default_of(s) if s["type"] == "default" else None, ser_fn)
        r = _sercache[cls] = (root, cfg.get("serialize_by_alias", False), flds, custom)
    return r


def ser_model(obj, o):
    cls = type(obj)
    root, by_alias0, flds, custom = fields_of(cls)
    if custom:
        raise Unsupported("custom serializer")
    if root:
        return ser(obj.__dict__["root"], o)
    by_alias = by_alias0 if o.by_alias is None else o.by_alias
    out = {}
    fs = obj.__pydantic_fields_set__
    for n, v in obj.__dict__.items():
        f = flds.get(n)
        if f is None:
            continue
        alias, excl, excl_if, dflt, custom = f
        if excl or (o.exclude_none and v is None) or (o.exclude_unset and n not in fs):
            continue
        if excl_if is not None and excl_if(v):
            continue
        if o.exclude_defaults and dflt is not None and v == dflt():
            continue
        if custom:
            raise Unsupported("custom field serializer")
        out[alias if by_alias and alias else n] = ser(v, o)
    for k, v in (obj.__pydantic_extra__ or {}).items():
        if o.exclude_none and v is None:
            continue
        ins._put(out, k, ser(v, o))
    return out


class ShimSerializer:
    def __init__(self, cls, real):
        self.cls = cls
        self.real = real

    def to_python(self, value, *, mode="python", include=None, exclude=None, by_alias=None, exclude_unset=False,
                  exclude_defaults=False, exclude_none=False, round_trip=False, warnings=True, fallback=None,
                  serialize_as_any=False, context=None, exclude_computed_fields=False, **kw):
        if include is not None or exclude is not None or fallback is not None:
            raise Unsupported("model_dump(include/exclude)")
        o = Ser()
        o.mode, o.by_alias, o.exclude_unset = str(mode), by_alias, exclude_unset
        o.exclude_defaults, o.exclude_none, o.round_trip = exclude_defaults, exclude_none, round_trip
        return ser(value, o)

    def to_json(self, value, **kw):
        if deep_sym(value):
            raise Unsupported("model_dump_json on symbolic values")
        return self.real.to_json(value, **kw)

    def __getattr__(self, name):
        return getattr(self.real, name)


# --------------------------------------------------------------------------------------------------------------
# installation
# --------------------------------------------------------------------------------------------------------------
def model_classes():
    out, todo = [], [BaseModel]
    while todo:
        c = todo.pop()
        for s in c.__subclasses__():
            if s not in out:
                out.append(s)
                todo.append(s)
    return [c for c in out if c.__module__.split(".")[0] == "asyncapi3"]


def install():
    n = 0
    for cls in model_classes():
        d = cls.__dict__
        if "__pydantic_validator__" not in d:
            continue
        v = d["__pydantic_validator__"]
        if isinstance(v, ShimValidator):
            continue
        if not isinstance(v, SchemaValidator):
            try:
                cls.model_rebuild()
            except Exception:
                continue
            v = cls.__dict__.get("__pydantic_validator__")
            if not isinstance(v, SchemaValidator):
                continue
        type.__setattr__(cls, "__pydantic_validator__", ShimValidator(cls, v))
        type.__setattr__(cls, "__pydantic_serializer__", ShimSerializer(cls, cls.__dict__["__pydantic_serializer__"]))
        n += 1
    patch_setattr()
    return n


_orig_setattr = BaseModel.__setattr__


def patch_setattr():
    def __setattr__(self, name, value):
        if type(name) is SymStr:
            first = name.parts[0] if name.parts else ""
            if not (type(first) is str and first.startswith("x-")):
                raise Unsupported("setattr with a symbolic name")
            type(self).__pydantic_validator__.validate_assignment(self, name, value)
            return
        _orig_setattr(self, name, value)

    BaseModel.__setattr__ = __setattr__
