"""Writes checks/table.py from the tree it was reviewed against. Not run by any check: the table is the frozen oracle."""
import collections, importlib, pkgutil, pprint, types, typing, warnings
warnings.simplefilter("ignore")
import asyncapi3
from pydantic import BaseModel, RootModel, AnyUrl, HttpUrl

for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
    importlib.import_module(m.name)


def subs(c):
    for s in c.__subclasses__():
        yield s
        yield from subs(s)


classes = sorted({s for s in subs(BaseModel) if s.__module__.startswith("asyncapi3") and "[" not in s.__name__}, key=lambda c: (c.__module__, c.__name__))
skip = {"AtomicAssignmentModel", "ExtendableBaseModel", "NonExtendableBaseModel", "PatternedRootModel"}


def ty(t):
    o = typing.get_origin(t)
    if o is typing.Annotated:
        return ty(typing.get_args(t)[0])
    if o in (typing.Union, types.UnionType):
        alts = [ty(a) for a in typing.get_args(t) if a is not type(None)]
        return alts[0] if len(alts) == 1 else ("union", alts)
    if o is typing.Literal:
        return ("lit", list(typing.get_args(t)))
    if o is list:
        return ("list", ty(typing.get_args(t)[0]))
    if o is dict:
        return ("dict", ty(typing.get_args(t)[1]))
    if t is typing.Any:
        return ("any",)
    if t is str:
        return ("str",)
    if t is bool:
        return ("bool",)
    if t is int:
        return ("int",)
    if t is AnyUrl:
        return ("url",)
    if t is HttpUrl:
        return ("httpurl",)
    if t.__name__ == "EmailStr":
        return ("email",)
    return ("model", t.__name__)


def nullable(t):
    o = typing.get_origin(t)
    if o in (typing.Union, types.UnionType):
        return type(None) in typing.get_args(t)
    return t is typing.Any


C, R = {}, {}
for c in classes:
    if c.__name__ in skip:
        continue
    if issubclass(c, RootModel):
        R[c.__name__] = (c.__module__, ty(typing.get_args(c.model_fields["root"].annotation)[1]))
        continue
    ex = c.model_config.get("extra")
    if ex == "allow":
        ex = "x" if any(b.__name__ == "ExtendableBaseModel" for b in c.__mro__) else "any"
    fields = {}
    for n, f in c.model_fields.items():
        if n.startswith("extra_"):
            continue
        t = ty(f.annotation)
        for md in f.metadata:
            if hasattr(md, "max_length"):
                t = (*t, md.max_length)
        fields[n] = (f.alias or n, f.is_required(), None if f.is_required() else f.default, nullable(f.annotation), f.exclude_if is not None, t)
    C[c.__name__] = (c.__module__, ex, fields)

with open("/verif/checks/table.py", "w") as fh:
    fh.write('"""Frozen description of the object model (the oracle): see tools/gen_table.py.\n\n')
    fh.write("CLASSES: name -> (module, extra policy, {python name: (document name, required, default, nullable, omitted when null, type)})\n")
    fh.write('extra policy: "x" = only specification extensions, "any" = anything, "forbid" = nothing\n')
    fh.write('CONTAINERS: name -> (module, type of the entries)\n"""\n\n')
    fh.write("CLASSES = {\n")
    for n, (m, ex, f) in C.items():
        fh.write(f"    {n!r}: ({m!r}, {ex!r}, {{\n")
        for k, v in f.items():
            fh.write(f"        {k!r}: {v!r},\n")
        fh.write("    }),\n")
    fh.write("}\n\nCONTAINERS = {\n")
    for n, v in R.items():
        fh.write(f"    {n!r}: {v!r},\n")
    fh.write("}\n")
print(len(C), len(R))
