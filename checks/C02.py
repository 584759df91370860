"""C02: a named map behaves as an insertion-ordered dictionary that never holds an invalid entry."""

from checks.common import *
from sx.harness import H

OPS = ["set-raw", "set-instance", "set-reference", "set-invalid", "delete", "get", "in", "walk"]


def run(cx, cname, steps, ops, keylen, sizes=None):
    C = cls(cname)
    item = entry(cname)
    start = ["a"] if sizes is None else [f"n{i}" for i in range(cx.pick("size", sizes) - 1)] + ["a"]
    c = C({k: item for k in start})
    model = [[k, "item"] for k in start]  # the reference: an association list
    ref = cls("Reference").model_validate({"$ref": "#/x"})
    b = cx.str("key", keylen)
    for i in range(steps):
        k = "a" if cx.choose(f"which{i}", 2) else b
        op = cx.pick(f"op{i}", ops)
        hit = None
        for row in model:
            if row[0] == k:
                hit = row
                break
        err = None
        out = None
        try:
            if op == "set-raw":
                c[k] = item
            elif op == "set-instance":
                c[k] = C({"t": item})["t"]
            elif op == "set-reference":
                c[k] = ref
            elif op == "set-invalid":
                c[k] = 5
            elif op == "delete":
                del c[k]
            elif op == "get":
                out = c[k]
            elif op == "in":
                out = k in c
            else:
                out = list(iter(c))
        except KeyError:
            err = "missing"
        except ValueError:
            err = "invalid"
        if op in ("set-raw", "set-instance", "set-reference"):
            legal = legal_key(k)
            cx.check(legal if err is None else And(err == "invalid", Not(legal)), f"{op}: {err or 'accepted'}")
            if err is None:
                kind = "ref" if op == "set-reference" else "item"
                if hit is None:
                    model.append([k, kind])
                else:
                    hit[1] = kind
            cx.reach(f"set {err}")
        elif op == "set-invalid":
            cx.check(err == "invalid", "an invalid value was accepted")
        elif op == "delete":
            cx.check(err == (None if hit else "missing"), f"delete: {err}")
            if hit:
                model.remove(hit)
        elif op == "get":
            cx.check(err == (None if hit else "missing"), f"get: {err}")
            if hit:
                cx.check(type(out) is type(c.root[hit[0]]) and (type(out) is type(ref)) == (hit[1] == "ref"), "get returns the stored entry")
        elif op == "in":
            cx.check(err is None and out is (hit is not None), "membership")
        else:
            cx.check(err is None and same(out, [r[0] for r in model]), "iteration")
    cx.check(len(c) == len(model), "size")
    cx.check(same(list(c), [r[0] for r in model]), "names in insertion order")
    for k, kind in model:
        v = c[k]
        cx.check((type(v) is type(ref)) == (kind == "ref"), "kind of the entry")
        cx.check(not isinstance(v, dict), "entries are objects, not raw mappings")
    ok, d = attempt(C.model_validate, c.model_dump(mode="json", by_alias=True))
    cx.check(ok, "what the map holds is valid")


HARNESSES = []
for _c in CONTAINERS:
    HARNESSES.append(H(f"two-operations[{_c}]", run, reach=["set None", "set invalid"], cname=_c, steps=2, ops=OPS, keylen=2,
                       bounds="one initial entry, 2 operations, names of 0..2 characters"))
    HARNESSES.append(H(f"long-name[{_c}]", run, reach=["set None", "set invalid"], cname=_c, steps=1, ops=OPS[:3], keylen=7,
                       bounds="one initial entry, one assignment, names of 0..7 characters"))
    HARNESSES.append(H(f"large[{_c}]", run, reach=["set None", "set invalid"], cname=_c, steps=1, ops=OPS, keylen=2, sizes=SIZES,
                       bounds="9, 33 and more initial entries (more: around integers new in the source), one operation, names of 0..2 characters"))
for _c in ("Servers", "Messages", "Schemas"):
    HARNESSES.append(H(f"three-operations[{_c}]", run, thorough_only=True, cname=_c, steps=3, ops=OPS, keylen=2,
                       bounds="one initial entry, 3 operations, names of 0..2 characters"))
