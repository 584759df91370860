"""C01: names of entries in the named maps."""

from checks.common import *
from sx.harness import H

ASSUMPTIONS = []


def check_map(cx, cname, how, n):
    C = cls(cname)
    k = text(cx, "key", n, pads=how == "construct")
    item = entry(cname) if how == "construct" else cx.pick("item", [entry(cname), {"$ref": "#/components/x"}])
    if how == "parse":
        ok, m = attempt(C.model_validate, {k: item})
    elif how == "construct":
        ok, m = attempt(C, {k: item})
    else:  # from a model instance
        ok, m = attempt(C, {k: C({"t": item})["t"]})
    legal = legal_key(k)
    cx.reach("accepted" if ok else "rejected")
    cx.check(legal if ok else Not(legal), f"a single entry was {'accepted' if ok else 'rejected'}")
    if ok:
        cx.check(same(list(m.root), [k]), "the name is kept as given")
        cx.check(same(list(dump(m)), [k]), "the name is dumped as given")


def check_two(cx, cname, n):
    C = cls(cname)
    k = cx.str("key", n)
    cx.assume(k != "first")
    item = entry(cname)
    raw = {"first": item, k: item} if cx.choose("order", 2) else {k: item, "first": item}
    if cx.choose("ref", 2):
        raw["last"] = {"$ref": "#/x"}
        cx.assume(k != "last")
    ok, m = attempt(C.model_validate, raw)
    legal = legal_key(k)
    cx.reach("accepted" if ok else "rejected")
    cx.check(legal if ok else Not(legal), f"an entry among others was {'accepted' if ok else 'rejected'}")
    if ok:
        cx.check(same(list(m.root), list(raw)), "the names are kept as given")


def check_pair(cx, cname, n):
    """Two free names."""
    C = cls(cname)
    a, b = cx.str("a", n), cx.str("b", n)
    cx.assume(a != b)
    ok, m = attempt(C.model_validate, {a: entry(cname), b: {"$ref": "#/x"} if cx.choose("ref", 2) else entry(cname)})
    legal = And(legal_key(a), legal_key(b))
    cx.reach("accepted" if ok else "rejected")
    cx.check(legal if ok else Not(legal), f"two entries were {'accepted' if ok else 'rejected'}")
    if ok:
        cx.check(same(list(m.root), [a, b]), "the names are kept as given")


def check_many(cx, cname, n):
    """A free name among many."""
    C = cls(cname)
    size = cx.pick("size", SIZES)
    k = cx.str("key", n)
    for x in range(size):
        cx.assume(k != f"n{x}")
    some = {f"n{x}": entry(cname) for x in range(size)}
    raw = {k: entry(cname), **some} if cx.choose("first", 2) else {**some, k: entry(cname)}
    ok, m = attempt(C.model_validate, raw)
    legal = legal_key(k)
    cx.reach("accepted" if ok else "rejected")
    cx.check(legal if ok else Not(legal), f"an entry among many was {'accepted' if ok else 'rejected'}")
    if ok:
        cx.check(same(list(m.root), list(raw)), "the names are kept as given")


def check_doc(cx, cname, path, n):
    D = cls("AsyncAPI3")
    k = cx.str("key", n)
    raw = at(path, {k: entry(cname)})
    ok, m = attempt(D.model_validate, raw)
    legal = legal_key(k)
    cx.reach("accepted" if ok else "rejected")
    cx.check(legal if ok else Not(legal), f"an entry of {'/'.join(map(str, path))} was {'accepted' if ok else 'rejected'}")


HARNESSES = []
for _c in CONTAINERS:
    for _how in ("parse", "construct", "instance"):
        HARNESSES.append(H(f"{_how}[{_c}]", check_map, reach=["accepted", "rejected"], cname=_c, how=_how, n={"construct": 6, "parse": 12, "instance": 5}[_how],
                           bounds="names of 0..12 (parse), 0..6 (construct), 0..5 (instance) characters; construct: also long names with 4 free characters around a literal run"))
    HARNESSES.append(H(f"among-others[{_c}]", check_two, reach=["accepted", "rejected"], cname=_c, n=4, bounds="names of 0..4 characters, up to 3 entries"))
    HARNESSES.append(H(f"pair[{_c}]", check_pair, reach=["accepted", "rejected"], cname=_c, n=2, bounds="two names of 0..2 characters"))
    HARNESSES.append(H(f"many[{_c}]", check_many, reach=["accepted", "rejected"], cname=_c, n=2, bounds="a name of 0..2 characters among 9, 33 and more others (more: around integers new in the source)"))
    for _p in MAP_POSITIONS[_c]:
        HARNESSES.append(H(f"document[{'/'.join(_p)}]", check_doc, reach=["accepted", "rejected"], cname=_c, path=_p, n=4, bounds="names of 0..4 characters"))
