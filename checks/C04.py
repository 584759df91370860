"""C04: the specification version of a document."""

from checks.common import *
from sx.harness import H

SUFFIX = KEYCHARS + "."


def version_ok(s):
    return automaton(s, 0, [5, 7], [
        (0, "0", 0), (0, "3", 1), (1, ".", 2), (2, DIGITS, 3), (3, DIGITS, 3), (3, ".", 4), (4, DIGITS, 5), (5, DIGITS, 5),
        (5, "-", 6), (6, SUFFIX, 7), (7, SUFFIX, 7),
    ])


def version(cx, how, prefix, n, pads):
    D = cls("AsyncAPI3")
    s = prefix + text(cx, "version", n, pads=pads)
    if how == "parse":
        ok, m = attempt(D.model_validate, {**doc(), "asyncapi": s})
    elif how == "construct":
        ok, m = attempt(D, asyncapi=s, info={"title": "t", "version": "1"})
    elif how == "builder":
        ok, m = attempt(D.as_builder, asyncapi=s)
    else:
        m = D.model_validate(doc())
        ok, _ = attempt(setattr, m, "asyncapi", s)
    good = version_ok(s)
    cx.check(good if ok else Not(good), f"version {'accepted' if ok else 'rejected'} ({how})")
    cx.reach("accepted" if ok else "rejected")
    cx.check(same(m.asyncapi, s if ok else "3.0.0") if how == "assign" or ok else True, "the version is kept as given")
    if ok:
        cx.check(same(dump(m)["asyncapi"], s), "the version is dumped as given")


B = ["accepted", "rejected"]
HARNESSES = [
    H("parse", version, reach=B, how="parse", prefix="", n=9, pads=False, bounds="0..9 characters"),
    H("parse-suffix", version, reach=B, how="parse", prefix="3.0.0", n=6, pads=True, bounds="'3.0.0' and 0..6 characters, or a long run"),
    H("parse-minor", version, reach=B, how="parse", prefix="3.", n=6, pads=False, bounds="'3.' and 0..6 characters"),
    H("parse-major", version, reach=B, how="parse", prefix="0", n=6, pads=False, bounds="'0' and 0..6 characters"),
    *[H(h, version, reach=B, how=h, prefix="", n=7, pads=False, bounds="0..7 characters") for h in ("construct", "builder", "assign")],
    *[H(h + "-suffix", version, reach=B, how=h, prefix="3.0.0", n=4, pads=False, bounds="'3.0.0' and 0..4 characters") for h in ("construct", "builder", "assign")],
    H("parse-long", version, thorough_only=True, reach=B, how="parse", prefix="", n=13, pads=False, bounds="0..13 characters"),
]
