"""C11: contact e-mail addresses."""

from checks.common import *
from sx.harness import H

LOCAL = UPPER + LOWER + DIGITS + "._%+-"
DOMAIN = UPPER + LOWER + DIGITS + ".-"
TLD = UPPER + LOWER


def email_ok(s):
    """local@domain.tld over the characters above, without two dots in a row. States: the last character was a dot or not."""
    e = []
    e += [(0, set(LOCAL) - {"."}, 1), (0, ".", 2), (1, set(LOCAL) - {"."}, 1), (1, ".", 2), (2, set(LOCAL) - {"."}, 1)]
    e += [(1, "@", 3), (2, "@", 3)]
    # after '@': 3 nothing yet, 4 some domain (last no dot), 5 some domain (last a dot), 6 a lone first dot
    nodot = set(DOMAIN) - {"."}
    e += [(3, nodot, 4), (3, ".", 6), (4, nodot, 4), (4, ".", 5), (5, nodot, 4), (6, nodot, 4)]
    # the final '.' starts the top-level part: from 4 on '.'; 7 the dot, 8 one letter, 9 two or more
    e += [(4, ".", 7), (7, TLD, 8), (8, TLD, 9), (9, TLD, 9)]
    return automaton(s, 0, [9], [(a, "".join(sorted(c)) if isinstance(c, set) else c, b) for a, c, b in e])


def email(cx, how, lead, n, tail="", pads=False, chars=None):
    s = lead + text(cx, "s", n, pads=pads, chars=chars) + tail
    C = cls("Contact")
    if how == "parse":
        ok, m = attempt(C.model_validate, {"email": s})
    elif how == "construct":
        ok, m = attempt(C, name="n", email=s)
    elif how == "assign":
        m = C(email="a@b.co")
        ok, _ = attempt(setattr, m, "email", s)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(("info", "contact", "email"), s))
    good = email_ok(s)
    cx.check(good if ok else Not(good), f"an address was {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok and how != "document":
        cx.check(same(dump(m)["email"], s), "the address is kept")


B = ["accepted", "rejected"]
CORE = "aZ0.@-_%+ \n"
HARNESSES = [
    H("parse", email, reach=B, how="parse", lead="", n=7, bounds="0..7 characters"),
    H("parse-local", email, reach=B, how="parse", lead="", n=6, tail="@b.co", bounds="0..6 characters before '@b.co'"),
    H("parse-domain", email, reach=B, how="parse", lead="a@", n=6, bounds="'a@' and 0..6 characters"),
    H("parse-domain-mid", email, reach=B, how="parse", lead="a@", n=5, tail=".co", bounds="'a@', 0..5 characters, '.co'"),
    H("parse-tld", email, reach=B, how="parse", lead="a@b.", n=6, bounds="'a@b.' and 0..6 characters"),
    H("parse-core", email, reach=B, how="parse", lead="", n=9, chars=CORE, bounds="0..9 characters of a core set"),
    H("parse-long", email, reach=B, how="parse", lead="", n=2, tail="@b.co", pads=True, bounds="long local part with 4 free characters"),
    H("parse-long-domain", email, reach=B, how="parse", lead="a@", n=2, tail=".co", pads=True, bounds="long domain with 4 free characters"),
    H("parse-long-tld", email, reach=B, how="parse", lead="a@b.", n=2, pads=True, bounds="long top-level part with 4 free characters"),
    *[H(h, email, reach=B, how=h, lead="", n=7, bounds="0..7 characters") for h in ("construct", "assign")],
    H("document", email, reach=B, how="document", lead="", n=6, bounds="0..6 characters"),
    H("parse-deep", email, thorough_only=True, reach=B, how="parse", lead="", n=11, bounds="0..11 characters"),
]
