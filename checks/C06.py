"""C06: security schemes carry exactly the fields their type needs and allows."""

from checks.common import *
from sx.harness import H

TYPES = ["userPassword", "apiKey", "X509", "symmetricEncryption", "asymmetricEncryption", "httpApiKey", "http", "oauth2",
         "openIdConnect", "plain", "scramSha256", "scramSha512", "gssapi"]
INS = ["user", "password", "query", "header", "cookie"]
FLOWS = {"implicit": {"authorizationUrl": URL, "availableScopes": {}}}


def rule(f):
    """f: document fields; absent and null mean the same."""
    t = f.get("type")
    i = f.get("in")
    r = True
    if t == "apiKey":
        r = And(r, i in ("user", "password"))
    if t == "httpApiKey":
        r = And(r, f.get("name") is not None, i in ("query", "header", "cookie"))
    if t == "http":
        r = And(r, f.get("scheme") is not None)
    if f.get("bearerFormat") is not None:
        r = And(r, t == "http", False if f.get("scheme") is None else f["scheme"] == "bearer")
    if t == "oauth2":
        r = And(r, f.get("flows") is not None)
    if t == "openIdConnect":
        r = And(r, f.get("openIdConnectUrl") is not None)
    if f.get("scopes") is not None:
        r = And(r, t in ("oauth2", "openIdConnect"))
    return r


def fields(cx, types, tag=""):
    f = {"type": cx.pick(tag + "type", types)}
    i = cx.pick(tag + "in", [None, *INS]) if f["type"] in ("apiKey", "httpApiKey") else cx.pick(tag + "in", [None, "user", "header"])
    if i is not None:
        f["in"] = i
    opt = [("name", lambda: cx.str(tag + "name", 1)), ("scheme", lambda: cx.str(tag + "scheme", 7)), ("bearerFormat", lambda: cx.str(tag + "bf", 1)),
           ("flows", lambda: cx.pick(tag + "fl", [{}, FLOWS])), ("openIdConnectUrl", lambda: URL), ("scopes", lambda: cx.pick(tag + "sc", [[], ["s"]]))]
    for n, mk in opt:
        if cx.choose(tag + "has-" + n, 2):
            f[n] = mk()
    return f


def parse(cx, types):
    f = fields(cx, types)
    ok, m = attempt(cls("SecurityScheme").model_validate, f)
    good = rule(f)
    cx.check(good if ok else Not(good), f"{f['type']} scheme {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok:
        cx.check(same(sorted_items(dump(m)), sorted_items(f)), "the scheme is dumped as given")


def sorted_items(d):
    return [[k, d[k]] for k in sorted(d)]


def shuffled(cx):
    """Nulls and field order do not matter; python names work too."""
    t = cx.pick("type", TYPES)
    f = {"scheme": cx.pick("scheme", [None, "bearer", "Bearer", "basic"]), "bearer_format": cx.pick("bf", [None, "JWT", ""]),
         "in_": cx.pick("in", [None, *INS]), "name": cx.pick("name", [None, ""]), "type_": t, "scopes": cx.pick("scopes", [None, []]),
         "flows": FLOWS if t == "oauth2" else None, "open_id_connect_url": URL if t == "openIdConnect" else None}
    ok, m = attempt(cls("SecurityScheme"), **f)
    good = rule({"type": t, "scheme": f["scheme"], "bearerFormat": f["bearer_format"], "in": f["in_"], "name": f["name"], "scopes": f["scopes"],
                 "flows": f["flows"], "openIdConnectUrl": f["open_id_connect_url"]})
    cx.check(good if ok else Not(good), f"{t} scheme {'accepted' if ok else 'rejected'} (constructed)")
    cx.reach("accepted" if ok else "rejected")


VALID = [
    {"type": "plain"}, {"type": "apiKey", "in": "user"}, {"type": "httpApiKey", "in": "query", "name": "n"},
    {"type": "http", "scheme": "bearer", "bearerFormat": "JWT"}, {"type": "http", "scheme": "basic"},
    {"type": "oauth2", "flows": {}, "scopes": ["s"]}, {"type": "openIdConnect", "openIdConnectUrl": URL, "scopes": []},
]
PY = {"type": "type_", "in": "in_", "bearerFormat": "bearer_format", "openIdConnectUrl": "open_id_connect_url"}


def assign(cx):
    f = dict(cx.pick("start", VALID))
    m = cls("SecurityScheme").model_validate(f)
    n = cx.pick("field", ["type", "in", "name", "scheme", "bearerFormat", "flows", "openIdConnectUrl", "scopes"])
    v = {"type": lambda: cx.pick("v", TYPES), "in": lambda: cx.pick("v", [None, *INS]), "name": lambda: cx.pick("v", [None, "z"]),
         "scheme": lambda: cx.pick("v", [None, "bearer", "basic"]), "bearerFormat": lambda: cx.pick("v", [None, "x"]),
         "flows": lambda: cx.pick("v", [None, FLOWS]), "openIdConnectUrl": lambda: cx.pick("v", [None, URL]), "scopes": lambda: cx.pick("v", [None, []])}[n]()
    ok, _ = attempt(setattr, m, PY.get(n, n), v)
    good = rule({**f, n: v})
    cx.check(good if ok else Not(good), f"assigning {n} of a {f['type']} scheme was {'accepted' if ok else 'rejected'}")
    cx.check(rule(dump(m)), "the scheme is consistent afterwards")
    cx.reach("accepted" if ok else "rejected")


def document(cx, path):
    f = fields(cx, ["apiKey", "http", "oauth2", "plain"]) if cx.choose("free", 2) else {"type": cx.str("type", 6)}
    ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, f))
    t = f["type"]
    good = And(rule(f), Or(*[t == x for x in TYPES]))
    cx.check(good if ok else Not(good), f"scheme in a document {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


def any_type(cx):
    t = text(cx, "type", 12)
    ok, m = attempt(cls("SecurityScheme").model_validate, {"type": t})
    good = Or(*[t == x for x in TYPES if x not in ("apiKey", "httpApiKey", "http", "oauth2", "openIdConnect")])
    cx.check(good if ok else Not(good), f"bare type {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")


B = ["accepted", "rejected"]
HARNESSES = [H(f"parse[{t}]", parse, reach=B, types=[t], bounds="every subset of the optional fields; scheme of 0..7 characters") for t in TYPES]
HARNESSES += [
    H("constructed", shuffled, reach=B, bounds="every combination of listed values, nulls included"),
    H("assign", assign, reach=B, bounds="7 valid schemes, every single assignment of listed values"),
    H("any-type", any_type, reach=B, bounds="type of 0..12 characters"),
]
HARNESSES += [H(f"document[{'/'.join(map(str, p))}]", document, reach=B, path=p, bounds="4 types, every subset of the optional fields")
              for p in (("components", "securitySchemes", "s"), ("servers", "s", "security", 0), ("operations", "o", "security", 0),
                        ("components", "operationTraits", "t", "security", 0), ("operations", "o", "traits", 0, "security", 0))]
