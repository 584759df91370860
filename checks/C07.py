"""C07: OAuth flows carry the URLs their kind needs."""

from checks.common import *
from sx.harness import H

NEEDS = {"implicit": ["authorizationUrl"], "password": ["tokenUrl"], "clientCredentials": ["tokenUrl"], "authorizationCode": ["authorizationUrl", "tokenUrl"]}
PY = {"clientCredentials": "client_credentials", "authorizationCode": "authorization_code", "authorizationUrl": "authorization_url", "tokenUrl": "token_url", "availableScopes": "available_scopes"}


def flow(cx, tag):
    """None (absent) or a flow object."""
    p = cx.choose(tag, 6)
    if p == 0:
        return None
    f = {"availableScopes": {cx.str(tag + "scope", 1): "d"} if p == 5 else {}}
    if p in (2, 4, 5):
        f["authorizationUrl"] = URL
    if p in (3, 4, 5):
        f["tokenUrl"] = URL
    if p == 1 and cx.choose(tag + "refresh", 2):
        f["refreshUrl"] = URL
    return f


def rule(flows):
    return all(flows.get(n) is None or all(flows[n].get(u) is not None for u in urls) for n, urls in NEEDS.items())


def parse(cx, first, path=None):
    flows = {}
    for n in [first, *[k for k in NEEDS if k != first]]:
        f = flow(cx, n) if path is None or n == first or n == "password" else None
        if f is not None:
            flows[n] = f
        elif cx.choose(n + "null", 2) if n == first else False:
            flows[n] = None
    if path is None:
        ok, m = attempt(cls("OAuthFlows").model_validate, flows)
    else:
        ok, m = attempt(cls("AsyncAPI3").model_validate, at(path, flows))
    good = rule(flows)
    cx.check(ok == good, f"flows {'accepted' if ok else 'rejected'}")
    cx.reach("accepted" if ok else "rejected")
    if ok and path is None:
        d = dump(m)
        cx.check(len(d) == len([n for n in flows if flows[n] is not None]), "every flow is dumped")


def instance(cx):
    """Flows built from flow objects, and flows assigned or made invalid later."""
    n = cx.pick("kind", list(NEEDS))
    F, S = cls("OAuthFlow"), cls("OAuthFlows")
    raw = flow(cx, "flow")
    how = cx.pick("how", ["construct", "assign", "mutate-then-embed"])
    good = rule({n: raw})
    if how == "construct":
        ok, m = attempt(S, **{PY.get(n, n): F(**{PY.get(k, k): v for k, v in raw.items() if k != "refreshUrl"}) if raw is not None else None})
    elif how == "assign":
        m = S()
        ok, _ = attempt(setattr, m, PY.get(n, n), raw)
    else:
        m = S.model_validate({n: {"availableScopes": {}, "authorizationUrl": URL, "tokenUrl": URL}})
        f = getattr(m, PY.get(n, n))
        if raw is None:
            return
        f.authorization_url = raw.get("authorizationUrl")
        f.token_url = raw.get("tokenUrl")
        ok, m = attempt(cls("SecurityScheme"), type="oauth2", flows=m)
    cx.check(ok == good, f"{n} flow {'accepted' if ok else 'rejected'} ({how})")
    cx.reach("accepted" if ok else "rejected")


def scopes(cx):
    """availableScopes is required and maps names to text."""
    n = cx.pick("kind", list(NEEDS))
    v = cx.pick("scopes", ["absent", None, {}, {"a": "d"}, {"a": 1}, {"a": None}, [], "x"])
    f = {"authorizationUrl": URL, "tokenUrl": URL}
    if v != "absent":
        f["availableScopes"] = v
    ok, m = attempt(cls("OAuthFlows").model_validate, {n: f})
    cx.check(ok == (v in ({}, {"a": "d"}) and isinstance(v, dict)), "available scopes")
    cx.reach("accepted" if ok else "rejected")


B = ["accepted", "rejected"]
HARNESSES = [H(f"parse[{n}]", parse, reach=B, first=n, bounds="every combination of the four flows with and without each URL") for n in list(NEEDS)[:1]]
HARNESSES += [H(f"document[{n}]", parse, reach=B, first=n, path=("components", "securitySchemes", "s", "flows"), bounds="two flows") for n in NEEDS if n != "password"]
HARNESSES += [H("objects", instance, reach=B, bounds="one flow of each kind"), H("scopes", scopes, reach=B, bounds="listed values")]
