"""C20: extra converters and validators run in order, converters first, on the finished document; their refusal refuses the document."""

from checks.common import *
from sx.harness import H

LOG = []


class Stop(Exception):
    """Not a ValueError."""


def make(tag, act):
    class P:
        def __call__(self, spec):
            LOG.append((tag, spec.info.title, type(spec).__name__))
            act(self, spec)
            return spec

    P.__name__ = "P" + str(tag)
    return P


def nothing(self, spec):
    pass


def run(cx, through, kw):
    """(accepted, document, error) of a document with the given processors."""
    D = cls("AsyncAPI3")
    LOG.clear()
    title = kw.pop("title")
    try:
        if through == "parse":
            m = D.model_validate({**doc(), "info": {"title": title, "version": "1"}, **kw})
        elif through == "construct":
            m = D(info={"title": title, "version": "1"}, **kw)
        elif through == "construct-object":
            m = D(info=cls("Info")(title=title, version="1"), **kw)
        else:
            m = D.as_builder(title=title, version="1", **{"extra_validators": None, **kw})
        return True, m, None
    except (ValueError, Stop) as e:
        return False, None, e


WAYS = ["parse", "construct", "construct-object", "build"]


def order(cx, n):
    """Every converter once, in order, then every validator once, in order; each sees what the earlier ones did."""
    through = cx.pick("through", WAYS)
    nc, nv = cx.choose("converters", n + 1), cx.choose("validators", n + 1)

    touch = cx.choose("assign fields of the document", 3)

    def append(mark):
        def act(self, spec):
            spec.info.title = spec.info.title + mark
            if touch:
                spec.default_content_type = mark
            if touch == 2:
                spec.servers = {}

        return act

    cs = [make(f"c{i}", append(f"+{i}")) for i in range(nc)]
    vs = [make(f"v{i}", nothing) for i in range(nv)]
    if nc and cx.choose("twice", 2):
        cs.append(cs[0])
    kw = {}
    if nc or cx.choose("give empty converters", 2):
        kw["extra_converters"] = cs
    elif cx.choose("null converters", 2):
        kw["extra_converters"] = None
    if nv or cx.choose("give empty validators", 2):
        kw["extra_validators"] = vs
    if cx.choose("swap", 2):
        kw = {k: kw[k] for k in reversed(list(kw))}
    t = cx.str("title", 2)
    ok, m, e = run(cx, through, {"title": t, **kw})
    cx.check(ok, "a document with harmless processors was refused")
    if not ok:
        return
    want, cur = [], t
    for c in cs:
        i = int(c.__name__[2:])
        want.append([f"c{i}", cur, "AsyncAPI3"])
        cur = cur + f"+{i}"
    for i in range(nv):
        want.append([f"v{i}", cur, "AsyncAPI3"])
    cx.check(same(want, [list(x) for x in LOG]), "converters in order, then validators in order, each once, on the current document")
    cx.check(m.info.title == cur, "the document keeps what converters did")
    d = dump(m)
    if touch and cs:
        cx.check(d["defaultContentType"] == f"+{cs[-1].__name__[2:]}", "fields assigned by converters stay")
    cx.check(same(d["info"]["title"], cur), "and it is written so")
    cx.check("extra_converters" not in d and "extra_validators" not in d, "processors are not part of the written document")
    cx.reach("accepted")


def refuse(cx, n):
    """A processor that refuses the document refuses it however it is made, and those after it do not run."""
    through = cx.pick("through", WAYS)
    bad = cx.str("bad", 2)
    t = cx.str("title", 2)
    k = cx.choose("position", n)
    kind = cx.pick("kind", ["converter", "validator"])
    how = cx.pick("how", ["ValueError", "AssertionError", "other"])

    def act(self, spec):
        if spec.info.title == bad:
            if how == "ValueError":
                raise ValueError("refused")
            if how == "AssertionError":
                raise AssertionError("refused")
            raise Stop

    ps = [make(f"p{i}", act if i == k else nothing) for i in range(n)]
    rest = [make("r", nothing)]
    kw = {"extra_converters": ps, "extra_validators": rest} if kind == "converter" else {"extra_converters": rest, "extra_validators": ps}
    ok, m, e = run(cx, through, {"title": t, **kw})
    cx.check(Iff(ok, t != bad), f"the document was {'accepted' if ok else 'refused'}")
    before = 0 if kind == "converter" else 1
    ran = [x[0] for x in LOG]
    if ok:
        cx.check(len(ran) == n + 1, "every processor ran")
    else:
        cx.check(ran == (["r"] if before else []) + [f"p{i}" for i in range(k + 1)], "processors after the refusal do not run")
        cx.check((type(e).__name__ == "Stop") == (how == "other"), "the refusal is reported as such")
    cx.reach("accepted" if ok else "refused")


def together(cx):
    """Converters can complete a document for the reference validators."""
    from asyncapi3.validators import TagsRefValidator, UnifiedReferencesValidator

    have, need = name_(cx, "have"), name_(cx, "need")

    def act(self, spec):
        spec.components = {"tags": {have: {"name": "n"}}}

    V = cx.pick("validator", [UnifiedReferencesValidator, TagsRefValidator])
    with_ = cx.choose("convert", 2)
    kw = {"extra_validators": [V], "extra_converters": [make("c", act)] if with_ else []}
    raw = {**doc(), "info": {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/" + need}]}, **kw}
    ok, m = attempt(cls("AsyncAPI3").model_validate, raw)
    good = And(have == need) if with_ else False
    cx.check(good if ok else Not(good), f"the document was {'accepted' if ok else 'refused'}")
    cx.reach("accepted" if ok else "refused")


def invalid_first(cx):
    """Processors never see a document that is not valid in itself, and see every part finished."""
    bad = cx.pick("bad", ["none", "version", "key", "extension", "servers", "info", "nested"])
    k = cx.str("key", 2)
    raw = doc()
    if bad == "version":
        raw["asyncapi"] = "3.0." + k
    elif bad == "key":
        raw["channels"] = {k: {}}
    elif bad == "extension":
        raw["y-" + k] = 1
    elif bad == "servers":
        raw["servers"] = {"s": {"host": "h"}}
    elif bad == "info":
        raw["info"] = {"title": "t"}
    elif bad == "nested":
        raw["components"] = {"messages": {"m": {"bindings": {"amqp": {"nope": 1}}}}}
    plain = accepts(cls("AsyncAPI3").model_validate, raw)
    LOG.clear()
    seen = []
    P = make("p", lambda self, spec: seen.append(dump(spec)))
    where = cx.pick("where", ["extra_converters", "extra_validators"])
    first = cx.choose("first", 2)
    ok, m = attempt(cls("AsyncAPI3").model_validate, {where: [P], **raw} if first else {**raw, where: [P]})
    cx.check(ok == plain, "a harmless processor changes the verdict")
    if ok:
        cx.check(len(seen) >= 1 and same(seen[-1], dump(m)), "the processor sees the finished document")
    elif bad != "none" and bad != "extension":
        cx.check(len(seen) == 0, "a processor saw an invalid document")
    cx.reach("accepted" if ok else "refused")


def only_processors(cx):
    """Only classes of callables are taken as processors."""
    class Callable:
        def __call__(self, spec):
            return spec

    class Plain:
        pass

    from asyncapi3.validators import TagsRefValidator

    class Child(TagsRefValidator):
        pass

    v = cx.pick("value", ["class", "child", "real", "instance", "plain", "text", "number", "null", "function", "not-list"])
    x = {"class": Callable, "child": Child, "real": TagsRefValidator, "instance": Callable(), "plain": Plain, "text": "TagsRefValidator", "number": 1, "null": None,
         "function": nothing, "not-list": Callable}[v]
    where = cx.pick("where", ["extra_converters", "extra_validators"])
    ok, _ = attempt(cls("AsyncAPI3").model_validate, {**doc(), where: x if v == "not-list" else [x]})
    cx.check(ok == (v in ("class", "child", "real")), f"{v} as a processor was {'accepted' if ok else 'refused'}")
    cx.reach("accepted" if ok else "refused")


def assigned(cx):
    """Processors run again on every assignment to the document; a refusal undoes the assignment."""
    bad = cx.str("bad", 2)

    def act(self, spec):
        if spec.default_content_type is not None and spec.default_content_type == bad:
            raise ValueError("refused")

    where = cx.pick("where", ["extra_converters", "extra_validators"])
    m = cls("AsyncAPI3").model_validate({**doc(), where: [make("p", act)]})
    last = None
    for i in range(2):
        LOG.clear()
        v = cx.str(f"v{i}", 2)
        ok, _ = attempt(setattr, m, "default_content_type", v)
        cx.check(Iff(ok, v != bad), f"the assignment was {'accepted' if ok else 'refused'}")
        cx.check(len(LOG) >= 1, "the processor ran on assignment")
        if ok:
            last = v
        cx.check(same(m.default_content_type, last), "the document holds the last accepted value")
        cx.reach("accepted" if ok else "refused")


def later(cx):
    """Processors given later run from then on; taking them away stops them."""
    from asyncapi3.validators import TagsRefValidator, UnifiedReferencesValidator

    a, r = name_(cx, "a"), name_(cx, "r")
    raw = doc(components={"tags": {a: {"name": "n"}}})
    raw["info"] = {"title": "t", "version": "1", "tags": [{"$ref": "#/components/tags/" + r}]}
    m = cls("AsyncAPI3").model_validate(raw)
    V = cx.pick("validator", [TagsRefValidator, UnifiedReferencesValidator])
    before = dump(m)
    ok, _ = attempt(setattr, m, "extra_validators", [V])
    cx.check(Iff(ok, a == r), f"giving the validator was {'accepted' if ok else 'refused'}")
    cx.check(same(dump(m), before), "the document itself is unchanged")
    ok2, _ = attempt(setattr, m, "default_content_type", "x")
    cx.check(ok2, "an assignment to the document was refused")
    if ok:
        ok3, _ = attempt(setattr, m, "components", {})
        cx.check(not ok3, "removing the target was accepted")
        ok4, _ = attempt(setattr, m, "extra_validators", None)
        cx.check(ok4, "taking the validator away was refused")
        ok5, _ = attempt(setattr, m, "components", {})
        cx.check(ok5, "a validator that was taken away still ran")
    cx.reach("accepted" if ok else "refused")


B = ["accepted", "refused"]
HARNESSES = [
    H("order", order, reach=["accepted"], n=3, bounds="0..3 converters (one may come twice) and 0..3 validators, 4 ways to make the document; title of 0..2 characters"),
    H("refuse", refuse, reach=B, n=3, bounds="3 processors, any of them refusing one title, 3 kinds of exception, 4 ways to make the document; titles of 0..2 characters"),
    H("together", together, reach=B, bounds="names of 1..2 characters"),
    H("invalid-first", invalid_first, reach=B, bounds="7 kinds of document, names of 0..2 characters"),
    H("only-processors", only_processors, reach=B, bounds="10 kinds of value"),
    H("assigned", assigned, reach=B, bounds="2 assignments of texts of 0..2 characters"),
    H("later", later, reach=B, bounds="names of 1..2 characters"),
]
