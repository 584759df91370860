"""Runs harnesses on concrete inputs against the real, uninstrumented library. One JSON request per line."""

import json
import logging
import os
import signal
import sys
import traceback
import warnings

ROOT = os.environ.get("SX_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout


def norm(v):
    from sx import engine as en

    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int)):
        return v
    if isinstance(v, str):
        return str(v)
    return f"<{type(v).__name__}>"


def run(harness, inputs, tier="quick", limit=20):
    from sx import engine as en

    cx = en.ConcreteCtx(inputs, None)
    cx.tier = tier
    res = {"status": "ok"}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        harness.fn(cx, **harness.kw)
    except en.Violation as v:
        res = {"status": "violation", "msg": v.msg}
    except en.Infeasible:
        res = {"status": "infeasible"}
    except Timeout:
        res = {"status": "violation", "msg": f"does not terminate within {limit} s"}
    except Exception as e:
        where = ""
        for fr in traceback.extract_tb(e.__traceback__)[::-1]:
            if fr.filename.startswith(ROOT):
                where = f" at {os.path.relpath(fr.filename, ROOT)}:{fr.lineno}"
                break
        res = {"status": "raised", "msg": f"unexpected {type(e).__name__}{where}: {str(e)[:200]}", "kind": type(e).__name__}
    finally:
        signal.alarm(0)
    res["notes"] = norm(cx.notes)
    res["reached"] = sorted(cx.reached)
    return res


def load(check):
    import importlib

    return {h.name: h for h in importlib.import_module(f"checks.{check}").HARNESSES}


def main():
    sys.path[0:0] = [VERIF, ROOT]
    import sx.z3path  # noqa: F401
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    if len(sys.argv) > 2 and sys.argv[1] == "--file":
        rec = json.load(open(sys.argv[2]))
        hs = load(rec["check"])
        r = run(hs[rec["harness"]], rec["inputs"], rec.get("tier", "quick"))
        print(json.dumps(r, indent=1))
        return 1 if r["status"] in ("violation", "raised") else 0
    import importlib
    import pkgutil

    import asyncapi3
    from sx.state import restore, snapshot

    for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
        importlib.import_module(m.name)
    snapshot()
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    cache = {}
    for line in sys.stdin:
        req = json.loads(line)
        c = req["check"]
        if c not in cache:
            cache[c] = load(c)
        restore()
        r = run(cache[c][req["harness"]], req["inputs"], req["tier"])
        out.write(json.dumps(r) + "\n")
        out.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
