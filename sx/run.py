"""
Driver: explores every path of every harness of one check symbolically, replays each path and each counterexample on
the real library, and writes the evidence.

usage: python -B -m sx.run PROPERTY [--tier quick|thorough] [--only HARNESS-SUBSTRING] [--jobs N] [-v]
"""

import argparse
import collections
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import queue
import subprocess
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get("SX_REPO", "/repo")
sys.path[0:0] = [VERIF]
import sx.z3path  # noqa: E402, F401
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from sx import engine as en  # noqa: E402
from sx import instrument as ins  # noqa: E402
from sx.state import restore, snapshot  # noqa: E402
from sx import warned  # noqa: E402

SLICE_S = 1.0


class Real:
    """A persistent process with the real library."""

    def __init__(self, check, tier):
        self.check, self.tier = check, tier
        self.p = None

    def ask(self, harness, inputs):
        if self.p is None or self.p.poll() is not None:
            env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
            self.p = subprocess.Popen(
                [sys.executable, "-B", os.path.join(VERIF, "sx", "replay.py")], stdin=subprocess.PIPE,
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=VERIF,
            )
        try:
            self.p.stdin.write(json.dumps({"check": self.check, "harness": harness, "inputs": inputs, "tier": self.tier}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except (OSError, ValueError):
            self.p.kill()
            self.p = None
            return {"status": "raised", "msg": "the interpreter crashed", "notes": [], "reached": [], "kind": "crash"}


def norm_notes(model, notes):
    from sx.replay import norm

    return norm([[n, en.concretize(model, v)] for n, v in notes])


def run_path(h, prefix, tier, stats, max_steps):
    restore()
    cx = en.SymCtx(prefix, None, stats, max_steps=max_steps)
    cx.tier = tier
    en.CX = cx
    status, detail = "ok", ""
    try:
        h.fn(cx, **h.kw)
    except en.Infeasible:
        status = "infeasible"
    except en.Unsupported as e:
        status, detail = "unsupported", _where(e)
    except en.Diverged:
        status = "diverged"
    except en.SolverUnknown as e:
        status, detail = "unknown", str(e)
    except RecursionError as e:
        status, detail = "raised", "RecursionError"
    except Exception as e:
        status, detail = "raised", f"{type(e).__name__}: {_where(e)}"
    return cx, status, detail


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb if "/sx/" not in f.filename][-2:]
    try:
        msg = BaseException.__str__(e)
    except BaseException:
        msg = "?"
    return f"{msg} [{' < '.join(reversed(loc))}]"


def finish_path(h, cx, status, detail, real, tier):
    """Concrete cross-validation of one explored path. Returns a result dict."""
    res = {
        "status": status, "detail": detail, "checks": cx.checks, "reached": sorted(cx.reached),
        "violations": [], "knowns": [], "spurious": [], "validated": 0, "pinned": 0, "mismatch": None,
        "decisions": len(cx.decisions), "alternatives": cx.alternatives,
    }
    # counterexamples of assertions
    for msg, inputs in cx.violations:
        r = real.ask(h.name, inputs)
        if r["status"] in ("violation", "raised"):
            res["violations"].append({"msg": r["msg"], "inputs": inputs})
        else:
            res["spurious"].append({"msg": msg, "inputs": inputs, "replay": r})
    for kid, msg, inputs in cx.knowns:
        r = real.ask(h.name, {**inputs, "!ignore_known": True})
        res["knowns"].append({"id": kid, "msg": msg, "inputs": inputs, "reproduced": r["status"] == "violation"})
    if status == "infeasible" and not cx.violations and not cx.knowns:
        return res
    if status == "infeasible":
        return res
    try:
        sat = cx._sat()
        model = cx.model() if sat else None
    except en.SolverUnknown as e:
        res["status"], res["detail"] = "unknown", str(e)
        return res
    if not sat:
        res["status"] = "infeasible"
        return res
    inputs = cx.extract(model)
    res["inputs"] = inputs
    r = real.ask(h.name, inputs)
    if r["status"] in ("violation", "raised"):
        if status == "raised" or status in ("unsupported", "diverged", "ok"):
            res["violations"].append({"msg": r["msg"], "inputs": inputs})
        return res
    if status == "ok":
        if r["status"] == "infeasible":
            res["mismatch"] = {"inputs": inputs, "why": "concrete run rejected the assumptions"}
            return res
        notes = norm_notes(model, cx.notes)
        if notes != r["notes"] or sorted(cx.reached) != r["reached"]:
            res["mismatch"] = {"inputs": inputs, "symbolic": [notes, sorted(cx.reached)], "real": [r["notes"], r["reached"]]}
        else:
            res["validated"] = 1
    else:
        # unsupported / diverged / raised only symbolically: try a few more models of the same path condition
        res["pinned"] = 1
        for _ in range(3):
            block = []
            for n, v in cx.inputs.items():
                e = _differs(v, inputs.get(n))
                if e is not None:
                    block.append(e)
            if not block:
                break
            cx.assume_raw(en.z3.Or(block))
            try:
                if not cx._sat():
                    break
                inputs = cx.extract()
            except en.SolverUnknown:
                break
            r = real.ask(h.name, inputs)
            res["pinned"] += 1
            if r["status"] in ("violation", "raised"):
                res["violations"].append({"msg": r["msg"], "inputs": inputs})
                break
    return res


def _differs(v, val):
    t = type(v)
    if t is en.SymInt:
        return v.e != val
    if t is en.SymStr:
        f = en.formula(v != val)
        return f if not isinstance(f, bool) else None
    if t is en.SymBool and not isinstance(v.f, bool):
        return v.f != val
    return None


def worker(check, tier, tasks, results):
    try:
        mod = importlib.import_module(f"checks.{check}")
        hs = {h.name: h for h in mod.HARNESSES}
        real = Real(check, tier)
        max_steps = getattr(mod, "MAX_STEPS", 400_000)
        while True:
            task = tasks.get()
            if task is None:
                break
            name, prefix, slice_s = task
            h = hs[name]
            stack, out = [prefix], []
            stats = {"queries": 0, "solver_s": 0.0, "obligations": 0}
            t0 = time.time()
            while stack and time.time() - t0 < slice_s:
                p = stack.pop()
                cx, status, detail = run_path(h, p, tier, stats, max_steps)
                res = finish_path(h, cx, status, detail, real, tier)
                stack.extend(res.pop("alternatives"))
                out.append(res)
            results.put((name, out, stack, stats, sorted(ins.ENCODED)))
            ins.ENCODED.clear()
    except BaseException:
        results.put(("!crash", traceback.format_exc(), None, None, None))


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default="")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    warned.SYMBOLIC = True
    prop = a.check

    ins.install()
    try:
        import pkgutil

        import asyncapi3

        for m in pkgutil.walk_packages(asyncapi3.__path__, "asyncapi3."):
            importlib.import_module(m.name)
        if not asyncapi3.__file__.startswith(ROOT + "/"):
            print(f"ERROR: asyncapi3 was loaded from {asyncapi3.__file__}")
            return 2
        from sx import core

        nclasses = core.install()
        mod = importlib.import_module(f"checks.{prop}")
    except Exception:
        traceback.print_exc()
        print(f"ERROR: {prop}: the library or the check could not be loaded")
        return 2
    snapshot()
    hs = [h for h in mod.HARNESSES if a.only in h.name and (a.tier == "thorough" or not h.thorough_only)]
    byname = {h.name: h for h in hs}
    budget = getattr(mod, "BUDGET", {"quick": 600, "thorough": 780})[a.tier]
    known = {k["id"]: k for k in load_known() if k.get("status") == "known" and k["property"] == prop}

    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    procs = [ctx.Process(target=worker, args=(prop, a.tier, tasks, results), daemon=True) for _ in range(a.jobs)]
    for p in procs:
        p.start()

    pending = collections.deque((h.name, []) for h in sorted(hs, key=lambda h: -h.weight))
    inflight = 0
    S = collections.Counter()
    per = {h.name: collections.Counter() for h in hs}
    reached = {h.name: set() for h in hs}
    stats = {"queries": 0, "solver_s": 0.0, "obligations": 0}
    encoded, samples = set(), {}
    violations, knowns, spurious, mismatches, incomplete = [], {}, [], [], collections.Counter()
    stop = False
    deadline = t0 + budget
    while True:
        while pending and inflight < a.jobs + 4 and not stop:
            name, prefix = pending.popleft() if len(pending) > 64 else pending.popleft()
            mp_ = byname[name].max_paths
            if mp_ and per[name]["paths"] >= mp_:
                incomplete[f"{name}: path limit {mp_}"] += 1
                continue
            tasks.put((name, prefix, SLICE_S if len(pending) < 4 * a.jobs else 2 * SLICE_S))
            inflight += 1
        if inflight == 0:
            break
        try:
            name, out, rest, st, enc = results.get(timeout=120)
        except queue.Empty:
            print(f"ERROR: {prop}: no progress from the workers for 120 s")
            for p in procs:
                p.kill()
            return 2
        inflight -= 1
        if name == "!crash":
            print(out)
            for p in procs:
                p.kill()
            print(f"ERROR: {prop}: a worker failed")
            return 2
        for k in stats:
            stats[k] += st[k]
        encoded.update(enc)
        for r in out:
            per[name]["paths"] += 1
            per[name][r["status"]] += 1
            S["transitions"] += r["decisions"]
            S["validated"] += r["validated"]
            S["pinned"] += r["pinned"]
            reached[name].update(r["reached"])
            for v in r["violations"]:
                violations.append((name, v))
            for v in r["knowns"]:
                knowns.setdefault(v["id"], []).append((name, v))
            for v in r["spurious"]:
                spurious.append((name, v))
            if r["mismatch"]:
                mismatches.append((name, r["mismatch"]))
            if r["status"] in ("unsupported", "diverged", "raised"):
                incomplete[f"{name}: {r['status']}: {r['detail']}"] += 1
            if r["status"] == "unknown":
                incomplete[f"{name}: solver unknown"] += 1
                S["unknown"] += 1
            if "inputs" in r and name not in samples and r["status"] == "ok":
                samples[name] = r["inputs"]
        if time.time() > deadline or len(violations) > 20:
            stop = True
        if not stop:
            pending.extendleft((name, p) for p in rest)
        else:
            per[name]["dropped"] += len(rest)
    for n, _ in pending:
        per[n]["dropped"] += 1
    for _ in procs:
        tasks.put(None)
    wall = time.time() - t0
    dropped = sum(c["dropped"] for c in per.values())
    if dropped and not violations:
        incomplete[f"time budget of {budget} s: {dropped} open branches not explored"] += 1
    for p in procs:
        p.join(2)
        if p.is_alive():
            p.kill()

    # --- verdict ----------------------------------------------------------------------------------------------
    code = 0
    seen = set()
    vdir = os.path.join(VERIF, "replays")
    for name, v in violations:
        key = (name, v["msg"].split(" at ")[0][:80])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(vdir, exist_ok=True)
        body = {"property": prop, "check": prop, "harness": name, "tier": a.tier, "inputs": v["inputs"], "msg": v["msg"],
                "how": "cd /verif && /opt/venv/bin/python -B sx/replay.py --file <this file>"}
        digest = hashlib.sha1(json.dumps([name, v["inputs"]], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(vdir, f"{prop}-{digest}.json")
        with open(path, "w") as fh:
            json.dump(body, fh, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {name}: {v['msg']}  inputs={json.dumps(v['inputs'])[:400]}")
        code = 1
    for kid, items in knowns.items():
        if kid in known:
            print(f"KNOWN-FINDING: property={prop} {known[kid]['what']}")
            if not any(v["reproduced"] for _, v in items):
                print(f"ERROR: known finding {kid} does not reproduce on the real code")
                code = code or 2
        else:
            name, v = items[0]
            os.makedirs(vdir, exist_ok=True)
            path = os.path.join(vdir, f"{prop}-{kid}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "check": prop, "harness": name, "tier": a.tier, "inputs": {**v["inputs"], "!ignore_known": True}, "msg": v["msg"]}, fh, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {name}: {v['msg']} (unlisted finding {kid})")
            code = 1
    if code == 0:
        if spurious:
            for name, v in spurious[:3]:
                print(f"ERROR: counterexample does not reproduce: {name}: {json.dumps(v)[:600]}")
            code = 2
        elif S["unknown"] * 200 > sum(c["paths"] for c in per.values()):
            print("ERROR: the solver gave up on too many queries")  # (a few are reported as INCOMPLETE below)
            code = 2
        else:
            for h in hs:
                missing = [r for r in h.reach if r not in reached[h.name]]
                if missing and not per[h.name]["dropped"]:
                    if any(k.startswith(h.name + ":") for k in incomplete):
                        incomplete[f"{h.name}: labels not reached: {missing}"] += 1
                        continue
                    print(f"ERROR: vacuous harness {h.name}: never reached {missing}")
                    code = 2
    for name, m in mismatches[:5]:
        print(f"MISMATCH {name}: {json.dumps(m)[:700]}")
    if mismatches:
        incomplete[f"{len(mismatches)} paths whose replay on the real library differed from the encoding"] += 1
    for k, n in sorted(incomplete.items())[:12]:
        print(f"INCOMPLETE x{n}: {k}")
    if a.v:
        for h in hs:
            print(f"  {h.name}: {dict(per[h.name])} reached={sorted(reached[h.name])}")

    paths = sum(c["paths"] for c in per.values())
    feasible = sum(c["ok"] for c in per.values())
    evidence = {
        "property": prop,
        "tier": a.tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": feasible,
            "transitions": S["transitions"],
            "traces_validated_against_impl": S["validated"],
            "samples": [{"harness": n, "inputs": i} for n, i in list(samples.items())[:6]],
            "paths_explored": paths,
            "infeasible_paths": sum(c["infeasible"] for c in per.values()),
            "obligations": stats["obligations"],
            "solver_queries": stats["queries"],
            "solver_s": round(stats["solver_s"], 2),
            "harnesses": {h.name: {"bounds": h.bounds, "paths": per[h.name]["paths"], "reached": sorted(reached[h.name])} for h in hs},
            "functions_encoded": sorted(e for e in encoded if e.startswith("asyncapi3")),
            "modules_loaded_from_source": len(ins.SOURCES),
            "model_classes_interpreted": nclasses,
            "complete": not incomplete,
            "incomplete": dict(list(incomplete.items())[:30]),
            "known_findings": sorted(knowns),
            "meaning": "states = feasible paths of the symbolic execution (each a set of inputs); transitions = solver-"
            "decided branch decisions on them; traces_validated = paths whose solver model was replayed on the real library "
            "with identical observations",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(seen),
    }
    where = os.environ.get("SX_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(where, exist_ok=True)
    if not a.only:
        with open(os.path.join(where, f"{prop}.json"), "w") as fh:
            json.dump(evidence, fh, indent=1)
    print(
        f"{prop} {a.tier}: {'violated' if code == 1 else 'inconclusive' if code else 'held'}; harnesses={len(hs)} paths={paths} "
        f"validated={S['validated']} obligations={stats['obligations']} queries={stats['queries']} "
        f"solver={stats['solver_s']:.1f}s wall={wall:.1f}s complete={not incomplete}"
    )
    return code


COMMON_ASSUMPTIONS = [
    "characters range over ASCII plus 65 code points representing other Unicode classes, closed under case mapping (sx/engine.py ALPHA)",
    "pydantic-core is replaced by an interpreter of the core schemas built from the current source; every explored path is "
    "replayed on the real library and its observations compared",
    "logging calls only record their level and texts in the encoding",
]

if __name__ == "__main__":
    sys.exit(main())
