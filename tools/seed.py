"""Make and test the planted bugs of seeded/ (development tool; no check uses it).

tools/seed.py make ID...      write seeded/ID from tools/seeds_data.py and confirm it
tools/seed.py check ID...     run the check of its property on a copy with the bug (all: every seed)
"""
import json, os, shutil, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
sys.path.insert(0, os.path.join(ROOT, "tools"))


def copy(name):
    d = f"/tmp/seed_{name}_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True)


def make(seed):
    sid = seed["id"]
    d = copy(sid)
    out = os.path.join(ROOT, "seeded", sid)
    try:
        for f, old, new in seed["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(["git", "diff"], d).stdout
        # removed lines have to be of the base commit
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], "/repo").stdout.strip()
        for f in {e[0] for e in seed["edits"]}:
            bl = sh(["git", "blame", "-s", "--abbrev=12", "HEAD", "--", f], "/repo").stdout.splitlines()
            mine = {l.split(")", 1)[1][1:] for l in bl if not l.lstrip("^").startswith(base[:11])}
            for l in diff.splitlines():
                if l.startswith("-") and not l.startswith("---") and l[1:] in mine:
                    print(f"  {sid}: WARNING removes a line of a fix commit: {l}")
        r = sh([PY, "-B", "-m", "pytest", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "-x", "-n", "4", "tests"]
               if HAVE_XDIST else [PY, "-B", "-m", "pytest", "-q", "-o", "addopts=", "-p", "no:cacheprovider", "-x", "tests"],
               d, {"PYTHONPATH": d})
        ok = r.returncode == 0 and "1528 passed" in r.stdout
        if not ok:
            print(f"{sid}: TESTS FAIL: {r.stdout.strip().splitlines()[-4:]}")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.py", "w").write('import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n' + seed["demo"].strip("\n") + "\n")
        open(out + "/demo.sh", "w").write('#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        a = sh(["sh", out + "/demo.sh"], "/repo")
        b = sh(["sh", out + "/demo.sh"], d)
        good = ok and a.returncode == 0 and b.returncode != 0
        print(f"{sid}: tests {'ok' if ok else 'FAIL'}, demo clean {a.returncode}, patched {b.returncode}"
              + ("" if good else "   <<<< BAD\n" + a.stderr[-600:] + (b.stderr[-600:] if b.returncode == 0 else "")), flush=True)
        if good:
            last = b.stderr.strip().splitlines()[-1:] or ["(no message)"]
            print("     ", last[0][:150])
        return good
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(sid, extra=()):
    meta = json.load(open(f"{ROOT}/seeded/{sid}/meta.json"))
    d = copy(sid)
    try:
        r = sh(["git", "apply", f"{ROOT}/seeded/{sid}/patch.diff"], d)
        assert r.returncode == 0, r.stderr
        t = time.time()
        r = sh([PY, "-B", "-m", "sx.run", meta["property"], "--tier", "quick", *extra], ROOT, {"SX_REPO": d, "SX_EVIDENCE": d + "/.evidence"})
        viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(f"{sid} [{meta['property']}]: {'CAUGHT' if r.returncode == 1 and viol else 'MISSED'} rc={r.returncode} {time.time()-t:.0f}s", flush=True)
        if not viol:
            print("   ", "\n    ".join(r.stdout.splitlines()[-6:]), r.stderr[-500:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


HAVE_XDIST = sh([PY, "-c", "import xdist"], "/").returncode == 0
if __name__ == "__main__":
    from seeds_data import SEEDS
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "make":
        for s in SEEDS:
            if not ids or any(s["id"].startswith(i) for i in ids):
                make(s)
    else:
        for sid in sorted(os.listdir(ROOT + "/seeded")):
            if not ids or any(sid.startswith(i) for i in ids):
                check(sid)
