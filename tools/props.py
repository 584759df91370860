"""Writes properties.jsonl and MANIFEST.json from the table below. Run after editing it: python3 tools/props.py"""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "asyncapi3/validators/"
M = "asyncapi3/models/"
I, HI, CF = "inputs", "histories", "configurations"

# id: (title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], [(state, meaning, where)], observe_at)
P = {}
exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

NOT = {
    "U01": "URL syntax is decided by the URL parser of pydantic-core, compiled Rust without source in this sandbox: neither its source nor an intermediate representation can be encoded. The checks use fixed URLs and assume only that the parser is a function of its text.",
    "U02": "Parsing JSON text and writing JSON text happen inside pydantic-core (compiled Rust, no source here). The checks start from the parsed data and end at the JSON-ready data; the step from text to data and back is outside the encoding.",
}
TECH = ("symbolic execution of the library's current source (AST-instrumented on every run) together with an interpreter of pydantic's compiled core schemas; "
        "every path condition and obligation is decided by Z3 over all inputs within the stated bounds; each path and each counterexample is replayed on the real library")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid, (title, st, over, text, why, files, mech, state, obs) in P.items():
            assert len(title) <= 80, pid
            f.write(json.dumps({
                "id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": obs, "hook_needed": None},
            }) + "\n")
    checks = []
    for pid in P:
        if pid in NOT:
            continue
        cmd = f"/opt/venv/bin/python -B -m sx.run {pid} --tier "
        checks.append({"property": pid, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "technique": TECH, "level": "model_checking",
                       "level_note": LEVEL.get(pid, "bounded: exhaustive over the symbolic inputs within the bounds each harness states in the evidence; pydantic-core itself is represented by an interpreter of its schemas, cross-checked against the real library on every path")})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sx.z3path, z3, pydantic\"", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in NOT.items()],
           "notes": "Known findings: /verif/known_findings.json. No hooks are needed in /repo. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


LEVEL = {}
main()
