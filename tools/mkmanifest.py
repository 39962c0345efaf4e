#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directories."""
import json, os, glob
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(home + "/properties.jsonl")]
checks, na = [], []
NOTE = ("For the inputs within the bounds listed per harness in the evidence file the solver decides every assertion on every path of the "
        "real code (go/ssa of /repo's current tree and of the standard library it calls); nothing is sampled. Trusted: the engine's "
        "semantics of Go (cross-checked by replaying on the compiled code), its stubs (file system, decimal text tokens, fmt of errors), "
        "z3, and the reference models in the harnesses. Beyond the bounds nothing is claimed.")
EXTRA = {
 "P11": " exp is uninterpreted with stated real-analysis lemmas.",
 "P14": " Schedules: every order at blocking points and before synchronising operations within the stated bounds, races by happens-before on every explored schedule.",
 "P17": " Schedules: every order at blocking points and before synchronising operations within the stated bounds, races by happens-before on every explored schedule.",
}
for p in props:
    i = p["id"]
    if glob.glob("%s/harness/%s*/" % (home, i.lower())):
        checks.append({
            "property": i,
            "quick_cmd": "./check.sh %s -tier quick%s" % (i, " -budget 240" if i in ("P14", "P17") else ""),
            "thorough_cmd": "./check.sh %s -tier thorough" % i,
            "technique": "bounded symbolic execution of the real Go code (go/ssa) with SMT-decided assertions (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTE + EXTRA.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: harnesses are overlaid as virtual packages of the module."}
json.dump(m, open(home + "/MANIFEST.json", "w"), indent=1)
open(home + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", [x["property"] for x in na])
