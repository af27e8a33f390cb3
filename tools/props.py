#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []; NA = []
def prop(id, title, statement, over, quant, tests, files, mech, note="", na=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over.split(), "text": quant}, "why_tests_cant": tests,
         "anchors": {"files": files.split(), "mechanism": [{"name": m.split(" @ ")[0], "where": m.split(" @ ")[1]} for m in mech]}}
    if state: d["anchors"]["state"] = state
    P.append((d, note, na))
TC = "bounded symbolic execution of the clang-compiled LLVM IR, bit-blasted to SAT (MiniSat, Z3 for hard/FP queries), models replayed natively"
exec(open(os.path.join(V, "tools", "plist.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as o:
    for d, n, na in P: o.write(json.dumps(d) + "\n")
B = {}
chk = []; nas = []
for d, n, na in P:
    if na: nas.append({"property": d["id"], "reason": na}); continue
    B[d["id"]] = n
    chk.append({"property": d["id"], "quick_cmd": "python3 vp.py check %s --tier quick" % d["id"], "thorough_cmd": "python3 vp.py check %s --tier thorough" % d["id"],
      "evidence_file": "evidence/%s.json" % d["id"], "technique": TC, "level": "model_checking",
      "level_note": "Every value of every symbolic input within the bounds is decided by the solver over the real headers' compiled code; outside the bounds nothing is claimed. Bounds: " + n + " Trusts clang's front end/optimiser, engine/sx.cpp and the SAT/SMT solvers; path models are replayed on g++ builds each run."})
json.dump(B, open(os.path.join(V, "bounds.json"), "w"), indent=1)
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": chk, "not_applicable": nas,
  "notes": "No hooks were needed in /repo: harnesses reach everything through public headers. Defects found are fix: commits, listed in known_findings.txt."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
