#!/usr/bin/env python3
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, "tools"))
import checks, props_src
subprocess.check_call([sys.executable, os.path.join(V, "tools", "props_src.py")])
ids = [d["id"] for d in sorted(props_src.P, key=lambda d: d["id"])]
assert set(checks.CHECKS) <= set(ids), set(checks.CHECKS) - set(ids)
E1 = "stateless model checking: exhaustive enumeration of bounded operation/input sequences on the real code against a reference model"
E2 = 'stateless model checking of the real code under a controlled scheduler: exhaustive preemption-bounded enumeration of thread interleavings with happens-before race and deadlock detection'
out = dict(version=1, setup_cmd="python3 -c 'import checks'", checks=[], not_applicable=[],
  hooks=dict(guard="LINTEL_MC", enable="no hooks are needed: the harnesses use public interfaces, link-time interposition and compiler instrumentation; no guarded code exists in /repo", source_commits=[]),
  notes="See DESIGN.md. Every command is `python3 run.py ID --tier T`; known-findings.txt lists findings and repairs.")
for i in ids:
    if i in checks.CHECKS:
        s = checks.CHECKS[i]
        out["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique={"E2": E2}.get(s.get("technique"), s.get("technique", E1)), level=s.get("level", "model_checking"),
            level_note=s.get("note", "Holds on every enumerated execution of the compiled /repo code within the bounds reported in the evidence (alphabet, depth, start states); nothing is claimed beyond them. Trusts compiler, AddressSanitizer and the reference model in the harness.")))
    else: out["not_applicable"].append(dict(property=i, reason=checks.NA.get(i, "no check built yet")))
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(out["checks"]), "checks", len(out["not_applicable"]), "not claimed")
