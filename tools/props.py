#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the list of properties in DESIGN.md from tools/properties.py and checks/*/spec.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from properties import P, NA, HOOKS
lines = []
for p in P:
    files, mech = p["files"], p["mechanism"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": [o for o in p["over"] if o != "adversarial witnesses"], "text": p["for"]}, "why_tests_cant": p["why"],
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}))
    assert len(p["title"]) <= 80, p["id"]
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in NA: na.append({"property": i, "reason": NA[i]}); continue
    s = json.load(open(os.path.join(V, "checks", i, "spec.json")))
    c = {"property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
         "evidence_file": "evidence/%s.json" % i,
         "technique": s.get("technique", "symbolic execution of the compiled functions (LLVM IR), each path's assertions decided by the z3 SMT solver for all inputs within the bounds; counterexamples replayed on the uninstrumented build"),
         "level": s.get("level", "model_checking"), "level_note": p["note"] + " Bounds: " + (s["bounds"] if isinstance(s["bounds"], str) else "; ".join(s["bounds"]))}
    checks.append(c)
m = {"version": 1, "setup_cmd": "bin/check --setup", "checks": checks, "not_applicable": na,
     "notes": "Run from /verif. Every check recompiles its harness against the headers in /repo (VERIF_REPO overrides the path) and regenerates the encoding."}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
# the sections of DESIGN.md per property
cost = json.load(open(os.path.join(V, "tools", "costs.json")))
out = []
for p in P:
    i = p["id"]; out.append("### %s %s\n" % (i, p["title"])); out.append(p["statement"] + "\n")
    if i in NA: out.append("Not applicable: " + NA[i] + ".\n"); continue
    s = json.load(open(os.path.join(V, "checks", i, "spec.json")))
    out.append("- Decided by: symbolic execution of %s; %s" % (", ".join("`%s`" % f.replace("include/nil/blueprint/", "") for f in p["files"][:4]) + (" and others" if len(p["files"]) > 4 else ""), p["note"]))
    out.append("- Quantified over: " + p["for"] + ".")
    out.append("- Oracle: the statement, written anew in `checks/%s/` (%s)." % (i, ", ".join("`%s`" % h["file"] for h in s["harness"])))
    out.append("- Bounds: " + (s["bounds"] if isinstance(s["bounds"], str) else "; ".join(s["bounds"])) + ".")
    extra = [a for a in s.get("assumptions", []) if "crypto3" not in a and "as the prover does" not in a]
    if extra: out.append("- Assumed: " + "; ".join(extra) + ".")
    out.append("- Cost: %s. Beyond tests: %s\n" % ("about %s s for the quick tier" % cost[i] if i in cost else "not measured", p["why"]))
d = os.path.join(V, "DESIGN.md"); t = open(d).read(); b, e = "<!-- properties -->\n", "<!-- end -->\n"
t = t[:t.index(b) + len(b)] + "\n" + "\n".join(out) + "\n" + t[t.index(e):]
fx = [l.split(" ", 3) for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:")]
b, e = "<!-- fixed -->\n", "<!-- end fixed -->\n"
t = t[:t.index(b) + len(b)] + "\n" + "".join("- %s, `%s`: %s" % (x[1].split("=")[1], x[2], x[3]) for x in fx) + "\n" + t[t.index(e):]
open(d, "w").write(t)
