#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
H = os.path.dirname(os.path.abspath(__file__))
def rec(pid, p):
    return {"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": ["inputs"] + (["histories"] if p.get("histories") else []), "text": p["over"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]], "hook_needed": None}}
with open(H + "/properties.jsonl", "w") as f:
    for pid, p in sorted(props.PROPS.items()): f.write(json.dumps(rec(pid, p)) + "\n")
    for p in props.NOT_APPLICABLE: f.write(json.dumps(rec(p["id"], p)) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NOT_APPLICABLE],
     "notes": "Generated by gen.py from props.py. No hooks in /repo: the checks compile /repo's working tree to LLVM IR and instrument the IR."}
for pid, p in sorted(props.PROPS.items()):
    m["checks"].append({"property": pid, "quick_cmd": "python3 run.py check %s --tier quick" % pid, "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
      "technique": props.TECH, "level": "other", "level_note": "Bounded symbolic verification of the compiled code: all real values of the symbolic inputs for each listed shape. Bounds: " + p["bounds"] + ". Trusts: the IR instrumentation and runtime in engine/, z3, exact-real semantics of doubles."})
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)

# DESIGN.md: per-property section and defect list between the markers
kf = json.load(open(H + "/known_findings.json"))["findings"]
out = []
for pid, p in sorted(props.PROPS.items()):
    nq = len(p["jobs"]("quick")); nt = len(p["jobs"]("thorough"))
    out.append("### %s  %s\n%s\n\n- decided by: `harness/%s.cpp`, %d solver jobs quick / %d thorough, on the real code of %s\n- oracle: %s\n- bounds: %s\n- beyond the tests: %s\n" % (pid, p["title"], p["statement"], p["harness"][0], nq, nt, ", ".join("`%s`" % m for m in p["mech"]), props.ORACLE[pid], p["bounds"], p["why"]))
for p in props.NOT_APPLICABLE: out.append("### %s  %s (not applicable)\n%s\n\n- reason: %s\n" % (p["id"], p["title"], p["statement"], p["reason"]))
fx = ["- %s" % f["what"] for f in kf if f["status"] == "fixed"]; kn = ["- %s (%s): %s" % (f["id"], f["property"], f["what"]) for f in kf if f["status"] != "fixed"]
def put(s, tag, body):
    a, b = "<!-- begin %s -->" % tag, "<!-- end %s -->" % tag
    i, j = s.index(a) + len(a), s.index(b); return s[:i] + "\n" + body + "\n" + s[j:]
d = open(H + "/DESIGN.md").read()
d = put(d, "properties", "\n".join(out)); d = put(d, "fixed", "\n".join(fx)); d = put(d, "known", "\n".join(kn))
rows = []
for sid in sorted(os.listdir(H + "/seeded")) if os.path.isdir(H + "/seeded") else []:
    try: x = json.load(open("%s/seeded/%s/meta.json" % (H, sid)))
    except Exception: continue
    rows.append("| %s | %s | %s | %s |" % (sid, x["property"], x["what_it_breaks"].replace("|", "/"), x["needs"].replace("|", "/")))
d = put(d, "seeds", "| id | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows))
open(H + "/DESIGN.md", "w").write(d)
