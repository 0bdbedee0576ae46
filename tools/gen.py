#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and harness/checks.json from tools/props.py (one source for all three)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, NOTES

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + [n["prop"] for n in NOT_APPLICABLE]:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=False))
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, cfg = [], {}
for p in PROPS:
    cmd = "python3 check.py " + p["id"]
    checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % p["id"],
                       technique=p["technique"], level=p.get("level", "model_checking"), level_note=p["note"]))
    cfg[p["id"]] = dict(level=p.get("level", "model_checking"), parts=p["parts"], explanation=p["bounds"],
                        assumptions=p.get("assume", []), **({"rule": p["rule"]} if "rule" in p else {}))
man = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
           not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE], notes=NOTES)
json.dump(man, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
json.dump(cfg, open(os.path.join(H, "harness", "checks.json"), "w"), indent=1)

# DESIGN.md: the general text followed by one section per property and the planted bugs
out = [open(os.path.join(H, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
fixed = {}
for line in open(os.path.join(H, "known_findings.txt")):
    if line.startswith(("fixed: ", "finding: ")):
        kind, rest = line.strip().split(": property=", 1)
        fixed.setdefault(rest.split()[0], []).append((kind, rest.split(None, 1)[1]))
for p in PROPS:
    out += ["### %s %s" % (p["id"], p["title"]), "", p["statement"], "",
            "- **Decided by**: %s (`harness/%s`)." % (p["technique"], "`, `harness/".join(dict.fromkeys(x["src"] for x in p["parts"]))),
            "- **Bounds**: %s" % p["note"], "- **States and oracle**: %s" % p["bounds"],
            "- **Why tests cannot**: %s" % p["why"],
            "- **Code**: " + "; ".join("%s (%s)" % m for m in p["mech"]) + "."]
    if p.get("assume"): out.append("- **Assumptions**: " + " ".join(p["assume"]))
    if "rule" in p: out.append("- **Rule**: " + str(p["rule"]))
    for k, t in fixed.get(p["id"], []):
        out.append("- **%s**: %s" % ("Repaired defect" if k == "fixed" else "Known finding", t))
    out.append("")
if NOT_APPLICABLE:
    out += ["## Not applicable", ""] + ["- %s %s: %s" % (n["prop"]["id"], n["prop"]["title"], n["reason"]) for n in NOT_APPLICABLE] + [""]
out += ["## Planted bugs", "", "| bug | property | what it breaks | needs | caught |", "|---|---|---|---|---|"]
notes = json.load(open(os.path.join(H, "tools", "planted.json")))
S = os.path.join(H, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    out.append("| %s | %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"], m["needs"], notes.get(b, "by " + m["property"])))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out) + "\n")
