#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (one record per property)."""
import json, os, glob, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import PROPS, NA
lines = []; checks = []; na = []
for p in PROPS:
    pid, title, st, over, qtext, why, files, mech = p[:8]
    assert len(title) <= 80, title
    assert len(re.findall(r"[.!?](?:\s|$)", st)) <= 3, pid
    for f in files: assert os.path.exists("/repo/" + f), (pid, f)
    lines.append(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                             "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}))
    have = [h for h in glob.glob(f"{V}/harness/{pid}*.cpp")]
    if pid in NA: na.append({"property": pid, "reason": NA[pid]})
    elif have:
        note = []
        for h in sorted(have):
            for l in open(h):
                m = re.match(r"//@(bounds|outside)\s+(.*)", l)
                if m: note.append(("within: " if m.group(1) == "bounds" else "outside: ") + m.group(2))
        checks.append({"property": pid, "quick_cmd": f"python3 /verif/check.py {pid} quick", "thorough_cmd": f"python3 /verif/check.py {pid} thorough",
                       "technique": "symbolic execution of the repository's LLVM bitcode, assertions decided by Z3 over bit-vectors, counterexamples replayed natively",
                       "level": "model_checking", "level_note": ("bounded: " + "; ".join(note))[:1500]})
    else: na.append({"property": pid, "reason": "no check has been built for this property yet"})
open(V + "/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(lines), "properties", len(checks), "checks", len(na), "not applicable")
