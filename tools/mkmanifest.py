#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, plan.py and notes.py."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLANS
sys.path.insert(0, os.path.join(H, "tools"))
from notes import TECH, NOTE, NA
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=verification hooks", "--grep=for verification", "--reverse"],
                       capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "thingbuf_vp", "enable": "RUSTFLAGS='--cfg thingbuf_vp' (set by ./check for the harness builds; the wrap build adds --cfg thingbuf_vp_wrap, which shortens the generation counter)",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in PLANS:
        m["checks"].append({"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"./check {p} --tier thorough",
                            "technique": TECH[p], "level": "exploration", "level_note": NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
