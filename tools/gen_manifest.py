#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "TLA+ specification checked with TLC; executions of the real code validated against it as traces by TLC"
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(pushcdn_verif)", "enable": "RUSTFLAGS='--cfg pushcdn_verif' (tools/engine.py: env_build)",
               "source_commits": ["31f6dfe", "dd6e02d", "0e87e23"]},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in parts.PLAN:
        m["checks"].append({
            "property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": parts.TECH.get(i, TECH), "level": "model_checking",
            "level_note": parts.NOTE.get(i, parts.NOTE["*"])})
    else:
        m["not_applicable"].append({"property": i, "reason": parts.NA.get(i, "no check yet (work in progress)")})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
