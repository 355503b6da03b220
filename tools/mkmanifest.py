#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list of checks built so far."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
# id -> (technique, level_note)
BUILT = {
    "A01": ("model-based stateful property testing against a set/vector reference model",
            "Random operation histories on the real interners, compared step by step with a reference model; shrunk replay on failure. Sampling: no guarantee beyond the generated histories."),
    "A02": ("property-based testing against a path-normalisation reference model",
            "Random path histories on the real path interner against an independent normaliser. Sampling only."),
}
exec(open(os.path.join(here, "tools", "built.py")).read()) if os.path.exists(os.path.join(here, "tools", "built.py")) else None
NA = globals().get("NA", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUILT:
        t, n = BUILT[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check is not built yet.")})
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "hooks": {"guard": "crofiler_verif (rustc cfg)",
               "enable": "/verif/crofiler-lib builds /repo/src/main.rs as a library; its build.rs sets --cfg crofiler_verif",
               "source_commits": globals().get("HOOK_COMMITS", [])},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not applicable")
