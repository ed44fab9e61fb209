#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import check, core
NOTES = json.load(open(os.path.join(core.VERIF, "run", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(core.VERIF, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 run/setup.py",
         hooks=dict(guard="cfg eastl_verif",
                    enable="RUSTFLAGS='--cfg eastl_verif' when the harness crate builds /repo as a path dependency",
                    source_commits=NOTES["hooks"]),
         checks=[], not_applicable=[])
for i in ids:
    if i in core.REG:
        m["checks"].append(dict(property=i, quick_cmd="python3 run/check.py " + i,
                                thorough_cmd="VERIF_TIER=thorough python3 run/check.py " + i,
                                technique=NOTES["technique"].get(i, NOTES["technique"]["default"]),
                                level=core.REG[i][1], level_note=NOTES["level_note"].get(i, NOTES["level_note"]["default"])))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOTES["na"].get(i, "check not built yet")))
json.dump(m, open(os.path.join(core.VERIF, "MANIFEST.json"), "w"), indent=1)
