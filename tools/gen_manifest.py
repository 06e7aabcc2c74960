#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/checks.py."""
import json, os
from checks import CHECKS
here = os.path.dirname(os.path.abspath(__file__))
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --setup",
    "checks": [{
        "property": p,
        "quick_cmd": "python3 run.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["level_note"],
    } for p, c in sorted(CHECKS.items())],
    "not_applicable": [],
    "notes": "No hooks: the checks drive the public interface of the library built from the working tree of /repo. VERIF_REPO names another copy (development only).",
}
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
