"""Writes MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.mkprops import PROPS  # noqa: E402

TECH = "deterministic simulation with fault injection: {}"
m = {
    "version": 1,
    "setup_cmd": "./check --selfcheck",
    "checks": [],
    "not_applicable": [],
    "notes": "Every check is ./check <id> <tier>; see DESIGN.md. Replay a "
    "violation with /opt/venv/bin/python -m sim.replay <file> in /verif.",
}
for p in PROPS:
    i = p["id"]
    path = os.path.join(HERE, "sim", "checks", i.lower() + ".py")
    if not os.path.exists(path):
        m["not_applicable"].append(
            {"property": i, "reason": "check not built yet"}
        )
        continue
    c = importlib.import_module("sim.checks." + i.lower())
    m["checks"].append(
        {
            "property": i,
            "quick_cmd": "./check {} quick".format(i),
            "thorough_cmd": "./check {} thorough".format(i),
            "technique": TECH.format(c.TECHNIQUE),
            "level": "exploration",
            "level_note": c.LEVEL_NOTE,
        }
    )
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
