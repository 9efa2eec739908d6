"""Writes /verif/MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from vlib.runner import Fuzz  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(here, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not written yet"})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append(
        {
            "property": i,
            "quick_cmd": f"python3-vt check.py {i} --tier quick",
            "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "property-based testing: " + m.TECHNIQUE + ("; coverage-guided fuzzing against the same oracle" if any(isinstance(s, Fuzz) for s in m.SUBS) else ""),
            "level": getattr(m, "LEVEL", "exploration"),
            "level_note": "Generated-input search with shrinking; no violation found on the generated cases of this run. " + m.NOTE,
        }
    )
json.dump(
    {
        "version": 1,
        "setup_cmd": "python3-vt check.py --selftest",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo. Checks import /repo's working tree directly (pure Python, nothing to build), with byte-code caching off. "
        "Seeds follow VERIF_SEED. Repaired defects are listed in KNOWN_FINDINGS.md; no known finding is open.",
    },
    open(os.path.join(here, "MANIFEST.json"), "w"),
    indent=1,
)
print(len(checks), "checks,", len(na), "not claimed")
