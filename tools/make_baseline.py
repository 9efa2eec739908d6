"""writes vlib/baseline.json: the literals of /repo's committed sources (see gen.novel)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import gen  # noqa: E402

with open(os.path.join(HERE, "vlib", "baseline.json"), "w", encoding="utf-8") as f:
    json.dump(gen.literals("/repo"), f, indent=0, sort_keys=True)
