#!/usr/bin/env python3
"""check.py C05 [--tier quick|thorough] [--replay FILE] [--only SUBCHECK]"""
import argparse
import os
import sys

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--selftest", action="store_true")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--replay")
ap.add_argument("--only")
ap.add_argument("--workers", type=int, default=8)
a = ap.parse_args()
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ.pop("PYTHONPYCACHEPREFIX", None)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import runner  # noqa: E402

if a.selftest:  # setup: the tools the checks need are here
    import hypothesis  # noqa: F401
    from vlib import rtcm

    assert rtcm.crc24q(bytes.fromhex("d300133ed7d30202980edeef34b4bd62ac0941986f33")) == 0x360B98
    print("ready: hypothesis", hypothesis.__version__)
    sys.exit(0)
if not a.property:
    ap.error("property missing")
if a.replay:
    sys.exit(runner.replay(os.path.abspath(a.replay)))
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
sys.exit(runner.run_property(a.property, a.tier, seed, a.only, a.workers))
