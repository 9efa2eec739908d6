"""C07: scaled MSM1..3 observables"""
from vlib import rtcm as R
from vlib.runner import Fuzz, Sub
from checks.c06 import mk, run

ASSUMPTIONS = ["MSM3: the phase of a cell whose code range is invalid may be reported or not"]
A, B = mk([n for n in R.MSM_NUMS if R.level_of(n) <= 3])
TECHNIQUE = "reference model of the RTCM formulas over generated messages"
NOTE = "Trusts the model's transcription of the RTCM formulas; phase of a cell with an invalid code range is unconstrained."
SUBS = [
    Sub("sequences", A, run, (8000, 200000), "sequences of well-formed MSM1..3 messages; non-trivial: a message with at least 2 satellites and 2 cells"),
    Sub("small", B, run, (8000, 200000), "short sequences of small messages; non-trivial as above"),
]
SUBS.append(Fuzz(SUBS[1], "msgs", (40000, 4000000), most=1, counters=0))
