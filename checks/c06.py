"""C06: scaled MSM4..7 observables"""
from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.runner import Fuzz, Sub
from checks.common import check_json_stream
from checks.c05 import labels_of

NUMS = [n for n in R.MSM_NUMS if R.level_of(n) >= 4]
ASSUMPTIONS = ["signal tables limited to the signals the converter documents", "lock-time codes above 704 (reserved) mean no lock: 0 ms"]


def run(case):
    msgs = case["msgs"]
    o = sut.run("JSON", b"".join(R.msg_frame(m) for m in msgs), case["ctl"], case["via"])
    check_json_stream(msgs, o, False, case["ctl"])
    lb = labels_of(msgs)
    for m in msgs:
        for f, w, _ in R.CELL_FIELDS[R.level_of(m["num"])] + R.SAT_FIELDS[R.level_of(m["num"])]:
            inv = gen.M.INVALID.get((f, w))
            if inv is not None and inv in (m["sgn"].get(f, []) + m["sat"].get(f, [])):
                lb.append(f"invalid {f}")
    return lb


def mk(nums):
    def strategy():
        return st.fixed_dictionaries(
            {
                "msgs": gen.sequence(gen.msm(nums=nums), 1, 4),
                "ctl": st.fixed_dictionaries({"ENABLE_PRETTY_VIEW": st.booleans()}),
                "via": st.sampled_from(("api", "api", "api", "cli")),
            }
        )

    def small():
        return st.fixed_dictionaries({"msgs": gen.sequence(gen.msm(nums=nums, small=True), 1, 2), "ctl": st.just({}), "via": st.just("api")})

    return strategy, small


A, B = mk(NUMS)
TECHNIQUE = "reference model of the RTCM formulas over generated messages"
NOTE = "Trusts the model's transcription of the RTCM formulas; reserved lock-time codes mean 0 ms."
SUBS = [
    Sub("sequences", A, run, (8000, 200000), "sequences of well-formed MSM4..7 messages; non-trivial: a message with at least 2 satellites and 2 cells"),
    Sub("small", B, run, (8000, 200000), "short sequences of small messages; non-trivial as above"),
]
SUBS.append(Fuzz(SUBS[1], "msgs", (40000, 4000000), most=1, counters=0))
