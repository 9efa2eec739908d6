"""C05: bare MSM output reproduces every transmitted field"""
from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.runner import Fuzz, Sub
from checks.common import check_json_stream

ASSUMPTIONS = ["the independent encoder follows RTCM 10403.3 field order and widths (validated against the recorded files of the repository)"]


def labels_of(msgs):
    lb = []
    for m in msgs:
        if m["num"] in R.MSM_SET:
            lb.append(f"MSM{R.level_of(m['num'])}")
            lb.append(f"gnss {R.gnss_of(m['num'])}")
            n = sum(m["cells"])
            if n == 0:
                lb.append("empty message")
            if n >= 2 and len(m["sats"]) >= 2:
                lb.append("nontrivial")
            if n == 64:
                lb.append("64 cells")
    return lb


def run(case):
    msgs = case["msgs"]
    o = sut.run("JSON-B", b"".join(R.msg_frame(m) for m in msgs), case["ctl"], case["via"])
    check_json_stream(msgs, o, True, case["ctl"])
    return labels_of(msgs)


def strategy():
    return st.fixed_dictionaries(
        {
            "msgs": gen.sequence(gen.msm(known=False), 1, 4),
            "ctl": st.fixed_dictionaries({"ENABLE_PRETTY_VIEW": st.booleans()}),
            "via": st.sampled_from(("api", "api", "api", "cli")),
        }
    )


def strategy_small():
    return st.fixed_dictionaries({"msgs": gen.sequence(gen.msm(known=False, small=True), 1, 2), "ctl": st.just({}), "via": st.just("api")})


TECHNIQUE = "round trip against an independent bit-level MSM encoder"
NOTE = "Trusts the encoder's transcription of the RTCM 10403 layout."
SUBS = [
    Sub("sequences", strategy, run, (10000, 250000), "sequences of 1..6 well-formed MSM1..7 messages of all constellations; non-trivial: a message with at least 2 satellites and 2 cells"),
    Sub("small", strategy_small, run, (10000, 200000), "short sequences of small messages; non-trivial as above"),
]
SUBS.append(Fuzz(SUBS[1], "msgs", (40000, 4000000), most=1, counters=0))
