"""C08: ephemeris messages, bare and scaled"""
from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.runner import Fuzz, Sub
from checks.common import check_json_stream


def run(case):
    msgs = case["msgs"]
    data = b"".join(R.msg_frame(m) for m in msgs)
    for fmt in case["fmts"]:
        o = sut.run(fmt, data, case["ctl"], case["via"])
        check_json_stream(msgs, o, fmt == "JSON-B", case["ctl"], fmt + ": ")
    lb = [f"msg {m['num']}" for m in msgs] + case["fmts"]
    if any(any(m["raw"].values()) for m in msgs if "raw" in m):
        lb.append("nontrivial")
    return lb


def strategy():
    return st.fixed_dictionaries(
        {
            "msgs": gen.sequence(gen.eph(), 1, 5),
            "fmts": st.sampled_from((["JSON", "JSON-B"], ["JSON"], ["JSON-B"])),
            "ctl": st.fixed_dictionaries({"ENABLE_PRETTY_VIEW": st.booleans(), "ENABLE_HDR_DATA": st.booleans(), "ENABLE_AUX_DATA": st.booleans()}),
            "via": st.sampled_from(("api", "api", "api", "cli")),
        }
    )


TECHNIQUE = "round trip against an independent ephemeris encoder"
NOTE = "Trusts the encoder's transcription of the layout and resolutions."
SUBS = [Sub("sequences", strategy, run, (12000, 300000), "sequences of ephemeris messages with boundary-heavy contents; non-trivial: at least one field is not zero")]
SUBS.append(Fuzz(SUBS[0], "msgs", (40000, 4000000), most=1, counters=0))
