"""C09: base-station messages, bare and scaled"""
from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.runner import Fuzz, Sub
from checks.common import check_json_stream

ASSUMPTIONS = ["strings are valid UTF-8 (the converter documents decoded UTF-8 text)", "message numbers announced in one 1013 message are distinct (the record is keyed by them)"]


def run(case):
    msgs = case["msgs"]
    data = b"".join(R.msg_frame(m) for m in msgs)
    for fmt in case["fmts"]:
        o = sut.run(fmt, data, case["ctl"], case["via"])
        check_json_stream(msgs, o, fmt == "JSON-B", case["ctl"], fmt + ": ")
    lb = [f"msg {m['num']}" for m in msgs] + case["fmts"]
    for m in msgs:
        if "str" in m and "" in m["str"].values() or m.get("text") == "":
            lb.append("empty string")
        if m.get("items") or m.get("mask") or m.get("text") or any(m.get("str", {}).values()) or any(m.get("raw", {}).values()):
            lb.append("nontrivial")
    return lb


def strategy():
    return st.fixed_dictionaries(
        {
            "msgs": gen.sequence(gen.base(), 1, 5),
            "fmts": st.sampled_from((["JSON", "JSON-B"], ["JSON"], ["JSON-B"])),
            "ctl": st.fixed_dictionaries({"ENABLE_PRETTY_VIEW": st.booleans(), "ENABLE_HDR_DATA": st.booleans(), "ENABLE_AUX_DATA": st.booleans()}),
            "via": st.sampled_from(("api", "api", "api", "cli")),
        }
    )


TECHNIQUE = "round trip against an independent base-station message encoder"
NOTE = "Trusts the encoder's transcription of the layout and resolutions; strings that are not UTF-8 are excluded from scaled output."
SUBS = [Sub("sequences", strategy, run, (12000, 300000), "sequences of base-station messages; non-trivial: a message with non-empty variable content or non-zero fields")]
SUBS.append(Fuzz(SUBS[0], "msgs", (40000, 4000000), most=1, counters=0))
