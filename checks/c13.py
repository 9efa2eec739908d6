"""C13: MARGO tables"""
from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.runner import Fuzz, Sub
from checks.common import check_margo_stream

ASSUMPTIONS = ["satellites beyond the documented number of columns have no column", "MSM3 cells with an invalid code range carry an invalid phase (see C07)"]


def labels(msgs, ctl):
    lb = []
    for m in msgs:
        if m["num"] in R.MSM_SET:
            lb.append(f"gnss {R.gnss_of(m['num'])}")
            if 1 in m["sgn"].get("hc_indc", []):
                lb.append("half-cycle ambiguity")
            if m["sats"] and m["sats"][-1] > gen.M.MARGO_COLS[R.gnss_of(m["num"])]:
                lb.append("satellite without a column")
            if sum(m["cells"]) >= 2:
                lb.append("nontrivial")
    if ctl.get("HCA"):
        lb.append("HCA on")
    if ctl.get("LOCK_TIME"):
        lb.append("LOCK_TIME on")
    return lb


def run(case):
    data = b"".join(gen.item_frame(x) for x in case["items"])
    o = sut.run(case["fmt"], data, case["ctl"], case["via"])
    msgs = [x for x in case["items"] if "payload" not in x]
    check_margo_stream(msgs, o, case["ctl"])
    return labels(msgs, case["ctl"])


def mk(**kw):
    def strat():
        m = gen.msm(valid_time=True, margo=True, **kw)

        @st.composite
        def build(draw):
            items = draw(gen.sequence(m, 1, 4, margo=True))
            if draw(st.integers(0, 3)) == 0:
                items.insert(draw(st.integers(0, len(items))), draw(st.one_of(gen.malformed(), gen.unsupported(), gen.eph(), gen.base())))
            return items

        return st.fixed_dictionaries({"items": build(), "fmt": st.sampled_from(("MARGO", "MARGO", "MARGO", "JARGO")), "ctl": gen.controls_st(), "via": st.sampled_from(("api", "api", "cli"))})

    return strat


def run_long(case):
    """a run of epochs of several constellations"""
    msgs = []
    for i in range(case["n"]):
        for m in case["set"]:
            k = gen.tweak(m, i * 7 + m["num"], margo=True, keep_time=True) if i % 2 else dict(m)
            if R.gnss_of(k["num"]) == "R":
                k["time"] = (k["time"] & ~0x7FFFFFF) | ((k["time"] & 0x7FFFFFF) + 1000 * i) % 86400000
            else:
                k["time"] = (k["time"] + 1000 * i) % 604800000
            msgs.append(k)
    data = b"".join(R.msg_frame(m) for m in msgs)
    o = sut.run("MARGO", data, case["ctl"], "cli")
    check_margo_stream(msgs, o, case["ctl"])
    return ["nontrivial"]


def strat_long():
    return st.fixed_dictionaries(
        {"set": st.lists(gen.msm(valid_time=True, margo=True, small=True), min_size=1, max_size=4), "n": st.integers(5, 60), "ctl": gen.controls_st()}
    )


def strat_very_long():
    ns = sorted({v for v in gen.dictionary()[0] if 100 <= v <= 1300} | {100, 1000, 1025})
    ns += [v for v in gen.novel_ints(100, 1300)] * 5
    one = st.lists(gen.msm(valid_time=True, margo=True, small=True, allow_empty=False), min_size=1, max_size=1)
    return st.fixed_dictionaries({"set": one, "n": st.one_of(st.sampled_from(ns), gen.or_novel(st.integers(1300, 12000), 1300, 12000), st.integers(100, 1300)), "ctl": gen.controls_st()})


def run_wide(case):
    """many tables in one run, every one of them continued later"""
    msgs, n = [], 0
    for m in case["set"]:
        n += len(m["sigs"]) * 6
        if n > 600:
            break
        msgs.append(m)
    return run_long({"set": msgs, "n": 2, "ctl": case["ctl"]}) if n > 100 else []


def strat_wide():
    return st.fixed_dictionaries({"set": st.lists(gen.msm(valid_time=True, margo=True, allow_empty=False), min_size=6, max_size=30), "ctl": gen.controls_st()})


TECHNIQUE = "reference model of the MARGO tables over generated histories and settings"
NOTE = "Oracle: table model written from the documentation."
SUBS = [
    Sub("streams", mk(), run, (3200, 100000), "sequences of MSM1..7 of all constellations with any settings; non-trivial: a message with at least two cells"),
    Sub("small", mk(small=True), run, (4000, 120000), "the same with small messages; non-trivial as above"),
    Sub("long", strat_long, run_long, (64, 2000), "5..60 epochs of 1..4 constellations; all non-trivial"),
    Sub("very long", strat_very_long, run_long, (24, 800), "100..12000 epochs of one message; all non-trivial", shrink=False),
    Sub("wide", strat_wide, run_wide, (48, 1500), "two epochs of up to 30 message types, some 100..600 tables; non-trivial: more than 100 possible tables"),
]
SUBS.append(Fuzz(SUBS[0], "items", (30000, 3000000), margo=True))
