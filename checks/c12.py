"""C12: JSON output structure"""
import json
import os
import re

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.common import by_number, check_json_files, check_json_stream, json_array


def good(items):
    return [x for x in items if "payload" not in x]


def check_layout(o, ctl, nums):
    """without pretty view every record is one line of its own, with it records are spread over indented lines"""
    for num in nums:
        p = M.json_path(num)
        text = next(b for q, b in o.files.items() if q.replace(os.sep, "/") == p).decode("utf-8")
        want = o.json(path=p)
        lines = [x for x in re.split(r"[\r\n]+", text) if x.strip(" \t,[]")]
        if ctl["ENABLE_PRETTY_VIEW"]:
            if len(want) > 1 and (len(lines) < 3 * (len(want) - 1) or not any(x.startswith((" ", "\t")) for x in lines)):
                raise Violation(f"{p}: {len(want) - 1} records on {len(lines)} lines with pretty view on")
            continue
        try:
            got = [json.loads(x.strip(" \t,")) for x in lines]
        except ValueError:
            raise Violation(f"{p}: a record is broken over lines with pretty view off") from None
        if got != want:
            raise Violation(f"{p}: {len(want)} elements on {len(lines)} lines with pretty view off")


def run(case):
    items = case["items"]
    data = b"".join(gen.item_frame(x) for x in items)
    bare = case["fmt"] == "JSON-B"
    o = sut.run(case["fmt"], data, case["ctl"], case["via"])
    check_json_stream(good(items), o, bare, case["ctl"])
    lb = [case["fmt"]]
    g = by_number(good(items))
    check_layout(o, case["ctl"], g)
    if len(g) > 1 and max(map(len, g.values())) > 1:
        lb.append("nontrivial")
    if any("bad" in x and x["num"] not in g for x in items):
        lb.append("number seen only malformed")
    return lb


def json_ctl():
    return st.fixed_dictionaries({k: st.booleans() for k in ("ENABLE_PRETTY_VIEW", "ENABLE_HDR_DATA", "ENABLE_AUX_DATA")})


def strat():
    good_ = st.one_of(gen.msm(small=True), gen.msm(small=True), gen.eph(), gen.base())

    @st.composite
    def build(draw):
        items = draw(gen.sequence(good_, 1, 6))
        for b in draw(st.lists(st.one_of(gen.malformed(), gen.unsupported()), max_size=2)):
            items.insert(draw(st.integers(0, len(items))), b)
        return items

    return st.fixed_dictionaries({"items": build(), "fmt": st.sampled_from(("JSON", "JSON-B")), "ctl": json_ctl(), "via": st.sampled_from(("api", "api", "cli"))})


def strip(rec, num, hdr, aux):
    if num in R.MSM_SET:
        return {k: {p: v for p, v in b.items() if (p != "hdr" or hdr) and (p != "aux" or aux)} for k, b in rec.items()}
    return rec


def run_switches(case):
    """two settings of the switches: only the announced parts differ"""
    msgs = case["msgs"]
    data = b"".join(R.msg_frame(m) for m in msgs)
    bare = case["fmt"] == "JSON-B"
    full = {"ENABLE_PRETTY_VIEW": True, "ENABLE_HDR_DATA": True, "ENABLE_AUX_DATA": True}
    a = sut.run(case["fmt"], data, full, "api")
    c = case["ctl"]
    b = sut.run(case["fmt"], data, c, case["via"])
    if set(a.files) != set(b.files):
        raise Violation(f"files depend on the switches: {sorted(set(a.files) ^ set(b.files))}")
    check_layout(b, c, by_number(msgs))
    for num in by_number(msgs):
        ra = [strip(r, num, c["ENABLE_HDR_DATA"], c["ENABLE_AUX_DATA"]) for r in json_array(a, num, bare)]
        rb = json_array(b, num, bare)
        # byte-exact values: compare canonical serialisations
        if [json.dumps(r, sort_keys=True) for r in ra] != [json.dumps(r, sort_keys=True) for r in rb]:
            raise Violation(f"{num}: data depend on the switches {c}")
    return ["nontrivial"] if c != full else []


def strat_switches():
    return st.fixed_dictionaries(
        {"msgs": gen.sequence(st.one_of(gen.msm(), gen.eph(), gen.base()), 1, 4), "fmt": st.sampled_from(("JSON", "JSON-B")), "ctl": json_ctl(), "via": st.sampled_from(("api", "cli"))}
    )


def run_all_numbers(case):
    """all 64 message numbers open at the same time, several rounds, interleaved"""
    import random

    rng = random.Random(case["seed"])
    msgs = []
    for r in range(case["rounds"]):
        ms = [dict(m) for m in case["set"]]
        rng.shuffle(ms)
        msgs += ms
    data = b"".join(R.msg_frame(m) for m in msgs)
    o = sut.run(case["fmt"], data, case["ctl"], case["via"])
    check_json_stream(msgs, o, case["fmt"] == "JSON-B", case["ctl"])
    return ["nontrivial"]


@st.composite
def strat_all(draw):
    nums = draw(st.sampled_from((R.ALL_NUMS, R.MSM_NUMS, R.EPH_NUMS + R.BASE_NUMS)))
    ms = []
    for n in nums:
        if n in R.MSM_SET:
            ms.append(draw(gen.msm(nums=[n], small=True)))
        elif n in R.EPH:
            ms.append(draw(gen.eph([n])))
        else:
            ms.append(draw(gen.base([n])))
    return {"set": ms, "rounds": draw(st.integers(1, 3)), "seed": draw(gen.seeds), "fmt": draw(st.sampled_from(("JSON", "JSON-B"))), "ctl": draw(json_ctl()), "via": draw(st.sampled_from(("api", "cli")))}


def run_long(case):
    """many messages of one number"""
    n = case["n"]
    msgs = [gen.tweak(case["msg"], i) if i % 3 == 0 else case["msg"] for i in range(n)]
    data = b"".join(R.msg_frame(m) for m in msgs)
    o = sut.run(case["fmt"], data, case["ctl"], "cli")
    check_json_stream(msgs, o, case["fmt"] == "JSON-B", case["ctl"])
    return ["nontrivial"]


def strat_long():
    ns = sorted({v for v in gen.dictionary()[0] if 40 <= v <= 1300} | {100, 257})
    ns += [v for v in gen.novel_ints(40, 1300)] * 5
    return st.fixed_dictionaries(
        {"msg": st.one_of(gen.msm(small=True), gen.eph(), gen.base()), "n": st.one_of(st.integers(50, 300), st.sampled_from(ns)), "fmt": st.sampled_from(("JSON", "JSON-B")), "ctl": json_ctl()}
    )


def strat_very_long():
    return st.fixed_dictionaries(
        {"msg": gen.base(nums=[1005, 1006, 1230]), "n": gen.or_novel(st.integers(4000, 34000), 1300, 34000), "fmt": st.sampled_from(("JSON", "JSON-B")), "ctl": json_ctl()}
    )


TECHNIQUE = "reference model of the JSON tree over generated histories and settings"
NOTE = "Oracle: record model of C05-C09 plus file naming."
SUBS = [
    Sub("streams", strat, run, (6000, 150000), "well-formed, malformed and unsupported messages with any setting of the switches; non-trivial: several numbers, one of them repeated"),
    Sub("switches", strat_switches, run_switches, (3000, 80000), "the same stream under two settings; non-trivial: settings differ"),
    Sub("all numbers", strat_all, run_all_numbers, (64, 2000), "all message numbers interleaved; all non-trivial"),
    Sub("long", strat_long, run_long, (64, 2000), "50..1300 messages of one number; all non-trivial"),
    Sub("very long", strat_very_long, run_long, (8, 200), "4000..34000 messages of one number; all non-trivial", shrink=False),
]
SUBS.append(Fuzz(SUBS[0], "items", (30000, 3000000)))
