"""C14: MARGO time marks are GPS time of week"""
import random

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub


def minimal(num, time, sig, sat=1):
    lv = R.level_of(num)
    m = {"num": num, "sats": [sat], "sigs": [sig], "cells": [1], "sat": {}, "sgn": {}}
    for n, w in R.HDR_FIELDS:
        m[n] = 0
    m["time"] = time
    m["sat"] = {n: [1] for n, _, _ in R.SAT_FIELDS[lv]}
    m["sgn"] = {n: [0] for n, _, _ in R.CELL_FIELDS[lv]}
    return m


def first_column(o):
    out = {}
    for p, b in o.files.items():
        if p.startswith(("EPH", "BASE")):
            continue
        rows = M.parse_margo(b.decode(), p)[2:]
        for r in rows:
            t = int(r[0])
            if not 0 <= t < M.WEEK:
                raise Violation(f"{p}: time mark {t} is outside of the week")
        out[p] = [int(r[0]) for r in rows]
    return out


def run(case):
    msgs = [minimal(n, t, sorted(R.SIGNALS[R.gnss_of(n)])[0], 1) for n, t in case["epochs"]]
    data = b"".join(R.msg_frame(m) for m in msgs)
    ctl = {"GPS2UTC": case["shift"], "LOCK_TIME": True, "HCA": True}
    o = sut.run(case["fmt"], data, ctl, case["via"])
    got = first_column(o)
    exp = {}
    for p, e in M.margo(msgs, True, True, case["shift"]).items():
        exp[p] = [t for t, _ in e["rows"]]
    if exp != got:
        for p in sorted(set(exp) | set(got)):
            if exp.get(p) != got.get(p):
                raise Violation(f"{p}: time marks {got.get(p)}, expected {exp.get(p)} (GPS2UTC {case['shift']})")
    lb = ["nontrivial"]
    for m in msgs:
        t, d = M.msm_time(m)
        g = R.gnss_of(m["num"])
        lb.append(f"gnss {g}")
        if M.gps_time(m, case["shift"]) != t and g == "B" and t + 14000 >= M.WEEK or g == "R" and d == 0 and t < 10800000:
            lb.append("wrap")
    return lb


@st.composite
def epoch(draw):
    num = draw(st.sampled_from(R.MSM_NUMS + [n for n in R.MSM_NUMS if R.gnss_of(n) in "RB"] * 3))
    if R.gnss_of(num) == "R":
        day = draw(st.sampled_from((0, 0, 0, 1, 2, 3, 4, 5, 6, 6)))
        tod = draw(st.one_of(gen.or_novel(st.integers(0, 86400999), 0, 86400999), st.integers(10740000, 10860000), st.sampled_from((0, 1, 10799999, 10800000, 10781999, 10782000, 10782001, 86399999, 86400000, 86400999, 10763000, 10740000))))
        return [num, (day << 27) | tod]
    t = draw(st.one_of(gen.or_novel(st.integers(0, 604799999), 0, 604799999), st.integers(604780000, 604799999), st.sampled_from((0, 1, 604799999, 604786000, 604785999, 604785998, 604786001, 604781999, 604782000, 86399999, 86400000))))
    return [num, t]


def strat():
    return st.fixed_dictionaries(
        {
            "epochs": st.lists(epoch(), min_size=1, max_size=6),
            "shift": st.one_of(st.just(18), gen.or_novel(st.integers(-60, 60), -3600, 3600), st.integers(-3600, 3600), st.sampled_from((0, 1, -1, 17, 19, 37, -18))),
            "fmt": st.sampled_from(("MARGO", "MARGO", "JARGO")),
            "via": st.sampled_from(("api", "api", "cli")),
        }
    )


def run_mono(case):
    """metamorphic: advancing the transmitted epoch by d ms advances the mark by d modulo one week"""
    n, t = case["epoch"]
    g = R.gnss_of(n)
    d = case["d"]
    if g == "R":
        day, tod = t >> 27, min(t & 0x7FFFFFF, 86399999)
        total = (day * M.DAY + tod + d) % M.WEEK
        t0, t1 = (day << 27) | tod, ((total // M.DAY) << 27) | (total % M.DAY)
    else:
        t0, t1 = t, (t + d) % M.WEEK
    sig = sorted(R.SIGNALS[g])[0]
    data = R.msg_frame(minimal(n, t0, sig)) + R.msg_frame(minimal(n, t1, sig))
    o = sut.run("MARGO", data, {"GPS2UTC": case["shift"]}, "api")
    for p, ts in first_column(o).items():
        if len(ts) != 2 or (ts[1] - ts[0] - d) % M.WEEK:
            raise Violation(f"{p}: marks {ts} for epochs {d} ms apart")
    return ["nontrivial"]


def strat_mono():
    return st.fixed_dictionaries({"epoch": epoch(), "d": st.one_of(st.integers(0, M.WEEK - 1), st.integers(0, 30000), st.just(M.DAY)), "shift": st.integers(-600, 600)})


TECHNIQUE = "reference model of the time conversion over generated epochs and settings, with enumeration of boundary epochs"
NOTE = "GLONASS day 7 and epochs beyond the week are unconstrained."
SUBS = [
    Sub("epochs", strat, run, (9000, 250000), "one-cell messages of all types at epochs concentrated around day and week boundaries; all non-trivial"),
    Sub("difference", strat_mono, run_mono, (5000, 150000), "two epochs a given time apart; all non-trivial"),
]
