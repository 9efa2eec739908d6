"""C15: MARGO phase and Doppler use each satellite's own carrier"""
from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.common import check_margo_stream, ctl_of, json_array

NUMS = [n for n in R.MSM_NUMS if R.level_of(n) != 1]
C = 299.792458  # m * MHz


def run(case):
    msgs = case["msgs"]
    data = b"".join(R.msg_frame(m) for m in msgs)
    ctl = dict(case["ctl"], HCA=True)
    lit = gen.lits(ctl_of(ctl))
    o = sut.run(case["fmt"], data, ctl, case["via"])
    j = sut.run("JSON", data, ctl, "api")
    lb = []
    # rows of each table in arrival order
    nxt = {}
    pos = {}
    for m in msgs:
        num = m["num"]
        g, lv = R.gnss_of(num), R.level_of(num)
        recs = json_array(j, num, False)
        rec = list(recs[pos.setdefault(num, 0)].values())[0]["obs"]
        pos[num] += 1
        for kind, par in (("phs", "L"), ("dpl", "D")):
            for sig, sats in rec[kind].items():
                p = f"{M.MARGO_DIR[g]}/{g}{par}{sig}_MSM{lv}.obs"
                if p not in o.files:
                    raise Violation(f"table {p} is missing")
                rows = M.parse_margo(o.files[p].decode(), p)
                hdr = rows[1]
                k = nxt[p] = nxt.get(p, 1) + 1
                if k >= len(rows):
                    raise Violation(f"{p}: row {k - 2} is missing")
                for sat, v in sats.items():
                    s = int(sat)
                    if s > M.MARGO_COLS[g]:
                        continue
                    f = float(hdr[s])
                    fe = M.sat_carrier(g, sig, s, lit)
                    if abs(f - fe) > 6e-5:
                        raise Violation(f"{p}: carrier of satellite {s} is {f}, expected {fe}")
                    e = v * fe / C if par == "L" else -v * fe / C
                    if M.is_nan(rows[k][s]) or abs(float(rows[k][s]) - e) > 0.5 * 10 ** -M.MARGO_FRAC[par] * 1.0001 + 2e-6:
                        raise Violation(f"{p}: satellite {s}: {rows[k][s]}, expected {e} = {v} * {fe} MHz / c")
                    lb += ["nontrivial", f"gnss {g}", par]
                    if g == "R" and lit[s]:
                        lb.append("GLONASS channel")
    # headers of all tables, all satellites
    for p, b in o.files.items():
        if p.startswith(("EPH", "BASE")):
            continue
        g, sig = p.split("/")[1][0], p.split("/")[1][2:4]
        hdr = M.parse_margo(b.decode(), p)[1]
        for s in range(1, M.MARGO_COLS[g] + 1):
            if abs(float(hdr[s]) - M.sat_carrier(g, sig, s, lit)) > 6e-5:
                raise Violation(f"{p}: carrier of satellite {s} is {hdr[s]}, expected {M.sat_carrier(g, sig, s, lit)}")
    return lb


def strat():
    m = st.one_of(gen.msm(nums=NUMS, valid_time=True, margo=True), gen.msm(nums=[n for n in NUMS if R.gnss_of(n) == "R"], valid_time=True, margo=True))
    return st.fixed_dictionaries({"msgs": gen.sequence(m, 1, 3, margo=True), "ctl": gen.controls_st(), "fmt": st.sampled_from(("MARGO", "MARGO", "JARGO")), "via": st.sampled_from(("api", "api", "cli"))})


def run_signals(case):
    """every known signal of one constellation, every satellite"""
    g, lv = case["g"], case["lv"]
    num = R.GNSS_BASE[g] + lv
    sats = case["sats"]
    msgs = []
    for sig in sorted(R.SIGNALS[g]):
        for lo in range(0, len(sats), 64):
            ss = sats[lo : lo + 64]
            m = {"num": num, "sats": ss, "sigs": [sig], "cells": [1] * len(ss)}
            for n, w in R.HDR_FIELDS:
                m[n] = 0
            m["sat"] = {n: [case["v"] % (1 << (w - 1)) for _ in ss] for n, w, _ in R.SAT_FIELDS[lv]}
            m["sgn"] = {n: [case["v"] % (1 << (w - 1)) for _ in ss] for n, w, _ in R.CELL_FIELDS[lv]}
            msgs.append(m)
    o = sut.run("MARGO", b"".join(R.msg_frame(m) for m in msgs), dict(case["ctl"], HCA=True), "api")
    check_margo_stream(msgs, o, dict(case["ctl"], HCA=True))
    return ["nontrivial", f"gnss {g}"]


def strat_signals():
    return st.fixed_dictionaries(
        {
            "g": st.sampled_from("GRRRESQBI"),
            "lv": st.integers(2, 7),
            "v": st.integers(0, 1 << 20),
            "sats": st.sets(st.integers(1, 24), min_size=1).map(sorted),
            "ctl": gen.controls_st(),
        }
    )


TECHNIQUE = "differential test of MARGO against JSON output plus an independent carrier table"
NOTE = "Trusts the transcribed carrier table."
SUBS = [
    Sub("streams", strat, run, (3200, 100000), "MARGO tables against the JSON output of the same stream; non-trivial: at least one phase or Doppler value compared"),
    Sub("signals", strat_signals, run_signals, (1000, 30000), "every signal of a constellation for a set of satellites; all non-trivial"),
]
SUBS.append(Fuzz(SUBS[0], "msgs", (30000, 3000000), margo=True))
