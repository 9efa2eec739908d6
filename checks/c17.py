"""C17: layered settings"""
import os
import random

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.common import check_json_stream, check_margo_stream, margo_json_files

ASSUMPTIONS = ["ini files are syntactically valid, hold no [DEFAULT] section and no invalid values"]
KEYS = {"MARGO": ["HCA", "LOCK_TIME"], "JSON": ["ENABLE_PRETTY_VIEW", "ENABLE_HDR_DATA", "ENABLE_AUX_DATA"], "TIME": ["GPS2UTC"], "LITERALS": [f"R{i}" for i in range(1, 25)]}
FLAT = [(s, k) for s, ks in KEYS.items() for k in ks]
BOOL = {"HCA", "LOCK_TIME", "ENABLE_PRETTY_VIEW", "ENABLE_HDR_DATA", "ENABLE_AUX_DATA"}


def write_ini(rng, vals, extra=True):
    """text of an ini file with the given {section: {key: value}}"""
    out = []
    if extra and rng.random() < 0.3:
        out.append(rng.choice(("# comment", "; comment", "")))
    secs = list(vals)
    rng.shuffle(secs)
    for s in secs:
        out.append(f"[{s}]")
        ks = list(vals[s])
        rng.shuffle(ks)
        for k in ks:
            v = vals[s][k]
            if k in BOOL:
                v = rng.choice(("true", "yes", "on", "1", "True", "TRUE", "Yes", "ON") if v else ("false", "no", "off", "0", "False", "FALSE", "No", "OFF"))
            k = rng.choice((k, k, k.lower(), k.upper(), k.capitalize() if k[0] != "R" or k in BOOL else k))
            sep = rng.choice((" : ", "=", " = ", ":", "  =  ", ": "))
            out.append(f"{k}{sep}{v}")
            if extra and rng.random() < 0.1:
                out.append(rng.choice(("# HCA = true", "; R1 : 3", "")))
        if extra and s != "LITERALS" and rng.random() < 0.2:
            out.append("UNKNOWN_KEY = 5")
    if extra and rng.random() < 0.2:
        out += ["[OTHER]", "HCA = true", "R1 = 99", "GPS2UTC = 3"]
    return "\n".join(out) + rng.choice(("\n", "", "\n\n"))


def nest(pairs):
    d = {}
    for s, k, v in pairs:
        d.setdefault(s, {})[k] = v
    return d


def ctl_from(v):
    c = {k: x for s, ks in v.items() for k, x in ks.items() if s != "LITERALS"}
    c["LIT"] = [v["LITERALS"][f"R{i}"] for i in range(1, 25)]
    return c


def probe():
    """a stream on which every setting shows"""
    out = []
    for num, sats, sigs in ((1087, list(range(1, 25)), [2]), (1085, list(range(1, 25)), [8]), (1077, [1, 5, 30], [2, 16]), (1083, [2, 7], [3]), (1121, [1, 4], [2])):
        lv = R.level_of(num)
        rng = random.Random(num)
        n = len(sats) * len(sigs)
        m = {"num": num, "sats": sats, "sigs": sigs, "cells": [1] * n}
        for f, w in R.HDR_FIELDS:
            m[f] = rng.randrange(1 << w)
        m["time"] = (3 << 27) | 40000000 if R.gnss_of(num) == "R" else 123456000
        m["sat"] = {f: gen.fill(rng, "mid", len(sats), f, w, k) for f, w, k in R.SAT_FIELDS[lv]}
        m["sgn"] = {f: gen.fill(rng, "mid", n, f, w, k) for f, w, k in R.CELL_FIELDS[lv]}
        if "hc_indc" in m["sgn"]:
            m["sgn"]["hc_indc"] = [i % 2 for i in range(n)]
        out.append(m)
    out.append({"num": 1019, "raw": {f[0]: (1 << (f[1] - 1)) | 1 for f in R.EPH[1019] if f[0]}, "rsv": 0})
    return out


PROBE = probe()
PROBE_DATA = b"".join(R.msg_frame(m) for m in PROBE)


def pretty_ok(b, pretty):
    s = b.decode()
    return ("\n" in s.strip().split("}")[0] or "  " in s or "\t" in s) if pretty else ("  " not in s and "\t" not in s)


def run(case):
    d = sut.SCRATCH.new()
    try:
        return _run(case, d)
    finally:
        sut.SCRATCH.drop(d)


def _run(case, d):
    vals = {s: dict(v) for s, v in case["defaults"].items()}
    eff = {s: dict(v) for s, v in vals.items()}
    rng = random.Random(case["style"])
    lacking = [tuple(x) for x in case["lack"]]
    dropsec = set(case["dropsec"])
    shown = {s: {k: v for k, v in ks.items() if (s, k) not in lacking} for s, ks in vals.items() if s not in dropsec}
    incomplete = bool(dropsec) or bool(lacking)
    sut.write_file(os.path.join(d, "defaults.ini"), write_ini(rng, shown))
    argv = ["-o", case["fmt"]]
    if case["user"] is not None:
        user = nest(case["user"])
        for s, ks in user.items():
            eff[s].update(ks)
        if case["user_missing"]:
            eff = vals
            argv += ["-i", os.path.join(d, "absent.ini")]
        else:
            os.mkdir(os.path.join(d, "cfg"))
            p = os.path.join(d, "cfg", case["user_name"])
            sut.write_file(p, write_ini(rng, user))
            argv += ["-i", p if case["abs"] else os.path.join("cfg", case["user_name"])]
    names = case["names"]
    for n in names:
        sut.write_file(os.path.join(d, n), PROBE_DATA)
    rng.random()
    if case["ini_last"]:
        argv = [os.path.join(d, n) for n in names] + argv
    else:
        argv += [os.path.join(d, n) for n in names]
    sut.cli(argv, d)
    fmt = case["fmt"]
    for n in names:
        o = sut.cli_out(d, n, fmt)
        if incomplete:
            if o is not None and o.files:
                raise Violation(f"default settings without {sorted(dropsec) + lacking}: output produced anyway: {sorted(o.files)[:3]}")
            if o is not None and o.log is not None and "Finished" in o.log:
                raise Violation(f"default settings without {sorted(dropsec) + lacking}: the log says Finished")
            if o is None or o.log is None or ":ERROR:" not in o.log:
                raise Violation(f"default settings without {sorted(dropsec) + lacking}: the log of {n} does not report it")
            continue
        if o is None or o.log is None:
            raise Violation("no output folder or log")
        if "Finished without errors." not in o.log:
            raise Violation(f"log: {o.log[-200:]!r}")
        ctl = ctl_from(eff)
        if fmt in ("MARGO", "JARGO"):
            check_margo_stream(PROBE, o, ctl)
        if fmt == "JARGO":
            js = [m for m in PROBE if m["num"] not in R.MSM_SET]
            x = sut.Out()
            x.files = margo_json_files(o)
            check_json_stream(js, x, False, ctl)
        if fmt in ("JSON", "JSON-B"):
            check_json_stream(PROBE, o, fmt == "JSON-B", ctl)
        for p, b in o.files.items():
            if M.json_path(1019) == p.replace(os.sep, "/") and not pretty_ok(b, ctl["ENABLE_PRETTY_VIEW"]):
                raise Violation(f"pretty view {ctl['ENABLE_PRETTY_VIEW']}: {b[:80]!r}")
    lb = [fmt]
    if incomplete:
        lb += ["incomplete defaults", "nontrivial"]
    elif case["user"] and eff != vals:
        lb += ["nontrivial", "overridden"] + [f"overrides {s}" for s in {x[0] for x in case["user"]}]
    elif case["user_missing"]:
        lb.append("user file missing")
    return lb


def value(s, k):
    if k in BOOL:
        return st.booleans()
    if s == "TIME":
        return st.integers(0, 99)
    return st.one_of(st.integers(-7, 13), st.integers(-7, 13), st.integers(-25, 60))


@st.composite
def strat(draw):
    defaults = {}
    for s, k in FLAT:
        defaults.setdefault(s, {})[k] = draw(value(s, k)) if s != "LITERALS" else 0
    rng = random.Random(draw(gen.seeds))
    for k in defaults["LITERALS"]:
        defaults["LITERALS"][k] = rng.randint(-7, 13) if rng.random() < 0.8 else rng.randint(-25, 60)
    user = None
    if draw(st.integers(0, 4)):
        pick = draw(st.sets(st.sampled_from(FLAT[:6]), max_size=6)) | draw(st.sets(st.sampled_from(FLAT[6:]), max_size=4))
        if draw(st.integers(0, 8)) == 0:
            pick = set(FLAT)
        user = [[s, k, draw(value(s, k))] for s, k in sorted(pick)]
    lack, dropsec = [], []
    if draw(st.integers(0, 3)) == 0:
        if draw(st.booleans()):
            lack = [list(x) for x in sorted(draw(st.sets(st.sampled_from(FLAT), min_size=1, max_size=2)))]
        else:
            dropsec = draw(st.lists(st.sampled_from(sorted(KEYS)), min_size=1, max_size=4, unique=True))
    return {
        "defaults": defaults,
        "user": user,
        "user_missing": bool(user) and draw(st.integers(0, 9)) == 0,
        "user_name": draw(st.sampled_from(("user.ini", "addons.ini", "defaults.ini", "my settings.cfg", "u"))),
        "abs": draw(st.booleans()),
        "ini_last": draw(st.booleans()),
        "lack": lack,
        "dropsec": dropsec,
        "style": draw(gen.seeds),
        "fmt": draw(st.sampled_from(("MARGO", "MARGO", "JSON", "JSON", "JSON-B", "JARGO"))),
        "names": draw(st.sampled_from((["a.rtcm3"], ["a.rtcm3", "b.rtcm3"]))),
    }


# shipped files
def run_shipped(case):
    """the shipped defaults, alone and with the shipped add-ons"""
    d = sut.SCRATCH.new()
    try:
        with open(os.path.join(sut.REPO, "defaults.ini")) as f:
            sut.write_file(os.path.join(d, "defaults.ini"), f.read())
        sut.write_file(os.path.join(d, "a.rtcm3"), PROBE_DATA)
        argv = ["-o", case["fmt"], os.path.join(d, "a.rtcm3")]
        ctl = dict(gen.DEFAULT_CTL)
        if case["addons"]:
            with open(os.path.join(sut.REPO, "addons.ini")) as f:
                sut.write_file(os.path.join(d, "addons.ini"), f.read())
            argv += ["-i", os.path.join(d, "addons.ini")]
            ctl.update(HCA=True, LOCK_TIME=True, ENABLE_PRETTY_VIEW=False, ENABLE_HDR_DATA=False, ENABLE_AUX_DATA=False)
        sut.cli(argv, d)
        o = sut.cli_out(d, "a.rtcm3", case["fmt"])
        if o is None:
            raise Violation("no output folder")
        if case["fmt"] == "MARGO":
            check_margo_stream(PROBE, o, ctl)
        else:
            check_json_stream(PROBE, o, case["fmt"] == "JSON-B", ctl)
    finally:
        sut.SCRATCH.drop(d)
    return ["nontrivial", "shipped files"]


def strat_shipped():
    return st.fixed_dictionaries({"fmt": st.sampled_from(("MARGO", "JSON", "JSON-B")), "addons": st.booleans()})


# every single missing item of the defaults
def lacking_cases():
    base = {}
    for s, k in FLAT:
        base.setdefault(s, {})[k] = 1 if s == "LITERALS" else True if k in BOOL else 18
    common = {"defaults": base, "user_missing": False, "user_name": "user.ini", "abs": True, "ini_last": False, "style": 1, "names": ["a.rtcm3"]}
    for fmt in sut.FORMATS:
        for s, k in FLAT:
            for user in (None, [[s, k, base[s][k]]]):
                yield dict(common, fmt=fmt, lack=[[s, k]], dropsec=[], user=user)
        for s in KEYS:
            for user in (None, [[s, k, base[s][k]] for k in KEYS[s]]):
                yield dict(common, fmt=fmt, lack=[], dropsec=[s], user=user)


def overriding_cases():
    base = {}
    for s, k in FLAT:
        base.setdefault(s, {})[k] = 1 if s == "LITERALS" else False if k in BOOL else 18
    common = {"defaults": base, "user_missing": False, "user_name": "user.ini", "abs": True, "ini_last": False, "style": 2, "names": ["a.rtcm3"], "lack": [], "dropsec": []}
    for fmt in sut.FORMATS:
        for s, k in FLAT:
            yield dict(common, fmt=fmt, user=[[s, k, -3 if s == "LITERALS" else True if k in BOOL else 7]])


from vlib.runner import Enum  # noqa: E402

TECHNIQUE = "model of layered settings over generated pairs of ini files, with enumeration of every missing and every overridden key"
NOTE = "Effective settings are observed through the converted probe stream. Invalid values and [DEFAULT] sections are outside the property."
SUBS = [
    Sub("layers", strat, run, (2400, 60000), "random defaults.ini and user ini in any ini dialect; non-trivial: an override changes something or the defaults are incomplete"),
    Enum("lacking", lacking_cases, run, "each single key or section missing in the defaults, with and without the user file supplying it; all non-trivial"),
    Enum("overriding", overriding_cases, run, "each single key overridden; all non-trivial"),
    Sub("shipped", strat_shipped, run_shipped, (8, 8), "shipped ini files; all non-trivial"),
]
