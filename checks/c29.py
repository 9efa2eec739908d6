"""C29: command-line options"""
import os

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Enum, Sub

ASSUMPTIONS = ["the source names of one command stand together and do not begin with a dash"]


def frames(seed):
    b = {"num": 1005, "raw": {n: 1 + seed % 4 for n, w, k in R.BASE_FIXED[1005] if n and w > 2} | {n: 0 for n, w, k in R.BASE_FIXED[1005] if n and w <= 2}, "rsv": 0}
    m = dict(num=1074, rs_id=1, time=1000 + seed, MMB=0, IODS=0, res7=0, clk_steer=0, clk_ext=0, smth_indc=0, smth_intr=0, sats=[1, 5], sigs=[2], cells=[1, 1],
             sat={"rng_ms": [70, 71], "rng_rough": [5, 6]}, sgn={"rng_fine": [1, 2], "phase_fine": [3, 4], "lock_time": [5, 6], "hc_indc": [1, 0], "c2n": [40, 41]})
    return R.msg_frame(b) + R.msg_frame(m)


def run(case):
    d = sut.SCRATCH.new()
    x = case.get("lead", "")
    try:
        srcs = []
        for i in range(case["nsrc"]):
            p = os.path.join(d, f"{x}s{i}.rtcm3")
            sut.write_file(p, frames(i))
            srcs.append(p)
        sut.write_file(os.path.join(d, "defaults.ini"), gen.ini_text({}))
        sut.write_file(os.path.join(d, "u.ini"), gen.ini_text(case["ctl"]))
        for f in sut.FORMATS:  # something worth keeping
            if case["stale"]:
                os.mkdir(os.path.join(d, x + "s0-" + f))
                sut.write_file(os.path.join(d, x + "s0-" + f, "old.txt"), b"old")
        before = sut.snapshot(d)
        argv = []
        for o in case["pre"]:
            argv += o
        argv += [p if case["abs"] else os.path.basename(p) for p in srcs]
        for o in case["post"]:
            argv += o
        cap = sut.cli([], d, local=" ".join(argv), allow_exit=True) if case["local"] else sut.cli(argv, d, allow_exit=True)
        after = sut.snapshot(d)
        if case["kind"] != "valid":
            exp = 2 if case["kind"] == "invalid" else 0
            if cap.exit is None or (cap.exit != exp):
                raise Violation(f"{case['kind']} command line {argv}: exit status {cap.exit}, expected {exp}")
            if after != before:
                ch = sorted(p for p in set(after) | set(before) if after.get(p) != before.get(p))
                raise Violation(f"{case['kind']} command line {argv}: changed {ch[:3]}")
            if not (cap.err if exp == 2 else cap.out).strip():
                raise Violation(f"{case['kind']} command line {argv}: no message")
            return ["nontrivial", case["kind"]]
        if cap.exit:
            raise Violation(f"command line {argv}: exit status {cap.exit}")
        fmt, ctl = "MARGO", {}
        for o in case["pre"] + case["post"]:
            t = " ".join(o).replace("=", " ").split(" ")
            if t[0].startswith("--o") or t[0] == "-o":
                fmt = t[-1]
            elif t[0].startswith("-o"):
                fmt = t[0][2:]
            elif "u.ini" in t[-1]:
                ctl = case["ctl"]
        for i in range(case["nsrc"]):
            exp = sut.convert(fmt, frames(i), ctl).files
            o = sut.cli_out(d, f"{x}s{i}.rtcm3", fmt)
            if o is None:
                raise Violation(f"command line {argv}: s{i} was not converted to {fmt}")
            if o.files != exp:
                bad = sorted(p for p in set(exp) | set(o.files) if exp.get(p) != o.files.get(p))
                raise Violation(f"command line {argv}: output of s{i} differs from format {fmt} with settings {ctl}: {bad[:3]}")
        for p in after:
            top = p.split(os.sep)[0]
            if before.get(p) != after[p] and not any(top == f"{x}s{i}-{fmt}" for i in range(case["nsrc"])):
                raise Violation(f"command line {argv}: changed {p}")
        lb = ["valid", fmt]
        if case["pre"] or case["post"]:
            lb.append("nontrivial")
        return lb
    finally:
        sut.SCRATCH.drop(d)


def spell(draw, names, value):
    short, long_ = names
    k = draw(st.integers(0, 3))
    return [[short, value], [long_, value], [f"{long_}={value}"], [short + value]][k]


@st.composite
def strat(draw):
    kind = draw(st.sampled_from(("valid", "valid", "valid", "invalid", "info")))
    opts = []
    for _ in range(draw(st.integers(0, 2))):
        opts.append(spell(draw, ("-o", "--output"), draw(st.sampled_from(sut.FORMATS))))
    if draw(st.booleans()):
        opts.append(spell(draw, ("-i", "--ini"), "u.ini"))
    if draw(st.integers(0, 3)) == 0:
        opts.append(["-ext", draw(st.sampled_from(("rtcm3", "bin")))])
    opts = draw(st.permutations(opts))
    cut = draw(st.integers(0, len(opts)))
    pre, post = opts[:cut], opts[cut:]
    n = draw(st.integers(1, 2))
    if kind == "invalid":
        k = draw(st.integers(0, 3))
        if k == 0:
            bad = ["-o", draw(st.sampled_from(("XML", "json", "Margo", "JSON-C", "JSONB", "ALL", "jargo", "MARGO,JSON", "0", "MARG", "JSO", "JSON-", "-B", "JSON-b", "JSONJSON", "M", "ARGO", "JSON_B", "RINEX", "None")))]
        elif k == 1:
            bad = draw(st.one_of(
                st.sampled_from((["--format", "JSON"], ["--verbose"], ["--pretty"], ["--outputs", "JSON"], ["--ini-file", "u.ini"], ["--extension", "bin"])),
                st.sampled_from("abcdfgjklmnpqrstuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ").map(lambda c: ["-" + c]),
                st.text("abcdfgjklmnpqrstuwxyz", min_size=2, max_size=6).map(lambda w: ["--" + w]),
            ))
            bad = bad + draw(st.sampled_from(([], ["5"], ["JSON"], ["s0.rtcm3"]))) if len(bad) == 1 else bad
        elif k == 2:
            bad = [draw(st.sampled_from(("-o", "--output", "-i", "--ini", "-ext")))]
        else:
            n, bad = 0, []
        if k == 2:
            post = post + [bad]
        elif k < 2:
            if draw(st.booleans()):
                pre = [bad] + pre
            else:
                post = post + [bad]
    elif kind == "info":
        o = [draw(st.sampled_from(("-h", "--help", "-v", "--version")))]
        if draw(st.booleans()):
            pre = [o] + pre
        else:
            post = post + [o]
        n = draw(st.integers(0, 2))
    ctl = draw(st.sampled_from(({"HCA": True}, {"ENABLE_PRETTY_VIEW": True}, {"ENABLE_HDR_DATA": False, "LOCK_TIME": True}, {"ENABLE_AUX_DATA": False, "HCA": True})))
    return {"kind": kind, "pre": pre, "post": post, "nsrc": n, "ctl": ctl, "lead": draw(st.sampled_from(("", "", "", "", "+", "@", "+o", "#", "%", "=", "~", ":", "++", "[1]", "*", "$HOME"))), "stale": draw(st.booleans()) and n > 0, "abs": draw(st.booleans()), "local": draw(st.integers(0, 3)) == 0 and bool(n or pre or post)}


def enum_cases():
    """every unknown single-letter option with and without a value, at either end"""
    for c in "abcdfgjklmnpqrstuwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_?":
        for val in ([], ["5"], ["JSON"]):
            for pre in (True, False):
                bad = ["-" + c] + val
                yield {"kind": "invalid", "pre": [bad] if pre else [], "post": [] if pre else [bad], "nsrc": 2, "ctl": {}, "stale": True, "abs": False, "local": False}


TECHNIQUE = "generated argument vectors (grammar of valid, invalid and informational forms); oracle: documented exit status, untouched directory snapshot, API conversion with the same settings"
NOTE = "main() is called with the argument vector inside a scratch directory."
SUBS = [
    Enum("unknown letters", enum_cases, run, "every unknown single-letter option; all non-trivial"),
    Sub("argument vectors", strat, run, (6000, 200000), "valid, invalid and informational command lines, options before and after the sources in every spelling; non-trivial: at least one option or a refused command"),
]
