"""C27: classification of message numbers and signals, prediction of output paths"""
import os

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Enum, Sub

LEG = {1001: "G", 1002: "G", 1003: "G", 1004: "G", 1009: "R", 1010: "R", 1011: "R", 1012: "R"}
EPHG = {1019: "G", 1020: "R", 1041: "I", 1042: "B", 1044: "Q", 1045: "E", 1046: "E"}


def classes(num):
    """-> (legacy, ephemeris, MSM) expectation"""
    n = ("", "")
    leg = (LEG[num], f"LEG{(num - 1001) % 8 + 1}") if num in LEG else n
    eph = (EPHG[num], "EPH") if num in EPHG else n
    msm = (R.gnss_of(num), f"MSM{R.level_of(num)}") if num in R.MSM_SET else n
    return leg, eph, msm


def ask(what, f, *a):
    try:
        return f(*a)
    except Exception as ex:
        raise Violation(f"{what}{a} raised {type(ex).__name__}: {ex}") from ex


def run_num(num):
    U = sut.mods["utilities"]
    leg, eph, msm = classes(num)
    whole = max(leg, eph, msm)
    for what, f, exp in (("getSubset", U.getSubset, whole), ("legacy_subset", U.LEGT.legacy_subset, leg), ("eph_subset", U.EPHT.eph_subset, eph), ("msm_subset", U.MSMT.msm_subset, msm)):
        got = ask(what, f, num)
        if tuple(got) != exp:
            raise Violation(f"{what}({num}) is {got!r}, expected {exp!r}")
    return ["nontrivial"] if whole[0] else []


def run_sig(case):
    T = sut.mods["utilities"].MSMT
    g, code = case
    exp = R.SIGNALS.get(g, {}).get(code)
    got = ask("rnx_lit", T.rnx_lit, g, code)
    if (got or None) != exp:
        raise Violation(f"rnx_lit({g!r}, {code}) is {got!r}, expected {exp!r}")
    if exp is None:
        return []
    f = ask("crr_frq", T.crr_frq, g, got)
    if abs(f - R.carrier(g, exp)) > 1e-9:
        raise Violation(f"carrier of {g}{got} is {f} MHz, expected {R.carrier(g, exp)}")
    return ["nontrivial"]


def run_path(case):
    P = sut.mods["printers"].PrintJSON
    d = sut.SCRATCH.new()
    try:
        src = os.path.join(d, case["dir"], case["name"])
        os.makedirs(os.path.dirname(src), exist_ok=True)
        sut.write_file(src, R.frame(b"\xff\xf0" + bytes(4)) if case["msg"] is None else gen.item_frame(case["msg"]))
        num = case["msg"]["num"] if case["msg"] else case["num"]
        fmt = case["fmt"]
        cwd = os.path.join(d, "cwd")
        os.makedirs(cwd, exist_ok=True)
        sut.write_file(os.path.join(cwd, "defaults.ini"), gen.ini_text({}))
        sut.cli(["-o", fmt, src], cwd)
        with sut.no_raise("make_opath "):
            ofile, odir, olog = P.make_opath(src, num, fmt)
        if not os.path.isdir(odir):
            raise Violation(f"the output folder of {case['name']!r} is predicted as {os.path.relpath(odir, d)!r}, which does not exist")
        if not os.path.isfile(olog):
            raise Violation(f"the log of {case['name']!r} is predicted as {os.path.relpath(olog, d)!r}, which does not exist")
        files = {os.path.join(odir, p) for p in sut.read_tree(odir)} - {olog}
        if case["msg"]:
            if files != {os.path.normpath(ofile)} and files != {ofile}:
                raise Violation(f"message {num}: the output is predicted as {os.path.relpath(ofile, odir)!r}, written were {sorted(os.path.relpath(p, odir) for p in files)}")
            exp = os.path.join(odir, *M.json_path(num).split("/"))
            if os.path.normpath(ofile) != os.path.normpath(exp):
                raise Violation(f"message {num} goes to {ofile}, documented is {exp}")
            return ["nontrivial"]
        if os.path.normpath(ofile) != os.path.normpath(os.path.join(odir, "UNDEF", f"msg{num}.json")):
            raise Violation(f"unsupported message {num}: predicted output {os.path.relpath(ofile, odir)!r}")
        return ["unsupported"]
    finally:
        sut.SCRATCH.drop(d)


def run_predict(case):
    """prediction alone, for sources in places no check may write to (root folder, missing folders, relative paths)"""
    src, num, fmt = os.path.join(case["dir"], case["name"]), case["num"], case["fmt"]
    with sut.quiet(), sut.guarded(), sut.no_raise("make_opath "):
        got = sut.mods["printers"].PrintJSON.make_opath(src, num, fmt)
    stem = os.path.splitext(src)[0]
    odir = stem + "-" + fmt
    tail = M.json_path(num) if num in SUPPORTED else f"UNDEF/msg{num}.json"
    for what, g, e in zip(("output file", "output folder", "log"), got, (os.path.join(odir, tail), odir, os.path.join(odir, os.path.basename(stem) + "-log.txt"))):
        if os.path.normpath(g) != os.path.normpath(e):
            raise Violation(f"{what} of {src!r}, message {num}, {fmt}: predicted {g!r}, documented {e!r}")
    return ["nontrivial"]


@st.composite
def s_predict(draw):
    dirs = st.sampled_from(("/", "//", "", ".", "..", "/a", "/a.b/c", "/nowhere/x-JSON", "a/b", "a.b", "../x y", "/ünï"))
    num = draw(st.one_of(st.sampled_from(sorted(SUPPORTED)), st.integers(1, 4095)))
    return {"dir": draw(dirs), "name": draw(names()), "num": num, "fmt": draw(st.sampled_from(("JSON", "JSON-B")))}


@st.composite
def names(draw):
    stem = draw(st.one_of(st.sampled_from(("a", "rec 1", "x.y", "a-JSON", "ünï", "[x]", "2024.01.02")), st.text("abXY01-_. ", min_size=1, max_size=8).filter(lambda s: s.strip(". ") == s)))
    return stem + draw(st.sampled_from((".rtcm3", ".rtcm3", ".bin", ".RTCM3", ".a.b")))


SUPPORTED = R.MSM_SET | set(R.EPH) | {1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230}


@st.composite
def s_path(draw):
    msg = draw(st.one_of(gen.any_msg(), gen.any_msg(), gen.any_msg(), gen.any_msg(), st.none()))
    num = draw(st.integers(0, 4095).filter(lambda n: n not in SUPPORTED)) if msg is None else None
    return {"msg": msg, "num": num, "dir": draw(st.sampled_from(("", "d", "d.e", "d e/f", "x-JSON"))), "name": draw(names()), "fmt": draw(st.sampled_from(("JSON", "JSON-B")))}


TECHNIQUE = "exhaustive enumeration of numbers and signals against the standard's tables, generated far-out numbers; predicted against actual output paths"
NOTE = "Exported classification helpers and PrintJSON.make_opath; conversion run by the command line."
SUBS = [
    Enum("message numbers", lambda: range(-2, 4098), run_num, "all numbers -2..4097; non-trivial: a classified number"),
    Sub("far numbers", lambda: st.integers(-(10**6), 10**6), run_num, (4000, 100000)),
    Enum("signals", lambda: ([g, c] for g in list("GRESQBI") + ["", "X", "g", "GPS"] for c in range(-1, 66)), run_sig, "all constellations x signal numbers -1..65; non-trivial: a supported signal"),
    Sub("output paths", s_path, run_path, (3000, 100000), "one message of any supported number, any source name; non-trivial: the file was written"),
    Sub("predictions", s_predict, run_predict, (3000, 100000), "any number, any source path (root folder, missing folders, relative), prediction only; non-trivial: all"),
]
