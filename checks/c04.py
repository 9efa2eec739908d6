"""C04: parsing-error count = number of gaps between delivered frames"""
import re

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.frames import blocks, crowd, crowds, extract


def run(case):
    data = bytes.fromhex(case["data"])
    fr = M.scan(data, eof=True)
    exp = M.gaps(fr)
    calls = []
    got, tail, err = extract(data, case["chunks"], err_calls=calls)
    if len(calls) <= 40 or case.get("every"):
        st_fr = M.scan(data, eof=False)  # a frame is delivered with its last byte or, if hidden, when its candidate is abandoned: counts never exceed these
        for pos, n in calls:
            if n > M.gaps([f for f in st_fr if f[1] <= pos]):
                raise Violation(f"{n} parsing errors after {pos} bytes, at most {M.gaps([f for f in st_fr if f[1] <= pos])} possible")
        if calls and calls[-1][0] == len(data) and calls[-1][1] != M.gaps(st_fr):
            raise Violation(f"{calls[-1][1]} parsing errors at the end of the bytes, expected {M.gaps(st_fr)}")
    if err != exp:
        raise Violation(f"{err} parsing errors, expected {exp} (frames at {fr[:8]})")
    lb = []
    if exp:
        lb.append("nontrivial")
    if fr and fr[0][0] > 0:
        lb.append("garbage first")
    if fr and fr[-1][1] < len(data):
        lb.append("garbage last")
    if exp and any(b[0] == a[1] for a, b in zip(fr, fr[1:])):
        lb.append("gap and no gap")
    return lb


@st.composite
def strat(draw):
    data = draw(gen.streams(max_items=8))
    return {"data": data.hex(), "chunks": draw(gen.cuts(len(data)))}


def run_pieces(case):
    """frames (possibly empty payload) separated or not by one or more bytes"""
    data = b""
    exp, first = 0, True
    pend = False
    for p in case["pieces"]:
        if p["g"]:
            data += bytes.fromhex(p["g"])
            pend = True
        data += R.frame(bytes.fromhex(p["f"]))
        if pend and not first:
            exp += 1
        first, pend = False, False
    data += bytes.fromhex(case["last"])
    _, _, err = extract(data, [1] * len(data) if case["bytes"] else None)
    if M.gaps(M.scan(data)) != exp:
        return ["chance frame"]
    if err != exp:
        raise Violation(f"{err} parsing errors, expected {exp}")
    return ["nontrivial"] if exp else []


def strat_pieces():
    g = st.one_of(st.just(""), st.sampled_from(("00", "d3", "ff", "d300", "d3d3", "d30000", "d303ff", "0d0a")), st.binary(min_size=1, max_size=3).map(bytes.hex))
    f = st.one_of(st.binary(max_size=6).map(bytes.hex), st.sampled_from(("", "d3", "d3d300", "d30000", "3ed0")))
    return st.fixed_dictionaries({"pieces": st.lists(st.fixed_dictionaries({"g": g, "f": f}), max_size=8), "last": g, "bytes": st.booleans()})


def run_crowd(case):
    data = crowd(case)
    return run({"data": data.hex(), "chunks": blocks(len(data), case["block"])})


def run_wide(case):
    """gaps of many bytes"""
    frames = [R.frame(bytes.fromhex(x)) for x in case["frames"]]
    data = b""
    for f, (n, b) in zip(frames, case["gaps"]):
        data += f + bytes([b]) * n
    data += frames[-1]
    got, tail, err = extract(data, blocks(len(data), case["block"]))
    if [bytes(x) for x in got + tail] != frames:
        raise Violation(f"{len(got + tail)} frames delivered, {len(frames)} with gaps of {[n for n, _ in case['gaps']]} bytes are in the stream")
    exp = sum(n > 0 for n, _ in case["gaps"])
    if err != exp:
        raise Violation(f"{err} parsing errors, expected {exp}: gaps of {[n for n, _ in case['gaps']]} bytes")
    return ["nontrivial"] if any(n > 1000 for n, _ in case["gaps"]) else []


@st.composite
def strat_wide(draw):
    k = draw(st.integers(1, 3))
    n = st.one_of(gen.or_novel(st.integers(0, 5000), 0, 300000), st.integers(1000, 200000), st.sampled_from((0, 1, 1023, 1024, 1029, 4096, 65535, 65536, 65537)))
    return {
        "frames": [p.hex() for p in draw(st.lists(st.binary(max_size=30), min_size=k + 1, max_size=k + 1))],
        "gaps": [[draw(n), draw(st.sampled_from((0, 0x20, 0xFF, 0xD2)))] for _ in range(k)],
        "block": draw(st.sampled_from((None, None, 4096, 1000, 70000))),
    }


def run_log(case):
    """the count in the log of a file conversion"""
    data = bytes.fromhex(case["data"])
    exp = M.gaps(M.scan(data, eof=True))
    o = sut.run(case["fmt"], data, None, "cli")
    pr = re.findall(sut.PROGRESS, o.log)
    if data:
        if not pr:
            raise Violation("no progress line in the log")
        if int(pr[-1][2]) != exp:
            raise Violation(f"log states {pr[-1][2]} parsing errors, expected {exp}")
    return ["nontrivial"] if exp else []


@st.composite
def strat_log(draw):
    data = draw(gen.streams(max_items=6))
    return {"data": data.hex(), "fmt": draw(st.sampled_from(sut.FORMATS))}


TECHNIQUE = "reference count over generated streams and histories"
NOTE = "Oracle: gap count of the reference scan."
SUBS = [
    Sub("streams", strat, run, (14000, 400000), "frames mixed with garbage in arbitrary chunks; non-trivial: at least one gap"),
    Sub("pieces", strat_pieces, run_pieces, (8000, 200000), "short frames and short separators; non-trivial: at least one gap"),
    Sub("crowds", crowds, run_crowd, (320, 12000), "30..700 short frames with or without gaps; non-trivial: at least one gap"),
    Sub("wide gaps", strat_wide, run_wide, (400, 12000), "2..4 frames with gaps of up to 200000 bytes; non-trivial: a gap of more than 1000 bytes"),
    Sub("log", strat_log, run_log, (1600, 40000), "count reported by a file conversion; non-trivial: at least one gap"),
]
