"""C02: extraction does not depend on chunking"""
import random

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.frames import blocks, check_same, crowd, crowds, extract, larges


def run(case):
    data = bytes.fromhex(case["data"])
    a, ta, ea = extract(data)
    for ch in case["cuts"]:
        b, tb, eb = extract(data, ch)
        check_same(a, b, f"chunks {ch[:12]}")
        check_same(a + ta, b + tb, f"chunks {ch[:12]}, after the end")
        if ea != eb:
            raise Violation(f"parsing errors {eb} with chunks {ch[:12]}, {ea} in one piece")
    lb = []
    if a and any(len(ch) > 1 for ch in case["cuts"]):
        lb.append("nontrivial")
    if ea:
        lb.append("with parsing errors")
    return lb


@st.composite
def strat(draw):
    data = draw(gen.streams())
    return {"data": data.hex(), "cuts": draw(st.lists(gen.cuts(len(data)), min_size=1, max_size=3))}


def run_crowd(case):
    data = crowd(case)
    return run({"data": data.hex(), "cuts": [blocks(len(data), case["block"] or 4096), blocks(len(data), 1 + case["seed"] % 5000)]})


def run_every_split(case):
    """all two-piece partitions of one stream"""
    data = bytes.fromhex(case["data"])
    a, ta, ea = extract(data)
    n = len(data)
    step = max(1, n // 150)
    for i in range(case["off"] % step, n + 1, step):
        b, tb, eb = extract(data, [i, n - i])
        check_same(a + ta, b + tb, f"split at {i}")
        if ea != eb:
            raise Violation(f"parsing errors {eb} if split at {i}, {ea} in one piece")
    return ["nontrivial"] if a else []


@st.composite
def strat_split(draw):
    data = draw(gen.streams(max_items=3))
    return {"data": data[:1500].hex(), "off": draw(st.integers(0, 10))}


def run_prompt(case):
    """undamaged stream: a message is handed over by the call that supplies its last byte"""
    frames = [R.frame(bytes.fromhex(p)) for p in case["payloads"]]
    data = b"".join(frames)
    ends, pos = [], 0
    for f in frames:
        pos += len(f)
        ends.append(pos)
    calls = []
    extract(data, case["chunks"], calls)
    k = 0
    for upto, ms in calls:
        exp = []
        while k < len(frames) and ends[k] <= upto:
            exp.append(frames[k])
            k += 1
        check_same(exp, ms, f"call that supplied byte {upto}")
    return ["nontrivial"] if len(case["chunks"]) > 1 and frames else []


@st.composite
def strat_prompt(draw):
    ps = draw(st.lists(gen.payloads(), max_size=6))
    n = sum(len(p) + 6 for p in ps)
    return {"payloads": [p.hex() for p in ps], "chunks": draw(gen.cuts(n))}


def run_block(case):
    """conversion of a file with another read block size"""
    data = bytes.fromhex(case["data"])
    rc = sut.mods["run_conversion"]
    res = []
    old = getattr(rc, "FILE_CHUNCK_LEN", None)
    if old is None:
        return []
    for blk in case["blocks"]:
        try:
            rc.FILE_CHUNCK_LEN = blk
            o = sut.run("JSON-B", data, None, "cli")
        finally:
            rc.FILE_CHUNCK_LEN = old
        import re

        pr = re.findall(sut.PROGRESS, o.log)
        res.append((blk, o.files, pr[-1] if pr else None))
    for blk, f, p in res[1:]:
        if f != res[0][1]:
            raise Violation(f"output differs between block sizes {res[0][0]} and {blk}")
        if p != res[0][2]:
            raise Violation(f"statistics differ between block sizes {res[0][0]} and {blk}: {res[0][2]} {p}")
    return ["nontrivial"] if len(data) > min(case["blocks"]) else []


@st.composite
def strat_block(draw):
    rng = random.Random(draw(gen.seeds))
    parts = []
    for m in draw(gen.sequence(st.one_of(gen.base(), gen.eph(), gen.msm(known=False, small=True)), 1, 6)):
        parts.append(draw(gen.garbage()))
        parts.append(R.msg_frame(m))
    parts.append(draw(gen.garbage()))
    return {"data": b"".join(parts).hex(), "blocks": [4096] + [rng.choice((1, 2, 3, 5, 6, 7, 64, 100, 255, 1024, 1 << 20)) for _ in range(2)]}


TECHNIQUE = "metamorphic relation over partitions of generated streams"
NOTE = "Oracle: the result of feeding the stream in one piece plus the reference scanner."
SUBS = [
    Sub("partitions", strat, run, (7000, 200000), "a stream and up to 3 partitions of it; non-trivial: at least one frame and a partition with several chunks"),
    Sub("all splits", strat_split, run_every_split, (200, 6000), "one stream, (nearly) every two-piece partition; non-trivial: at least one frame"),
    Sub("prompt delivery", strat_prompt, run_prompt, (5000, 150000), "undamaged stream in arbitrary chunks; non-trivial: several chunks"),
    Sub("crowds", crowds, run_crowd, (200, 8000), "30..700 short frames in one piece and in blocks of two sizes; non-trivial as above"),
    Sub("large", larges, run_crowd, (32, 1000), "80..300 frames of up to maximal size in one piece and in blocks of two sizes; non-trivial as above"),
    Sub("file blocks", strat_block, run_block, (800, 20000), "a file read with different block sizes; non-trivial: longer than the smallest block"),
]
