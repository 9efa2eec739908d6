"""C01: every intact frame is extracted; nothing else"""
import random

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.frames import blocks, check_same, crowd, crowds, extract, larges


def run(case):
    data = bytes.fromhex(case["data"])
    whole = [data[a:b] for a, b in M.scan(data, eof=True)]
    stream = [data[a:b] for a, b in M.scan(data, eof=False)]
    got, tail, _ = extract(data, case["chunks"])
    check_same(stream, got, "while streaming")
    check_same(whole, got + tail, "after the end of the stream")
    lb = []
    if len(whole) > len(stream):
        lb.append("frame behind an unfinished candidate")
    if whole and sum(map(len, whole)) < len(data):
        lb.append("nontrivial")
    if any(len(f) == 6 for f in whole):
        lb.append("empty payload")
    if any(len(f) == 1029 for f in whole):
        lb.append("full payload")
    return lb


@st.composite
def strat(draw):
    data = draw(gen.streams())
    return {"data": data.hex(), "chunks": draw(gen.cuts(len(data)))}


def raw():
    """unstructured bytes over a small alphabet: dense in preambles and length fields"""
    return st.lists(st.sampled_from([0xD3, 0, 1, 2, 3, 0xFF, 0x3E]), max_size=60).flatmap(
        lambda l: st.builds(lambda c: {"data": bytes(l).hex(), "chunks": c}, gen.cuts(len(l)))
    )


def run_crowd(case):
    data = crowd(case)
    lb = run({"data": data.hex(), "chunks": blocks(len(data), case["block"])})
    return ["nontrivial"] if case["n"] > 60 else lb


# ---- file level: numbered 1005 messages between garbage
def numbered(i):
    return R.msg_frame({"num": 1005, "raw": {n: (i if n == "bsID" else 0) for n, _, _ in R.BASE_FIXED[1005] if n}})


def numbered_1029(i, rng):
    text = rng.choice((b"", b"\xd3", b"\xd3\x00", b"abc", R.frame(b""), R.frame(b"ab"), numbered(7)))
    return i, text


def run_file(case):
    data = bytes.fromhex(case["data"])
    exp = []
    for a, b in M.scan(data, eof=True):
        f = data[a:b]
        if len(f) == 25 and M.mnum(f) == 1005:
            exp.append(((f[4] & 15) << 8) | f[5])
    o = sut.run("JSON-B", data, None, "cli")
    p = M.json_path(1005)
    got = [r["bsID"] for r in o.json(path=p)[1:]] if p in o.files or exp else []
    if exp != got:
        raise Violation(f"file of {len(data)} bytes: messages {got}, expected {exp}")
    return ["nontrivial"] if exp and len(data) > 4096 else []


@st.composite
def strat_file(draw):
    rng = random.Random(draw(gen.seeds))
    parts = []
    for i in range(draw(st.integers(0, 12))):
        k = draw(st.sampled_from(("g", "f", "f", "f", "pad", "u", "near")))
        if k == "g":
            parts.append(draw(gen.garbage()))
        elif k == "f":
            parts.append(numbered(rng.randrange(4096)))
        elif k == "u":
            parts.append(R.frame(b"\xff\xf0" + draw(gen.payloads())[:1000]))
        elif k == "near":  # bring the position close to a block boundary
            n = sum(map(len, parts))
            parts.append(rng.choice((b"\x00", b"\xff", b"\xd3")) * ((4096 - n % 4096 - rng.randint(0, 30)) % 4096))
        else:
            parts.append(rng.choice((b"\x00", b"\xaa", b"\xd3")) * rng.randint(1, 9000))
    return {"data": b"".join(parts).hex()}


@st.composite
def strat_ends(draw):
    """the file ends within a candidate; behind it frames and further unfinished candidates"""
    rng = random.Random(draw(gen.seeds))
    head = draw(st.lists(st.sampled_from(("f", "z")), max_size=3))
    parts = [numbered(rng.randrange(4096)) if k == "f" else rng.randbytes(rng.choice((1, 50, 4096))) for k in head]
    inner = []
    for k in draw(st.lists(st.sampled_from(("f", "f", "f", "c", "c", "g", "e")), min_size=1, max_size=24)):
        if k == "f":
            inner.append(numbered(rng.randrange(4096)))
        elif k == "c":
            inner.append(bytes([0xD3, rng.choice((3, 3, 2, 1)), rng.choice((255, 255, 0, rng.randrange(256)))]))
        elif k == "e":
            inner.append(R.frame(rng.randbytes(rng.randint(0, 4))))
        else:
            inner.append(rng.randbytes(rng.randint(1, 4)))
    return {"data": b"".join(parts + [b"\xd3\x03\xff"] + inner).hex()}


def run_ends(case):
    run_file(case)
    data = bytes.fromhex(case["data"])
    return ["nontrivial"] if len(M.scan(data, eof=True)) > len(M.scan(data, eof=False)) else []


TECHNIQUE = "reference scanner over generated byte streams"
NOTE = "Oracle: an independent left-to-right frame scanner with its own CRC-24Q."
SUBS = [
    Sub("streams", strat, run, (16000, 400000), "frames with arbitrary payloads mixed with garbage, false preambles, damaged and truncated frames, fed in arbitrary chunks; non-trivial: at least one frame and one discarded byte"),
    Sub("dense", raw, run, (8000, 200000), "strings over {D3,00..03,FF,3E}; non-trivial as above"),
    Sub("crowds", crowds, run_crowd, (320, 12000), "30..700 short frames with or without garbage between them, in one piece or in blocks; non-trivial: more than 60 frames"),
    Sub("large", larges, run_crowd, (48, 1500), "80..300 frames, most of maximal size (up to 300 kB), in one piece or in large blocks; all non-trivial"),
    Sub("files", strat_file, run_file, (2400, 60000), "files with numbered 1005 messages converted by the command line; non-trivial: longer than one read block"),
    Sub("ends", strat_ends, run_ends, (1600, 50000), "files ending within one or several nested unfinished candidates that hide frames; non-trivial: a frame is found only at the end of the file"),
]
