"""C23: arbitrary source files"""
import contextlib
import functools
import gc
import glob
import io
import os
import random
import sys
import tracemalloc

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.c19 import VERDICTS
from checks.c20 import patch_open


@functools.lru_cache(None)
def recordings():
    out = []
    for p in sorted(glob.glob(os.path.join(sut.REPO, "RTCM3_TEST_DATA", "**", "*"), recursive=True)):
        if os.path.isfile(p) and p.lower().endswith((".rtcm3", ".rtcm", ".bin")):
            with open(p, "rb") as f:
                b = f.read(60000)
            fr = [b[x:y] for x, y in M.scan(b, eof=False)]
            if fr:
                out.append(fr)
    if not out:
        out.append([R.frame(bytes([0x3E, 0xD0] + [0] * 17))])
    return out


def check_table(p, b):
    g = os.path.basename(p)[0]
    if g not in M.MARGO_COLS:
        raise Violation(f"unexpected file {p}")
    rows = M.parse_margo(b.decode("utf-8"), p)
    n = M.MARGO_COLS[g] + 1
    if len(rows) < 3:
        raise Violation(f"{p}: {len(rows)} rows")
    for i, r in enumerate(rows):
        if len(r) != n:
            raise Violation(f"{p}: row {i} has {len(r)} columns, expected {n}")
        for c in r:
            try:
                float(c)
            except ValueError:
                raise Violation(f"{p}: row {i}: {c!r} is not a number") from None
        try:
            t = float(r[0])
        except ValueError:
            raise Violation(f"{p}: row {i}: time mark {r[0]!r}") from None
        if i >= 2 and (t != t or t != int(t)):
            raise Violation(f"{p}: row {i}: time mark {r[0]!r}")


def check_files(files):
    for p, b in files.items():
        q = p.replace(os.sep, "/")
        if q.endswith(".json"):
            try:
                arr = sut.load_json(b)
            except ValueError as ex:
                raise Violation(f"{p} is not valid JSON: {ex}") from None
            if not isinstance(arr, list) or len(arr) < 2 or not isinstance(arr[0], dict) or list(arr[0]) != ["source_type"]:
                raise Violation(f"{p} is not an array of records: {b[:80]!r}")
            if any(not isinstance(x, dict) or not x for x in arr[1:]):
                raise Violation(f"{p} holds something that is not a record")
        elif q.endswith(".obs"):
            check_table(q, b)
        else:
            raise Violation(f"unexpected output file {p}")


def run(case):
    data = bytes.fromhex(case["data"])
    lb = []
    for fmt in case["fmts"]:
        o = sut.run(fmt, data, case["ctl"], "cli")
        lines = [x for x in o.log.splitlines() if x.strip()]
        if not lines or not any(v in lines[-1] for v in VERDICTS[:2]):
            raise Violation(f"{fmt}: the log does not end with a verdict: {lines[-1:]}")
        check_files(o.files)
        lb.append(fmt)
        if o.files:
            lb.append("output produced")
    if len(data) >= 8 and b"\xd3" in data:
        lb.append("nontrivial")
    if not data:
        lb.append("empty file")
    return lb


def mutate_frames(rng, frames):
    """structural mutations of a list of frames"""
    out = []
    for f in frames:
        r = rng.random()
        if r < 0.35:
            out.append(f)
            continue
        p = bytearray(f[3:-3])
        for _ in range(rng.choice((1, 1, 2, 3, 8))):
            k = rng.randrange(8)
            if not p:
                break
            i = rng.randrange(len(p))
            if k <= 1:
                p[i] ^= 1 << rng.randrange(8)
            elif k == 2:
                p[i] = rng.choice((0, 0xFF, 0x7F, 0x80, 0xD3, rng.randrange(256)))
            elif k == 3:
                del p[i:]
            elif k == 4:
                p[i:i] = rng.randbytes(rng.randint(1, 6))
            elif k == 5:
                num = rng.choice(R.ALL_NUMS)
                if len(p) >= 2:
                    p[0], p[1] = num >> 4, ((num & 15) << 4) | (p[1] & 15)
            elif k == 6:
                j = rng.randrange(i, min(len(p), i + 20))
                p[i:j] = bytes([rng.choice((0, 0xFF))]) * (j - i)
            else:
                j = min(len(p), i + rng.randint(1, 16))
                p[i:i] = p[i:j]
        p = bytes(p[:1023])
        g = R.frame(p)
        if r > 0.9:  # damaged on the way
            g = bytearray(g)
            g[rng.randrange(len(g))] ^= 1 << rng.randrange(8)
            g = bytes(g)
        out.append(g)
        if r > 0.97:
            out.append(rng.randbytes(rng.randint(1, 30)))
    return out


def head(num, p):
    """payload p with the message number num"""
    b = bytearray(p)
    b[0], b[1] = num >> 4, ((num & 15) << 4) | (b[1] & 15)
    return bytes(b)


@st.composite
def content(draw):
    kind = draw(st.sampled_from(("record", "record", "record", "messages", "messages", "stream", "random", "ascii", "const", "frames", "headers", "bytes")))
    rng = random.Random(draw(gen.seeds))
    if kind == "record":
        fr = draw(st.sampled_from(recordings()))
        i = draw(st.integers(0, max(0, len(fr) - 1)))
        fr = mutate_frames(rng, fr[i : i + draw(st.integers(1, 8))])
        rng.random() < 0.2 and rng.shuffle(fr)
        b = b"".join(fr)
        if rng.random() < 0.2:
            b = b[rng.randint(0, min(len(b), 50)): len(b) - rng.randint(0, min(len(b), 50))]
    elif kind == "messages":
        ms = draw(st.lists(st.one_of(gen.msm(known=False), gen.msm(), gen.msm(small=True), gen.eph(), gen.base(), gen.malformed(), gen.unsupported()), min_size=1, max_size=4))
        fr = [gen.item_frame(m) for m in ms]
        if rng.random() < 0.6:
            fr = mutate_frames(rng, fr)
        b = b"".join(fr)
    elif kind == "stream":
        b = draw(gen.streams())
    elif kind == "random":
        b = rng.randbytes(draw(st.sampled_from((1, 5, 6, 100, 4095, 4096, 4097, 9000))))
    elif kind == "ascii":
        b = ("$GPGGA,%06d,5355.1,N,02733.2,E*4%d\r\n" % (rng.randrange(999999), rng.randrange(9))).encode() * rng.randint(1, 40)
    elif kind == "const":
        b = bytes([draw(st.sampled_from((0, 255, 0xD3, 1, 3, 0x0D)))]) * draw(st.sampled_from((1, 2, 5, 6, 7, 1029, 4096, 5000)))
    elif kind == "frames":  # supported number, arbitrary content of any length
        b = b"".join(R.frame(head(rng.choice(R.ALL_NUMS), rng.randbytes(rng.choice((2, 3, 8, 20, 22, 61, 64, 100, 400, 1023))))) for _ in range(rng.randint(1, 6)))
    elif kind == "headers":
        b = b"".join(bytes([0xD3, rng.randrange(4), rng.randrange(256)]) + rng.randbytes(rng.choice((0, 0, 1, 2, 3, 10))) for _ in range(rng.randint(1, 200)))
    else:
        b = draw(st.binary(max_size=40))
    if rng.random() < 0.1:
        b += R.frame(b"")
    if rng.random() < 0.1:
        b += R.frame(rng.randbytes(1))
    return b.hex()


def strat():
    return st.fixed_dictionaries({"data": content(), "fmts": st.sampled_from((["JSON"], ["JSON-B"], ["MARGO"], ["JARGO"], ["JSON", "MARGO"])), "ctl": st.sampled_from(({}, {}, {"HCA": True, "LOCK_TIME": True, "ENABLE_PRETTY_VIEW": False}))})


# long files: the end is reached
MARK = R.msg_frame({"num": 1005, "raw": {n: 1234 if n == "bsID" else 0 for n, w, k in R.BASE_FIXED[1005] if n}, "rsv": 0})


def run_long(case):
    """a message behind very much of something else is still converted"""
    rng = random.Random(case["x"])
    k = case["kind"]
    if k == "noise":
        b = rng.randbytes(20000).replace(b"\xd3", b"\xd2") * (case["n"] * 5)
    elif k == "zeros":
        b = bytes(100000) * case["n"]
    elif k == "unsupported":
        b = R.frame(head(999, rng.randbytes(1000))) * (100 * case["n"] // 4)
    elif k == "bad":
        b = R.frame(head(rng.choice(R.ALL_NUMS), rng.randbytes(5))) * (60 * case["n"])
    elif k == "false":
        b = b"\xd3\x00\x05abcdefghijklmnop" * (300 * case["n"])
    elif k == "preambles":
        b = b"\xd3" * (1000 * case["n"])
    else:
        b = b"\x11" + MARK * 20 + b"\x22"
        b = b * (5 * case["n"])
    for fmt in case["fmts"]:
        o = sut.run(fmt, b + MARK, {}, "cli")
        lines = [x for x in o.log.splitlines() if x.strip()]
        if not lines or not any(v in lines[-1] for v in VERDICTS[:2]):
            raise Violation(f"{fmt}, {len(b)} bytes of {k}: the log ends with {lines[-1:]}")
        check_files(o.files)
        if fmt != "MARGO":
            arr = o.json(path=M.json_path(1005))
            n = 1 + (100 * case["n"] if k == "gaps" else 0)
            if len(arr) != n + 1 or any(r["bsID"] != 1234 for r in arr[1:]):
                raise Violation(f"{fmt}, {len(b)} bytes of {k}: {len(arr) - 1} messages 1005 in the output, the file holds {n}")
    return ["nontrivial"] if len(b) > 40960 else []


def strat_long():
    return st.fixed_dictionaries({"kind": st.sampled_from(("noise", "noise", "zeros", "unsupported", "bad", "false", "preambles", "gaps")), "x": gen.seeds, "n": st.integers(1, 25), "fmts": st.sampled_from((["JSON"], ["JSON-B"], ["JARGO"], ["JSON", "MARGO"]))})


# memory
def filler(case, size):
    """a file of about this size"""
    kind, rng = case["kind"], random.Random(case["x"])
    out, n, i = [], 0, 0
    while n < size:
        if kind == "noise":
            b = rng.randbytes(1000).replace(b"\xd3", b"\xd2")
        elif kind == "false":
            b = b"".join(bytes([0xD3, 0, 3]) + bytes([rng.randrange(200)] * 20) for _ in range(40))
        elif kind == "unsupported":
            b = R.frame(head(999, rng.randbytes(1000)))
        elif kind == "big header":
            b = bytes([0xD3, 3, 255]) + bytes([rng.randrange(200)] * 1500)
        else:
            b = R.msg_frame(vary(rng, case["msgs"][i % len(case["msgs"])], i))
        out.append(b)
        n += len(b)
        i += 1
    return b"".join(out)


def vary(rng, m, i):
    """the same kind of message with other values (no new signals: those open further files)"""
    m = dict(m)
    num = m["num"]
    if num in R.MSM_SET:
        lv = R.level_of(num)
        m["time"] = 1000 * (i + 1)
        m["sats"] = sorted(rng.sample(range(1, 65), len(m["sats"])))
        m["sat"] = {n: gen.fill(rng, "mid", len(m["sats"]), n, w, k) for n, w, k in R.SAT_FIELDS[lv]}
        m["sgn"] = {n: gen.fill(rng, "mid", sum(m["cells"]), n, w, k) for n, w, k in R.CELL_FIELDS[lv]}
        if lv == 3:
            gen.clean_margo(m)
    elif "raw" in m:
        w = {f[0]: f[1] for f in (R.EPH.get(num) or R.BASE_FIXED[num]) if f[0]}
        m["raw"] = {n: rng.randrange(1 << w[n]) for n in m["raw"]}
    return m


class Probe(io.RawIOBase):
    """source file that samples the memory held by the program whenever it is read"""

    def __init__(self, path, res):
        self.f = os.open(path, os.O_RDONLY)
        self.res = res

    def readable(self):
        return True

    def _sample(self):
        gc.collect()
        self.res.append((tracemalloc.get_traced_memory()[0], sys.getallocatedblocks()))

    def read(self, n=-1):
        self._sample()
        if n is None or n < 0:
            out = []
            while True:
                b = os.read(self.f, 1 << 16)
                if not b:
                    return b"".join(out)
                out.append(b)
        return os.read(self.f, n)

    def readall(self):
        return self.read(-1)

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[: len(b)] = b
        return len(b)

    def close(self):
        if not self.closed:
            self._sample()
            os.close(self.f)
        super().close()


def held(fmt, data, trace):
    """(largest amount of memory and number of memory blocks held at any read, peak amount)"""
    res, pk = [], []
    d = sut.SCRATCH.new()
    try:
        p = os.path.join(d, "s.rtcm3")
        sut.write_file(os.path.join(d, "defaults.ini"), gen.ini_text({}))
        sut.write_file(p, data)
        del data

        @contextlib.contextmanager
        def measure():
            gc.collect()
            gc.freeze()
            if trace:
                tracemalloc.start()
            base = sys.getallocatedblocks()
            try:
                with patch_open(p, lambda: Probe(p, res)):
                    yield
            finally:
                pk.append(tracemalloc.get_traced_memory()[1])
                if trace:
                    tracemalloc.stop()
                gc.unfreeze()
                res[:] = [(x, y - base) for x, y in res]

        sut.cli(["-o", fmt, p], d, patch=measure())
    finally:
        sut.SCRATCH.drop(d)
    if not res:  # the source was not opened through open()
        return None
    return max(x for x, _ in res), max(y for _, y in res), pk[0]


def run_memory(case):
    fmt = case["fmt"]
    raw = case["kind"] != "messages"
    x, y = filler(case, case["bytes"]), filler(case, 5 * case["bytes"])
    if not raw:
        held(fmt, x, raw)  # warm up
    a, b = held(fmt, x, raw), held(fmt, y, raw)
    if a is None or b is None:
        return ["not observed"]
    extra = len(y) - len(x)
    # the harness itself captures console messages: about 100 bytes per 4 KiB block
    if raw and b[0] - a[0] > 0.25 * extra + 12000:
        raise Violation(f"{fmt}: {b[0] - a[0]} more bytes of memory are held when {extra} more bytes ({case['kind']}) are converted")
    if raw and b[2] - a[2] > 0.4 * extra + 60000:
        raise Violation(f"{fmt}: converting {extra} more bytes ({case['kind']}) needs {b[2] - a[2]} more bytes of memory")
    if not raw:
        n = len(M.scan(y)) - len(M.scan(x))
        if b[1] - a[1] > 0.3 * n + 300:
            raise Violation(f"{fmt}: {b[1] - a[1]} more memory blocks are held when {n} more messages are converted")
    return ["nontrivial", case["kind"]]


def strat_memory():
    raw = st.fixed_dictionaries({"kind": st.sampled_from(("noise", "false", "unsupported", "big header")), "x": gen.seeds, "bytes": st.just(50000), "fmt": st.sampled_from(("JSON", "MARGO"))})
    good = st.fixed_dictionaries({"kind": st.just("messages"), "x": st.just(0), "msgs": st.lists(st.one_of(gen.msm(small=True, allow_empty=False), gen.eph(), gen.base(nums=[1005, 1006, 1230])), min_size=1, max_size=3), "bytes": st.just(25000), "fmt": st.sampled_from(sut.FORMATS)})
    return st.one_of(raw, good)


TECHNIQUE = "fuzzing of whole conversions with mutated recordings, generated messages and noise; well-formedness oracle and traced memory"
NOTE = "Termination is judged by a CPU limit of 40 s per case; memory by the growth of the traced peak when the file gets five times longer."
SUBS = [
    Sub("fuzz", strat, run, (6000, 200000), "arbitrary files through the command line; non-trivial: at least 8 bytes including a preamble byte"),
    Sub("long", strat_long, run_long, (48, 1500), "files of up to 2.5 MB of one kind of content followed by a message; non-trivial: more than ten read blocks", shrink=False),
    Sub("memory", strat_memory, run_memory, (40, 500), "peak memory for a file and one five times longer; all non-trivial", shrink=False),
]
