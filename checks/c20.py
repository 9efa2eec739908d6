"""C20: interrupted conversions"""
import builtins
import contextlib
import io
import os
import random
import sys

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Enum, Sub
from checks.common import check_json_stream, check_margo_stream, margo_json_files

LEVEL = "fault_enumeration"
ASSUMPTIONS = ["the interrupt does not hit while a record is being written", "faults are raised by stand-ins of the file object and of the converter's methods"]
EXC = {
    "OSError": lambda: OSError(5, "Input/output error (injected)"),
    "KeyboardInterrupt": KeyboardInterrupt,
    "RuntimeError": lambda: RuntimeError("injected"),
    "FileNotFoundError": lambda: FileNotFoundError(2, "injected"),
    "MemoryError": MemoryError,
    "ValueError": lambda: ValueError("injected"),
    "PermissionError": lambda: PermissionError(13, "injected"),
    "empty": lambda: RuntimeError(),
    "AssertionError": lambda: AssertionError("injected"),
    "EOFError": EOFError,
}


class FaultyFile(io.RawIOBase):
    """source file whose reading fails at a byte position"""

    def __init__(self, data, pos, exc, rec):
        self.data, self.at, self.exc, self.rec, self.i = data, pos, exc, rec, 0

    def readable(self):
        return True

    def _raise(self):
        self.rec["fired"] = True
        self.rec["delivered"] = self.data[: self.i]
        raise EXC[self.exc]()

    def read(self, n=-1):
        if self.i >= self.at or n is None or n < 0:
            self._raise()
        b = self.data[self.i : min(self.at, self.i + n)]
        self.i += len(b)
        return b

    def readall(self):
        return self.read(-1)

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[: len(b)] = b
        return len(b)


@contextlib.contextmanager
def patch_open(path, make):
    real_b, real_io = builtins.open, io.open

    def fake(file, mode="r", *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.realpath(os.fspath(file)) == os.path.realpath(path):
            return make()
        return real_b(file, mode, *a, **k)

    builtins.open = io.open = fake
    try:
        yield
    finally:
        builtins.open, io.open = real_b, real_io


@contextlib.contextmanager
def patch_all(who, name, case, rec):
    cls = sut.mods["converter_top"].Converter
    real = cls.parse_bytes

    def seen(self, buf):
        who(self)
        return real(self, buf)

    real_release = cls.release

    def released(self):
        who(self)  # an empty file is never parsed
        return real_release(self)

    cls.parse_bytes, cls.release = seen, released
    try:
        with patch_method(name, case["k"], case["when"], case["exc"], rec):
            yield
    finally:
        cls.parse_bytes, cls.release = real, real_release


@contextlib.contextmanager
def patch_method(name, k, when, exc, rec):
    """the k-th call of a converter method (of the file rec['who'] tells) fails"""
    cls = sut.mods["converter_top"].Converter
    real = getattr(cls, name)
    count = {}
    order = []

    def fake(self, *a):
        if id(self) not in count:
            order.append(self)  # keeps ids unique
        n = count[id(self)] = count.get(id(self), -1) + 1
        mine = rec["who"](self)
        if not mine or rec.get("fired"):
            return real(self, *a)
        if n == k and when == "before":
            rec["fired"] = True
            raise EXC[exc]()
        if n == k and when == "inside":
            try:
                return trace_into(lambda: real(self, *a), rec)
            finally:
                if not rec.get("fired"):
                    rec["fired"] = True
                    raise KeyboardInterrupt
        rv = real(self, *a)
        rec["args"].append(bytes(a[0]) if isinstance(a[0], (bytes, bytearray)) else None)
        if n == k and when == "after":
            rec["fired"] = True
            raise EXC[exc]()
        return rv

    setattr(cls, name, fake)
    try:
        yield
    finally:
        setattr(cls, name, real)


def trace_into(f, rec):
    """run f, raising KeyboardInterrupt at the rec['event']-th line executed inside the tree under test"""
    left = [rec["event"]]
    old = sys.gettrace()

    def tr(frame, event, arg):
        if not frame.f_code.co_filename.startswith(sut.REPO):
            return None
        if event == "line" and not rec.get("fired"):
            left[0] -= 1
            if left[0] < 0:
                rec["fired"] = True
                sys.settrace(old)
                raise KeyboardInterrupt
        return tr

    sys.settrace(tr)
    try:
        return f()
    finally:
        sys.settrace(old)


def convertible(m, fmt):
    return fmt != "MARGO" or m["num"] in R.MSM_SET


def check_output(o, fmt, msgs, where):
    if fmt in ("MARGO", "JARGO"):
        check_margo_stream(msgs, o, None, where)
    if fmt == "JARGO":
        x = sut.Out()
        x.files = margo_json_files(o)
        check_json_stream([m for m in msgs if m["num"] not in R.MSM_SET], x, False, None, where)
    if fmt in ("JSON", "JSON-B"):
        check_json_stream(msgs, o, fmt == "JSON-B", None, where)


def build(items):
    return b"".join(gen.item_frame(x) if isinstance(x, dict) else bytes.fromhex(x) for x in items)


def run(case):
    d = sut.SCRATCH.new()
    try:
        return _run(case, d)
    finally:
        sut.SCRATCH.drop(d)


def _run(case, d):
    fmt, fault = case["fmt"], case["fault"]
    files = case["files"]
    hit = case["hit"] % len(files)
    names = [f"f{i}.rtcm3" for i in range(len(files))]
    data = {n: build(items) for n, items in zip(names, files)}
    path = os.path.join(d, names[hit])
    raw = data[names[hit]]
    rec = {"fired": False, "args": [], "delivered": b"", "event": case.get("event", 0)}
    frames = {}
    for it in files[hit]:
        if isinstance(it, dict):
            frames[gen.item_frame(it)] = it
    conv = []

    def who(c):
        if c not in conv:
            conv.append(c)
        return conv.index(c) == hit

    rec["who"] = who
    if fault == "open":
        def make():
            rec["fired"] = True
            raise EXC[case["exc"]]()

        patch = patch_open(path, make)
    elif fault == "read":
        pos = case["pos"] % (len(raw) + 1)
        patch = patch_open(path, lambda: FaultyFile(raw, pos, case["exc"], rec))
    else:
        # every converter is seen by parse_bytes first, so that `who` counts files in order
        patch = patch_all(who, fault, case, rec)
    res, cap = sut.cli_convert(fmt, data, keep=d, patch=patch)
    # which messages were converted before the fault
    if fault == "open":
        done = []
    elif fault == "read":
        done = [frames.get(rec["delivered"][a:b]) for a, b in M.scan(rec["delivered"], eof=False)]
    elif fault == "parse_bytes":
        n = b"".join(x for x in rec["args"])
        if case["when"] == "after" and rec["fired"] and rec["args"]:
            n = b"".join(rec["args"][:-1])
        done = [frames.get(n[a:b]) for a, b in M.scan(n, eof=False)]
    elif fault == "decode":
        got = rec["args"]
        if case["when"] == "after" and rec["fired"] and got:
            got = got[:-1]
        done = [frames.get(x) for x in got]
    else:
        order = [m for m in files[hit] if isinstance(m, dict) and "payload" not in m and convertible(m, fmt)]
        done = order[: case["k"] + (1 if case["when"] == "after" else 0)]
    done = [m for m in done if m is not None and "payload" not in m]
    lb = [fmt, fault, case["exc"]]
    for i, n in enumerate(names):
        o = res[n]
        if o is None or o.log is None:
            raise Violation(f"{n}: no output folder or log after a fault in {names[hit]}")
        if i == hit and rec["fired"]:
            if "Decoding was terminated." not in o.log or "Finished" in o.log:
                raise Violation(f"{n}: the log does not report the termination ({fault} {case['exc']}): ...{o.log[-160:]!r}")
            check_output(o, fmt, done, f"{n} interrupted at {fault}: ")
            if done:
                lb.append("nontrivial")
            if i + 1 < len(names):
                lb.append("further files follow")
        else:
            if "Decoding was terminated." in o.log or "Finished" not in o.log:
                raise Violation(f"{n}: fault in {names[hit]}, but the log of {n} says ...{o.log[-120:]!r}")
            check_output(o, fmt, [m for m in files[i] if isinstance(m, dict) and "payload" not in m], f"{n}, fault in {names[hit]}: ")
    if not rec["fired"]:
        lb.append("fault position not reached")
    return lb


GARB = st.integers(1, 40).map(lambda n: bytes((7 * i + n) % 0xD0 for i in range(n)).hex())


@st.composite
def file_st(draw, lo=0, hi=5):
    good = st.one_of(gen.msm(margo=True, valid_time=True, small=True), gen.msm(margo=True, valid_time=True, small=True), gen.eph(), gen.base())
    out = draw(gen.sequence(good, lo, hi, margo=True))
    if out and draw(st.integers(0, 3)) == 0:
        out.insert(draw(st.integers(0, len(out))), draw(st.one_of(GARB, gen.malformed(), gen.unsupported())))
    if out and draw(st.integers(0, 7)) == 0:
        out = out * draw(st.integers(4, 20))
    return out


@st.composite
def strat(draw):
    fault = draw(st.sampled_from(("read", "read", "decode", "print", "print", "parse_bytes", "open", "inside")))
    case = {
        "fmt": draw(st.sampled_from(sut.FORMATS)),
        "files": draw(st.lists(file_st(), min_size=1, max_size=3)),
        "hit": draw(st.integers(0, 2)),
        "exc": draw(st.sampled_from(sorted(EXC))),
        "fault": fault,
        "pos": draw(st.integers(0, 3000)),
        "k": draw(st.integers(0, 8)),
        "when": draw(st.sampled_from(("before", "after"))),
    }
    if fault == "inside":
        case.update(fault="decode", when="inside", exc="KeyboardInterrupt", event=draw(st.integers(0, 400)))
    if fault == "print" and any("payload" in m for f in case["files"] for m in f if isinstance(m, dict)):
        case["files"] = [[m for m in f if isinstance(m, dict) and "payload" not in m] for f in case["files"]]
    if fault == "parse_bytes":
        case["k"] = draw(st.integers(0, 2))
    return case


def fixed():
    rng = random.Random(5)
    out = []
    for num in (1077, 1005, 1084, 1019, 1072, 1077, 1230, 1121):
        if num in R.MSM_SET:
            lv = R.level_of(num)
            m = {"num": num, "sats": [1, 4], "sigs": [2], "cells": [1, 1]}
            for f, w in R.HDR_FIELDS:
                m[f] = rng.randrange(1 << w)
            m["time"] = 1000
            m["sat"] = {f: gen.fill(rng, "mid", 2, f, w, k) for f, w, k in R.SAT_FIELDS[lv]}
            m["sgn"] = {f: gen.fill(rng, "mid", 2, f, w, k) for f, w, k in R.CELL_FIELDS[lv]}
            if lv == 3:
                gen.clean_margo(m)
        elif num in R.EPH:
            m = {"num": num, "raw": {f[0]: rng.randrange(1 << f[1]) for f in R.EPH[num] if f[0]}, "rsv": 0}
        elif num == 1005:
            m = {"num": num, "raw": {n: rng.randrange(1 << w) for n, w, k in R.BASE_FIXED[num] if n}, "rsv": 0}
        else:
            m = {"num": num, "bsID": 5, "isCorrected": 1, "mask": 5, "corr": {k: 100 for k, _ in R.GLBS_BITS}, "rsv": 0}
        out.append(m)
    return out


FIXED = fixed()


def enum_cases():
    n = len(build(FIXED))
    rest = [FIXED[0], FIXED[3]]
    for fmt in sut.FORMATS:
        for exc in ("OSError", "KeyboardInterrupt"):
            for pos in range(0, n + 1, 1 if exc == "OSError" else 7):
                yield {"fmt": fmt, "files": [FIXED, rest], "hit": 0, "exc": exc, "fault": "read", "pos": pos}
        nrec = len([m for m in FIXED if convertible(m, fmt)])
        for fault in ("decode", "print"):
            for k in range(nrec if fault == "print" else len(FIXED)):
                for when in ("before", "after"):
                    for exc in sorted(EXC):
                        yield {"fmt": fmt, "files": [rest, FIXED, rest], "hit": 1, "exc": exc, "fault": fault, "k": k, "when": when}
        for k in range(len(FIXED)):
            for ev in (0, 1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377, 610, 987):
                yield {"fmt": fmt, "files": [FIXED, rest], "hit": 0, "exc": "KeyboardInterrupt", "fault": "decode", "k": k, "when": "inside", "event": ev}
        for exc in sorted(EXC):
            yield {"fmt": fmt, "files": [rest, FIXED, rest], "hit": 1, "exc": exc, "fault": "open"}


TECHNIQUE = "fault injection at every read position and converter call over fixed and generated multi-file runs"
NOTE = "Oracle: record models of C05-C13 applied to the messages converted before the fault. Interrupts in the middle of writing a record are outside."
SUBS = [
    Enum("enumeration", enum_cases, run, "a fixed eight-message file: a read error at every byte offset, every exception before and after every decode and print call, interrupts at many lines inside decoding, four formats; non-trivial: at least one record precedes the fault"),
    Sub("random", strat, run, (2000, 60000), "random files, fault site, position and exception; non-trivial as above"),
]
