"""C32: output that cannot be written is reported, and harms nothing else"""
import contextlib
import os
import re
import resource

from hypothesis import strategies as st

from vlib import gen, model as M, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.c19 import VERDICTS

INF = resource.RLIM_INFINITY
CLEAN, ERRORS, TERM = VERDICTS


def verdicts(text):
    return [v for line in text.splitlines() for v in VERDICTS if v in line]


def build(items):
    return b"".join(gen.item_frame(x) for x in items)


def norm(files):
    return {p.replace(os.sep, "/"): b for p, b in files.items()}


_CACHE = {}


def alone(fmt, items, ctl, data):
    key = (fmt, repr(sorted(ctl.items())), data)
    if key not in _CACHE:
        if len(_CACHE) > 50:
            _CACHE.clear()
        res, cap = sut.cli_convert(fmt, {"s.rtcm3": data}, ctl)
        o = res["s.rtcm3"]
        if o is None or o.log is None:
            raise Violation("no output although nothing failed")
        v = verdicts(cap.err)
        if len(v) != 1:
            raise Violation(f"verdicts on the console: {v}")
        _CACHE[key] = norm(o.files), v[0]
    return _CACHE[key]


def loads(path, b, where):
    """complete records of a well-formed file"""
    if path.endswith(".json"):
        try:
            a = sut.load_json(b)
        except ValueError as ex:
            raise Violation(f"{where}{path} is not valid JSON: {ex}") from None
        if not isinstance(a, list) or not a:
            raise Violation(f"{where}{path} is not an array")
        return a
    t = b.decode("utf-8")
    if t and not t.endswith("\n"):
        raise Violation(f"{where}{path}: the last row is cut")
    return t.splitlines()


def eq(a, b):
    return repr(a) == repr(b)  # NaN equals NaN


# ---------------------------------------------------------------- a limit on the size of files (as a full disk or a quota)
def run_space(case):
    fmt, ctl = case["fmt"], case["ctl"]
    srcs = {f"f{i}.rtcm3": build(it) for i, it in enumerate(case["files"])}
    ref = {n: alone(fmt, None, ctl, b) for n, b in srcs.items()}
    sizes = sorted({len(b) for fs, _ in ref.values() for b in fs.values()})
    if not sizes:
        return []
    lim = max(0, sizes[case["at"] % len(sizes)] + case["delta"]) if case["delta"] < 1000 else case["delta"] - 1000

    @contextlib.contextmanager
    def limited():
        resource.setrlimit(resource.RLIMIT_FSIZE, (lim, INF))
        try:
            yield
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, (INF, INF))

    res, cap = sut.cli_convert(fmt, srcs, ctl, patch=limited())
    v = verdicts(cap.err)
    if lim < 200 and not v:  # not even the log could be written: no verdict at all
        v = [None] * len(srcs)
    if len(v) != len(srcs):
        raise Violation(f"{fmt}: {len(srcs)} sources, verdicts on the console {v}")
    hit = 0
    for (n, o), verd in zip(res.items(), v):
        where = f"{fmt} {n} (files limited to {lim} bytes): "
        full, normal = ref[n]
        over = {p for p, b in full.items() if len(b) > lim}
        if o is None:
            raise Violation(f"{where}no output")
        got = norm(o.files)
        if not over:
            if verd not in (normal, None):
                raise Violation(f"{where}verdict {verd!r}, alone {normal!r}")
            if got != full:
                raise Violation(f"{where}the output differs from the file converted alone: {sorted(p for p in set(got) | set(full) if got.get(p) != full.get(p))[:3]}")
            continue
        hit += 1
        if verd == CLEAN:
            raise Violation(f"{where}{sorted(over)[0]} could not be written completely ({len(got.get(sorted(over)[0], b''))} of {len(full[sorted(over)[0]])} bytes), verdict {verd!r}")
        for p, b in got.items():
            if p not in full:
                raise Violation(f"{where}unexpected file {p}")
            if p in over:
                continue
            a, e = loads(p, b, where), loads(p, full[p], where)
            if not eq(a, e[: len(a)]):
                raise Violation(f"{where}{p}, which was not affected, does not hold the first records")
    lb = [fmt]
    if hit:
        lb.append("nontrivial")
        if hit < len(srcs):
            lb.append("affected and unaffected sources")
    if max(sizes) < 4096:
        lb.append("failure at closing")
    return lb


# ---------------------------------------------------------------- files or folders that cannot be created
def run_create(case):
    fmt, ctl = case["fmt"], case["ctl"]
    srcs = {f"f{i}.rtcm3": build(it) for i, it in enumerate(case["files"])}
    ref = {n: alone(fmt, None, ctl, b) for n, b in srcs.items()}
    bad = {}  # source -> failing output files
    for n, (fs, _) in ref.items():
        names = sorted(fs)
        if not names or (case["one"] and bad):
            continue
        t = {names[k % len(names)] for k in case["which"]}
        if case["folder"]:
            t = {p for p in names if p.split("/")[0] in {x.split("/")[0] for x in t}}
        bad[n] = t
    if not bad:
        return []
    times = case["times"]  # None: for ever; k: the first k attempts per path
    count = {}

    def fault(event, path):
        q = path.replace(os.sep, "/")
        if case["log"] and event == "create" and q.endswith("-log.txt"):
            raise OSError(28, "No space left on device (injected)")
        for n, t in bad.items():
            head = f"/{n[:-6]}-{fmt}/"
            if head not in q:
                continue
            rel = q.split(head, 1)[1]
            if case["folder"] and times is None:
                hit = event == "mkdir" and rel in {p.split("/")[0] for p in t}
            else:
                hit = event == "create" and rel in t
            if hit:
                k = count[q] = count.get(q, 0) + 1
                if times is None or k <= times:
                    raise OSError(28, "No space left on device (injected)")

    @contextlib.contextmanager
    def inject():
        sut.GUARD.fault = fault
        yield

    res, cap = sut.cli_convert(fmt, srcs, ctl, patch=inject())
    v = verdicts(cap.err)
    if case["log"] and not v:
        v = [None] * len(srcs)
    if len(v) != len(srcs):
        raise Violation(f"{fmt}: {len(srcs)} sources, verdicts on the console {v}")
    for (n, o), verd in zip(res.items(), v):
        where = f"{fmt} {n}: "
        full, normal = ref[n]
        if o is None or (o.log is None and not case["log"]):
            raise Violation(f"{where}no output")
        got = norm(o.files)
        t = bad.get(n, set())
        for p, b in full.items():
            if p not in t and got.get(p) != b:
                raise Violation(f"{where}{p} is {'missing' if p not in got else 'not complete'} although only {sorted(t)} could not be created")
        for p in got:
            if p not in full:
                raise Violation(f"{where}unexpected file {p}")
        if not t:
            if verd not in (normal, None):
                raise Violation(f"{where}verdict {verd!r}, alone {normal!r}")
            continue
        if verd not in (ERRORS, None):
            raise Violation(f"{where}{sorted(t)} could not be created{'' if times is None else f' in the first {times} attempts'}, verdict {verd!r}")
        lost = {}
        for p in t:
            hdr = 1 if p.endswith(".json") else 2
            e = loads(p, full[p], where)
            rows = len(e) - hdr
            if times is None:
                if got.get(p):
                    raise Violation(f"{where}{p} has content although it could not be created")
                lost[p] = rows
            else:
                lost[p] = min(times, rows)
                if rows > times:
                    if p not in got:
                        raise Violation(f"{where}{p} could be created at attempt {times + 1}, but is missing")
                    a = loads(p, got[p], where)
                    if not eq(a, e[:hdr] + e[hdr + times :]):
                        raise Violation(f"{where}{p}: {len(a) - hdr} records, expected the last {rows - times} of {rows}")
        if verd is None:
            continue
        pr = re.findall(sut.PROGRESS, o.log or "")
        if not pr:
            raise Violation(f"{where}no progress line")
        n_err = int(pr[-1][4])
        if not max(lost.values()) <= n_err <= sum(lost.values()):
            raise Violation(f"{where}{n_err} printing errors reported; records that could not be written per file: {lost}")
    lb = ["nontrivial", fmt, "folder" if case["folder"] else "file"]
    if times is not None:
        lb.append("temporary failure")
    if case["log"]:
        lb.append("no log")
    if len(bad) < len(srcs):
        lb.append("affected and unaffected sources")
    return lb


@st.composite
def items_st(draw, lo=1, hi=5, big=False):
    good = st.one_of(gen.msm(small=True), gen.msm(small=True), gen.eph(), gen.base())
    out = draw(st.lists(st.one_of(good, good, good, good, gen.malformed(), gen.unsupported()), min_size=lo, max_size=hi))
    if big and draw(st.integers(0, 3)) == 0:
        out = out * draw(st.integers(5, 40))
    elif draw(st.integers(0, 2)) == 0:
        out = out * draw(st.integers(2, 3))
    return out


CTL = st.sampled_from(({}, {"HCA": True, "LOCK_TIME": True, "ENABLE_PRETTY_VIEW": False}))


def strat_space():
    return st.fixed_dictionaries({"files": st.lists(items_st(1, 5, True), min_size=1, max_size=3), "fmt": st.sampled_from(sut.FORMATS), "ctl": CTL, "at": st.integers(0, 30), "delta": st.one_of(st.sampled_from((-1, -1, -2, 0, -40, 3)), st.sampled_from((-1, -1, -3, 1000, 1001, 1020, 1052, 1060, 1150)))})


def strat_create():
    return st.fixed_dictionaries({"files": st.lists(items_st(), min_size=1, max_size=3), "fmt": st.sampled_from(sut.FORMATS), "ctl": CTL, "which": st.lists(st.integers(0, 60), min_size=1, max_size=3), "folder": st.booleans(), "times": st.sampled_from((None, None, 1, 1, 2, 3)), "one": st.booleans(), "log": st.sampled_from((False,) * 6 + (True,))})


TECHNIQUE = "fault injection (file size limits, failing creation of files and folders, lasting or temporary) over generated runs; differential against the undisturbed conversion"
NOTE = "The size limit is RLIMIT_FSIZE of the worker process, so it hits writing and closing in whatever way the code does them; verdicts are read from the console because the log itself may hit the limit."
ASSUMPTIONS = ["The content of a file that could not be written is not judged; where the log itself cannot be written the verdict is not asserted; failing work folders are part of C18."]
SUBS = [
    Sub("space", strat_space, run_space, (1200, 40000), "1..3 sources, all files limited to a size around that of some output file; non-trivial: some output exceeds the limit"),
    Sub("create", strat_create, run_create, (1600, 50000), "creation of chosen output files or folders fails for ever or for the first attempts; non-trivial: at least one output file affected"),
]
