"""C19: statistics and verdict"""
import os
import re

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.c10 import kind_of, supported

VERDICTS = ("Finished without errors.", "Finished with errors.", "Decoding was terminated.")


def expect(fmt, items, data):
    """(attempts, parse errors, decode errors, records) or None if the stream happens to hold an unknown frame"""
    kinds = {}
    for it in items:
        if isinstance(it, dict):
            kinds[gen.item_frame(it)] = it
    fr = M.scan(data, eof=True)
    att = dec = 0
    recs = []
    for a, b in fr:
        f = data[a:b]
        it = kinds.get(f)
        if it is None:
            if len(f) >= 8 and supported(M.mnum(f), fmt):
                return None
            if len(f) < 8:
                return None
            continue
        k = kind_of(it)
        if k == "unsupported" or not supported(M.mnum(f), fmt):
            continue
        att += 1
        if k == "bad":
            dec += 1
        else:
            recs.append(it)
    return att, M.gaps(fr), dec, recs


def check_log(log, size, exp, where=""):
    """exp: (attempts, parsing, decoding, printing errors)"""
    lines = [x for x in log.splitlines() if x.strip()]
    verdicts = [v for x in lines for v in VERDICTS if v in x]
    v = VERDICTS[1] if exp[1] or exp[2] or exp[3] else VERDICTS[0]
    if verdicts != [v]:
        raise Violation(f"{where}verdicts in the log: {verdicts}, expected {v!r}")
    if v not in lines[-1]:
        raise Violation(f"{where}the log ends with {lines[-1]!r}, expected {v!r}")
    pr = re.findall(sut.PROGRESS, log)
    if not pr:
        if size:
            raise Violation(f"{where}no progress line in the log")
        return
    last = pr[-1]
    if last[0] != "100.00":
        raise Violation(f"{where}last progress line states {last[0]}%")
    got = tuple(int(x) for x in last[1:])
    if got != tuple(exp):
        raise Violation(f"{where}last progress line: messages, parsing, decoding, printing errors {got}, expected {tuple(exp)}")
    prev = (0, 0, 0, 0, 0)
    for p in pr:
        cur = (float(p[0]),) + tuple(int(x) for x in p[1:])
        if any(c < q for c, q in zip(cur, prev)):
            raise Violation(f"{where}progress goes backwards: {prev} then {cur}")
        prev = cur


def build(items):
    return b"".join(gen.item_frame(x) if isinstance(x, dict) else bytes.fromhex(x) for x in items)


def run(case):
    fmt, items = case["fmt"], case["items"]
    data = build(items)
    e = expect(fmt, items, data)
    if e is None:
        return ["skipped: garbage holds a frame"]
    att, prs, dec, recs = e
    o = sut.convert(fmt, data, case["ctl"], case["chunks"] and _chunks(len(data), case["chunks"]))
    exp = {"decoding_attempts": att, "parsing_errors": prs, "decoding_errors": dec, "printing_attempts": len(recs), "printing_errors": 0}
    if o.stats != exp:
        raise Violation(f"{fmt}: statistics {o.stats}, expected {exp}")
    o = sut.run(fmt, data, case["ctl"], "cli")
    check_log(o.log, len(data), (att, prs, dec, 0), f"{fmt}: ")
    lb = [fmt]
    if prs:
        lb.append("parsing errors")
    if dec:
        lb.append("decoding errors")
    if not prs and not dec:
        lb.append("clean")
    if not data:
        lb.append("empty file")
    if att:
        lb.append("nontrivial")
    return lb


def _chunks(n, k):
    return [k] * (n // k) + ([n % k] if n % k else [])


@st.composite
def items_st(draw, lo=0, hi=6):
    good = st.one_of(gen.msm(small=True), gen.eph(), gen.base())
    it = st.one_of(good, good, good, gen.malformed(), gen.unsupported(), gen.garbage().map(bytes.hex))
    out = draw(st.lists(it, min_size=lo, max_size=hi))
    if out and draw(st.integers(0, 6)) == 0:  # larger than one file block
        out = out * draw(st.integers(5, 60))
    return out


def strat():
    return st.fixed_dictionaries({"items": items_st(), "fmt": st.sampled_from(sut.FORMATS), "ctl": st.sampled_from(({}, {"HCA": True, "LOCK_TIME": True})), "chunks": st.sampled_from((None, None, 1, 7, 4096))})


def run_many(case):
    """counters beyond three or four digits"""
    items = case["items"] * (case["n"] // len(case["items"]) + 1)
    return ["nontrivial"] if "nontrivial" in run({"items": items, "fmt": case["fmt"], "ctl": {}, "chunks": 4096}) else []


def strat_many():
    good = gen.base(nums=[1005, 1006, 1230])
    bad = gen.malformed().filter(lambda it: len(gen.item_frame(it)) < 100)
    it = st.one_of(good, bad, good, bad, gen.unsupported().filter(lambda it: len(gen.item_frame(it)) < 60), st.sampled_from(("00", "ff55", "d3")))
    # JSON formats: MARGO ignores base station messages
    return st.fixed_dictionaries({"items": st.lists(it, min_size=1, max_size=4), "n": gen.or_novel(st.sampled_from((260, 1001, 1030, 1100, 2300, 5000)), 100, 20000), "fmt": st.sampled_from(("JSON", "JSON-B", "JSON", "JARGO", "MARGO"))})


# several files in one run: each log has its own counts
def run_multi(case):
    fmt = case["fmt"]
    srcs, exp = {}, {}
    for i, items in enumerate(case["files"]):
        data = build(items)
        e = expect(fmt, items, data)
        if e is None:
            return ["skipped: garbage holds a frame"]
        srcs[f"f{i}.rtcm3"] = data
        exp[f"f{i}.rtcm3"] = e
    res, _ = sut.cli_convert(fmt, srcs)
    for n, o in res.items():
        if o is None or o.log is None:
            raise Violation(f"{n}: no log")
        a, p, d, _r = exp[n]
        check_log(o.log, len(srcs[n]), (a, p, d, 0), f"{fmt} {n}: ")
    ok = {bool(e[1] or e[2]) for e in exp.values()}
    return ["nontrivial"] if len(ok) == 2 else []


# printing failures: some output files cannot be created
def run_print(case):
    fmt, items = case["fmt"], case["items"]
    data = build(items)
    e = expect(fmt, items, data)
    if e is None:
        return ["skipped: garbage holds a frame"]
    att, prs, dec, recs = e
    if fmt == "JARGO":
        tag = lambda m: m["num"] not in R.MSM_SET  # noqa: E731
    else:
        tag = lambda m: True  # noqa: E731
    cand = sorted({m["num"] for m in recs if tag(m)})
    if not cand:
        return []
    bad = {cand[k % len(cand)] for k in case["which"]}
    nfail = sum(1 for m in recs if m["num"] in bad)
    names = {M.json_path(n) for n in bad}

    def fault(event, path):
        if event == "create" and any(path.replace(os.sep, "/").endswith("/" + n) for n in names):
            raise OSError(28, "No space left on device (injected)")

    stats = None
    d = sut.SCRATCH.new()
    try:
        if case["via"] == "api":
            with sut.quiet(), sut.guarded(), sut.no_raise("conversion "):
                sut.GUARD.fault = fault
                c = sut.new_converter(fmt, d)
                o = sut.Out()
                sut._feed(c, o, c.parse_bytes(data))
                while True:
                    ms = c.flush()
                    if not ms:
                        break
                    sut._feed(c, o, ms)
                c.release()
                stats = sut.stats_of(c)
            exp = {"decoding_attempts": att, "parsing_errors": prs, "decoding_errors": dec, "printing_attempts": len(recs), "printing_errors": nfail}
            if stats != exp:
                raise Violation(f"{fmt}: {nfail} records could not be written: statistics {stats}, expected {exp}")
            files = sut.read_tree(d)
        else:
            import contextlib

            @contextlib.contextmanager
            def inject():
                sut.GUARD.fault = fault
                yield

            res, _ = sut.cli_convert(fmt, {"s.rtcm3": data}, keep=d, patch=inject())
            o = res["s.rtcm3"]
            if o is None or o.log is None:
                raise Violation("no log")
            check_log(o.log, len(data), (att, prs, dec, nfail), f"{fmt}: {nfail} records could not be written: ")
            files = o.files
    finally:
        sut.SCRATCH.drop(d)
    # the other message numbers are complete
    for n in cand:
        p = M.json_path(n)
        if n in bad:
            continue
        x = sut.Out()
        x.files = {k.replace(os.sep, "/"): v for k, v in files.items()}
        arr = x.json(path=p)
        k = sum(1 for m in recs if m["num"] == n)
        if len(arr) != k + 1:
            raise Violation(f"{fmt}: {p} holds {len(arr) - 1} of {k} records although only {sorted(names)} could not be written")
    return ["nontrivial", fmt, case["via"]]


def strat_print():
    return st.fixed_dictionaries({"items": items_st(1, 6), "fmt": st.sampled_from(("JSON", "JSON-B", "JARGO")), "which": st.lists(st.integers(0, 5), min_size=1, max_size=2), "via": st.sampled_from(("api", "cli"))})


TECHNIQUE = "model of counters and verdict over generated streams, with injected file-creation failures"
NOTE = "Counts follow from the generated message list and the reference scan; cases whose garbage happens to hold a frame are skipped."
SUBS = [
    Sub("streams", strat, run, (3200, 100000), "good, malformed, unsupported messages and garbage; statistics through the API, log through the command line; non-trivial: at least one decoding attempt"),
    Sub("files", lambda: st.fixed_dictionaries({"files": st.lists(items_st(0, 3), min_size=2, max_size=3), "fmt": st.sampled_from(sut.FORMATS)}), run_multi, (1200, 30000), "2..3 files in one run; non-trivial: clean and faulty files together"),
    Sub("many", strat_many, run_many, (64, 2000), "up to four kinds of items repeated to 260..5000; non-trivial: at least one decoding attempt"),
    Sub("printing", strat_print, run_print, (1600, 50000), "creation of some output files fails; non-trivial: at least one record affected"),
]
SUBS.append(Fuzz(SUBS[0], "items", (24000, 2000000)))
