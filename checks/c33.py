"""C33: the log of a conversion accounts for every message"""
import re

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.c10 import kind_of, supported
from checks.c19 import build, items_st

LINE = re.compile(r"^\w+:(\w+): (.*)$")
NUM = re.compile(r"\b(?:msg|message)\s*:?\s*(\d+)", re.I)


def events(log):
    """[(kind, number, line)]; kind S decoded, U not supported, E warning or error naming a message, P progress line"""
    ev = []
    for line in log.splitlines():
        m = LINE.match(line)
        if not m:
            continue
        lev, text = m.groups()
        if lev == "PROGRESS":
            p = re.search(sut.PROGRESS, line)
            if p:
                ev.append(("P", p.groups(), line))
            continue
        n = NUM.search(text)
        if not n:
            continue
        num = int(n.group(1))
        if lev in ("WARNING", "ERROR"):
            ev.append(("E", num, line))
        elif "succeeded" in text:
            ev.append(("S", num, line))
        elif "not found" in text:
            ev.append(("U", num, line))
        else:
            ev.append(("?", num, line))
    return ev


def expected(fmt, items, data):
    kinds = {gen.item_frame(it): it for it in items if isinstance(it, dict)}
    out = []
    for a, b in M.scan(data, eof=True):
        f = data[a:b]
        if len(f) < 8 or f not in kinds:
            return None
        it = kinds[f]
        num = M.mnum(f)
        k = kind_of(it)
        out.append(("U" if k == "unsupported" or not supported(num, fmt) else "E" if k == "bad" else "S", num, it))
    return out


def epoch(it):
    return it["time"] & 0x7FFFFFF if R.gnss_of(it["num"]) == "R" else it["time"]


def good(k, num, it, line):
    if k != "S" or num not in R.MSM_SET:
        return True
    t, n = re.search(r"\bt\s*=\s*(-?\d+)", line), re.search(r"\bsats\s*=\s*(\d+)", line)
    return bool(t and n) and (int(t.group(1)), int(n.group(1))) == (epoch(it), len(it["sats"]))


def check(fmt, items, data, log, where=""):
    exp = expected(fmt, items, data)
    if exp is None:
        return None
    ev = events(log)
    n = len(ev)
    att = err = 0

    def closure(pos):
        """progress lines may stand between messages; their counts are those of the messages before"""
        out = set()
        for i in pos:
            out.add(i)
            while i < n and ev[i][0] == "P" and tuple(int(ev[i][1][k]) for k in (1, 3)) == (att, err):
                i += 1
                out.add(i)
        return out

    def line(pos):
        i = max(pos)
        return ev[i][2] if i < n else None

    pos = {0}
    for j, (k, num, it) in enumerate(exp):
        pos = closure(pos)
        new = set()
        for i in pos:
            if k != "U":
                while i < n and ev[i][:2] == ("E", num):  # lines about a rejected message, warnings about a decoded one
                    i += 1
                    if k == "E":
                        new.add(i)
            if k != "E" and i < n and ev[i][:2] == (k, num) and good(k, num, it, ev[i][2]):
                new.add(i + 1)
        if not new:
            what = {"S": "decoded", "E": "rejected", "U": "not supported"}[k]
            raise Violation(f"{where}message {j} ({num}, {what}{'' if k != 'S' or num not in R.MSM_SET else f', epoch {epoch(it)}, satellites ' + str(len(it['sats']))}): next line of the log {line(pos)!r}; before it {att} supported messages, {err} of them rejected")
        pos = new
        att += k != "U"
        err += k == "E"
    pos = closure(pos)
    if n not in pos:
        raise Violation(f"{where}after the last message ({att} supported, {err} of them rejected) the log has {line(pos)!r}")
    return exp


def run(case):
    fmt = case["fmt"]
    srcs, lb = {}, [fmt]
    for i, items in enumerate(case["files"]):
        srcs[f"f{i}.rtcm3"] = build(items)
        if expected(fmt, items, srcs[f"f{i}.rtcm3"]) is None:
            return ["skipped: garbage holds a frame"]
    res, _ = sut.cli_convert(fmt, srcs, case["ctl"])
    for (n, o), items in zip(res.items(), case["files"]):
        if o is None or o.log is None:
            raise Violation(f"{n}: no log")
        exp = check(fmt, items, srcs[n], o.log, f"{fmt} {n}: ")
        ks = {k for k, _, _ in exp}
        lb += sorted(ks)
        if len(ks) > 1:
            lb.append("nontrivial")
        for word in ("Opened", "Closing"):
            if not any(word in x and n in x for x in o.log.splitlines()):
                raise Violation(f"{n}: the log does not state {word.lower()} of the source")
        if len(srcs[n]) > 4096:
            lb.append("several blocks")
    return sorted(set(lb))


def strat():
    return st.fixed_dictionaries({"files": st.lists(items_st(0, 6), min_size=1, max_size=2), "fmt": st.sampled_from(sut.FORMATS), "ctl": st.sampled_from(({}, {"HCA": True}))})


def run_many(case):
    items = case["items"] * (case["n"] // len(case["items"]) + 1)
    return run({"files": [items], "fmt": case["fmt"], "ctl": {}})


def strat_many():
    bad = st.one_of(gen.malformed(), gen.unsupported()).filter(lambda it: len(gen.item_frame(it)) < 100 and M.mnum(gen.item_frame(it)) not in (1005, 1006))
    it = st.builds(lambda a, bs, c: [a, bs[0], c] + bs[1:], gen.base(nums=[1005]), st.lists(bad, min_size=1, max_size=2, unique_by=lambda b: M.mnum(gen.item_frame(b))), gen.base(nums=[1006]))
    return st.fixed_dictionaries({"items": it, "n": gen.or_novel(st.sampled_from((130, 260, 530, 1030, 2300, 5000)), 100, 20000), "fmt": st.sampled_from(("JSON", "JSON-B", "JARGO"))})


TECHNIQUE = "generated runs; the sequence of log lines is parsed and matched against the reference scan and the generated message list"
NOTE = "Lines are recognised by severity, the message number and the words succeeded / not found; other wording is free. Streams whose garbage happens to hold a frame are skipped."
SUBS = [Sub("runs", strat, run, (2400, 80000), "decoded, rejected and unsupported messages and garbage in 1..2 files; non-trivial: at least two kinds of outcome in one file"), Sub("many", strat_many, run_many, (40, 1200), "up to four messages repeated to 130..5000; non-trivial as above", shrink=False)]
SUBS.append(Fuzz(SUBS[0], "files", (20000, 1500000)))
