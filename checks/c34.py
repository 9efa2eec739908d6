"""C34: the log names every value that was left out as invalid"""
import re
from collections import Counter

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.c10 import kind_of, supported
from checks.c33 import LINE, NUM

LACK = re.compile(r"\bno\s+(coarse|fine)\s+(range|phase|doppler)\b(.*)", re.I)
UNDEF = re.compile(r"\bfield\s+(\w+)\s+marked as undefined", re.I)
BIAS = {"1C": "L1CA", "1P": "L1P", "2C": "L2CA", "2P": "L2P"}


def lacks(m):
    """(required, optional) multisets of what the log has to say about one decoded MSM message in scaled form"""
    need, free = Counter(), Counter()
    g, lv = R.gnss_of(m["num"]), R.level_of(m["num"])
    if not m["sats"]:
        return need, free
    sigs = [R.SIGNALS[g][s] for s in m["sigs"]]
    S, C = m["sat"], m["sgn"]
    wr, wp = (20, 24) if lv in (6, 7) else (15, 22)
    if lv >= 4:
        for i, sat in enumerate(m["sats"]):
            if S["rng_ms"][i] == 255:
                need["coarse", "range", g, sat, None] += 1
            if lv in (5, 7) and S["phase_rate_rough"][i] == M.INVALID["phase_rate_rough", 14]:
                need["coarse", "doppler", g, sat, None] += 1
    for c, (i, j) in enumerate(R.msm_cells(m)):
        sat, sig = m["sats"][i], sigs[j]
        rough = lv < 4 or S["rng_ms"][i] != 255
        bad = lv != 2 and C["rng_fine"][c] == M.INVALID["rng_fine", wr]
        if rough and bad:
            need["fine", "range", g, sat, sig] += 1
        if rough and lv != 1 and C["phase_fine"][c] == M.INVALID["phase_fine", wp]:
            (free if lv == 3 and bad else need)["fine", "phase", g, sat, sig] += 1
        if lv in (5, 7) and S["phase_rate_rough"][i] != M.INVALID["phase_rate_rough", 14] and C["phase_rate_fine"][c] == M.INVALID["phase_rate_fine", 15]:
            need["fine", "doppler", g, sat, sig] += 1
    return need, free


def demand(it, fmt):
    """what the log has to say about a decoded message"""
    num = it["num"]
    if num in R.MSM_SET:
        return (Counter(), Counter()) if fmt == "JSON-B" else lacks(it)
    if num == 1230:
        return Counter(("undefined", BIAS[k]) for k, b in R.GLBS_BITS if it["mask"] & b and it["corr"][k] == -32768), Counter()
    return Counter(), Counter()


def groups(log):
    """[(number of the message decoded or None at the end, Counter of lines about lacking values before it)]"""
    out, cur = [], Counter()
    for line in log.splitlines():
        m = LINE.match(line)
        if not m:
            continue
        lev, text = m.groups()
        n = NUM.search(text)
        if n and lev == "INFO" and "succeeded" in text:
            out.append((int(n.group(1)), cur))
            cur = Counter()
            continue
        k = LACK.search(text)
        if k:
            kind, what, rest = k.group(1).lower(), k.group(2).lower(), k.group(3)
            g, sat, sig = re.search(r"gnss=\W*(\w)", rest), re.search(r"\bsat=\W*(\d+)", rest), re.search(r"\bsgn=\W*(\w+)", rest)
            if kind == "coarse" and lev != "WARNING":
                raise Violation(f"not a warning: {line}")
            cur[kind, what, g and g.group(1), sat and int(sat.group(1)), sig.group(1) if sig and kind == "fine" else None] += 1
            continue
        k = UNDEF.search(text)
        if k:
            if lev != "WARNING":
                raise Violation(f"not a warning: {line}")
            cur["undefined", k.group(1)] += 1
    out.append((None, cur))
    return out


def check(fmt, items, log, where=""):
    exp = [(it["num"], *demand(it, fmt)) for it in items if kind_of(it) not in ("unsupported", "bad") and supported(it["num"], fmt)]
    # what is said of a malformed message before it is rejected is left open
    loose, n = Counter(), 0
    for it in items:
        if kind_of(it) not in ("unsupported", "bad") and supported(it["num"], fmt):
            exp[n][2].update(loose)
            loose, n = Counter(), n + 1
        elif kind_of(it) == "bad" and it["num"] == 1230:
            loose.update(("undefined", x) for x in BIAS.values())
    got = groups(log)
    if [n for n, _ in got[:-1]] != [n for n, _, _ in exp]:
        raise Violation(f"{where}the log speaks of decoded messages {[n for n, _ in got[:-1]][:8]}, in the stream are {[n for n, _, _ in exp][:8]}")
    for i, ((n, need, free), (_, cur)) in enumerate(zip(exp, got)):
        if need - cur:
            raise Violation(f"{where}message {i} ({n}): the log does not name {sorted(need - cur, key=str)[:3]}")
        if cur - need - free:
            raise Violation(f"{where}message {i} ({n}): the log names {sorted(cur - need - free, key=str)[:3]}, which is not so")
    if got[-1][1] - loose:
        raise Violation(f"{where}after the last decoded message the log names {sorted(got[-1][1], key=str)[:3]}")
    return exp


def run(case):
    fmt, items = case["fmt"], case["items"]
    data = b"".join(gen.item_frame(it) for it in items)
    res, _ = sut.cli_convert(fmt, {"f.rtcm3": data}, case["ctl"])
    o = res["f.rtcm3"]
    if o is None or o.log is None:
        raise Violation("no log")
    exp = check(fmt, items, o.log, f"{fmt}: ")
    lb = [fmt]
    seen = sum((e[1] for e in exp), Counter())
    if seen:
        lb.append("nontrivial")
    lb += sorted({" ".join(k[:2]) if k[0] != "undefined" else "undefined bias" for k in seen})
    return lb


def spoil(draw, m):
    """put invalid markers into a message"""
    import copy
    import random

    rng = random.Random(draw(gen.seeds))
    share = rng.choice((0.02, 0.15, 0.5, 1.0))
    m = copy.deepcopy(m)
    if m["num"] == 1230:
        for k in m["corr"]:
            if rng.random() < 0.5:
                m["corr"][k] = rng.choice((-32768, -32768, -32767, 32767))
        return m
    if not m["sats"]:
        return m
    lv = R.level_of(m["num"])
    fields = [(b, f, w) for b, tab in (("sat", R.SAT_FIELDS), ("sgn", R.CELL_FIELDS)) for f, w, _ in tab[lv] if (f, w) in M.INVALID]
    for b, f, w in rng.sample(fields, rng.randint(0, len(fields))):
        v = M.INVALID[f, w]
        near = (v, v, v, 254) if f == "rng_ms" else (v, v, v, v + 1, -v - 1)
        m[b][f] = [rng.choice(near) if rng.random() < share else x for x in m[b][f]]
    return m


@st.composite
def strat(draw):
    items = []
    for m in draw(gen.sequence(st.one_of(gen.msm(small=True), gen.msm(small=True), gen.msm(), gen.base([1230]), gen.base(), gen.eph()), 1, 5)):
        items.append(spoil(draw, m) if (m["num"] in R.MSM_SET or m["num"] == 1230) and draw(st.integers(0, 3)) else m)
    for b in draw(st.lists(st.one_of(gen.malformed(), gen.unsupported()), max_size=2)):
        items.insert(draw(st.integers(0, len(items))), b)
    return {"items": items, "fmt": draw(st.sampled_from(("JSON", "JSON", "MARGO", "JARGO", "JSON-B"))), "ctl": draw(st.sampled_from(({}, {"HCA": True})))}


TECHNIQUE = "generated messages with invalid markers; log lines parsed and compared with the markers the generator put in"
NOTE = "Lines are recognised by the words 'No coarse/fine range/phase/doppler' with gnss=, sat= and sgn=, and 'Field X marked as undefined'. A phase marker in an MSM3 cell without code range may or may not be named."
SUBS = [Sub("markers", strat, run, (2400, 120000), "1..5 messages with markers in rough and fine parts, mixed with malformed and unsupported ones; non-trivial: at least one value is missing")]
SUBS.append(Fuzz(SUBS[0], "items", (24000, 2000000)))
