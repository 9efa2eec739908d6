"""Hypothesis strategies producing JSON-serialisable cases.

Structure (message numbers, satellites, signals, fill modes) is drawn by Hypothesis; bulk field values are
expanded from a drawn 32-bit seed.  The expanded message is part of the case, so a replay needs no generator.
"""
import ast
import copy
import functools
import glob
import json
import os
import random

from hypothesis import strategies as st

from . import model as M
from . import rtcm as R

REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- dictionary of constants used by the program
def literals(repo=None):
    """{file: {"i": {int: times}, "s": {str: times}}}: literals in the sources (tests and big tables excluded)"""
    repo = repo or REPO
    out = {}
    for path in sorted(glob.glob(os.path.join(repo, "**", "*.py"), recursive=True)):
        rel = os.path.relpath(path, repo)
        if rel.startswith("tests") or os.path.basename(rel).startswith("test_"):
            continue
        try:
            with open(path, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (SyntaxError, UnicodeDecodeError, ValueError, OSError):
            continue
        ints, strs = {}, {}
        skip = set()
        for node in ast.walk(tree):
            if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) > 64:
                skip.update(id(e) for e in node.elts)
            if isinstance(node, ast.Constant) and id(node) not in skip:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, float) and v.is_integer() and abs(v) < 1 << 53:
                    v = int(v)
                if isinstance(v, int) and abs(v) < 1 << 64:
                    ints[v] = ints.get(v, 0) + 1
                elif isinstance(v, str) and 0 < len(v) <= 12:
                    strs[v] = strs.get(v, 0) + 1
            if isinstance(node, ast.BinOp) and isinstance(node.left, ast.Constant) and isinstance(node.right, ast.Constant):
                try:
                    v = eval(compile(ast.Expression(node), "", "eval"), {"__builtins__": {}})  # literal arithmetic only
                    if isinstance(v, int) and abs(v) < 1 << 64:
                        ints[v] = ints.get(v, 0) + 1
                except Exception:
                    pass
        out[rel] = {"i": ints, "s": strs}
    return out


@functools.lru_cache(None)
def dictionary():
    """(sorted ints, sorted strs) that occur as literals in the sources"""
    ints, strs = set(), set()
    for d in literals().values():
        ints |= set(d["i"])
        strs |= set(d["s"])
    full = set()
    for v in ints:
        full |= {v - 1, v, v + 1, -v}
    return sorted(full), sorted(strs)


@functools.lru_cache(None)
def novel():
    """(ints, strs) that occur more often in some source file than in the tree the checks were written for (vlib/baseline.json).

    They only steer generation towards what an edit may have made special; the oracles don't know of them."""
    try:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline.json"), encoding="utf-8") as f:
            old = json.load(f)
    except (OSError, ValueError):
        return (), ()
    out = {"i": set(), "s": set()}
    for rel, d in literals().items():
        for k in "is":
            o = old.get(rel, {}).get(k, {})
            out[k] |= {v for v, n in d[k].items() if n > o.get(str(v), 0)}
    if len(out["i"]) > 60 or len(out["s"]) > 60:  # files were moved or written anew: nothing stands out
        return (), ()
    return tuple(sorted(out["i"])), tuple(sorted(out["s"]))


@functools.lru_cache(None)
def novel_ints(lo, hi):
    """novel values in lo..hi, the literals themselves more often than their neighbours"""
    return tuple(x for v in novel()[0] for x in (v, v, v, v, v, v - 1, v + 1, -v) if lo <= x <= hi)


def or_novel(strategy, lo, hi):
    return st.one_of(strategy, st.sampled_from(novel_ints(lo, hi))) if novel_ints(lo, hi) else strategy


def new_rng(seed):
    """source of bulk values; while it is `special`, it prefers novel constants"""
    rng = random.Random(seed)
    if novel()[0]:
        rng.special = random.Random(~seed).choice((0, 0.06, 0.5))
    return rng


@functools.lru_cache(None)
def pool(width, kind):
    """interesting values of a field: (boundaries, dictionary constants that fit)"""
    if kind == "s":
        lo, hi = -(1 << (width - 1)), (1 << (width - 1)) - 1
    else:
        lo, hi = 0, (1 << width) - 1
    b = {lo, lo + 1, hi, hi - 1, 0, 1, (lo + hi) // 2, (lo + hi) // 2 + 1}
    if lo < 0:
        b |= {-1, -2}
    for k in range(width):
        for v in (1 << k, (1 << k) - 1, -(1 << k)):
            if lo <= v <= hi:
                b.add(v)
    d = [v for v in dictionary()[0] if lo <= v <= hi]
    return tuple(sorted(v for v in b if lo <= v <= hi)), tuple(d), lo, hi


def rnd_value(rng, width, kind):
    b, d, lo, hi = pool(width, kind)
    if novel_ints(lo, hi) and rng.random() < getattr(rng, "special", 0.06):
        return rng.choice(novel_ints(lo, hi))
    r = rng.random()
    if r < 0.1:
        return extreme(rng, lo, hi)
    if r < 0.25:
        return b[rng.randrange(len(b))]
    if r < 0.37 and d:
        return d[rng.randrange(len(d))]
    if r < 0.45:
        return max(lo, min(hi, rng.randint(-8, 8)))
    return rng.randint(lo, hi)


def extreme(rng, lo, hi):
    return max(lo, min(hi, rng.choice((lo, lo, lo + 1, hi, hi, hi - 1, 0, 1, -1))))


def fill(rng, mode, n, name, width, kind):
    """n values of one field"""
    _, _, lo, hi = pool(width, kind)
    if mode == "zero":
        return [0] * n
    if mode == "max":
        return [hi] * n
    if mode == "min":
        return [lo] * n
    if mode == "marker":
        inv = M.INVALID.get((name, width))
        if inv is None:
            return [rnd_value(rng, width, kind) for _ in range(n)]
        return [max(lo, min(hi, inv + rng.choice((0, 0, 0, 1, -1)))) if rng.random() < 0.5 else rng.randint(lo, hi) for _ in range(n)]
    if mode == "mid":  # ordinary values, never an invalid marker
        inv = M.INVALID.get((name, width))
        return [v if v != inv else 0 for v in (rng.randint(lo, hi) for _ in range(n))]
    if mode == "extreme":
        return [extreme(rng, lo, hi) for _ in range(n)]
    if mode == "ramp":
        return [max(lo, min(hi, i + 1)) for i in range(n)]
    return [rnd_value(rng, width, kind) for _ in range(n)]


MODES = ("rand", "rand", "rand", "marker", "mid", "zero", "max", "min", "ramp", "extreme")
seeds = st.integers(0, 2**32 - 1)


def _time(rng, gnss, valid):
    nov = novel_ints(0, 86400999 if gnss == "R" else 604799999)
    if valid and nov and rng.random() < 0.15:
        t = rng.choice(nov)
        if rng.random() < 0.3 and t < 604800:
            t *= 1000
        return (rng.randrange(7) << 27) | min(t, 86400999) if gnss == "R" else t
    if gnss == "R":
        if valid:
            day = rng.randrange(7)
            tod = rng.choice((0, 1, 10799999, 10800000, 10782000, 10781999, 86399999, 86400000, 86400999, rng.randrange(86401000), rng.randrange(86401000), rng.randrange(86401000)))
            return (day << 27) | tod
        return rnd_value(rng, 30, "u")
    if valid:
        return rng.choice((0, 1, 604799999, 604786000, 604785999, 604800000 - 18000, rng.randrange(604800000), rng.randrange(604800000), rng.randrange(604800000), 1000 * rng.randrange(604800)))
    return rnd_value(rng, 30, "u")


@st.composite
def msm(draw, nums=None, known=True, valid_time=False, margo=False, small=False, allow_empty=True, sat_max=64):
    """a well-formed MSM message.

    known: only signals the converter knows; margo: restrict to what the MARGO oracle decides unambiguously;
    small: at most 4x4."""
    num = draw(st.sampled_from(nums or R.MSM_NUMS))
    g, lv = R.gnss_of(num), R.level_of(num)
    rng = new_rng(draw(seeds))
    mode = draw(st.sampled_from(MODES))
    shape = draw(st.sampled_from(("small", "small", "mid", "mid", "wide", "tall", "full", "one")))
    sigpool = sorted(R.SIGNALS[g]) if known else list(range(1, 33))
    if small and shape in ("wide", "tall", "full", "mid"):
        shape = "small"
    if shape == "one":
        nsat = nsig = 1
    elif shape == "small":
        nsat, nsig = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    elif shape == "mid":
        nsig = rng.randint(1, min(6, len(sigpool)))
        nsat = rng.randint(1, 64 // nsig)
    elif shape == "wide":
        nsig = rng.randint(1, len(sigpool))
        nsat = rng.randint(1, 64 // nsig)
    elif shape == "tall":
        nsig = rng.choice((1, 1, 1, 2))
        nsat = rng.randint(1, 64 // nsig)
    else:
        nsig = rng.choice([k for k in (1, 2, 4, 8, 16, 32) if k <= len(sigpool)])
        nsat = 64 // nsig
    nov = novel_ints(1, 64)
    if nov and not small and rng.random() < 0.15:
        nsat = rng.choice(nov)
        nsig = max(1, min(nsig, 64 // nsat))
    nsig = min(nsig, len(sigpool))
    nsat = min(nsat, 64 // nsig)
    top = sat_max
    if margo and rng.random() < 0.85:
        top = min(top, M.MARGO_COLS[g])
    nsat = min(nsat, top)
    empty = allow_empty and draw(st.integers(0, 24)) == 24
    if empty:
        sats = []
        nsat = 0
    elif rng.random() < 0.15:
        sats = list(range(1, nsat + 1))
    elif rng.random() < 0.2:
        sats = list(range(top - nsat + 1, top + 1))
    else:
        sats = sorted(rng.sample(range(1, top + 1), nsat))
    sigs = sorted(rng.sample(sigpool, nsig))
    if empty and rng.random() < 0.5:
        sigs = []
    dens = rng.choice((1.0, 1.0, 0.8, 0.5, 0.2, 0.0))
    cells = [1 if rng.random() < dens else 0 for _ in range(nsat * len(sigs))]
    if cells and not any(cells):
        cells[rng.randrange(len(cells))] = 1
    m = {"num": num}
    for name, width in R.HDR_FIELDS:
        m[name] = rnd_value(rng, width, "u")
    m["time"] = _time(rng, g, valid_time or rng.random() < 0.3)
    m["sats"], m["sigs"], m["cells"] = sats, sigs, cells
    nc = sum(cells)
    m["sat"] = {n: fill(rng, mode, nsat, n, w, k) for n, w, k in R.SAT_FIELDS[lv]}
    m["sgn"] = {n: fill(rng, mode, nc, n, w, k) for n, w, k in R.CELL_FIELDS[lv]}
    if rng.random() < 0.3:
        m["pad"] = 0x7F
    if nc and rng.random() < 0.04:
        cancel(rng, m)
    if margo:
        clean_margo(m)
    return m


def cancel(rng, m):
    """rough and fine parts of some cells add up to zero"""
    lv, ns = R.level_of(m["num"]), len(m["sigs"])
    cells = [i for i, c in enumerate(m["cells"]) if c]
    for n, i in enumerate(cells):
        s = i // ns
        if rng.random() < 0.3:
            continue
        if "phase_rate_fine" in m["sgn"]:
            m["sat"]["phase_rate_rough"][s] = max(-1, min(1, m["sat"]["phase_rate_rough"][s]))
            m["sgn"]["phase_rate_fine"][n] = -10000 * m["sat"]["phase_rate_rough"][s]
        if "phase_fine" in m["sgn"]:
            if lv >= 4:
                m["sat"]["rng_ms"][s] = 0
            m["sat"]["rng_rough"][s] &= 3
            m["sgn"]["phase_fine"][n] = -m["sat"]["rng_rough"][s] << (21 if lv >= 6 else 19)


def clean_margo(m):
    """make MSM3 unambiguous: a cell with invalid code range has an invalid phase, too"""
    if R.level_of(m["num"]) == 3:
        for i, v in enumerate(m["sgn"]["rng_fine"]):
            if v == -(1 << 14):
                m["sgn"]["phase_fine"][i] = -(1 << 21)
    return m


@st.composite
def eph(draw, nums=None, extra=True):
    num = draw(st.sampled_from(nums or R.EPH_NUMS))
    mode = draw(st.sampled_from(("rand", "rand", "rand", "mid", "zero", "max", "sign", "extreme")))
    rng = new_rng(draw(seeds))
    raw = {}
    for name, width, kind, _ in R.EPH[num]:
        if name is None:
            continue
        hi = (1 << width) - 1
        if mode == "zero":
            v = 0
        elif mode == "max":
            v = hi
        elif mode == "sign":
            v = 1 << (width - 1)
        elif mode == "mid":
            v = rng.randint(0, hi)
        elif mode == "extreme":
            v = rng.choice((0, 1, hi, hi - 1, 1 << (width - 1), (1 << (width - 1)) - 1, (1 << (width - 1)) | 1)) & hi
        else:
            v = rnd_value(rng, width, "s" if kind == "s" else "u") & hi
            if kind == "m" and rng.random() < 0.3:
                v = rng.choice((1 << (width - 1), (1 << (width - 1)) | 1, hi, hi >> 1))
        raw[name] = v
    if draw(st.booleans()):
        f = draw(st.sampled_from([x for x in R.EPH[num] if x[0]]))
        raw[f[0]] = draw(st.integers(0, (1 << f[1]) - 1))
    m = {"num": num, "raw": raw, "rsv": rng.choice((0, 0, 0x3FF, rng.randrange(1024)))}
    if rng.random() < 0.3:
        m["pad"] = 0x7F
    if extra and rng.random() < 0.05:
        m["extra"] = rng.randint(1, 3)
    return m


TEXTS = ["", "A", "ADVNULLANTENNA", "TRM59800.00     NONE", " ", "  x  ", "\u00e9", "\u6d4b\u91cf", "\U0001f6f0", "0", "UNDEF", "a\nb", "q\"\\", "\x00", "\r", "\t", "\x7f", ",", "]", "null", "\ufeff", "\ufeffA", "\ufffd", "\u2028", "\x85", "\xa0", "\ud7ff", "\ue000", "\U0010ffff", "%s", "{}", "/*", "\x1b[0m", "e\u0301", "\u0130", "\xdf", "0x41", "A\x00", "\x00A", "A ", " A", "A\n", "\r\n"]


def novel_text(rng, maxlen):
    s = rng.choice(("", "", "", "A", " ")) + rng.choice(novel()[1]) + rng.choice(("", "", "", "A", " "))
    b = s.encode("utf-8", "replace")
    return (b if len(b) <= maxlen else b"").hex()


def _text(rng, maxlen):
    if novel()[1] and rng.random() < 0.15:
        return novel_text(rng, maxlen)
    if novel_ints(1, maxlen) and rng.random() < 0.15:
        return bytes(rng.randint(32, 126) for _ in range(rng.choice(novel_ints(1, maxlen)))).hex()
    r = rng.random()
    if r < 0.15:
        s = ""
    elif r < 0.45:
        s = rng.choice(TEXTS)
        while rng.random() < 0.3:
            s += rng.choice(TEXTS)
    elif r < 0.55:
        ss = [x for x in dictionary()[1]]
        s = rng.choice(ss) if ss else ""
    elif r < 0.9:
        s = "".join(chr(rng.choice((rng.randint(32, 126), rng.randint(32, 126), rng.randint(32, 126), rng.randint(0, 255)))) for _ in range(rng.randint(1, 31)))
    else:
        s = "".join(chr(rng.choice((rng.randint(32, 126), rng.randint(0xA0, 0x7FF), rng.randint(0x800, 0xD7FF), rng.randint(0x10000, 0x10FFFF)))) for _ in range(rng.randint(1, 255)))
        if rng.random() < 0.5:
            s = "x" * 255
    while len(s.encode()) > maxlen:
        s = s[:-1]
    return s.encode().hex()


@st.composite
def base(draw, nums=None):
    num = draw(st.sampled_from(nums or R.BASE_NUMS))
    rng = new_rng(draw(seeds))
    mode = draw(st.sampled_from(("rand", "rand", "rand", "zero", "max", "min", "mid", "extreme", "extreme")))

    def val(width, kind="u"):
        return fill(rng, mode, 1, "", width, kind)[0]

    m = {"num": num}
    if num in R.BASE_FIXED:
        m["raw"] = {n: val(w, k) & ((1 << w) - 1) for n, w, k in R.BASE_FIXED[num] if n}
        m["rsv"] = rng.randrange(2)
    elif num in R.BASE_STR:
        m["bsID"], m["setupID"] = val(12), val(8)
        left = 1023 - 12
        m["str"] = {}
        for n in R.BASE_STR[num]:
            t = _text(rng, min(255, left))
            m["str"][n] = t
            left -= len(t) // 2
    elif num == 1013:
        for k, w in (("bsID", 12), ("modifiedJulianDay", 16), ("daySec", 17), ("leapSec", 8)):
            m[k] = val(w)
        n = draw(st.sampled_from((0, 1, 2, 3, 5, 30, 31, 32, 64, 279)))
        ids = sorted({rnd_value(rng, 12, "u") for _ in range(n)})
        if n == 279:
            ids = rng.sample(range(4096), rng.choice((279, 278, 256, 255, 128, rng.randint(32, 279))))
        rng.shuffle(ids)
        m["items"] = [[i, rng.randrange(2), rnd_value(rng, 16, "u")] for i in ids]
        # Nm == 0 means "undefined": the number of announcements follows from the message length.
        if len(ids) > 31 or draw(st.integers(0, 3)) == 3:
            m["nm_zero"] = True
    elif num == 1029:
        for k, w in (("bsID", 12), ("modifiedJulianDay", 16), ("daySec", 17), ("charNum", 7)):
            m[k] = val(w)
        m["text"] = _text(rng, 255)
    else:
        m["bsID"], m["isCorrected"] = val(12), rng.randrange(2)
        m["mask"] = draw(st.integers(0, 15))
        m["corr"] = {k: val(16, "s") for k, b in R.GLBS_BITS}
        m["rsv"] = rng.randrange(8)
    if rng.random() < 0.3:
        m["pad"] = 0x7F
    return m


def any_msg(**kw):
    return st.one_of(msm(**kw), msm(**kw), eph(), base())


UNSUPPORTED = [n for n in range(4096) if n not in set(R.ALL_NUMS)]
NEAR_UNSUPPORTED = sorted({n + d for n in R.ALL_NUMS for d in (-2, -1, 1, 2, 3)} - set(R.ALL_NUMS))


@st.composite
def unsupported(draw):
    """{'raw': hex payload} of an unsupported message number"""
    num = draw(st.one_of(st.sampled_from(NEAR_UNSUPPORTED), st.sampled_from(UNSUPPORTED)))
    rng = new_rng(draw(seeds))
    n = draw(st.sampled_from((2, 3, 8, 20, 61, 200, 1023)))
    b = bytearray(rng.randbytes(n))
    b[0] = num >> 4
    b[1] = ((num & 15) << 4) | (b[1] & 15)
    return {"payload": bytes(b).hex()}


def tweak(m, seed, margo=False, keep_time=False):
    """a copy of message m that differs in one place only (value, epoch, station, satellite or signal)"""
    rng = new_rng(seed)
    m = copy.deepcopy(m)
    num = m["num"]
    if num in R.MSM_SET:
        g, lv = R.gnss_of(num), R.level_of(num)
        what = rng.choice(("cell", "cell", "sat", "hdr", "time", "sats", "sigs"))
        if what == "cell" and any(m["cells"]):
            n, w, k = rng.choice(R.CELL_FIELDS[lv])
            i = rng.randrange(len(m["sgn"][n]))
            m["sgn"][n][i] = rnd_value(rng, w, k)
        elif what == "sat" and m["sats"]:
            n, w, k = rng.choice(R.SAT_FIELDS[lv])
            i = rng.randrange(len(m["sat"][n]))
            m["sat"][n][i] = rnd_value(rng, w, k)
        elif what == "sats" and m["sats"]:
            i = rng.randrange(len(m["sats"]))
            top = M.MARGO_COLS[g] if margo else 64
            free = [x for x in range((m["sats"][i - 1] if i else 0) + 1, m["sats"][i + 1] if i + 1 < len(m["sats"]) else top + 1) if x not in m["sats"]]
            if free:
                m["sats"][i] = rng.choice(free)
        elif what == "sigs" and m["sigs"]:
            i = rng.randrange(len(m["sigs"]))
            free = [x for x in sorted(R.SIGNALS[g]) if (i == 0 or x > m["sigs"][i - 1]) and (i + 1 == len(m["sigs"]) or x < m["sigs"][i + 1]) and x not in m["sigs"]]
            if free:
                m["sigs"][i] = rng.choice(free)
        elif what == "hdr":
            n, w = rng.choice([f for f in R.HDR_FIELDS if f[0] != "time"])
            m[n] = rnd_value(rng, w, "u")
        elif not keep_time:
            m["time"] = _time(rng, g, True)
        if margo:
            clean_margo(m)
    elif num in R.EPH:
        n, w, k, _ = rng.choice([f for f in R.EPH[num] if f[0]])
        m["raw"][n] = rnd_value(rng, w, "s" if k == "s" else "u") & ((1 << w) - 1)
    elif num in R.BASE_FIXED:
        n, w, k = rng.choice([f for f in R.BASE_FIXED[num] if f[0]])
        m["raw"][n] = rnd_value(rng, w, "s" if k == "s" else "u") & ((1 << w) - 1)
    elif num in R.BASE_STR:
        n = rng.choice(R.BASE_STR[num] + ["setupID"])
        if n == "setupID":
            m[n] = rnd_value(rng, 8, "u")
        else:
            m["str"][n] = _text(rng, max(0, min(255, 1011 - sum(len(v) // 2 for k, v in m["str"].items() if k != n))))
    elif num == 1013:
        m["daySec"] = rnd_value(rng, 17, "u")
        if m["items"]:
            m["items"] = m["items"][: rng.randint(1, len(m["items"]))]
    elif num == 1029:
        m["text"] = _text(rng, 255)
    else:
        m["mask"] = rng.randrange(16)
    return m


@st.composite
def sequence(draw, elem, min_size=1, max_size=8, repeat=True, margo=False):
    """list of messages with repetitions and near-repetitions of earlier ones"""
    out = draw(st.lists(elem, min_size=min_size, max_size=max_size))
    if repeat and out:
        for _ in range(draw(st.integers(0, 3))):
            m = out[draw(st.integers(0, len(out) - 1))]
            if draw(st.booleans()):
                m = tweak(m, draw(seeds), margo)
            out.insert(draw(st.integers(0, len(out))), m)
    return out


# ---------------------------------------------------------------- CRC-valid but malformed messages
def malformed(nums=None):
    """{'num','payload': hex,'bad': kind}: supported number, inconsistent content"""
    return _malformed(nums).map(_surely_bad)


def _surely_bad(it):
    # a few random bytes can happen to be a well-formed message (e.g. 1230 with an empty mask): keep only its number then
    if R.consistent(bytes.fromhex(it["payload"])):
        return {**it, "payload": it["payload"][:4]}
    return it


@st.composite
def _malformed(draw, nums=None):
    kind = draw(st.sampled_from(("short", "short", "long", "cells", "nocell", "nosig", "count", "two")))
    rng = new_rng(draw(seeds))
    if kind in ("cells", "nocell", "nosig"):
        num = draw(st.sampled_from([n for n in (nums or R.MSM_NUMS) if n in R.MSM_SET] or R.MSM_NUMS))
        lv = R.level_of(num)
        pool_ = sorted(R.SIGNALS[R.gnss_of(num)]) if rng.random() < 0.7 else list(range(1, 33))
        if kind == "cells":
            nsig = rng.randint(2, 32)
            pool_ = list(range(1, 33))
            nsat = rng.randint(64 // nsig + 1, 64)
            if rng.random() < 0.4:
                nsat = 64 // nsig + 1
        elif kind == "nosig":
            nsig, nsat = 0, rng.randint(1, 64)
        else:
            nsig = rng.randint(1, min(4, len(pool_)))
            nsat = rng.randint(1, 64 // nsig)
        sats, sigs = sorted(rng.sample(range(1, 65), nsat)), sorted(rng.sample(pool_, nsig))
        ncell = 0
        cells = [0] * (nsat * nsig)
        if kind == "cells":
            room = 1023 * 8 - R.msm_bits(lv, nsat, nsig, 0)
            per = sum(f[1] for f in R.CELL_FIELDS[lv])
            if room > per:
                ncell = rng.randint(1, min(len(cells), room // per, 64 if rng.random() < 0.8 else 999))
                for i in rng.sample(range(len(cells)), ncell):
                    cells[i] = 1
        m = {"num": num, "sats": sats, "sigs": sigs, "cells": cells}
        for name, width in R.HDR_FIELDS:
            m[name] = rnd_value(rng, width, "u")
        m["sat"] = {n: fill(rng, "rand", nsat, n, w, k) for n, w, k in R.SAT_FIELDS[lv]}
        m["sgn"] = {n: fill(rng, "rand", ncell, n, w, k) for n, w, k in R.CELL_FIELDS[lv]}
        p = R.msm_payload(m)[:1023]
        return {"num": num, "payload": p.hex(), "bad": kind}
    if kind == "two":  # hardly more than the message number
        num = draw(st.sampled_from(nums or R.ALL_NUMS))
        n = draw(st.sampled_from((2, 3, 4, 5)))
        b = bytearray(rng.randbytes(n))
        b[0], b[1] = num >> 4, ((num & 15) << 4) | (b[1] & 15)
        return {"num": num, "payload": bytes(b).hex(), "bad": kind}
    if kind == "count":  # string length / correction mask / announcement counters disagree with the message length
        num = draw(st.sampled_from((1007, 1008, 1033, 1029, 1230, 1013)))
        m = draw(base(nums=[num]))
        p = bytearray(R.payload(m))
        if num in R.BASE_STR:
            p[3] = (p[3] + rng.randint(1, 255)) & 255
            # growing the first string may by chance shift the later counters into a consistent layout
            if not _str_layout_bad(num, p):
                p = p[:-1]
                if not _str_layout_bad(num, p):
                    return {"num": num, "payload": bytes(p[:4]).hex() if p[3] else bytes(p[:3]).hex(), "bad": kind}
        elif num == 1029:
            p[8] = (p[8] + rng.randint(1, 255)) & 255
        elif num == 1230:
            k = bin(m["mask"]).count("1")
            new = rng.choice([x for x in range(16) if bin(x).count("1") != k])
            p[3] = (p[3] & 0xF0) | new
        else:
            if not m["items"]:
                return {"num": num, "payload": bytes(p[:-1]).hex(), "bad": kind}
            n = rng.choice([x for x in range(1, 32) if x != len(m["items"]) and (70 + 29 * x + 7) // 8 != len(p)])
            # Nm: 5 bits after 12+12+16+17 = 57 bits
            v = int.from_bytes(p, "big")
            sh = len(p) * 8 - 62
            v = (v & ~(31 << sh)) | (n << sh)
            p = bytearray(v.to_bytes(len(p), "big"))
        return {"num": num, "payload": bytes(p).hex(), "bad": kind}
    m = draw(st.one_of(msm(nums=[n for n in nums if n in R.MSM_SET] or None if nums else None, known=False), eph(extra=False), base()))
    p = R.payload(m)
    num = m["num"]
    if kind == "long" and num not in R.EPH and not (num == 1013 and (m.get("nm_zero") or not m["items"])):
        p = p + rng.randbytes(rng.choice((1, 1, 2, 3, 10)))
        if len(p) > 1023:
            p = p[:5]
    else:
        cut = draw(st.sampled_from((1, 1, 2, 3, 8, 1000)))
        need = len(p)
        if num in R.EPH:
            need = (R.EPH_BITS[num] + 7) // 8
        if num == 1013 and (m.get("nm_zero") or not m["items"]):
            need = 9
        p = p[: max(2, min(need - cut, need - 1))]
    return {"num": num, "payload": p.hex(), "bad": kind}


def _str_layout_bad(num, p):
    """True if the string counters of the payload do not match its length"""
    pos = 3
    for i in range(len(R.BASE_STR[num])):
        if pos >= len(p):
            return True
        pos += 1 + p[pos]
        if i == 0:
            pos += 1
    return pos != len(p)


def item_frame(it):
    """frame of a message dict or of {'payload': hex}"""
    return R.frame(bytes.fromhex(it["payload"])) if "payload" in it else R.msg_frame(it)


# ---------------------------------------------------------------- byte streams
@st.composite
def payloads(draw):
    """arbitrary payload bytes (any length 0..1023) for framing properties"""
    kind = draw(st.sampled_from(("tiny", "len", "dict", "bytes", "d3", "embed", "big")))
    rng = new_rng(draw(seeds))
    if kind == "tiny":
        return draw(st.binary(max_size=4))
    if kind == "bytes":
        return draw(st.binary(max_size=24))
    if kind == "len":
        return rng.randbytes(draw(st.sampled_from((0, 1, 2, 3, 4, 5, 6, 61, 62, 63, 64, 127, 128, 255, 256, 257, 511, 512, 767, 768, 1017, 1022, 1023))))
    if kind == "dict":
        ns = [v for v in dictionary()[0] if 0 <= v <= 1023]
        if novel_ints(0, 1023) and rng.random() < 0.5:
            ns = novel_ints(0, 1023)
        return rng.randbytes(rng.choice(ns)) if ns else b""
    if kind == "d3":
        return bytes(rng.choice((0xD3, 0xD3, 0, 1, 2, 3, rng.randrange(256))) for _ in range(rng.randint(1, 40)))
    if kind == "embed":  # a complete valid frame inside the payload
        return rng.randbytes(rng.randint(0, 5)) + R.frame(rng.randbytes(rng.randint(0, 20))) + rng.randbytes(rng.randint(0, 5))
    return rng.randbytes(rng.randint(24, 1023))


@st.composite
def garbage(draw):
    """bytes between frames"""
    kind = draw(st.sampled_from(("none", "none", "bytes", "d3s", "false", "trunc", "ddd", "badcrc", "reserved", "long", "one")))
    rng = new_rng(draw(seeds))
    if kind == "none":
        return b""
    if kind == "one":
        return bytes([draw(st.integers(0, 255))])
    if kind == "bytes":
        return draw(st.binary(min_size=1, max_size=12))
    if kind == "d3s":
        return b"\xd3" * rng.randint(1, 8)
    if kind == "ddd":
        return bytes(rng.choice((0xD3, 0, 1, 2, 3)) for _ in range(rng.randint(1, 20)))
    if kind == "false":  # false preamble with arbitrary length field
        return bytes([0xD3, rng.randrange(4), rng.randrange(256)]) + rng.randbytes(rng.choice((0, 0, 1, 2, 3, 10)))
    if kind == "trunc":  # prefix or suffix of a frame
        f = R.frame(rng.randbytes(rng.randint(0, 60)))
        return f[: rng.randint(1, len(f) - 1)] if rng.random() < 0.7 else f[rng.randint(1, len(f) - 1):]
    if kind == "badcrc":
        f = bytearray(R.frame(rng.randbytes(rng.randint(0, 60))))
        i = rng.randrange(len(f) * 8)
        f[i // 8] ^= 1 << (i % 8)
        return bytes(f)
    if kind == "reserved":
        return R.frame(rng.randbytes(rng.randint(0, 40)), reserved=rng.randint(1, 63))
    if novel_ints(1, 70000) and rng.random() < 0.3:
        return rng.randbytes(rng.choice(novel_ints(1, 70000)))
    return rng.randbytes(rng.randint(13, 3000))


@st.composite
def streams(draw, max_items=6):
    """hex of a byte stream mixing valid frames and garbage"""
    n = draw(st.integers(0, max_items))
    parts = []
    for _ in range(n):
        parts.append(draw(garbage()))
        parts.append(R.frame(draw(payloads())))
    parts.append(draw(garbage()))
    return b"".join(parts)


@st.composite
def cuts(draw, n):
    """partition of n bytes: list of chunk lengths summing to n (zero lengths allowed)"""
    kind = draw(st.sampled_from(("whole", "bytes", "fixed", "rand", "few", "block")))
    rng = new_rng(draw(seeds))
    if kind == "whole" or n == 0:
        c = [n]
    elif kind == "bytes":
        c = [1] * n if n <= 4000 else [n]
    elif kind == "fixed":
        k = draw(st.sampled_from((2, 3, 4, 5, 6, 7, 8, 16, 64, 255, 256, 1024) + novel_ints(2, 5000)))
        c = [k] * (n // k) + ([n % k] if n % k else [])
    elif kind == "block":
        c = [4096] * (n // 4096) + ([n % 4096] if n % 4096 else [])
    elif kind == "few":
        pts = sorted(draw(st.lists(st.integers(0, n), min_size=1, max_size=4)))
        c = [b - a for a, b in zip([0] + pts, pts + [n])]
    else:
        c = []
        left = n
        while left:
            k = min(left, rng.choice((0, 1, 1, 2, 3, 5, 9, 30, 200, 1000)))
            c.append(k)
            left -= k
    if draw(st.booleans()):
        i = rng.randint(0, len(c))
        c = c[:i] + [0] * rng.randint(1, 3) + c[i:]
    return c


def controls_st():
    """settings; None stands for the default"""
    return st.fixed_dictionaries(
        {
            "HCA": st.booleans(),
            "LOCK_TIME": st.booleans(),
            "ENABLE_PRETTY_VIEW": st.booleans(),
            "ENABLE_HDR_DATA": st.booleans(),
            "ENABLE_AUX_DATA": st.booleans(),
            "GPS2UTC": st.sampled_from((18, 18, 0, 17, 19, 37, 1, 60, -1, -18)),
            "LIT": st.one_of(st.none(), st.none(), st.integers(0, 2**32 - 1).map(_lits)),
        }
    )


def _lits(seed):
    rng = random.Random(seed)
    if rng.random() < 0.25:  # the usual channels on other satellites
        t = [M.LITERALS[i] for i in range(1, 25)]
        if rng.random() < 0.5:
            rng.shuffle(t)
        else:
            i, j = rng.sample(range(24), 2)
            t[i], t[j] = t[j], t[i]
        return t
    lo, hi = rng.choice(((-7, 13), (-7, 6), (-7, 6), (-20, 30)))
    return [rng.randint(lo, hi) for _ in range(24)]


DEFAULT_CTL = {"HCA": False, "LOCK_TIME": False, "ENABLE_PRETTY_VIEW": True, "ENABLE_HDR_DATA": True, "ENABLE_AUX_DATA": True, "GPS2UTC": 18, "LIT": None}


def lits(ctl):
    l = ctl.get("LIT")
    return {i + 1: v for i, v in enumerate(l)} if l else dict(M.LITERALS)


def ini_text(ctl, only=None):
    c = dict(DEFAULT_CTL)
    c.update(ctl or {})
    b = lambda v: "true" if v else "false"  # noqa: E731
    out = ["[MARGO]", f"HCA = {b(c['HCA'])}", f"LOCK_TIME = {b(c['LOCK_TIME'])}", "[JSON]"]
    out += [f"{k} = {b(c[k])}" for k in ("ENABLE_PRETTY_VIEW", "ENABLE_HDR_DATA", "ENABLE_AUX_DATA")]
    out += ["[TIME]", f"GPS2UTC : {c['GPS2UTC']}", "[LITERALS]"]
    out += [f"R{k} : {v}" for k, v in lits(c).items()]
    return "\n".join(out) + "\n"


def blob(seed, n):
    """n reproducible random bytes"""
    return random.Random(seed).randbytes(n)
