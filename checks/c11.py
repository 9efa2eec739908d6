"""C11: decoding a message depends only on that message"""
from dataclasses import fields, is_dataclass

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.common import check_json_stream


def dump(x, depth=0):
    """structural picture of a record"""
    if depth > 12:
        return "..."
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return (type(x).__name__, repr(x))
    if isinstance(x, dict):
        return ("dict", tuple((dump(k, depth + 1), dump(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(dump(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, tuple(sorted(map(str, (dump(v, depth + 1) for v in x)))))
    names = []
    if is_dataclass(x):
        names = [f.name for f in fields(x)]
    for c in type(x).__mro__:
        sl = c.__dict__.get("__slots__", ())
        names += [sl] if isinstance(sl, str) else list(sl)
    names += list(getattr(x, "__dict__", {}))
    out = []
    for n in dict.fromkeys(names):
        if not n.startswith("_"):
            out.append((n, dump(getattr(x, n, None), depth + 1)))
    return (type(x).__name__, tuple(out))


def run(case):
    items, fmt = case["items"], case["fmt"]
    frames = [gen.item_frame(x) for x in items]
    d = sut.SCRATCH.new()
    try:
        with sut.quiet(), sut.guarded(), sut.no_raise("decoding "):
            import os

            w = [os.path.join(d, str(i)) for i in range(len(frames) + 3)]
            for p in w:
                os.mkdir(p)
            # reference: every message alone in a fresh converter, in reverse order
            ref = [None] * len(frames)
            for i in reversed(range(len(frames))):
                c = sut.new_converter(fmt, w[i], case["ctl"])
                ref[i] = dump(c.decode(frames[i]))
                c.release()
            # one converter for all, another one of a different format interleaved
            c = sut.new_converter(fmt, w[-1], case["ctl"])
            o = sut.new_converter(case["other"], w[-2], case["ctl"])
            recs = []
            for i, f in enumerate(frames):
                if case["weave"]:
                    x = o.decode(f)
                    if x is not None:
                        o.print(x)
                r = c.decode(f)
                if dump(r) != ref[i]:
                    raise Violation(f"message {i} decodes differently after {i} other messages")
                recs.append(r)
                if r is not None and case["print"]:
                    c.print(r)
                    if dump(r) != ref[i]:
                        raise Violation(f"printing altered record {i}")
            if not case["print"]:
                for r in recs:
                    if r is not None:
                        c.print(r)
            for i, r in enumerate(recs):
                if dump(r) != ref[i]:
                    raise Violation(f"record {i} was altered by later decoding or printing")
            # once more in another order
            for i in case["order"]:
                if i < len(frames) and dump(c.decode(frames[i])) != ref[i]:
                    raise Violation(f"message {i} decodes differently the second time")
            for i, r in enumerate(recs):
                if dump(r) != ref[i]:
                    raise Violation(f"record {i} was altered by decoding it again")
            c.release()
            o.release()
            for i, r in enumerate(recs):
                if dump(r) != ref[i]:
                    raise Violation(f"record {i} was altered when the converter was released")
    finally:
        sut.GUARD.on = False
        sut.SCRATCH.drop(d)
    n = sum(r is not None for r in recs)
    return ["nontrivial"] if n >= 2 else []


def items():
    one = st.one_of(gen.msm(small=True), gen.msm(small=True), gen.msm(), gen.eph(), gen.base(), gen.malformed(), gen.unsupported())
    return st.lists(one, min_size=1, max_size=5)


@st.composite
def strat(draw):
    its = draw(items())
    for _ in range(draw(st.integers(0, 3))):
        m = its[draw(st.integers(0, len(its) - 1))]
        if "payload" not in m and draw(st.booleans()):
            m = gen.tweak(m, draw(gen.seeds))
        its.insert(draw(st.integers(0, len(its))), m)
    return {
        "items": its,
        "fmt": draw(st.sampled_from(("JSON", "JSON", "JSON-B", "JSON-B", "MARGO"))),
        "other": draw(st.sampled_from(sut.FORMATS)),
        "weave": draw(st.booleans()),
        "print": draw(st.booleans()),
        "ctl": draw(st.sampled_from(({}, {"HCA": True, "LOCK_TIME": True}))),
        "order": draw(st.lists(st.integers(0, 6), max_size=4)),
    }


def run_model(case):
    """near-identical messages in one stream against the reference model (catches state that a fresh converter shares)"""
    data = b"".join(R.msg_frame(m) for m in case["msgs"])
    for fmt in ("JSON", "JSON-B"):
        o = sut.run(fmt, data, None, case["via"])
        check_json_stream(case["msgs"], o, fmt == "JSON-B", None, fmt + ": ")
    return ["nontrivial"] if len(case["msgs"]) > 2 else []


@st.composite
def strat_model(draw):
    m = draw(st.one_of(gen.msm(small=True), gen.msm(), gen.eph(extra=False), gen.base()))
    ms = [m]
    for s in draw(st.lists(gen.seeds, min_size=1, max_size=6)):
        ms.append(gen.tweak(ms[s % len(ms)], s, keep_time=True))
    if draw(st.booleans()) and m["num"] in R.MSM_SET:  # the same content under a sibling number
        sib = dict(ms[-1])
        alt = [n for n in R.MSM_NUMS if R.level_of(n) == R.level_of(m["num"]) and all(s in R.SIGNALS[R.gnss_of(n)] for s in sib["sigs"])]
        sib["num"] = draw(st.sampled_from(alt))
        ms.insert(draw(st.integers(0, len(ms))), sib)
    return {"msgs": ms, "via": draw(st.sampled_from(("api", "api", "cli")))}


def run_scale(case):
    """scaling is a function of the record: the bare record stays as it is, the result is the scaled decoding"""
    d = sut.SCRATCH.new()
    try:
        return _run_scale(case, d)
    finally:
        sut.SCRATCH.drop(d)


def _run_scale(case, d):
    S = sut.mods["sub_decoders"]
    seen = []
    with sut.quiet(), sut.guarded(), sut.no_raise("scaling "):
        raw, scaled = (sut.new_converter(fmt, d) for fmt in ("JSON-B", "JSON"))
        for m in case["msgs"]:
            D = S.EphemerisDecoder if m["num"] in R.EPH else S.BaseStationDataDecoder
            f = gen.item_frame(m)
            bare, direct = raw.decode(f), scaled.decode(f)
            if bare is None or direct is None:
                raise Violation(f"message {m['num']} was not decoded")
            b0, d0 = dump(bare), dump(direct)
            one, two = D.scale(bare), D().scale(bare)
            if dump(bare) != b0:
                raise Violation(f"message {m['num']}: scaling altered the bare record")
            if dump(one) != d0 or dump(two) != d0:
                raise Violation(f"message {m['num']}: scaling the bare record does not give the scaled record")
            seen.append((bare, b0, one, d0))
    for m, (bare, b0, one, d0) in zip(case["msgs"], seen):
        if dump(bare) != b0 or dump(one) != d0:
            raise Violation(f"message {m['num']}: a record was altered by later work")
    return ["nontrivial"]


TECHNIQUE = "history independence over generated interleavings (model: fresh converter)"
NOTE = "Oracle: the same message decoded by a fresh converter; snapshots of returned records."
SUBS = [
    Sub("histories", strat, run, (5000, 150000), "histories of 1..8 good, malformed, repeated and slightly altered messages, decoded alone and by one long-lived converter, two converters interleaved; non-trivial: at least two records"),
    Sub("near repeats", strat_model, run_model, (5000, 150000), "sequences of near-identical messages against the reference model; non-trivial: at least three messages"),
    Sub("scaling", lambda: st.lists(st.one_of(gen.eph(), gen.base()), min_size=1, max_size=4).map(lambda x: {"msgs": x}), run_scale, (2500, 80000), "1..4 ephemeris and base-station messages decoded bare and scaled; non-trivial: all"),
]
SUBS.append(Fuzz(SUBS[1], "msgs", (30000, 3000000)))
