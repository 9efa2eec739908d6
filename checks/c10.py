"""C10: malformed but CRC-valid messages are rejected cleanly and in isolation"""
from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub


def supported(num, fmt):
    return num in R.MSM_SET if fmt == "MARGO" else num in R.MSM_SET or num in R.EPH or num in R.BASE_NUMS


def kind_of(it):
    if "payload" not in it:
        return "good"
    return "bad" if "bad" in it else "unsupported"


def run(case):
    fmt, items = case["fmt"], case["items"]
    data = b"".join(gen.item_frame(x) for x in items)
    good = b"".join(gen.item_frame(x) for x in items if kind_of(x) == "good")
    a = sut.run(fmt, data, case["ctl"], case["via"])
    b = sut.run(fmt, good, case["ctl"], case["via"])
    if set(a.files) != set(b.files):
        raise Violation(f"{fmt}: files differ from the stream without bad messages: {sorted(set(a.files) ^ set(b.files))}")
    for p in b.files:
        if a.files[p] != b.files[p]:
            raise Violation(f"{fmt}: {p} differs from the stream without bad messages")
    if a.stats:
        bad = sum(1 for x in items if kind_of(x) == "bad" and supported(x["num"], fmt))
        ok = sum(1 for x in items if kind_of(x) == "good" and supported(x["num"], fmt))
        exp = {"decoding_attempts": ok + bad, "decoding_errors": bad, "parsing_errors": 0, "printing_attempts": ok, "printing_errors": 0}
        if a.stats != exp:
            raise Violation(f"{fmt}: statistics {a.stats}, expected {exp}")
    lb = [fmt] + [f"bad: {x['bad']}" for x in items if "bad" in x] + ["unsupported" for x in items if kind_of(x) == "unsupported"]
    if any(kind_of(x) == "good" for x in items) and any(kind_of(x) != "good" for x in items):
        lb.append("nontrivial")
    return lb


def strat():
    item = st.one_of(gen.malformed(), gen.malformed(), gen.unsupported(), gen.msm(small=True), gen.eph(), gen.base())
    return st.fixed_dictionaries(
        {
            "items": st.lists(item, min_size=1, max_size=6),
            "fmt": st.sampled_from(sut.FORMATS),
            "ctl": st.sampled_from(({}, {"HCA": True, "LOCK_TIME": True, "ENABLE_PRETTY_VIEW": False})),
            "via": st.sampled_from(("api", "api", "api", "cli")),
        }
    )


def run_one(case):
    """a single malformed message yields nothing and is counted once"""
    it = case["item"]
    fr = gen.item_frame(it)
    for fmt in ("JSON", "JSON-B", "MARGO"):
        o = sut.convert_frames(fmt, [fr])
        if o.files or o.nrec:
            raise Violation(f"{fmt}: malformed message {it['num']} ({it['bad']}) produced a record")
        n = 1 if supported(it["num"], fmt) else 0
        if (o.stats["decoding_attempts"], o.stats["decoding_errors"], o.stats["printing_attempts"]) != (n, n, 0):
            raise Violation(f"{fmt}: malformed message {it['num']} ({it['bad']}): statistics {o.stats}")
    return [f"bad: {it['bad']}", f"number class {it['num'] // 10}", "nontrivial"]


# every truncation and extension of one well-formed message
def run_lengths(case):
    m = case["msg"]
    p = R.payload(m)
    need = len(p)
    num = m["num"]
    if num in R.EPH:
        need = (R.EPH_BITS[num] + 7) // 8
    if num == 1013 and (m.get("nm_zero") or not m["items"]):
        need = 9
    frames = [R.frame(p[:k]) for k in range(2, need)]
    if num not in R.EPH and num != 1013:
        frames += [R.frame(p + bytes([case["fill"]]) * k) for k in (1, 2, 3, 4, 8, 16, 32) if len(p) + k <= 1023]
    for fmt in ("JSON", "JSON-B"):
        o = sut.convert_frames(fmt, frames)
        if o.files or o.nrec:
            raise Violation(f"{fmt}: message {num} of wrong length produced {o.nrec} records")
        if o.stats["decoding_errors"] != len(frames) or o.stats["decoding_attempts"] != len(frames):
            raise Violation(f"{fmt}: {len(frames)} malformed messages {num}, statistics {o.stats}")
    return ["nontrivial", f"msg {num if num not in R.MSM_SET else 'MSM%d' % R.level_of(num)}"]


def strat_lengths():
    return st.fixed_dictionaries({"msg": st.one_of(gen.msm(known=False), gen.eph(extra=False), gen.base()), "fill": st.sampled_from((0, 255, 0xAA))})


# arbitrary content behind a supported number: never raises, never disturbs a neighbour
def run_arbitrary(case):
    pre, post = R.msg_frame(case["pre"]), R.msg_frame(case["post"])
    x = R.frame(bytes.fromhex(case["payload"]))
    for fmt in case["fmts"]:
        o = sut.convert_frames(fmt, [pre, x, post])
        b = sut.convert_frames(fmt, [pre, post])
        num = M.mnum(x)
        n = 1 if supported(num, fmt) else 0
        if o.stats["decoding_attempts"] - b.stats["decoding_attempts"] != n or o.stats["decoding_errors"] + o.nrec != o.stats["decoding_attempts"]:
            raise Violation(f"{fmt}: statistics {o.stats} vs {b.stats}")
        if n and not R.consistent(bytes.fromhex(case["payload"])) and o.nrec != b.nrec:
            raise Violation(f"{fmt}: message {num} whose masks or counters disagree with its length produced a record")
        if n and fmt == "JSON-B" and R.consistent(bytes.fromhex(case["payload"])) and o.nrec != b.nrec + 1:
            raise Violation(f"{fmt}: well-formed message {num} rejected")
        if o.nrec == b.nrec and o.files != b.files:
            raise Violation(f"{fmt}: a rejected message {num} changed the output of its neighbours")
        if o.nrec != b.nrec and num not in (case["pre"]["num"], case["post"]["num"]):
            for p in b.files:
                if o.files.get(p) != b.files[p] and not (fmt == "MARGO"):
                    raise Violation(f"{fmt}: {p} changed by message {num}")
    return (["nontrivial", "consistent" if R.consistent(bytes.fromhex(case["payload"])) else "inconsistent"]) if n else []


@st.composite
def strat_arbitrary(draw):
    import random

    num = draw(st.sampled_from(R.ALL_NUMS))
    rng = random.Random(draw(gen.seeds))
    how = draw(st.sampled_from(("random", "mutate", "mutate", "mutate")))
    if how == "random":
        b = bytearray(rng.randbytes(draw(st.sampled_from((2, 5, 10, 21, 22, 23, 40, 61, 62, 64, 100, 300, 1023)))))
    else:
        b = bytearray(R.payload(draw(st.one_of(gen.msm(nums=[num] if num in R.MSM_SET else None, known=False), gen.eph([num] if num in R.EPH else None), gen.base([num] if num in R.BASE_NUMS else None)))))
        for _ in range(rng.randint(1, 4)):
            i = rng.randrange(2, len(b)) if len(b) > 2 else 0
            if i:
                b[i] = rng.choice((0, 255, rng.randrange(256), b[i] ^ (1 << rng.randrange(8))))
        num = (b[0] << 4) | (b[1] >> 4)
    b[0], b[1] = num >> 4, ((num & 15) << 4) | (b[1] & 15)
    small = st.one_of(gen.msm(small=True), gen.eph(), gen.base())
    return {"payload": bytes(b).hex(), "pre": draw(small), "post": draw(small), "fmts": draw(st.sampled_from((["JSON"], ["JSON-B"], ["MARGO"], ["JARGO"])))}


TECHNIQUE = "metamorphic isolation relation and rejection oracle over generated malformed messages"
NOTE = "Covers the listed classes of inconsistency; over-long ephemerides are accepted."
SUBS = [
    Sub("isolation", strat, run, (5000, 150000), "good, malformed and unsupported messages in any order; non-trivial: at least one good and one bad message"),
    Sub("rejection", lambda: st.fixed_dictionaries({"item": gen.malformed()}), run_one, (6000, 150000), "one malformed message; all non-trivial"),
    Sub("lengths", strat_lengths, run_lengths, (240, 8000), "one message in every truncation and several extensions; all non-trivial"),
    Sub("arbitrary", strat_arbitrary, run_arbitrary, (4000, 120000), "random or mutated content behind a supported number; non-trivial: the number is supported by the format"),
]
SUBS.append(Fuzz(SUBS[0], "items", (30000, 3000000)))
