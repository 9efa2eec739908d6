"""C03: transmission damage never yields data and never costs an undamaged frame"""
import random

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.common import check_json_stream
from checks.frames import check_same, extract, show


def damage(frames, dmg):
    """-> (stream, list of undamaged frames, damaged frame or None)"""
    frames = [bytearray(f) for f in frames]
    orig = [bytes(f) for f in frames]
    i = dmg["frame"] % len(frames)
    f = frames[i]
    k = dmg["kind"]
    if k == "flip":
        for b in dmg["bits"]:
            f[(b // 8) % len(f)] ^= 1 << (b % 8)
    elif k == "burst":
        n = len(f) * 8
        pat = dmg["pattern"]
        width = pat.bit_length()
        pos = dmg["pos"] % (n - width + 1) if n > width else 0
        v = int.from_bytes(f, "big") ^ (pat << pos)
        f[:] = v.to_bytes(len(f), "big")
    elif k == "delete":
        a = dmg["pos"] % len(f)
        del f[a : a + dmg["n"]]
    elif k == "insert":
        a = dmg["pos"] % (len(f) + 1)
        f[a:a] = bytes.fromhex(dmg["bytes"])
    hit = bytes(f) != orig[i]
    stream = b"".join(bytes(x) for x in frames)
    keep = [o for j, o in enumerate(orig) if j != i or not hit]
    return stream, keep, orig[i] if hit else None, bytes(f)


def run(case):
    frames = [gen.item_frame(x) for x in case["items"]]
    stream, keep, lost, f = damage(frames, case["dmg"])
    # Inserted bytes before/after the frame leave it intact, and pieces of a damaged frame may contain a complete intact
    # frame (nested in its payload); both are decided by the reference scan.  It has to agree with the promise itself:
    ref = [stream[a:b] for a, b in M.scan(stream, eof=True)]
    got, tail, _ = extract(stream, [1] * len(stream) if case["chunks"] else None)
    got += tail
    it = iter(got)
    detect = case["dmg"]["kind"] in ("flip", "burst")
    for k in keep:
        for g in it:
            if g == k:
                break
        else:
            if k in ref:
                raise Violation(f"undamaged frame {show(k)} was not delivered ({case['dmg']['kind']})")
            break  # swallowed by a chance frame of the damaged bytes: reference agrees
    if detect and lost is not None and f in got and f not in keep:
        raise Violation(f"damaged frame {show(f)} was delivered ({case['dmg']['kind']})")
    for g in got:
        if g not in ref:
            raise Violation(f"delivered {show(g)} which is not an intact frame of the stream")
    check_same(ref, got, case["dmg"]["kind"])
    lb = [case["dmg"]["kind"]]
    if lost is not None and keep:
        lb.append("nontrivial")
    return lb


@st.composite
def damages(draw):
    k = draw(st.sampled_from(("flip", "flip", "burst", "burst", "delete", "insert")))
    d = {"kind": k, "frame": draw(st.integers(0, 9))}
    if k == "flip":
        n = draw(st.sampled_from((1, 1, 2, 2, 3, 5, 7)))
        d["bits"] = draw(st.lists(st.one_of(st.integers(0, 60), st.integers(0, 1029 * 8), st.integers(-48, -1)), min_size=n, max_size=n, unique=True))
    elif k == "burst":
        d["pattern"] = draw(st.integers(0, 2**23 - 1)) * 2 + 1
        if draw(st.booleans()):
            d["pattern"] = draw(st.sampled_from((1, 0x80, 0xFF, 0x7F, 3, 0xFFFF, 0x101, 0x8001, 0xFFFFFF, 0x800001, 0x7FF)))
        d["pos"] = draw(st.one_of(st.integers(0, 1029 * 8), st.integers(0, 30), st.integers(0, 24), st.sampled_from((0, 8, 16, 24))))
    elif k == "delete":
        d["pos"], d["n"] = draw(st.integers(0, 1100)), draw(st.sampled_from((1, 1, 2, 3, 4, 10, 2000)))
    else:
        d["pos"] = draw(st.integers(0, 1100))
        d["bytes"] = draw(st.one_of(st.binary(min_size=1, max_size=5), st.sampled_from((b"\xd3", b"\xd3\x00", b"\xd3\x00\x00", b"\xd3\x03\xff", b"\x00")))).hex()
    return d


def fix_flips(case):
    """bits beyond the frame wrap around; keep them distinct so that the number of flipped bits is as drawn"""
    d = case["dmg"]
    if d["kind"] == "flip":
        n = len(gen.item_frame(case["items"][d["frame"] % len(case["items"])]))
        bits = sorted({((b // 8) % n) * 8 + b % 8 for b in d["bits"]})
        if len(bits) > 2 and len(bits) % 2 == 0:
            bits = bits[:-1]
        d["bits"] = bits
    return case


def strat():
    raw = st.one_of(gen.payloads(), gen.payloads(), gen.payloads(), st.tuples(st.integers(900, 1023), gen.seeds).map(lambda t: random.Random(t[1]).randbytes(t[0]))).map(lambda p: {"payload": p.hex()})
    return st.fixed_dictionaries({"items": st.lists(raw, min_size=1, max_size=5), "dmg": damages(), "chunks": st.booleans()}).map(fix_flips)


def run_convert(case):
    """converted output holds exactly the undamaged messages"""
    frames = [R.msg_frame(m) for m in case["items"]]
    stream, keep, lost, f = damage(frames, case["dmg"])
    ref = [stream[a:b] for a, b in M.scan(stream, eof=True)]
    i = case["dmg"]["frame"] % len(frames)
    rest = [m for j, m in enumerate(case["items"]) if j != i or lost is None]
    if ref != [R.msg_frame(m) for m in rest]:
        if lost is not None and ref == frames:  # bytes were inserted outside of the frame
            rest = case["items"]
        else:
            return ["nested or chance frame"]
    o = sut.run("JSON", stream, None, case["via"])
    check_json_stream(rest, o, False, None)
    return [case["dmg"]["kind"]] + (["nontrivial"] if lost is not None and rest else [])


def strat_convert():
    msgs = gen.sequence(st.one_of(gen.msm(small=True), gen.eph(extra=False), gen.base()), 1, 5)
    return st.fixed_dictionaries({"items": msgs, "dmg": damages(), "via": st.sampled_from(("api", "cli"))}).map(fix_flips)


# ---- a dense sweep of single-bit and two-bit errors over small frames
def run_sweep(case):
    payload = bytes.fromhex(case["payload"])
    f = R.frame(payload)
    nxt = R.frame(b"\x3e\xd0next")
    n = len(f) * 8
    base = int.from_bytes(f, "big")
    for i in range(n):
        for pat in (1 << i, (1 << i) | (1 << ((i * 7 + case["k"]) % n)), ((1 << i) * 0x800001) & ((1 << n) - 1)):
            if not pat:
                continue
            g = (base ^ pat).to_bytes(len(f), "big")
            if g == f:
                continue
            s = g + nxt
            ref = [s[a:b] for a, b in M.scan(s, eof=True)]
            got, tail, _ = extract(s)
            check_same(ref, got + tail, f"pattern {pat:x}")
            if g in got:
                raise Violation(f"damaged frame delivered, pattern {pat:x}")
    return ["nontrivial"]


def strat_sweep():
    return st.fixed_dictionaries({"payload": st.binary(max_size=8).map(bytes.hex), "k": st.integers(0, 50)})


# ---- a valid frame whose CRC was forced to a special value, with another special value transmitted instead
_INV = {}


def _preimage(y):
    """three bytes that turn CRC state 0 into y"""
    if not _INV:
        rows = []  # (crc, bytes) reduced to distinct leading bits
        for i in range(24):
            c, x = R.crc24q((1 << i).to_bytes(3, "big")), 1 << i
            for d, e in rows:
                if c ^ d < c:
                    c, x = c ^ d, x ^ e
            rows.append((c, x))
            rows.sort(reverse=True)
        _INV["rows"] = rows
    x = 0
    for d, e in _INV["rows"]:
        if y ^ d < y:
            y, x = y ^ d, x ^ e
    assert y == 0
    return x


def forge(payload, crc):
    """payload with its last three bytes replaced so that the frame's CRC is the given one"""
    n = len(payload) + 3
    h = bytes([0xD3, n >> 8, n & 255]) + payload
    p = payload + (_preimage(crc) ^ R.crc24q(h)).to_bytes(3, "big")
    f = R.frame(p)
    assert int.from_bytes(f[-3:], "big") == crc
    return f


def run_forged(case):
    f = forge(bytes.fromhex(case["payload"]), case["crc"])
    g = f[:-3] + case["sent"].to_bytes(3, "big")
    nxt = R.frame(bytes.fromhex(case["next"]))
    s = f + g + nxt
    ref = [s[a:b] for a, b in M.scan(s, eof=True)]
    got, tail, _ = extract(s)
    check_same(ref, got + tail, f"crc {case['crc']:06x} sent as {case['sent']:06x}")
    if case["crc"] != case["sent"]:
        if (got + tail).count(g):
            raise Violation(f"frame {show(g)} with a wrong CRC was delivered")
        return ["nontrivial"]
    return []


def strat_forged():
    special = st.one_of(
        st.sampled_from((0, 0xFFFFFF, 1, 0x800000, 0x7FFFFF, 0xFFFFFE, 0xD30000, 0x0000D3, 0x864CFB, 0xB704CE)),
        st.integers(0, 23).map(lambda i: 1 << i),
        st.integers(0, 2**24 - 1),
    )

    def rel(t):
        c, k, s = t
        return c, {"same": c, "inv": c ^ 0xFFFFFF, "rev": int.from_bytes(c.to_bytes(3, "big")[::-1], "big"), "inc": (c + 1) & 0xFFFFFF, "swap16": (c & 0xFF0000) | (c & 255) << 8 | (c >> 8 & 255), "other": s, "zero": 0, "ones": 0xFFFFFF}[k]

    pair = st.tuples(special, st.sampled_from(("same", "inv", "inv", "rev", "inc", "swap16", "other", "other", "zero", "ones")), special).map(rel)
    return st.tuples(pair, gen.payloads().filter(lambda p: len(p) < 1020), gen.payloads()).map(lambda t: {"crc": t[0][0], "sent": t[0][1], "payload": t[1].hex(), "next": t[2].hex()})


TECHNIQUE = "fault injection (bursts, bit flips, deletions, insertions) into generated streams, with enumeration of single-bit damage"
NOTE = "Oracle: frames built by an independent encoder; the CRC guarantees are assumed from its generator polynomial."
SUBS = [
    Sub("damage", strat, run, (14000, 400000), "1..5 frames, one hit by bit flips, a burst of up to 24 bits, a loss or an insertion of bytes; non-trivial: something was hit and something was not"),
    Sub("converted", strat_convert, run_convert, (4000, 120000), "decodable messages with the same damage, converted to JSON; non-trivial as above"),
    Sub("sweep", strat_sweep, run_sweep, (64, 2000), "every single-bit error and a family of two-bit and burst errors of a small frame; all non-trivial"),
    Sub("forged", strat_forged, run_forged, (3000, 100000), "a frame whose CRC is forced to a chosen (special) value, then the same frame with another special value in place of the CRC; non-trivial: the two differ"),
]
