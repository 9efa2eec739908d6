"""C26: bit-field, checksum and frame-header primitives"""
from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub

ASSUMPTIONS = ["bit reversal is called with a non-negative number and offset and a positive length"]


def ref_u(buf, pos, n):
    """None: must be refused"""
    if n < 1 or n > 128 or pos < 0 or pos + n > 8 * len(buf):
        return None
    v = int.from_bytes(buf, "big") >> (8 * len(buf) - pos - n)
    return v & ((1 << n) - 1)


def signed(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def call(what, f, *a):
    """-> value, or None if refused by the documented exception"""
    err = sut.mods["utilities"].ExceptionBitsError
    try:
        return f(*a)
    except err:
        return None
    except Exception as ex:
        raise Violation(f"{what}{a[1:]!r} on {len(a[0]) if isinstance(a[0], bytes) else a[0]} raised {type(ex).__name__}: {ex}") from ex


def same(what, got, exp, args):
    if got != exp or (exp is not None and (isinstance(got, bool) or not isinstance(got, int))):
        raise Violation(f"{what}{args}: {got!r}, expected {'a refusal' if exp is None else exp}")


def run_fields(case):
    B = sut.mods["utilities"].Bits
    buf, pos, n = bytes.fromhex(case["buf"]), case["pos"], case["n"]
    exp = ref_u(buf, pos, n)
    a = f"(buffer of {len(buf)} bytes, {pos}, {n})"
    same("getbitu", call("getbitu", B.getbitu, buf, pos, n), exp, a)
    same("getbits", call("getbits", B.getbits, buf, pos, n), None if exp is None else signed(exp, n), a)
    lb = ["refused" if exp is None else "extracted"]
    if exp is not None:
        # a field is the concatenation of its parts
        k = case["cut"] % n
        if k and (B.getbitu(buf, pos, k) << (n - k)) | B.getbitu(buf, pos + k, n - k) != exp:
            raise Violation(f"getbitu: field {a} is not the concatenation of its parts cut at {k}")
        if n >= 2:
            f = getattr(sut.mods["sub_decoders"].EphemerisDecoder(), "getbitS", None)
            mag = exp & ((1 << (n - 1)) - 1)
            if f is not None:  # a helper of the ephemeris decoder; C08 judges sign-magnitude fields by the output
                sm = f(buf, pos, n)
                same("getbitS", sm, -mag if exp >> (n - 1) else mag, a)
        lb.append("nontrivial")
    return lb


def run_all(case):
    """every width at one position"""
    B = sut.mods["utilities"].Bits
    buf, pos = gen.blob(case["seed"], case["len"]), case["pos"]
    if case["fill"]:
        buf = bytes([255 if case["fill"] == 2 else 128]) * len(buf)
    for n in range(0, 131):
        exp = ref_u(buf, pos, n)
        for what, f in (("getbitu", B.getbitu), ("getbits", B.getbits)):
            got = call(what, f, buf, pos, n)
            e = exp if exp is None or what == "getbitu" else signed(exp, n)
            if got != e:
                same(what, got, e, f"(buffer of {len(buf)} bytes, {pos}, {n})")
    return ["nontrivial"] if pos < 8 * len(buf) else []


def run_rev(case):
    B = sut.mods["utilities"].Bits
    a, n, ofs = int(case["a"]), case["n"], case["ofs"]
    exp = None
    if n + ofs <= 128:
        exp = int(format((a >> ofs) & ((1 << n) - 1), f"0{n}b")[::-1], 2)
    args = (a, n) if case["bare"] and ofs == 0 else (a, n, ofs)
    same("revbitu", call("revbitu", B.revbitu, *args), exp, args)
    same("revbits", call("revbits", B.revbits, *args), None if exp is None else signed(exp, n), args)
    if exp is None:
        return ["refused"]
    if B.revbitu(exp, n) != (a >> ofs) & ((1 << n) - 1):
        raise Violation(f"revbitu: reversing {args} twice does not restore the field")
    return ["nontrivial"]


def run_crc(case):
    U = sut.mods["utilities"].CRC24Q
    x, y = bytes.fromhex(case["x"]), bytes.fromhex(case["y"])
    cx = U.calc(x)
    if cx != R.crc24q(x):
        raise Violation(f"CRC-24Q of {x.hex()} is {cx:#x}, expected {R.crc24q(x):#x}")
    if U.calc(x + cx.to_bytes(3, "big")) != 0:
        raise Violation("data followed by its checksum does not give a zero remainder")
    z = bytes(a ^ b for a, b in zip(x, y))
    n = len(z)
    if U.calc(z) != U.calc(x[:n]) ^ U.calc(y[:n]):
        raise Violation("the checksum is not linear")
    return ["nontrivial"] if len(x) > 2 and any(x) else []


def run_hdr(case):
    D = sut.mods["decoder_top"].DecoderTop
    buf = bytes.fromhex(case["buf"])
    with sut.quiet(), sut.guarded(), sut.no_raise("header helper "):
        num, ln, crc = D.mnum(buf), D.mlen(buf), D.mcrc(buf)
        d = D()
        i = (d.mnum(buf), d.mlen(buf), d.mcrc(buf))
    if i != (num, ln, crc):
        raise Violation("helpers differ between class and instance")
    e = ref_u(buf, 24, 12)
    if num != e:
        raise Violation(f"message number {num}, expected {e}")
    el = ref_u(buf, 14, 10)
    el = None if el is None else el + 6
    if ln != el:
        raise Violation(f"message length {ln}, expected {el}")
    ec = el is not None and len(buf) >= el and R.crc24q(buf[: el - 3]) == int.from_bytes(buf[el - 3 : el], "big")
    if bool(crc) != ec:
        raise Violation(f"checksum verdict {crc!r}, expected {ec}")
    lb = ["intact" if ec else "not intact"]
    if len(buf) >= 6:
        lb.append("nontrivial")
    if el is None:
        lb.append("shorter than a header")
    elif len(buf) > el:
        lb.append("longer than the frame")
    return lb


@st.composite
def s_fields(draw):
    buf = draw(st.binary(max_size=40))
    bits = 8 * len(buf)
    k = draw(st.integers(0, 9))
    if k < 7 and bits:
        n = draw(st.integers(1, min(128, bits)))
        pos = draw(st.one_of(st.integers(0, bits - n), st.just(bits - n)))
    else:
        n = draw(st.one_of(st.integers(-3, 140), st.sampled_from((0, 1, 127, 128, 129, 1 << 20))))
        pos = draw(st.one_of(st.integers(-20, bits + 20), st.just(bits - n), st.just(bits - n + 1)))
    return {"buf": buf.hex(), "pos": pos, "n": n, "cut": draw(st.integers(0, 127))}


@st.composite
def s_all(draw):
    n = draw(st.integers(0, 20))
    pos = draw(st.one_of(st.integers(0, 8 * n + 1), st.integers(0, n).map(lambda k: 8 * k)))
    return {"len": n, "pos": pos, "seed": draw(gen.seeds), "fill": draw(st.sampled_from((0, 0, 0, 1, 2)))}


@st.composite
def s_rev(draw):
    n = draw(st.integers(1, 128))
    ofs = draw(st.one_of(st.just(0), st.integers(0, 128 - n), st.integers(0, 140)))
    return {"a": str(draw(st.integers(0, (1 << draw(st.integers(1, 160))) - 1))), "n": n, "ofs": ofs, "bare": draw(st.booleans())}


@st.composite
def s_crc(draw):
    x = draw(st.one_of(st.binary(max_size=60), gen.seeds.map(lambda s: gen.blob(s, 1 + s % 1029))))
    return {"x": x.hex(), "y": draw(st.binary(max_size=60)).hex()}


@st.composite
def s_hdr(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        b = draw(st.binary(max_size=12))
    else:
        s = draw(gen.seeds)
        n = draw(st.one_of(st.integers(0, 20), st.integers(0, 1023)))
        b = bytearray(R.frame(gen.blob(s, n), draw(st.sampled_from((0, 0, 0, 1, 63)))))
        if draw(st.integers(0, 5)) == 0:
            b[0] = draw(st.integers(0, 255))
            b[-3:] = R.crc24q(b[:-3]).to_bytes(3, "big")
        if k == 2:
            i = draw(st.integers(0, len(b) * 8 - 1))
            b[i // 8] ^= 0x80 >> (i % 8)
        elif k == 3:
            b = b[: draw(st.integers(0, len(b)))]
        elif k == 4:
            b += draw(st.binary(max_size=10))
        b = bytes(b)
    return {"buf": b.hex()}


TECHNIQUE = "generated buffers against big-integer arithmetic and an independent CRC; concatenation, involution and linearity relations"
NOTE = "Exported primitives Bits, CRC24Q and the static frame helpers of DecoderTop, called directly."
SUBS = [
    Sub("bit fields", s_fields, run_fields, (24000, 1500000), "buffers of 0..40 bytes, fields at any position, inside and outside; non-trivial: the field lies inside"),
    Sub("all widths", s_all, run_all, (4000, 100000), "every width 0..130 at a position of a buffer of 0..20 bytes; non-trivial: the position lies inside the buffer"),
    Sub("bit reversal", s_rev, run_rev, (12000, 800000), "numbers of up to 160 bits; non-trivial: the width is admissible"),
    Sub("checksum", s_crc, run_crc, (8000, 400000), "byte strings of 0..1029 bytes; non-trivial: at least three bytes, not all zero"),
    Sub("frame header", s_hdr, run_hdr, (8000, 400000), "intact, damaged, truncated and extended frames, random bytes; non-trivial: at least six bytes"),
]
