"""driving the frame extractor"""
import random

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation


def crowd(case):
    """a stream of very many short frames"""
    rng = random.Random(case["seed"])
    out = []
    for _ in range(case["n"]):
        if rng.random() < case["gaps"]:
            out.append(rng.choice((b"\x00", b"\xd3", b"\xff", b"\r\n", b"\xd3\xd3", b"\xd3\x00", b"\x00\xd3\x03\xff", rng.randbytes(rng.randint(1, 5)))))
        out.append(R.frame(rng.randbytes(rng.choice(case["sizes"]))))
    return b"".join(out)


def crowds():
    return st.fixed_dictionaries(
        {
            "seed": gen.seeds,
            "n": st.one_of(gen.or_novel(st.integers(30, 700), 2, 3000), st.sampled_from((63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 600))),
            "gaps": st.sampled_from((0, 0.02, 0.5, 1, 1, 1)),
            "sizes": st.sampled_from(([0], [2], [0, 1, 2, 3], [1, 2, 8, 30], [0, 0, 0, 250])),
            "block": st.sampled_from((0, 0, 1, 7, 512, 4096, 4096)),
        }
    )


def larges():
    """streams of 60 to 300 kB in few pieces"""
    return st.fixed_dictionaries(
        {
            "seed": gen.seeds,
            "n": gen.or_novel(st.integers(80, 300), 2, 400),
            "gaps": st.sampled_from((0, 0.02, 0.5)),
            "sizes": st.sampled_from(([1023], [1000, 1023, 300], [700, 1, 1020])),
            "block": st.sampled_from((0, 0, 0, 30000, 65536, 65537, 100000, 131072) + gen.novel_ints(100, 300000)),
        }
    )


def blocks(n, size):
    return [min(size, n - i) for i in range(0, n, size)] if size else [n]


def extract(data, chunks=None, per_call=None, err_calls=None):
    """-> (messages delivered while streaming, messages delivered at the end, parsing errors)"""
    with sut.quiet(), sut.guarded(), sut.no_raise("extraction "):
        d = sut.SCRATCH.new()
        try:
            c = sut.new_converter("JSON-B", d)
            got, pos = [], 0
            for n in chunks if chunks is not None else [len(data)]:
                ms = [bytes(m) for m in c.parse_bytes(data[pos : pos + n])]
                pos += n
                if err_calls is not None:
                    err_calls.append((pos, sut.stats_of(c)["parsing_errors"]))
                if per_call is not None:
                    per_call.append((pos, ms))
                got += ms
            tail = []
            while True:
                ms = [bytes(m) for m in c.flush()]
                if not ms:
                    break
                tail += ms
            err = sut.stats_of(c)["parsing_errors"]
            c.release()
        finally:
            sut.GUARD.on = False
            sut.SCRATCH.drop(d)
    return got, tail, err


def show(b):
    h = b.hex()
    return h if len(h) < 80 else f"{h[:60]}..({len(b)} bytes)"


def check_same(exp, got, what):
    if exp != got:
        for i, (e, g) in enumerate(zip(exp, got)):
            if e != g:
                raise Violation(f"{what}: message {i} is {show(g)}, expected {show(e)}")
        raise Violation(f"{what}: {len(got)} messages, expected {len(exp)}; " + (f"lost {show(exp[len(got)])}" if len(exp) > len(got) else f"extra {show(got[len(exp)])}"))
