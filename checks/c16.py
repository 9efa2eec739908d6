"""C16: JARGO = MARGO observables + JSON ephemeris and base data"""
from hypothesis import strategies as st

from vlib import gen, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub
from checks.common import margo_json_files
from checks.c19 import build


def run(case):
    data = build(case["items"])
    j, a, m = (sut.run(f, data, case["ctl"], case["via"]) for f in ("JARGO", "JSON", "MARGO"))
    exp = dict(m.files)
    for p, b in margo_json_files(a).items():
        if p in exp:
            raise Violation(f"{p} is produced by MARGO")
        exp[p] = b
    if set(exp) != set(j.files):
        raise Violation(f"JARGO files: missing {sorted(set(exp) - set(j.files))} unexpected {sorted(set(j.files) - set(exp))}")
    for p in exp:
        if exp[p] != j.files[p]:
            raise Violation(f"{p} differs between JARGO and {'JSON' if p in a.files else 'MARGO'}")
    if case["via"] == "api":
        if j.stats != a.stats:
            raise Violation(f"statistics JARGO {j.stats} JSON {a.stats}")
        if j.msgs != a.msgs or j.msgs != m.msgs:
            raise Violation("extracted messages differ between formats")
    else:
        import re

        ps = [re.findall(sut.PROGRESS, o.log)[-1:] for o in (j, a)]
        if ps[0] != ps[1]:
            raise Violation(f"statistics JARGO {ps[0]} JSON {ps[1]}")
    lb = []
    k = {p.split("/")[0] for p in j.files}
    if k & {"EPH", "BASE"} and k - {"EPH", "BASE"}:
        lb.append("nontrivial")
    return lb


@st.composite
def strat(draw):
    parts = []
    good = st.one_of(gen.msm(small=True), gen.msm(known=False), gen.msm(), gen.eph(), gen.eph(), gen.base(), gen.base())
    for m in draw(gen.sequence(good, 1, 6)):
        k = draw(st.integers(0, 11))
        if k == 0:
            parts.append(draw(gen.garbage()).hex())
        elif k == 1:
            parts.append(draw(gen.malformed()))
        elif k == 2:
            parts.append(draw(gen.unsupported()))
        parts.append(m)
    return {"items": parts, "ctl": draw(gen.controls_st()), "via": draw(st.sampled_from(("api", "api", "cli")))}


TECHNIQUE = "differential test of JARGO against MARGO and JSON on generated streams"
NOTE = "Byte equality of three conversions of the same stream."
SUBS = [Sub("streams", strat, run, (4500, 150000), "arbitrary streams of good and bad messages with any settings, converted to three formats; non-trivial: the JARGO output has both tables and JSON files")]
SUBS.append(Fuzz(SUBS[0], "items", (24000, 2000000)))
