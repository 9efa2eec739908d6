"""C30: converters alive at the same time are independent"""
import os

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.c12 import check_layout
from checks.common import by_number, check_json_stream, check_margo_stream, ctl_of, margo_json_files


def steps(data, cuts):
    """chunks of one stream, None: end of stream"""
    pos, out = 0, []
    for n in cuts:
        out.append(data[pos : pos + n])
        pos += n
    out.append(data[pos:])
    return out + [None]


class Live:
    def __init__(self, job, wd):
        self.job, self.wd = job, wd
        os.mkdir(wd)
        self.todo = steps(bytes.fromhex(job["data"]), job["cuts"])
        self.conv = sut.new_converter(job["fmt"], wd, job["ctl"])
        self.out = sut.Out()

    def step(self):
        x = self.todo.pop(0)
        if x is not None:
            sut._feed(self.conv, self.out, self.conv.parse_bytes(x))
        else:
            while True:
                ms = self.conv.flush()
                if not ms:
                    break
                sut._feed(self.conv, self.out, ms)
            self.conv.release()
            self.out.stats = sut.stats_of(self.conv)


def interleave(case, d):
    live, late = [], case["late"]
    for i, job in enumerate(case["jobs"]):
        if i not in late:
            live.append(Live(job, os.path.join(d, f"live{i}")))
        else:
            live.append(None)
    switches, prev = 0, None
    for k in case["schedule"]:
        i = k % len(live)
        if live[i] is None:  # created while the others are at work
            live[i] = Live(case["jobs"][i], os.path.join(d, f"live{i}"))
        if live[i].todo:
            switches += prev not in (None, i)
            prev = i
            live[i].step()
    for i, a in enumerate(live):
        if a is None:
            a = live[i] = Live(case["jobs"][i], os.path.join(d, f"live{i}"))
        while a.todo:
            a.step()
    return live, switches


def run_model(case):
    """output of interleaved converters against the reference models: nothing an earlier converter left behind can hide"""
    jobs = []
    for j in case["jobs"]:
        fr = [R.msg_frame(m) for m in j["msgs"]]
        jobs.append({"fmt": j["fmt"], "ctl": j["ctl"], "data": b"".join(fr).hex(), "cuts": [len(x) for x in fr]})
    d = sut.SCRATCH.new()
    try:
        with sut.quiet(), sut.guarded(), sut.no_raise("conversion "):
            live, switches = interleave({**case, "jobs": jobs}, d)
        for i, (a, j) in enumerate(zip(live, case["jobs"])):
            a.out.files = sut.read_tree(a.wd)
            w = f"converter {i} ({j['fmt']}) of {len(live)}: "
            if j["fmt"] in ("JSON", "JSON-B"):
                check_json_stream(j["msgs"], a.out, j["fmt"] == "JSON-B", j["ctl"], w)
                check_layout(a.out, ctl_of(j["ctl"]), by_number(j["msgs"]))
                continue
            check_margo_stream(j["msgs"], a.out, j["ctl"], w)
            if j["fmt"] == "JARGO":
                a.out.files = margo_json_files(a.out)
                check_json_stream([m for m in j["msgs"] if m["num"] not in R.MSM_SET], a.out, False, j["ctl"], w)
    finally:
        sut.GUARD.on = False
        sut.SCRATCH.drop(d)
    return ["nontrivial"] if switches >= 2 and sum(bool(a.out.msgs) for a in live) >= 2 else []


@st.composite
def strat_model(draw):
    m = st.one_of(gen.msm(valid_time=True, margo=True, small=True), gen.msm(nums=[n for n in R.MSM_NUMS if R.gnss_of(n) == "R"], valid_time=True, margo=True, small=True), gen.eph(), gen.base(nums=[1005, 1006, 1230]))
    pool = draw(gen.sequence(m, 1, 4, margo=True))
    fmts = st.sampled_from(draw(st.sampled_from((sut.FORMATS, ("MARGO", "JARGO"), ("JSON", "JSON-B")))))
    jobs = [{"fmt": draw(fmts), "msgs": [pool[draw(st.integers(0, len(pool) - 1))] for _ in range(draw(st.integers(1, 4)))], "ctl": draw(gen.controls_st())} for _ in range(draw(st.integers(2, 3)))]
    late = [i for i in range(1, len(jobs)) if draw(st.integers(0, 3)) == 0]
    return {"jobs": jobs, "late": late, "schedule": draw(st.lists(st.integers(0, 2), min_size=2, max_size=16))}


def run(case):
    d = sut.SCRATCH.new()
    try:
        with sut.quiet(), sut.guarded(), sut.no_raise("conversion "):
            ref = []
            for i, job in enumerate(case["jobs"]):
                a = Live(job, os.path.join(d, f"ref{i}"))
                while a.todo:
                    a.step()
                ref.append(a)
            live, switches = interleave(case, d)
        for i, (a, b) in enumerate(zip(ref, live)):
            if a.out.msgs != b.out.msgs:
                raise Violation(f"converter {i} of {len(live)}: extracts other messages than alone")
            if a.out.stats != b.out.stats:
                raise Violation(f"converter {i} of {len(live)}: statistics {b.out.stats}, alone {a.out.stats}")
            x, y = sut.read_tree(a.wd), sut.read_tree(b.wd)
            if x != y:
                bad = sorted(p for p in set(x) | set(y) if x.get(p) != y.get(p))
                raise Violation(f"converter {i} ({case['jobs'][i]['fmt']}) of {len(live)}: {bad[0]} differs from the output it writes alone")
    finally:
        sut.GUARD.on = False
        sut.SCRATCH.drop(d)
    return ["nontrivial"] if switches >= 2 and sum(bool(a.out.msgs) for a in live) >= 2 else []


@st.composite
def strat(draw):
    jobs = []
    good = st.one_of(gen.msm(small=True), gen.msm(small=True), gen.msm(), gen.eph(), gen.base())
    pool = draw(gen.sequence(good, 2, 6))
    for _ in range(draw(st.integers(2, 3))):
        parts = []
        for _ in range(draw(st.integers(1, 6))):
            k = draw(st.integers(0, 9))
            if k == 0:
                parts.append(draw(gen.garbage()))
            elif k == 1:
                parts.append(gen.item_frame(draw(gen.malformed())))
            else:
                parts.append(R.msg_frame(pool[draw(st.integers(0, len(pool) - 1))]))
        data = b"".join(parts)
        if draw(st.integers(0, 2)) == 0:  # cut at message borders
            cuts = [len(p) for p in parts]
        else:
            cuts = draw(st.lists(st.integers(0, max(1, len(data) // 2)), max_size=5))
        jobs.append({"fmt": draw(st.sampled_from(sut.FORMATS)), "data": data.hex(), "cuts": cuts, "ctl": draw(gen.controls_st())})
    late = [i for i in range(1, len(jobs)) if draw(st.integers(0, 3)) == 0]
    return {"jobs": jobs, "late": late, "schedule": draw(st.lists(st.integers(0, 2), min_size=2, max_size=24))}


TECHNIQUE = "generated schedules interleaving several live converters; differential against each converter running alone, and reference models"
NOTE = "Schedules are sequential interleavings of calls at chunk granularity; the code has no threads."
SUBS = [Sub("schedules", strat, run, (3000, 100000), "two or three converters of any format and settings, interleaved chunk by chunk, some created late; non-trivial: at least two switches and two converters with messages"), Sub("models", strat_model, run_model, (3000, 100000), "the same with well-formed messages, judged by the reference models of C12 and C13; non-trivial as above")]
