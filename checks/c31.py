"""C31: the output does not depend on the environment of the process"""
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import VERIF, Sub

BASE = {"PATH": "/usr/bin:/bin", "HOME": "/", "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8", "PYTHONHASHSEED": "0"}


def child(jobs, env):
    e = dict(BASE, VERIF_REPO=sut.REPO, **{k: v for k, v in env.items() if v is not None})
    p = subprocess.run([sys.executable, os.path.join(VERIF, "vlib", "envrun.py")], input=json.dumps(jobs), capture_output=True, text=True, env=e, cwd="/", timeout=300)
    if p.returncode:
        raise RuntimeError("child failed: " + p.stderr[-800:])
    return json.loads(p.stdout)


def run(case):
    a, b = child(case["jobs"], {}), child(case["jobs"], case["env"])
    n = 0
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            bad = sorted(p for p in set(x) | set(y) if x.get(p) != y.get(p))
            raise Violation(f"stream {i} ({case['jobs'][i]['fmt']}): {bad[0]} differs under {case['env']} ({x.get(bad[0])} / {y.get(bad[0])})")
        n += len(x) > 1
    return ["nontrivial"] if n >= 2 else []


@st.composite
def strat(draw):
    jobs = []
    good = st.one_of(gen.msm(small=True), gen.msm(), gen.msm(), gen.eph(), gen.base(), gen.base())
    for _ in range(draw(st.integers(4, 12))):
        parts = []
        for m in draw(gen.sequence(good, 1, 5)):
            if draw(st.integers(0, 9)) == 0:
                parts.append(gen.item_frame(draw(gen.malformed())))
            parts.append(R.msg_frame(m))
        jobs.append({"name": draw(st.sampled_from(("s", "s", "é", "Минск 1", "測站", "a\u2028b"))), "fmt": draw(st.sampled_from(sut.FORMATS)), "data": b"".join(parts).hex(), "ctl": draw(gen.controls_st())})
    env = {
        "PYTHONHASHSEED": str(draw(st.one_of(st.integers(1, 2**32 - 1), st.integers(1, 50)))),
        "TZ": draw(st.sampled_from((None, "UTC", "Pacific/Kiritimati", "America/St_Johns", "XYZ-13"))),
        "LC_ALL": draw(st.sampled_from((None, "C", "POSIX", "C.UTF-8"))),
        "COLUMNS": draw(st.sampled_from((None, "20"))),
    }
    if draw(st.booleans()):
        env.update(PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
    return {"jobs": jobs, "env": {k: v for k, v in env.items() if v is not None}}


TECHNIQUE = "differential test of the same generated streams in child processes with different hash seeds, locales and time zones"
NOTE = "Compared are all output files and the log byte by byte (up to the folder's name), the final counts and the verdict; sources with ASCII and other names."
ASSUMPTIONS = ["optimised mode (python -O) is not used: the printers rely on assertions"]
SUBS = [Sub("environments", strat, run, (96, 6000), "4..12 streams converted in two processes with different environments; non-trivial: at least two streams with output", shrink=False)]
