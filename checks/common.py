"""helpers shared by the checks"""
import os

from vlib import gen, model as M, rtcm as R
from vlib.model import Violation


def ctl_of(ctl):
    c = dict(gen.DEFAULT_CTL)
    c.update(ctl or {})
    return c


def by_number(msgs):
    d = {}
    for m in msgs:
        d.setdefault(m["num"], []).append(m)
    return d


def check_json_files(nums, files, bare, where=""):
    """the set of output files is the documented one"""
    exp = {M.json_path(n) for n in nums}
    got = {p.replace(os.sep, "/") for p in files}
    if exp != got:
        raise Violation(f"{where}files missing {sorted(exp - got)} unexpected {sorted(got - exp)}")


def json_array(o, num, bare, where=""):
    p = M.json_path(num)
    arr = o.json(path=p)
    if not isinstance(arr, list) or not arr:
        raise Violation(f"{where}{p} is not an array")
    if arr[0] != {"source_type": M.json_type(num, bare)}:
        raise Violation(f"{where}{p}: first element {arr[0]!r}")
    return arr[1:]


def check_json_stream(msgs, o, bare, ctl=None, where=""):
    """JSON or JSON-B output of well-formed messages against the model"""
    c = ctl_of(ctl)
    groups = by_number(msgs)
    check_json_files(groups, o.files, bare, where)
    for num, ms in groups.items():
        recs = json_array(o, num, bare, where)
        if len(recs) != len(ms):
            raise Violation(f"{where}message {num}: {len(recs)} records for {len(ms)} messages")
        for i, (m, r) in enumerate(zip(ms, recs)):
            M.check_json_record(m, r, bare, c["ENABLE_HDR_DATA"], c["ENABLE_AUX_DATA"], f"{where}msg {num} #{i}: ")


def check_margo_stream(msgs, o, ctl=None, where="", only_msm=True):
    """MARGO output of well-formed MSM messages against the model"""
    c = ctl_of(ctl)
    lit = gen.lits(c)
    exp = M.margo([m for m in msgs if m["num"] in R.MSM_SET], c["HCA"], c["LOCK_TIME"], c["GPS2UTC"], lit)
    got = {p.replace(os.sep, "/"): b for p, b in o.files.items()}
    if only_msm:
        got = {p: b for p, b in got.items() if not p.startswith(("EPH/", "BASE/"))}
    if set(exp) != set(got):
        raise Violation(f"{where}tables missing {sorted(set(exp) - set(got))} unexpected {sorted(set(got) - set(exp))}")
    for p, e in exp.items():
        M.check_margo_table(e, got[p].decode("utf-8"), f"{where}{p}", lit)


def margo_json_files(o):
    return {p: b for p, b in o.files.items() if p.replace(os.sep, "/").startswith(("EPH/", "BASE/"))}
