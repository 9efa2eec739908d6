"""C18: multi-file runs"""
import contextlib
import os

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub
from checks.c12 import check_layout
from checks.common import by_number, check_json_stream, check_margo_stream, ctl_of, margo_json_files

ASSUMPTIONS = ["no two sources of one directory share the name without extension (they would share an output folder)"]
NAMES = [
    "a.rtcm3", "b.rtcm3", "a b.rtcm3", "rec.2024.01.rtcm3", "noext", "sub/a.rtcm3", "sub/noext", "sub.d/noext", "sub.d/x.rtcm3", "sub d/c.rtcm3", "ü測量.rtcm3", "UPPER.RTCM3", "c.bin", "%s%d.rtcm3", "[x].rtcm3",
    "{0}.rtcm3", "a-JSON.rtcm3", "defaults.rtcm3", "sub.d/deep/er/e.rtcm3", "log.txt", "x-log.rtcm3", "'q'.rtcm3", "0.rtcm3", "JSON.rtcm3", "a.rtcm3.rtcm3", "in.rtcm3/y.rtcm3", "in.rtcm3/noext", ".rtcm3", "sub/.hidden", "w.d/w.d/w.d.rtcm3", "e.r", "rtcm3", "t.rtcm3.bak", "d.o.t..rtcm3", "sp .rtcm3", "-JSON/z.rtcm3",
]
JUNK = ["old.txt", "EPH/old.json", "GPS/old.obs", "nested/deeper/x.bin", "s-log.txt", "EPH/MSG1019.json", "empty/"]


def stem(p):
    return os.path.splitext(p)[0]


def put(tree, path, data):
    """add a file (bytes) or directory (None) and its parents to the modelled tree"""
    d = os.path.dirname(path)
    while d:
        tree.setdefault(d, ("dir", None))
        d = os.path.dirname(d)
    tree[path] = ("dir", None) if data is None else ("file", data)


def cut(tree, folder):
    for p in [p for p in tree if p == folder or p.startswith(folder + "/")]:
        del tree[p]


def alone(src, fmt, ctl, data):
    """snapshot of the output folder of a run with this source only"""
    d = sut.SCRATCH.new()
    try:
        sut.write_file(os.path.join(d, "defaults.ini"), gen.ini_text(ctl))
        p = os.path.join(d, "work", src)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        sut.write_file(p, data)
        sut.cli(["-o", fmt, p], d)
        fld = stem(p) + "-" + fmt
        if not os.path.isdir(fld):
            raise Violation(f"converting {src} alone produced no folder {os.path.basename(fld)}")
        return {p: norm(x, d) for p, x in sut.snapshot(fld).items()}
    finally:
        sut.SCRATCH.drop(d)


def norm(x, d):
    return (x[0], x[1].replace(d.encode(), b"@") if x[1] else x[1])


@contextlib.contextmanager
def failing(folder):
    def fault(event, path):
        if event == "remove" and (path == folder or path.startswith(folder + os.sep)):
            raise PermissionError(13, "Permission denied (injected)", path)

    sut.GUARD.fault = fault
    yield


def run(case):
    d = sut.SCRATCH.new()
    try:
        return _run(case, d)
    finally:
        sut.SCRATCH.drop(d)


def _run(case, d):
    work = os.path.join(d, "work")
    os.mkdir(work)
    srcs = case["srcs"]
    tree = {}
    for s in srcs:
        if s["kind"] in ("data", "link"):
            put(tree, s["name"], bytes.fromhex(s["data"]))
        elif s["kind"] == "dir":
            put(tree, s["name"], None)
    for rel, data in case["others"]:
        if rel not in tree and not any(rel.startswith(p + "/") for p, x in tree.items() if x[0] == "file"):
            if rel.endswith("/"):
                put(tree, rel[:-1], None)
            else:
                put(tree, rel, bytes.fromhex(data))
    for p, x in sorted(tree.items()):
        q = os.path.join(work, p)
        if x[0] == "dir":
            os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            sut.write_file(q, x[1])
    os.mkdir(os.path.join(d, "precious"))
    for i, s in enumerate(srcs):
        if s["kind"] == "link":  # the named source is a symbolic link to a file elsewhere
            os.rename(os.path.join(work, s["name"]), os.path.join(d, "precious", f"target{i}.rtcm3"))
            os.symlink(os.path.join(d, "precious", f"target{i}.rtcm3"), os.path.join(work, s["name"]))
            tree[s["name"]] = ("other", None)
    sut.write_file(os.path.join(d, "precious", "keep.txt"), b"keep")
    for rel in case["links"]:
        q = os.path.join(work, rel)
        if not os.path.lexists(q) and os.path.isdir(os.path.dirname(q)):
            os.symlink(os.path.join(d, "precious"), q)
            tree[rel] = ("dir", None)
    os.mkdir(os.path.join(d, "cwd"))
    sut.write_file(os.path.join(d, "cwd", "defaults.ini"), gen.ini_text(case["ctl"]))
    before_rest = {p: x for p, x in sut.snapshot(d).items() if not p.startswith("work/")}
    cache = {}
    lb = []
    for no, r in enumerate(case["runs"]):
        fmt = r["fmt"]
        args = [srcs[i]["name"] for i in r["pick"]]
        paths = [os.path.join(work, a) if r["abs"] else os.path.join("..", "work", a) for a in args]
        # output folders whose stale content cannot be removed, or that are symbolic links: only what lies outside is judged
        free = {x for x in (stem(srcs[i]["name"]) + "-" + fmt for i in r["pick"]) if os.path.islink(os.path.join(work, x))}
        stuck = None
        if r.get("stuck") is not None:
            stuck = stem(srcs[r["stuck"]]["name"]) + "-" + fmt
            if srcs[r["stuck"]]["kind"] in ("data", "link") and tree.get(stuck, ("", 0))[0] == "dir":
                free.add(stuck)
                lb.append("stuck folder")
            else:
                stuck = None
        sut.cli(["-o", fmt] + paths, os.path.join(d, "cwd"), patch=failing(os.path.join(os.path.realpath(work), stuck)) if stuck else None)
        conv = 0
        for i in r["pick"]:
            s = srcs[i]
            fld = stem(s["name"]) + "-" + fmt
            if fld in free:
                lb.append("unusable folder")
                continue
            if s["kind"] not in ("data", "link"):
                lb.append(s["kind"])
                continue
            if tree.get(fld, ("dir", None))[0] == "file":
                lb.append("blocked folder")
                continue
            if fld in tree:
                lb.append("stale folder")
            cut(tree, fld)
            if (i, fmt) not in cache:
                cache[i, fmt] = alone(s["name"], fmt, case["ctl"], bytes.fromhex(s["data"]))
            put(tree, fld, None)
            for p, x in cache[i, fmt].items():
                tree[fld + "/" + p] = x
            conv += 1
        if conv >= 2:
            lb.append("nontrivial")
        got = {p: norm(x, d) for p, x in sut.snapshot(work).items()}
        for f in free:
            cut(tree, f)
            tree.update({p: x for p, x in got.items() if p == f or p.startswith(f + "/")})
        if got != tree:
            diff = sorted(p for p in set(got) | set(tree) if got.get(p) != tree.get(p))
            p = diff[0]
            what = "missing" if p not in got else "unexpected" if p not in tree else f"differs: {got[p][1][-120:] if got[p][1] else got[p]!r} expected {tree[p][1][-120:] if tree[p][1] else tree[p]!r}"
            raise Violation(f"run {no} ({fmt} {args}): {p} {what}; {len(diff)} differences {diff[:4]}")
        rest = {p: x for p, x in sut.snapshot(d).items() if not p.startswith("work/")}
        if rest != before_rest:
            raise Violation(f"run {no} touched {sorted(p for p in set(rest) | set(before_rest) if rest.get(p) != before_rest.get(p))[:4]}")
    return lb + (["several runs"] if len(case["runs"]) > 1 else [])


@st.composite
def content(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return ""
    if k == 1:
        return draw(gen.streams(3)).hex()
    item = st.one_of(gen.msm(small=True), gen.msm(small=True), gen.eph(), gen.base(), gen.malformed(), gen.unsupported())
    parts = []
    for it in draw(st.lists(item, min_size=1, max_size=4)):
        parts.append(gen.item_frame(it))
        if draw(st.integers(0, 5)) == 0:
            parts.append(draw(gen.garbage()))
    if draw(st.integers(0, 5)) == 0:
        parts.append(parts[0][: draw(st.integers(1, len(parts[0]) - 1))])
    return b"".join(parts).hex()


@st.composite
def strat(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique_by=stem))
    srcs = []
    for n in names:
        kind = draw(st.sampled_from(("data",) * 13 + ("missing", "missing", "dir", "dir", "link")))
        srcs.append({"name": n, "kind": kind, "data": draw(content()) if kind in ("data", "link") else ""})
    if len(srcs) == 1 and srcs[0]["kind"] == "dir":
        srcs[0]["kind"] = "missing"
    # a folder named like a source must not swallow another source
    fl = [s["name"] for s in srcs if s["kind"] in ("data", "link")]
    for s in srcs:
        if s["kind"] not in ("data", "link") and any(f.startswith(s["name"] + "/") for f in fl):
            s["kind"] = "dir"
    fmts = draw(st.lists(st.sampled_from(sut.FORMATS), min_size=1, max_size=3))
    others, links = [], []
    for s in srcs:
        for _ in range(draw(st.integers(0, 2))):
            f = draw(st.sampled_from(fmts + ["MARGO", "JSON"]))
            fld = f"{stem(s['name'])}-{f}"
            k = draw(st.integers(0, 9))
            if k == 0:
                others.append([fld, "00ff"])
            elif k == 1:
                others.append([fld + "/", ""])
            elif k == 2:
                others.append([stem(s["name"]) + draw(st.sampled_from(("-log.txt", "-JSON.txt", "-OTHER/x", "/x", ".bak", "-JSON-B2", "-margo"))), "01"])
            elif k == 3:
                others.append([fld + "/old", "02"])
                links.append(fld + "/lnk")
            elif k == 4:
                links.append(fld)
            else:
                others.append([fld + "/" + draw(st.sampled_from(JUNK)), "5b0d"])
    runs = []
    for f in fmts:
        pick = draw(st.lists(st.integers(0, len(srcs) - 1), min_size=1, max_size=5))
        if len(pick) == 1 and srcs[pick[0]]["kind"] == "dir":
            pick = [pick[0], pick[0]]
        runs.append({"fmt": f, "pick": pick, "abs": draw(st.booleans()), "stuck": draw(st.sampled_from(pick)) if draw(st.integers(0, 9)) == 0 else None})
    if draw(st.integers(0, 2)) == 0:
        runs.append(dict(draw(st.sampled_from(runs))))
    bad = {p for p, _ in others if not p.endswith("/")}
    # keep the prior tree free of contradictions (file and folder of one name)
    others = [x for x in others if not any(x[0].startswith(b + "/") for b in bad) and x[0] + "/" not in {p for p, _ in others} and not any(n == x[0] or n.startswith(x[0] + "/") or x[0].startswith(n + "/") for n in [s["name"] for s in srcs])]
    return {"srcs": srcs, "others": others, "links": links, "runs": runs, "ctl": draw(st.sampled_from(({}, {"HCA": True, "LOCK_TIME": True, "ENABLE_PRETTY_VIEW": False})))}


@st.composite
def strat_crowd(draw):
    cont = draw(st.lists(content(), min_size=1, max_size=4))
    n = draw(st.integers(8, 45))
    srcs = [{"name": f"f{i}.rtcm3", "kind": "data", "data": cont[i % len(cont)]} for i in range(n)]
    k = draw(st.integers(0, n - 1))
    srcs[k] = {"name": srcs[k]["name"], "kind": "missing", "data": ""}
    return {"srcs": srcs, "others": [], "links": [], "runs": [{"fmt": draw(st.sampled_from(sut.FORMATS)), "pick": draw(st.permutations(range(n))), "abs": draw(st.booleans())}], "ctl": {}}


def run_twins(case):
    """sources alike in name, size and most of their content: judged by the reference models, not by another run"""
    d = sut.SCRATCH.new()
    try:
        sut.write_file(os.path.join(d, "defaults.ini"), gen.ini_text(case["ctl"]))
        paths = []
        for i, s in enumerate(case["srcs"]):
            p = os.path.join(d, s["dir"], case["name"])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            sut.write_file(p, b"".join(R.msg_frame(m) for m in s["msgs"]))
            os.utime(p, (1700000000, 1700000000))
            paths.append(p)
        order = case["order"]
        sut.cli(["-o", case["fmt"]] + [paths[i] for i in order], d)
        for i in order:
            s = case["srcs"][i]
            w = f"source {i} of {len(paths)} ({s['dir']}/{case['name']}): "
            o = sut.cli_out(os.path.join(d, s["dir"]), case["name"], case["fmt"])
            if o is None:
                raise Violation(w + "no output folder")
            if case["fmt"] in ("JSON", "JSON-B"):
                check_json_stream(s["msgs"], o, case["fmt"] == "JSON-B", case["ctl"], w)
                check_layout(o, ctl_of(case["ctl"]), by_number(s["msgs"]))
                continue
            msm = [m for m in s["msgs"] if m["num"] in R.MSM_SET]
            check_margo_stream(msm, o, case["ctl"], w)
            if case["fmt"] == "JARGO":
                o.files = margo_json_files(o)
                check_json_stream([m for m in s["msgs"] if m["num"] not in R.MSM_SET], o, False, case["ctl"], w)
        return ["nontrivial"] if len(set(order)) > 1 else []
    finally:
        sut.SCRATCH.drop(d)


@st.composite
def strat_twins(draw):
    m = st.one_of(gen.msm(valid_time=True, margo=True, small=True), gen.msm(valid_time=True, margo=True, small=True), gen.eph(), gen.base(nums=[1005, 1006, 1230]))
    msgs = draw(gen.sequence(m, 1, 4, margo=True))
    srcs = []
    for i in range(draw(st.integers(2, 4))):
        k = draw(st.integers(0, 3))
        mine = list(msgs)
        if k == 1:
            mine = draw(st.permutations(mine))
        elif i:
            j = draw(st.integers(0, len(mine) - 1))
            mine[j] = gen.tweak(mine[j], draw(gen.seeds), margo=True)
        srcs.append({"dir": draw(st.sampled_from(("d", "e", "d/d", "x.y"))) + str(i), "msgs": mine})
    order = draw(st.permutations(range(len(srcs))))
    if draw(st.integers(0, 4)) == 0:
        order = order + [order[0]]
    return {"name": draw(st.sampled_from(("s.rtcm3", "rec", "a.b.rtcm3"))), "srcs": srcs, "order": order, "fmt": draw(st.sampled_from(sut.FORMATS)), "ctl": draw(gen.controls_st())}


TECHNIQUE = "stateful model of the directory tree over generated runs (model: each source converted alone; for look-alike sources the reference models)"
NOTE = "Whole tree compared before and after each run; source paths in logs are normalised."
SUBS = [Sub("runs", strat, run, (2400, 60000), "1..4 sources (valid, damaged, empty, missing, folders), stale, blocked or foreign output folders, 1..4 runs; non-trivial: a run converts at least two sources"), Sub("crowd", strat_crowd, run, (40, 1200), "8..45 sources in one run; non-trivial as above", shrink=False), Sub("twins", strat_twins, run_twins, (1500, 50000), "2..4 sources of one name in different folders, alike but for single values or the order of messages, one run, against the models of C12 and C13; non-trivial: at least two sources")]
