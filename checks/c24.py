"""C24: source selection"""
import ast
import contextlib
import os
import re

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub

ASSUMPTIONS = ["no hidden files, no folders carrying the chosen extension, answers without repeated spaces"]
DATA = R.msg_frame({"num": 1005, "raw": {n: 1 for n, w, k in R.BASE_FIXED[1005] if n}, "rsv": 0})
STEMS = ["a", "b", "c", "zz", "A", "rec 1", "rec.2", "ünï", "[x]", "*", "a?b", "'q'", '"d"', "1", "2", "10", "back\\slash", "a-JSON", "tab\tname", "%d", "rtcm3", "x" * 60, "(1)", "#1", "~", "$HOME", "a,b", "-o", "s "]
DIRS = ["data", "d.rtcm3", "my data", "[x]", "a*b", "q?", "ü", "data.d/sub", "1", "{a,b}", "x[!a]", "~"]
EXTS = ["rtcm3", "rtcm3", "rtcm3", "bin", "RTCM3", "rtcm", "dat", "tar.gz", "3"]


@contextlib.contextmanager
def watch(made):
    def fault(event, path):
        if event == "mkdir":
            made.append(path)

    sut.GUARD.fault = fault
    try:
        yield
    finally:
        sut.GUARD.fault = None


def folder(p, fmt):
    return os.path.splitext(p)[0] + "-" + fmt


def check_result(d, made, exp, fmt, before, where):
    """exactly the expected sources were converted, in this order"""
    ef = [folder(p, fmt) for p in exp]
    got = [p for p in made if p in set(ef) or os.path.dirname(p) in {os.path.dirname(x) for x in before} and p.endswith("-" + fmt)]
    if got != ef:
        raise Violation(f"{where}folders made {[os.path.relpath(p, d) for p in got]}, expected {[os.path.relpath(p, d) for p in ef]}")
    after = set(sut.snapshot(d))
    new = {p for p in after if p not in before["tree"]}
    ok = {os.path.relpath(p, d) for p in ef}
    stray = sorted(p for p in new if not any(p == f or p.startswith(f + os.sep) for f in ok))
    if stray:
        raise Violation(f"{where}unexpected {stray[:3]}")
    for p in exp:
        lg = os.path.join(folder(p, fmt), os.path.splitext(os.path.basename(p))[0] + "-log.txt")
        if not os.path.isfile(lg):
            raise Violation(f"{where}no log {os.path.relpath(lg, d)}")
        with open(lg, encoding="utf-8", errors="replace") as f:
            if "Finished without errors." not in f.read():
                raise Violation(f"{where}{os.path.relpath(p, d)} was not converted")


def run(case):
    d = sut.SCRATCH.new()
    try:
        return (_named if case["mode"] == "named" else _dir)(case, d)
    finally:
        sut.SCRATCH.drop(d)


def opts(case):
    return (["-o", case["fmt"]] if case["fmt"] else []) + (["-ext", case["ext"]] if case["ext"] is not None else [])


def launch(case, d, argv, stdin=None):
    made = []
    cwd = os.path.join(d, "cwd")
    if case["local"] and not any(" " in x or not x for x in argv):
        cap = sut.cli([], cwd, stdin, patch=watch(made), local=" ".join(argv))
    else:
        cap = sut.cli(argv, cwd, stdin, patch=watch(made))
    return made, cap


def prepare(d, rel, kind="file"):
    p = os.path.join(d, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if kind == "dir":
        os.makedirs(p, exist_ok=True)
    elif kind == "file" and not os.path.exists(p):
        sut.write_file(p, DATA)
    elif kind in ("link", "dangling") and not os.path.lexists(p):
        t = os.path.join(d, "targets", "t.rtcm3")
        os.makedirs(os.path.dirname(t), exist_ok=True)
        sut.write_file(t, DATA)
        os.symlink(t if kind == "link" else t + "x", p)
    return p


def style(case, d, p):
    return p if case["abs"] else os.path.relpath(p, os.path.join(d, "cwd"))


def _named(case, d):
    os.mkdir(os.path.join(d, "cwd"))
    sut.write_file(os.path.join(d, "cwd", "defaults.ini"), gen.ini_text({}))
    fmt = case["fmt"] or "MARGO"
    kinds = {}
    for rel, kind in case["args"]:
        if rel not in kinds:
            kinds[rel] = kind
            prepare(d, rel, kind)
    if len(case["args"]) == 1 and kinds[case["args"][0][0]] == "dir":
        return []
    paths = [os.path.join(d, rel) for rel, _ in case["args"]]
    before = {"tree": set(sut.snapshot(d)), **{p: 0 for p in paths}}
    src = [style(case, d, p) for p in paths]
    argv = opts(case) + src if case["first"] else src + opts(case)
    made, cap = launch(case, d, argv, [])
    exp = [p for p, (rel, _) in zip(paths, case["args"]) if kinds[rel] in ("file", "link")]
    check_result(d, made, exp, fmt, before, "named sources: ")
    text = cap.out + cap.err
    for p, (rel, _) in zip(paths, case["args"]):
        if kinds[rel] not in ("file", "link") and p not in text and repr(p)[1:-1] not in text:
            raise Violation(f"{rel} is not a file, but no message mentions it")
    lb = ["named"]
    if len(exp) >= 2:
        lb.append("nontrivial")
    if len(exp) < len(paths):
        lb.append("non-files")
    return lb


def parse_listing(out):
    got = {}
    for line in out.split("\n"):
        m = re.match(r"^\s*(\d+)\s*:\s*(.+?)\s*$", line)
        if m:
            t = m.group(2)
            try:
                t = ast.literal_eval(t)
            except (ValueError, SyntaxError):
                pass
            got[int(m.group(1))] = t
    return got


def _dir(case, d):
    os.mkdir(os.path.join(d, "cwd"))
    sut.write_file(os.path.join(d, "cwd", "defaults.ini"), gen.ini_text({}))
    fmt = case["fmt"] or "MARGO"
    ext = case["ext"] if case["ext"] is not None else "rtcm3"
    top = os.path.join(d, case["dir"])
    os.makedirs(top, exist_ok=True)
    match = set()
    for name in case["names"]:
        p = os.path.join(top, name)
        if not os.path.exists(p):
            prepare(d, os.path.join(case["dir"], name))
    for name in os.listdir(top):
        if os.path.isfile(os.path.join(top, name)) and name.endswith("." + ext):
            match.add(os.path.join(top, name))
    before = {"tree": set(sut.snapshot(d)), **{p: 0 for p in match}, os.path.join(top, "x"): 0}
    arg = style(case, d, top) + case["slash"]
    argv = opts(case) + [arg] if case["first"] else [arg] + opts(case)
    made, cap = launch(case, d, argv, [case["answer"]])
    listing = parse_listing(cap.out)
    shown = [os.path.join(top, os.path.basename(x)) for x in listing.values()]
    if match:
        if sorted(shown) != sorted(match):
            raise Violation(f"directory {case['dir']!r}, extension {ext!r}: listed {sorted(os.path.basename(x) for x in shown)}, the files are {sorted(os.path.basename(x) for x in match)}")
        if sorted(listing) != list(range(1, len(match) + 1)):
            raise Violation(f"listed indices {sorted(listing)}")
    elif shown:
        raise Violation(f"directory {case['dir']!r}, extension {ext!r}: listed {shown} although no file matches")
    exp = []
    toks = case["answer"].split(" ")
    try:
        for t in toks:
            i = int(t)
            if i in listing:
                exp.append(os.path.join(top, os.path.basename(listing[i])))
        good = True
    except ValueError:
        exp, good = [], False
    if not match:
        exp = []
    check_result(d, made, exp, fmt, before, f"answer {case['answer']!r} for {len(match)} files: ")
    lb = ["directory", "numeric answer" if good else "non-numeric answer"]
    if match and (len(match) > 1 or not good):
        lb.append("nontrivial")
    if not match:
        lb.append("no match")
    return lb


@st.composite
def strat_named(draw):
    args = []
    for _ in range(draw(st.integers(1, 6))):
        rel = os.path.join(draw(st.sampled_from(DIRS + ["", ""])), draw(st.sampled_from(STEMS)) + draw(st.sampled_from((".rtcm3", ".rtcm3", ".bin", "", ".RTCM3", ".tar.gz"))))
        args.append([rel, draw(st.sampled_from(("file",) * 8 + ("dir", "dir", "missing", "missing", "link", "dangling")))])
    if draw(st.integers(0, 3)) == 0:
        args.append(args[0])
    fl = {a for a, _ in args} | {"cwd"}
    stems = {}
    out = []
    for a, k in args:  # no two sources share an output folder, none lies in another's folder
        s = os.path.splitext(a)[0]
        if any(x != a and (x.startswith(a + "/") or a.startswith(x + "/")) for x in fl) or a == "cwd":
            continue
        if stems.setdefault(s, a) != a or any(o.startswith(s + "-") or s.startswith(o + "-") for o in stems if o != s):
            continue
        out.append([a, k])
    if not out:
        out = [["data/a.rtcm3", "file"]]
    return {"mode": "named", "args": out, "fmt": draw(st.sampled_from((None,) + sut.FORMATS)), "ext": draw(st.sampled_from((None, None, "bin", "rtcm3"))), "abs": draw(st.sampled_from((True, True, False))), "first": draw(st.booleans()), "local": draw(st.integers(0, 4)) == 0}


@st.composite
def strat_dir(draw):
    ext = draw(st.sampled_from([None, None] + EXTS))
    e = ext or "rtcm3"
    names = [s + "." + e for s in draw(st.lists(st.sampled_from(STEMS), max_size=12 if draw(st.integers(0, 9)) == 0 else 5, unique=True))]
    for _ in range(draw(st.integers(0, 4))):
        s = draw(st.sampled_from(STEMS))
        names.append(draw(st.sampled_from((f"{s}.{draw(st.sampled_from(EXTS))}", f"{s}{e}", f"{s}.{e}.bak", f"sub/{s}.{e}", f"{s}.{e}x", f"{s}.x{e}", s, f"{s}.{e.swapcase()}"))))
    if draw(st.integers(0, 39)) == 0:  # indices of three digits
        names += [f"r{i}.{e}" for i in range(draw(st.sampled_from((9, 10, 11, 40, 99, 100, 101, 130))))]
    n = len(names)
    num = st.one_of(st.integers(1, max(1, n)).map(str), st.integers(1, max(1, n)).map(str), st.integers(-2, n + 3).map(str), st.sampled_from(("0", "-1", "99", "+1", "01", str(2**70))))
    bad = st.sampled_from(("a", "1,2", "1-2", "*", "all", "1.0", "", "a.rtcm3", "0x1", "1;2"))
    kind = draw(st.integers(0, 5))
    toks = draw(st.lists(num, min_size=1, max_size=6))
    if kind == 0:
        toks.insert(draw(st.integers(0, len(toks))), draw(bad.filter(bool)))
    elif kind == 1 and draw(st.booleans()):
        toks = [draw(bad)]
    return {"mode": "dir", "dir": draw(st.sampled_from(DIRS)), "names": names, "answer": " ".join(toks), "fmt": draw(st.sampled_from((None,) + sut.FORMATS)), "ext": ext, "abs": draw(st.sampled_from((True, True, False))), "slash": draw(st.sampled_from(("", "", "/"))), "first": draw(st.booleans()), "local": draw(st.integers(0, 4)) == 0}


TECHNIQUE = "model of source selection over generated directories, argument lists and answers"
NOTE = "Conversions are observed as the sequence of output folders made; the listing's order is free."
SUBS = [
    Sub("named", strat_named, run, (3000, 80000), "1..7 arguments: files, folders, symbolic links, missing; non-trivial: at least two files converted"),
    Sub("directory", strat_dir, run, (3000, 80000), "a directory, an extension, an answer; non-trivial: several files match or the answer is not numeric"),
]
