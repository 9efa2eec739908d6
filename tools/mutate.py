"""Mutation campaign (development aid, not a check):  mutate.py OUT.jsonl [--files a.py,b.py] [--sample N] [--jobs J]

Every mutant is made in a scratch copy of /repo, must pass the repository's tests, and is then shown to the checks (one shard of the
quick tier each) until one reports a violation.  Survivors are candidates for equivalent mutants or holes in the checks."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["decoder_top.py", "printer_top.py", "converter_top.py", "run_conversion.py", "controls.py", "logger.py", "printers/json_printer.py", "printers/margo_printer.py",
         "sub_decoders/RTCM_MSM.py", "sub_decoders/RTCM_EPH.py", "sub_decoders/RTCM_BASE.py", "utilities/RTCM_utilities.py", "utilities/bits.py", "utilities/CRC24Q.py",
         "gnss_types/data_class_methods.py", "gnss_types/observables.py", "gnss_types/base_station.py", "gnss_types/ephemeris.py"]
ORDER = {
    "decoder_top.py": "C01 C02 C04 C25 C03 C10 C26 C23 C33",
    "printer_top.py": "C25 C12 C13 C19 C20 C30 C32 C33",
    "converter_top.py": "C16 C12 C25 C13 C17 C30",
    "run_conversion.py": "C18 C24 C29 C19 C20 C23 C02 C32 C33",
    "controls.py": "C17 C15 C13 C12",
    "logger.py": "C28 C19 C18 C20",
    "printers/json_printer.py": "C12 C27 C20 C05 C08 C19 C30 C09 C32",
    "printers/margo_printer.py": "C13 C14 C15 C16 C22 C20 C19 C30 C32",
    "sub_decoders/RTCM_MSM.py": "C05 C06 C07 C10 C22 C11 C13 C34",
    "sub_decoders/RTCM_EPH.py": "C08 C10 C11 C21",
    "sub_decoders/RTCM_BASE.py": "C09 C10 C11 C21 C34",
    "utilities/RTCM_utilities.py": "C27 C06 C07 C15 C13 C12 C26",
    "utilities/bits.py": "C26 C05 C08 C10",
    "utilities/CRC24Q.py": "C26 C01 C03",
    "gnss_types/data_class_methods.py": "C21 C09",
    "gnss_types/observables.py": "C05 C06 C12 C11",
    "gnss_types/base_station.py": "C09 C21 C11",
    "gnss_types/ephemeris.py": "C08 C21",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|", ast.BitOr: "&", ast.BitXor: "|", ast.Pow: "*"}
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent", PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONPATH="/opt/vp/plugin")


def mutants(src):
    """yields (line, description, new source)"""
    tree = ast.parse(src)
    data = src.encode()
    starts = [0]
    for ln in data.splitlines(keepends=True):
        starts.append(starts[-1] + len(ln))

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return data[a:b].decode()

    skip = set()
    for n in ast.walk(tree):
        for ch in ast.iter_child_nodes(n):
            ch.parent = n
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logger", "arg_parser"):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, (ast.JoinedStr, ast.Raise)):
            skip.update(id(x) for x in ast.walk(n) if x is not n)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.update(id(x) for x in ast.walk(n.body[0]))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, (ast.FunctionDef,)):
            for a in n.args.args:
                if a.annotation:
                    skip.update(id(x) for x in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.List) and len(n.elts) > 100:
            skip.update(id(x) for x in n.elts[3:-3])
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and "__name__" in text(n.test):
            skip.update(id(x) for x in ast.walk(n))

    def put(n, new, what):
        a, b = span(n)
        return n.lineno, f"{what}: {data[a:b].decode()[:60]!r} -> {new[:60]!r}", (data[:a] + new.encode() + data[b:]).decode()

    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                yield put(n, str(not v), "bool")
            elif isinstance(v, int):
                yield put(n, str(v + 1), "int")
                if v > 0:
                    yield put(n, str(v - 1), "int")
            elif isinstance(v, float):
                yield put(n, repr(v * 1.001), "float")
            elif isinstance(v, str) and v and not isinstance(getattr(n, "parent", None), ast.Expr):
                yield put(n, repr(v + "x"), "str")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield put(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})", "cmp")
        elif isinstance(n, ast.Compare) and len(n.ops) == 2:
            yield put(n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])} {_op(n.ops[1])} {text(n.comparators[1])})", "cmp")
            yield put(n, f"({text(n.left)} {_op(n.ops[0])} {text(n.comparators[0])} {CMP[type(n.ops[1])]} {text(n.comparators[1])})", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield put(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "bin")
        elif isinstance(n, ast.BoolOp):
            op = "or" if isinstance(n.op, ast.And) else "and"
            yield put(n, "(" + f" {op} ".join(f"({text(v)})" for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                w = "and" if op == "or" else "or"
                yield put(n, "(" + f" {w} ".join(f"({text(v)})" for j, v in enumerate(n.values) if j != i) + ")", "operand")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield put(n, f"({text(n.operand)})", "unary")
        elif isinstance(n, (ast.If, ast.While)) and isinstance(n, ast.If):
            yield put(n.test, "True", "if")
            yield put(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            yield put(n, f"({text(n.body)})", "ifexp")
            yield put(n, f"({text(n.orelse)})", "ifexp")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if isinstance(n, ast.Expr) and any(id(x) in skip for x in ast.walk(n)) and id(n.value) in skip:
                continue
            yield put(n, "pass", "del")
        elif isinstance(n, ast.Raise):
            yield put(n, "pass", "del")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            yield put(n, "return None", "return")
        elif isinstance(n, ast.Break):
            yield put(n, "continue", "break")
            yield put(n, "pass", "break")
        elif isinstance(n, ast.Continue):
            yield put(n, "pass", "continue")
            yield put(n, "break", "continue")
        elif isinstance(n, ast.Attribute) and n.attr in ("getbitu", "getbits", "getbitS") and isinstance(getattr(n, "parent", None), ast.Call):
            other = {"getbitu": "getbits", "getbits": "getbitu", "getbitS": "getbits"}[n.attr]
            yield put(n, f"{text(n.value)}.{other}", "attr")


def _op(o):
    return {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(o)]


ONE = """
import sys, os, json, multiprocessing as mp
sys.path.insert(0, {here!r}); sys.dont_write_bytecode = True
from vlib import runner
import hypothesis, importlib
def sub(prop, conn):
    m = importlib.import_module("checks." + prop.lower())
    for s in m.SUBS: s.shrink = False
    runner.worker(prop, "quick", 1, 0, 8, conn)
ctx = mp.get_context("fork")
for prop in sys.argv[1].split():
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=sub, args=(prop, b)); p.start(); b.close()
    r = a.recv() if a.poll(240) else dict(violation=dict(msg="timeout"), error=None)
    p.kill(); p.join(); runner._sweep([p.pid])
    if r["violation"]:
        print(json.dumps(dict(by=prop, msg=str(r["violation"]["msg"])[:150]))); sys.exit(0)
    if r["error"]:
        print(json.dumps(dict(by=prop, error=r["error"][-600:]))); sys.exit(0)
print(json.dumps(dict(by=None)))
"""


def judge(job):
    f, line, what, new, allp = job
    tmp = tempfile.mkdtemp(prefix="mut-", dir="/dev/shm")
    wt = os.path.join(tmp, "repo")
    res = {"file": f, "line": line, "what": what}
    try:
        shutil.copytree("/repo", wt, ignore=shutil.ignore_patterns("__pycache__", ".git", "DOCs"))
        with open(os.path.join(wt, f), "w", encoding="utf-8", newline="") as fh:
            fh.write(new)
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "bool_results", f"--rootdir={wt}", "--timeout=60", "."], cwd=wt, env=ENV, capture_output=True, text=True, timeout=90)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 99
        if rc:
            return {**res, "status": "tests"}
        order = ORDER[f].split()
        if os.environ.get("MUT_ALL"):
            order = [c for c in order if c in allp] + [c for c in allp if c not in order]
        p = subprocess.run(["python3-vt", "-c", ONE.format(here=HERE), " ".join(order)], env=dict(ENV, VERIF_REPO=wt, PYTHONPATH=""), capture_output=True, text=True, timeout=3000, cwd=tmp)
        try:
            r = json.loads(p.stdout.strip().splitlines()[-1])
        except (ValueError, IndexError):
            return {**res, "status": "crash", "msg": p.stderr[-500:]}
        st = "error" if r.get("error") else "killed" if r["by"] else "SURVIVED"
        return {**res, "status": st, **r}
    except Exception as ex:
        return {**res, "status": "crash", "msg": repr(ex)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=",".join(FILES))
    ap.add_argument("--sample", type=int)
    ap.add_argument("--jobs", type=int, default=7)
    ap.add_argument("--seed", type=int, default=1)
    a = ap.parse_args()
    allp = sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, "checks")) if x[0] == "c" and x[1:3].isdigit())
    jobs = []
    done = set()
    if os.path.exists(a.out):
        done = {(r["file"], r["line"], r["what"]) for r in map(json.loads, open(a.out))}
    for f in a.files.split(","):
        src = open(os.path.join("/repo", f), encoding="utf-8", newline="").read()
        for line, what, new in mutants(src):
            try:
                compile(new, f, "exec")
            except SyntaxError:
                continue
            if (f, line, what) not in done:
                jobs.append((f, line, what, new, allp))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[: a.sample]
    print(len(jobs), "mutants", flush=True)
    n = {}
    with cf.ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as out:
        for fut in cf.as_completed([ex.submit(judge, j) for j in jobs]):
            r = fut.result()
            n[r["status"]] = n.get(r["status"], 0) + 1
            out.write(json.dumps(r) + "\n")
            out.flush()
    print(n)


main()
