"""C28: the two-channel log"""
import logging
import os

from hypothesis import strategies as st

from vlib import gen, sut
from vlib.model import Violation
from vlib.runner import Sub

LEVELS = {"debug": None, "info": "INFO", "warning": "WARNING", "error": "ERROR", "critical": "PROGRESS", "progress": "PROGRESS"}
CONSOLE = {"warning", "error", "critical", "progress"}
ASSUMPTIONS = ["messages are one line of text", "one logger object per process, as in the program"]


def run(case):
    L = sut.mods["logger"].LOGGER_CF
    sut.reset_logger()
    d = sut.SCRATCH.new()
    files, cons = {}, []
    cur = None
    lb = set()
    inits = 0
    try:
        with sut.quiet() as cap, sut.guarded():
            for op in case["ops"]:
                if op[0] == "init":
                    p = os.path.join(d, f"f{op[1]}.txt")
                    if cur is not None:
                        try:
                            L.init_2CH(p, op[2])
                        except AssertionError:
                            lb.add("refused")
                        else:
                            raise Violation("a second log was opened while one is in use")
                        continue
                    with sut.no_raise("opening the log "):
                        L.init_2CH(p, op[2])
                    files.setdefault(op[1], [])
                    cur = (op[1], op[2])
                    inits += 1
                elif op[0] == "deinit":
                    with sut.no_raise("closing the log "):
                        L.deinit()
                    if cur is not None:
                        check_file(d, cur[0], files, "after closing ")
                    cur = None
                else:
                    with sut.no_raise(f"{op[0]}() "):
                        getattr(L, op[0])(op[1])
                    if cur is None:
                        lb.add("dropped")
                    elif LEVELS[op[0]]:
                        line = f"{cur[1]}:{LEVELS[op[0]]}: {op[1]}"
                        files[cur[0]].append(line)
                        if op[0] in CONSOLE:
                            cons.append(line)
            with sut.no_raise("closing the log "):
                L.deinit()
        for k in range(3):
            check_file(d, k, files, "")
        got = cap.err.split("\n")[:-1]
        if got != cons:
            i = next((i for i, (a, b) in enumerate(zip(got, cons)) if a != b), min(len(got), len(cons)))
            raise Violation(f"console line {i}: {got[i:i+1]}, expected {cons[i:i+1]} ({len(got)} lines, expected {len(cons)})")
        if cap.out:
            raise Violation(f"log output on stdout: {cap.out[:80]!r}")
    finally:
        sut.GUARD.on = False
        sut.reset_logger()
        for n in ("other", "a b"):
            logging.getLogger(n).handlers.clear()
        sut.SCRATCH.drop(d)
    if inits and any(files.values()):
        lb.add("nontrivial")
    if inits > 1:
        lb.add("several logs")
    return lb


def check_file(d, k, files, where):
    p = os.path.join(d, f"f{k}.txt")
    if k not in files:
        if os.path.exists(p):
            raise Violation(f"{where}log {k} exists although it was never opened")
        return
    if not os.path.isfile(p):
        raise Violation(f"{where}log {k} is missing")
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        got = f.read().split("\n")[:-1]
    if got != files[k]:
        i = next((i for i, (a, b) in enumerate(zip(got, files[k])) if a != b), min(len(got), len(files[k])))
        raise Violation(f"{where}log {k} line {i}: {got[i:i+1]}, expected {files[k][i:i+1]} ({len(got)} lines, expected {len(files[k])})")


def strat():
    text = st.one_of(st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=20), st.sampled_from(("", "%s", "100%", "{0}", "a:b: c", "%(name)s", "x" * 3000, "y" * 9000, "Минск é 測站", "\udcff\udce9 name")))
    op = st.one_of(
        st.tuples(st.just("init"), st.integers(0, 2), st.sampled_from(("RTCMDEC", "RTCMDEC", "other", "a b"))),
        st.tuples(st.just("deinit")),
        st.tuples(st.sampled_from(sorted(LEVELS)), text),
        st.tuples(st.sampled_from(sorted(LEVELS)), text),
        st.tuples(st.sampled_from(sorted(LEVELS)), text),
    )
    return st.builds(lambda a, ops: {"ops": [list(x) for x in (a + ops)]}, st.sampled_from(([], [("init", 0, "RTCMDEC")])), st.lists(op, min_size=1, max_size=25))


def run_many(case):
    """very many messages in one log"""
    lv = [x for x in case["levels"]]
    ops = [("init", 0, "RTCMDEC")] + [(lv[i % len(lv)], f"m{i if case['vary'] else ''}") for i in range(case["n"])] + [("deinit",)]
    return run({"ops": ops})


def strat_many():
    return st.fixed_dictionaries({"n": gen.or_novel(st.one_of(st.integers(100, 20000), st.just(70000)), 20, 140000), "vary": st.booleans(), "levels": st.lists(st.sampled_from(sorted(LEVELS)), min_size=1, max_size=3)})


TECHNIQUE = "model-based testing of operation sequences (open, close, write at each severity) against a list model of file and console"
NOTE = "Real files in a scratch directory, captured standard error."
SUBS = [Sub("operation sequences", strat, run, (16000, 600000), "1..26 operations on up to three log files; non-trivial: a log was opened and written"), Sub("many", strat_many, run_many, (48, 1200), "up to 70000 messages in one log; all non-trivial", shrink=False)]
