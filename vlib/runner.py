"""Runs the sub-checks of one property in parallel shards, writes evidence and replay files."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")  # redirected only by experiments
SOFT_LIMIT = {"quick": 240.0, "thorough": 3000.0}  # seconds; generation stops early (inconclusive for the rest), never a violation


class Sub:
    """one generated-input check.

    strategy: callable -> Hypothesis strategy of JSON-serialisable cases
    run:      case -> iterable of labels; raises Violation.  The label 'nontrivial' marks cases counted by `rule`.
    n:        (quick, thorough) number of cases over all shards
    """

    def __init__(self, name, strategy, run, n, rule="", shrink=True):
        self.name, self.strategy, self.run, self.n, self.rule, self.shrink = name, strategy, run, n, rule, shrink


class Enum(Sub):
    """exhaustive enumeration: cases() yields the cases"""

    def __init__(self, name, cases, run, rule="", thorough_only=False):
        super().__init__(name, None, run, (0, 0), rule)
        self.cases = cases
        self.thorough_only = thorough_only


class Fuzz(Sub):
    """coverage-guided search (vlib/fuzz.py) over the cases of another sub-check

    key: the case's list of messages; margo: keep to what the table oracle decides; nums: numbers allowed; most: messages per list; counters: whether branch counts are feedback, too; runs: (quick, thorough) over all shards"""

    def __init__(self, base, key, runs, nums=None, margo=False, fast=True, most=12, counters=1, name="guided"):
        super().__init__(name, None, base.run, (0, 0), f"cases of '{base.name}' evolved by coverage-guided mutation; non-trivial as there")
        self.base, self.key, self.runs, self.nums, self.margo, self.fast, self.most, self.counters = base, key, runs, nums and set(nums), margo, fast, most, counters


def _seed(*parts):
    return int.from_bytes(hashlib.sha256("|".join(map(str, parts)).encode()).digest()[:8], "big")


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode()).digest()[:8]


def _shorten(x, n=600):
    s = json.dumps(x, default=str)
    return x if len(s) <= n else s[:n] + f"... ({len(s)} characters)"


def worker(prop, tier, seed, shard, nshards, conn, only=None):
    """runs in a child process"""
    res = {"evals": 0, "digests": [], "labels": {}, "samples": [], "violation": None, "error": None, "cut": False, "subs": {}}
    sut = None
    try:
        import warnings

        warnings.filterwarnings("ignore")
        from . import sut as sut_mod
        from .model import Violation

        sut = sut_mod
        try:
            sut.setup()
        except Exception as ex:  # the tree does not even import
            raise Violation(f"the code under test does not import: {type(ex).__name__}: {ex}") from ex
        mod = importlib.import_module(f"checks.{prop.lower()}")
        t0 = time.monotonic()
        seen = set()
        subs = [s for s in mod.SUBS if not only or s.name == only]
        for i, sub in enumerate(subs):
            end = t0 + SOFT_LIMIT[tier]
            if isinstance(sub, Fuzz):
                _run_fuzz(prop, tier, seed, shard, nshards, sub, res, seen, end)
                if res["violation"] or res["error"]:
                    break
                continue
            if tier == "thorough" and not isinstance(sub, Enum):  # an equal share of the time that is left, so that a cut run still reaches every sub-check
                end = time.monotonic() + max(end - time.monotonic(), 0.0) / (len(subs) - i)
            _run_sub(prop, tier, seed, shard, nshards, sub, res, seen, end, sut)
            if res["violation"] or res["error"]:
                break
        res["digests"] = [d.hex() for d in seen]
    except BaseException as ex:  # noqa: BLE001
        from .model import Violation

        if isinstance(ex, Violation):
            res["violation"] = {"sub": None, "case": None, "msg": str(ex)}
        else:
            res["error"] = "".join(traceback.format_exception(ex))
    finally:
        try:
            if sut and sut.SCRATCH:
                os.chdir("/")
                sut.SCRATCH.close()
        except Exception:
            pass
    conn.send(res)
    conn.close()


def _run_sub(prop, tier, seed, shard, nshards, sub, res, seen, end, sut):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import Flaky, FlakyFailure, StopTest

    from .model import Violation

    stt = res["subs"].setdefault(sub.name, 0)
    last = {"case": None, "msg": None, "kind": None}
    nsamples = [0]

    class Cut(BaseException):
        pass

    def one(case):
        if last["case"] is None and time.monotonic() > end:
            raise Cut()
        try:
            labels = list(sub.run(case) or ())
        except Violation as ex:
            last.update(case=case, msg=str(ex), kind="violation")
            raise
        except sut.Hang as ex:
            last.update(case=case, msg=f"does not terminate: {ex}", kind="violation")
            raise
        except Exception as ex:  # harness error
            if type(ex).__module__.startswith("hypothesis"):
                raise
            text = "".join(traceback.format_exception(ex))
            if isinstance(ex, (ImportError, AttributeError, NameError, MemoryError, AssertionError)):
                last.update(case=case, msg=text, kind="error")
                raise
            # the observed output does not even have the shape the oracle reads
            last.update(case=case, msg="observation malformed: " + text[-1500:], kind="violation")
            raise Violation("observation malformed") from ex
        if last["case"] is not None:
            return  # shrinking
        res["evals"] += 1
        res["subs"][sub.name] += 1
        for lb in labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if "nontrivial" in labels:
            seen.add(_digest([sub.name, case]))
            if shard == 0 and nsamples[0] < 2:
                nsamples[0] += 1
                res["samples"].append({"check": sub.name, "case": _shorten(case), "labels": sorted(set(labels))})

    try:
        if isinstance(sub, Enum):
            if tier == "quick" and sub.thorough_only:
                return
            for i, case in enumerate(sub.cases()):
                if i % nshards == shard:
                    one(case)
            return
        total = sub.n[0] if tier == "quick" else sub.n[1]
        n = total // nshards + (1 if shard < total % nshards else 0)
        if n == 0:
            return

        @hseed(_seed(seed, prop, sub.name, shard))
        @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate, Phase.shrink) if sub.shrink else (Phase.generate,), suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False, derandomize=False, verbosity=_quiet())
        @given(sub.strategy())
        def test(case):
            one(case)

        test()
    except Cut:
        res["cut"] = True
    except (Violation, sut.Hang, Flaky, FlakyFailure) as ex:
        if last["kind"] == "error":
            res["error"] = last["msg"]
        else:
            res["violation"] = {"sub": sub.name, "case": last["case"], "msg": last["msg"] or str(ex)}
    except BaseExceptionGroup as ex:
        if last["kind"] == "violation":
            res["violation"] = {"sub": sub.name, "case": last["case"], "msg": last["msg"]}
        else:
            res["error"] = "".join(traceback.format_exception(ex))
    except StopTest:
        raise
    except Exception as ex:
        res["error"] = "".join(traceback.format_exception(ex))


def _run_fuzz(prop, tier, seed, shard, nshards, sub, res, seen, end):
    import subprocess
    import tempfile

    runs = -(-sub.runs[0 if tier == "quick" else 1] // nshards)
    t = min(60 if tier == "quick" else 2400, end - time.monotonic())
    if t <= 0 or runs <= 0:
        return
    fd, path = tempfile.mkstemp(prefix="verif-fuzz-")
    os.close(fd)
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "vlib", "fuzz.py"), prop, sub.name, str(_seed(seed, prop, sub.name, shard)), str(runs), str(t), path],
                           stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace", timeout=t + 240, cwd="/")
        try:
            with open(path) as f:
                r = json.load(f)
        except ValueError:
            res["cut"] = True  # inconclusive: the search itself failed
            res["labels"]["guided search failed: " + (p.stderr.strip().splitlines() or [str(p.returncode)])[-1][:120]] = 1
            return
    except subprocess.TimeoutExpired:
        res["cut"] = True
        return
    finally:
        for x in (path, path + ".tmp"):
            if os.path.exists(x):
                os.unlink(x)
    res["evals"] += r["evals"]
    res["subs"][sub.name] = res["subs"].get(sub.name, 0) + r["evals"]
    for k, v in r["labels"].items():
        res["labels"][k] = res["labels"].get(k, 0) + v
    seen.update(bytes.fromhex(d) for d in r["digests"])
    if shard == 0:
        res["samples"] += r["samples"]
    if r["violation"]:
        msg = _confirm(sub, r["violation"]["case"])
        if msg is None:  # only under instrumentation: says nothing about the program itself
            res["cut"] = True
            res["labels"]["guided finding not confirmed: " + r["violation"]["msg"][:200]] = 1
        else:
            res["violation"] = {"sub": sub.name, "case": r["violation"]["case"], "msg": msg}
    elif r["error"]:  # inconclusive, the ordinary sub-checks ran through
        res["cut"] = True
        res["labels"]["guided search failed: " + r["error"].strip().splitlines()[-1][:200]] = 1


def _confirm(sub, case):
    """what is wrong with the case in a process without instrumentation, None if nothing"""
    from . import sut
    from .model import Violation

    if case is None:
        return None
    for _ in range(3):
        try:
            sub.run(case)
        except (Violation, sut.Hang) as ex:
            return str(ex)
        except (ImportError, AttributeError, NameError, MemoryError, AssertionError):
            return None
        except Exception:
            return "observation malformed: " + traceback.format_exc()[-1500:]
    return None


def _quiet():
    from hypothesis import Verbosity

    return Verbosity.quiet


def run_property(prop, tier, seed, only=None, workers=WORKERS):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    ctx = mp.get_context("fork")
    procs = []
    for i in range(workers):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(prop, tier, seed, i, workers, b, only))
        p.start()
        b.close()
        procs.append((p, a))
    results = []
    from multiprocessing.connection import wait

    waiting = {a: p for p, a in procs}
    stop = False
    while waiting:
        for a in wait(list(waiting)):
            p = waiting.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = {"evals": 0, "digests": [], "labels": {}, "samples": [], "violation": None, "error": f"worker died (exit code {p.exitcode})", "cut": False, "subs": {}}
            results.append(r)
            if r["violation"]:
                stop = True
        if stop:
            break
    if stop:  # give the other shards no more time
        for a, p in waiting.items():
            p.terminate()
    for p, a in procs:
        p.join(20)
        if p.is_alive():
            p.kill()
            p.join()
    _sweep([p.pid for p, _ in procs])

    viol = [r["violation"] for r in results if r["violation"]]
    errs = [r["error"] for r in results if r["error"]]
    labels, subs, digests, samples = {}, {}, set(), []
    for r in results:
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r["subs"].items():
            subs[k] = subs.get(k, 0) + v
        digests.update(r["digests"])
        samples += r["samples"]
    mod = None
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception:
        errs.append(traceback.format_exc())
    evals = sum(r["evals"] for r in results)
    rules = "; ".join(f"{s.name}: {s.rule}" for s in mod.SUBS if s.rule) if mod else ""
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(digests),
            "rule": rules or "see DESIGN.md",
            "samples": samples[:6],
            "cases_per_check": subs,
            "labels": dict(sorted(labels.items())),
            "stopped_early": any(r["cut"] for r in results),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(f"{prop} {tier}: {evals} cases, {len(digests)} distinct non-trivial, {ev['wall_s']} s" + (" (stopped early)" if ev["coverage"]["stopped_early"] else ""))
    if viol:
        v = min(viol, key=lambda x: len(json.dumps(x, default=str)))
        d = os.path.join(EVIDENCE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1, default=str)
        print(f"{prop} [{v['sub']}]: {v['msg']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    return 0


def _sweep(pids):
    """remove scratch directories left by terminated workers"""
    import glob
    import shutil

    for base in ("/dev/shm", "/tmp"):
        for d in glob.glob(f"{base}/verif-*"):
            try:
                with open(os.path.join(d, ".pid")) as f:
                    if int(f.read()) in pids:
                        shutil.rmtree(d, ignore_errors=True)
            except (OSError, ValueError):
                pass


def replay(path):
    from . import sut
    from .model import Violation

    with open(path) as f:
        r = json.load(f)
    sys.path.insert(0, VERIF)
    prop = r["property"]
    try:
        sut.setup()
    except Exception as ex:
        print(f"does not import: {ex}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    mod = importlib.import_module(f"checks.{prop.lower()}")
    try:
        for sub in mod.SUBS:
            if sub.name == r["sub"]:
                sub.run(r["case"])
        print("no violation")
        return 0
    except (Violation, sut.Hang) as ex:
        print(f"{prop} [{r['sub']}]: {ex}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    finally:
        os.chdir("/")
        sut.SCRATCH.close()
