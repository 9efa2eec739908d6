"""Coverage-guided search (atheris / libFuzzer) over the cases of an ordinary sub-check.

The corpus starts with cases drawn from the sub-check's own strategy.  libFuzzer keeps what reaches new branches (or branch counts) of the tree
under test; a structure-aware mutator changes fields, satellites, signals, cells, the order and repetition of messages and the settings, so that
every input is a well-formed case and goes through the same oracle as the generated ones.  Conditions that need several particular values
together are so met one after the other.  Runs in a process of its own:
    python3-vt fuzz.py PROP SUB SEED RUNS SECONDS RESULT.json"""
import json
import os
import random
import sys
import time

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import gen, rtcm as R


# ---------------------------------------------------------------- mutation of messages
def fix_margo(m, rng):
    """what the table oracle decides: valid epochs, unambiguous MSM3"""
    g = R.gnss_of(m["num"])
    if g == "R" and (m["time"] >> 27 > 6 or m["time"] & 0x7FFFFFF >= 86401000) or g != "R" and m["time"] >= 604800000:
        m["time"] = gen._time(rng, g, True)
    gen.clean_margo(m)
    return m


def mutate(m, rng, margo=False):
    """a similar well-formed message"""
    if "payload" in m:
        return m
    if m["num"] not in R.MSM_SET:
        return gen.tweak(m, rng.getrandbits(32))
    if not m["sats"] or rng.random() < 0.3:
        m = gen.tweak(m, rng.getrandbits(32), margo, keep_time=rng.random() < 0.5)
        return fix_margo(m, rng) if margo else m
    m = json.loads(json.dumps(m))
    g, lv = R.gnss_of(m["num"]), R.level_of(m["num"])
    what = rng.choice(("cell", "cell", "sat+", "sat-", "sig-", "gnss", "copy", "const", "const", "const", "const", "const", "const"))
    ns = len(m["sigs"])
    if what == "const":  # a field takes a constant of the program
        n, w, k, v = rng.choice([(n, w, "u", m) for n, w in R.HDR_FIELDS] + [(n, w, k, m["sat"][n]) for n, w, k in R.SAT_FIELDS[lv]] + [(n, w, k, m["sgn"][n]) for n, w, k in R.CELL_FIELDS[lv]])
        d = gen.pool(w, k)[1] or (0,)
        if gen.novel_ints(*gen.pool(w, k)[2:]) and rng.random() < 0.5:
            d = gen.novel_ints(*gen.pool(w, k)[2:])
        v[n if v is m else rng.randrange(len(v))] = rng.choice(d)
    elif what == "cell":
        toggle(m, rng.randrange(len(m["cells"])), rng)
        if not any(m["cells"]):
            toggle(m, rng.randrange(len(m["cells"])), rng)
    elif what == "sat+" and (len(m["sats"]) + 1) * ns <= 64:
        s = rng.choice([x for x in range(1, 65) if x not in m["sats"]])
        i = sum(1 for x in m["sats"] if x < s)
        m["sats"].insert(i, s)
        for n, w, k in R.SAT_FIELDS[lv]:
            m["sat"][n].insert(i, gen.rnd_value(rng, w, k))
        m["cells"][i * ns : i * ns] = [0] * ns
        toggle(m, i * ns + rng.randrange(ns), rng)
    elif what == "sat-" and len(m["sats"]) > 1:
        drop_sat(m, rng.randrange(len(m["sats"])), rng)
    elif what == "sig-" and ns > 1:
        drop_sig(m, rng.randrange(ns), rng)
    elif what == "gnss":
        g2 = rng.choice([x for x in R.GNSS_ALL if set(m["sigs"]) <= set(R.SIGNALS[x])] or [g])
        m["num"] = R.GNSS_BASE[g2] + lv
    else:
        n, _, _ = rng.choice(R.CELL_FIELDS[lv])
        v = m["sgn"][n]
        v[rng.randrange(len(v))] = rng.choice(v)
    return fix_margo(m, rng) if margo else m


def toggle(m, c, rng):
    k = sum(m["cells"][:c])
    m["cells"][c] ^= 1
    for n, w, kind in R.CELL_FIELDS[R.level_of(m["num"])]:
        if m["cells"][c]:
            m["sgn"][n].insert(k, gen.rnd_value(rng, w, kind))
        else:
            del m["sgn"][n][k]


def _clear(m, cells, rng):
    for c in cells:
        if m["cells"][c]:
            toggle(m, c, rng)


def drop_sat(m, i, rng):
    ns = len(m["sigs"])
    _clear(m, range(i * ns, i * ns + ns), rng)
    del m["sats"][i]
    del m["cells"][i * ns : i * ns + ns]
    for n, _, _ in R.SAT_FIELDS[R.level_of(m["num"])]:
        del m["sat"][n][i]
    if not any(m["cells"]):
        toggle(m, 0, rng)


def drop_sig(m, j, rng):
    ns = len(m["sigs"])
    _clear(m, range(j, len(m["cells"]), ns), rng)
    del m["sigs"][j]
    del m["cells"][j::ns]
    if not any(m["cells"]):
        toggle(m, 0, rng)


def lists(case, key):
    """the lists of messages of a case: one, or one per file"""
    v = case[key]
    return v if v and isinstance(v[0], list) else [v]


def mutate_case(case, rng, pool, key, margo, nums, most=12):
    """a similar case: key names its list of messages"""
    case = json.loads(json.dumps(case))
    other = pool[rng.randrange(len(pool))]
    if rng.random() < 0.12:
        k = rng.choice(sorted(case))
        if k != key:
            case[k] = other[k]
            return case
    items = rng.choice(lists(case, key))
    more = rng.choice(lists(other, key))
    r = rng.random()
    if r < 0.08 and more:
        items.insert(rng.randint(0, len(items)), rng.choice(more))
    elif r < 0.14 and len(items) > 1:
        del items[rng.randrange(len(items))]
    elif r < 0.19 and len(items) > 1:
        i, j = rng.randrange(len(items)), rng.randrange(len(items))
        items[i], items[j] = items[j], items[i]
    elif r < 0.25 and items:
        items.insert(rng.randint(0, len(items)), rng.choice(items))
    elif items:
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            i = rng.randrange(len(items))
            x = mutate(items[i], rng, margo) if isinstance(items[i], dict) else items[i]
            if not nums or not isinstance(x, dict) or "payload" in x or x["num"] in nums:
                items[i] = x
    del items[most:]
    return case


# ---------------------------------------------------------------- shrinking
def smaller(case, key):
    """simpler cases, the most radical first"""

    def changed(f):
        c = json.loads(json.dumps(case))
        f(lists(c, key))
        return c

    rng = random.Random(0)
    for k, items in enumerate(lists(case, key)):
        for i in range(len(items) if len(items) > 1 else 0):
            yield changed(lambda t: t[k].pop(i))
    for k, items in enumerate(lists(case, key)):
        for i, m in enumerate(items):
            if not isinstance(m, dict) or "payload" in m:
                continue
            if m["num"] in R.MSM_SET:
                for a, f in (("sats", drop_sat), ("sigs", drop_sig)):
                    for j in range(len(m[a]) if m["sats"] and len(m[a]) > 1 else 0):
                        yield changed(lambda t: f(t[k][i], j, rng))
                for n, _ in R.HDR_FIELDS:
                    if m[n]:
                        yield changed(lambda t: t[k][i].update({n: 0}))
                for part in ("sat", "sgn"):
                    for n, v in m[part].items():
                        if any(v):
                            yield changed(lambda t: t[k][i][part].update({n: [0] * len(v)}))
            elif "raw" in m:
                for n, v in m["raw"].items():
                    if v:
                        yield changed(lambda t: t[k][i]["raw"].update({n: 0}))


# ---------------------------------------------------------------- the fuzzing process
def examples(sub, seed, n):
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed

    out = []

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, phases=(Phase.generate,), suppress_health_check=list(HealthCheck))
    @given(sub.strategy())
    def collect(case):
        out.append(case)

    collect()
    return out


def main():
    prop, name, seed, runs, seconds, out = sys.argv[1:7]
    import warnings

    warnings.filterwarnings("ignore")
    import atheris
    import importlib

    from vlib import sut
    from vlib.model import Violation
    from vlib.runner import _digest, _shorten

    res = {"evals": 0, "labels": {}, "digests": [], "samples": [], "violation": None, "error": None, "corpus": 0}
    seen = set()

    def save():
        res["digests"] = [d.hex() for d in seen]
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    try:
        with atheris.instrument_imports(include=["controls", "converter_top", "decoder_top", "printer_top", "gnss_types", "printers", "sub_decoders", "utilities", "run_conversion"]):
            sut.setup()
    except Exception as ex:
        res["violation"] = {"case": None, "msg": f"the code under test does not import: {type(ex).__name__}: {ex}"}
        save()
        os._exit(0)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    sub = next(s for s in mod.SUBS if s.name == name)
    pool = examples(sub.base, int(seed), 120)
    for c in pool:
        if c.get("via") == "cli" and sub.fast:
            c["via"] = "api"
        for v in lists(c, sub.key):
            del v[sub.most :]
    corpus = os.path.join(sut.SCRATCH.root, "corpus")
    os.mkdir(corpus)
    for i, c in enumerate(pool):
        with open(os.path.join(corpus, f"s{i}"), "w") as f:
            json.dump(c, f)
    end = time.monotonic() + float(seconds)

    def finish():
        res["corpus"] = len(os.listdir(corpus))
        save()
        os.chdir("/")
        sut.SCRATCH.close()
        os._exit(0)

    def decode(data):
        try:
            c = json.loads(data)
            return c if isinstance(c, dict) else pool[0]
        except ValueError:
            return pool[0]  # the empty input libFuzzer starts with

    def attempt(case):
        try:
            return None, list(sub.run(case) or ())
        except (Violation, sut.Hang) as ex:
            return str(ex), ()

    def shrink(case, msg):
        t = time.monotonic() + 20
        again = True
        while again and time.monotonic() < t:
            again = False
            for c in smaller(case, sub.key):
                if time.monotonic() > t:
                    break
                r = attempt(c)[0]
                if r is not None:
                    case, msg, again = c, r, True
                    break
        return case, msg

    def one(data):
        if time.monotonic() > end or res["evals"] >= int(runs):
            finish()
        try:
            case = decode(data)
            msg, labels = attempt(case)
            if msg is not None:
                case, msg = shrink(case, msg)
                res["violation"] = {"case": case, "msg": msg}
                finish()
        except Exception as ex:
            import traceback

            text = traceback.format_exc()
            if isinstance(ex, (ImportError, AttributeError, NameError, MemoryError, AssertionError)):
                res["error"] = text
            else:  # as in runner.py: the observed output does not have the shape the oracle reads
                res["violation"] = {"case": case, "msg": "observation malformed: " + text[-1500:]}
            finish()
        res["evals"] += 1
        for lb in labels:
            res["labels"][lb] = res["labels"].get(lb, 0) + 1
        if "nontrivial" in labels:
            seen.add(_digest([name, case]))
            if len(res["samples"]) < 2 and res["evals"] > 500:
                res["samples"].append({"check": name, "case": _shorten(case), "labels": sorted(set(labels))})

    def mutator(data, max_size, seed):
        try:
            r = random.Random(seed)
            for _ in range(5):
                b = json.dumps(mutate_case(decode(data), r, pool, sub.key, sub.margo, sub.nums, sub.most)).encode()
                if len(b) <= max_size:
                    return b
            return data
        except Exception:
            import traceback

            res["error"] = traceback.format_exc()
            finish()

    atheris.Setup([sys.argv[0], corpus, f"-seed={int(seed) % (1 << 31) or 1}", "-max_len=60000", "-timeout=120", f"-use_counters={sub.counters}", "-rss_limit_mb=3000", "-verbosity=0", f"-artifact_prefix={sut.SCRATCH.root}/"], one, custom_mutator=mutator)
    atheris.Fuzz()
    finish()


if __name__ == "__main__":
    main()
