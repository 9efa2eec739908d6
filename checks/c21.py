"""C21: copy and comparison of records"""
import copy
import dataclasses
import math
import random

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub

ASSUMPTIONS = ["integers are not compared with booleans"]
DEF_TOL = 1e-15


def record(m, bare):
    d = sut.SCRATCH.new()
    try:
        with sut.quiet(), sut.guarded(), sut.no_raise("decoding "):
            c = sut.new_converter("JSON-B" if bare else "JSON", d)
            r = c.decode(R.msg_frame(m))
            c.release()
    finally:
        sut.SCRATCH.drop(d)
    if r is None:
        raise Violation(f"message {m['num']} was not decoded")
    return r


def leaves(x, path=()):
    """paths of primitive values inside field values"""
    if isinstance(x, dict):
        for k in x:
            yield from leaves(x[k], path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path


def get(x, path):
    for k in path:
        x = x[k]
    return x


def put(x, path, v):
    """copy of x with the value at path replaced"""
    if not path:
        return v
    k = path[0]
    if isinstance(x, dict):
        return {q: put(w, path[1:], v) if q == k else w for q, w in x.items()}
    y = [put(w, path[1:], v) if i == k else w for i, w in enumerate(x)]
    return tuple(y) if isinstance(x, tuple) else y


def rel(a, b, tol):
    """ratio of the difference to the allowed one, None if ambiguous"""
    if math.isnan(a) or math.isnan(b):
        return 0.0 if math.isnan(a) and math.isnan(b) else 1e9
    if 0.2 * tol < abs(b) < 5 * tol:
        return None
    d = abs(b - a)
    return d / abs(b) / tol if abs(b) > tol else d / tol


def call(what, f):
    with sut.quiet(), sut.guarded(), sut.no_raise(what + " "):
        return f()


def compare(a, b, tol):
    rv = call("compare", (lambda: a.compare(b)) if tol is None else (lambda: a.compare(b, tol)))
    if rv is not True and rv is not False:
        raise Violation(f"compare returned {rv!r}")
    return rv


def names(r):
    return [f.name for f in dataclasses.fields(r)]


def dup(r):
    """independent duplicate made without the code under test"""
    q = object.__new__(type(r))
    for n in names(r):
        object.__setattr__(q, n, copy.deepcopy(getattr(r, n)))
    return q


def same(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return list(x) == list(y) and all(same(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) and math.isnan(x):
        return math.isnan(y)
    return x == y


def run(case):
    rng = random.Random(case["seed"])
    tol = case["tol"]
    t = DEF_TOL if tol is None else tol
    a = record(case["msg"], case["bare"])
    b = dup(a)
    # give float fields the values of interest (fields may be of type float in scaled records)
    fl = [(n, p) for n in names(a) for p in leaves(getattr(a, n)) if type(get(getattr(a, n), p)) is float]
    special = {}
    if case["values"] == "special":
        for n, p in fl:
            special[n, p] = rng.choice((0.0, -0.0, 1.0, -1.0, 1e-9, -1e-9, 1e9, -1e9, 3.3e-5, -123456.789, float("nan"), 1e-30, -1e-30, rng.uniform(-1, 1), rng.uniform(-1e7, 1e7)))
        for (n, p), v in special.items():
            for x in (a, b):
                setattr(x, n, put(getattr(x, n), p, v))
    where = f"{type(a).__name__} (message {case['msg']['num']}, {'bare' if case['bare'] else 'scaled'}, tolerance {t}): "
    if not compare(a, b, tol) or not compare(b, a, tol) or not compare(a, a, tol):
        raise Violation(where + "a record does not equal its identical twin")
    lb = [type(a).__name__, case["change"]]
    change = case["change"]
    n = rng.choice(names(a))
    pool = [(n, p) for n in names(a) for p in leaves(getattr(a, n))]
    exp = None
    desc = ""
    if change == "float" and fl:
        n, p = rng.choice(fl)
        v = get(getattr(a, n), p)
        if math.isnan(v):
            w = rng.choice((0.0, 1.0, float("nan"), -5.5, float("inf"), float("-inf")))
        else:
            k = rng.choice((0.2, 0.4, 0.5, 1.7, 2.0, 3.0, 10.0, 1e3, 1e9)) * rng.choice((1, -1))
            w = v + (abs(v) if abs(v) > t else 1.0) * t * k
            if rng.random() < 0.15:
                w = rng.choice((-v, v + 1.0, 0.0, v * 2, float("nan"), float("inf"), float("-inf")))
        setattr(b, n, put(getattr(b, n), p, w))
        x = rel(v, w, t)
        y = rel(w, v, t)
        if x is None or y is None or 0.8 < x < 1.3 or 0.8 < y < 1.3:
            return lb + ["ambiguous"]
        exp = (x < 1, y < 1)
        desc = f"field {n}{list(p) or ''}: {v!r} vs {w!r}"
        lb.append("negative float" if v < 0 else "float")
    elif change in ("value", "float"):
        n, p = rng.choice(pool)
        v = get(getattr(a, n), p)
        if type(v) is bool:
            w = not v
        elif type(v) is int:
            w = v + rng.choice((1, -1, 2, 256, -(1 << 20), 1 << 40)) if rng.random() < 0.8 else (-v if v else 7)
        elif type(v) is str:
            w = rng.choice((v + " ", v + "x", v[:-1], v[::-1], v.swapcase(), "", "x" + v))
            if w == v:
                w = v + "0"
        elif type(v) is float:
            w = 1.0 if math.isnan(v) else v + 1.0 + abs(v) * 0.5
        else:
            return lb
        setattr(b, n, put(getattr(b, n), p, w))
        exp = (False, False)
        desc = f"field {n}{list(p) or ''}: {v!r} vs {w!r}"
    elif change == "type":
        n, p = rng.choice(pool)
        v = get(getattr(a, n), p)
        if type(v) is int:
            w = rng.choice((float(v), str(v), None, [v]))
        elif type(v) is float:
            w = rng.choice((str(v), None, 0 if math.isnan(v) else int(v)))
        elif type(v) is str:
            w = rng.choice((v.encode(), None, 0, list(v)))
        else:
            w = rng.choice((str(v), None))
        setattr(b, n, put(getattr(b, n), p, w))
        if w is None:  # None is not a value a record holds: only the direction record vs None field is meaningful
            exp = (False, None)
        else:
            exp = (False, False)
        desc = f"field {n}{list(p) or ''}: {v!r} vs {w!r}"
    elif change == "container":
        cs = [n for n in names(a) if isinstance(getattr(a, n), (dict, list))]
        if not cs:
            return lb
        n = rng.choice(cs)
        x = copy.deepcopy(getattr(b, n))
        if isinstance(x, dict):
            how = rng.choice(("del", "add", "rename"))
            if x and how == "del":
                x.pop(rng.choice(sorted(x, key=str)))
            elif x and how == "rename":
                k = rng.choice(sorted(x, key=str))
                x[(k + 4096) if isinstance(k, int) else k + "_"] = x.pop(k)
            else:
                k = next(iter(x), None)
                x[4999 if isinstance(k, int) or k is None else "zz"] = next(iter(x.values()), 0)
        else:
            x.append(x[-1] if x else 0)
        setattr(b, n, x)
        exp = (False, False)
        desc = f"field {n}: {getattr(a, n)!r} vs {x!r}"
    elif change == "order":  # the order in which a dictionary was filled is not part of its value
        cs = [n for n in names(a) if isinstance(getattr(a, n), dict) and len(getattr(a, n)) > 1]
        if not cs:
            return lb
        n = rng.choice(cs)
        x = copy.deepcopy(getattr(b, n))
        ks = list(x)
        rng.shuffle(ks)
        if ks == list(x):
            ks.reverse()
        setattr(b, n, {k: x[k] for k in ks})
        exp = (True, True)
        desc = f"field {n} filled in a different order"
    elif change == "nested length":
        cs = [(n, k) for n in names(a) if isinstance(getattr(a, n), dict) for k, v in getattr(a, n).items() if isinstance(v, (tuple, list))]
        if not cs:
            return lb
        n, k = rng.choice(cs)
        x = copy.deepcopy(getattr(b, n))
        x[k] = x[k][:-1] if rng.random() < 0.5 else x[k] + x[k][-1:]
        setattr(b, n, x)
        exp = (False, False)
        desc = f"field {n}: {getattr(a, n)!r} vs {x!r}"
    elif change == "two":  # several changes within tolerance are still equal
        if not fl:
            return lb
        for n, p in rng.sample(fl, rng.randint(1, len(fl))):
            v = get(getattr(a, n), p)
            if math.isnan(v) or (0.2 * t < abs(v) < 5 * t):
                continue
            w = v + (abs(v) if abs(v) > t else 1.0) * t * rng.choice((-0.4, -0.2, 0.2, 0.4))
            x = rel(v, w, t)
            if x is None or x > 0.8 or (rel(w, v, t) or 0) > 0.8 or rel(w, v, t) is None:
                continue
            setattr(b, n, put(getattr(b, n), p, w))
        exp = (True, True)
        desc = "changes of float fields below the tolerance"
    if exp is not None:
        for x, y, e in ((a, b, exp[0]), (b, a, exp[1])):
            if e is not None and compare(x, y, tol) is not e:
                raise Violation(where + f"compare says {not e}: {desc}")
        lb.append("nontrivial")
    return lb


def strat():
    return st.fixed_dictionaries(
        {
            "msg": st.one_of(gen.eph(), gen.base(), gen.base(nums=[1013, 1230, 1005, 1006]), gen.base(nums=[1013])),
            "bare": st.integers(0, 3).map(lambda k: k == 0),
            "seed": gen.seeds,
            "tol": st.sampled_from((None, None, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3)),
            "values": st.sampled_from(("special", "plain")),
            "change": st.sampled_from(("float", "float", "float", "value", "value", "type", "container", "nested length", "order", "two")),
        }
    )


# records of two messages
def run_pairs(case):
    a, b = record(case["a"], case["bare"]), record(case["b"], case["bare"])
    lb = []
    if type(a) is type(b):
        exp = all(same(getattr(a, n), getattr(b, n)) for n in names(a))
        close = not exp and all(
            same(getattr(a, n), getattr(b, n)) or (type(getattr(a, n)) is float and type(getattr(b, n)) is float and ((rel(getattr(a, n), getattr(b, n), DEF_TOL) or 0) < 2))
            for n in names(a)
        )
        if close:
            return []
        lb += ["same class"]
    elif isinstance(a, type(b)) or isinstance(b, type(a)):
        if compare(a, b, None) or compare(b, a, None):
            raise Violation(f"{type(a).__name__} record equals a {type(b).__name__} record")
        return ["related classes", "nontrivial"]
    else:
        exp = False
        lb += ["different classes"]
    if compare(a, b, None) is not exp or compare(b, a, None) is not exp:
        raise Violation(f"compare of two {'equal' if exp else 'different'} messages {case['a']['num']} and {case['b']['num']} says {not exp}")
    for x in (5, None, "x", {}, object()):
        if compare(a, x, None):
            raise Violation(f"{type(a).__name__} record equals {x!r}")
    return lb + ["nontrivial"]


@st.composite
def strat_pairs(draw):
    a = draw(st.one_of(gen.eph(), gen.base()))
    k = draw(st.integers(0, 3))
    b = a if k == 0 else gen.tweak(a, draw(gen.seeds)) if k == 1 else draw(gen.eph([a["num"]]) if a["num"] in R.EPH else gen.base([a["num"]])) if k == 2 else draw(st.one_of(gen.eph(), gen.base()))
    return {"a": a, "b": b, "bare": draw(st.booleans())}


# copies
def scramble(rng, x):
    """change everything inside a mutable value in place"""
    if isinstance(x, dict):
        for k in list(x):
            scramble(rng, x[k])
            x[k] = "changed"
        x["new"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(rng, v)
        x.append("changed")


def run_copy(case):
    rng = random.Random(case["seed"])
    a = record(case["msg"], case["bare"])
    keep = dup(a)
    fs = names(a)
    w = f"{type(a).__name__}: "
    its = call("items", lambda: list(a.items()))
    if [k for k, _ in its] != fs and sorted(k for k, _ in its) != sorted(fs):
        raise Violation(w + f"items() lists {[k for k, _ in its]}, fields are {fs}")
    for k, v in its:
        if not same(v, getattr(a, k)):
            raise Violation(w + f"items() gives {k}={v!r}, the field is {getattr(a, k)!r}")
    if call("len", a.len) != len(fs):
        raise Violation(w + f"len() is {a.len()}, there are {len(fs)} fields")
    for kind in ("copy", "deepcopy"):
        c = call(kind, getattr(a, kind))
        if type(c) is not type(a) or c is a:
            raise Violation(w + f"{kind}() returned {type(c).__name__}{' itself' if c is a else ''}")
        for n in fs:
            if not same(getattr(c, n), getattr(a, n)):
                raise Violation(w + f"{kind}() changed {n}: {getattr(a, n)!r} -> {getattr(c, n)!r}")
        if not compare(c, a, None) or not compare(a, c, None):
            raise Violation(w + f"{kind}() does not compare equal")
        # plain fields of either copy are independent of the original
        for n in fs:
            v = getattr(c, n)
            if kind == "deepcopy":
                scramble(rng, v)
            setattr(c, n, "changed")
        for n in fs:
            if not same(getattr(a, n), getattr(keep, n)):
                raise Violation(w + f"modifying a {kind}() changed {n} of the original: {getattr(keep, n)!r} -> {getattr(a, n)!r}")
    # and the other way round
    c = call("deepcopy", a.deepcopy)
    for n in fs:
        scramble(rng, getattr(a, n))
        setattr(a, n, None)
    for n in fs:
        if not same(getattr(c, n), getattr(keep, n)):
            raise Violation(w + f"modifying the original changed {n} of its deep copy")
    return ["nontrivial", type(a).__name__]


def strat_copy():
    return st.fixed_dictionaries({"msg": st.one_of(gen.eph(), gen.base(), gen.base(nums=[1013, 1230])), "bare": st.booleans(), "seed": gen.seeds})


TECHNIQUE = "reference comparison over generated pairs of decoded records differing in one field"
NOTE = "Differences between 0.8 and 1.3 times the tolerance and values near the tolerance itself are not judged."
SUBS = [
    Sub("changes", strat, run, (12000, 400000), "a decoded record and a duplicate with one change; non-trivial: the change was made and judged"),
    Sub("pairs", strat_pairs, run_pairs, (5000, 150000), "records of two messages, equal, similar or of different classes; non-trivial: judged"),
    Sub("copies", strat_copy, run_copy, (5000, 150000), "copies of decoded records; all non-trivial"),
]
