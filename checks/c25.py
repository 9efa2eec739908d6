"""C25: dispatching of plug-in decoders and printers"""
import functools
import random

from hypothesis import strategies as st

from vlib import gen, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Sub

ASSUMPTIONS = ["scopes of sub-printers do not overlap", "results are not of a subclass of the specified type"]
MSM13 = [1071 + i + 10 * g for g in range(7) for i in range(3)]
MSM47 = [1074 + i + 10 * g for g in range(7) for i in range(4)]
EPH = {1045: "EphGALF", 1046: "EphGALI", 1020: "EphGLO", 1019: "EphGPS", 1044: "EphQZS", 1042: "EphBDS", 1041: "EphNAVIC"}
BASE = {1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1033: "BaseADSNRC", 1013: "BaseSP", 1029: "BaseTS", 1230: "BaseGLBS"}
TYPES = sorted({*EPH.values(), *BASE.values(), "ObservablesMSM", "BareObservablesMSM123", "BareObservablesMSM4567"})
PARENTS = {"BaseRPH": {"BaseRP"}, "BaseADSN": {"BaseAD"}, "BaseADSNRC": {"BaseADSN", "BaseAD"}}
NUMS = sorted({*MSM13, *MSM47, *EPH, *BASE})
FORMATS = ["MARGO", "JSON", "JARGO"]
BAD_FORMATS = ["", "UNDEF", "json", "JSON-B", "XML", "MARGO "]


def spec(subset, bare):
    if subset == "MSM13O":
        return dict.fromkeys(MSM13, "BareObservablesMSM123" if bare else "ObservablesMSM")
    if subset == "MSM47O":
        return dict.fromkeys(MSM47, "BareObservablesMSM4567" if bare else "ObservablesMSM")
    return {"EPH": EPH, "BASE": BASE, "LEGO": {}}[subset]


class Custom(Exception):
    pass


def raiser(kind):
    dt = sut.mods["decoder_top"]
    if kind == "late":
        return dict(())["x"]
    raise {
        "decode": lambda: dt.ExceptionDecoderDecode("bad"),
        "decode0": lambda: dt.ExceptionDecoderDecode(),
        "decode2": lambda: dt.ExceptionDecoderDecode("a", "b"),
        "value": lambda: ValueError("v"),
        "value0": lambda: ValueError(),
        "index": lambda: IndexError("i"),
        "assert": lambda: AssertionError("a"),
        "assert0": lambda: AssertionError(),
        "custom": lambda: Custom(1, {}),
        "zero": lambda: ZeroDivisionError("z"),
        "os": lambda: OSError(5, "os"),
        "stop": lambda: StopIteration(),
        "rec": lambda: RecursionError("r"),
        "mem": lambda: MemoryError(),
        "uni": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "u"),
        "ni": lambda: NotImplementedError(),
    }[kind]()


RAISE = ["decode", "decode0", "decode2", "value", "value0", "index", "assert", "assert0", "custom", "zero", "os", "stop", "rec", "mem", "uni", "ni", "late"]


class Plug:
    """stand-in of a sub-decoder or sub-printer; records its calls"""

    def __init__(self, world, name):
        self.world, self.name = world, name

    def decode(self, buf):
        self.world.calls.append(("decode", self.name, bytes(buf)))
        return self.world.result()

    def print(self, iblock):
        self.world.calls.append(("print", self.name, iblock))
        self.world.printed(iblock)

    def close(self):
        self.world.calls.append(("close", self.name, None))


class World:
    def __init__(self):
        self.calls = []
        self.result = None
        self.printed = None


def bind(plug, meth, how):
    f = getattr(plug, meth)
    if how == "lambda":
        return (lambda b: f(b)) if meth != "close" else (lambda: f())
    if how == "partial":
        return functools.partial(f)
    return f


def run(case):
    with sut.quiet(), sut.guarded():
        return _run(case)


def _run(case):
    dt, pt, gt = (sut.mods[n] for n in ("decoder_top", "printer_top", "gnss_types"))
    cls = {n: getattr(gt, n) for n in TYPES}
    world = World()
    with sut.no_raise("creation "):
        conv = sut.mods["converter_top"].Converter()
    decoders, printers = {}, []
    exist = False
    want = {"decoding_attempts": 0, "decoding_errors": 0, "printing_attempts": 0, "printing_errors": 0, "parsing_errors": 0}
    labels = set()
    refused = 0
    for no, op in enumerate(case["ops"]):
        w = f"step {no} ({op['op']}): "
        world.calls = []
        if op["op"] == "format":
            with sut.no_raise(w):
                conv.printer.format = op["name"]
            exist = op["name"] in FORMATS
            continue
        if op["op"] == "decoder":
            name = f"D{no}"
            plug = Plug(world, name)
            with sut.no_raise(w):
                io = dt.SubDecoderInterface(op["subset"], op["bare"])
            defect = op["defect"]
            if defect != "decode":
                io.decode = bind(plug, "decode", op["how"])
            if defect != "scope":
                io.actual_messages = set(op["msgs"])
            thing = plug if defect == "type" else None if defect == "none" else io
            with sut.no_raise(w + "registration "):
                r = conv.decoder.register_decoder(thing)
            ok = not defect and bool(op["msgs"])
            if bool(r) != ok:
                raise Violation(w + f"registration answered {r!r}; defect: {defect or (None if op['msgs'] else 'scope')}")
            if ok:
                if op["subset"] in decoders:
                    labels.add("replaced decoder")
                decoders[op["subset"]] = (name, spec(op["subset"], op["bare"]), set(op["msgs"]))
            else:
                refused += 1
        elif op["op"] == "printer":
            name = f"P{no}"
            plug = Plug(world, name)
            with sut.no_raise(w):
                io = pt.SubPrinterInterface()
            taken = {t for p in printers for t in p[1]}
            actual = {t for t in op["actual"] if t not in taken}
            data = set(op["data"]) - taken
            defect = op["defect"]
            io.format = op["format"]
            if defect != "print":
                io.print = bind(plug, "print", op["how"])
            if defect != "close":
                io.close = bind(plug, "close", op["how"])
            io.data_spec = {cls[t] for t in data}
            if defect != "scope":
                io.actual_spec = {cls[t] for t in actual}
            thing = plug if defect == "type" else None if defect == "none" else io
            with sut.no_raise(w + "registration "):
                r = conv.printer.add_subprinter(thing)
            ok = exist and not defect and bool(actual)
            if bool(r) != ok:
                raise Violation(w + f"registration answered {r!r}; defect: {defect or ('format' if not exist else None if actual else 'scope')}")
            if ok:
                printers.append((name, actual & data))
            else:
                refused += 1
        else:
            num = op["num"]
            rng = random.Random(op["seed"])
            payload = bytes([num >> 4, (num & 15) << 4 | rng.randrange(16)]) + rng.randbytes(op["len"])
            frame = R.frame(payload)
            hit = [(n, s[num]) for n, s, a in decoders.values() if num in s and num in a]
            assert len(hit) <= 1
            exp_type = hit[0][1] if hit else None
            how, exc = op["result"], None
            if how == "right":
                obj = cls[exp_type]() if exp_type else object()
            elif how == "wrong":
                pool = [t for t in TYPES if t != exp_type and exp_type not in PARENTS.get(t, ())]
                obj = cls[rng.choice(pool)]()
            elif how == "class":
                obj = cls[exp_type or "BaseRP"]
            elif how in RAISE:
                obj, exc = None, how
            else:
                obj = {"none": None, "int": num, "bytes": frame, "tuple": (1,), "dict": {}, "true": True}[how]
            if obj is not None and how == "tuple" and exp_type:
                obj = (cls[exp_type](),)

            def result(obj=obj, exc=exc):
                if exc:
                    raiser(exc)
                return obj

            world.result = result
            with sut.no_raise(w + f"decoding of message {num} "):
                r = conv.decode(frame)
            calls = [(k, n, b) for k, n, b in world.calls]
            if calls != ([("decode", hit[0][0], frame)] if hit else []):
                raise Violation(w + f"message {num}: sub-decoders called {[(k, n) for k, n, b in calls]}, expected {[n for n, t in hit]}")
            good = bool(hit) and how == "right"
            if hit:
                want["decoding_attempts"] += 1
                want["decoding_errors"] += not good
                labels.add("decoded" if good else "result " + ("raised" if exc else "dropped"))
            if good and r is not obj:
                raise Violation(w + f"message {num}: the decoded record is not the one of the sub-decoder: {r!r}"[:300])
            if not good and r is not None:
                raise Violation(w + f"message {num}: result {how!r} was not dropped: {r!r}"[:300])
            rec, tname = (r, exp_type) if good else (None, None)
            if rec is None and op["inject"]:
                rec, tname = cls[op["inject"]](), op["inject"]  # records may come from elsewhere
            if rec is not None:
                _print(conv, world, op, rec, tname, printers, want, labels, w)
        with sut.no_raise(w + "statistics "):
            got = sut.stats_of(conv)
            more = {"dec_attempts": conv.decoder.dec_attempts, "dec_errors": conv.decoder.dec_errors, "attempts": conv.printer.attempts, "errors": conv.printer.errors, "succeeded": conv.printer.succeeded}
        if got != want:
            raise Violation(w + f"statistics {got}, expected {want}")
        exp = {"dec_attempts": want["decoding_attempts"], "dec_errors": want["decoding_errors"], "attempts": want["printing_attempts"], "errors": want["printing_errors"], "succeeded": want["printing_attempts"] - want["printing_errors"]}
        if more != exp:
            raise Violation(w + f"counters {more}, expected {exp}")
    if refused:
        labels.add("refused plug-in")
    if want["decoding_attempts"] >= 2 and (want["printing_attempts"] or want["decoding_errors"]):
        labels.add("nontrivial")
    return sorted(labels)


def _print(conv, world, op, rec, tname, printers, want, labels, w):
    world.calls = []

    def printed(iblock):
        if op["print"] == "assert":
            raise AssertionError("refused")
        if op["print"] == "assert0":
            raise AssertionError
        if op["print"] == "assert2":
            assert iblock is None, ("a", iblock)

    world.printed = printed
    with sut.no_raise(w + f"printing of {tname} "):
        conv.print(rec)
    hit = [n for n, s in printers if tname in s]
    assert len(hit) <= 1
    got = [(k, n) for k, n, b in world.calls]
    if got != [("print", n) for n in hit] or any(b is not rec for k, n, b in world.calls):
        raise Violation(w + f"record {tname}: sub-printers called {got}, expected {hit}")
    if hit:
        want["printing_attempts"] += 1
        if op["print"] != "ok":
            want["printing_errors"] += 1
            labels.add("printing failed")
        else:
            labels.add("printed")
    else:
        labels.add("no printer")


def strat():
    def defect(*own):
        return st.sampled_from([None] * 20 + ["scope", "type", "none"] + list(own))

    scope = st.one_of(st.just(NUMS), st.lists(st.sampled_from(NUMS), max_size=12), st.sets(st.sampled_from(NUMS), max_size=12).map(lambda x: sorted(set(NUMS) - x)), st.lists(st.integers(0, 4095), max_size=6), st.just(list(range(4096))))
    types = st.one_of(st.just(TYPES), st.lists(st.sampled_from(TYPES), max_size=8, unique=True), st.lists(st.sampled_from(TYPES), max_size=3, unique=True))
    how = st.sampled_from(["method", "lambda", "partial"])

    @st.composite
    def decoder(draw):
        sub = draw(st.sampled_from(["LEGO", "MSM13O", "MSM47O", "EPH", "EPH", "BASE", "BASE"]))
        bare = draw(st.booleans())
        own = sorted(spec(sub, bare))
        msgs = draw(st.one_of(st.just(own), st.just(own), st.lists(st.sampled_from(own), max_size=8) if own else st.just([]), scope))
        return {"op": "decoder", "subset": sub, "bare": bare, "msgs": msgs, "defect": draw(defect("decode")), "how": draw(how)}

    printer = st.fixed_dictionaries({"op": st.just("printer"), "data": st.one_of(st.just(TYPES), st.just(TYPES), types), "actual": types, "defect": defect("print", "close"), "how": how, "format": st.sampled_from(FORMATS + ["UNDEF"])})
    msg = st.fixed_dictionaries(
        {
            "op": st.just("message"),
            "num": st.one_of(st.sampled_from(NUMS), st.sampled_from([*EPH, *BASE]), st.integers(0, 4095), st.sampled_from(sorted({n + d for n in NUMS for d in (-1, 1)}))),
            "seed": gen.seeds,
            "len": st.one_of(st.integers(0, 8), st.integers(0, 1021)),
            "result": st.one_of(st.sampled_from(["right"] * 5 + ["wrong", "wrong", "none", "int", "bytes", "tuple", "dict", "true", "class"]), st.sampled_from(RAISE), st.just("right")),
            "inject": st.one_of(st.none(), st.sampled_from(TYPES)),
            "print": st.sampled_from(["ok", "ok", "ok", "assert", "assert0", "assert2"]),
        }
    )

    @st.composite
    def build(draw):
        fmt = lambda names: {"op": "format", "name": draw(st.sampled_from(names))}  # noqa: E731
        head = [fmt(FORMATS)] if draw(st.integers(0, 7)) else []
        head += draw(st.lists(decoder(), min_size=1, max_size=5)) + draw(st.lists(printer, max_size=4))
        known = sorted({n for o in head if o["op"] == "decoder" for n in o["msgs"] if n in spec(o["subset"], o["bare"])})

        def messages(lo, hi):
            ms = draw(st.lists(msg, min_size=lo, max_size=hi))
            for m in ms:
                if known and draw(st.integers(0, 2)):
                    m["num"] = draw(st.sampled_from(known))
            return ms

        ops = head + messages(1, 10)
        for _ in range(draw(st.integers(0, 2))):
            ops += [draw(st.one_of(decoder(), printer))] + messages(1, 6)
        if not draw(st.integers(0, 5)):
            ops.insert(draw(st.integers(0, len(ops))), fmt(FORMATS + BAD_FORMATS))
        return {"ops": ops}

    return build()


TECHNIQUE = "model-based test of generated histories: registration of stand-in plug-ins with arbitrary scopes, messages, results and faults"
NOTE = "Stand-in plug-ins record their calls; a dispatch model predicts calls, results, refusals and counters after every step."
SUBS = [Sub("histories", strat, run, (8000, 400000), "histories of registrations and messages; non-trivial: at least two decoding attempts and a printing attempt or a decoding error")]
