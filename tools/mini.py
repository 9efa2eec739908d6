"""helpers of the demonstrations: builds RTCM messages and converts them inside a scratch directory"""
import contextlib, io, json, os, random, shutil, sys, tempfile

REPO = os.getcwd()
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtcm as R  # noqa: E402

TMP = tempfile.mkdtemp(prefix="demo-")
os.chdir(TMP)
shutil.copy(os.path.join(REPO, "defaults.ini"), os.path.join(TMP, "defaults.ini"))


def msm(num, time=1000, sats=(1,), sigs=(2,), cells=None, seed=1, sat=None, sgn=None, **hdr):
    """MSM message as a frame; fields not given are small random valid numbers"""
    rng = random.Random(seed)
    lv = num % 10
    cells = list(cells) if cells is not None else [1] * (len(sats) * len(sigs))
    m = dict(num=num, rs_id=7, time=time, MMB=0, IODS=0, res7=0, clk_steer=0, clk_ext=0, smth_indc=0, smth_intr=0)
    m.update(hdr)
    m.update(sats=list(sats), sigs=list(sigs), cells=cells)
    m["sat"] = {n: [rng.randrange(1, 1 << min(w - 2, 6)) for _ in sats] for n, w, k in R.SAT_FIELDS[lv]}
    m["sgn"] = {n: [rng.randrange(1 << max(min(w - 2, 9), 0)) for _ in range(sum(cells))] for n, w, k in R.CELL_FIELDS[lv]}
    m["sat"].update(sat or {})
    m["sgn"].update(sgn or {})
    return R.msg_frame(m)


def eph(num, seed=1, **raw):
    rng = random.Random(seed)
    m = {"num": num, "raw": {f[0]: rng.getrandbits(f[1]) for f in R.EPH[num] if f[0]}, "rsv": 0}
    m["raw"].update(raw)
    return R.msg_frame(m)


def base1005(bsid=1):
    return R.msg_frame({"num": 1005, "raw": {n: 1 for n, w, k in R.BASE_FIXED[1005] if n} | {"bsID": bsid}, "rsv": 0})


def main(*argv, answers=()):
    """run the command line program in the scratch directory; -> console output"""
    import builtins
    import run_conversion

    ans = list(answers)
    old, builtins.input = builtins.input, lambda p="": ans.pop(0)
    sys.argv = ["run_conversion.py", *argv]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            run_conversion.main()
    finally:
        builtins.input = old
    return out.getvalue()


def tree(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), "rb") as fh:
                r[os.path.relpath(os.path.join(p, f), d).replace(os.sep, "/")] = fh.read()
    return r


def convert(data, fmt="JSON", ini=None, name="src"):
    """bytes -> {relative path: bytes} of the output folder"""
    path = os.path.join(TMP, name + ".rtcm3")
    with open(path, "wb") as f:
        f.write(data)
    args = ["-o", fmt]
    if ini is not None:
        with open(os.path.join(TMP, "u.ini"), "w") as f:
            f.write(ini)
        args += ["-i", "u.ini"]
    main(*args, path)
    return tree(os.path.join(TMP, f"{name}-{fmt}"))


def load(files, name):
    return json.loads(files[name].decode("utf-8"))[1:]


def table(files, name):
    return [[c.strip() for c in line.split(",")] for line in files[name].decode().splitlines()]


def done(ok, what=""):
    os.chdir("/")
    shutil.rmtree(TMP, ignore_errors=True)
    print("ok" if ok else "BROKEN: " + what)
    sys.exit(0 if ok else 1)
