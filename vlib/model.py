"""Reference models (oracles).  Independent of the code under test."""
import math

from . import rtcm as R

LIGHT_MS = 299792.458  # m per ms
WEEK = 604800000
DAY = 86400000


class Violation(Exception):
    """The property does not hold on this case."""


# ---------------------------------------------------------------- frame scanner
def scan(data: bytes, eof: bool = True):
    """Left-to-right reference scan; list of (start, end) of the frames."""
    out = []
    i, n = 0, len(data)
    while i < n:
        if data[i] != 0xD3:
            i += 1
            continue
        if i + 1 >= n:
            break
        if data[i + 1] & 0xFC:
            i += 1
            continue
        if i + 3 <= n:
            end = i + 6 + (((data[i + 1] & 3) << 8) | data[i + 2])
        else:
            end = n + 1
        if end > n:
            if eof:
                i += 1
                continue
            break
        if R.crc24q(data[i : end - 3]) == int.from_bytes(data[end - 3 : end], "big"):
            out.append((i, end))
            i = end
        else:
            i += 1
    return out


def gaps(frames) -> int:
    return sum(1 for a, b in zip(frames, frames[1:]) if b[0] > a[1])


def mnum(fr: bytes) -> int:
    """message number the way a receiver reads it (first 12 bits after the 3-byte header)"""
    return (fr[3] << 4) | (fr[4] >> 4)


# ---------------------------------------------------------------- MSM
def msm_time(m):
    """(time, day)"""
    if R.gnss_of(m["num"]) == "R":
        return m["time"] & 0x7FFFFFF, m["time"] >> 27
    return m["time"], 0


def bare(m):
    lv = R.level_of(m["num"])
    t, _ = msm_time(m)
    hdr = {k: m[k] for k in ("rs_id", "time", "MMB", "IODS", "clk_steer", "clk_ext", "smth_indc", "smth_intr")}
    hdr["sat_mask"] = sum(1 << (s - 1) for s in m["sats"])
    hdr["sgn_mask"] = sum(1 << (s - 1) for s in m["sigs"])
    rv = {
        "key": str(t),
        "hdr": hdr,
        "aux": {"gnss": R.gnss_of(m["num"]), "subset": f"MSM{lv}", "msg_number": m["num"]},
        "sat": {},
        "sgn": {},
    }
    if m["sats"]:
        hdr["cell_mask"] = sum(1 << i for i, b in enumerate(m["cells"]) if b)
        rv["sat"] = {f[0]: list(m["sat"][f[0]]) for f in R.SAT_FIELDS[lv]}
        rv["sgn"] = {f[0]: list(m["sgn"][f[0]]) for f in R.CELL_FIELDS[lv]}
    return rv


def lock4(i):
    return 0 if i == 0 else 2 ** (i + 4)


_L10 = [  # DF407: (first index, last index, multiplier a, offset b): value = a*i + b
    (0, 63, 1, 0), (64, 95, 2, -64), (96, 127, 4, -256), (128, 159, 8, -768), (160, 191, 16, -2048), (192, 223, 32, -5120),
    (224, 255, 64, -12288), (256, 287, 128, -28672), (288, 319, 256, -65536), (320, 351, 512, -147456), (352, 383, 1024, -327680),
    (384, 415, 2048, -720896), (416, 447, 4096, -1572864), (448, 479, 8192, -3407872), (480, 511, 16384, -7340032),
    (512, 543, 32768, -15728640), (544, 575, 65536, -33554432), (576, 607, 131072, -71303168), (608, 639, 262144, -150994944),
    (640, 671, 524288, -318767104), (672, 703, 1048576, -671088640), (704, 704, 2097152, -1409286144),
]


def lock10(i):
    """reserved indices say nothing about the lock: 0"""
    for a, b, k, o in _L10:
        if a <= i <= b:
            return k * i + o
    return 0


INVALID = {  # field -> raw invalid value by resolution class
    ("rng_fine", 15): -(1 << 14), ("rng_fine", 20): -(1 << 19), ("phase_fine", 22): -(1 << 21), ("phase_fine", 24): -(1 << 23),
    ("phase_rate_fine", 15): -(1 << 14), ("phase_rate_rough", 14): -(1 << 13), ("rng_ms", 8): 255,
}


def scaled(m):
    """{'key','hdr','aux','obs','optional'}; obs[kind][sig][sat] -> value (None: any value)"""
    num = m["num"]
    g, lv = R.gnss_of(num), R.level_of(num)
    t, d = msm_time(m)
    sigs = [R.SIGNALS[g][s] for s in m["sigs"]]
    aux = {
        "rs_id": m["rs_id"], "MMB": m["MMB"], "IODS": m["IODS"],
        "clk_steer": {"code": m["clk_steer"], "val": ["OFF", "ON", "UNDEF", "UNDEF"][m["clk_steer"]]},
        "clk_ext": {"code": m["clk_ext"], "val": ["INTERNAL", "EXT-LOCK", "EXT-UNLOCK", "UNDEF"][m["clk_ext"]]},
        "smth_indc": {"code": m["smth_indc"], "val": ["UNDEF", "DVRG-FREE"][m["smth_indc"]]},
        "smth_intr": {"code": m["smth_intr"], "val": ["NOSMTH", "00-30", "30-60", "60-120", "120-240", "240-480", "480+", "UNLIM"][m["smth_intr"]]},
    }
    hdr = {"time": t, "day": d, "sats": list(m["sats"]), "signals": {s: R.carrier(g, s) for s in sigs}}
    obs = {k: {} for k in ("rng", "phs", "ltm", "hca", "dpl", "c2n")}
    optional = set()
    rv = {"key": str(t + d * DAY), "hdr": hdr, "aux": aux, "obs": obs, "optional": optional}
    if not m["sats"]:
        hdr["signals"] = {}
        return rv

    def put(kind, sig, sat, v):
        obs[kind].setdefault(sig, {})[str(sat)] = v

    fine = lv in (6, 7)
    wr, wp = (20, 24) if fine else (15, 22)
    kr, kp = (-29, -31) if fine else (-24, -29)
    for c, (i, j) in enumerate(R.msm_cells(m)):
        sat, sig = m["sats"][i], sigs[j]
        S, C = m["sat"], m["sgn"]
        if lv >= 4:
            rough_ok = S["rng_ms"][i] != 255
            rough = S["rng_ms"][i] + S["rng_rough"][i] / 1024.0
        else:
            rough_ok = True
            rough = S["rng_rough"][i] / 1024.0
        code_ok = lv != 2 and rough_ok and C["rng_fine"][c] != INVALID["rng_fine", wr]
        if code_ok:
            put("rng", sig, sat, (rough + C["rng_fine"][c] * 2.0**kr) * LIGHT_MS)
        ph_ok = lv != 1 and rough_ok and C["phase_fine"][c] != INVALID["phase_fine", wp]
        if ph_ok:
            put("phs", sig, sat, (rough + C["phase_fine"][c] * 2.0**kp) * LIGHT_MS)
        if lv >= 4 or ph_ok:
            lt = C["lock_time"][c]
            put("ltm", sig, sat, lock10(lt) if fine else lock4(lt))
            put("hca", sig, sat, C["hc_indc"][c] != 0)
        if lv == 3 and ph_ok and not code_ok:
            optional |= {(k, sig, str(sat)) for k in ("phs", "ltm", "hca")}
        if lv >= 4:
            put("c2n", sig, sat, C["c2n"][c] * (0.0625 if fine else 1.0))
        if lv in (5, 7) and S["phase_rate_rough"][i] != INVALID["phase_rate_rough", 14] and C["phase_rate_fine"][c] != INVALID["phase_rate_fine", 15]:
            put("dpl", sig, sat, S["phase_rate_rough"][i] + C["phase_rate_fine"][c] * 0.0001)
    return rv


OBS_TOL = {"rng": 1e-6, "phs": 1e-6, "dpl": 1e-7, "c2n": 1e-9, "ltm": 0, "hca": 0}


def check_obs(exp, got, where=""):
    """compare the observables of a scaled record with the model"""
    if set(got) != set(exp["obs"]):
        raise Violation(f"{where}observable kinds {sorted(got)}")
    opt = exp["optional"]
    for kind, e in exp["obs"].items():
        g = got[kind]
        for sig in set(e) | set(g):
            es, gs = e.get(sig, {}), g.get(sig, {})
            if sig in g and not gs:
                raise Violation(f"{where}{kind}[{sig}] is an empty entry")
            for sat in set(es) | set(gs):
                if sat not in gs:
                    if (kind, sig, sat) in opt:
                        continue
                    raise Violation(f"{where}{kind}[{sig}][{sat}] missing, expected {es[sat]}")
                if sat not in es:
                    raise Violation(f"{where}{kind}[{sig}][{sat}]={gs[sat]} must be absent")
                ev, gv = es[sat], gs[sat]
                if ev is None:
                    continue
                if kind == "hca":
                    if not isinstance(gv, bool) or gv != ev:
                        raise Violation(f"{where}{kind}[{sig}][{sat}]={gv!r} expected {ev!r}")
                elif isinstance(gv, bool) or not isinstance(gv, (int, float)) or not abs(gv - ev) <= OBS_TOL[kind]:
                    raise Violation(f"{where}{kind}[{sig}][{sat}]={gv!r} expected {ev!r}")


def check_subset(exp, got, where=""):
    """every key of exp is in got with an equal value (ints exact, floats close)"""
    for k, v in exp.items():
        if k not in got:
            raise Violation(f"{where}{k} missing")
        check_value(v, got[k], f"{where}{k}: ")


def check_value(e, g, where=""):
    if isinstance(e, dict):
        if not isinstance(g, dict) or set(g) != set(e):
            raise Violation(f"{where}{g!r} expected {e!r}")
        for k in e:
            check_value(e[k], g[k], f"{where}{k}: ")
    elif isinstance(e, (list, tuple)):
        if not isinstance(g, (list, tuple)) or len(e) != len(g):
            raise Violation(f"{where}{g!r} expected {e!r}")
        for i, (a, b) in enumerate(zip(e, g)):
            check_value(a, b, f"{where}[{i}] ")
    elif isinstance(e, bool):
        if not isinstance(g, bool) or e != g:
            raise Violation(f"{where}{g!r} expected {e!r}")
    elif isinstance(e, float):
        if isinstance(g, bool) or not isinstance(g, (int, float)) or not math.isclose(e, g, rel_tol=1e-12, abs_tol=1e-300):
            raise Violation(f"{where}{g!r} expected {e!r}")
    elif isinstance(e, int):
        if isinstance(g, bool) or not isinstance(g, (int, float)) or e != g:
            raise Violation(f"{where}{g!r} expected {e!r}")
    elif isinstance(e, HexText):
        if not isinstance(g, str):
            raise Violation(f"{where}{g!r} expected hex text")
        try:
            b = bytes(int(t, 16) for t in g.split())
        except ValueError:
            raise Violation(f"{where}{g!r} is not a list of hex codes") from None
        if b != e.b:
            raise Violation(f"{where}{g!r} expected bytes {e.b!r}")
    elif e != g or type(e) is not type(g):
        raise Violation(f"{where}{g!r} expected {e!r}")


class HexText:
    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return f"HexText({self.b!r})"


# ---------------------------------------------------------------- ephemeris, base station: expected JSON objects
def eph_record(m, bare_data: bool):
    num = m["num"]
    rv = {"msgNum": num}
    for name, width, kind, scale in R.EPH[num]:
        if name is None:
            continue
        v = R.raw_value(m["raw"][name], width, kind)
        if not bare_data:
            if scale == "slot":
                v = v - 7
            elif scale == "tk":
                v = 3600 * (v >> 7) + 60 * ((v >> 1) & 0x3F) + 30 * (v & 1)
            elif scale != 1:
                v = v * scale
        rv[name] = v
    return rv


QC = ["UNDEF", "CORRECTED", "NOT CORRECTED", "RESERVED"]


def base_record(m, bare_data: bool):
    num = m["num"]
    rv = {"msgNum": num}

    def text(hx):
        b = bytes.fromhex(hx)
        return HexText(b) if bare_data else b.decode("utf-8")

    if num in R.BASE_FIXED:
        for name, width, kind in R.BASE_FIXED[num]:
            if name is None:
                continue
            v = R.raw_value(m["raw"][name], width, kind)
            if not bare_data:
                if name in ("GPS_OK", "GLO_OK", "GAL_OK", "isVirtual", "singleOsc"):
                    v = v == 1
                elif name in ("refPoint_X", "refPoint_Y", "refPoint_Z", "height"):
                    v = v * 1e-4
                elif name == "QC_bias":
                    v = QC[v]
            rv[name] = v
        return rv
    rv["bsID"] = m["bsID"]
    if num in R.BASE_STR:
        rv["setupID"] = m["setupID"]
        for name in R.BASE_STR[num]:
            rv[name + "Length"] = len(m["str"][name]) // 2
            rv[name] = text(m["str"][name])
    elif num == 1013:
        for k in ("modifiedJulianDay", "daySec", "leapSec"):
            rv[k] = m[k]
        rv["Nm"] = 0 if m.get("nm_zero") else len(m["items"])
        rv["shedule"] = {str(i): ([f, p] if bare_data else [f == 1, p * 0.1]) for i, f, p in m["items"]}
    elif num == 1029:
        for k in ("modifiedJulianDay", "daySec", "charNum"):
            rv[k] = m[k]
        rv["unitsNum"] = len(m["text"]) // 2
        rv["message"] = text(m["text"])
    elif num == 1230:
        ok = {k: 1 if m["mask"] & b else 0 for k, b in R.GLBS_BITS}
        co = {k: m["corr"][k] if m["mask"] & b else 0 for k, b in R.GLBS_BITS}
        rv["isCorrected"] = m["isCorrected"] if bare_data else m["isCorrected"] == 1
        rv["validity"] = ok if bare_data else {k: v == 1 for k, v in ok.items()}
        rv["correction"] = co if bare_data else {k: v * 0.02 for k, v in co.items()}
    return rv


def flat_record(m, bare_data):
    return eph_record(m, bare_data) if m["num"] in R.EPH else base_record(m, bare_data)


# ---------------------------------------------------------------- JSON tree
_GN = {"G": "GPS", "R": "GLN", "E": "GAL", "S": "SBS", "Q": "QZS", "B": "BDS", "I": "NAVIC"}
_EPH_FILE = {1019: "GPS", 1020: "GLN", 1041: "NAVIC", 1042: "BDS", 1044: "QZS", 1045: "GAL", 1046: "GAL"}
_EPH_TYPE = {1019: "EphGPS", 1020: "EphGLO", 1041: "EphNAVIC", 1042: "EphBDS", 1044: "EphQZS", 1045: "EphGALF", 1046: "EphGALI"}
_BASE_FILE = {1005: "RefPoint", 1006: "RefPointHeight", 1007: "AntDesc", 1008: "AntDescSer", 1013: "SysPar", 1029: "TextStr", 1033: "AntAndRcvDesc", 1230: "GloBias"}
_BASE_TYPE = {1005: "BaseRP", 1006: "BaseRPH", 1007: "BaseAD", 1008: "BaseADSN", 1013: "BaseSP", 1029: "BaseTS", 1033: "BaseADSNRC", 1230: "BaseGLBS"}


def json_path(num):
    if num in R.MSM_SET:
        lv = R.level_of(num)
        return f"MSM{lv}/{_GN[R.gnss_of(num)]}-MSM{lv}-{num}.json"
    if num in R.EPH:
        return f"EPH/{_EPH_FILE[num]}-EPH-{num}.json"
    return f"BASE/{_BASE_FILE[num]}-{num}.json"


def json_type(num, bare_data):
    if num in R.MSM_SET:
        if not bare_data:
            return "ObservablesMSM"
        return "BareObservablesMSM123" if R.level_of(num) <= 3 else "BareObservablesMSM4567"
    return _EPH_TYPE.get(num) or _BASE_TYPE[num]


def check_json_record(m, rec, bare_data, hdr=True, aux=True, where=""):
    """one element of a JSON output array against the model"""
    if not isinstance(rec, dict):
        raise Violation(f"{where}record is {type(rec)}")
    if m["num"] not in R.MSM_SET:
        exp = flat_record(m, bare_data)
        if set(rec) != set(exp):
            raise Violation(f"{where}fields missing {sorted(set(exp) - set(rec))} unexpected {sorted(set(rec) - set(exp))}")
        check_subset(exp, rec, where)
        return
    exp = bare(m) if bare_data else scaled(m)
    if list(rec) != [exp["key"]]:
        raise Violation(f"{where}time key {list(rec)} expected {exp['key']}")
    body = rec[exp["key"]]
    parts = ({"hdr"} if hdr else set()) | ({"aux"} if aux else set()) | ({"sat", "sgn"} if bare_data else {"obs"})
    if set(body) != parts:
        raise Violation(f"{where}parts {sorted(body)} expected {sorted(parts)}")
    if hdr:
        check_subset(exp["hdr"], body["hdr"], where + "hdr.")
    if aux:
        check_subset(exp["aux"], body["aux"], where + "aux.")
    if bare_data:
        check_subset(exp["sat"], body["sat"], where + "sat.")
        check_subset(exp["sgn"], body["sgn"], where + "sgn.")
    else:
        check_obs(exp, body["obs"], where)


# ---------------------------------------------------------------- MARGO tables
MARGO_DIR = _GN
MARGO_COLS = {"G": 32, "R": 24, "E": 36, "S": 38, "Q": 5, "B": 37, "I": 14}
MARGO_TYPE = {"C": 0, "L": 1, "D": 2, "S": 3, "T": 4, "A": 5}
MARGO_FRAC = {"C": 3, "L": 4, "D": 3, "S": 2, "T": 3, "A": 0}
LITERALS = {1: 1, 2: -4, 3: 5, 4: 6, 5: 1, 6: -4, 7: 5, 8: 6, 9: -2, 10: -7, 11: 0, 12: -1, 13: -2, 14: -7, 15: 0, 16: -1, 17: 4, 18: -3, 19: 3, 20: 2, 21: 4, 22: -3, 23: 3, 24: 2}


def gps_time(m, shift):
    """ms of GPS week"""
    g = R.gnss_of(m["num"])
    t, d = msm_time(m)
    if g == "B":
        return (t + 14000) % WEEK
    if g == "R":
        return (t + d * DAY - 3 * 3600 * 1000 + shift * 1000) % WEEK
    return t


def sat_carrier(g, sig, sat, lit):
    f = R.carrier(g, sig)
    if g == "R":
        f += lit[sat] * (0.5625 if sig[0] == "1" else 0.4375)
    return f


def margo(msgs, hca=False, lt=False, shift=18, lit=None):
    """{relative path: {'type','g','sig','param','rows':[(time, {sat: value})]}}"""
    lit = lit or LITERALS
    out = {}
    for m in msgs:
        g, lv = R.gnss_of(m["num"]), R.level_of(m["num"])
        sc = scaled(m)
        t = gps_time(m, shift)
        kinds = [("C", "rng"), ("L", "phs"), ("D", "dpl"), ("S", "c2n")] + ([("T", "ltm")] if lt else []) + ([("A", "hca")] if hca else [])
        for par, kind in kinds:
            for sig, sats in sc["obs"][kind].items():
                row = {}
                for sat, v in sats.items():
                    sat = int(sat)
                    if sat > MARGO_COLS[g]:
                        continue
                    if par in "LD":
                        lam = LIGHT_MS * 1e-3 / sat_carrier(g, sig, sat, lit)
                        v = v / lam if par == "L" else -v / lam
                        if par == "L" and not hca and sc["obs"]["hca"][sig][str(sat)]:
                            continue
                    elif par == "T":
                        v = None if v is None else v * 0.001
                    elif par == "A":
                        v = 1.0 if v else 0.0
                    row[sat] = v
                p = f"{MARGO_DIR[g]}/{g}{par}{sig}_MSM{lv}.obs"
                out.setdefault(p, {"g": g, "sig": sig, "param": par, "rows": []})["rows"].append((t, row))
    return out


def parse_margo(text, where):
    """table -> list of rows of strings; structural checks only"""
    if not text.endswith("\n"):
        raise Violation(f"{where}: last row is not terminated")
    return [[c.strip() for c in line.split(",")] for line in text[:-1].split("\n")]


def is_nan(s):
    return s.lower() == "nan"


def check_margo_table(exp, text, where, lit=None, check_time=True):
    lit = lit or LITERALS
    rows = parse_margo(text, where)
    g, sig, par = exp["g"], exp["sig"], exp["param"]
    n = MARGO_COLS[g]
    frac = MARGO_FRAC[par]
    if len(rows) < 2:
        raise Violation(f"{where}: header rows missing")
    if [int(c) for c in rows[0]] != [MARGO_TYPE[par]] + list(range(1, n + 1)):
        raise Violation(f"{where}: header row 1 {rows[0]}")
    if len(rows[1]) != n + 1:
        raise Violation(f"{where}: header row 2 has {len(rows[1])} columns")
    for sat in range(1, n + 1):
        f = sat_carrier(g, sig, sat, lit)
        if not abs(float(rows[1][sat]) - f) <= 6e-5:
            raise Violation(f"{where}: carrier of satellite {sat} is {rows[1][sat]} expected {f}")
    if len(rows) - 2 != len(exp["rows"]):
        raise Violation(f"{where}: {len(rows) - 2} data rows, expected {len(exp['rows'])}")
    half = 0.5 * 10.0**-frac
    for r, (t, vals) in zip(rows[2:], exp["rows"]):
        if len(r) != n + 1:
            raise Violation(f"{where}: {len(r)} columns, expected {n + 1}")
        if check_time and int(r[0]) != t:
            raise Violation(f"{where}: time {r[0]} expected {t}")
        for sat in range(1, n + 1):
            c = r[sat]
            if sat not in vals:
                if not is_nan(c):
                    raise Violation(f"{where}: t={t} satellite {sat}: {c} expected NaN")
                continue
            e = vals[sat]
            if is_nan(c):
                raise Violation(f"{where}: t={t} satellite {sat}: NaN expected {e}")
            if e is None:
                continue
            if len(c.partition(".")[2]) != frac:
                raise Violation(f"{where}: t={t} satellite {sat}: {c} is not printed with {frac} decimals")
            if not abs(float(c) - e) <= half * 1.0001 + 2e-6:
                raise Violation(f"{where}: t={t} satellite {sat}: {c} expected {e}")
