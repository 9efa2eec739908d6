"""Independent RTCM 10403 encoder: framing, CRC-24Q, MSM1..7, ephemeris, base-station messages.

Nothing in this file imports or reads the code under test.  Messages are plain JSON-serialisable dicts.
"""

# ---------------------------------------------------------------- CRC-24Q, frames
POLY = 0x1864CFB


def _mk_table():
    tab = []
    for b in range(256):
        r = b << 16
        for _ in range(8):
            r <<= 1
            if r & 0x1000000:
                r ^= POLY
        tab.append(r)
    return tab


_TAB = _mk_table()


def crc24q(data) -> int:
    r = 0
    for b in data:
        r = ((r << 8) & 0xFFFFFF) ^ _TAB[(r >> 16) ^ b]
    return r


def frame(payload: bytes, reserved: int = 0) -> bytes:
    assert len(payload) <= 1023
    h = bytes([0xD3, (reserved << 2) | (len(payload) >> 8), len(payload) & 0xFF]) + payload
    return h + crc24q(h).to_bytes(3, "big")


class BitWriter:
    def __init__(self):
        self.acc = 0
        self.n = 0

    def u(self, v, w):
        assert 0 <= v < (1 << w), (v, w)
        self.acc = (self.acc << w) | v
        self.n += w

    def s(self, v, w):
        assert -(1 << (w - 1)) <= v < (1 << (w - 1)), (v, w)
        self.u(v & ((1 << w) - 1), w)

    def m(self, v, w):
        """sign-magnitude; v is the raw unsigned pattern"""
        self.u(v, w)

    def bytes(self, pad=0):
        k = -self.n % 8
        acc = (self.acc << k) | (pad & ((1 << k) - 1))
        return acc.to_bytes((self.n + k) // 8, "big")


# ---------------------------------------------------------------- MSM
GNSS_OF = {107: "G", 108: "R", 109: "E", 110: "S", 111: "Q", 112: "B", 113: "I"}
GNSS_BASE = {v: k * 10 for k, v in GNSS_OF.items()}
GNSS_ALL = "GRESQBI"
MSM_NUMS = [b * 10 + k for b in GNSS_OF for k in range(1, 8)]


def gnss_of(num):
    return GNSS_OF[num // 10]


def level_of(num):
    return num % 10


HDR_FIELDS = [("rs_id", 12), ("time", 30), ("MMB", 1), ("IODS", 3), ("res7", 7), ("clk_steer", 2), ("clk_ext", 2), ("smth_indc", 1), ("smth_intr", 3)]

# (name, width, kind)
SAT_FIELDS = {
    1: [("rng_rough", 10, "u")],
    2: [("rng_rough", 10, "u")],
    3: [("rng_rough", 10, "u")],
    4: [("rng_ms", 8, "u"), ("rng_rough", 10, "u")],
    5: [("rng_ms", 8, "u"), ("ext_info", 4, "u"), ("rng_rough", 10, "u"), ("phase_rate_rough", 14, "s")],
    6: [("rng_ms", 8, "u"), ("rng_rough", 10, "u")],
    7: [("rng_ms", 8, "u"), ("ext_info", 4, "u"), ("rng_rough", 10, "u"), ("phase_rate_rough", 14, "s")],
}
CELL_FIELDS = {
    1: [("rng_fine", 15, "s")],
    2: [("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u")],
    3: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u")],
    4: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u"), ("c2n", 6, "u")],
    5: [("rng_fine", 15, "s"), ("phase_fine", 22, "s"), ("lock_time", 4, "u"), ("hc_indc", 1, "u"), ("c2n", 6, "u"), ("phase_rate_fine", 15, "s")],
    6: [("rng_fine", 20, "s"), ("phase_fine", 24, "s"), ("lock_time", 10, "u"), ("hc_indc", 1, "u"), ("c2n", 10, "u")],
    7: [("rng_fine", 20, "s"), ("phase_fine", 24, "s"), ("lock_time", 10, "u"), ("hc_indc", 1, "u"), ("c2n", 10, "u"), ("phase_rate_fine", 15, "s")],
}

# MSM signal number -> RINEX code (RTCM 10403.3 tables 3.5-91 ff.), limited to what the converter supports
SIGNALS = {
    "G": {2: "1C", 3: "1P", 4: "1W", 8: "2C", 9: "2P", 10: "2W", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "R": {2: "1C", 3: "1P", 8: "2C", 9: "2P"},
    "E": {2: "1C", 3: "1A", 4: "1B", 5: "1X", 6: "1Z", 8: "6C", 9: "6A", 10: "6B", 11: "6X", 12: "6Z", 14: "7I", 15: "7Q", 16: "7X", 18: "8I", 19: "8Q", 20: "8X", 22: "5I", 23: "5Q", 24: "5X"},
    "S": {2: "1C", 22: "5I", 23: "5Q", 24: "5X"},
    "Q": {2: "1C", 9: "6S", 10: "6L", 11: "6X", 15: "2S", 16: "2L", 17: "2X", 22: "5I", 23: "5Q", 24: "5X", 30: "1S", 31: "1L", 32: "1X"},
    "B": {2: "2I", 3: "2Q", 4: "2X", 8: "6I", 9: "6Q", 10: "6X", 14: "7I", 15: "7Q", 16: "7X"},
    "I": {8: "9A", 22: "5A"},
}
# centre frequency, MHz, by constellation and RINEX band digit
BANDS = {
    "G": {"1": 1575.42, "2": 1227.60, "5": 1176.45},
    "R": {"1": 1602.0, "2": 1246.0},
    "E": {"1": 1575.42, "5": 1176.45, "6": 1278.75, "7": 1207.14, "8": 1191.795},
    "S": {"1": 1575.42, "5": 1176.45},
    "Q": {"1": 1575.42, "2": 1227.60, "5": 1176.45, "6": 1278.75},
    "B": {"2": 1561.098, "6": 1268.52, "7": 1207.14},
    "I": {"5": 1176.45, "9": 2492.028},
}


def carrier(gnss, sig):
    return BANDS[gnss][sig[0]]


def msm_cells(m):
    """list of (satellite index, signal index) of the transmitted cells, in transmission order"""
    ns = len(m["sigs"])
    return [(i // ns, i % ns) for i, b in enumerate(m["cells"]) if b]


def msm_payload(m) -> bytes:
    num = m["num"]
    lv = level_of(num)
    w = BitWriter()
    w.u(num, 12)
    for name, width in HDR_FIELDS:
        w.u(m[name], width)
    mask = 0
    for s in m["sats"]:
        mask |= 1 << (64 - s)
    w.u(mask, 64)
    mask = 0
    for s in m["sigs"]:
        mask |= 1 << (32 - s)
    w.u(mask, 32)
    if m["sats"]:
        for b in m["cells"]:
            w.u(b, 1)
        for name, width, kind in SAT_FIELDS[lv]:
            put = w.s if kind == "s" else w.u
            for v in m["sat"][name]:
                put(v, width)
        for name, width, kind in CELL_FIELDS[lv]:
            put = w.s if kind == "s" else w.u
            for v in m["sgn"][name]:
                put(v, width)
    return w.bytes(m.get("pad", 0))


def msm_bits(lv, nsat, nsig, ncell):
    if nsat == 0:
        return 169
    return 169 + nsat * nsig + nsat * sum(f[1] for f in SAT_FIELDS[lv]) + ncell * sum(f[1] for f in CELL_FIELDS[lv])


# ---------------------------------------------------------------- ephemeris
# (name, width, kind, scale); kind: u, s, m(sign-magnitude); scale 1 -> unchanged; name None -> reserved
def P2(n):
    return 2.0**n


EPH = {
    1019: [
        ("satNum", 6, "u", 1), ("weekNum", 10, "u", 1), ("URA", 4, "u", 1), ("L2_Codes", 2, "u", 1), ("i_dot", 14, "s", P2(-43)),
        ("IODE", 8, "u", 1), ("tc", 16, "u", 16), ("af2", 8, "s", P2(-55)), ("af1", 16, "s", P2(-43)), ("af0", 22, "s", P2(-31)),
        ("IODC", 10, "u", 1), ("crs", 16, "s", P2(-5)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("cuc", 16, "s", P2(-29)),
        ("e", 32, "u", P2(-33)), ("cus", 16, "s", P2(-29)), ("sqrt_a", 32, "u", P2(-19)), ("te", 16, "u", 16), ("cic", 16, "s", P2(-29)),
        ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)), ("i0", 32, "s", P2(-31)), ("crc", 16, "s", P2(-5)), ("w", 32, "s", P2(-31)),
        ("omega_dot", 24, "s", P2(-43)), ("TGD", 8, "s", P2(-31)), ("SVH", 6, "u", 1), ("L2P_Data", 1, "u", 1), ("Fit", 1, "u", 1),
    ],
    1020: [
        ("satNum", 6, "u", 1), ("frqSloNum", 5, "u", "slot"), ("Cn", 1, "u", 1), ("AlmHAI", 1, "u", 1), ("P1", 2, "u", 1), ("tk", 12, "u", "tk"),
        ("BnMSB", 1, "u", 1), ("P2", 1, "u", 1), ("tb", 7, "u", 900), ("dotXn", 24, "m", P2(-20)), ("xn", 27, "m", P2(-11)), ("dotDotXn", 5, "m", P2(-30)),
        ("dotYn", 24, "m", P2(-20)), ("yn", 27, "m", P2(-11)), ("dotDotYn", 5, "m", P2(-30)), ("dotZn", 24, "m", P2(-20)), ("zn", 27, "m", P2(-11)),
        ("dotDotZn", 5, "m", P2(-30)), ("P3", 1, "u", 1), ("gamma_n", 11, "m", P2(-40)), ("P", 2, "u", 1), ("ln3", 1, "u", 1), ("tauN", 22, "m", P2(-30)),
        ("delta_tauN", 5, "m", P2(-30)), ("En", 5, "u", 1), ("P4", 1, "u", 1), ("Ft", 4, "u", 1), ("Nt", 11, "u", 1), ("M", 2, "u", 1),
        ("auxDataOK", 1, "u", 1), ("Na", 11, "u", 1), ("tauC", 32, "m", P2(-31)), ("N4", 5, "u", 1), ("tauGPS", 22, "m", P2(-30)), ("ln5", 1, "u", 1), (None, 7, "u", 1),
    ],
    1041: [
        ("satNum", 6, "u", 1), ("weekNum", 10, "u", 1), ("af0", 22, "s", P2(-31)), ("af1", 16, "s", P2(-43)), ("af2", 8, "s", P2(-55)), ("URA", 4, "u", 1),
        ("tc", 16, "u", 16), ("TGD", 8, "s", P2(-31)), ("delta_n", 22, "s", P2(-41)), ("IODEC", 8, "u", 1), (None, 10, "u", 1), ("L5_Flag", 1, "u", 1),
        ("S_Flag", 1, "u", 1), ("cuc", 15, "s", P2(-28)), ("cus", 15, "s", P2(-28)), ("cic", 15, "s", P2(-28)), ("cis", 15, "s", P2(-28)),
        ("crc", 15, "s", P2(-4)), ("crs", 15, "s", P2(-4)), ("i_dot", 14, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("te", 16, "u", 16), ("e", 32, "u", P2(-33)),
        ("sqrt_a", 32, "u", P2(-19)), ("omega0", 32, "s", P2(-31)), ("w", 32, "s", P2(-31)), ("omega_dot", 22, "s", P2(-41)), ("i0", 32, "s", P2(-31)), (None, 4, "u", 1),
    ],
    1042: [
        ("satNum", 6, "u", 1), ("weekNum", 13, "u", 1), ("URAI", 4, "u", 1), ("i_dot", 14, "s", P2(-43)), ("AODE", 5, "u", 1), ("tc", 17, "u", 8),
        ("af2", 11, "s", P2(-66)), ("af1", 22, "s", P2(-50)), ("af0", 24, "s", P2(-33)), ("AODC", 5, "u", 1), ("crs", 18, "s", P2(-6)), ("delta_n", 16, "s", P2(-43)),
        ("m0", 32, "s", P2(-31)), ("cuc", 18, "s", P2(-31)), ("e", 32, "u", P2(-33)), ("cus", 18, "s", P2(-31)), ("sqrt_a", 32, "u", P2(-19)), ("te", 17, "u", 8),
        ("cic", 18, "s", P2(-31)), ("omega0", 32, "s", P2(-31)), ("cis", 18, "s", P2(-31)), ("i0", 32, "s", P2(-31)), ("crc", 18, "s", P2(-6)), ("w", 32, "s", P2(-31)),
        ("omega_dot", 24, "s", P2(-43)), ("TGD1", 10, "s", 1e-10), ("TGD2", 10, "s", 1e-10), ("SVH", 1, "u", 1),
    ],
    1044: [
        ("satNum", 4, "u", 1), ("tc", 16, "u", 16), ("af2", 8, "s", P2(-55)), ("af1", 16, "s", P2(-43)), ("af0", 22, "s", P2(-31)), ("IODE", 8, "u", 1),
        ("crs", 16, "s", P2(-5)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)), ("cuc", 16, "s", P2(-29)), ("e", 32, "u", P2(-33)), ("cus", 16, "s", P2(-29)),
        ("sqrt_a", 32, "u", P2(-19)), ("te", 16, "u", 16), ("cic", 16, "s", P2(-29)), ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)), ("i0", 32, "s", P2(-31)),
        ("crc", 16, "s", P2(-5)), ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)), ("i_dot", 14, "s", P2(-43)), ("L2_Codes", 2, "u", 1), ("weekNum", 10, "u", 1),
        ("URA", 4, "u", 1), ("SVH", 6, "u", 1), ("TGD", 8, "s", P2(-31)), ("IODC", 10, "u", 1), ("Fit", 1, "u", 1),
    ],
}
_GAL_HEAD = [
    ("satNum", 6, "u", 1), ("weekNum", 12, "u", 1), ("IODnav", 10, "u", 1), ("SISA", 8, "u", 1), ("i_dot", 14, "s", P2(-43)), ("tc", 14, "u", 60),
    ("af2", 6, "s", P2(-59)), ("af1", 21, "s", P2(-46)), ("af0", 31, "s", P2(-34)), ("crs", 16, "s", P2(-5)), ("delta_n", 16, "s", P2(-43)), ("m0", 32, "s", P2(-31)),
    ("cuc", 16, "s", P2(-29)), ("e", 32, "u", P2(-33)), ("cus", 16, "s", P2(-29)), ("sqrt_a", 32, "u", P2(-19)), ("te", 14, "u", 60), ("cic", 16, "s", P2(-29)),
    ("omega0", 32, "s", P2(-31)), ("cis", 16, "s", P2(-29)), ("i0", 32, "s", P2(-31)), ("crc", 16, "s", P2(-5)), ("w", 32, "s", P2(-31)), ("omega_dot", 24, "s", P2(-43)),
    ("E5a_BGD", 10, "s", P2(-32)),
]
EPH[1045] = _GAL_HEAD + [("E5a_SHS", 2, "u", 1), ("E5a_DVS", 1, "u", 1), (None, 7, "u", 1)]
EPH[1046] = _GAL_HEAD + [("E5b_BGD", 10, "s", P2(-32)), ("E5b_SHS", 2, "u", 1), ("E5b_DVS", 1, "u", 1), ("E1_SHS", 2, "u", 1), ("E1_DVS", 1, "u", 1), (None, 2, "u", 1)]
EPH_BITS = {n: 12 + sum(f[1] for f in fl) for n, fl in EPH.items()}
assert EPH_BITS == {1019: 488, 1020: 360, 1041: 482, 1042: 511, 1044: 485, 1045: 496, 1046: 504}


def eph_payload(m) -> bytes:
    """m: {"num":..., "raw": {field: raw unsigned pattern}, "rsv": int}"""
    w = BitWriter()
    w.u(m["num"], 12)
    for name, width, kind, _ in EPH[m["num"]]:
        w.u((m.get("rsv", 0) if name is None else m["raw"][name]) & ((1 << width) - 1), width)
    return w.bytes(m.get("pad", 0)) + bytes(m.get("extra", 0))


def raw_value(raw, width, kind):
    if kind == "u":
        return raw
    sign = 1 << (width - 1)
    if kind == "s":
        return raw - (1 << width) if raw & sign else raw
    return -(raw & (sign - 1)) if raw & sign else raw


# ---------------------------------------------------------------- base station
BASE_NUMS = [1005, 1006, 1007, 1008, 1013, 1029, 1033, 1230]
BASE_FIXED = {
    1005: [("bsID", 12, "u"), ("ITRF_Year", 6, "u"), ("GPS_OK", 1, "u"), ("GLO_OK", 1, "u"), ("GAL_OK", 1, "u"), ("isVirtual", 1, "u"), ("refPoint_X", 38, "s"),
           ("singleOsc", 1, "u"), (None, 1, "u"), ("refPoint_Y", 38, "s"), ("QC_bias", 2, "u"), ("refPoint_Z", 38, "s")],
}
BASE_FIXED[1006] = BASE_FIXED[1005] + [("height", 16, "u")]
assert 12 + sum(f[1] for f in BASE_FIXED[1005]) == 152 and 12 + sum(f[1] for f in BASE_FIXED[1006]) == 168
BASE_STR = {1007: ["descr"], 1008: ["descr", "serialNumber"], 1033: ["descr", "serialNumber", "rcvDescriptor", "rcvFWVersion", "rcvSerNum"]}
GLBS_BITS = [("1C", 8), ("1P", 4), ("2C", 2), ("2P", 1)]


def base_payload(m) -> bytes:
    num = m["num"]
    w = BitWriter()
    w.u(num, 12)
    if num in BASE_FIXED:
        for name, width, kind in BASE_FIXED[num]:
            w.u((m.get("rsv", 0) if name is None else m["raw"][name]) & ((1 << width) - 1), width)
    elif num in BASE_STR:
        w.u(m["bsID"], 12)
        for i, name in enumerate(BASE_STR[num]):
            s = bytes.fromhex(m["str"][name])
            w.u(len(s), 8)
            for b in s:
                w.u(b, 8)
            if i == 0:
                w.u(m["setupID"], 8)
    elif num == 1013:
        w.u(m["bsID"], 12)
        w.u(m["modifiedJulianDay"], 16)
        w.u(m["daySec"], 17)
        w.u(0 if m.get("nm_zero") else len(m["items"]), 5)
        w.u(m["leapSec"], 8)
        for i, f, per in m["items"]:
            w.u(i, 12)
            w.u(f, 1)
            w.u(per, 16)
    elif num == 1029:
        s = bytes.fromhex(m["text"])
        w.u(m["bsID"], 12)
        w.u(m["modifiedJulianDay"], 16)
        w.u(m["daySec"], 17)
        w.u(m["charNum"], 7)
        w.u(len(s), 8)
        for b in s:
            w.u(b, 8)
    elif num == 1230:
        w.u(m["bsID"], 12)
        w.u(m["isCorrected"], 1)
        w.u(m.get("rsv", 0) & 7, 3)
        w.u(m["mask"], 4)
        for (k, bit) in GLBS_BITS:
            if m["mask"] & bit:
                w.s(m["corr"][k], 16)
    else:
        raise ValueError(num)
    return w.bytes(m.get("pad", 0))


EPH_NUMS = sorted(EPH)
ALL_NUMS = MSM_NUMS + EPH_NUMS + BASE_NUMS


def payload(m) -> bytes:
    num = m["num"]
    if num in MSM_SET:
        return msm_payload(m)
    if num in EPH:
        return eph_payload(m)
    return base_payload(m)


MSM_SET = set(MSM_NUMS)


def msg_frame(m) -> bytes:
    return frame(payload(m))


# ---------------------------------------------------------------- length / counter consistency of a payload
def consistent(p: bytes) -> bool:
    """True if the payload of a supported message has the length its own masks and counters require"""
    if len(p) < 2:
        return False
    n = len(p)
    num = (p[0] << 4) | (p[1] >> 4)
    if num in MSM_SET:
        if n * 8 < 169:
            return False
        v = int.from_bytes(p, "big")
        bits = lambda pos, w: (v >> (n * 8 - pos - w)) & ((1 << w) - 1)
        nsat, nsig = bits(73, 64).bit_count(), bits(137, 32).bit_count()
        if nsat == 0:
            return n == 22
        if nsig == 0 or nsat * nsig > 64 or n * 8 < 169 + nsat * nsig:
            return False
        ncell = bits(169, nsat * nsig).bit_count()
        return ncell > 0 and n == (msm_bits(level_of(num), nsat, nsig, ncell) + 7) // 8
    if num in EPH:
        return n * 8 >= EPH_BITS[num]
    if num in BASE_FIXED:
        return n == {1005: 19, 1006: 21}[num]
    if num in BASE_STR:
        pos = 3
        for i in range(len(BASE_STR[num])):
            if pos >= n:
                return False
            pos += 1 + p[pos] + (i == 0)
        return pos == n
    if num == 1029:
        return n >= 9 and n == 9 + p[8]
    if num == 1230:
        return n >= 4 and n == 4 + 2 * (p[3] & 15).bit_count()
    if num == 1013:
        if n < 9:
            return False
        nm = (int.from_bytes(p, "big") >> (n * 8 - 62)) & 31
        k = nm or (n * 8 - 70) // 29
        return n == (70 + 29 * k + 7) // 8
    return False
