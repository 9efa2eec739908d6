"""C22: the outputs of one stream agree with each other"""
import os

from hypothesis import strategies as st

from vlib import gen, model as M, rtcm as R, sut
from vlib.model import Violation
from vlib.runner import Fuzz, Sub

ASSUMPTIONS = ["signals of the constellation's table", "MSM3 cells with an invalid code range carry an invalid phase (see C07)"]
C = 299.792458  # m * MHz
KINDS = {"C": "rng", "L": "phs", "D": "dpl", "S": "c2n", "T": "ltm", "A": "hca"}

# bare fields a scaled observable of MSM4..MSM7 is made of
DEP = {
    "rng": ("rng_ms", "rng_rough", "rng_fine"),
    "phs": ("rng_ms", "rng_rough", "phase_fine"),
    "dpl": ("phase_rate_rough", "phase_rate_fine"),
    "ltm": ("lock_time",),
    "hca": ("hc_indc",),
    "c2n": ("c2n",),
}


def bits(mask):
    return [i for i in range(mask.bit_length()) if mask >> i & 1]


def array(o, num):
    arr = o.json(path=M.json_path(num))
    out = []
    for r in arr[1:]:
        if len(r) != 1:
            raise Violation(f"message {num}: a record has the keys {sorted(r)}")
        out.append(next(iter(r.items())))
    return out


def run(case):
    data = b"".join(gen.item_frame(x) for x in case["items"])
    ctl = case["ctl"]
    full = dict(ctl, ENABLE_HDR_DATA=True, ENABLE_AUX_DATA=True)
    B = sut.run("JSON-B", data, full, case["via"])
    S = sut.run("JSON", data, full, case["via"])
    T = sut.run("MARGO", data, full, case["via"])
    pb, ps = ({p.replace(os.sep, "/") for p in o.files} for o in (B, S))
    if pb != ps:
        raise Violation(f"JSON-B and JSON have different files: {sorted(pb ^ ps)}")
    nums = [n for n in R.ALL_NUMS if M.json_path(n) in pb]
    func = {}
    fine = {}
    tables = {}
    ncell = nfun = 0
    for num in nums:
        if num not in R.MSM_SET:
            a, b = B.json(path=M.json_path(num)), S.json(path=M.json_path(num))
            if len(a) != len(b):
                raise Violation(f"message {num}: {len(a) - 1} bare and {len(b) - 1} scaled records")
            for x, y in zip(a[1:], b[1:]):
                if set(x) != set(y) or x["msgNum"] != y["msgNum"]:
                    raise Violation(f"message {num}: fields of bare and scaled records differ: {sorted(set(x) ^ set(y))}")
            continue
        g, lv = R.gnss_of(num), R.level_of(num)
        a, b = array(B, num), array(S, num)
        if len(a) != len(b):
            raise Violation(f"message {num}: {len(a)} bare and {len(b)} scaled records")
        for no, ((tb, rb), (ts, rs)) in enumerate(zip(a, b)):
            w = f"message {num} #{no}: "
            h, x, obs = rb["hdr"], rs["aux"], rs["obs"]
            t, day = (h["time"] & 0x7FFFFFF, h["time"] >> 27) if g == "R" else (h["time"], 0)
            if int(tb) != t or int(ts) != t + day * M.DAY or (rs["hdr"]["time"], rs["hdr"]["day"]) != (t, day):
                raise Violation(w + f"epoch: bare key {tb} header {h['time']}, scaled key {ts} header {rs['hdr']['time']}, {rs['hdr']['day']}")
            if x["rs_id"] != h["rs_id"] or x["MMB"] != h["MMB"] or x["IODS"] != h["IODS"]:
                raise Violation(w + f"station {h['rs_id']} vs {x['rs_id']}, MMB {h['MMB']} vs {x['MMB']}, IODS {h['IODS']} vs {x['IODS']}")
            for k in ("clk_steer", "clk_ext", "smth_indc", "smth_intr"):
                if x[k]["code"] != h[k]:
                    raise Violation(w + f"{k}: bare {h[k]} scaled {x[k]}")
            sats = [i + 1 for i in bits(h["sat_mask"])]
            if rs["hdr"]["sats"] != sats:
                raise Violation(w + f"satellites: bare {sats} scaled {rs['hdr']['sats']}")
            if not sats:
                if any(obs.values()):
                    raise Violation(w + "observables without satellites")
                continue
            sigs = [R.SIGNALS[g][i + 1] for i in bits(h["sgn_mask"])]
            if set(rs["hdr"]["signals"]) != set(sigs):
                raise Violation(w + f"signals: bare {sigs} scaled {list(rs['hdr']['signals'])}")
            cells = [(sats[i // len(sigs)], sigs[i % len(sigs)]) for i in bits(h["cell_mask"])]
            have = {k: {(int(s), sg) for sg, d in obs[k].items() for s in d} for k in obs}
            for k, cs in have.items():
                if not cs <= set(cells):
                    raise Violation(w + f"{k} for cells that were not transmitted: {sorted(cs - set(cells))[:3]}")
            if lv >= 4:
                for k in ("ltm", "hca", "c2n"):
                    if have[k] != set(cells):
                        raise Violation(w + f"{k} is missing for {sorted(set(cells) - have[k])[:3]}")
            si = {s: i for i, s in enumerate(sats)}
            for ci, (s, sg) in enumerate(cells):
                ncell += 1
                sat = {n: rb["sat"][n][si[s]] for n, _, _ in R.SAT_FIELDS[lv] if n != "ext_info"}
                sgn = {n: rb["sgn"][n][ci] for n, _, _ in R.CELL_FIELDS[lv]}
                val = {k: obs[k].get(sg, {}).get(str(s)) for k in obs}
                if val["hca"] is not None and val["hca"] is not bool(sgn["hc_indc"]):
                    raise Violation(w + f"satellite {s} {sg}: half-cycle indicator {sgn['hc_indc']} in bare, {val['hca']} in scaled output")
                for k in obs:
                    if lv <= 3:
                        src = {**sat, **sgn}
                    else:
                        src = {n: sat[n] for n in sat if n in DEP[k]} | {n: sgn[n] for n in sgn if n in DEP[k]}
                    key = (lv, k, tuple(sorted(src.items())))
                    nfun += 1
                    if func.setdefault(key, val[k]) != val[k]:
                        raise Violation(w + f"satellite {s} {sg}: {k} is {val[k]}, the same bare values {src} gave {func[key]} elsewhere")
                for k, f in (("rng", "rng_fine"), ("phs", "phase_fine"), ("dpl", "phase_rate_fine")):
                    if f not in sgn or val[k] is None:
                        continue
                    r = tuple(sat[n] for n in sorted(sat) if (n == "phase_rate_rough") == (k == "dpl"))
                    fine.setdefault((lv, k, r), {}).setdefault(sgn[f], (val[k], w))
        tables[num] = b
    for (lv, k, r), d in fine.items():
        q = sorted(d)
        for u, v in zip(q, q[1:]):
            if not d[u][0] < d[v][0]:
                raise Violation(f"{d[v][1]}MSM{lv} {k}: fine part {u} gives {d[u][0]}, larger fine part {v} gives {d[v][0]}")
    # tables against scaled records
    exp = {}
    for num, recs in tables.items():
        g, lv = R.gnss_of(num), R.level_of(num)
        for key, r in recs:
            for par, kind in KINDS.items():
                if (par == "T" and not ctl["LOCK_TIME"]) or (par == "A" and not ctl["HCA"]):
                    continue
                for sg, d in r["obs"][kind].items():
                    exp.setdefault(f"{M.MARGO_DIR[g]}/{g}{par}{sg}_MSM{lv}.obs", []).append((par, g, r["hdr"], r["obs"], sg, d))
    got = {p.replace(os.sep, "/"): b for p, b in T.files.items()}
    if set(got) != set(exp):
        raise Violation(f"tables missing {sorted(set(exp) - set(got))} unexpected {sorted(set(got) - set(exp))}")
    for p, rows in exp.items():
        tb = M.parse_margo(got[p].decode(), p)
        if len(tb) - 2 != len(rows):
            raise Violation(f"{p}: {len(tb) - 2} rows for {len(rows)} scaled records")
        head = [int(c) for c in tb[0][1:]]
        crr = [float(c) for c in tb[1][1:]]
        shifts = set()
        for line, (par, g, hdr, obs, sg, d) in zip(tb[2:], rows):
            if len(line) != len(head) + 1:
                raise Violation(f"{p}: row of {len(line)} columns")
            shifts.add((int(line[0]) - hdr["time"] - hdr["day"] * M.DAY) % M.WEEK)
            for s, f, c in zip(head, crr, line[1:]):
                v = d.get(str(s))
                if v is not None and par == "L" and not ctl["HCA"] and obs["hca"][sg][str(s)]:
                    v = None
                if v is None:
                    if not M.is_nan(c):
                        raise Violation(f"{p}: satellite {s}: {c}, scaled record has nothing")
                    continue
                if par == "L":
                    v = v * f / C
                elif par == "D":
                    v = -v * f / C
                elif par == "T":
                    v = v * 0.001
                elif par == "A":
                    v = 1 if v else 0
                if M.is_nan(c) or abs(float(c) - v) > 0.5 * 10 ** -M.MARGO_FRAC[par] * 1.0001 + 2e-6:
                    raise Violation(f"{p}: satellite {s}: {c}, scaled record gives {v}")
        if len(shifts) != 1:
            raise Violation(f"{p}: time marks are not at a constant distance from the scaled epochs: {sorted(shifts)}")
    lb = [f"{len(tables)} MSM numbers"]
    if ncell >= 4:
        lb.append("nontrivial")
    if len(func) < nfun:
        lb.append("equal cells")
    if any(len(d) > 1 for d in fine.values()):
        lb.append("monotonicity")
    return lb


@st.composite
def coarse(draw):
    """MSM message with few different values, so that cells repeat"""
    m = draw(gen.msm(margo=True, valid_time=True, small=True, allow_empty=False))
    import random

    rng = random.Random(draw(gen.seeds))
    lv = R.level_of(m["num"])
    base = rng.randrange(3)
    for n, w, k in R.SAT_FIELDS[lv]:
        m["sat"][n] = [rng.randrange(2) + base for _ in m["sat"][n]]
        if w == 4:
            m["sat"][n] = [1 for _ in m["sat"][n]]
    for n, w, k in R.CELL_FIELDS[lv]:
        if w == 1:
            m["sgn"][n] = [rng.randrange(2) for _ in m["sgn"][n]]
        else:
            m["sgn"][n] = [rng.choice((0, 1, 2, -1 if k == "s" else 3)) for _ in m["sgn"][n]]
    return m


def strat():
    good = st.one_of(gen.msm(margo=True, valid_time=True), gen.msm(margo=True, valid_time=True, small=True), gen.msm(margo=True, valid_time=True, small=True), coarse(), coarse())

    @st.composite
    def build(draw):
        items = draw(gen.sequence(good, 1, 5, margo=True))
        for _ in range(draw(st.integers(0, 2))):
            items.insert(draw(st.integers(0, len(items))), draw(st.one_of(gen.eph(), gen.base(), gen.malformed(), gen.unsupported())))
        return items

    return st.fixed_dictionaries({"items": build(), "ctl": gen.controls_st(), "via": st.sampled_from(("api", "api", "api", "cli"))})


TECHNIQUE = "differential and metamorphic relations between three conversions of the same generated stream"
NOTE = "No reference values: only relations between the three outputs are judged."
SUBS = [Sub("streams", strat, run, (4000, 120000), "streams of MSM and other messages converted to JSON-B, JSON and MARGO; non-trivial: at least four cells")]
SUBS.append(Fuzz(SUBS[0], "items", (24000, 2000000), margo=True))
