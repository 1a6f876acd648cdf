"""C28: ALR and Autosub logs become one measurement per valid record, with its own time, sign and unit."""
import itertools
import math
import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import numpy as np

warnings.filterwarnings("ignore")
NAN = float("nan")
T0 = 1500000000.0
SEC = ("velocity", "orientation", "depth", "altitude")
# kinds of ALR records: what is missing
KINDS = {
    "full": {},
    "gps": {},
    "nolock": {"lock": 0},
    "nolock-gps": {"lock": 0},
    "nan-velocity": {"vy": NAN},
    "lost": {"lock": 0, "vx": NAN, "vy": NAN, "vz": NAN, "alt": NAN},
    "nan-attitude": {"pitch": NAN},
    "nan-heading": {"yaw": NAN},
    "nan-depth": {"depth": NAN},
    "nan-altitude": {"alt": NAN},
    "half-gps": {"lat": 50.1},
    "same-time": {},
}
PLACES = [(50.01, -1.02), (-33.5, 151.2), (0.001, -0.001), (60.0, 179.999)]


def record(k, kind, t, place, neg):
    s = -1.0 if neg and k % 2 else 1.0
    r = {
        "t": t, "lock": 1, "vx": s * (1.0 + 0.125 * k), "vy": -s * (0.25 + 0.125 * k), "vz": s * 0.0625 * (k + 1),
        "roll": s * 0.02 * (k + 1), "pitch": -s * 0.03 * (k + 1), "yaw": (0.5 + 1.9 * k) % (2 * math.pi),
        "depth": 10.0 + 2.5 * k, "alt": 4.0 + 0.5 * k, "lat": NAN, "lon": NAN,
    }
    if "gps" in kind and kind != "half-gps":
        r["lat"], r["lon"] = place[0] + 0.0001 * k, place[1] + 0.0002 * k
    r.update(KINDS[kind])
    return r


ALR = [("DVL_down_BT_x", "vx"), ("DVL_down_BT_y", "vy"), ("DVL_down_BT_z", "vz"), ("AUV_roll", "roll"), ("AUV_pitch", "pitch"), ("AUV_heading", "yaw"), ("AUV_depth", "depth"), ("AUV_altitude", "alt"), ("GPS_latitude", "lat"), ("GPS_longitude", "lon")]


def alr_file(path, form, recs):
    if form == "mat":
        import scipy.io as sio

        d = {n: np.array([r[k] for r in recs], dtype=float) for n, k in ALR}
        d["DVL_down_BT_is_good"] = np.array([r["lock"] for r in recs], dtype=float)
        d["epoch_timestamp"] = np.array([r["t"] for r in recs])
        sio.savemat(str(path), {"MissionData": d})
        return
    cols = {"csv": ["timestamp"], "csv-epoch": ["epoch_timestamp"], "csv-corrected": ["timestamp", "corrected_timestamp"], "csv-only-corrected": ["corrected_timestamp"]}[form]
    names = cols + [n for n, _ in ALR] + ["DVL_down_BT_valid"]
    rows = []
    for r in recs:
        v = []
        for c in cols:
            # of two times the corrected one counts
            v.append("%.6f" % (r["t"] - 37.25 if c == "timestamp" and len(cols) > 1 else r["t"]))
        v += ["" if math.isnan(r[k]) else repr(r[k]) for _, k in ALR] + ["%d" % r["lock"]]
        rows.append(",".join(v))
    path.write_text(",".join(names) + "\n" + "\n".join(rows) + "\n")


def section(fmt, fn):
    return {"format": fmt, "filepath": "nav/", "filename": fn, "timezone": 0, "timeoffset": 0.0, "std_factor": 0.03, "std_offset": 0.2}


def dive(d, fmt, fn, usbl, place):
    m = D.raw_mission(images=False, usbl=False, lat=place[0], lon=place[1])
    for k in SEC:
        m[k] = section(fmt, fn)
    if usbl:
        m["usbl"] = dict(section(fmt, fn), std_factor=0.01, std_offset=2.0)
    raw, pro, cfg = D.make_dive(d, None, None, m, None, "20170714_alr", camera={"cameras": []})
    (raw / "nav").mkdir(exist_ok=True)
    return raw, pro


def parse(raw, pro):
    from auv_nav.parse import parse_single

    try:
        parse_single(str(raw), True)
    except mc.CaseTimeout:
        raise
    except (Exception, SystemExit) as e:
        if not mc.from_repo(e):
            raise
        return None, "%s: %s" % (type(e).__name__, e)
    return D.nav_json(pro)[1:], None


def flat(x):
    out = {}
    for e in x:
        out.update(e)
    return out


def observed(items):
    """{category: [(time, values, uncertainties)]}"""
    out = {}
    for i in items:
        c = i["category"]
        if c == "usbl":
            g = flat(i["data_target"])
            v = [g["latitude"], g["longitude"], g["northings"], g["eastings"], g["depth"]]
            s = [g["northings_std"], g["eastings_std"], g["depth_std"], g["latitude_std"], g["longitude_std"]]
        else:
            g = flat(i["data"])
            n = {"velocity": ["x_velocity", "y_velocity", "z_velocity"], "orientation": ["roll", "pitch", "heading"], "depth": ["depth"], "altitude": ["altitude"]}[c]
            v, s = [g[k] for k in n], [g[k + "_std"] for k in n]
        out.setdefault(c, []).append((i["epoch_timestamp"], v, s))
    return {k: sorted(v, key=lambda x: x[0]) for k, v in out.items()}


def latest(ms):
    """of several records of one time the last one counts"""
    out = []
    for m in ms:
        if out and out[-1][0] == m[0]:
            out[-1] = m
        else:
            out.append(m)
    return out


def alr_reference(recs, place, usbl):
    from geographiclib.geodesic import Geodesic

    w = {k: [] for k in SEC + ("usbl",)}
    fin = lambda *a: not any(math.isnan(x) for x in a)
    deg = math.degrees
    for r in recs:
        if r["lock"] == 1 and fin(r["vx"], r["vy"], r["vz"]):
            v = [r["vx"], r["vy"], r["vz"]]
            w["velocity"].append((r["t"], v, [abs(x) * 0.03 + 0.2 for x in v]))
        if fin(r["roll"], r["pitch"], r["yaw"]):
            w["orientation"].append((r["t"], [deg(r["roll"]), deg(r["pitch"]), deg(r["yaw"])], [0.2] * 3))
        if fin(r["depth"]):
            w["depth"].append((r["t"], [r["depth"]], [abs(r["depth"]) * 0.03]))
        if r["lock"] == 1 and fin(r["alt"]):
            w["altitude"].append((r["t"], [r["alt"]], [r["alt"] * 0.03]))
        if usbl and fin(r["lat"], r["lon"]):
            g = Geodesic.WGS84.Inverse(place[0], place[1], r["lat"], r["lon"])
            a = math.radians(g["azi1"])
            s = 0.01 * r["depth"] + 2.0
            w["usbl"].append((r["t"], [r["lat"], r["lon"], g["s12"] * math.cos(a), g["s12"] * math.sin(a), r["depth"]], [s, s, s, None, None]))
    return {k: latest(v) for k, v in w.items() if v}


def compare(rec, what, got, want):
    for c in sorted(set(got) | set(want)):
        g, w = got.get(c, []), want.get(c, [])
        if [x[0] for x in g] != [x[0] for x in w]:
            tg, tw = [x[0] - T0 for x in g], [x[0] - T0 for x in w]
            rec.fail(c + "-records", "%s: %s measurements at %s, the log has valid ones at %s" % (what, c, tg, tw))
            return
        for a, b in zip(g, w):
            if any(not mc.close(x, y, 1e-6 if c != "usbl" or i < 2 else 0.05) for i, (x, y) in enumerate(zip(a[1], b[1]))):
                rec.fail(c + "-values", "%s: %s at +%.2f s is %s, the log says %s" % (what, c, a[0] - T0, a[1], b[1]))
                return
            if any(not math.isfinite(x) or x < 0 or y is not None and not mc.close(x, y, 1e-9) for x, y in zip(a[2], b[2])):
                rec.fail(c + "-std", "%s: uncertainties of %s at +%.2f s are %s, expected %s" % (what, c, a[0] - T0, a[2], b[2]))
                return


def alr_case(c, rec):
    form, kinds, pl, step, neg, usbl = c
    place = PLACES[pl]
    recs, t = [], T0
    for k, kind in enumerate(kinds):
        if k and kind != "same-time":
            t += step
        recs.append(record(k, kind, t, place, neg))
    with mc.scratch() as d:
        fn = "log.mat" if form == "mat" else "log.csv"
        raw, pro = dive(d, "alr", fn, usbl, place)
        alr_file(raw / "nav" / fn, form, recs)
        items, err = parse(raw, pro)
    want = alr_reference(recs, place, usbl)
    rec.step(len(recs))
    rec.state((form, kinds))
    what = "%s log %s at %s" % (form, list(kinds), place)
    if err:
        rec.fail("parse-fails", "%s: %s" % (what, err))
        return
    got = observed(items)
    rec.out(got)
    compare(rec, what, got, want)


def autosub_case(c, rec):
    pattern, step, signs = c
    # per node: which records repeat the time of the one before
    import scipy.io as sio

    n = len(pattern[0])
    ts = []
    for p in pattern:
        t, l = T0, []
        for k in range(n):
            t += 0.0 if k and p[k] else step
            l.append(t)
        ts.append(np.array(l))
    s = np.array([signs[k % len(signs)] for k in range(n)], dtype=float)
    k = np.arange(n, dtype=float)
    adcp = {"eTime": ts[0], "Vnorth0": s * (1000.0 + 125 * k), "Veast0": -s * (250.0 + 10 * k), "Vdown0": s * (30.0 - 7 * k), "Verr0": s * (5.0 + k)}
    ins = {"eTime": ts[1], "Roll": s * 0.02 * (k + 1), "Pitch": -s * 0.03 * (k + 1), "Heading": (0.5 + 1.9 * k) % (2 * math.pi)}
    dep = {"eTime": ts[2], "DepCtldepth": 10 + 2.5 * k}
    log1 = {"eTime": ts[3], "ADCPAvAlt": 4 + 0.5 * k}
    with mc.scratch() as d:
        raw, pro = dive(d, "autosub", "M155.mat", False, PLACES[0])
        sio.savemat(str(raw / "nav" / "M155.mat"), {"missionData": {"ADCPbin00": adcp, "INSAttitude": ins, "DepCtlNode": dep, "ADCPLog_1": log1}})
        items, err = parse(raw, pro)
    want = {
        # the log has the velocity of the sea floor relative to the vehicle, in mm/s
        "velocity": latest([(ts[0][i], [-adcp["Vnorth0"][i] / 1000, -adcp["Veast0"][i] / 1000, -adcp["Vdown0"][i] / 1000], [abs(adcp["Verr0"][i]) / 1000] * 3) for i in range(n)]),
        "orientation": latest([(ts[1][i], [math.degrees(ins[x][i]) for x in ("Roll", "Pitch", "Heading")], [0.2] * 3) for i in range(n)]),
        "depth": latest([(ts[2][i], [dep["DepCtldepth"][i]], [0.03 * dep["DepCtldepth"][i]]) for i in range(n)]),
        "altitude": latest([(ts[3][i], [log1["ADCPAvAlt"][i]], [0.03 * log1["ADCPAvAlt"][i]]) for i in range(n)]),
    }
    rec.step(4 * n)
    rec.state(c)
    what = "Autosub log, repeated times %s, signs %s" % (pattern, signs)
    if err:
        rec.fail("parse-fails", "%s: %s" % (what, err))
        return
    got = observed(items)
    rec.out(got)
    compare(rec, what, got, want)


def body():
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    chk = mc.new_check(
        "C28",
        assumptions=[
            "records are in order of time (equal times allowed); a fix without a depth does not occur",
            "time zone and time offset are zero for these formats (the parsers do not support them)",
            "Matlab logs have at least two records; of several records of one time the last valid one counts",
        ],
    )
    q = not chk.thorough
    names = [k for k in KINDS]
    first = [k for k in names if k != "same-time"]
    seqs = [(a,) + t for r in (1, 2) for a in first for t in itertools.product(names, repeat=r)]
    some = [(a,) + t for a in first[::3] for t in itertools.product(names, repeat=3)][:: (7 if q else 1)]
    cases = [("csv", s, 0, 0.5, True, True) for s in seqs + some] + [("csv", (a,), 0, 0.5, True, True) for a in first]
    cases += [(f, s, p, st, ng, u) for f in ("csv-epoch", "csv-corrected", "csv-only-corrected", "mat") for s in [("full", "gps", x, y, "gps") for x in names for y in (names if not q else names[::5])] for p in ((0,) if q else range(4)) for st, ng, u in ((0.25, True, True),)]
    cases += [("csv", ("gps", "nolock-gps", "full", "gps"), p, st, ng, u) for p in range(4) for st in (0.0625, 1.0, 600.0) for ng in (False, True) for u in (False, True)]
    chk.explore("ALR", cases, alr_case, "all sequences of kinds of records x file forms x places")
    bits = list(itertools.product((0, 1), repeat=3))
    pats = [tuple((0,) + (b if j == i else (0, 0, 0)) for j in range(4)) for i in range(4) for b in bits] + [tuple((0,) + b for _ in range(4)) for b in bits]
    pats += [tuple((0,) + bits[(7 * i + 3 * j) % 8] for j in range(4)) for i in range(1, 8)]
    chk.explore("Autosub", [(p, st, sg) for p in sorted(set(pats)) for st in (0.25, 1.0) for sg in ((1,), (-1,), (1, -1), (1, 1, -1))], autosub_case, "repeated times in every node x signs")
    return chk.finish()


mc.main(body)
