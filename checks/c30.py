"""C30: Sonardyne logs become one position fix per record of the vehicle."""
import itertools
import math
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

T0 = 1500076770.0  # half a minute before a midnight
PLACES = [((50.0, -1.0), (50.01, -1.02)), ((-35.5, 150.25), (-35.49, 150.26)), ((0.002, 0.001), (-0.0005, -0.002)), ((60.0, 9.995), (60.005, 10.004))]
KINDS = ("ok", "other", "broken", "cut", "blank", "mirror")
ID = 7


def dm(v, width):
    a = abs(v)
    d = int(a)
    return "%0*d%09.6f" % (width, d, (a - d) * 60)


def stamp(t, date="-"):
    t = round(t, 3)
    ms = int(round((t - math.floor(t)) * 1000))
    g = time.gmtime(math.floor(t))
    return time.strftime("%%Y%s%%m%s%%d" % (date, date), g), time.strftime("%H:%M:%S", g) + ".%03d" % ms


def gga_line(fmt, kind, t, lat, lon):
    d, c = stamp(t, "/" if fmt == "sonardyne_gga2" else "-")
    i = ID + 4 if kind == "other" else ID
    la, lo = dm(lat, 2), dm(lon, 3)
    if kind == "broken":
        la = "5x" + la[2:]
    pos = "%s,%s,%s,%s" % (la, "S" if lat < 0 else "N", lo, "W" if lon < 0 else "E")
    # the identifier of the beacon is at another place in each of the logs
    q, age, st = {"sonardyne_gga": (i, "", "0001"), "sonardyne_gga2": (1, i, "0001"), "sonardyne_gga3": (1, "9", "%04d" % i), "sonardyne_gga4": (1, "", "%04d" % i)}[fmt]
    s = "$GPGGA,%s,%s,%d,08,1.0,0.0,M,0.0,M,%s,%s*5A" % (c.replace(":", ""), pos, q, age, st)
    head = "INF %s RX " % c if fmt in ("sonardyne_gga", "sonardyne_gga4") else "%s %s A B C D " % (d, c)
    line = head + s
    if kind == "cut":
        line = line[: len(head) + 30]
    if kind == "blank":
        line = ""
    return line


def gga_files(folder, fmt, lines):
    """lines: (time, text); the date of some formats is only in the file name"""
    per = {}
    for t, x in lines:
        day = time.strftime("%Y%m%d", time.gmtime(t))
        n = {"sonardyne_gga": "%s_1_GGAlsq_a.txt" % day, "sonardyne_gga2": "CommsLog_GNSS_%s.txt" % day, "sonardyne_gga3": "GGAPosition.txt", "sonardyne_gga4": "%s_GGA.txt" % day}[fmt]
        per.setdefault(n, []).append(x)
    folder.mkdir(parents=True)
    for n, xs in per.items():
        (folder / n).write_text("\n".join(xs) + "\n")
    (folder / "notes.txt").write_text("INF 10:00:00.000 RX $GPGGA,100000,1000.0,N,01000.0,E,7,08,1.0,0.0,M,0.0,M,,0007*5A\n")


def build(root, fmt, fn, place, tz):
    m = D.raw_mission(images=False, usbl=True, lat=place[0], lon=place[1])
    m["usbl"].update(format=fmt, filepath="nav/", filename=fn, timezone=tz, timeoffset=0.0, std_factor=0.01, std_offset=2.0, label=2, field_id=ID)
    for k in ("velocity", "orientation", "depth", "altitude"):
        m.pop(k, None)
    raw, pro, cfg = D.make_dive(root, None, None, m, None, "20170714_sonardyne", camera={"cameras": []})
    (raw / "nav").mkdir(exist_ok=True)
    return raw, pro


def fixes(raw, pro):
    from auv_nav.parse import parse_single

    parse_single(str(raw), True)
    out = []
    for x in D.nav_json(pro)[1:]:
        if x["category"] != "usbl":
            continue
        g, s = {}, {}
        for e in x["data_target"]:
            g.update(e)
        for e in x["data_ship"]:
            s.update(e)
        out.append((x["epoch_timestamp"], g, s))
    return out


def near(a, b, tol):
    return abs(a - b) <= tol


def position(rec, g, lat, lon, ref, what):
    if not near(g["latitude"], lat, 2e-8 + 1e-9) or not near(g["longitude"], lon, 2e-8 + 1e-9):
        rec.fail("position", "%s: at %.7f, %.7f instead of %.7f, %.7f" % (what, g["latitude"], g["longitude"], lat, lon))
        return False
    n, e = flat_ne(lat, lon, *ref)
    d = 0.02 + 0.005 * math.hypot(n, e)
    if not near(g["northings"], n, d) or not near(g["eastings"], e, d):
        rec.fail("metres", "%s: %.2f m north, %.2f m east instead of %.2f, %.2f" % (what, g["northings"], g["eastings"], n, e))
        return False
    return True


def flat_ne(lat, lon, rlat, rlon):
    """metres by the radii of curvature of WGS84 (good to a fraction of a percent over these distances)"""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    s = math.sin(math.radians((lat + rlat) / 2))
    m = a * (1 - e2) / (1 - e2 * s * s) ** 1.5
    n = a / math.sqrt(1 - e2 * s * s)
    return math.radians(lat - rlat) * m, math.radians(lon - rlon) * n * math.cos(math.radians((lat + rlat) / 2))


def gga_case(case, rec):
    fmt, kinds, pi, tz, step = case
    rec.state(case)
    ref, at = PLACES[pi]
    lines, want = [], []
    for k, kind in enumerate(kinds):
        t = T0 + step * k + 0.125 * (k % 3)
        lat, lon = at[0] + 0.0007 * k, at[1] - 0.0011 * k
        if kind == "mirror":  # the other hemispheres
            lat, lon = -lat, -lon
        lines.append((t, gga_line(fmt, "ok" if kind == "mirror" else kind, t, lat, lon)))
        if kind in ("ok", "mirror"):
            want.append((t - 3600 * tz, lat, lon, kind))
    with mc.scratch() as root:
        raw, pro = build(root, fmt, "sub", ref, tz)
        gga_files(raw / "nav" / "sub", fmt, lines)
        before = mc.snapshot(raw)
        got = fixes(raw, pro)
        rec.step()
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the raw data are changed")
    rec.out((fmt, [x[0] for x in got]))
    if [round(x[0], 3) for x in got] != [round(w[0], 3) for w in sorted(want)]:
        rec.fail("records", "%s %s: fixes at %s instead of %s" % (fmt, kinds, [x[0] - T0 for x in got], [w[0] - T0 for w in want]))
        return
    for (t, g, s), w in zip(got, sorted(want)):
        if w[3] == "mirror":  # too far for metres
            if not near(g["latitude"], w[1], 2e-8) or not near(g["longitude"], w[2], 2e-8):
                rec.fail("position", "%s: at %.7f, %.7f instead of %.7f, %.7f" % (fmt, g["latitude"], g["longitude"], w[1], w[2]))
            continue
        if not position(rec, g, w[1], w[2], ref, fmt):
            return
        if min(g[k] for k in g if k.endswith("_std")) < 0:
            rec.fail("std", "%s: a negative uncertainty" % fmt)


# ---------------------------------------------------------------- MRT
def mrt_line(kind, k, t, at):
    d, c = stamp(t)
    base = ["%d" % (100 + k), "1", {"A": "AUV 1", "O": "AUV 2", "S": "GNSS 1", "H": "MRT-USBL", "G": "Gyro"}.get(kind, "X"), "", "", "", d + " " + c, "", "%d" % k]
    lat, lon, alt = value(kind, k, at)
    if kind in "AOS":
        return ",".join(["LatLongObs"] + base + [repr(lat), repr(lon), repr(alt), "True", "True", "True"])
    if kind in "HG":
        return ",".join(["PitchRollHeadingObs"] + base + ["1.0", "2.0", repr(heading(kind, k)), "True", "True", "True"])
    if kind == "J":
        return "JobData,1,2,3"
    if kind == "E":
        return ",".join(["Event"] + base + ["note", "first, second"])
    return "Something,1,2"


def value(kind, k, at):
    return at[0] + 0.0003 * k + {"S": 0.001, "O": 0.5}.get(kind, 0.0), at[1] - 0.0004 * k + {"S": -0.002, "O": 0.5}.get(kind, 0.0), {"S": 12.0}.get(kind, -20.0 - k)


def heading(kind, k):
    return (350.0 + 7 * k + (90 if kind == "G" else 0)) % 360


def mrt_case(case, rec):
    kinds, cut, pi, tz, order = case
    rec.state(case)
    ref, at = PLACES[pi]
    ts = [T0 + 2.5 * k + 0.125 for k in range(len(kinds))]
    lines = [mrt_line(x, k, t, at) for k, (x, t) in enumerate(zip(kinds, ts))]
    if order == "reversed":
        lines.reverse()
    with mc.scratch() as root:
        raw, pro = build(root, "sonardyne_mrt", "log.csv", ref, tz)
        (raw / "nav" / "log.csv").write_text("")
        for n, part in enumerate((lines[:cut], lines[cut:]) if cut else (lines,)):
            head = ["Time,1,%s,2,%s" % (" ".join(stamp(T0)), " ".join(stamp(T0)))] + ["JobHeader,%d" % i for i in range(35)]
            (raw / "nav" / ("log_%d.csv" % (n + 1))).write_text("\n".join(head + part) + "\n")
        before = mc.snapshot(raw)
        got = fixes(raw, pro)
        rec.step()
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the raw data are changed")
    want = [(ts[k] - 3600 * tz, k) for k, x in enumerate(kinds) if x == "A"]
    rec.out([x[0] for x in got])
    if [round(x[0], 3) for x in got] != [round(w[0], 3) for w in want]:
        rec.fail("records", "%s: fixes at %s instead of %s" % ("".join(kinds), [x[0] - T0 for x in got], [w[0] - T0 for w in want]))
        return
    for (t, g, s), (_, k) in zip(got, want):
        lat, lon, alt = value("A", k, at)
        if not position(rec, g, lat, lon, ref, "MRT"):
            return
        if not near(g["depth"], -alt, 1e-6):
            rec.fail("depth", "depth %r instead of %r" % (g["depth"], -alt))

        def neighbours(kind):
            i = [j for j, x in enumerate(kinds) if x == kind]
            return [max([j for j in i if j < k], default=None), min([j for j in i if j > k], default=None)]

        ship = [value("S", j, at) for j in neighbours("S") if j is not None]
        hit = [p for p in ship if near(s["latitude"], p[0], 1e-9) and near(s["longitude"], p[1], 1e-9)]
        if not hit:
            rec.fail("ship", "%s: ship at %r, %r is not that before or after the fix" % ("".join(kinds), s["latitude"], s["longitude"]))
            return
        if not any(near(s["heading"], heading("H", j), 1e-9) for j in neighbours("H") if j is not None):
            rec.fail("heading", "%s: heading %r is not that before or after the fix" % ("".join(kinds), s["heading"]))
        n, e = flat_ne(hit[0][0], hit[0][1], *ref)
        if not near(s["northings"], n, 0.02 + 0.005 * math.hypot(n, e)) or not near(s["eastings"], e, 0.02 + 0.005 * math.hypot(n, e)):
            rec.fail("ship-metres", "ship %.2f m north, %.2f m east instead of %.2f, %.2f" % (s["northings"], s["eastings"], n, e))
        n, e = flat_ne(lat, lon, hit[0][0], hit[0][1])
        r = math.sqrt(n * n + e * e + alt * alt)
        if not near(g["distance_to_ship"], r, 0.005 * r):
            rec.fail("range", "distance to the ship %.3f instead of %.3f" % (g["distance_to_ship"], r))
        sd = 0.01 * g["distance_to_ship"] + 2.0
        for x in ("northings_std", "eastings_std", "depth_std"):
            if not near(g[x], sd, 1e-6):
                rec.fail("std", "%s %.4f instead of %.4f" % (x, g[x], sd))
        one = flat_ne(lat + 1e-5, lon + 1e-5, lat, lon)
        for x, m in (("latitude_std", one[0]), ("longitude_std", one[1])):
            if not near(g[x], sd * 1e-5 / m, 0.02 * sd * 1e-5 / m):
                rec.fail("std", "%s %.3e instead of %.3e" % (x, g[x], sd * 1e-5 / m))


def body():
    ck = mc.new_check("C30")
    D.stub_version()
    D.no_parse_plots()
    mc.silence_console()
    T = ck.thorough
    F = ["sonardyne_gga", "sonardyne_gga2", "sonardyne_gga3", "sonardyne_gga4"]
    cases = [(f, p, 0, 0, 20.0) for f in F for n in range(1, 5 if T else 4) for p in itertools.product(KINDS, repeat=n) if "ok" in p]
    cases += [(f, p, pl, tz, st) for f in F for p in (("ok", "other", "ok"), ("ok", "mirror"), ("ok",) * 4) for pl in range(4) for tz in (0, 9, -5) for st in (0.25, 20.0, 3600.0)]
    ck.explore("GGA logs", sorted(set(cases)), gga_case, "all sequences of kinds of lines x the four log formats; places, time zones, midnights")
    L = "ASHJOGEU"
    seqs = [p for n in range(3, 6 if T else 5) for p in itertools.product(L, repeat=n) if {"A", "S", "H"} <= set(p)]
    seqs += [p for n in (5, 6) for p in itertools.product("ASH", repeat=n) if set(p) == set("ASH")] if not T else [p for p in itertools.product("ASH", repeat=6) if set(p) == set("ASH")]
    cases = [(p, 0, 0, 0, "given") for p in seqs]
    some = [tuple(x) for x in ("SHA", "ASH", "SHASHA", "HSAASH", "SAJAH", "JASHJ", "SHJOA")]
    cases += [(p, c, pl, tz, o) for p in some for c in range(0, len(p)) for pl in range(4) for tz in (0, 9, -5) for o in ("given", "reversed") if not (o == "reversed" and "J" in p)]
    ck.explore("MRT logs", sorted(set(cases)), mrt_case, "all sequences of kinds of lines; splits into two files, order of the lines, places, time zones")
    return ck.finish()


if __name__ == "__main__":
    mc.main(body)
