"""C25: the ROV conversions (HyBIS, Koyo20) give every image the navigation of its own time."""
import argparse
import calendar
import contextlib
import csv
import io
import itertools
import math
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import geom
import yaml

A, E2 = 6378137.0, 6.69437999014e-3
START = [calendar.timegm((2019, 7, 14, 2, 40, 0)), calendar.timegm((2020, 2, 28, 23, 59, 58)), calendar.timegm((2019, 12, 31, 23, 59, 58))]
HEMI = [(50.75, -1.25), (-34.5, 151.0), (0.0004, -0.0005), (-0.0004, 179.5), (59.85, -7.06)]


def metres(lat, lon, rlat, rlon):
    """northing, easting of a point within a few hundred metres"""
    m = math.radians(0.5 * (lat + rlat))
    w = math.sqrt(1 - E2 * math.sin(m) ** 2)
    return math.radians(lat - rlat) * A * (1 - E2) / w**3, math.radians(lon - rlon) * A / w * math.cos(m)


def degrees(n, e, rlat, rlon):
    lat = rlat + math.degrees(n * (1 - E2 * math.sin(math.radians(rlat)) ** 2) ** 1.5 / (A * (1 - E2)))
    m = math.radians(0.5 * (lat + rlat))
    return lat, rlon + math.degrees(e * math.sqrt(1 - E2 * math.sin(m) ** 2) / (A * math.cos(m)))


def at(t, recs, key, angle=False):
    """value of a record list at a time, None outside"""
    if not recs or t < recs[0]["t"] or t > recs[-1]["t"]:
        return None
    for a, b in zip(recs, recs[1:]):
        if a["t"] <= t <= b["t"]:
            return (geom.yaw_lerp if angle else geom.lerp)(t, a["t"], b["t"], a[key], b[key])
    return recs[0][key]


def quietly(fn, *a):
    """run a conversion; True when it refuses"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            fn(*a)
            return False
        except (SystemExit, AssertionError):
            return True


def judge(rec, what, row, want, where):
    for col, e, tol, ang in want:
        try:
            g = float(row[col])
        except (KeyError, TypeError, ValueError):
            rec.fail("column", "%s: column %s holds %r" % (where, col, row.get(col)))
            return False
        bad = not mc.angle_close(g, e, tol) if ang else not abs(g - e) <= tol
        if bad:
            rec.fail(what + "-" + col.split(" ")[0], "%s: %s is %.9g, its records give %.9g" % (where, col, g, e))
            return False
    return True


def read(path):
    rows = list(csv.DictReader(path.open(), skipinitialspace=True))
    return [{k.strip(): v for k, v in r.items()} for r in rows]


# ---------------------------------------------------------------- HyBIS
def nmea(v, lat):
    a = abs(v)
    d = int(a)
    return ("%02d%08.5f%s" if lat else "%03d%08.5f%s") % (d, (a - d) * 60, ("N" if v >= 0 else "S") if lat else ("E" if v >= 0 else "W"))


def hybis_case(case, rec):
    from auv_nav.convert import hybis_to_oplab

    start, hemi, steps, heads, odd, ref, order, att = case
    rec.state(case)
    lat0, lon0 = HEMI[hemi]
    t, recs, lines = START[start], [], []
    for k, h in enumerate(heads):
        r = {
            "t": t,
            "roll": (3.5, -2.25, 7.0, 0.5)[k % 4] * att,
            "pitch": (-1.5, 4.0, -6.25, 2.0)[k % 4] * att,
            "heading": h,
            "depth": 812.5 + 3.0 * k * (-1) ** k,
            "altitude": 4.0 + 0.75 * ((k * 2) % 5),
            "lat": lat0 + 1e-4 * (k + 1) * (-1) ** k,
            "lon": lon0 + 1.7e-4 * ((k * 2) % 5 - 2),
        }
        kind, pos = odd
        g = dict(r)
        if pos == k and kind in ("altitude", "depth"):
            g[kind] = 0.0
        lon_text = "none" if pos == k and kind == "nofix" else nmea(r["lon"], False)
        w = time.gmtime(t)
        lines.append("%02d/%02d/%04d, %02d:%02d:%02d, %r, %r, %r, %r, %r, %s, %s" % (w[2], w[1], w[0], w[3], w[4], w[5], g["roll"], g["pitch"], g["heading"], g["depth"], g["altitude"], lon_text, nmea(r["lat"], True)))
        # the log has five decimals of a minute
        for q in ("lat", "lon"):
            a = abs(r[q])
            r[q] = math.copysign(int(a) + round((a - int(a)) * 60, 5) / 60, r[q])
        r.update({q: g[q] for q in ("altitude", "depth")})
        if lon_text != "none":
            recs.append(r)
        t += steps[k % len(steps)]
    for k in range(1, len(recs) - 1):  # a missing value is taken from the records around it
        for q in ("altitude", "depth"):
            if recs[k][q] == 0:
                recs[k][q] = geom.lerp(recs[k]["t"], recs[k - 1]["t"], recs[k + 1]["t"], recs[k - 1][q], recs[k + 1][q])
    with mc.scratch() as root:
        raw, pro = root / "raw" / "y" / "hybis", root / "processed" / "y" / "hybis"
        (raw / "nav").mkdir(parents=True)
        img = raw / "image" / "stills"
        img.mkdir(parents=True)
        nav = raw / "nav" / "hybis.csv"
        nav.write_text("Date , Time, Roll, Pitch, Heading, Pressure, Altitude, Hybis Long, Hybis Lat\n" + "\n".join(lines) + "\n")
        times = sorted({a["t"] + f * (b["t"] - a["t"]) for a, b in zip(recs, recs[1:]) for f in (0.0, 0.25, 0.5, 0.9375, 1.0)})
        if order == "reverse":
            times = times[::-1]
        elif order == "mixed":
            times = times[1::2] + times[::2]
        for k, x in enumerate(times):
            f = img / ("still_%03d.jpg" % k)
            f.write_bytes(b"x%d" % k)
            os.utime(f, (x + 5, x))
        before = mc.snapshot(raw)
        rlat, rlon = (0.0, 0.0) if ref == "first" else (lat0 + 2e-4, lon0 - 3e-4)
        args = argparse.Namespace(navigation_file=str(nav), image_path=str(img), reference_lat=rlat, reference_lon=rlon, output_folder=str(raw), force=False)
        pro.mkdir(parents=True)
        if quietly(hybis_to_oplab, args):
            rec.fail("refused", "the conversion is refused")
            return
        rec.step()
        if ref == "first":
            rlat, rlon = recs[0]["lat"], recs[0]["lon"]
        out = sorted(pro.rglob("*.csv"))
        if len(out) != 1:
            rec.fail("files", "the conversion writes %s" % [p.name for p in out])
            return
        rows = read(out[0])
        if sorted(os.path.basename(r["relative_path"]) for r in rows) != ["still_%03d.jpg" % k for k in range(len(times))]:
            rec.fail("images", "listed images are %s" % [os.path.basename(r["relative_path"]) for r in rows])
            return
        for r in rows:
            f = raw / r["relative_path"]
            if not f.exists():
                rec.fail("path", "listed image %s does not exist" % r["relative_path"])
                return
            x = times[int(f.stem[-3:])]
            n, e = metres(at(x, recs, "lat"), at(x, recs, "lon"), rlat, rlon)
            want = [("northing [m]", n, 0.02, 0), ("easting [m]", e, 0.02, 0)]
            want += [("depth [m]", at(x, recs, "depth"), 1e-6, 0), ("altitude [m]", at(x, recs, "altitude"), 1e-6, 0), ("timestamp", x, 1e-4, 0)]
            want += [(q + " [deg]", at(x, recs, q), 1e-6, 1) for q in ("roll", "pitch")] + [("heading [deg]", at(x, recs, "heading", True), 1e-6, 1)]
            want += [("latitude [deg]", at(x, recs, "lat"), 1e-8, 0), ("longitude [deg]", at(x, recs, "lon"), 1e-8, 0)]
            rec.step()
            if not judge(rec, "hybis", r, want, "HyBIS image %.2f s after the start" % (x - recs[0]["t"])):
                return
        rec.out((len(rows), rows[0]["northing [m]"]))
        frozen = mc.snapshot(pro)
        if not quietly(hybis_to_oplab, args) or mc.snapshot(pro) != frozen:
            rec.fail("overwrite", "converting again without force is not refused or changes results")
        args.force = True
        if quietly(hybis_to_oplab, args) or mc.snapshot(pro) != frozen:
            rec.fail("again", "converting again with force gives other results")
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the conversion changes raw data")


# ---------------------------------------------------------------- Koyo20
ARMS = {
    "zero": {k: D.off() for k in ("origin", "ins", "dvl", "depth", "usbl", "cam1", "cam2", "cam3")},
    "arms": {"origin": D.off(), "ins": D.off(0.1, 0.1, 0.1), "dvl": D.off(0.5, 0.25, 0.125), "depth": D.off(-0.75, 0.5, -1.0), "usbl": D.off(3, 3, 3), "cam1": D.off(1.5, -0.5, 2.0), "cam2": D.off(-2.0, 1.25, 0.75), "cam3": D.off(5, 5, 5)},
}


def koyo_case(case, rec):
    from auv_nav.convert import koyo20rov_to_oplab

    start, hemi, heads, att, arms, files, odd, order = case
    rec.state(case)
    lat0, lon0 = HEMI[hemi]
    T0 = START[start]
    pos = []
    for k in range(6):
        pos.append({"t": T0 + (0, 4, 5, 9, 12, 20)[k], "depth": 80.0 + 1.5 * ((k * 2) % 5), "altitude": 3.0 + 0.5 * ((k * 3) % 5), "lat": lat0 + 1e-4 * ((k * 3) % 7 - 3), "lon": lon0 + 1.3e-4 * ((k * 2) % 5 - 2)})
    rot = []
    for k, h in enumerate(heads):
        rot.append({"t": T0 + (-1.5, 4.25, 8.0, 14.5, 17.0, 22.0)[k], "heading": h, "pitch": (1.0, -12.0, 5.0, 20.0, -3.0, 0.0)[k] * att, "roll": (-4.0, 8.0, 15.0, -1.0, 2.0, 7.0)[k] * att})
    lm = [(7 * k + 3, T0 + x) for k, x in enumerate((-2.0, -1.0, 0.0, 0.25, 4.0, 4.125, 4.5, 5.0, 7.75, 12.0, 14.5, 16.0, 16.75, 17.0, 19.999, 20.0, 20.5, 30.0))]
    xv = [(1234560 + k, T0 + x) for k, x in enumerate((-3.0, -1.25, 0.5, 2.0, 4.25, 8.0, 9.0, 11.0, 15.0, 16.5, 17.0, 19.0, 25.0))]
    kind, where = odd
    if kind == "norot":  # the attitude log ends before the ship log
        rot = rot[:where]

    def ship(recs):
        lines = []
        for r in recs:
            w = time.gmtime(r["t"])
            c = ["x%d" % i for i in range(40)]
            c[2], c[3] = "20%02d/%02d/%02d" % (w[0] % 100, w[1], w[2]), "%02d:%02d:%02d" % w[3:6]
            c[23], c[24], c[31], c[32] = repr(r.get("log_depth", r["depth"])), repr(r.get("log_altitude", r["altitude"])), repr(r["lat"]), repr(r["lon"])
            if r.get("short"):
                c[2] = "-"
            lines.append(",".join(c))
        return lines

    if kind in ("altitude", "depth"):
        pos[where]["log_" + kind] = 0.0
        pos[where][kind] = geom.lerp(pos[where]["t"], pos[where - 1]["t"], pos[where + 1]["t"], pos[where - 1][kind], pos[where + 1][kind])
    logged = [dict(r) for r in pos]
    if kind == "back":  # the clock of the log jumps back for one record
        logged.insert(where + 1, dict(pos[where], t=pos[where]["t"] - 86400, lat=lat0 + 0.01))
    if kind == "short":
        logged.insert(where, dict(pos[where], short=True, lat=lat0 + 0.01))
    with mc.scratch() as root:
        m = D.mission_yaml(lat=lat0 + 1e-4, lon=lon0 - 2e-4, cameras=3)
        raw, pro, _ = D.make_dive(root, None, mission=m, vehicle=ARMS[arms], name="dive")
        log = raw / "nav" / "ship_log"
        log.mkdir(parents=True)
        (raw / "nav" / "TCM").mkdir()
        # within a log the first record sets the clock, so a jump back shows from the second record on
        two, swap = (q + (kind == "back" and where + 1 == q) for q in (3, 4))
        parts = {"one": [("20190714.csv", logged)], "two": [("log_A.csv", logged[:two]), ("log_B.csv", logged[two:])], "swapped": [("log_F.csv", logged[:swap]), ("log_AX.csv", logged[swap:])]}[files]
        for n, part in parts:
            (log / n).write_text("\n".join(ship(part)) + "\n", encoding="shift_jis")
        (log / "log_FIX.csv").write_text("only,two\n")
        tcm = ["index,date(YYYYMMDD),time(hhmmss),time_ms(iiii),heading(degrees),pitch(degrees),roll(degrees)"]
        rows = []
        for k, r in enumerate(rot):
            w = time.gmtime(math.floor(r["t"]))
            rows.append("%d,%04d%02d%02d,%d,%d,%r,%r,%r" % ((k,) + w[:3] + (w[3] * 10000 + w[4] * 100 + w[5], round((r["t"] % 1) * 1000), r["heading"], r["pitch"], r["roll"])))
        if order == "mixed":
            rows = rows[::-1]
        (raw / "nav" / "TCM" / "TCM.csv").write_text("\n".join(tcm + rows) + "\n")
        for d, images in (("LM165", lm), ("Xviii", xv)):
            lines = []
            for i, x in images:
                w = time.gmtime(math.floor(x))
                lines.append("%d,%04d%02d%02d,%d,%d" % ((i,) + w[:3] + (w[3] * 10000 + w[4] * 100 + w[5], round((x % 1) * 1000))))
            if order == "mixed":
                lines = lines[1::2] + lines[::2]
            (raw / "image" / d).mkdir(parents=True)
            (raw / "image" / d / "FileTime.csv").write_text("\n".join(["index,date,time,ms"] + lines) + "\n")
        before = mc.snapshot(raw)
        args = argparse.Namespace(dive_path=str(raw), force=False)
        if quietly(koyo20rov_to_oplab, args):
            rec.fail("refused", "the conversion is refused")
            return
        rec.step()
        names = {p.name: p for p in pro.rglob("*.csv")}
        if sorted(names) != ["auv_dr_LM165_at_dvl.csv", "auv_dr_cam1.csv", "auv_dr_cam2.csv"]:
            rec.fail("files", "the conversion writes %s" % sorted(names))
            return
        rlat, rlon = lat0 + 1e-4, lon0 - 2e-4
        V = {k: [v["surge_m"], v["sway_m"], v["heave_m"]] for k, v in ARMS[arms].items()}
        for name, target, images, path in (
            ("LM165_at_dvl", "dvl", lm, lambda i: "image/cam3/%s/image%07d.tif" % (("%07d" % i)[1:4], i)),
            ("cam1", "cam1", xv, lambda i: "image/cam1/%07d.raw" % i),
            ("cam2", "cam2", xv, lambda i: "image/cam2/%07d.raw" % i),
        ):
            rows = read(names["auv_dr_%s.csv" % name])
            use = [(i, x) for i, x in images if pos[0]["t"] <= x <= pos[-1]["t"] and rot[0]["t"] <= x <= rot[-1]["t"]]
            if [r["relative_path"] for r in rows] != [path(i) for i, _ in use]:
                rec.fail("images", "%s lists %s, the images within the logs are %s" % (name, [r["relative_path"] for r in rows], [path(i) for i, _ in use]))
                return
            for r, (i, x) in zip(rows, use):
                a = [at(x, rot, "roll"), at(x, rot, "pitch"), at(x, rot, "heading", True)]
                R = geom.rot(*a)
                arm = geom.apply(R, [p - q for p, q in zip(V[target], V["dvl"])])
                n, e = metres(at(x, pos, "lat"), at(x, pos, "lon"), rlat, rlon)
                n, e = n + arm[0], e + arm[1]
                lat, lon = degrees(n, e, rlat, rlon)
                dep = at(x, pos, "depth") + geom.apply(R, [p - q for p, q in zip(V[target], V["depth"])])[2]
                want = [("northing [m]", n, 0.02, 0), ("easting [m]", e, 0.02, 0), ("depth [m]", dep, 1e-6, 0), ("altitude [m]", at(x, pos, "altitude") - arm[2], 1e-6, 0)]
                want += [("roll [deg]", a[0], 1e-6, 1), ("pitch [deg]", a[1], 1e-6, 1), ("heading [deg]", a[2], 1e-6, 1), ("timestamp [s]", x, 1e-3, 0)]
                want += [("latitude [deg]", lat, 4e-7, 0), ("longitude [deg]", lon, 6e-7, 0)]
                rec.step()
                if not judge(rec, "koyo", r, want, "%s image %.3f s after the start" % (name, x - T0)):
                    return
            rec.out((name, len(rows), rows[0]["northing [m]"]))
        frozen = mc.snapshot(pro)
        if not quietly(koyo20rov_to_oplab, args) or mc.snapshot(pro) != frozen:
            rec.fail("overwrite", "converting again without force is not refused or changes results")
        if order == "mixed":  # one existing result is enough to refuse
            for n in sorted(names):
                others = [p for k, p in names.items() if k != n]
                kept = {p: p.read_bytes() for p in others}
                for p in others:
                    p.unlink()
                if not quietly(koyo20rov_to_oplab, args) or any(p.exists() for p in others):
                    rec.fail("overwrite", "an existing %s does not stop the conversion" % n)
                for p, b in kept.items():
                    p.write_bytes(b)
        if quietly(koyo20rov_to_oplab, argparse.Namespace(dive_path=str(pro), force=True)) or mc.snapshot(pro) != frozen:
            rec.fail("again", "converting again with force (from the processed folder) gives other results")
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the conversion changes raw data")


def body():
    ck = mc.new_check("C25")
    D.stub_version()
    mc.silence_console()
    T = ck.thorough
    H = (350.0, 10.0, 180.0, 95.5)
    heads = list(itertools.product(H, repeat=4))
    none = ("", -1)
    odd = [none] + [(k, p) for k in ("altitude", "depth") for p in (1, 2)] + [("nofix", p) for p in range(4)]
    cases = [(0, 0, (10,), h, none, "given", "sorted", 1) for h in heads]
    cases += [(s, m, st, heads[27], o, r, d, 1) for s in range(3) for m in range(len(HEMI)) for st in ((1,), (1, 60, 2)) for o in odd for r in ("given", "first") for d in (("sorted", "reverse", "mixed") if T else ("mixed",))]
    cases += [(0, 4, (5, 1), h, o, "given", "reverse", -1) for h in (heads if T else heads[::17]) for o in odd]
    ck.explore("HyBIS", cases, hybis_case, note="all heading sequences x dates x hemispheres x missing values or fixes x reference x order of the images; images at and between all records")
    heads = list(itertools.product((350.0, 10.0, 180.0), repeat=6))
    odd = [none] + [(k, p) for k in ("altitude", "depth") for p in (1, 2, 4)] + [(k, p) for k in ("back", "short") for p in (1, 3, 4)] + [("norot", 5), ("norot", 4)]
    cases = [(0, 0, h, 1, "arms", "one", none, "sorted") for h in (heads if T else heads[::5])]
    cases += [(s, m, heads[100], a, v, f, o, d) for s in range(3) for m in range(len(HEMI)) for a in ((0, 1, -1) if T else (1,)) for v in ARMS for f in ("one", "two", "swapped") for o in (odd if T or s == 0 and m < 2 else odd[:1]) for d in ("sorted", "mixed")]
    ck.explore("Koyo20", cases, koyo_case, note="all heading sequences x dates x hemispheres x lever arms x files x missing values, clock jumps and empty records x order; images at, between and outside the records")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
