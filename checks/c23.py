#!/usr/bin/env python3
"""C23: signs, units and hemispheres of measurements are those of the raw record, uncertainties are never negative."""
import csv
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import rawfmt as R
import c09  # parse(); nothing runs on import

T0 = (2019, 7, 1, 1, 0, 0, 0)


def at(k, step):
    s = k * step
    return (2019, 7, 1, 1 + s // 3600, s // 60 % 60, s % 60, 0)


def bad_std(v):
    return v is None or not math.isfinite(v) or v < 0


def near(a, b, rel, ab=0.0):
    return a is not None and abs(a - b) <= ab + rel * abs(b)


def wrap(a):
    return (a + 180.0) % 360.0 - 180.0


# ------------------------------------------------------------------ positions
def pos_case(case, rec):
    fmt, (lat0, lon0), sf, so = case
    recs = []
    for dlat, dlon, depth in itertools.product((0.015, 0.0, -0.015), (0.015, 0.0, -0.015), (20.5, 1500.0, 0.0, -0.25)):
        k = len(recs)
        h0 = (350.0, 10.0, 90.0, 265.0)[k % 4]
        recs.append(R.rec(at(k, 10), lat=lat0 + dlat, lon=wrap(lon0 + dlon), depth=depth, slat=lat0 + dlat - 0.002 - 0.0012, slon=wrap(lon0 + dlon + 0.002 + 0.0012), slat1=lat0 + dlat - 0.002 + 0.0036, slon1=wrap(lon0 + dlon + 0.002 - 0.0036), before=1.0, after=3.0,
                          range=30.0 + k, head0=h0, head1=(h0 + (40.0 if k % 3 else -30.0)) % 360.0))
    sections, files = R.NAV[fmt][0](recs)
    for s in sections.values():
        s["std_factor"], s["std_offset"] = sf, so
    sections["origin"] = {"latitude": lat0, "longitude": lon0, "coordinate_reference_system": "wgs84", "date": "2017/07/14"}
    with mc.scratch() as root:
        items = [i for i in c09.parse(root, sections, files) if i["category"] == "usbl"]
    rec.step(len(items))
    items.sort(key=lambda i: i["epoch_timestamp"])
    if len(items) != len(recs):
        rec.fail("count", "%s near %s: %d positions from %d records" % (fmt, (lat0, lon0), len(items), len(recs)))
        return
    for r, it in zip(recs, items):
        d = {}
        for x in it["data_target"]:
            d.update(x)
        who = "%s, origin %s, record at %.6f %.6f, depth %s" % (fmt, (lat0, lon0), r["lat"], r["lon"], r["depth"])
        rec.state((fmt, lat0, lon0, r["lat"], r["lon"], r["depth"]))
        rec.out((fmt, round(d["northings"], 3), round(d["eastings"], 3)))
        cl = math.cos(math.radians(r["lat"]))
        if abs(d["latitude"] - r["lat"]) > 1e-6 or abs(wrap(d["longitude"] - r["lon"])) > 1e-6:
            rec.fail("position", "%s: reported at %.6f %.6f" % (who, d["latitude"], d["longitude"]))
            return
        if not near(d["northings"], (r["lat"] - lat0) * 111.1e3, 0.01, 1.0) or not near(d["eastings"], wrap(r["lon"] - lon0) * 111.3e3 * cl, 0.01, 1.0):
            rec.fail("metric", "%s: %.1f m north, %.1f m east of the origin" % (who, d["northings"], d["eastings"]))
        if abs(d["depth"] - r["depth"]) > 0.006:
            rec.fail("depth", "%s: reported at depth %s" % (who, d["depth"]))
        for k in ("latitude", "longitude", "northings", "eastings", "depth"):
            if bad_std(d[k + "_std"]):
                rec.fail("std", "%s: %s_std = %r" % (who, k, d[k + "_std"]))
                return
        if not near(d["latitude_std"], d["northings_std"] / 111.1e3, 0.02, 1e-9) or not near(d["longitude_std"], d["eastings_std"] / 111.3e3 / cl, 0.02, 1e-9):
            rec.fail("std-degrees", "%s: uncertainty %.3f m north, %.3f m east is given as %.3e and %.3e degrees" % (who, d["northings_std"], d["eastings_std"], d["latitude_std"], d["longitude_std"]))
        if fmt == "gaps":
            L = [math.hypot(math.hypot(0.002 * 111.1e3, 0.002 * 111.3e3 * cl), z) for z in (0.0, r["depth"])]
        else:
            L = [r["range"] if fmt == "usbl_dump" else abs(r["depth"])]
        for k in ("northings_std", "eastings_std", "depth_std"):
            if not any(near(d[k], sf * x + so, 0.02 if fmt == "gaps" else 1e-6, 1e-4) for x in L):
                rec.fail("std-model", "%s: %s = %r, but factor %s, offset %s and distance %.2f give %r" % (who, k, d[k], sf, so, L[-1], sf * L[-1] + so))
                return
        if fmt == "usbl_dump" and not near(d["distance_to_ship"], r["range"], 0, 1e-6):
            rec.fail("range", "%s: range %s reported as %s" % (who, r["range"], d["distance_to_ship"]))
        if fmt == "gaps":
            s = {}
            for x in it["data_ship"]:
                s.update(x)
            f = r["before"] / (r["before"] + r["after"])  # the ship sails and turns steadily between its two records
            sla, slo = r["slat"] + f * (r["slat1"] - r["slat"]), r["slon"] + f * wrap(r["slon1"] - r["slon"])
            if abs(s["latitude"] - sla) > 1e-6 or abs(wrap(s["longitude"] - slo)) > 1e-6:
                rec.fail("ship", "%s: ship at %.6f %.6f reported at %.6f %.6f" % (who, sla, wrap(slo), s["latitude"], s["longitude"]))
            mid = r["head0"] + wrap(r["head1"] - r["head0"]) * f
            if abs(wrap(s["heading"] - mid)) > 0.02 or not 0 <= s["heading"] <= 360:
                rec.fail("ship-heading", "%s: ship turning from %.1f to %.1f is reported to head %.2f a quarter of the way" % (who, r["head0"], r["head1"], s["heading"]))
            hor = math.hypot(0.002 * 111.1e3, 0.002 * 111.3e3 * cl)
            if not near(d["distance_to_ship"], math.hypot(hor, 0), 0.02, 0.5) and not near(d["distance_to_ship"], math.hypot(hor, r["depth"]), 0.02, 0.5):
                rec.fail("ship-range", "%s: %.1f m from the ship reported as %.1f m" % (who, math.hypot(hor, r["depth"]), d["distance_to_ship"]))


# ------------------------------------------------------------------ attitude, velocity, depth, altitude
ROLL = (0.0, 1.5, -1.5, 12.0, -12.0)
PITCH = (0.0, 2.5, -2.5, 8.0, -8.0)
YAW = (0.0, 40.0, 180.0, 359.9)
VEL = list(itertools.product((0.5, 0.0, -0.5), (0.25, 0.0, -0.25), (0.125, 0.0, -0.125)))
DEP = (20.5, 0.0, -0.25, 1500.0)
ALT = (5.25, 80.0, 0.5)


def body_case(case, rec):
    fmt, dyaw, iyaw, sf, so, part = case
    recs = []
    dep = [abs(d) + 0.5 for d in DEP] if fmt == "ae2000" else DEP  # AE2000 logs are of the vehicle under water
    for k, (r, p, y) in enumerate(itertools.product(ROLL, PITCH, YAW)):
        v = VEL[(k * 7 + part) % len(VEL)]
        recs.append(R.rec(at(k, 2), roll=r, pitch=p, yaw=y, vx=v[0], vy=v[1], vz=v[2], depth=dep[(k + part) % len(dep)] + 0.01 * k, alt=ALT[k % len(ALT)]))
    sections, files = R.NAV[fmt][0](recs)
    model = {c: (sf * (1 + 0.25 * k), so * (1 + 0.5 * k)) for k, c in enumerate(("velocity", "orientation", "depth", "altitude", "usbl"))}
    for c, s in sections.items():  # every sensor has its own uncertainty
        s["std_factor"], s["std_offset"] = model.get(c, (sf, so))
    veh = D.vehicle_yaml()
    veh["dvl"] = dict(veh["dvl"], yaw_deg=dyaw)
    veh["ins"] = dict(veh["ins"], yaw_deg=iyaw)
    items = parse(sections, files, veh)
    rec.step(len(items))
    by = {}
    for i in items:
        by.setdefault(i["category"], []).append(i)
    for cat in sections:
        if cat == "usbl":
            continue
        lst = sorted(by.get(cat, []), key=lambda i: i["epoch_timestamp"])
        if len(lst) != len(recs):
            rec.fail("count:" + cat, "%s: %d %s measurements from %d records" % (fmt, len(lst), cat, len(recs)))
            continue
        for r, it in zip(recs, lst):
            d = {}
            for x in it["data"]:
                d.update(x)
            rec.state((fmt, cat, dyaw, iyaw, sorted((k, v) for k, v in d.items() if isinstance(v, float)).__repr__()))
            who = "%s (DVL mounted at %s deg, INS at %s deg)" % (fmt, dyaw, iyaw)
            stds = [k for k in d if k.endswith("_std")]
            for k in stds:
                if bad_std(d[k]):
                    rec.fail("std:" + cat, "%s: %s of %s has the uncertainty %r" % (who, k[:-4], d.get(k[:-4]), d[k]))
                    return
            f, o = model.get(cat, (sf, so))
            if cat == "velocity" and dyaw:
                exp = {}
            elif cat == "velocity" or fmt == "ae2000":
                exp = {k: f * abs(d[k[:-4]] - (iyaw if k == "heading_std" else 0.0)) + o for k in stds}
                if "heading_std" in exp:
                    exp["heading_std"] = f * r["yaw"] + o
            elif cat == "orientation":
                exp = {k: o for k in stds} if fmt != "phins" else {}
            else:
                exp = {k: f * abs(d[k[:-4]]) for k in stds}
            if cat == "orientation" and fmt == "phins":  # STDHRP: heading, roll, pitch
                exp = {"heading_std": 0.05, "roll_std": 0.01, "pitch_std": 0.02} if not dyaw else {"heading_std": 0.05}
                if not near(math.hypot(d["roll_std"], d["pitch_std"]), math.hypot(0.01, 0.02), 1e-6, 1e-9):
                    rec.fail("std-tilt", "%s: uncertainty of roll 0.01 and pitch 0.02 reported as %r and %r" % (who, d["roll_std"], d["pitch_std"]))
                    return
            for k, w in exp.items():
                if not near(d[k], w, 1e-6, 1e-9):
                    rec.fail("std-model:" + cat, "%s: %s of %s has the uncertainty %r, but factor %s and offset %s of the %s sensor give %r" % (who, k[:-4], d.get(k[:-4]), d[k], f, o, cat, w))
                    return
            if cat == "velocity":
                c, s = math.cos(math.radians(dyaw)), math.sin(math.radians(dyaw))
                if fmt == "koyo21rov":
                    w = (r["vx"], 0.0, r["vz"])
                else:
                    w = (c * r["vx"] - s * r["vy"], s * r["vx"] + c * r["vy"], r["vz"])
                    if fmt == "phins":
                        w = (w[0], -w[1], -w[2])
                g = (d["x_velocity"], d["y_velocity"], d["z_velocity"])
                if max(abs(a - b) for a, b in zip(g, w)) > 1e-6:
                    rec.fail("velocity", "%s: velocity record %s gives %s, expected %s" % (who, (r["vx"], r["vy"], r["vz"]), g, w))
                    return
            elif cat == "orientation":
                y = r["yaw"] + (iyaw if fmt == "ae2000" else 0.0)
                if abs(wrap(d["heading"] - y)) > 1e-6 or not 0 <= d["heading"] <= 360:
                    rec.fail("heading", "%s: heading %s reported as %s, expected %s" % (who, r["yaw"], d["heading"], y % 360))
                    return
                sg = -1.0 if fmt == "phins" else 1.0
                if fmt in ("phins", "eiva_navipac") and dyaw:
                    if not near(math.hypot(d["roll"], d["pitch"]), math.hypot(r["roll"], r["pitch"]), 1e-6, 1e-6):
                        rec.fail("tilt", "%s: roll %s pitch %s reported as %s %s" % (who, r["roll"], r["pitch"], d["roll"], d["pitch"]))
                elif abs(d["roll"] - sg * r["roll"]) > 1e-6 or abs(d["pitch"] - sg * r["pitch"]) > 1e-6:
                    rec.fail("attitude", "%s: roll %s pitch %s reported as %s %s" % (who, r["roll"], r["pitch"], d["roll"], d["pitch"]))
                    return
            elif cat == "depth":
                w = r["depth"] + (0.001 * recs.index(r) if fmt == "ae2000" else 0.0)
                if abs(d["depth"] - w) > 6e-4:
                    rec.fail("depth", "%s: depth %s reported as %s" % (who, w, d["depth"]))
                    return
            elif cat == "altitude":
                if abs(d["altitude"] - r["alt"]) > 6e-4:
                    rec.fail("altitude", "%s: altitude %s reported as %s" % (who, r["alt"], d["altitude"]))
                    return
        rec.out((fmt, cat, mc.digest([i["data"] for i in lst]).hex()))


def parse(sections, files, veh):
    from auv_nav.parse import parse_single

    m = c09.base_mission()
    m.update(sections)
    with mc.scratch() as root:
        raw, pro, cfg = D.make_dive(root, None, veh, m, None, "20170714_024000_dive", camera={"cameras": []})
        for k, v in files.items():
            p = raw / k
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(v)
        parse_single(str(raw), True)
        return D.nav_json(pro)[1:]


# ------------------------------------------------------------------ uncertainty models
def model_case(case, rec):
    """sensor and linear uncertainty model of every measurement"""
    from auv_nav import sensors as S

    v, f, o, model, lat, lon, dist = case
    std = {"model": model, "factor": f, "offset": o}
    for a, q in (("x", 1.0), ("y", 2.0), ("z", 3.0)):
        std["factor_" + a], std["offset_" + a] = f * q, o * q
    rec.state(case)
    plain = {"model": model, "factor": f, "offset": o}
    it = D.j_vel(10.0, v, -v, 2 * v, std=0.05)

    def want(val, raw, q=1.0):
        return raw if model == "sensor" else o * q + f * q * abs(val)

    def cmp(name, got, w):
        rec.step()
        if bad_std(got) or abs(got - w) > 1e-9 + 1e-9 * w:
            rec.fail("model:" + name, "%s, model %s, offset %s, factor %s: uncertainty %r, expected %s" % (case[0], model, o, f, got, w), name)

    for s, q in ((std, (1.0, 2.0, 3.0)), (plain, (1.0, 1.0, 1.0))):
        b = S.BodyVelocity()
        b.from_json(it, s)
        for n, val, qq in (("x", v, q[0]), ("y", -v, q[1]), ("z", 2 * v, q[2])):
            cmp("velocity", getattr(b, n + "_velocity_std"), want(val, 0.05, qq))
    b = S.Orientation()
    b.from_json(D.j_ori(10.0, v, -v, abs(v), std=0.05), plain)
    for n, val in (("roll", v), ("pitch", -v), ("yaw", abs(v))):
        cmp(n, getattr(b, n + "_std"), want(val, 0.05))
    b = S.Depth()
    b.from_json(D.j_depth(10.0, v, std=0.05), plain)
    cmp("depth", b.depth_std, want(v, 0.05))
    b = S.Usbl()
    b.from_json(D.j_usbl(10.0, 5.0, 6.0, v, lat=lat, lon=lon, std=1.5, dist=dist), plain)
    if model == "linear":
        w = o + f * max(dist, 0.0)
        cmp("usbl", b.northings_std, w)
        cmp("usbl", b.eastings_std, w)
        e = o + f * math.hypot(dist, v)
        cl = math.cos(math.radians(lat))
        rec.step()
        if bad_std(b.latitude_std) or bad_std(b.longitude_std) or not near(b.latitude_std, e / 111.1e3, 0.02, 1e-9) or not near(b.longitude_std, e / 111.3e3 / cl, 0.02, 1e-9):
            rec.fail("model:usbl-degrees", "position %s %s: uncertainty of %.3f m is %r %r degrees" % (lat, lon, e, b.latitude_std, b.longitude_std))


# ------------------------------------------------------------------ published uncertainties
def process_case(case, rec):
    roll, pitch, vx, vy, depth, off, ekf = case
    from auv_nav.process import process

    n, t0 = 8, 1500000000.0
    items = [D.j_origin()]
    for k in range(n):
        t = t0 + k
        items += [D.j_vel(t, vx, vy, -vx / 4), D.j_ori(t, roll, pitch, 355.0 + k if k < 5 else k - 5.0), D.j_depth(t + 0.1, depth + 0.1 * k), D.j_alt(t + 0.2, 5.0), D.j_usbl(t + 0.3, 1.0 * k, -1.0 * k, depth)]
        items.append(D.j_img(t + 0.5, "a%d.png" % k, "b%d.png" % k))
    items = items[:1] + sorted(items[1:], key=lambda i: i["epoch_timestamp"])
    cfg = D.nav_config(ekf=ekf)
    for k in cfg["std"].values():
        for q in k:
            if q.startswith("factor"):
                k[q] = 0.05
            elif q.startswith("offset"):
                k[q] = off
    if ekf:
        cfg["std"]["position_xy"]["offset"] = max(off, 0.5)
    with mc.scratch() as root:
        raw, pro, _ = D.make_dive(root, items, mission=D.mission_yaml(cameras=2), config=cfg)
        process(str(pro), False, "", "")
        rec.step()
        files = sorted(pro.rglob("*.csv"))
        for f in files:
            with f.open() as h:
                rows = list(csv.DictReader(h))
            for row in rows:
                for k, v in row.items():
                    if k and "_std" in k and v not in ("None", "", None):
                        if bad_std(float(v)):
                            rec.fail("published", "%s: %s = %s (roll %s, pitch %s, velocity %s %s, depth %s)" % (f.name, k.strip(), v, roll, pitch, vx, vy, depth))
                            return
            rec.state((case, f.name))
        rec.out((case, len(files)))
        if not files:
            rec.fail("none", "no csv was written")


def body():
    ck = mc.new_check("C23", assumptions=["sensor mountings differ from the vehicle's axes by a rotation about the vertical only", "PHINS and EIVA roll and pitch are claimed in full for a DVL mounted along the vehicle only"])
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    import auv_nav.parse  # noqa: F401
    import auv_nav.process  # noqa: F401

    T = ck.thorough
    lats = (50.0, -33.25, 0.01, -0.01) + ((72.5, -72.5) if T else ())
    lons = (-1.0, 151.75, 0.01, -0.01, -71.5, 179.99995, -179.99995) + ((-179.5, 179.5, 100.0, -100.0) if T else ())
    pos = [(f, (a, b), sf, so) for f in ("usbl_dump", "gaps", "NOC_nmea", "eiva_navipac", "koyo21rov") for a in lats for b in lons for sf, so in (((0.01, 0.5), (0.01, 0.0), (0.0, 2.0)) if T else ((0.01, 0.0), (0.02, 0.5)))]
    ck.explore("positions in every hemisphere", pos, pos_case, note="36 records per origin: every direction and depth")
    yaws = (0.0, -45.0, 90.0, 180.0, 270.0) if T else (0.0, -45.0, 90.0, 180.0)
    bod = [(f, d, i, 0.01, so, p) for f in ("phins", "eiva_navipac", "ntnu_dvl", "koyo21rov", "ae2000") for d in yaws for i in ((0.0, 30.0, -30.0) if f == "ae2000" else (0.0,)) for so in (0.0, 0.5) for p in (range(8) if T else (0, 3))]
    ck.explore("attitude, velocity, depth and altitude", bod, body_case, note="100 attitudes per case, velocities and depths of every sign")
    mod = [(v, f, o, m, a, b, d) for v in (0.0, 0.5, -0.5, 20.0, -20.0) for f in (0.0, 0.01, 0.2) for o in (0.0, 0.1) for m in ("sensor", "linear") for a in (50.0, -33.25, 0.001, -0.001) for b in (-1.0, 151.75, 0.001) for d in (50.0, 0.0, -1.0)]
    ck.explore("uncertainty models", mod, model_case)
    pro = [(r, p, vx, vy, d, o, e) for r in (10.0, -10.0) for p in (10.0, -10.0) for vx in (0.5, -0.5) for vy in (0.3, -0.3) for d in (20.0, -0.9) for o in ((0.0, 0.05) if T else (0.0,)) for e in ((False, True) if T else (False,))]
    pro += [(-10.0, -10.0, -0.5, -0.3, 20.0, 0.05, True), (10.0, 10.0, 0.5, 0.3, -0.9, 0.05, True)]
    ck.explore("published uncertainties", pro, process_case, note="every sign of roll, pitch, velocity and depth")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
