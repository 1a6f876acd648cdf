"""C06: dead-reckoned poses are the integral of the measured motion."""
import bisect
import csv
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import geom as G

T = D.T0

VEL = {"f": (1.0, 0.0, 0.0), "d": (0.4, -0.6, 0.2), "b": (-0.3, 0.5, -0.1)}
ATT = {"n": (0.0, 0.0, 0.0), "w": (3.0, -8.0, 350.0), "e": (-12.0, 6.0, 14.0), "s": (20.0, 15.0, 200.0), "l": (0.0, 0.0, 90.0)}

ZERO = D.off()
MOUNTS = {
    "dvl0": D.vehicle_yaml(dvl=ZERO),
    "dvl": D.vehicle_yaml(),
    "origin": D.vehicle_yaml(origin=D.off(0.7, -0.4, 0.3), dvl=ZERO),
    "all": D.vehicle_yaml(origin=D.off(0.7, -0.4, 0.3), dvl=D.off(-0.6, 0.35, 0.9)),
}


def series(ts, vals):
    return list(zip(ts, vals))


def at(s, t):
    """linear value of a series of (t, scalar) inside its range, else None"""
    ts = [x[0] for x in s]
    if len(s) < 2 or t < ts[0] or t > ts[-1]:
        return None
    j = min(max(1, bisect.bisect_left(ts, t)), len(s) - 1)
    return G.lerp(t, ts[j - 1], ts[j], s[j - 1][1], s[j][1])


def reference(vel, ori, dep, alt, veh):
    """Poses of the DVL and of the centre, from the definitions."""
    off = lambda n: [veh[n][k] for k in ("surge_m", "sway_m", "heave_m")]
    dvl, cen, dsn = off("dvl"), off("origin"), off("depth")
    poses = []
    for i, (t, (r, p, y)) in enumerate(ori):
        if t < vel[0][0] or t > vel[-1][0]:
            continue
        v = [at([(a, b[k]) for a, b in vel], t) for k in range(3)]
        lo, hi = max(0, i - 1), min(len(ori) - 1, i + 1)
        dt = ori[hi][0] - ori[lo][0]
        a, b = ori[lo][1], ori[hi][1]
        w = [math.radians(x / dt) for x in (b[0] - a[0], b[1] - a[1], (b[2] - a[2] + 180.0) % 360.0 - 180.0)]
        lever = [w[1] * dvl[2] - w[2] * dvl[1], w[2] * dvl[0] - w[0] * dvl[2], w[0] * dvl[1] - w[1] * dvl[0]]
        v = [a + b for a, b in zip(v, lever)]
        R = G.rot(r, p, y)
        vn = G.apply(R, v)
        o = G.apply(R, [c - d for c, d in zip(cen, dvl)])
        oz = G.apply(R, [c - d for c, d in zip(cen, dsn)])[2]
        if poses:
            q = poses[-1]
            n = q["n"] + (t - q["t"]) * (q["vn"][0] + vn[0]) / 2
            e = q["e"] + (t - q["t"]) * (q["vn"][1] + vn[1]) / 2
        else:
            n = e = 0.0
        z, h = at(dep, t), at(alt, t)
        poses.append(
            dict(t=t, n=n, e=e, vn=vn, v=v, att=(r, p, y), z=z, h=h, cn=n + o[0], ce=e + o[1], cz=None if z is None else z + oz, ch=None if h is None else h - o[2])
        )
    return poses


def camera(poses, t, offset, veh):
    """Pose of a sensor at t from the centre poses (None outside them)."""
    ts = [p["t"] for p in poses]
    if len(ts) < 2 or t < ts[0] or t > ts[-1]:
        return None
    j = min(max(1, bisect.bisect_left(ts, t)), len(ts) - 1)
    a, b = poses[j - 1], poses[j]
    L = lambda x, y: G.lerp(t, a["t"], b["t"], x, y)
    att = (L(a["att"][0], b["att"][0]), L(a["att"][1], b["att"][1]), G.yaw_lerp(t, a["t"], b["t"], a["att"][2], b["att"][2]))
    cen = [veh["origin"][k] for k in ("surge_m", "sway_m", "heave_m")]
    o = G.apply(G.rot(*att), [s - c for s, c in zip(offset, cen)])
    z, h = L(a["cz"], b["cz"]), L(a["ch"], b["ch"])
    return dict(
        t=t, att=att, n=L(a["cn"], b["cn"]) + o[0], e=L(a["ce"], b["ce"]) + o[1],
        z=None if z is None else z + o[2], h=None if h is None else h - o[2],
        v=[L(x, y) for x, y in zip(a["v"], b["v"])],
    )


def read(p):
    if not p.is_file():
        return None
    with open(p, newline="") as f:
        rows = list(csv.reader(f))
    head = [h.strip() for h in rows[0]]
    return [dict(zip(head, r)) for r in rows[1:]]


COL = dict(n="northing [m]", e="easting [m]", z="depth [m]", h="altitude [m]", t="timestamp [s]")


def fl(r, name):
    if name == "timestamp [s]" and name not in r:
        name = "timestamp"
    try:
        return float(r[name])
    except (KeyError, ValueError):
        raise ValueError("column %r of %r" % (name, r))


def run(items, veh, mission, config, start="", finish="", raw_files=None):
    from auv_nav.process import process

    with mc.scratch() as d:
        raw, pro, conf = D.make_dive(d, items, mission=mission, vehicle=veh, config=config)
        for k, v in (raw_files or {}).items():
            (raw / k).parent.mkdir(parents=True, exist_ok=True)
            (raw / k).write_text(v)
        process(str(pro), False, start, finish)
        ren = sorted(p for p in pro.iterdir() if p.name.startswith("json_renav"))
        if len(ren) != 1:
            return None, len(ren)
        out = {}
        for p in ren[0].rglob("*.csv"):
            out[p.relative_to(ren[0] / "csv").as_posix()] = read(p)
        return out, ren[0].name


def judge_rows(rec, what, rows, want, shift, origin, tol=1e-6):
    from geographiclib.geodesic import Geodesic

    for r, w in zip(rows, want):
        bad = []
        n, e = fl(r, COL["n"]), fl(r, COL["e"])
        if not mc.close(n, w["n"] + shift[0], 1e-9, tol) or not mc.close(e, w["e"] + shift[1], 1e-9, tol):
            bad.append("position (%r, %r), expected (%r, %r)" % (n, e, w["n"] + shift[0], w["e"] + shift[1]))
        for key, c in (("z", "depth [m]"), ("h", "altitude [m]")):
            if w[key] is not None and not mc.close(fl(r, c), w[key], 1e-9, tol):
                bad.append("%s %s, expected %r" % (c, r[c], w[key]))
        for key, c in zip(w["att"][:2], ("roll [deg]", "pitch [deg]")):
            if not mc.close(fl(r, c), key, 1e-9, tol):
                bad.append("%s %s, expected %r" % (c, r[c], key))
        if not mc.angle_close(fl(r, "heading [deg]"), w["att"][2], 1e-5):
            bad.append("heading %s, expected %r" % (r["heading [deg]"], w["att"][2]))
        for v, c in zip(w["v"], ("x_velocity [m/s]", "y_velocity [m/s]", "z_velocity [m/s]")):
            if c in r and not mc.close(fl(r, c), v, 1e-9, tol):
                bad.append("%s %s, expected %r" % (c, r[c], v))
        lat, lon = fl(r, "latitude [deg]"), fl(r, "longitude [deg]")
        g = Geodesic.WGS84.Inverse(origin[0], origin[1], lat, lon)
        a = math.radians(g["azi1"])
        gn, ge = g["s12"] * math.cos(a), g["s12"] * math.sin(a)
        if abs(gn - n) > 1e-4 or abs(ge - e) > 1e-4:
            bad.append("latitude/longitude are %.4f m north, %.4f m east of the origin but the pose is %.4f, %.4f" % (gn, ge, n, e))
        if bad:
            rec.fail(what, "%s at t=%+.3f: %s" % (what, w["t"] - T, "; ".join(bad)))
            return


def judge(rec, out, vel, ori, dep, alt, imgs, veh, origin, ncam, usbl=(), biocam=False, strict_first=False):
    """Compare every dead-reckoning csv with the reference."""
    ref = reference(vel, ori, dep, alt, veh)
    cen = out.get("dead_reckoning/auv_dr_centre.csv")
    dvl = out.get("dead_reckoning/auv_dr_dvl.csv")
    if len(ref) < 3:
        return
    if cen is None or dvl is None:
        rec.fail("missing-output", "no dead-reckoning csv, files: %s" % sorted(out))
        return
    times = [fl(r, COL["t"]) for r in cen]
    # the very first pose may be withheld
    if len(times) == len(ref) - 1 and not strict_first:
        ref = ref[1:]
    tt = lambda a, b: len(a) == len(b) and all(abs(x - y) < 2e-6 for x, y in zip(a, b))
    if not tt(times, [p["t"] for p in ref]):
        rec.fail("pose-times", "centre poses at %s, expected %s" % ([round(t - T, 3) for t in times], [round(p["t"] - T, 3) for p in ref]))
        return
    if not tt([fl(r, COL["t"]) for r in dvl], times):
        rec.fail("pose-times", "DVL poses at other times than the centre poses")
        return
    if usbl:
        # one constant offset, the same for every pose of every output
        shift = (fl(cen[0], COL["n"]) - ref[0]["cn"], fl(cen[0], COL["e"]) - ref[0]["ce"])
    else:
        shift = (0.0, 0.0)
    judge_rows(rec, "dvl pose", dvl, ref, shift, origin)
    judge_rows(rec, "centre pose", cen, [dict(p, n=p["cn"], e=p["ce"], z=p["cz"], h=p["ch"]) for p in ref], shift, origin)
    off = lambda n: [veh[n][k] for k in ("surge_m", "sway_m", "heave_m")]
    for cam in range(ncam):
        name = "cam%d" % (cam + 1)
        mine = [(t, f) for (t, f, c) in imgs if c == cam + 1]
        want = [(camera(ref, t, off(name), veh), f) for t, f in mine]
        want = [(w, f) for w, f in want if w is not None]
        rows = out.get("dead_reckoning/auv_dr_%s%s.csv" % (name, "_laser" if cam == 2 else ""))
        if len(mine) < 2:
            continue
        if rows is None:
            if len(want) > 1:
                rec.fail("missing-output", "no poses for %s, expected %d" % (name, len(want)))
            continue
        if len(rows) != len(want) or [os.path.basename(r["relative_path"]) for r in rows] != [os.path.basename(f) for _, f in want]:
            rec.fail("camera-rows", "%s: poses for %s, expected %s" % (name, [r["relative_path"] for r in rows], [f for _, f in want]))
            continue
        judge_rows(rec, "camera pose", rows, [w for w, _ in want], shift, origin)
        rec.count("camera_poses", len(rows))
    rec.count("poses", len(ref))


def build(vel, ori, dep, alt, imgs, usbl=(), lat=50.0, lon=-1.0, ivel=()):
    it = [D.j_vel(t, *v) for t, v in vel] + [D.j_ori(t, *a) for t, a in ori] + [D.j_depth(t, z) for t, z in dep] + [D.j_alt(t, h) for t, h in alt]
    it += [D.j_usbl(t, n, e, z, lat=lat, lon=lon) for t, n, e, z in usbl]
    it += [D.j_ivel(t, 1.0, 0.5, 0.1) for t in ivel]
    ones = {f: t for t, f, c in imgs if c == 1}
    for t, f, c in imgs:
        if c == 1:
            two = [(t2, f2) for t2, f2, c2 in imgs if c2 == 2 and os.path.basename(f2) == os.path.basename(f)]
            it.append(D.j_img(t, f, two[0][1] if two else None, two[0][0] - t if two else 0.0))
        elif c == 3:
            it.append(D.j_laser(t, f))
    it.sort(key=lambda d: d["epoch_timestamp"])
    return [D.j_origin(lat, lon)] + it


def images(ts, ncam):
    out = []
    for k, t in enumerate(ts):
        for c in range(1, ncam + 1):
            out.append((t + (0.0, (0.02, -0.03)[k % 2], 0.05)[c - 1], "%s/%07d.png" % ("abc"[c - 1], k), c))
    return out


DEP = series([T - 1.7 + 0.9 * k for k in range(12)], [20.0 + 1.5 * math.sin(1.3 * k) for k in range(12)])
ALT = series([T - 1.4 + 0.7 * k for k in range(14)], [6.0 + math.cos(1.1 * k) for k in range(14)])
IMG = [T - 0.6, T + 0.1, T + 0.85, T + 1.0, T + 1.7, T + 2.2, T + 3.0, T + 3.6, T + 5.5]


# ------------------------------------------------------------------ cases
def motion_case(c, rec):
    vs, att, mount, phase, (lat, lon), ncam = c
    vel = series([T + phase + k for k in range(len(vs))], [VEL[x] for x in vs])
    ori = series([T + 0.8 * k for k in range(len(att))], [ATT[x] for x in att])
    veh = MOUNTS[mount]
    imgs = images(IMG, ncam)
    items = build(vel, ori, DEP, ALT, imgs, lat=lat, lon=lon)
    out, _ = run(items, veh, D.mission_yaml(lat=lat, lon=lon, cameras=ncam), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    judge(rec, out, vel, ori, DEP, ALT, imgs, veh, (lat, lon), ncam)


def phase_case(c, rec):
    """Every relative phase of the depth, altitude and image series, and truncated sensor series."""
    dp, ap, nd, na, vp = c
    vel = series([T + vp + 0.9 * k for k in range(5)], [VEL[x] for x in "fdbfd"])
    ori = series([T + 0.6 * k for k in range(7)], [ATT[x] for x in "nwesnwe"])
    dep = series([T + dp + 0.9 * k for k in range(nd)], [20.0 + 1.5 * math.sin(1.3 * k) for k in range(nd)])
    alt = series([T + ap + 0.7 * k for k in range(na)], [6.0 + math.cos(1.1 * k) for k in range(na)])
    veh = MOUNTS["dvl0"]
    imgs = images(IMG, 2)
    items = build(vel, ori, dep, alt, imgs)
    out, _ = run(items, veh, D.mission_yaml(cameras=2), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    judge(rec, out, vel, ori, dep, alt, imgs, veh, (50.0, -1.0), 2)


def image_case(c, rec):
    """Every subset of image times, before / at / between / after the navigation samples."""
    ts = [[T - 0.6, T, T + 0.25, T + 0.8, T + 1.9, T + 3.2, T + 3.9][k] for k in c]
    vel = series([T - 0.4 + k for k in range(5)], [VEL[x] for x in "fdbfd"])
    ori = series([T + 0.8 * k for k in range(5)], [ATT[x] for x in "nwesn"])
    veh = MOUNTS["origin"]
    imgs = images(ts, 3)
    items = build(vel, ori, DEP, ALT, imgs)
    out, _ = run(items, veh, D.mission_yaml(cameras=3), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    judge(rec, out, vel, ori, DEP, ALT, imgs, veh, (50.0, -1.0), 3)


def usbl_case(c, rec):
    """With position fixes every pose of every output is moved by one and the same offset."""
    n0, e0, (lat, lon), mount, inert = c
    vel = series([T - 0.4 + k for k in range(6)], [VEL[x] for x in "fdbfdf"])
    ori = series([T + 0.8 * k for k in range(6)], [ATT["w"]] * 6 if mount == "dvl" else [ATT[x] for x in "nwesnw"])
    veh = MOUNTS[mount]
    imgs = images(IMG, 2)
    usbl = [(T + 0.3 + k, n0 + k, e0 - k, 20.0) for k in range(4)]
    items = build(vel, ori, DEP, ALT, imgs, usbl=usbl, lat=lat, lon=lon, ivel=[T + 0.2 + k for k in range(4)] if inert else ())
    out, _ = run(items, veh, D.mission_yaml(lat=lat, lon=lon, cameras=2), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    judge(rec, out, vel, ori, DEP, ALT, imgs, veh, (lat, lon), 2, usbl=usbl)


def stamp(t):
    import time

    return time.strftime("%Y%m%d%H%M%S", time.gmtime(t))


def window_case(c, rec):
    """Processing a time window uses exactly the measurements inside it."""
    a, b = c
    vel = series([T - 0.4 + k for k in range(9)], [VEL[x] for x in "fdbfdfdbf"])
    ori = series([T + 0.5 * k for k in range(16)], [ATT["nwes"[k % 4]] for k in range(16)])
    dep = series([T - 1.7 + 0.9 * k for k in range(14)], [20.0 + 1.5 * math.sin(1.3 * k) for k in range(14)])
    alt = series([T - 1.4 + 0.7 * k for k in range(18)], [6.0 + math.cos(1.1 * k) for k in range(18)])
    imgs = images([T + 0.35 * k for k in range(20)], 2)
    veh = MOUNTS["dvl0"]
    items = build(vel, ori, dep, alt, imgs)
    lo = T + a if a is not None else -1e99
    hi = T + b if b is not None else 1e99
    cut = lambda s: [x for x in s if lo <= x[0] <= hi]
    if len(cut(vel)) < 2 or not reference(cut(vel), cut(ori), cut(dep), cut(alt), veh):
        return  # nothing to dead reckon
    out, name = run(items, veh, D.mission_yaml(cameras=2), D.nav_config(), "" if a is None else stamp(T + a), "" if b is None else stamp(T + b))
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    # an image pair is selected by the time of its first camera
    keep = {os.path.basename(f) for t, f, c_ in imgs if c_ == 1 and lo <= t <= hi}
    judge(rec, out, cut(vel), cut(ori), cut(dep), cut(alt), [i for i in imgs if os.path.basename(i[1]) in keep], veh, (50.0, -1.0), 2)


def clock_case(c, rec):
    """A velocity holds at its DVL time; one whose DVL clock disagrees by a second or more is not used."""
    lags = c
    vel = series([T - 0.4 + k for k in range(5)], [VEL[x] for x in "fdbfd"])
    ori = series([T + 0.8 * k for k in range(5)], [ATT[x] for x in "nwesn"])
    imgs = images(IMG, 1)
    items = build(vel, ori, DEP, ALT, imgs)
    k = 0
    for it in items:
        if it["category"] == "velocity":
            it["epoch_timestamp_dvl"] = it["epoch_timestamp"] + lags[k]
            k += 1
    kept = [(v[0] + l, v[1]) for v, l in zip(vel, lags) if abs(l) < 1.0]
    veh = MOUNTS["dvl0"]
    if len(kept) < 2 or len(reference(kept, ori, DEP, ALT, veh)) < 2:
        return  # nothing to dead reckon
    out, _ = run(items, veh, D.mission_yaml(cameras=1), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    judge(rec, out, kept, ori, DEP, ALT, imgs, veh, (50.0, -1.0), 1)


def laser_case(c, rec):
    """BioCam laser images take the pose of the camera that records the laser; other rigs use camera 3."""
    recorder, ts = c
    ts = [[T - 0.6, T + 0.1, T + 0.8, T + 1.3, T + 2.9][k] for k in ts]
    vel = series([T - 0.4 + k for k in range(5)], [VEL[x] for x in "fdbfd"])
    ori = series([T + 0.8 * k for k in range(5)], [ATT[x] for x in "nwesn"])
    veh = MOUNTS["origin"]
    imgs = images([T + 0.1, T + 0.8, T + 1.3], 2) + [(t, "l/%07d.png" % k, 3) for k, t in enumerate(ts)]
    items = build(vel, ori, DEP, ALT, imgs)
    m = D.mission_yaml(cameras=2, fmt="biocam")
    for k in range(2):
        m["image"]["cameras"][k]["records_laser"] = recorder == k + 1
    out, _ = run(items, veh, m, D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    key = "dead_reckoning/auv_dr_cam2_laser.csv"
    if key in out:
        out["dead_reckoning/auv_dr_cam3_laser.csv"] = out.pop(key)
    judge(rec, out, vel, ori, DEP, ALT, imgs, dict(veh, cam3=veh["cam%d" % recorder]), (50.0, -1.0), 3)


def payload_case(c, rec):
    """Payload samples get the pose of the payload at their own time, rows in order, data kept."""
    ts, off, toff = c
    ts = [[T - 0.6, T, T + 0.25, T + 0.8, T + 1.9, T + 3.2, T + 3.9][k] for k in ts]
    vel = series([T - 0.4 + k for k in range(5)], [VEL[x] for x in "fdbfd"])
    ori = series([T + 0.8 * k for k in range(5)], [ATT[x] for x in "nwesn"])
    veh = dict(MOUNTS["origin"], payloads={"ctd": D.off(*off)})
    items = build(vel, ori, DEP, ALT, [])
    m = D.mission_yaml(cameras=1)
    m["payloads"] = {"ctd": {"path": "ctd/log.csv", "format": "generic_csv", "timezone": 0, "timeoffset": toff}}
    text = "corrected_timestamp,salinity,label\n" + "".join("%.6f,%.3f,s%d\n" % (t, 35.0 + 0.1 * k, k) for k, t in enumerate(ts))
    out, _ = run(items, veh, m, D.nav_config(), raw_files={"ctd/log.csv": text})
    rec.step(len(items))
    rec.state(c)
    rec.out(out)
    ref = reference(vel, ori, DEP, ALT, veh)
    rows = out.get("dead_reckoning/ctd_dr.csv")
    cen = out["dead_reckoning/auv_dr_centre.csv"]
    if len(cen) == len(ref) - 1:
        ref = ref[1:]
    want = [(k, camera(ref, t + toff, off, veh)) for k, t in enumerate(ts)]
    want = [(k, w) for k, w in want if w is not None]
    if rows is None:
        if len(want) > 1:
            rec.fail("missing-output", "no payload csv, files %s" % sorted(out))
        return
    if [r["label"] for r in rows] != ["s%d" % k for k, _ in want]:
        rec.fail("payload-rows", "payload rows %s, expected %s" % ([r["label"] for r in rows], [k for k, _ in want]))
        return
    for r, (k, w) in zip(rows, want):
        r.update({"roll [deg]": w["att"][0], "pitch [deg]": w["att"][1], "heading [deg]": w["att"][2]})
        if not mc.close(fl(r, "salinity"), 35.0 + 0.1 * k) or not mc.close(fl(r, "corrected_timestamp"), ts[k], 0, 1e-5):
            rec.fail("payload-data", "payload data %r, expected sample %d" % (r, k))
    judge_rows(rec, "payload pose", rows, [w for _, w in want], (0.0, 0.0), (50.0, -1.0))


def spin_case(c, rec):
    """A vehicle that only turns about its origin stays where it is, wherever the DVL sits."""
    rate, dvl = c
    veh = D.vehicle_yaml(dvl=D.off(*dvl))
    w = math.radians(rate)
    v = (-w * dvl[1], w * dvl[0], 0.0)
    n = 20
    vel = series([T + 0.1 * k for k in range(n)], [v] * n)
    ori = series([T + 0.1 * k for k in range(n)], [(0.0, 0.0, (rate * 0.1 * k) % 360.0) for k in range(n)])
    items = build(vel, ori, DEP, ALT, [])
    out, _ = run(items, veh, D.mission_yaml(cameras=1), D.nav_config())
    rec.step(len(items))
    rec.state(c)
    rows = out["dead_reckoning/auv_dr_centre.csv"]
    n0, e0 = fl(rows[0], COL["n"]), fl(rows[0], COL["e"])
    far = max(math.hypot(fl(r, COL["n"]) - n0, fl(r, COL["e"]) - e0) for r in rows)
    rec.out(round(far, 6))
    if far > 0.02 * math.hypot(*dvl) + 1e-6:
        rec.fail("spin", "turning in place at %g deg/s with the DVL at %s moves the dead-reckoned centre by %.3f m" % (rate, dvl, far))


def body():
    chk = mc.Check("C06", assumptions=["the DVL lever-arm convention is the one implemented (velocity plus w x r)", "the first pose may be withheld"])
    q = not chk.thorough
    words = lambda al, n: ["".join(w) for w in itertools.product(al, repeat=n)]
    quad = [(50.0, -1.0), (-33.0, 151.0), (-12.0, -77.0), (35.0, 139.0)]
    cases = [(v, a, "dvl0", -0.4, quad[0], 1) for v in words("fdb", 3) for a in words("wes" if q else "nwesl", 3)]
    cases += [(v, a, m, ph, quad[0], 2) for v in (["fdbf", "dbfd"] if q else words("fdb", 4)) for a in ["nwes", "ewsl", "wwww"] for m in MOUNTS for ph in (-0.4, 0.0, 0.4)]
    cases += [("fdbf", "nwes", m, -0.4, o, 3) for m in MOUNTS for o in quad]
    chk.explore("motion", cases, motion_case, "velocity words x attitude words x mounting x DVL phase x origin")
    ph = (-1.3, -0.2, 0.0, 0.3, 1.1)
    chk.explore("phases", [(d, a, nd, na, vp) for d in ph for a in ((-0.2, 0.4) if q else ph) for nd in ((2, 7) if q else (1, 2, 3, 7)) for na in ((2, 8) if q else (1, 2, 3, 8)) for vp in (-0.4, 0.5)], phase_case, "depth phase x altitude phase x series lengths x DVL phase")
    chk.explore("images", [s for n in range(0, 5 if q else 8) for s in itertools.combinations(range(7), n)], image_case, "every set of image times up to a size")
    chk.explore("usbl-shift", [(n, e, o, m, i) for n in (-300.0, 40.0) for e in (-70.0, 500.0) for o in quad for m in ("dvl0", "dvl", "origin") for i in (False, True)], usbl_case, "offset quadrant x origin x mounting x inertial velocities")
    win = (None, 0, 1, 2, 3) if q else (None, 0, 1, 2, 3, 4)
    chk.explore("window", [(a, b) for a in win for b in (None, 4, 5, 6, 7) if (a or 0) < (b or 99)], window_case, "start and finish of the processed window")
    chk.explore("dvl-clock", list(itertools.product((0.0, 0.4, -0.4, 1.0, -5.0) if not q else (0.0, -0.4, 1.5), repeat=5)), clock_case, "DVL clock error of every velocity")
    sub = lambda n, lo, hi: [s for k in range(lo, hi + 1) for s in itertools.combinations(range(n), k)]
    chk.explore("biocam-laser", [(r, s) for r in (1, 2) for s in sub(5, 2, 5)], laser_case, "recording camera x laser image times")
    chk.explore("payload", [(s, o, t) for s in sub(7, 2, 3 if q else 7) for o in ((0.0, 0.0, 0.0), (-1.2, 0.6, 0.35)) for t in (0, 0.5)], payload_case, "payload sample times x mounting x time offset")
    chk.explore("spin", [(30.0, (1.0, 0.0)), (-30.0, (0.0, 1.0))], spin_case, "turning in place with an offset DVL")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
