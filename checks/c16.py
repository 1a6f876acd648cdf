"""C16: conversion to and from ACFR files keeps every pose and measurement."""
import csv
import gc
import itertools
import json
import math
import os
import sys
import types

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

T0 = 1500000000.25
# (roll, pitch, yaw) of the poses a list is made of
ATT = [(0.0, 0.0, 0.0), (10.0, -3.5, 45.0), (-0.125, 25.0, 359.75), (-5.0, 4.0, 180.0), (179.5, -89.0, 90.0), (1e-6, -1e-6, 270.0)]
ALT = [5.25, 0.0, -1.0, 120.5]
VEH_HEAD = ["%% line %d" % k for k in range(43)]
STEREO_HEAD = ["%% line %d" % k for k in range(54)]


DEPTH = [30.75, 0.0, -0.375, 4321.0625, 2.5, 100.0]
NORTH = [12.5, -12.5, 0.0, 5000.25, -0.001, -7.0]


def pose(o, k, att):
    r, p, y = ATT[att]
    o.epoch_timestamp = T0 + 0.5 * k + 0.001 * att + 1.5e-5
    o.roll, o.pitch, o.yaw = r, p, y
    o.northings, o.eastings, o.depth = NORTH[att] + k, -7.125 - 2 * k + 0.1 * att, DEPTH[att] + 0.01 * k
    o.latitude, o.longitude = 50.0 + 1e-6 * (k + 1), -1.0 - 1e-6 * (k + 2) - 1e-9 * att
    o.altitude = ALT[att % len(ALT)]
    for a in ("x_velocity", "y_velocity", "z_velocity", "northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std", "x_velocity_std", "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std"):
        setattr(o, a, 0.25)
    return o


def vehicles(atts, backwards=False):
    from auv_nav.sensors import SyncedOrientationBodyVelocity

    out = [pose(SyncedOrientationBodyVelocity(), k, a) for k, a in enumerate(atts)]
    return out[::-1] if backwards else out


def cameras(atts, which, backwards=False):
    from auv_nav.sensors import Camera

    out = []
    for k, a in enumerate(atts):
        c = pose(Camera(), k, a)
        # the right image is numbered on its own
        c.filename = "image/%s/sub%d/PR_%02d_%s.png" % (which, k % 2, k if which == "LC" else 40 - k, which)
        if which == "RC":
            c.northings += 1.0
            c.epoch_timestamp += 0.004
        out.append(c)
    return out[::-1] if backwards else out


def data_lines(text):
    return [l for l in text.splitlines() if l.strip() and not l.startswith("%")]


NUM = [("time", "epoch_timestamp"), ("latitude", "latitude"), ("longitude", "longitude"), ("northing", "northings"), ("easting", "eastings"), ("depth", "depth")]


def expect_row(o, stereo):
    """numbers of columns 2..10 as the format defines them"""
    head = [getattr(o, a) for _, a in NUM]
    if stereo:
        e = (-o.pitch, o.roll, o.yaw - 90.0)
    else:
        e = (o.roll, o.pitch, o.yaw)
    return head, e


def judge_file(rec, text, poses, right, lat, lon, what):
    lines = data_lines(text)
    if len(lines) < 2 or lines[0].split()[:1] != ["ORIGIN_LATITUDE"] or lines[1].split()[:1] != ["ORIGIN_LONGITUDE"]:
        rec.fail("origin", what + ": the first two data lines are not the origin")
        return
    if not mc.close(float(lines[0].split()[1]), lat, 1e-12, 1e-12) or not mc.close(float(lines[1].split()[1]), lon, 1e-12, 1e-12):
        rec.fail("origin", what + ": origin is %s" % lines[:2])
    rows = [l.split() for l in lines[2:]]
    if len(rows) != len(poses):
        rec.fail("rows", "%s: %d lines for %d poses" % (what, len(rows), len(poses)))
        return
    if len({r[0] for r in rows}) != len(rows):
        rec.fail("identifier", what + ": pose identifiers repeat")
    for k, (r, o) in enumerate(zip(rows, poses)):
        rec.out(tuple(r))
        if len(r) != (15 if right is not None else 11):
            rec.fail("columns", "%s: line %d has %d items" % (what, k, len(r)))
            continue
        num, ang = expect_row(o, right is not None)
        for (n, _), t, v in zip(NUM, r[1:7], num):
            if not mc.close(float(t), v, 1e-13, 1e-12):
                rec.fail("value:" + n, "%s: line %d %s is %s, not %r" % (what, k, n, t, v))
        for n, t, v in zip("xyz", r[7:10], ang):
            if not mc.angle_close(math.degrees(float(t)), v, 1e-7):
                rec.fail("angle:" + n, "%s: line %d %s Euler angle is %s rad, not %r deg" % (what, k, n, t, v))
        if not mc.close(float(r[12 if right is not None else 10]), o.altitude, 1e-13, 1e-12):
            rec.fail("value:altitude", "%s: line %d altitude is %s" % (what, k, r[10]))
        if right is not None:
            if (r[10], r[11]) != (os.path.basename(o.filename), os.path.basename(right[k].filename)):
                rec.fail("image", "%s: line %d names images %s and %s" % (what, k, r[10], r[11]))


def judge_read(rec, got, want, name, what):
    if len(got) != len(want):
        rec.fail("read-rows", "%s: %d poses read, %d in the file" % (what, len(got), len(want)))
        return
    for k, (g, w) in enumerate(zip(got, want)):
        for n, a in NUM + [("altitude", "altitude")]:
            if not mc.close(float(getattr(g, a)), float(getattr(w, a)), 1e-12, 1e-11):
                rec.fail("read:" + n, "%s: pose %d %s read as %r, was %r" % (what, k, n, getattr(g, a), getattr(w, a)))
        for a in ("roll", "pitch", "yaw"):
            if not mc.angle_close(float(getattr(g, a)), getattr(w, a), 1e-7):
                rec.fail("read:" + a, "%s: pose %d %s read as %r, was %r" % (what, k, a, getattr(g, a), getattr(w, a)))
        if name is not None and g.filename != os.path.basename(name[k].filename):
            rec.fail("read:image", "%s: pose %d image read as %s" % (what, k, g.filename))


def fields(o):
    return {k: v for k, v in vars(o).items() if isinstance(v, (int, float, str, type(None)))}


def vehicle_case(case, rec):
    from auv_nav.parsers.acfr_vehicle_pose import AcfrVehiclePoseParser, AcfrVehiclePoseWriter

    atts, lat, lon, old = case[:4]
    back = len(case) > 4
    rec.state(case)
    with mc.scratch() as root:
        f = root / "sub" / "v.data"
        if old:
            f.parent.mkdir()
            f.write_text("older\n" * 90)
        dr = vehicles(atts, back)
        before = [fields(o) for o in dr]
        AcfrVehiclePoseWriter(f, lat, lon).write(dr)
        rec.step()
        if [fields(o) for o in dr] != before:
            rec.fail("altered", "writing vehicle poses alters them")
        judge_file(rec, f.read_text(), dr, None, lat, lon, "vehicle file")
        p = AcfrVehiclePoseParser(str(f))
        rec.step()
        if not mc.close(p.origin_latitude, lat, 1e-12, 1e-12) or not mc.close(p.origin_longitude, lon, 1e-12, 1e-12):
            rec.fail("read-origin", "vehicle origin read as %r %r" % (p.origin_latitude, p.origin_longitude))
        judge_read(rec, p.get_dead_reckoning(), dr, None, "vehicle file")
        # the same poses in a file made by the ACFR software
        g = root / "acfr.data"
        rows = []
        for k, o in enumerate(dr):
            num, ang = expect_row(o, False)
            rows.append(" \t".join([str(1141 + 7 * k)] + ["%.16f" % v for v in num] + ["%.16f" % math.radians(a) for a in ang] + ["%.16f" % o.altitude]))
        g.write_text("\n".join([""] + VEH_HEAD + ["ORIGIN_LATITUDE  %.16f" % lat, "ORIGIN_LONGITUDE %.16f" % lon] + rows) + "\n")
        p = AcfrVehiclePoseParser(str(g))
        rec.step()
        if not mc.close(p.origin_latitude, lat, 1e-12, 1e-12) or not mc.close(p.origin_longitude, lon, 1e-12, 1e-12):
            rec.fail("read-origin", "vehicle origin read as %r %r" % (p.origin_latitude, p.origin_longitude))
        judge_read(rec, p.get_dead_reckoning(), dr, None, "foreign vehicle file")


def stereo_case(case, rec):
    from auv_nav.parsers.acfr_stereo_pose import AcfrStereoPoseParser, AcfrStereoPoseWriter

    atts, lat, lon, old = case[:4]
    back = len(case) > 4
    rec.state(case)
    with mc.scratch() as root:
        f = root / "s.data"
        if old:
            f.write_text("older\n" * 90)
        left, right = cameras(atts, "LC", back), cameras(atts, "RC", back)
        before = [fields(o) for o in left + right]
        AcfrStereoPoseWriter(f, lat, lon).write(left, right)
        rec.step()
        if [fields(o) for o in left + right] != before:
            rec.fail("altered", "writing stereo poses alters them")
        judge_file(rec, f.read_text(), left, right, lat, lon, "stereo file")
        rows = []
        for k, (o, r) in enumerate(zip(left, right)):
            num, ang = expect_row(o, True)
            rows.append(" \t".join([str(1141 + 7 * k)] + ["%.16f" % v for v in num] + ["%.16f" % math.radians(a) for a in ang] + [os.path.basename(o.filename), os.path.basename(r.filename), "%.16f" % o.altitude, "3.2", "1"]))
        g = root / "acfr.data"
        g.write_text("\n".join([""] + STEREO_HEAD + ["ORIGIN_LATITUDE  %.16f" % lat, "ORIGIN_LONGITUDE %.16f" % lon] + rows) + "\n")
        for path, what in ((f, "stereo file"), (g, "foreign stereo file")):
            p = AcfrStereoPoseParser(str(path))
            rec.step()
            if not mc.close(p.origin_latitude, lat, 1e-12, 1e-12) or not mc.close(p.origin_longitude, lon, 1e-12, 1e-12):
                rec.fail("read-origin", "stereo origin read as %r %r" % (p.origin_latitude, p.origin_longitude))
            c1, c2 = p.get_cameras()
            judge_read(rec, c1, left, left, what + " left")
            judge_read(rec, c2, left, right, what + " right")


# ------------------------------------------------------------ combined.RAW
KINDS = "vioadulx"  # velocity, inertial, orientation, altitude, depth, usbl, image, laser image


def measure(kind, k):
    import auv_nav.sensors as S

    t = T0 + k
    if kind == "v":
        o = S.BodyVelocity()
        o.x_velocity, o.y_velocity, o.z_velocity = 1.5 + k, -0.25 - k, 0.125 * k
    elif kind == "i":
        o = S.InertialVelocity()
    elif kind == "o":
        o = S.Orientation()
        o.roll, o.pitch, o.yaw = 1.0 + k, -2.0 - k, 350.0 + k
        o.roll_std, o.pitch_std, o.yaw_std = 0.1 + k, 0.2 + k, 0.3 + k
    elif kind == "a":
        o = S.Altitude()
        o.altitude = 5.5 + k
    elif kind == "d":
        o = S.Depth()
        o.depth, o.depth_timestamp = 40.5 + k, t + 0.25
    elif kind == "u":
        o = S.Usbl()
        o.northings, o.eastings, o.depth = 30.0 + k, -40.0 - 2 * k, 12.0 + k
        o.northings_ship, o.eastings_ship = 3.0 + k, 4.0 + k
        o.distance_to_ship = [None, 13.0 + k, 5.0, 12.0 + k, -4.0][k % 5]
    else:
        o = S.Camera()
        o.filename = "image/xxx_%d.tif" % k if kind == "x" else "image/PR_%d_LC16.tif" % k
    o.epoch_timestamp = t
    return o


def tokens(line):
    """['RDI', time, {key: text}] of a line of a combined.RAW file"""
    w = line.replace(":", ": ").split()
    out, key = {}, None
    for x in w[2:]:
        if x.endswith(":"):
            key = x[:-1]
        elif key is not None:
            out[key] = x
    return w[0].rstrip(":"), float(w[1].strip("[]")), out


def raw_case(case, rec):
    from auv_nav.parsers.acfr_combined_raw import AcfrCombinedRawWriter

    rec.state(case)
    want, alt, ori = [], None, None
    items = [measure(c, k) for k, c in enumerate(case)]
    for c, o in zip(case, items):
        if c == "v" and alt is not None and ori is not None:
            want.append(("RDI", o.epoch_timestamp, {"alt": alt.altitude, "h": ori.yaw, "p": ori.pitch, "r": ori.roll, "vx": o.x_velocity, "vy": o.y_velocity, "vz": o.z_velocity}))
            alt = ori = None
        elif c == "a":
            alt = o
        elif c == "o":
            ori = o
            want.append(("PHINS_COMPASS", o.epoch_timestamp, {"r": o.roll, "p": o.pitch, "h": o.yaw, "std_r": o.roll_std, "std_p": o.pitch_std, "std_h": o.yaw_std}))
        elif c == "d":
            want.append(("PAROSCI", o.depth_timestamp, {"": o.depth}))
        elif c == "u":
            s = o.distance_to_ship
            hr = math.sqrt(s * s - o.depth**2) if s is not None and s > o.depth else -1.0
            want.append(("SSBL_FIX", o.epoch_timestamp, {"ship_x": o.northings_ship, "ship_y": o.eastings_ship, "target_x": o.northings, "target_y": o.eastings, "target_z": o.depth, "target_hr": hr, "target_sr": s, "target_bearing": math.degrees(math.atan2(o.eastings, o.northings))}))
        elif c == "l":
            want.append(("VIS", o.epoch_timestamp, {"file": o.filename}))
    with mc.scratch() as root:
        m = types.SimpleNamespace(origin=types.SimpleNamespace(latitude=50.5, longitude=-1.25, date="2017/07/14"))
        out = root / "processed" / "y"
        w = AcfrCombinedRawWriter(m, None, out)
        for o in items:
            w.add(o)
            rec.step()
        del w
        gc.collect(0)
        lines = [l for l in (out / "dRAWLOGS_cv" / "combined.RAW.auv").read_text().splitlines() if l.strip()]
        cfg = (out / "mission.cfg").read_text().split()
    if cfg[:4] != ["MAG_VAR_LAT", "50.5", "MAG_VAR_LNG", "-1.25"]:
        rec.fail("origin", "mission.cfg is %s" % cfg)
    judge_raw(rec, lines, want)


def judge_raw(rec, lines, want):
    if len(lines) != len(want):
        rec.fail("raw-lines", "%d lines for %d measurements: %s" % (len(lines), len(want), [l.split(":")[0] for l in lines]))
        return
    for l, (kind, t, d) in zip(lines, want):
        rec.out(l)
        k, g, tok = tokens(l)
        if k != kind or not mc.close(g, t, 0, 1e-6):
            rec.fail("raw-order", "line '%s' where %s at %r is due" % (l, kind, t))
        elif kind == "PAROSCI":
            if not mc.close(float(l.split()[2]), d[""], 1e-12, 1e-12):
                rec.fail("raw:depth", "depth %r written as %s" % (d[""], l))
        elif kind == "VIS":
            if l.split()[3] != d["file"] or float(l.split()[2].strip("[]")) != t:
                rec.fail("raw:image", "image %s written as %s" % (d["file"], l))
        else:
            for n, v in d.items():
                x = tok.get(n)
                if v is None:
                    ok = x == "None"
                else:
                    ok = x not in (None, "None") and mc.close(float(x), v, 1e-12, 1e-9)
                if not ok:
                    rec.fail("raw:" + kind + ":" + n, "%s %s is %s, measured %r" % (kind, n, x, v))


def raw_want(items):
    """lines of combined.RAW for a standard navigation file"""
    want, alt, ori = [], None, None
    for d in items[1:]:
        t, c = d["epoch_timestamp"], d["category"]
        if c == "velocity" and d["frame"] == "body":
            if alt is not None and ori is not None:
                v = {k: x for e in d["data"] for k, x in e.items()}
                want.append(("RDI", d["epoch_timestamp_dvl"], {"alt": alt, "h": ori["heading"], "p": ori["pitch"], "r": ori["roll"], "vx": v["x_velocity"], "vy": v["y_velocity"], "vz": v["z_velocity"]}))
                alt = ori = None
        elif c == "altitude":
            alt = d["data"][0]["altitude"]
        elif c == "orientation":
            ori = {k: x for e in d["data"] for k, x in e.items()}
            want.append(("PHINS_COMPASS", t, {"r": ori["roll"], "p": ori["pitch"], "h": ori["heading"], "std_r": ori["roll_std"], "std_p": ori["pitch_std"], "std_h": ori["heading_std"]}))
        elif c == "depth":
            want.append(("PAROSCI", d["epoch_timestamp_depth"], {"": d["data"][0]["depth"]}))
        elif c == "usbl":
            u = {k: x for e in d["data_target"] for k, x in e.items()}
            want.append(("SSBL_FIX", t, {"ship_x": d["data_ship"][1]["northings"], "ship_y": d["data_ship"][1]["eastings"], "target_x": u["northings"], "target_y": u["eastings"], "target_z": u["depth"], "target_sr": u["distance_to_ship"], "target_bearing": math.degrees(math.atan2(u["eastings"], u["northings"]))}))
        elif c == "image":
            for k in ("camera1", "camera2"):
                want.append(("VIS", d[k][0]["epoch_timestamp"], {"file": d[k][0]["filename"]}))
    return want


STREAM = "vwioaAdDulx"


def record(c, k):
    """a record of nav_standard.json"""
    t = T0 + 0.5 * k
    if c in "vw":
        return D.j_vel(t, 1.0 + k, -0.1 - k, 0.2 * k, dvl_t=t - 0.75 if c == "w" else t)
    if c == "i":
        return D.j_ivel(t, 1.0, 2.0, 3.0)
    if c == "o":
        return D.j_ori(t, -1.5 + k, 2.0 - k, 30.0 + 100 * k)
    if c in "aA":
        return D.j_alt(t, 5.0 + k if c == "a" else 0.2)
    if c in "dD":
        return D.j_depth(t, 30.0 + k if c == "d" else -0.25)
    if c == "u":
        return D.j_usbl(t, 30.0 - 20 * k, -40.0 + 15 * k, 25.0)
    if c == "l":
        return D.j_img(t, "image/LC/%d_LC.png" % k, "image/RC/%d_XR.png" % k, 0.004)
    return D.j_laser(t, "image/las_%02d.tif" % k)


def command_raw_case(case, rec):
    """the combined.RAW file that oplab_to_acfr makes of a standard navigation file"""
    from auv_nav.convert import oplab_to_acfr
    from auv_nav.tools.csv_tools import write_csv

    rec.state(case)
    items = [D.j_origin(50.0, -1.0)] + [record(c, k) for k, c in enumerate(case)]
    with mc.scratch() as root:
        raw, pro, cfg = D.make_dive(root, items, mission=D.mission_yaml())
        names = [c["name"] for c in D.mission_yaml()["image"]["cameras"]]
        ekf = pro / "json_renav_20170714_024000_20170714_024010" / "csv" / "ekf"
        write_csv(ekf, vehicles((1, 2)), "auv_ekf_centre", csv_flag=True)
        write_csv(ekf, cameras((1, 2), "LC"), "auv_ekf_" + names[0], csv_flag=True)
        write_csv(ekf, cameras((1, 2), "RC"), "auv_ekf_" + names[1], csv_flag=True)
        out = pro / "acfr"
        oplab_to_acfr(types.SimpleNamespace(dive_folder=str(raw), output_folder=str(out), force=False))
        gc.collect(0)
        rec.step(len(case))
        judge_raw(rec, [l for l in (out / "dRAWLOGS_cv" / "combined.RAW.auv").read_text().splitlines() if l.strip()], raw_want(items))


OUT = ["auv_acfr_centre.csv", "auv_acfr_LC.csv", "auv_acfr_RC.csv", "auv_acfr_laser.csv"]


def existing_case(case, rec):
    """Results that are already there, in whatever combination."""
    from auv_nav.convert import acfr_to_oplab, oplab_to_acfr
    from auv_nav.parsers.acfr_stereo_pose import AcfrStereoPoseWriter
    from auv_nav.parsers.acfr_vehicle_pose import AcfrVehiclePoseWriter
    from auv_nav.tools.csv_tools import write_csv

    which, have, force, ask = case
    rec.state(case)
    items = [D.j_origin(50.0, -1.0)] + [record(c, k) for k, c in enumerate("aovdlxd")]
    dr, left, right = vehicles((1, 2, 3)), cameras((1, 2, 3), "LC"), cameras((1, 2, 3), "RC")
    with mc.scratch() as root:
        raw, pro, cfg = D.make_dive(root, items, mission=D.mission_yaml())
        if which == "to":
            names = [c["name"] for c in D.mission_yaml()["image"]["cameras"]]
            ekf = pro / "json_renav_20170714_024000_20170714_024010" / "csv" / "ekf"
            write_csv(ekf, dr, "auv_ekf_centre", csv_flag=True)
            write_csv(ekf, left, "auv_ekf_" + names[0], csv_flag=True)
            write_csv(ekf, right, "auv_ekf_" + names[1], csv_flag=True)
            out = pro / "acfr"
            out.mkdir()
            targets = list(have)
            run = lambda: oplab_to_acfr(types.SimpleNamespace(dive_folder=str(raw), output_folder=str(out), force=force))
        else:
            out = root / "back"
            out.mkdir()
            AcfrVehiclePoseWriter(root / "v.data", 50.0, -1.0).write(dr)
            AcfrStereoPoseWriter(root / "s.data", 50.0, -1.0).write(left, right)
            # which of the existing files this command would write
            targets = [f for f in have if (f == OUT[0] and "v" in ask) or (f in OUT[1:3] and "s" in ask) or (f == OUT[3] and "s" in ask and "l" in ask)]
            run = lambda: acfr_to_oplab(types.SimpleNamespace(vehicle_pose=str(root / "v.data") if "v" in ask else None, stereo_pose=str(root / "s.data") if "s" in ask else None, output_folder=str(out), dive_folder=str(raw) if "l" in ask else None, force=force))
        for f in have:
            (out / f).write_text("older " + f)
        before = mc.snapshot(root)
        try:
            run()
            done = True
        except SystemExit:
            done = False
        gc.collect(0)
        rec.step()
        rec.out((done, sorted(targets)))
        after = mc.snapshot(root)
        changed = [k for k in before if before[k] != after.get(k)]
        mine = [str((out / f).relative_to(root)) for f in targets]
        if force:
            if not done:
                rec.fail("refused", "%s refused although forced, existing: %s" % (ask, have))
            if sorted(changed) != sorted(mine):
                rec.fail("forced", "forced, existing %s: changed %s" % (have, changed))
        else:
            if changed:
                rec.fail("overwritten", "existing %s overwritten without force" % changed)
            if done and targets:
                rec.fail("not-refused", "existing results %s, but the conversion was not refused" % targets)
            if not done and not targets:
                rec.fail("refused", "refused although none of its results exists (%s)" % (have,))


# --------------------------------------------------------------- commands
def trip_case(case, rec):
    """oplab -> ACFR -> oplab with the commands themselves"""
    from auv_nav.convert import acfr_to_oplab, oplab_to_acfr
    from auv_nav.tools.csv_tools import write_csv

    atts, lasers, lat, lon = case
    rec.state(case)
    n = len(atts)
    with mc.scratch() as root:
        items = [D.j_origin(lat, lon)]
        for k in range(n):
            t = T0 + 0.5 * k
            items += [D.j_alt(t, 5.0 + k), D.j_ori(t, 1.0, 2.0, 30.0 + k), D.j_vel(t, 1.0, 0.1, 0.2), D.j_depth(t, 30.0 + k), D.j_img(t + 0.001 * atts[k], "image/LC/%d_LC.png" % k, "image/RC/%d_RC.png" % k, 0.004)]
        ts = [T0 + 1.5e-5 + 0.001 * atts[0] + q * (0.5 * (n - 1) + 0.001 * (atts[-1] - atts[0])) for q in lasers]
        items += [D.j_laser(t, "image/las_%02d.tif" % k) for k, t in enumerate(ts)]
        items[1:] = sorted(items[1:], key=lambda d: d["epoch_timestamp"])
        if atts[0] % 2:
            items.append(D.j_alt(T0 + 0.5 * n, 9.0))
        raw, pro, cfg = D.make_dive(root, items, mission=D.mission_yaml(lat=lat, lon=lon))
        names = [c["name"] for c in D.mission_yaml()["image"]["cameras"]]
        ekf = pro / "json_renav_20170714_024000_20170714_024010" / "csv" / "ekf"
        dr, left, right = vehicles(atts), cameras(atts, "LC"), cameras(atts, "RC")
        write_csv(ekf, dr, "auv_ekf_centre", csv_flag=True)
        write_csv(ekf, left, "auv_ekf_" + names[0], csv_flag=True)
        write_csv(ekf, right, "auv_ekf_" + names[1], csv_flag=True)
        out = pro / "acfr"
        out.mkdir()
        before = mc.snapshot(root)
        args = types.SimpleNamespace(dive_folder=str(raw), output_folder=str(out), force=False)
        oplab_to_acfr(args)
        gc.collect(0)
        rec.step()
        after = mc.snapshot(root)
        for k in before:
            if before[k] != after.get(k):
                rec.fail("altered-file", "converting changed " + k)
        judge_file(rec, (out / "vehicle_pose_est.data").read_text(), dr, None, lat, lon, "vehicle file")
        judge_file(rec, (out / "stereo_pose_est.data").read_text(), left, right, lat, lon, "stereo file")
        if not (out / "dRAWLOGS_cv" / "combined.RAW.auv").is_file() or not (out / "mission.cfg").is_file():
            rec.fail("raw-missing", "no combined.RAW.auv or mission.cfg written")
        else:
            txt = (out / "dRAWLOGS_cv" / "combined.RAW.auv").read_text()
            vis = [l.split()[3] for l in txt.splitlines() if l.startswith("VIS")]
            if sorted(vis) != sorted(["image/LC/%d_LC.png" % k for k in range(n)] + ["image/RC/%d_RC.png" % k for k in range(n)]):
                rec.fail("raw-images", "images in combined.RAW.auv: %s" % vis)
            if txt.count("RDI:") != n or txt.count("PAROSCI:") != n or txt.count("PHINS_COMPASS:") != n:
                rec.fail("raw-count", "combined.RAW.auv lacks measurements")
            judge_raw(rec, [l for l in txt.splitlines() if l.strip()], raw_want(items))
        frozen = mc.snapshot(root)
        try:
            oplab_to_acfr(args)
            rec.fail("overwrite", "converting again without force is not refused")
        except SystemExit:
            pass
        gc.collect(0)
        if mc.snapshot(root) != frozen:
            rec.fail("overwrite", "converting again without force changes files")
        back = root / "back"
        back.mkdir()
        args = types.SimpleNamespace(vehicle_pose=str(out / "vehicle_pose_est.data"), stereo_pose=str(out / "stereo_pose_est.data"), output_folder=str(back), dive_folder=str(raw) if lasers else None, force=False)
        acfr_to_oplab(args)
        gc.collect(0)
        rec.step()

        def table(name, tcol):
            rows = []
            for r in csv.DictReader((back / name).open(), skipinitialspace=True):
                rows.append(types.SimpleNamespace(epoch_timestamp=float(r[tcol]), northings=float(r["northing [m]"]), eastings=float(r["easting [m]"]), depth=float(r["depth [m]"]), roll=float(r["roll [deg]"]), pitch=float(r["pitch [deg]"]), yaw=float(r["heading [deg]"]), altitude=float(r["altitude [m]"]), latitude=float(r["latitude [deg]"]), longitude=float(r["longitude [deg]"]), filename=r.get("relative_path")))
            return rows

        judge_read(rec, table("auv_acfr_centre.csv", "timestamp"), dr, None, "auv_acfr_centre.csv")
        judge_read(rec, table("auv_acfr_LC.csv", "timestamp [s]"), left, left, "auv_acfr_LC.csv")
        judge_read(rec, table("auv_acfr_RC.csv", "timestamp [s]"), left, right, "auv_acfr_RC.csv")
        if lasers:
            got = table("auv_acfr_laser.csv", "timestamp [s]")
            if [g.filename for g in got] != ["image/las_%02d.tif" % k for k in range(len(ts))]:
                rec.fail("laser-rows", "lasers in csv: %s" % [g.filename for g in got])
                return
            for g, t in zip(got, ts):
                i = max(j for j in range(n - 1) if left[j].epoch_timestamp <= t or j == 0)
                a, b = left[i], left[i + 1]
                q = (t - a.epoch_timestamp) / (b.epoch_timestamp - a.epoch_timestamp)
                for attr in ("northings", "eastings", "depth", "latitude", "longitude", "altitude"):
                    v = getattr(a, attr) + q * (getattr(b, attr) - getattr(a, attr))
                    if not mc.close(getattr(g, attr), v, 1e-12, 1e-6):
                        rec.fail("laser:" + attr, "laser at %r has %s %r, not %r" % (t, attr, getattr(g, attr), v))
                dy = (b.yaw - a.yaw + 180) % 360 - 180
                if abs(dy) < 179.9 and not mc.angle_close(g.yaw, a.yaw + q * dy, 1e-4):
                    rec.fail("laser:yaw", "laser at %r has heading %r, not %r" % (t, g.yaw, a.yaw + q * dy))


def body():
    ck = mc.new_check("C16")
    mc.silence_console()
    D.stub_version()
    T = ck.thorough
    origins = [(50.0, -1.0), (-33.5, 151.25), (0.0, 0.0)]
    m = 4 if T else 3
    lists = [p for n in range(0, m + 1) for p in itertools.product(range(len(ATT)), repeat=n)]
    cases = [(p, *origins[i % 3], bool(i % 2)) for i, p in enumerate(lists)]
    cases += [(p, *o, w) for p in [(), (1,), (2, 3)] for o in origins for w in (False, True)]
    cases += [(p, 50.0, -1.0, False, "backwards") for p in lists if 2 <= len(p) <= 3 and len(set(p)) == len(p)]
    ck.explore("vehicle poses", cases, vehicle_case, note="all lists of up to %d poses over %d attitudes; file written, judged by its definition, read back; and the same poses in a file made elsewhere" % (m, len(ATT)))
    ck.explore("stereo poses", cases, stereo_case, note="as vehicle poses, for stereo pairs")
    n = 5 if T else 4
    ck.explore("combined.RAW", ["".join(p) for k in range(0, n + 1) for p in itertools.product(KINDS, repeat=k)] + [a + b for a in ("aov", "oav", "aovoav") for b in map("".join, itertools.product("vaoud", repeat=3))], raw_case, note="all sequences of up to %d measurements over %d kinds" % (n, len(KINDS)))
    grids = [(), (0.0, 0.5, 1.0), (0.1, 0.3, 0.6, 0.99)]
    trip = [(p, g, *origins[(i + j) % 3]) for i, p in enumerate(q for k in (2, 3) for q in itertools.product(range(len(ATT)), repeat=k) if T or k == 2 or q[0] < 2) for j, g in enumerate(grids if T else (grids[i % 3],))]
    ck.explore("commands", trip, trip_case, note="oplab_to_acfr then acfr_to_oplab on dives with all lists of 2 and 3 poses, with laser images")
    ln = 4 if T else 3
    ck.explore("raw file of the command", ["".join(p) for k in range(1, ln + 1) for p in itertools.product(STREAM, repeat=k)] + ["ao" + "".join(p) for p in itertools.product("vwaAoid", repeat=3)], command_raw_case, note="all standard navigation files of up to %d records through oplab_to_acfr" % ln)
    ex = [("to", h, f, "") for k in range(3) for h in itertools.combinations(("vehicle_pose_est.data", "stereo_pose_est.data"), k) for f in (False, True)]
    ex += [("from", h, f, a) for k in range(5) for h in itertools.combinations(OUT, k) for f in (False, True) for a in ("v", "s", "vs", "sl", "vsl")]
    ck.explore("existing results", ex, existing_case, note="every subset of the result files already there x force x what is converted")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
