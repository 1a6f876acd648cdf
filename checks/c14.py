"""C14: mission and vehicle descriptions survive a load and a save."""
import itertools
import os
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import yaml
import mc
import dataset as D

SENSORS = {"velocity": "dvl", "orientation": "ins", "depth": "depth", "altitude": "dvl", "usbl": "usbl", "tide": None, "dead_reckoning": None}
ZONES = {"utc": 0, "UTC": 0, "jst": 9, "JST": 9, "CET": 1, "cet": 1, "-3.5": -3.5, "5": 5.0, 9: 9, -2.5: -2.5, 0: 0, 0.0: 0.0}
UNKNOWN_ZONES = ["lunar", "utc+1", "", "CEST", "Utc", "gmt", "09:00", "9h", "UTC+9", "Japan"]
FIELD = {
    "filepath": "nav/x/",
    "filename": "file 1.txt",
    "label": 13,
    "id": 4,
    "std_factor": 0.01,
    "std_offset": 2.5,
    "origin": "frame_a",
    "topic": "/auv/nav",
    "timezone": "jst",
    "timeoffset": -1.25,
    "field_id": 7,
    "apply_depth_filter": False,
    "apply_north_east_filter": False,
}
PLAIN = {"filepath": "", "filename": "", "label": 0, "id": 0, "std_factor": 0.0, "std_offset": 0, "origin": "frame_b", "topic": "", "timezone": 0, "timeoffset": 0, "field_id": 0, "apply_depth_filter": True, "apply_north_east_filter": True}
ODD = {"filepath": "/abs/path", "filename": "", "label": -1, "id": "AUV 7", "std_factor": 1, "std_offset": -1.5, "origin": "origin", "topic": "a b: c", "timezone": "-3.5", "timeoffset": 86400, "field_id": "x9", "apply_depth_filter": True, "apply_north_east_filter": False}
VALUES = (FIELD, PLAIN, ODD)
DEFAULT = {"filepath": "", "filename": "", "std_factor": 0.0, "std_offset": 0.0, "topic": None, "field_id": 0, "apply_depth_filter": True, "apply_north_east_filter": True}
ORIGIN = {"latitude": -45.123456789, "longitude": 178.25, "coordinate_reference_system": "wgs84", "date": "2018/11/19"}


def frames(names=()):
    v = {n: D.off(surge=0.1 * k, sway=-0.2 * k, heave=0.3 * k, roll=1.0 * k, pitch=-2.0 * k, yaw=30.0 * k) for k, n in enumerate(("origin", "ins", "dvl", "depth", "usbl", "frame_a", "frame_b", "cam_x", "cam_y", "cam_z"))}
    return v


def zone(node):
    z = node.get("timezone", 0)
    return ZONES[z] if z in ZONES else z


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return mc.close(a, b, 1e-12, 1e-12)
    return a == b and isinstance(a, bool) == isinstance(b, bool)


def sensor_want(name, node):
    w = {k: node.get(k, v) for k, v in DEFAULT.items()}
    w["format"] = node["format"]
    w["label"] = node.get("label", node.get("id", 0))
    if SENSORS[name] or "origin" in node:
        w["origin"] = node.get("origin", SENSORS[name])
    w.update(times_want(node))
    return w


def times_want(node):
    z, o = zone(node), node.get("timeoffset", 0)
    return {"timezone": z, "timeoffset_s": o, "timezone_s": z * 3600, "offset_s": z * 3600 + o}


def compare(rec, what, obj, want, tag):
    for k, v in want.items():
        g = getattr(obj, k, "(missing)")
        rec.out((what, k, str(g)))
        if not same(g, v):
            rec.fail("%s:%s" % (tag, k), "%s %s is %r, not %r" % (what, k, g, v))


def mission_matches(rec, m, data, tag):
    """Does the loaded mission say what the file says?"""
    o = data["origin"]
    compare(rec, "origin", m.origin, {"latitude": o["latitude"], "longitude": o["longitude"], "crs": o["coordinate_reference_system"], "date": o.get("date", "")}, tag)
    for s in SENSORS:
        e = getattr(m, s)
        if bool(e.empty()) != (s not in data):
            rec.fail(tag + ":configured", "%s is %sconfigured, but loads as if it were%s" % (s, "" if s in data else "not ", " not" if s in data else ""))
        if s in data:
            compare(rec, s, e, sensor_want(s, data[s]), tag)
    if bool(m.image.empty()) != ("image" not in data):
        rec.fail(tag + ":configured", "image section %s" % ("lost" if "image" in data else "appeared"))
    if "image" in data:
        n = data["image"]
        compare(rec, "image", m.image, dict(times_want(n), format=n["format"]), tag)
        if data.get("version", 0) >= 1:
            cams = n["cameras"]
            want = [
                {"name": c["name"], "path": c["path"], "origin": c.get("origin", c["name"]), "topic": c.get("topic"), "timeoffset": c.get("timeoffset", 0.0), "timeoffset_s": c.get("timeoffset_s", c.get("timeoffset", 0.0)), "records_laser": c.get("records_laser", False)}
                for c in cams
            ]
        elif n["format"] == "seaxerocks_3":
            want = [{"name": x, "path": n["filepath"] + n["camera%d" % k], "origin": "camera%d" % k, "timeoffset": 0.0, "timeoffset_s": 0.0} for k, x in ((1, "fore"), (2, "aft"), (3, "laser"))]
        else:
            want = [{"name": n["camera%d" % k], "path": n["filepath"], "origin": "camera%d" % k, "timeoffset": 0.0} for k in (1, 2)]
        if len(m.image.cameras) != len(want):
            rec.fail(tag + ":cameras", "%d cameras configured, %d loaded" % (len(want), len(m.image.cameras)))
        for c, w in zip(m.image.cameras, want):
            compare(rec, "camera " + w["name"], c, w, tag)
    pl = data.get("payloads") or {}
    if sorted(m.payloads) != sorted(pl):
        rec.fail(tag + ":payloads", "payloads %s configured, %s loaded" % (sorted(pl), sorted(m.payloads)))
    for k in set(pl) & set(m.payloads):
        compare(rec, "payload " + k, m.payloads[k], dict(times_want(pl[k]), path=pl[k]["path"], format=pl[k]["format"], columns=pl[k].get("columns")), tag)


def put(folder, mission, vehicle):
    folder.mkdir(parents=True, exist_ok=True)
    (folder / "mission.yaml").write_text(yaml.safe_dump(mission, sort_keys=False))
    (folder / "vehicle.yaml").write_text(yaml.safe_dump(vehicle, sort_keys=False))
    return folder / "mission.yaml"


def mission_roundtrip(rec, data, vehicle=None, assemble=True):
    from oplab import Mission

    vehicle = vehicle or frames()
    with mc.scratch() as root:
        p = put(root / "raw" / "a", data, vehicle)
        m = Mission(p)
        mission_matches(rec, m, data, "load")
        q = put(root / "processed" / "b", {}, vehicle)
        q.unlink()
        m.write(q)
        mission_matches(rec, Mission(q), data, "save-load")
        rec.step(3)
        if p.read_text() != yaml.safe_dump(data, sort_keys=False):
            rec.fail("source-changed", "saving a copy changed the original")
        if assemble and data.get("version", 0) >= 1:
            # a description put together in memory
            import oplab.mission as om

            n = Mission()
            n.version = 1
            n.origin.load(data["origin"])
            for s in SENSORS:
                if s in data:
                    getattr(n, s).load(data[s])
                    if SENSORS[s] and "origin" not in data[s]:
                        getattr(n, s).origin = SENSORS[s]
            if "image" in data:
                n.image.load(data["image"], 1)
            for k, v in (data.get("payloads") or {}).items():
                e = om.PayloadEntry()
                e.load(v)
                n.payloads[k] = e
            r = put(root / "processed" / "c", {}, vehicle)
            r.unlink()
            n.write(r)
            mission_matches(rec, Mission(r), data, "assemble-save-load")
            rec.step(2)


def base(**sections):
    return dict({"version": 1, "origin": ORIGIN}, **sections)


def sensor_subset(case, rec):
    data = base(**{s: {"format": "f_" + s, "filepath": "nav/" + s, "filename": s + ".txt", "label": k, "std_factor": 0.1 * k, "std_offset": 1.0 + k, "timezone": k, "timeoffset": 0.5 * k} for k, s in enumerate(case)})
    rec.state(case)
    mission_roundtrip(rec, data)


def sensor_fields(case, rec):
    s, fields = case
    rec.state(case)
    mission_roundtrip(rec, base(**{s: dict({"format": "fmt"}, **{f: VALUES[k][f] for f, k in fields})}))


def camera_fields(case, rec):
    names = ("cam_x", "cam_y", "cam_z")
    val = {"origin": ("frame_a", "frame_b", "usbl"), "topic": ("/t0", "/t1", "/t2"), "timeoffset": (0.5, -1.5, 2.0), "timeoffset_s": (3.0, 0.0, -0.25), "records_laser": (True, True, False)}
    cams = [dict({"name": names[k], "path": "image/%d" % k}, **{f: val[f][k] for f in fs}) for k, fs in enumerate(case)]
    rec.state(case)
    mission_roundtrip(rec, base(image={"format": "biocam", "timezone": "CET", "timeoffset": 0.75, "cameras": cams}))


def payloads(case, rec):
    pl = {}
    for k, fs in enumerate(case):
        pl["p%d" % k] = dict({"path": "payload/%d.csv" % k, "format": "generic_csv"}, **{f: {"columns": [{"name": "epoch", "column": k}, {"name": "temp", "column": 3}] if k == 0 else [], "timezone": "jst", "timeoffset": 2.5}[f] for f in fs})
    v = frames()
    v["payloads"] = {"p%d" % k: D.off(surge=1.0 + k) for k in range(3)}
    rec.state(case)
    mission_roundtrip(rec, base(payloads=pl) if pl else base(), v)


def zones(case, rec):
    z, where, off = case
    sec = {"format": "fmt", "timezone": z, "timeoffset": off}
    if where == "image":
        sec["cameras"] = [{"name": "cam_x", "path": "i"}]
    data = base(**{where: sec})
    rec.state((str(z), where, off))
    if z in UNKNOWN_ZONES:
        from oplab import Mission

        with mc.scratch() as root:
            p = put(root / "raw", data, frames())
            rec.step()
            try:
                m = Mission(p)
                rec.fail("zone-accepted", "time zone %r is read as %r hours" % (z, getattr(m, where).timezone))
            except SystemExit as e:
                rec.out(e.code)
        return
    mission_roundtrip(rec, data)


def origins(case, rec):
    lat, lon, crs, date = case
    rec.state(case)
    mission_roundtrip(rec, {"version": 1, "origin": {"latitude": lat, "longitude": lon, "coordinate_reference_system": crs, "date": date}, "velocity": {"format": "phins"}})


def undated(case, rec):
    o = dict(ORIGIN)
    del o["date"]
    rec.state(case)
    mission_roundtrip(rec, dict({"version": case[0], "origin": o}, velocity={"format": "phins"}))


def old_mission(case, rec):
    fmt, sensors, version = case
    img = {"format": fmt, "filepath": "image/", "timezone": 9, "timeoffset": 0.5}
    if fmt == "seaxerocks_3":
        img.update(camera1="Xviii/Cam1", camera2="Xviii/Cam2", camera3="LM165")
    else:
        img.update(camera1="LC", camera2="RC")
    data = {"origin": ORIGIN, "image": img}
    if version is not None:
        data["version"] = version
    for k, s in enumerate(sensors):
        data[s] = {"format": "phins", "filepath": "nav/", "filename": s, "timezone": "utc", "timeoffset": 0.0, "headingoffset": 45.0 + k}
    v = frames()
    for k in (1, 2, 3):
        v["camera%d" % k] = D.off(surge=float(k))
    rec.state(case)
    mission_roundtrip(rec, data, v, assemble=False)


def refused(case, rec):
    """A sensor or camera in a frame the vehicle does not have."""
    from oplab import Mission

    kind, missing = case[:2]
    where = case[2] if len(case) > 2 else "nowhere"
    v = frames()
    v["payloads"] = {"p9": D.off()}
    sec = {"format": "f"}
    if kind == "image":
        sec["cameras"] = [{"name": "cam_x", "path": "p"}, {"name": "cam_y", "path": "p"}]
        if missing == "name":
            del v["cam_y"]
        else:
            sec["cameras"][1]["origin"] = where
    elif kind == "payloads":
        sec = {"p0": {"path": "p", "format": "f"}, missing: {"path": "p", "format": "f"}}
        v["payloads"] = {"p0": D.off()}
    elif missing == "name":
        del v[SENSORS[kind]]
    else:
        sec["origin"] = where
    with mc.scratch() as root:
        p = put(root / "raw", base(**{kind: sec}), v)
        rec.step()
        rec.state(case)
        try:
            Mission(p)
            rec.fail("frame-accepted", "%s in a frame the vehicle does not have is accepted" % kind)
        except SystemExit as e:
            rec.out(e.code)


# ------------------------------------------------------------------ vehicle
def old_frame(k):
    return {"x_offset": 1.0 + k, "y_offset": -2.0 - k, "z_offset": 0.5 * k}


def vehicle_want(data, mission, cams):
    w = {}
    old = "x_offset" in data.get("origin", {})
    for f in ("origin", "ins", "dvl", "depth", "usbl"):
        w[f] = offset_want(data.get(f), mission.get({"ins": "orientation", "dvl": "velocity"}.get(f)) if old else None)
    for k in range(3):
        w["camera%d" % (k + 1)] = offset_want(data.get(cams[k]) if k < len(cams) else None, None)
    return w


def offset_want(n, sensor):
    if n is None:
        return dict(surge=0.0, sway=0.0, heave=0.0, roll=0.0, pitch=0.0, yaw=0.0), True
    if "surge_m" in n:
        return dict(surge=n["surge_m"], sway=n["sway_m"], heave=n["heave_m"], roll=n["roll_deg"], pitch=n["pitch_deg"], yaw=n["yaw_deg"]), False
    return dict(surge=n["x_offset"], sway=n["y_offset"], heave=n["z_offset"], roll=0.0, pitch=0.0, yaw=(sensor or {}).get("headingoffset", 0.0)), False


def vehicle_case(case, rec):
    from oplab import Vehicle

    have, cams, old, pls, heading = case
    mission = base()
    names = []
    if cams:
        mission["image"] = {"format": "biocam", "cameras": []}
        for k, c in enumerate(cams):
            n = {"name": "cam_%s" % "xyz"[k], "path": "p"}
            if c == "origin":
                n["origin"] = "frame_" + "abc"[k]
            names.append(n.get("origin", n["name"]))
            mission["image"]["cameras"].append(n)
    for f, s in (("ins", "orientation"), ("dvl", "velocity")):
        if f in have:
            mission[s] = {"format": "f"}
            if heading:
                mission[s]["headingoffset"] = 33.0 if s == "velocity" else -12.0
    data = {}
    for k, f in enumerate(have):
        data[f] = old_frame(k) if old else D.off(surge=0.5 + k, sway=-1.0 * k, heave=2.0 - k, roll=3.0 * k, pitch=-4.0 * k, yaw=91.0 + k)
    for k, f in enumerate(names):
        data[f] = old_frame(10 + k) if old else D.off(surge=5.5 + k, sway=-1.5 * k, heave=2.5 - k, roll=3.5 * k, pitch=-4.5 * k, yaw=180.0 + k)
    if pls:
        data["payloads"] = {"p%d" % k: (old_frame(20 + k) if old else D.off(surge=7.0 + k, yaw=-20.0 * k)) for k in range(pls)}
    want = vehicle_want(data, mission, names)
    rec.state(case)
    with mc.scratch() as root:
        p = put(root / "raw" / "a", mission, data)
        v = Vehicle(p.parent / "vehicle.yaml")
        q = put(root / "processed" / "b", mission, {})
        v.write(q.parent / "vehicle.yaml")
        for tag, x in (("vehicle-load", v), ("vehicle-save-load", Vehicle(q.parent / "vehicle.yaml"))):
            rec.step()
            for f, (w, empty) in want.items():
                compare(rec, "frame " + f, getattr(x, f), w, tag)
                if bool(getattr(x, f).empty()) != empty:
                    rec.fail(tag + ":configured", "frame %s %s" % (f, "lost" if not empty else "appeared"))
            pl = data.get("payloads", {})
            if sorted(x.payloads) != sorted(pl):
                rec.fail(tag + ":payloads", "payload frames %s, loaded %s" % (sorted(pl), sorted(x.payloads)))
            for k in set(pl) & set(x.payloads):
                compare(rec, "payload frame " + k, x.payloads[k], offset_want(pl[k], None)[0], tag)


def shipped(case, rec):
    """The descriptions that come with the pipeline."""
    from oplab import Mission, Vehicle

    mp, vp = case
    mission, vehicle = (yaml.safe_load((mc.REPO / "src" / x).read_text()) for x in (mp, vp))
    rec.state(case)
    with mc.scratch() as root:
        p = put(root / "raw", mission, vehicle)
        (root / "raw" / "mission.yaml").write_text((mc.REPO / "src" / mp).read_text())
        (root / "raw" / "vehicle.yaml").write_text((mc.REPO / "src" / vp).read_text())
        m = Mission(p)
        v = Vehicle(root / "raw" / "vehicle.yaml")
        mission_matches(rec, m, mission, "shipped-load")
        q = put(root / "processed", {}, vehicle)
        m.write(q)
        v.write(q.parent / "vehicle.yaml")
        mission_matches(rec, Mission(q), mission, "shipped-save-load")
        w = Vehicle(q.parent / "vehicle.yaml")
        rec.step(4)
        cams = [c.origin for c in m.image.cameras]
        for f, (want, empty) in vehicle_want(vehicle, mission, cams).items():
            for x in (v, w):
                compare(rec, "frame " + f, getattr(x, f), want, "shipped-vehicle")


def body():
    ck = mc.new_check("C14", assumptions=["field values are scalars (payload columns: lists) that YAML can express"])
    mc.silence_console()
    D.stub_version()
    import oplab

    T = ck.thorough
    S = list(SENSORS)
    ck.explore("sensor sets", [c for n in range(len(S) + 1) for c in itertools.combinations(S, n)], sensor_subset, note="every subset of the sensors")
    F = list(FIELD)
    cases = []
    for s in S:
        fs = [f for f in F if not (f == "origin" and SENSORS[s] is None)]
        for n in range(len(fs) + 1):
            for c in itertools.combinations(fs, n):
                if n <= (2 if s == "usbl" or T else 1):
                    vals = itertools.product((0, 1, 2), repeat=n)
                elif T or n == 2 or n >= len(fs) - 1:
                    vals = [(k,) * n for k in (0, 1, 2)] if n > 2 and n >= len(fs) - 1 else [(0,) * n]
                else:
                    continue
                cases += [(s, tuple(zip(c, v))) for v in vals]
        # the label and its old name, and the rest of the pairs that could be mistaken for one another
        for pair in (("label", "id"), ("label", "field_id"), ("timezone", "timeoffset"), ("std_factor", "std_offset"), ("apply_depth_filter", "apply_north_east_filter")):
            cases += [(s, tuple(zip(pair, v))) for v in itertools.product((0, 1, 2), repeat=2)]
    cases = sorted(set(cases))
    ck.explore("sensor fields", cases, sensor_fields, note="%s of the optional fields, for each sensor" % ("every subset" if T else "every subset of up to 2 or missing up to 1, three values per field"))
    CF = ["origin", "topic", "timeoffset", "timeoffset_s", "records_laser"]
    one = [c for n in range(6) for c in itertools.combinations(CF, n)]
    few = [c for c in one if len(c) <= 1 or len(c) == 5]
    cams = [(a,) for a in one] + [(a, b) for a in (one if T else few) for b in one] + [(a, b, c) for a in few for b in few for c in few]
    ck.explore("camera fields", cams, camera_fields, note="1-3 cameras x subsets of the optional fields")
    PF = [c for n in range(4) for c in itertools.combinations(["columns", "timezone", "timeoffset"], n)]
    ck.explore("payloads", [()] + [t for n in (1, 2) + ((3,) if T else ()) for t in itertools.product(PF, repeat=n)], payloads, note="0-%d payloads x subsets of the optional fields" % (3 if T else 2))
    ck.explore("time zones", [(z, w, o) for z in list(ZONES) + UNKNOWN_ZONES for w in ("velocity", "usbl", "tide", "image") for o in (0, -3600.5)], zones, note="every recognised zone and some unknown ones")
    old = [(f, c, v) for f in ("seaxerocks_3", "acfr_standard") for n in range(6) for c in itertools.combinations(S[:5], n) for v in (None, 0)]
    ck.explore("old format", old, old_mission, note="version 0 missions")
    ck.explore("origins", list(itertools.product((0, 0.0, -89.9999999, 50), (-179.999999999, 0.0, 180), ("wgs84", "WGS84", "EPSG:4326 / x", ""), ("2018/11/19", "2018-11-19 10:00", "19 Nov 2018, dive 2", ""))), origins, note="origins, reference systems and dates")
    ck.explore("no date", [(1,), (2,)], undated, note="an origin without a date")
    ck.explore("unknown frame", [(k,) + m for k in ("velocity", "orientation", "depth", "altitude", "usbl", "image") for m in (("name",), ("origin", "nowhere"), ("origin", "ship"), ("origin", "DVL"), ("origin", "dvl2"), ("origin", "Usbl"), ("origin", "p9"), ("origin", ""))] + [("payloads", n) for n in ("p1", "dvl", "P0", "")], refused, note="each sensor, camera or payload in a missing frame")
    fr = ("origin", "ins", "dvl", "depth", "usbl")
    vc = []
    for n in range(6):
        for have in itertools.combinations(fr, n):
            for cams in [(), ("name",), ("origin",), ("name", "name"), ("origin", "origin"), ("name", "origin"), ("origin", "name"), ("name", "name", "name"), ("origin", "origin", "origin"), ("name", "origin", "origin"), ("origin", "name", "origin")]:
                for o in (False, True):
                    if o and "origin" not in have:
                        continue
                    for pls in (0, 2) if not T else (0, 1, 2):
                        for h in (False, True):
                            if not have and not cams or (h and not o):
                                continue
                            vc.append((have, cams, o, pls, h))
    ck.explore("vehicle frames", vc, vehicle_case, note="frames present x cameras x old or new offsets x payloads x old heading offset")
    src = mc.REPO / "src"
    pairs = []
    for mp in sorted(list(src.glob("*/default_yaml/**/mission.yaml"))):
        vp = mp.parent / "vehicle.yaml"
        if vp.exists():
            pairs.append((str(mp.relative_to(src)), str(vp.relative_to(src))))
    ck.explore("shipped descriptions", pairs, shipped, note="the default mission and vehicle files")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
