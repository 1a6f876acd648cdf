"""C15: the numbers in the navigation csv files are the numbers computed."""
import csv
import itertools
import math
import os
import sys
import threading

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

COV = ["x", "y", "z", "roll", "pitch", "yaw"]
STD = [("vehicle_std_x [m]", "northings_std"), ("vehicle_std_y [m]", "eastings_std"), ("vehicle_std_z [m]", "depth_std"), ("vehicle_std_roll [deg]", "roll_std"), ("vehicle_std_pitch [deg]", "pitch_std"), ("vehicle_std_yaw [deg]", "yaw_std"), ("vehicle_std_vx [m/s]", "x_velocity_std"), ("vehicle_std_vy [m/s]", "y_velocity_std"), ("vehicle_std_vz [m/s]", "z_velocity_std"), ("vehicle_std_vroll [deg/s]", "vroll_std"), ("vehicle_std_vpitch [deg/s]", "vpitch_std"), ("vehicle_std_vyaw [deg/s]", "vyaw_std")]
POSE = [("northing [m]", "northings"), ("easting [m]", "eastings"), ("depth [m]", "depth"), ("roll [deg]", "roll"), ("pitch [deg]", "pitch"), ("heading [deg]", "yaw"), ("altitude [m]", "altitude")]
LL = [("latitude [deg]", "latitude"), ("longitude [deg]", "longitude")]
VEL = [("x_velocity [m/s]", "x_velocity"), ("y_velocity [m/s]", "y_velocity"), ("z_velocity [m/s]", "z_velocity")]


def same_names(*names):
    return [(n, n) for n in names]


# column -> attribute, per item type
TABLE = {
    "BodyVelocity": same_names("epoch_timestamp", "x_velocity", "y_velocity", "z_velocity", "x_velocity_std", "y_velocity_std", "z_velocity_std"),
    "InertialVelocity": same_names("epoch_timestamp", "east_velocity", "north_velocity", "down_velocity", "east_velocity_std", "north_velocity_std", "down_velocity_std"),
    "Orientation": same_names("epoch_timestamp", "roll", "pitch", "yaw", "roll_std", "pitch_std", "yaw_std"),
    "Depth": same_names("epoch_timestamp", "depth", "depth_std"),
    "Altitude": same_names("epoch_timestamp", "altitude"),
    "Usbl": same_names("epoch_timestamp", "latitude", "longitude", "northings", "eastings", "depth", "distance_to_ship", "latitude_std", "longitude_std", "northings_std", "eastings_std", "depth_std"),
    "Tide": same_names("epoch_timestamp", "height", "height_std"),
    "SyncedOrientationBodyVelocity": [("timestamp", "epoch_timestamp")] + POSE + LL + STD,
    "Camera": [("relative_path", "filename")] + POSE + [("timestamp [s]", "epoch_timestamp")] + LL + VEL + STD,
    "Payload": POSE[:3] + POSE[6:] + LL,
}
VALUES = [0.0, -0.0, 1.5, -2.25, 1e-9, -1e-9, 1234567890.123456, 179.999999999, -89.123456789012, 1e17, 7, -3, float("nan")]


def make(kind, k, over=None):
    import auv_nav.sensors as S

    o = getattr(S, kind)()
    for j, (_, a) in enumerate(TABLE[kind]):
        setattr(o, a, "image/d%d/PR_%07d.tif" % (k % 2, 3 + k) if a == "filename" else round((-1) ** j * (1000.0 * (j + 1) + 10.0 * k + 0.123456), 6))
    o.epoch_timestamp = 1500000000.25 + k
    if kind == "Payload":
        o.data = {"salinity": 30.5 + k, "temp [C]": -1.25 * k}
    for a, v in (over or {}).items():
        setattr(o, a, v)
    return o


def numeq(text, v):
    if v is None:
        return text in ("None", "", "nan")
    if isinstance(v, str):
        return text == v
    try:
        x = float(text)
    except ValueError:
        return False
    if math.isnan(v):
        return math.isnan(x)
    return mc.close(x, v, 1e-11, 1e-12)


def judge_csv(rec, path, cols, rows, what):
    with open(path, newline="") as f:
        got = list(csv.reader(f, skipinitialspace=True))
    if not got:
        rec.fail("empty-file", what + ": nothing written")
        return
    head = [h.strip() for h in got[0]]
    if head != [c for c, _ in cols]:
        rec.fail("header", "%s: columns are %s, not %s" % (what, head, [c for c, _ in cols]))
        return
    if len(got) - 1 != len(rows):
        rec.fail("rows", "%s: %d rows for %d items" % (what, len(got) - 1, len(rows)))
        return
    for k, (r, w) in enumerate(zip(got[1:], rows)):
        rec.out(tuple(r))
        if len(r) != len(head):
            rec.fail("row-length", "%s: row %d has %d fields for %d columns" % (what, k, len(r), len(head)))
            continue
        for h, t, v in zip(head, r, w):
            if not numeq(t, v):
                rec.fail("value:" + h, "%s: row %d column '%s' is %s, computed %r" % (what, k, h, t, v))


def cov_of(k, value=None, at=None):
    import numpy as np

    if value is not None:
        m = cov_of(k)
        m[at] = value
        return m
    m = np.array([[(-1) ** (i + j) * (100.0 * (i + 1) + 7.0 * (j + 1) + 0.001 * k) for j in range(12)] for i in range(12)])
    return m


def table_case(case, rec):
    from auv_nav.tools.csv_tools import write_csv

    kind, n, over, cov, old, mutex, flag = case
    over = dict(over)
    items = [make(kind, k, over.get(k)) for k in range(n)]
    if cov:
        for k, o in enumerate(items):
            o.covariance = cov_of(k) if cov is True else cov_of(k, cov[0], cov[1])
    cols = list(TABLE[kind])
    rows = [[getattr(o, a) for _, a in cols] for o in items]
    if kind == "Payload":
        cols = cols + same_names("salinity", "temp [C]")
        rows = [r + [o.data["salinity"], o.data["temp [C]"]] for r, o in zip(rows, items)]
    rec.state(case)
    with mc.scratch() as root:
        d = root / "csv" / "sub"
        if old:
            d.mkdir(parents=True)
            for f in ("t.csv", "t_cov.csv"):
                (d / f).write_text("older,longer\n" * 50)
        before = mc.snapshot(root)
        write_csv(d, items, "t", csv_flag=flag, **({"mutex": threading.Lock()} if mutex else {}))
        rec.step()
        after = mc.snapshot(root)
        if not flag or n == 0:
            if any(before.get(k) != after.get(k) for k in set(before) | set(after) if after.get(k) != "dir"):
                rec.fail("written", "%s: a file was written although %s" % (kind, "csv output is off" if not flag else "there is nothing to write"))
            return
        extra = {k for k in after if after[k] != "dir"} - {"csv/sub/t.csv", "csv/sub/t_cov.csv"}
        if extra:
            rec.fail("extra-file", "%s: %s written" % (kind, sorted(extra)))
        if not (d / "t.csv").exists():
            rec.fail("missing-file", "%s: no csv written for %d items" % (kind, n))
            return
        judge_csv(rec, d / "t.csv", cols, rows, "%s csv" % kind)
        if kind == "Camera" and cov:
            cc = [("relative_path", "")] + [("cov_%s_%s" % (a, b), "") for a in COV for b in COV]
            if not (d / "t_cov.csv").exists():
                rec.fail("missing-file", "no covariance csv written")
            else:
                judge_csv(rec, d / "t_cov.csv", cc, [[o.filename] + [float(o.covariance[i, j]) for i in range(6) for j in range(6)] for o in items], "covariance csv")
        elif kind == "Camera" and not old and (d / "t_cov.csv").exists():
            rec.fail("extra-file", "a covariance csv was written for poses without covariance")
        if kind in ("Camera", "SyncedOrientationBodyVelocity"):
            reread(rec, d / "t.csv", kind, items, over)


def reread(rec, path, kind, items, over):
    import pandas as pd
    import auv_nav.sensors as S

    df = pd.read_csv(path)
    for (_, row), o in zip(df.iterrows(), items):
        b = getattr(S, kind)()
        b.from_df(row)
        for _, a in TABLE[kind]:
            v, g = getattr(o, a), getattr(b, a)
            if v is None:
                ok = g is None or g == "None" or (isinstance(g, float) and math.isnan(g))
            elif isinstance(v, str):
                ok = v == g
            else:
                ok = mc.close(float(g), float(v), 1e-11, 1e-12) or (math.isnan(float(v)) and math.isnan(float(g)))
            if not ok:
                rec.fail("reread:" + a, "%s: %s was %r, reads back as %r" % (kind, a, v, g))


def states_case(case, rec):
    """Loading states between two images."""
    from auv_nav.tools.csv_tools import load_states, write_csv

    names, start, end = case
    items = [make("Camera", k, {"filename": f}) for k, f in enumerate(names)]
    for k, o in enumerate(items):
        o.covariance = cov_of(k)
    rec.state(case)
    with mc.scratch() as root:
        write_csv(root, items, "auv_ekf_cam", True)
        try:
            got = load_states(root / "auv_ekf_cam.csv", start, end)
        except SystemExit:
            got = None
        rec.step(2)
        if start not in names:
            if got:
                rec.fail("states-start", "start image %s is not there, but %d states were loaded" % (start, len(got)))
            return
        i = names.index(start)
        want = items[i:]
        if end in names[i:]:
            want = items[i : names.index(end, i) + 1]
        elif end in names[:i]:
            return  # the end comes before the start: nothing is promised
        if got is None or len(got) != len(want):
            rec.fail("states-count", "%s..%s of %s gives %s states instead of %d" % (start, end, names, None if got is None else len(got), len(want)))
            return
        for g, w in zip(got, want):
            rec.out((g.filename, float(g.northings)))
            for _, a in [("", "filename"), ("", "epoch_timestamp")] + POSE[:6] + VEL:
                v, x = getattr(w, a), getattr(g, a)
                if not (v == x if isinstance(v, str) else mc.close(float(x), float(v), 1e-11, 1e-12)):
                    rec.fail("states:" + a, "state %s: %s is %r, not %r" % (w.filename, a, x, v))
            for r in range(6):
                for c in range(6):
                    if not mc.close(float(g.covariance[r][c]), float(w.covariance[r, c]), 1e-11, 1e-12):
                        rec.fail("states-cov", "state %s: covariance element (%d, %d) is %r, not %r" % (w.filename, r, c, g.covariance[r][c], w.covariance[r, c]))


def sidescan_case(case, rec):
    import datetime

    from auv_nav.tools.csv_tools import write_sidescan_csv

    n, over, t0, flag = case
    over = dict(over)
    items = [make("SyncedOrientationBodyVelocity", k, dict(dict(x_velocity=1.5 + k), **over, epoch_timestamp=t0 + k)) for k in range(n)]
    rec.state(case)
    with mc.scratch() as root:
        write_sidescan_csv(root / "a", items, "sss", flag)
        rec.step()
        f = root / "a" / "sss.txt"
        if not flag or not n:
            if f.exists():
                rec.fail("sss-written", "side scan navigation written although there is nothing to write")
            return
        lines = f.read_text().splitlines()
        if lines[0].split() != "#Mission Date Time NorthDeg EastDeg HeadingDeg RollDeg PitchDeg Altitude Depth Speed".split():
            rec.fail("sss-header", "header is %s" % lines[0])
        if len(lines) != n + 1:
            rec.fail("sss-rows", "%d lines for %d poses" % (len(lines) - 1, n))
        for l, o in zip(lines[1:], items):
            w = l.split()
            rec.out(l)
            when = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=math.floor(o.epoch_timestamp))
            want = [when.strftime("%Y%m%d"), when.strftime("%H%M%S")]
            if w[1:3] != want:
                rec.fail("sss-time", "%s written as %s" % (o.epoch_timestamp, w[1:3]))
            for k, (x, v, dec) in enumerate(zip(w[3:], (o.latitude, o.longitude, o.yaw, o.roll, o.pitch, o.altitude, o.depth, o.x_velocity), (6, 6, 3, 3, 3, 3, 3, 3))):
                if abs(float(x) - (v or 0.0)) > 0.51 * 10.0**-dec:
                    rec.fail("sss-value:%d" % k, "value %r written as %s" % (v, x))


def spp_case(case, rec):
    import numpy as np

    from auv_nav.tools.csv_tools import spp_csv

    n, first, info, flag = case[:4]
    nums = [first + k for k in range(n)] if len(case) < 5 else list(case[4])
    items = [make("Camera", k, {"filename": "image/PR_%07d.tif" % x}) for k, x in enumerate(nums)]
    for k, o in enumerate(items):
        m = cov_of(k)
        o.information = np.matrix(m + m.T) if info else None
    rec.state(case)
    with mc.scratch() as root:
        spp_csv(items, "cam", root / "a", flag)
        rec.step()
        f = root / "a" / "cam.txt"
        if not flag or n < 2:
            return
        lines = f.read_text().splitlines()
        if len(lines) != n:
            rec.fail("spp-rows", "%d lines for %d poses" % (len(lines), n))
        perm = [0, 1, 2, 5, 4, 3]
        for k, (l, o) in enumerate(zip(lines, items)):
            w = l.split()
            rec.out(l)
            want = [nums[k] - nums[0], nums[k] - nums[0] + 1, o.northings, o.eastings, o.depth, o.yaw, o.pitch, o.roll]
            if info:
                want += [float(o.information[perm[i], perm[j]]) for i in range(6) for j in range(i, 6)]
            if w[0] != "EDGE3" or len(w) - 1 != len(want) or not all(mc.close(float(a), float(b), 1e-11, 1e-12) for a, b in zip(w[1:], want)):
                rec.fail("spp-row", "pose %d: %s" % (k, l[:120]))


def body():
    ck = mc.new_check("C15", assumptions=["file names hold no commas or quotes", "the covariance is present for all poses of a list or for none"])
    mc.silence_console()
    D.stub_version()
    import auv_nav.tools.csv_tools  # noqa: F401

    T = ck.thorough
    cases = []
    for kind in TABLE:
        covs = (False, True) if kind == "Camera" else (False,)
        for n in range(0, 6 if T else 5):
            for cov in covs:
                for old in (False, True):
                    for mutex in (False, True):
                        for flag in (True, False):
                            cases.append((kind, n, (), cov, old, mutex, flag))
        attrs = [a for _, a in TABLE[kind] if a != "filename"]
        # every value in every field of every position of a short list
        for n in (1, 2, 3) if T else (1, 2):
            for pos in range(n):
                for a in attrs:
                    for v in VALUES + ([None] if a not in ("epoch_timestamp",) else []):
                        cases.append((kind, n, ((pos, {a: v}),), False, False, False, True))
        if kind == "Camera":
            for i, j in itertools.product(range(6), repeat=2):
                for v in (0.0, -0.0, 1e-14, -1.234567890123e-7, 123456789.0123456, float("nan")):
                    cases.append((kind, 2, (), (v, (i, j)), False, False, True))
        for n in (99, 100, 101, 257, 1000, 1025) if not T else (9, 10, 11, 99, 100, 101, 255, 256, 257, 500, 999, 1000, 1001, 1024, 1025, 4097, 10001):
            cases.append((kind, n, (), kind == "Camera", True, False, True))
        if T:
            for a, b in itertools.combinations(attrs, 2):
                for v, w in itertools.product(VALUES[:8], repeat=2):
                    cases.append((kind, 1, ((0, {a: v, b: w}),), False, False, False, True))
    cases = [(k, n, tuple((p, tuple(sorted(o.items(), key=str))) for p, o in ov), c, o2, m, f) for k, n, ov, c, o2, m, f in cases]
    ck.explore("tables", cases, run_table, note="item types x list lengths x values in each field x earlier file x lock x switch")
    names = ["a/1.tif", "a/2.tif", "b/1.tif", "b/10.tif"]
    st = [(names[:n], s, e) for n in (1, 2, 3, 4) for s in names[:n] + ["zz"] for e in names[:n] + ["zz"]]
    st += [(list(p), s, e) for p in itertools.permutations(names, 3) for s in p for e in p]
    ck.explore("states", st, states_case, note="lists of up to 4 states x start and end image, present or not")
    over = [()] + [((a, v),) for a in ("latitude", "longitude", "yaw", "roll", "pitch", "altitude", "depth", "x_velocity") for v in (0.0, -0.125, 359.9995, -179.9999995)]
    ck.explore("side scan", [(n, o, t, f) for n in (0, 1, 3) for o in over for t in (1500000000.25, 1483228799.75, 1709164799.999) for f in (True, False)], sidescan_case, note="poses x values x times across day and year boundaries")
    ck.explore("pose information", [(n, f, i, fl) for n in range(0, 6) for f in (0, 1, 42, 9999990) for i in (True, False) for fl in (True, False)] + [(len(g), 0, True, True, g) for r in (2, 3) for g in itertools.combinations((0, 1, 3, 4, 7, 12), r)], spp_case, note="lists of poses with and without information matrix")
    ck.finish()


def run_table(c, rec):
    kind, n, over, cov, old, mutex, flag = c
    table_case((kind, n, tuple((p, dict(o)) for p, o in over), cov, old, mutex, flag), rec)


if __name__ == "__main__":
    mc.main(body)
