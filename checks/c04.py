"""C04: interpolated values lie on the segment between the neighbouring samples."""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc

T0 = 1500000000.0


def rot(roll, pitch, yaw):
    r, p, y = (math.radians(a) for a in (roll, pitch, yaw))
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    Rz = [[cy, -sy, 0], [sy, cy, 0], [0, 0, 1]]
    Ry = [[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]]
    Rx = [[1, 0, 0], [0, cr, -sr], [0, sr, cr]]
    mul = lambda A, B: [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    return mul(Rz, mul(Ry, Rx))


def apply(R, v):
    return [sum(R[i][k] * v[k] for k in range(3)) for i in range(3)]


def lerp(t, t0, t1, a, b):
    if a is None or b is None:
        return None
    w = 0.0 if t1 == t0 else (t - t0) / (t1 - t0)
    return (1 - w) * a + w * b


def yaw_lerp(t, t0, t1, a, b):
    w = 0.0 if t1 == t0 else (t - t0) / (t1 - t0)
    d = (b - a + 180.0) % 360.0 - 180.0
    return (a + w * d) % 360.0


# ------------------------------------------------------------------ scalar
def scalar_case(c, rec):
    from auv_nav.tools.interpolate import interpolate

    x0, x1, y0, y1, w = c
    x = x0 + (x1 - x0) * w if w not in (0.0, 1.0) else (x0 if w == 0 else x1)
    got = interpolate(x, x0, x1, y0, y1)
    rec.step()
    rec.state(c)
    rec.out(got)
    want = lerp(x, x0, x1, y0, y1)
    # the time difference itself is rounded: scale the tolerance with it
    if x0 == x1:
        ok = got in (y0, y1)
    else:
        ok = mc.close(got, want, 1e-9, 1e-9 * (1 + abs(y1 - y0) / abs(x1 - x0)))
    if not ok:
        rec.fail("scalar", "interpolate%s = %r, expected %r" % ((x, x0, x1, y0, y1), got, want))


# ------------------------------------------------------------------ sensor lists
PROPS = ["northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std", "x_velocity_std", "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std"]
LIN = ["roll", "pitch", "x_velocity", "y_velocity", "z_velocity"]


def centre(times, yaws, cov, std):
    import numpy as np
    from auv_nav.sensors import SyncedOrientationBodyVelocity

    out = []
    for k, (t, y) in enumerate(zip(times, yaws)):
        s = SyncedOrientationBodyVelocity()
        s.epoch_timestamp = t
        s.roll = [2.0, -5.0, 11.0, 3.0][k]
        s.pitch = [-3.0, 7.0, 1.0, -9.0][k]
        s.yaw = y
        s.x_velocity, s.y_velocity, s.z_velocity = 1.0 + 0.5 * k * k, -0.3 + 0.2 * k, 0.1 - 0.07 * k * k
        s.northings, s.eastings = 10.0 + 4 * k * k, -20.0 + 3 * k
        s.depth, s.altitude = 100.0 + 2 * k * k, 8.0 - 1.5 * k
        for n, p in enumerate(PROPS):
            setattr(s, p, 0.1 + 0.05 * n + 0.3 * k if std else None)
        s.covariance = np.diag([1.0 + k + 0.1 * i for i in range(12)]) if cov else None
        out.append(s)
    return out


def list_case(c, rec):
    import numpy as np
    from auv_nav.sensors import Camera
    from auv_nav.tools.interpolate import interpolate_sensor_list

    times, yaws, queries, off, org, cov, std, lat, lon = c
    cl = centre(times, yaws, cov, std)
    sl = []
    for k, q in enumerate(queries):
        s = Camera()
        s.epoch_timestamp = q
        s.filename = "img%d" % k
        sl.append(s)
    names = [(s.filename, s.epoch_timestamp) for s in sl]
    snap = [dict(x.__dict__) for x in cl]
    interpolate_sensor_list(sl, "cam", list(off), list(org), [lat, lon], cl)
    rec.step(len(queries))
    want = [(n, q) for n, q in names if times[0] <= q <= times[-1]]
    got = [(s.filename, s.epoch_timestamp) for s in sl]
    rec.state((times, queries, tuple(got)))
    rec.out(got)
    if got != want:
        rec.fail("kept-set", "navigation %s queries %s: kept %s, expected %s" % (times, queries, got, want))
        return
    for a, b in zip(snap, cl):
        for k in a:
            x, y = a[k], b.__dict__[k]
            same = np.array_equal(x, y) if isinstance(x, np.ndarray) else (x == y or (x != x and y != y))
            if not same:
                rec.fail("navigation-modified", "%s changed from %r to %r" % (k, x, y))
                return
    for s in sl:
        q = s.epoch_timestamp
        j = next(i for i in range(len(times)) if times[i] >= q)
        lo, hi = (j - 1, j) if j > 0 else (0, 0)
        if times[j] == q:
            lo = hi = j
        a, b = cl[lo], cl[hi]
        L = lambda n: lerp(q, times[lo], times[hi], getattr(a, n), getattr(b, n))
        exp = {n: L(n) for n in LIN + PROPS}
        yaw = yaw_lerp(q, times[lo], times[hi], a.yaw, b.yaw)
        if not mc.angle_close(s.yaw, yaw, 1e-4) or not -1e-9 <= s.yaw <= 360 + 1e-9:
            rec.fail("heading", "navigation %s headings %s: heading %r at %r, expected %r" % (times, yaws, s.yaw, q, yaw))
        arm = apply(rot(exp["roll"], exp["pitch"], yaw), [off[i] - org[i] for i in range(3)])
        exp["northings"] = L("northings") + arm[0]
        exp["eastings"] = L("eastings") + arm[1]
        exp["depth"] = L("depth") + arm[2]
        exp["altitude"] = L("altitude") - arm[2]
        for n, e in exp.items():
            g = getattr(s, n)
            if not mc.close(g, e, 1e-6, 2e-5):
                rec.fail("value:" + n, "navigation %s queries %s: %s=%r at %r, expected %r" % (times, queries, n, g, q, e))
        from geographiclib.geodesic import Geodesic

        r = Geodesic.WGS84.Direct(lat, lon, math.degrees(math.atan2(exp["eastings"], exp["northings"])), math.hypot(exp["eastings"], exp["northings"]))
        if abs(s.latitude - r["lat2"]) > 1e-8 or not mc.angle_close(s.longitude, r["lon2"], 1e-8):
            rec.fail("latlon", "lat/lon %r %r, expected %r %r" % (s.latitude, s.longitude, r["lat2"], r["lon2"]))
        if cov:
            w = 0.0 if times[hi] == times[lo] else (q - times[lo]) / (times[hi] - times[lo])
            e = (1 - w) * a.covariance + w * b.covariance
            if s.covariance is None or not np.allclose(s.covariance, e, 1e-5, 1e-6):
                rec.fail("covariance", "covariance at %r is not the weighted average" % q)
        if rec.fails:
            return


# ------------------------------------------------------------------ pairs
def dvl_case(c, rec):
    from auv_nav.tools.interpolate import interpolate_dvl, interpolate_usbl
    from auv_nav.sensors import SyncedOrientationBodyVelocity, Usbl

    ya, yb, w = c
    a, b = centre([T0, T0 + 2.0], [ya, yb], False, False)
    q = T0 + 2.0 * w
    g = interpolate_dvl(q, a, b)
    rec.step(2)
    rec.state(c)
    rec.out(g.yaw)
    if g.epoch_timestamp != q:
        rec.fail("time", "interpolated record has time %r instead of %r" % (g.epoch_timestamp, q))
    e = yaw_lerp(q, T0, T0 + 2, ya, yb)
    opposite = abs(abs(ya - yb) - 180) < 1e-9
    if not (mc.angle_close(g.yaw, e, 1e-6) or (opposite and any(mc.angle_close(g.yaw, ya + s * w * 180, 1e-6) for s in (1, -1)))):
        rec.fail("heading-dvl", "between %r and %r at %r: %r, expected %r" % (ya, yb, w, g.yaw, e))
    for n in LIN:
        e = lerp(q, T0, T0 + 2, getattr(a, n), getattr(b, n))
        if not mc.close(getattr(g, n), e, 1e-7, 1e-7):
            rec.fail("value-dvl:" + n, "%r expected %r" % (getattr(g, n), e))
    u, v = Usbl(), Usbl()
    for k, n in enumerate(["northings", "eastings", "northings_std", "eastings_std", "depth"]):
        setattr(u, n, 1.0 + k + ya)
        setattr(v, n, 5.0 - 2 * k + yb)
    u.epoch_timestamp, v.epoch_timestamp = T0, T0 + 2
    g = interpolate_usbl(q, u, v)
    for n in ["northings", "eastings", "northings_std", "eastings_std", "depth"]:
        e = lerp(q, T0, T0 + 2, getattr(u, n), getattr(v, n))
        if not mc.close(getattr(g, n), e, 1e-7, 1e-6):
            rec.fail("value-usbl:" + n, "%r expected %r" % (getattr(g, n), e))


def camera_case(c, rec):
    from auv_nav.sensors import Camera
    from auv_nav.tools.interpolate import interpolate_camera

    times, yaws, q = c
    cl = []
    for k, (t, y) in enumerate(zip(times, yaws)):
        s = Camera()
        s.epoch_timestamp = t
        s.filename = "c%d" % k
        s.yaw = y
        for n, p in enumerate(["northings", "eastings", "depth", "latitude", "longitude", "roll", "pitch", "x_velocity", "y_velocity", "z_velocity", "altitude"]):
            setattr(s, p, (n + 1) * (k * k - 2.0 * k) + n)
        cl.append(s)
    g = interpolate_camera(q, cl, "laser1")
    rec.step()
    rec.state(c)
    rec.out((g.yaw, g.northings))
    j = next(i for i in range(len(times)) if times[i] >= q)
    lo = j if times[j] == q else j - 1
    a, b = cl[lo], cl[j]
    if g.filename != "laser1" or g.epoch_timestamp != q:
        rec.fail("camera-identity", "%r %r" % (g.filename, g.epoch_timestamp))
    for p in ["northings", "eastings", "depth", "latitude", "longitude", "roll", "pitch", "x_velocity", "y_velocity", "z_velocity", "altitude"]:
        e = lerp(q, times[lo], times[j], getattr(a, p), getattr(b, p))
        if not mc.close(getattr(g, p), e, 1e-6, 1e-5):
            rec.fail("camera-value:" + p, "poses at %s, query %r: %s=%r expected %r" % (times, q, p, getattr(g, p), e))
            return
    e = yaw_lerp(q, times[lo], times[j], a.yaw, b.yaw)
    w = 0.0 if times[j] == times[lo] else (q - times[lo]) / (times[j] - times[lo])
    opposite = abs(abs(a.yaw - b.yaw) - 180) < 1e-9
    if not mc.angle_close(g.yaw, e, 1e-4) and not (opposite and any(mc.angle_close(g.yaw, a.yaw + s * w * 180, 1e-4) for s in (1, -1))):
        rec.fail("camera-heading", "poses at %s headings %s, query %r: %r expected %r" % (times, yaws, q, g.yaw, e))


def body():
    chk = mc.new_check("C04", assumptions=["navigation and query lists are in time order", "two headings exactly 180 degrees apart may be averaged either way"])
    mc.silence_console()
    import auv_nav.tools.interpolate  # noqa

    vals = [-7.5, -1.0, 0.0, 0.25, 3.0, 1000.0]
    cases = []
    for x0, x1 in [(0.0, 1.0), (T0, T0 + 0.5), (T0, T0 + 100.0), (-3.0, 9.0), (T0, T0), (5.0, 2.0)]:
        for y0, y1 in itertools.product(vals, repeat=2):
            for w in (0.0, 0.125, 0.5, 0.75, 1.0):
                cases.append((x0, x1, y0, y1, w))
    chk.explore("scalar", cases, scalar_case, "value x weight grid")

    cases = []
    gaps = [1.0, 0.5, 2.0]
    zero = (0.0, 0.0, 0.0)
    offs = [(zero, zero), ((1.0, 0.25, 0.5), (0.0, 0.0, 0.0)), ((-0.5, 2.0, -1.0), (0.3, -0.4, 0.6))]
    yawsets = [(350.0, 10.0, 30.0, 5.0), (5.0, 355.0, 200.0, 21.0), (10.0, 20.0, 190.0, 359.0)]
    nmax = 4
    for n in range(1, nmax + 1):
        times = tuple(T0 + sum(gaps[:k]) for k in range(n))
        places = [times[0] - 5.0, times[0] - 0.125]
        for k in range(n):
            places.append(times[k])
            if k + 1 < n:
                d = times[k + 1] - times[k]
                places += [times[k] + 0.25 * d, times[k] + 0.75 * d]
        places += [times[-1] + 0.125, times[-1] + 5.0]
        for m in (1, 2, 3, 4) if not chk.thorough else (1, 2, 3, 4, 5):
            for qs in itertools.combinations_with_replacement(places, m):
                for o, (off, org) in enumerate(offs if m < 3 else offs[1:2]):
                    ys = yawsets[(m + o) % 3]
                    cases.append((times, ys[:n], qs, off, org, m != 1, m != 2, 50.0, -1.0))
    # heading pairs and hemispheres through the list interface
    step = 30 if not chk.thorough else 10
    for a in range(0, 360, step):
        for b in range(0, 360, step):
            if (a - b) % 360 == 180:
                continue
            times = (T0, T0 + 1.0)
            lat, lon = [(50.0, -1.0), (-35.0, 139.0), (0.0, 179.9999), (70.0, -179.9999)][(a + b) // step % 4]
            cases.append((times, (float(a), float(b)), (T0, T0 + 0.25, T0 + 0.75, T0 + 1.0), (1.0, 0.25, 0.5), zero, True, True, lat, lon))
    chk.explore("sensor-lists", cases, list_case, "all placements of up to 4 (thorough 5) queries relative to up to %d navigation samples, heading pairs on a %d degree grid" % (nmax, step))

    step = 10 if not chk.thorough else 5
    cases = [(float(a), float(b), w) for a in range(0, 361, step) for b in range(0, 361, step) for w in (0.0, 0.25, 0.5, 1.0)]
    chk.explore("pairs", cases, dvl_case, "all heading pairs on a %d degree grid" % step)

    cases = []
    for n in (1, 2, 3, 4):
        times = tuple(T0 + sum([1.0, 0.5, 2.0][:k]) for k in range(n))
        qs = list(times) + [times[k] + f * (times[k + 1] - times[k]) for k in range(n - 1) for f in (0.25, 0.75)]
        for ys in itertools.product([0.0, 10.0, 170.0, 200.0, 350.0], repeat=n):
            for q in qs:
                cases.append((times, ys, q))
    chk.explore("laser-poses", cases, camera_case, "all placements of one query in up to 4 camera poses and heading sequences")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
