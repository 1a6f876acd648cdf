"""C05: frame and geodetic conversions are rigid, consistent and invertible."""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
from geom import rot, apply

VECS = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (1.0, -2.0, 3.0), (-0.5, 4.0, 0.25), (0.0, 0.0, 0.0)]


def rot_case(c, rec):
    from auv_nav.tools.body_to_inertial import body_to_inertial
    from auv_nav.tools.inertial_to_body import inertial_to_body

    r, p, y = c
    R = rot(r, p, y)
    rec.state(c)
    for v in VECS:
        w = body_to_inertial(r, p, y, *v)
        e = apply(R, v)
        rec.step(4)
        rec.out(w)
        if max(abs(a - b) for a, b in zip(w, e)) > 1e-9:
            rec.fail("body-to-inertial", "attitude %s vector %s -> %s, expected %s" % (c, v, w, e))
            return
        b = inertial_to_body(r, p, y, *w)
        if max(abs(a - q) for a, q in zip(b, v)) > 1e-9:
            rec.fail("not-inverse", "attitude %s: %s -> inertial -> body gives %s" % (c, v, b))
            return
        b = inertial_to_body(r, p, y, *v)
        e = [sum(R[k][i] * v[k] for k in range(3)) for i in range(3)]
        if max(abs(a - q) for a, q in zip(b, e)) > 1e-9:
            rec.fail("inertial-to-body", "attitude %s vector %s -> %s, expected %s" % (c, v, b, e))
            return
        b = body_to_inertial(r, p, y, *b)
        if max(abs(a - q) for a, q in zip(b, v)) > 1e-9:
            rec.fail("not-inverse", "attitude %s: %s -> body -> inertial gives %s" % (c, v, b))
            return


def quat(r, p, y):
    r, p, y = (math.radians(a) / 2 for a in (r, p, y))
    cr, sr, cp, sp, cy, sy = math.cos(r), math.sin(r), math.cos(p), math.sin(p), math.cos(y), math.sin(y)
    return [
        sr * cp * cy - cr * sp * sy,
        cr * sp * cy + sr * cp * sy,
        cr * cp * sy - sr * sp * cy,
        cr * cp * cy + sr * sp * sy,
    ]


def quat_case(c, rec):
    import numpy as np
    from auv_nav.tools import transformations as T

    r, p, y, sign = c
    R = np.array(rot(r, p, y))
    q = [sign * x for x in quat(r, p, y)]
    ang = T.euler_from_quaternion(q)
    rec.step(5)
    rec.state(c)
    rec.out(ang)
    got = np.array(rot(*[math.degrees(a) for a in ang]))
    if np.abs(got - R).max() > 1e-6:
        rec.fail("quaternion", "attitude %s (sign %d) is read back from its quaternion as %s deg" % ((r, p, y), sign, [math.degrees(a) for a in ang]))
    rad = [math.radians(a) for a in (r, p, y)]
    M = T.euler_matrix(*rad)
    if np.abs(M[:3, :3] - R).max() > 1e-9 or np.abs(M[3] - [0, 0, 0, 1]).max() > 0 or np.abs(M[:3, 3]).max() > 0:
        rec.fail("euler-matrix", "attitude %s" % (c,))
    M2 = T.quaternion_matrix(q)
    if np.abs(M2[:3, :3] - R).max() > 1e-9:
        rec.fail("quaternion-matrix", "attitude %s" % (c,))
    a3 = T.euler_from_matrix(M)
    if np.abs(np.array(rot(*[math.degrees(a) for a in a3])) - R).max() > 1e-6:
        rec.fail("euler-from-matrix", "attitude %s -> %s" % (c, a3))
    q2 = T.quaternion_from_euler(*rad)
    if min(np.abs(np.array(q2) - q).max(), np.abs(np.array(q2) + q).max()) > 1e-9:
        rec.fail("quaternion-from-euler", "attitude %s -> %s expected %s" % (c, q2, q))


def ellipsoid_offset(lat, lon, e, n):
    """First-order offset on WGS84 (independent of geographiclib)."""
    a, f = 6378137.0, 1 / 298.257223563
    e2 = f * (2 - f)
    s = math.sin(math.radians(lat))
    w = math.sqrt(1 - e2 * s * s)
    M = a * (1 - e2) / w**3
    N = a / w
    return math.degrees(n / M), math.degrees(e / (N * math.cos(math.radians(lat))))


def geo_case(c, rec):
    from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon

    lat, lon, e, n = c
    la, lo = metres_to_latlon(lat, lon, e, n)
    d, b = latlon_to_metres(la, lo, lat, lon)
    rec.step(2)
    rec.state(c)
    rec.out((la, lo))
    ge, gn = d * math.sin(math.radians(b)), d * math.cos(math.radians(b))
    if abs(ge - e) > 1e-4 or abs(gn - n) > 1e-4:
        rec.fail("not-inverse", "offset (E %r, N %r) about (%r, %r) comes back as (%r, %r)" % (e, n, lat, lon, ge, gn))
    if d < 0:
        rec.fail("distance-sign", "negative distance %r" % d)
    dla, dlo = ellipsoid_offset(lat, lon, e, n)
    # second-order terms of the series, generous
    h = math.hypot(e, n)
    tol = 1e-9 + math.degrees((h / 6.35e6) ** 2) * 3 / max(0.05, math.cos(math.radians(lat))) ** 2
    gl = (lo - lon + 180) % 360 - 180
    if abs((la - lat) - dla) > tol or abs(gl - dlo) > tol:
        rec.fail("offset", "offset (E %r, N %r) about (%r, %r) moves lat/lon by (%r, %r), expected (%r, %r)" % (e, n, lat, lon, la - lat, gl, dla, dlo))
    if not (-90 <= la <= 90 and -180 <= lo <= 180):
        rec.fail("range", "latitude/longitude %r %r" % (la, lo))


def body():
    chk = mc.new_check("C05", assumptions=["geodetic grid stays below 80 degrees latitude and offsets below 10 km, the scale of a dive"])
    import auv_nav.tools.body_to_inertial, auv_nav.tools.transformations  # noqa

    step = 15 if not chk.thorough else 5
    rolls = [float(a) for a in range(-180, 181, step)]
    pit = [float(a) for a in range(-90, 91, step)]
    yaws = [float(a) for a in range(0, 361, step)]
    odd = [(1.3, -0.7, 123.4), (359.5, 12.0, -45.0), (0.001, 0.002, 359.999)]
    chk.explore("rotations", list(itertools.product(rolls, pit, yaws)) + odd, rot_case, "full attitude grid, %d degrees, times %d vectors" % (step, len(VECS)))
    chk.explore(
        "quaternions",
        [(r, p, y, s) for r in rolls[::2] for p in pit[::2] for y in yaws[::2] for s in (1, -1)],
        quat_case,
        "attitude grid, both quaternion signs",
    )
    lats = [-79.0, -55.5, -35.0, -0.001, 0.0, 0.001, 22.5, 50.0, 79.0]
    lons = [-179.9999, -123.0, -1.0, -0.0001, 0.0, 0.0001, 1.0, 139.0, 179.9999]
    offs = [0.0, 0.01, -0.5, 1.0, -10.0, 123.0, -1000.0, 9999.0]
    if chk.thorough:
        lats = [x * 10.0 for x in range(-7, 8)] + lats
        lons = [x * 20.0 for x in range(-8, 9)] + lons
    chk.explore("geodesy", list(itertools.product(lats, lons, offs, offs)), geo_case, "position x offset grid including the equator and both date-line sides")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
