"""C20: laser planes, rays and triangulated points satisfy their geometric definitions."""
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mc
import dataset as D
import numpy as np
import yaml
import c17

SLOPES = (-0.5, -0.1, 0.0, 0.1, 0.5)
OFFSETS = (-3.0, -1.5, -0.2, 0.2, 1.5, 3.0)


def lattice(b, c, d, ny=5, nz=5):
    y, z = np.meshgrid(np.linspace(-3, 3, ny), np.linspace(3, 12, nz))
    y, z = y.ravel(), z.ravel()
    return np.c_[-(b * y + c * z + d), y, z]


def gap(plane, pts):
    """true distances of points from a x + b y + c z + d = 0"""
    plane = np.asarray(plane, float)
    return np.abs(np.asarray(pts, float) @ plane[:3] + plane[3]) / np.linalg.norm(plane[:3])


def coeffs_case(case, rec):
    """a plane is the same whatever the common scale of its coefficients"""
    from auv_cal.plane_fitting import Plane

    b, c, d, k = case
    rec.state(case)
    pl = Plane([k, k * b, k * c, k * d])
    rec.step()
    n = math.sqrt(1 + b * b + c * c)
    e = np.array([1, b, c, d]) / n * (1 if k > 0 else -1)
    rec.out(np.round(pl.coeffs, 9).tobytes())
    if not np.allclose(pl.coeffs, e, atol=1e-9) or abs(np.linalg.norm(pl.normal) - 1) > 1e-9:
        rec.fail("scale", "plane %s is stored as %s, normal %s" % ([k, k * b, k * c, k * d], pl.coeffs, pl.normal))
    if gap(e, [pl.point])[0] > 1e-6:
        rec.fail("point", "the point of plane %s does not lie on it" % e)
    for p in itertools.product((-2.0, 0.0, 3.0), repeat=3):
        if abs(pl.distance(np.array(p)) - gap(e, [p])[0]) > 1e-9:
            rec.fail("distance", "distance of %s from plane %s is %s" % (p, e, pl.distance(np.array(p))))
            break
    for o in ((0.0, 0.0, 0.0), (1.0, -2.0, 3.0)):
        for v in itertools.product((-1.0, 0.0, 2.0), repeat=3):
            if not any(v):
                continue
            o_, v_ = np.array(o), np.array(v)
            x = pl.ray_intersection(o_, v_)
            rec.step()
            if list(v_) != list(v) or list(o_) != list(o):
                rec.fail("altered", "the ray is changed by intersecting it")
            s = float(np.dot(e[:3], v))
            if x is None:
                if abs(s) > 1e-12:
                    rec.fail("parallel", "ray %s is taken as parallel to plane %s" % (v, e))
                continue
            if abs(s) < 1e-9:
                continue
            if gap(e, [x])[0] > 1e-6 * (1 + np.abs(x).max()) or np.linalg.norm(np.cross(np.asarray(x) - o, v)) > 1e-6 * (1 + np.abs(x).max()):
                rec.fail("ray", "intersection %s of ray %s + t %s is not on the ray and on plane %s" % (x, o, v, e))


def fit_case(case, rec):
    """exact points: the plane contains them, in whatever order they come"""
    from auv_cal.plane_fitting import Plane

    b, c, d, order = case
    rec.state(case)
    pts = lattice(b, c, d)
    n = len(pts)
    idx = {"asis": list(range(n)), "reversed": list(range(n))[::-1], "mixed": [(7 * i) % n for i in range(n)]}[order]
    pts = pts[idx]
    keep = pts.copy()
    m, inl = Plane([1, 0, 0, 1.5]).fit(pts, 0.002, verbose=False)
    rec.step()
    rec.out(np.round(m, 4).tobytes())
    if gap(m, pts).max() > 1e-4:
        rec.fail("fit", "the plane fitted to points of x%+gy%+gz%+g=0 misses them by %.4f m" % (b, c, d, gap(m, pts).max()))
    if len(inl) != n:
        rec.fail("inliers", "%d of %d points on the plane are taken as inliers" % (len(inl), n))
    if abs(np.linalg.norm(m[:3]) - 1) > 1e-6:
        rec.fail("unit", "the normal has length %s" % np.linalg.norm(m[:3]))
    m = Plane().fit_non_robust(list(pts))
    rec.step()
    if gap(m, pts).max() > 1e-6:
        rec.fail("linear", "the plane fitted linearly to points of x%+gy%+gz%+g=0 misses them by %.4f m" % (b, c, d, gap(m, pts).max()))
    if not np.array_equal(pts, keep):
        rec.fail("altered", "the points are changed")


def inlier_case(case, rec):
    """points off the plane: the inliers are exactly those within the tolerance of the plane returned"""
    from auv_cal.plane_fitting import Plane

    (b, c, d), offs, tol = case
    rec.state(case)
    pts = lattice(b, c, d)
    n = np.array([1, b, c]) / math.sqrt(1 + b * b + c * c)
    for k, o in offs:
        pts[k] += n * o
    m, inl = Plane([1, 0, 0, 1.5]).fit(pts, tol, verbose=False)
    rec.step()
    g = gap(m, pts)
    rec.out(len(inl))
    sure = {tuple(p) for p, x in zip(pts, g) if x < tol - 1e-6}
    maybe = {tuple(p) for p, x in zip(pts, g) if x < tol + 1e-6}
    got = {tuple(p) for p in inl}
    if not sure <= got <= maybe:
        rec.fail("inliers", "inliers within %g m of the plane: %d, of which returned %d, others returned %d" % (tol, len(sure), len(sure & got), len(got - maybe)))
    ref = min((gap([1, b, c, d], pts) ** 2).sum(), 1e9)
    if (g**2).sum() > ref * 1.0001 + 1e-6:
        rec.fail("worse", "the fitted plane explains the points worse than the plane they were made from")


def three_case(case, rec):
    from auv_cal.laser_calibrator import plane_through_3_points

    pts = [np.array(p, float) for p in case]
    rec.state(case)
    n = np.cross(pts[1] - pts[0], pts[2] - pts[0])
    if np.linalg.norm(n) < 1e-9:
        return
    m = plane_through_3_points([p.copy() for p in pts])
    rec.step()
    rec.out(np.round(m, 9).tobytes())
    if np.linalg.norm(m[:3]) < 1e-12 or gap(m, pts).max() > 1e-9:
        rec.fail("three", "the plane through %s is %s" % (case, m))


def angles_case(case, rec):
    """reported angles reproduce the plane"""
    from auv_cal.laser_calibrator import build_plane, get_angles, opencv_to_ned

    nrm, k, point = case
    rec.state(case)
    n = np.array(nrm) * k
    a, pitch, yaw = get_angles(list(n))
    pl, un, off = build_plane(pitch, yaw, np.array(point))
    rec.step()
    rec.out((round(a, 9), round(pitch, 9), round(yaw, 9)))
    u = n / np.linalg.norm(n) * np.sign(n[0])
    if not np.allclose(un, u, atol=1e-9):
        rec.fail("angles", "normal %s has pitch %s, yaw %s which give normal %s" % (n, pitch, yaw, un))
    if abs(a - math.degrees(math.acos(min(1.0, u[0])))) > 1e-5:
        rec.fail("angle", "normal %s is reported %s deg from the x axis" % (n, a))
    if gap(pl, [point])[0] > 1e-9 or not np.allclose(pl[:3] / np.linalg.norm(pl[:3]), u, atol=1e-9):
        rec.fail("build", "plane of pitch %s, yaw %s through %s is %s" % (pitch, yaw, point, pl))
    p = opencv_to_ned(np.array(point))
    if [round(float(x), 4) for x in np.ravel(p)] != [round(x, 4) for x in (-point[1], point[0], point[2])]:
        rec.fail("ned", "point %s of the camera becomes %s" % (point, np.ravel(p)))


# ------------------------------------------------------------------ triangulation
def stereo(f, cx, cy, base, rot=0.0, w=240, h=160):
    """rectified pair, displaced along the columns (as the pairing of laser peaks needs it)"""
    from oplab import StereoCamera

    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sc = StereoCamera.__new__(StereoCamera)
        from oplab import MonoCamera

        sc.left, sc.right = MonoCamera(), MonoCamera()
    K = np.array([[f, 0, cx], [0, f, cy], [0, 0, 1.0]])
    c, s = math.cos(rot), math.sin(rot)
    R = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])
    for cam, t in ((sc.left, 0.0), (sc.right, base)):
        cam.K, cam.d, cam.R = K.copy(), np.zeros((5, 1)), R.copy()
        cam.P = np.c_[K, K @ np.array([0.0, -t, 0.0])]
        cam.image_width, cam.image_height = w, h
        cam.name = "LC"
    return sc


def see(cam, x):
    p = cam.P @ np.append(x, 1.0)
    return p[:2] / p[2]  # u, v


def triangulate_case(case, rec):
    from auv_cal.laser_calibrator import triangulate_dlt, triangulate_lst

    f, cx, cy, base, x = case
    rec.state(case)
    sc = stereo(f, cx, cy, base)
    x = np.array(x, float)
    a, b = see(sc.left, x), see(sc.right, x)
    for name, fn in (("lst", triangulate_lst), ("dlt", triangulate_dlt)):
        g = fn([a[1], a[0]], [b[1], b[0]], sc.left.P, sc.right.P)
        rec.step()
        if not np.allclose(g, x, rtol=1e-6, atol=1e-6):
            rec.fail(name, "point %s seen at %s and %s is triangulated to %s" % (x, a, b, g))
    g = sc.triangulate_point(a, b)
    rec.out(np.round(g, 6).tobytes())
    if not np.allclose(g, x, rtol=1e-6, atol=1e-6):
        rec.fail("stereo", "point %s seen at %s and %s is triangulated to %s" % (x, a, b, g))


def peaks_case(case, rec):
    """laser peaks of two images: paired by column whatever is missing on either side"""
    from auv_cal.laser_calibrator import LaserCalibrator

    left, right, behind, remap = case
    rec.state(case)
    rot = 0.2
    sc = stereo(400.0, 120.0, 80.0, 0.5, rot)
    lc = LaserCalibrator(sc, {"detection": {"remap": remap}}, 1)
    cols = (90, 100, 101, 110, 150)
    pts = {c: np.array([(c - 120.0) / 400.0 * z, 0.3 * z * 0.1, z]) * (-1 if k in behind else 1) for k, (c, z) in enumerate(zip(cols, (3.0, 4.0, 5.0, 6.0, 7.0)))}

    def peak(cam, keep):
        out = []
        for k, c in enumerate(cols):
            if keep[k]:
                u, v = see(cam, pts[c])
                out.append([v, c])
        return np.array(out, dtype=np.float64).reshape(-1, 2)

    cloud, good, bad = lc.pointcloud_from_peaks(peak(sc.left, left), peak(sc.right, right))
    rec.step()
    both = [k for k in range(5) if left[k] and right[k]]
    R = sc.left.R
    e = [pts[cols[k]] for k in both if k not in behind]
    if remap:
        e = [R.T @ x for x in e]
    rec.out(np.round(np.array(cloud), 5).tobytes())
    if (good, bad) != (len(e), len(both) - len(e)):
        rec.fail("count", "columns %s / %s give %d points and %d behind the camera" % (left, right, good, bad))
    if len(cloud) != len(e) or any(not np.allclose(np.ravel(a), b, rtol=1e-4, atol=1e-4) for a, b in zip(cloud, e)):
        rec.fail("points", "columns %s / %s: points %s instead of %s" % (left, right, [np.round(np.ravel(x), 3) for x in cloud], e))


def strata_case(case, rec):
    """stratified sampling: never outside the range, per bin as many points as there are up to the limit"""
    import random
    from auv_cal.laser_calibrator import LaserCalibrator

    counts, limit, lo, size = case
    rec.state(case)
    nb = len(counts) - 2
    lc = LaserCalibrator(stereo(400.0, 120.0, 80.0, 0.5), {"stratify": {"min_z_m": lo, "max_z_m": lo + nb * size, "number_of_bins": nb, "max_bin_elements": limit}}, 1)
    cloud = []
    for b, n in enumerate(counts):
        for k in range(n):
            z = lo + (b - 1) * size + (0.0 if k == 0 else size * k / 8.0)
            cloud.append(np.array([[0.001 * len(cloud)], [1.0], [z]]))
    random.seed(1)
    orig = sorted(tuple(np.ravel(p)) for p in cloud)
    out = lc.z_stratified_sampling(list(cloud))
    rec.step()
    got = [tuple(np.ravel(p)) for p in out]
    rec.out(len(got))
    if len(set(got)) != len(got) or not set(got) <= set(orig):
        rec.fail("points", "the sample has points that are not in the cloud, or some twice")
    for b in range(1, nb + 1):
        have = sum(1 for p in orig if lo + (b - 1) * size <= p[2] < lo + b * size)
        take = sum(1 for p in got if lo + (b - 1) * size <= p[2] < lo + b * size)
        if take != min(have, limit):
            rec.fail("bin", "bin %d of %d points gives %d, limit %d" % (b, have, take, limit))
    if any(not lo <= p[2] < lo + nb * size for p in got):
        rec.fail("range", "points outside the depth range are used")


# ------------------------------------------------------------------ laser detection and whole calibration
def draw(rows, w=180, h=60, peak=200, width=1, dtype=np.uint8):
    img = np.zeros((h, w), np.float64)
    for u, v in rows.items():
        for k in range(h):
            img[k, u] += peak * max(0.0, 1 - abs(k - v) / (width + 0.5))
    return img.astype(dtype)


def detect_case(case, rec):
    """laser line: found in every column that shows it, at its row"""
    from auv_cal.laser_calibrator import findLaserInImage

    present, row, second, k, dtype = case
    rec.state(case)
    cols = list(range(80, 100))
    top = {"uint8": 255, "uint16": 65535}[dtype]
    rows = {c: row + 0.25 * i for i, c in enumerate(cols) if present[i % len(present)]}
    img = draw(rows, peak=0.8 * top, dtype=dtype)
    faint = draw({c: 50.0 for c in cols}, peak=0.3 * top, dtype=dtype) if second else 0
    img = img + faint
    g = findLaserInImage(img, 0.5, k, 0, 0, -1)
    rec.step()
    got = {int(u): v for v, u in g}
    rec.out((len(got), round(sum(got.values()), 6)))
    if sorted(got) != sorted(rows):
        rec.fail("columns", "laser visible in columns %s is found in %s" % (sorted(rows), sorted(got)))
        return
    off = max([abs(got[c] - rows[c]) for c in rows], default=0)
    if off > 0.75:
        rec.fail("row", "laser at row %s is found up to %.2f rows off" % (row, off))
    if second:
        # the other laser, in its own rows
        g = findLaserInImage(img, 0.1, k, 0, 44, 58)
        rec.step()
        if len(g) != len(cols) or any(abs(v - 50.0) > 0.75 for v, _ in g):
            rec.fail("rows", "the laser between rows 44 and 58 is found in %d of %d columns" % (len(g), len(cols)))
    g = findLaserInImage(np.zeros_like(img), 0.1, k, 0, 0, -1)
    if len(g):
        rec.fail("dark", "a laser is found in a black image")


def cal_case(case, rec):
    """whole laser calibration from image files, twice (the second time from the detections kept)"""
    import random

    import cv2
    from auv_cal import laser_calibrator as L
    import joblib

    (b, c, d), two, drop, remap = case
    rec.state(case)
    w, h, f, base = 360, 240, 150.0, 0.3
    sc = stereo(f, w / 2.0, h / 2.0, base, 0.0, w, h)
    planes = [(b, c, d)] + ([(b, c - 0.5, d)] if two else [])

    def images(folder, cam, t, names, keep):
        folder.mkdir(parents=True)
        out = []
        for k, n in enumerate(names):
            img = np.zeros((h, w), np.uint8)
            z = 2.0 + 0.75 * k
            if k in keep:
                for pb, pc, pd in planes[: 1 if k == 6 else 2]:  # the second laser is not seen in one image
                    rows = {}
                    for u in range(80, w - 80):
                        x = (u - w / 2.0) / f * z
                        y = pb * x + pc * z + pd  # ned x = -y
                        rows[u] = f * (y - t) / z + h / 2.0
                    img = np.maximum(img, draw(rows, w, h, 200, 1.5))
            cv2.imwrite(str(folder / (n + ".png")), img)
            out.append(folder / (n + ".png"))
        return out

    stub = L.plot_pointcloud_and_planes
    L.plot_pointcloud_and_planes = lambda *a, **k: None
    try:
        with mc.scratch() as root:
            # nine instants; some images are missing on one side
            n = 9
            ln = ["image%03d" % k for k in range(n)]
            rn = ["%03d" % k for k in range(n)]
            allk = list(range(n))
            li = images(root / "raw/y/dive/l", sc.left, 0.0, ln, [k for k in allk if k != 4])
            ri = images(root / "raw/y/dive/r", sc.right, base, rn, [k for k in allk if k != 4])
            li = [p for k, p in enumerate(li) if k not in drop[0]]
            ri = [p for k, p in enumerate(ri) if k not in drop[1]]
            out = root / "processed/y/dive"
            out.mkdir(parents=True)
            det = {"window_size": 5, "min_greenness_ratio": 0.1, "num_columns": 20, "remap": remap, "two_lasers": two}
            if two:
                row = lambda pb, pc, pd: [f * (pb * sx * 0.67 + pc + (pd - t_) / z) + h / 2.0 for z in (2.0, 8.0) for t_ in (0, base) for sx in (-1, 1)]
                hi, lo = row(*planes[0]), row(*planes[1])
                assert max(lo) + 8 < min(hi)
                # rows of the two lasers do not overlap for these planes
                split = int((max(lo) + min(hi)) / 2)
                det.update(start_row=split, end_row=h, start_row_b=0, end_row_b=split)
            results = []
            for again in (False, True):
                random.seed(3)
                lc = L.LaserCalibrator(sc, {"detection": det, "stratify": {"min_z_m": 1.0, "max_z_m": 12.0}, "ransac": {"min_distance_threshold": 0.2}}, 4)
                with joblib.parallel_config(backend="sequential"):
                    lc.cal(list(li), list(ri), out)
                rec.step()
                results.append([yaml.safe_load(lc.yaml())] + ([yaml.safe_load(lc.yaml_b())] if two else []))
            for res, (pb, pc, pd) in zip(results[0], planes):
                want = np.array([1.0, pb, pc, pd])
                got = np.array(res["mean_plane"])
                ys, zs = np.meshgrid((-0.3, 0.0, 0.3), (2.0, 3.0, 4.0))
                pts = np.c_[-(pb * ys.ravel() + pc * zs.ravel() + pd), ys.ravel(), zs.ravel()]
                rec.out(np.round(got, 2).tobytes())
                if gap(got, pts).max() > 0.05:
                    rec.fail("plane", "laser plane %s is calibrated as %s" % (want, got))
                if gap(got, [res["mean_xyz_m"]])[0] > 0.03:
                    rec.fail("mean", "the mean point %s is not on the plane" % res["mean_xyz_m"])
                if len(res["uncertainty_planes"]) != 4:
                    rec.fail("uncertainty", "%d uncertainty planes instead of 4" % len(res["uncertainty_planes"]))
                for u in res["uncertainty_planes"]:
                    if gap(u, [res["mean_xyz_m"]])[0] > 0.2:
                        rec.fail("uncertainty", "an uncertainty plane of laser %s is %s" % (want, u))
            for a, b_ in zip(results[0], results[1]):
                if not np.allclose(a["mean_plane"], b_["mean_plane"], atol=1e-7):
                    rec.fail("again", "calibrating again gives %s instead of %s" % (b_["mean_plane"], a["mean_plane"]))
    finally:
        L.plot_pointcloud_and_planes = stub


def spread_case(case, rec):
    """uncertainty planes pass through points of the laser, not through outliers"""
    import random

    from auv_cal import laser_calibrator as L

    (b, c, d), outs, seed = case
    rec.state(case)
    n = np.array([1, b, c]) / math.sqrt(1 + b * b + c * c)
    # many points in the middle and three groups around, so that far apart triples exist
    yz = [(0.3 * math.cos(k), 6 + 0.3 * math.sin(k)) for k in range(20)]
    yz += [(3 * math.cos(q) + 0.2 * math.cos(5 * k), 6 + 3 * math.sin(q) + 0.2 * math.sin(5 * k)) for q in (math.pi / 2, 7 * math.pi / 6, 11 * math.pi / 6) for k in range(5)]
    pts = np.array([[-(b * y + c * z + d), y, z] for y, z in yz])
    pts = pts + n[None] * (0.002 * ((np.arange(len(pts)) * 7) % 5 - 2))[:, None]
    for k in outs:
        pts[k] = pts[k] + n * (0.9 if k % 2 else -1.3)
    stub = L.plot_pointcloud_and_planes
    L.plot_pointcloud_and_planes = lambda *a, **k: None
    try:
        with mc.scratch() as root:
            random.seed(seed)
            lc = L.LaserCalibrator(stereo(150.0, 180.0, 120.0, 0.3), {"detection": {"window_size": 5, "min_greenness_ratio": 0.1, "num_columns": 20, "remap": False, "two_lasers": False}, "stratify": {"min_z_m": 1.0, "max_z_m": 12.0}, "ransac": {"min_distance_threshold": 0.2}}, 6)
            res = yaml.safe_load(lc.fit_and_save([p.copy() for p in pts], root))
    finally:
        L.plot_pointcloud_and_planes = stub
    rec.step()
    mean = np.array(res["mean_plane"])
    inl = pts[gap(mean, pts) < 0.2]
    rec.out(np.round(mean, 3).tobytes())
    if np.abs(inl.mean(0) - res["mean_xyz_m"]).max() > 1e-6:
        rec.fail("mean", "mean point %s is not that of the points of the laser %s" % (res["mean_xyz_m"], inl.mean(0)))
    if len(res["uncertainty_planes"]) != 6:
        rec.fail("uncertainty", "%d uncertainty planes instead of 6" % len(res["uncertainty_planes"]))
    for u in res["uncertainty_planes"]:
        if (gap(np.array(u), inl) < 1e-6).sum() < 3:
            rec.fail("uncertainty", "an uncertainty plane does not pass through three points of the laser: %s" % u)
            return


def main():
    ck = mc.new_check("C20")
    mc.silence_console()
    D.stub_version()
    os.environ["TQDM_DISABLE"] = "1"
    from auv_cal.plane_fitting import Plane

    fit = Plane.fit
    Plane.fit = lambda self, points, tol, verbose=False, output_inliers=True: fit(self, points, tol, verbose=False, output_inliers=output_inliers)
    t = ck.thorough
    ck.explore("planes: any scale, distances, rays", list(itertools.product(SLOPES, SLOPES, OFFSETS[::1 if t else 2], (1.0, 0.5, 3.0, -1.0, -2.0))), coeffs_case)
    ck.explore("plane fit: exact points in any order", list(itertools.product(SLOPES, SLOPES, OFFSETS, ("asis", "reversed", "mixed") if t else ("mixed",))), fit_case)
    offs = [tuple(o) for n in (1, 2) for ks in itertools.combinations((0, 6, 12, 18, 24), n) for o in itertools.product(*[[(k, s) for s in (0.01, -0.3)] for k in ks])]
    pls = [(0.1, -0.1, 1.5), (-0.5, 0.1, -1.5), (0.0, 0.5, 0.2)]
    ck.explore("plane fit: points off the plane", [(p, o, tol) for p in (pls if t else pls[:2]) for o in offs for tol in (0.002, 0.05)], inlier_case)
    grid = list(itertools.product((0, 1), (0, 2), (1, 3)))
    ck.explore("plane through three points", [(p, q, r) for p in grid for q in grid for r in grid], three_case)
    nr = [(1.0, b, c) for b in SLOPES for c in SLOPES] + [(0.1, 1.0, -0.5), (0.2, -3.0, 0.0)]
    ck.explore("plane angles", [(n, k, p) for n in nr for k in (1.0, -1.0, 2.5) for p in ((0.0, 0.0, 0.0), (1.5, -2.0, 10.0), (-3.0, 1.0, 4.0))], angles_case)
    ck.explore(
        "triangulation",
        list(itertools.product((400.0, 1500.0), (320.0,), (240.0, 100.0), (0.5, -0.3), list(itertools.product((-1.0, 0.0, 2.0), (-2.0, 0.5), (2.0, 9.0))))),
        triangulate_case,
    )
    bits = list(itertools.product((0, 1), repeat=5))
    ck.explore("laser peaks: pairing by column", [(l, r, bh, m) for l in bits for r in bits for bh, m in (((), True), ((1,), False))] + [(b, b, (i, j), True) for b in bits[-8:] for i in range(5) for j in range(i)], peaks_case)
    ck.explore("stratified sampling", [(c, lim, lo, s) for c in itertools.product((0, 1, 4), repeat=5) for lim in (1, 3) for lo, s in ((1.0, 1.0), (0.5, 2.0))], strata_case)
    pats = [p for p in itertools.product((0, 1), repeat=4 if t else 3)]
    ck.explore("laser detection", [(p, r, s, k, dt) for p in pats for r in (3.0, 20.5, 30.0) for s in (False, True) for k in ((5, 7) if t else (5,)) for dt in ("uint8", "uint16")], detect_case)
    drops = [((), ()), ((0,), ()), ((), (3,)), ((2,), (6,)), ((8,), (0,))]
    cp = [(0.1, -0.05, 0.25), (-0.2, 0.05, 0.15), (0.0, 0.0, 0.3)]
    cases = [(p, tw, dr, rm) for p in cp for tw in (False, True) for dr in drops for rm in (True, False)]
    if not t:
        cases = [x for i, x in enumerate(cases) if (x[0] == cp[0] and x[3]) or (x[2] == drops[3] and not x[3] and x[1])]
    outs = [()] + [(i,) for i in (0, 21, 34)] + [(3, 20), (22, 28, 33)]
    ck.explore("uncertainty planes", [(p, o, s) for p in (pls if t else pls[:2]) for o in outs for s in range(12 if t else 4)], spread_case)
    ck.explore("whole laser calibration", cases, cal_case)
    ck.finish()


if __name__ == "__main__":
    main()
