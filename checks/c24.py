"""C24: camera models and camera calibrations describe the cameras that took the images."""
import os, sys, json, math, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
from pathlib import Path
import numpy as np

W, H = 480, 360
BOARD = (7, 6, 0.05)  # inner corners, square size


def rot(rx, ry, rz):
    a, b, c = [math.radians(v) for v in (rx, ry, rz)]
    X = np.array([[1, 0, 0], [0, math.cos(a), -math.sin(a)], [0, math.sin(a), math.cos(a)]])
    Y = np.array([[math.cos(b), 0, math.sin(b)], [0, 1, 0], [-math.sin(b), 0, math.cos(b)]])
    Z = np.array([[math.cos(c), -math.sin(c), 0], [math.sin(c), math.cos(c), 0], [0, 0, 1]])
    return Z @ Y @ X


class Cam:
    """Reference camera: pinhole with radial and tangential distortion."""

    def __init__(self, fx, fy, cx, cy, d=(0, 0, 0, 0, 0), w=W, h=H):
        self.K = np.array([[fx, 0, cx], [0, fy, cy], [0, 0, 1.0]])
        self.d = np.array(d, float)
        self.w, self.h = w, h

    def dist(self, x, y):
        k1, k2, p1, p2, k3 = self.d
        r = x * x + y * y
        g = 1 + k1 * r + k2 * r * r + k3 * r ** 3
        return x * g + 2 * p1 * x * y + p2 * (r + 2 * x * x), y * g + p1 * (r + 2 * y * y) + 2 * p2 * x * y

    def pix(self, X):
        X = np.asarray(X, float)
        x, y = self.dist(X[..., 0] / X[..., 2], X[..., 1] / X[..., 2])
        return np.stack([self.K[0, 0] * x + self.K[0, 2], self.K[1, 1] * y + self.K[1, 2]], -1)

    def rays(self, u, v):
        xd, yd = (u - self.K[0, 2]) / self.K[0, 0], (v - self.K[1, 2]) / self.K[1, 1]
        x, y = xd, yd
        for _ in range(60 if np.ndim(u) < 3 else 16):
            a, b = self.dist(x, y)
            x, y = x + (xd - a), y + (yd - b)
        return x, y

    def scaled(self, s):
        c = Cam(self.K[0, 0] * s, self.K[1, 1] * s, self.K[0, 2] * s, self.K[1, 2] * s, self.d, int(self.w * s), int(self.h * s))
        return c


def corners3d(b=BOARD):
    return np.array([[j * b[2], i * b[2], 0.0] for i in range(b[1]) for j in range(b[0])])


def view(p, b, w, h):
    """Place, size and skew of a view (views are used if they differ enough in these)."""
    c = b[0]
    ul, ur, dr, dl = p[0], p[c - 1], p[-1], p[-c]
    P, Q = (dr - ur) + (dl - dr), (ur - ul) + (dr - ur)
    area = abs(P[0] * Q[1] - P[1] * Q[0]) / 2
    s = math.sqrt(area)
    m = p.mean(0)
    x, y = ul - ur, dr - ur
    ang = math.acos(x @ y / np.linalg.norm(x) / np.linalg.norm(y))
    cl = lambda v: min(1.0, max(0.0, v))
    return (cl((m[0] - s / 2) / (w - s)), cl((m[1] - s / 2) / (h - s)), math.sqrt(area / w / h), min(1.0, 2 * abs(math.pi / 2 - ang)))


_P = {}


def poses(n, cams, b=BOARD, gap=0.17):
    """n board poses fully visible in all cameras [(cam, R, T)] that differ enough from each other."""
    key = (n, b, tuple((c.K.tobytes(), c.d.tobytes(), c.w, R.tobytes(), T.tobytes()) for c, R, T in cams))
    if key in _P:
        return _P[key]
    out, seen = [], []
    tl = [(0, 0), (28, 0), (-28, 0), (0, 28), (0, -28), (22, 22), (-22, 22), (22, -22), (-22, -22)]
    px = [(0, 0), (-1, -1), (1, 1), (-1, 1), (1, -1), (0, -1), (0, 1), (-1, 0), (1, 0)]
    c = np.array([(b[0] - 1) * b[2] / 2, (b[1] - 1) * b[2] / 2, 0])
    k = 0
    for z, spread, turn in itertools.product((0.72, 0.95, 1.2, 0.82), (1.0, 0.8, 0.6), range(9)):
        for i, (ox, oy) in enumerate(px):
            rx, ry = tl[(i * 2 + turn) % 9]
            k += 1
            R = rot(rx, ry, (0, 8, -8)[k % 3])
            t = np.array([ox * spread * (0.6 * z - 0.22), oy * spread * (0.45 * z - 0.19), z]) - R @ c
            ok = True
            for j, (cam, Rc, Tc) in enumerate(cams):
                p = cam.pix((corners3d(b) @ R.T + t) @ Rc.T + Tc)
                o = cam.pix(((np.array([[-1.2, -1.2, 0], [b[0] + 0.2, -1.2, 0], [b[0] + 0.2, b[1] + 0.2, 0], [-1.2, b[1] + 0.2, 0]]) * b[2]) @ R.T + t) @ Rc.T + Tc)
                if o[:, 0].min() < 2 or o[:, 1].min() < 2 or o[:, 0].max() > cam.w - 3 or o[:, 1].max() > cam.h - 3:
                    ok = False
                v = view(p, b, cam.w, cam.h)
                if ok and any(sum(abs(x - y) for x, y in zip(v, q[j])) < gap for q in seen):
                    ok = False
            if ok:
                out.append((R, t))
                seen.append([view(cam.pix((corners3d(b) @ R.T + t) @ Rc.T + Tc), b, cam.w, cam.h) for cam, Rc, Tc in cams])
                if len(out) == n:
                    _P[key] = out
                    return out
    raise mc.HarnessError("only %d of %d board poses found" % (len(out), n))


ID = (np.eye(3), np.zeros(3))


def render(cam, R, t, cache):
    """Image of the board: exact rays, 3x3 samples per pixel."""
    key = (cam.K.tobytes(), cam.d.tobytes(), cam.w, cam.h)
    if key not in cache:
        s = (np.arange(3) - 1) / 3.0
        u = (np.arange(cam.w)[None, :, None, None] + s[None, None, None, :]) + np.zeros((cam.h, 1, 3, 1))
        v = (np.arange(cam.h)[:, None, None, None] + s[None, None, :, None]) + np.zeros((1, cam.w, 1, 3))
        cache[key] = cam.rays(u, v)
    x, y = cache[key]
    o = cam.pix((np.array([[-1, -1, 0], [BOARD[0], -1, 0], [BOARD[0], BOARD[1], 0], [-1, BOARD[1], 0]]) * BOARD[2]) @ R.T + t)
    i0, i1 = max(0, int(o[:, 1].min()) - 12), min(cam.h, int(o[:, 1].max()) + 13)
    j0, j1 = max(0, int(o[:, 0].min()) - 12), min(cam.w, int(o[:, 0].max()) + 13)
    x, y = x[i0:i1, j0:j1], y[i0:i1, j0:j1]
    # intersection with the board plane: p = s*(x,y,1); R^T (p - t) has z = 0
    n = R[:, 2]
    s = (n @ t) / (n[0] * x + n[1] * y + n[2])
    P = np.stack([s * x, s * y, s], -1) - t
    bx, by = P @ R[:, 0] / BOARD[2] + 1, P @ R[:, 1] / BOARD[2] + 1
    inside = (bx >= 0) & (by >= 0) & (bx < BOARD[0] + 1) & (by < BOARD[1] + 1)
    dark = inside & ((np.floor(bx) + np.floor(by)) % 2 == 0)
    img = np.full((cam.h, cam.w), 235, np.uint8)
    img[i0:i1, j0:j1] = np.where(dark, 15.0, 235.0).mean((2, 3)).round()
    return img


# ------------------------------------------------------------------ camera models
CAMS = {
    "plain": Cam(400, 400, 239.5, 179.5),
    "off": Cam(380, 410, 260.25, 150.75),
    "barrel": Cam(400, 405, 250, 170, (-0.25, 0.08, 0.0, 0.0, 0.0)),
    "tangential": Cam(420, 420, 230, 190, (-0.1, 0.02, 0.004, -0.003, 0.01)),
    "pincushion": Cam(390, 395, 245, 185, (0.15, -0.05, -0.002, 0.002, 0.005)),
}
RIGS = {
    "horizontal": (rot(0, 0, 0), np.array([-0.1, 0, 0])),
    "turned": (rot(2, -3, 1), np.array([-0.12, 0.01, 0.005])),
    "vertical": (rot(-2, 1, 0.5), np.array([0.004, -0.1, 0.003])),
    "reverse": (rot(1, 2, -1), np.array([0.11, 0.005, -0.004])),
}


def stereo_model(left, right, rig):
    import cv2
    from oplab import StereoCamera, MonoCamera

    R, T = rig
    R1, R2, P1, P2 = cv2.stereoRectify(left.K, left.d, right.K, right.d, (W, H), R, T.reshape(3, 1), flags=cv2.CALIB_ZERO_DISPARITY, alpha=0)[:4]
    sc = StereoCamera.__new__(StereoCamera)
    sc.left, sc.right = MonoCamera(), MonoCamera()
    tx = np.array([[0, -T[2], T[1]], [T[2], 0, -T[0]], [-T[1], T[0], 0]])
    E = tx @ R
    F = np.linalg.inv(right.K).T @ E @ np.linalg.inv(left.K)
    sc.R, sc.t, sc.E, sc.F = R.copy(), T.reshape(3, 1).copy(), E, F / F[2, 2] if abs(F[2, 2]) > 1e-12 else F
    for m, c, r, p, nm in ((sc.left, left, R1, P1, "cam_l"), (sc.right, right, R2, P2, "cam_r")):
        m.K, m.d, m.R, m.P, m.name = c.K.copy(), c.d.reshape(1, 5).copy(), r, p, nm
        m.size = (c.w, c.h)
    return sc


def model_case(case, rec):
    ln, rn, gn, ratio = case
    from oplab import StereoCamera, MonoCamera

    left, right, (R, T) = CAMS[ln], CAMS[rn], RIGS[gn]
    sc = stereo_model(left, right, (R, T))
    # undistorted and distorted pixels of one camera
    for u in range(20, W, 60):
        for v in range(20, H, 55):
            rec.state((ln, rn, gn, u, v)); rec.step(4)
            x, y = left.rays(float(u), float(v))
            w = (left.K[0, 0] * x + left.K[0, 2], left.K[1, 1] * y + left.K[1, 2])
            if not (5 < w[0] < W - 5 and 5 < w[1] < H - 5):
                continue
            g = sc.left.undistort_point((u, v))
            if g is None or max(abs(g[0] - w[0]), abs(g[1] - w[1])) > 0.1:
                return rec.fail("undistort", "camera %s: pixel %s undistorted to %s instead of %s" % (ln, (u, v), g, w))
            b = sc.left.distort_point(w)
            if b is None or max(abs(b[0] - u), abs(b[1] - v)) > 0.02:
                return rec.fail("distort", "camera %s: point %s distorted to %s instead of %s" % (ln, w, b, (u, v)))
    # points seen by both cameras
    seen = 0
    for x, y, z in itertools.product((-0.3, -0.1, 0.0, 0.15, 0.35), (-0.25, 0.0, 0.2), (0.8, 2.0, 10.0)):
        X = np.array([x * z, y * z, z])
        rec.step(3)
        pl, pr = left.pix(X), right.pix(R @ X + T)
        if not all(8 < p[0] < W - 8 and 8 < p[1] < H - 8 for p in (pl, pr)):
            continue
        Xr = sc.left.R @ X  # rectified frame of the left camera
        a, b = sc.project_point(Xr)
        ga, gb = sc.project_point_undistorted(Xr)
        if a is None or b is None:
            continue  # outside of the rectified images
        seen += 1
        for g, w, n in ((ga, pl, "left"), (gb, pr, "right")):
            if g is None or max(abs(g[0] - w[0]), abs(g[1] - w[1])) > 0.02:
                return rec.fail("project", "cameras %s %s %s: point %s seen at %s in the %s image, projected to %s" % (ln, rn, gn, X, w, n, g))
        if min(abs(a[1] - b[1]), abs(a[0] - b[0])) > 1e-6:
            return rec.fail("epipolar", "cameras %s %s %s: %s %s are not on one line" % (ln, rn, gn, a, b))
        for q, n in ((sc.triangulate_point(a, b), "rectified"), (sc.triangulate_point_undistorted(pl, pr), "original")):
            if q is None or np.abs(q - Xr).max() > (1e-6 if n == "rectified" else 3e-3 * z * z):
                return rec.fail("triangulate", "cameras %s %s %s: point %s triangulated from %s pixels to %s" % (ln, rn, gn, Xr, n, q))
    rec.state((case, seen))
    if seen < 5:
        raise mc.HarnessError("only %d points seen by both cameras" % seen)
    # files
    with mc.scratch() as d:
        f = Path(d) / "stereo.yaml"
        f.write_text(sc.to_str())
        l = Path(d) / "left.yaml"
        l.write_text(sc.left.to_str(num_images=12, error=0.25))
        r = Path(d) / "right.yaml"
        r.write_text(sc.right.to_str(write_metadata=False))
        rec.step(3)

        def same(what, got, want, tol=2e-6):
            ok = got is not None and np.shape(np.ravel(got)) == np.shape(np.ravel(want)) and np.abs(np.ravel(got) - np.ravel(want)).max() <= tol
            if not ok:
                rec.fail("file:" + what, "cameras %s %s %s: %s written as %s is read as %s" % (ln, rn, gn, what, np.ravel(want), got if got is None else np.ravel(got)))
            return ok

        for how, sc2 in (("stereo", StereoCamera(f, downsize_ratio=ratio)), ("mono", StereoCamera(left=l, right=r, downsize_ratio=ratio))):
            k = 1.0 if ratio is None else ratio
            for side in ("left", "right"):
                a, b = getattr(sc, side), getattr(sc2, side)
                S = np.diag([k, k, 1.0])
                if b.name != a.name or b.size != (math.floor(W * k), math.floor(H * k)):
                    return rec.fail("file:size", "%s camera %s of size %s is read as %s of size %s (ratio %s)" % (how, a.name, a.size, b.name, b.size, ratio))
                if not (same("camera matrix", b.K, S @ a.K) and same("distortion", b.d, a.d) and same("rectification", b.R, a.R) and same("projection", b.P, S @ a.P)):
                    return
            if how == "stereo":
                if not (same("rotation", sc2.R, sc.R) and same("translation", sc2.t, sc.t) and same("essential matrix", sc2.E, sc.E)):
                    return
                if not same("fundamental matrix", sc2.F, sc.F, 1e-9 * max(1.0, np.abs(sc.F).max())):
                    return
            if sc2.different_resolution or sc2.different_aspect_ratio:
                return rec.fail("file:resolution", "cameras of the same resolution are read as different")
        for size in (4, 8, 12):  # other lens models
            keep, sc.left.d = sc.left.d, np.array([0.01 * (k + 1) * (-1) ** k for k in range(size)]).reshape(1, size)
            l.write_text(sc.left.to_str())
            f.write_text(sc.to_str())
            want, sc.left.d = sc.left.d, keep
            if not same("distortion", StereoCamera(left=l, right=r).left.d, want) or not same("distortion", StereoCamera(f).left.d, want):
                return
    rec.out((case, seen))


# ------------------------------------------------------------------ calibration from detections
def mono_case(case, rec):
    cn, bad, order, board, size = case
    import cv2
    from auv_cal.calibration import calibrate_mono
    from oplab import MonoCamera

    cam = CAMS[cn]
    ps = poses(14, [(cam,) + ID], board)
    idx = list(range(14))
    idx = idx[order:] + idx[:order] if order >= 0 else idx[::-1]
    data = []
    for n in idx:
        R, t = ps[n]
        p = cam.pix(corners3d(board) @ R.T + t)
        if n in bad:
            k = np.arange(len(p))
            p = p + np.stack([size * np.cos(k * 1.7 + n), size * np.sin(k * 2.3 - n)], -1)
        data.append({"file": "none%d.png" % n, "corners": p.reshape(-1, 1, 2).tolist(), "board": list(board), "size": [W, H]})
    with mc.scratch() as d:
        d = Path(d) / "raw"
        d.mkdir()
        for k in range(8):
            cv2.imwrite(str(d / ("i%d.png" % k)), np.full((H, W), 90, np.uint8))
        out = d / "mono_x.yaml"
        out.with_suffix(".json").write_text(json.dumps(data))
        calibrate_mono("c24cam", [d], "*.png", {"rows": board[1], "cols": board[0], "size": board[2], "pattern": "Chessboard", "invert": False}, out, True, False)
        m = MonoCamera(out)
        txt = out.read_text()
    rec.step()
    rec.state(case)
    eK = np.abs(m.K - cam.K).max()
    ed = mono_error(m, cam)
    tol = 0.2
    if m.size != (W, H) or m.name != "c24cam":
        rec.fail("mono:size", "image size %s or name %s" % (m.size, m.name))
    if eK > 2.0 or ed > tol:
        rec.fail("mono", "camera %s, views with wrong detections %s, order %s: calibrated camera matrix %s and distortion %s, rays differ by up to %.2f pixels from the camera" % (cn, bad, order, m.K.round(2).tolist(), m.d.round(4).tolist(), ed))
    line = [l for l in txt.splitlines() if l.startswith("number_of_images")]
    nim = int(line[0].split(":")[1])
    err = float([l for l in txt.splitlines() if l.startswith("avg_reprojection_error")][0].split(":")[1])
    if not 8 <= nim <= 14 - len(bad) or err > 0.05:
        rec.fail("mono:views", "camera %s, views with wrong detections %s: %d of 14 views used, reprojection error %s" % (cn, bad, nim, err))
    rec.out((cn, bad, round(err, 4)))


def mono_error(m, cam):
    """Largest distance in pixels between rays of the calibrated and the real camera."""
    e = 0.0
    g = Cam(m.K[0, 0], m.K[1, 1], m.K[0, 2], m.K[1, 2], np.ravel(m.d)[:5])
    u, v = np.meshgrid(np.arange(60, W - 59, 20.0), np.arange(45, H - 44, 18.0))
    x, y = cam.rays(u, v)
    q = g.pix(np.stack([x, y, np.ones_like(x)], -1))
    return float(np.abs(q - np.stack([u, v], -1)).max())


# ------------------------------------------------------------------ calibration from images
def prepare(root, names, n):
    """Render the views of every rig once."""
    import cv2
    from concurrent.futures import ThreadPoolExecutor

    cache = {}
    jobs = []
    for gn in names:
        cl, cr, rig, scale = STEREO[gn]
        R, T = RIGS[rig]
        ps = poses(n, [(CAMS[cl],) + ID, (CAMS[cr].scaled(scale), R, T)])
        for cam, s in ((CAMS[cl], "L"), (CAMS[cr].scaled(scale), "R")):
            f = root / gn / s
            f.mkdir(parents=True)
            render(cam, ps[0][0], ps[0][1], cache)
            for k, (Rb, tb) in enumerate(ps):
                a, b = (Rb, tb) if s == "L" else (R @ Rb, R @ tb + T)
                jobs.append((f / ("2020_%03d.png" % k), cam, a, b))
                if s == "R":
                    for q, mv in enumerate(MOVES):  # the board moved across the line between the cameras
                        w = np.array([0, mv, 0]) if rig != "vertical" else np.array([mv, 0, 0])
                        jobs.append((f / ("moved%d_%03d.png" % (q, k)), cam, a, b + R @ w))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cv2.imwrite(str(j[0]), render(j[1], j[2], j[3], cache)), jobs))


STEREO = {
    "a": ("barrel", "tangential", "turned", 1.0),
    "b": ("plain", "off", "horizontal", 1.0),
    "c": ("tangential", "pincushion", "vertical", 1.0),
    "d": ("off", "barrel", "reverse", 1.0),
    "e": ("off", "plain", "horizontal", 0.75),
}
NV = 18
MOVES = (0.02, -0.03)
ROOT = [None]


def stereo_case(case, rec):
    gn, bad, first = case
    import joblib
    from auv_cal.calibration import calibrate_mono, calibrate_stereo
    from oplab import MonoCamera, StereoCamera

    cl, cr, rig, scale = STEREO[gn]
    left, right, (R, T) = CAMS[cl], CAMS[cr], RIGS[rig]
    src = ROOT[0] / gn
    conf = {"rows": BOARD[1], "cols": BOARD[0], "size": BOARD[2], "pattern": "Chessboard", "invert": False}
    tag = "c24_%d" % os.getpid()
    try:
        with mc.scratch() as d, joblib.parallel_config(backend="sequential"):
            d = Path(d)
            for s in ("L", "R"):
                (d / "raw" / s).mkdir(parents=True)
            for k in range(NV):
                shutil.copy(src / "L" / ("2020_%03d.png" % k), d / "raw" / "L" / ("2020_%03d.png" % k))
                j = "moved%d" % bad.index(k) if k in bad else "2020"  # the board moved between the two images of the pair
                shutil.copy(src / "R" / ("%s_%03d.png" % (j, k)), d / "raw" / "R" / ("2020_%03d.png" % k))
            lo, ro, so = d / "mono_l.yaml", d / "mono_r.yaml", d / "stereo.yaml"
            calibrate_mono(tag + "l", [d / "raw" / "L"], "*.png", conf, lo, True, False)
            calibrate_mono(tag + "r", [d / "raw" / "R"], "*.png", conf, ro, True, False)
            one = [lo.read_text(), ro.read_text()]
            if first:
                calibrate_mono(tag + "l", [d / "raw" / "L"], "*.png", conf, lo, True, False)
                calibrate_mono(tag + "r", [d / "raw" / "R"], "*.png", conf, ro, True, False)
                rec.step(2)
                strip = lambda t: [l for l in t.splitlines() if not l.startswith("date")]
                if [strip(t) for t in one] != [strip(lo.read_text()), strip(ro.read_text())]:
                    rec.fail("stored", "calibrating again from the stored detections gives another calibration")
            ml, mr = MonoCamera(lo), MonoCamera(ro)
            calibrate_stereo(tag + "l", [d / "raw" / "L"], "*.png", lo, tag + "r", [d / "raw" / "R"], "*.png", ro, conf, so, True, False)
            if not so.exists():
                return rec.fail("stereo:none", "rig %s, wrong pairs %s: no stereo calibration" % (gn, bad))
            sc = StereoCamera(so)
            txt = so.read_text()
    finally:
        for p in Path("/tmp").glob("*" + tag + "*"):
            if p.is_dir():
                shutil.rmtree(p)
            else:
                p.unlink()
    rec.step(3)
    rec.state(case)
    who = "rig %s, pairs in which the board moved: %s" % (gn, bad)
    e1 = mono_error(ml, left)
    if e1 > 1.0:
        rec.fail("stereo:mono", "%s: rays of the left camera are off by %.2f pixels" % (who, e1))
    dR = math.degrees(math.acos(max(-1.0, min(1.0, (np.trace(sc.R.T @ R) - 1) / 2))))
    dT = float(np.abs(np.ravel(sc.t) - T).max())
    if dR > 0.15 or dT > 0.003:
        rec.fail("stereo:rig", "%s: rotation off by %.3f degrees, translation %s instead of %s" % (who, dR, np.ravel(sc.t).round(4).tolist(), T.tolist()))
    consistent(sc, who, rec)
    nim = int([l for l in txt.splitlines() if l.startswith("number_of_images")][0].split(":")[1])
    err = float([l for l in txt.splitlines() if l.startswith("avg_reprojection_error")][0].split(":")[1])
    if err > 0.6:
        rec.fail("stereo:error", "%s: %d pairs used with a reprojection error of %.2f pixels" % (who, nim, err))
    rec.out((gn, bad, nim, round(err, 3)))


# ------------------------------------------------------------------ complete calibrations of three cameras
TRI = (  # camera, rig, scale of the three cameras; two surveys with different second and third cameras
    (("off", None, 1.0), ("plain", "horizontal", 0.75), ("barrel", "turned", 1.0)),
    (("off", None, 1.0), ("tangential", "reverse", 0.75), ("pincushion", "vertical", 1.0)),
)


def prepare_tri(root):
    import cv2
    from concurrent.futures import ThreadPoolExecutor

    cache, jobs = {}, []
    for v, cams in enumerate(TRI):
        cs = [(CAMS[c].scaled(s),) + (RIGS[g] if g else ID) for c, g, s in cams]
        ps = poses(12, cs)
        for k, (cam, R, T) in enumerate(cs):
            f = root / ("tri%d" % v) / ("cam%d" % k)
            f.mkdir(parents=True)
            render(cam, ps[0][0], ps[0][1], cache)
            jobs += [(f / ("2020_%03d.png" % j), cam, R @ Rb, R @ tb + T) for j, (Rb, tb) in enumerate(ps)]
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: cv2.imwrite(str(j[0]), render(j[1], j[2], j[3], cache)), jobs))


def tri_case(case, rec):
    where, hist = case
    import joblib, yaml
    from auv_cal.calibration import Calibrator
    from oplab import StereoCamera, MonoCamera

    tag = "c24t%d" % os.getpid()
    names = [tag + x for x in "abc"]
    try:
        with mc.scratch() as d, joblib.parallel_config(backend="sequential"):
            d = Path(d)
            raw, pro = d / "raw" / "y" / "dive", d / "processed" / "y" / "dive"
            raw.mkdir(parents=True)
            pro.mkdir(parents=True)
            cfg = d / "configuration" / "y" / "calibration" / "calibration.yaml"
            cfg.parent.mkdir(parents=True)
            cfg.write_text(yaml.safe_dump({"version": 1, "camera_calibration": {"pattern": "Chessboard", "rows": BOARD[1], "cols": BOARD[0], "size": BOARD[2], "invert": False}, "cameras": [{"name": n, "camera_calibration": {"path": "cam%d" % k, "glob_pattern": "*.png"}} for k, n in enumerate(names)]}))
            out = d / "processed" / "y" / "calibration"
            before = None
            for step, (v, force) in enumerate(hist):
                for k in range(3):
                    t = (pro if where == "processed" else raw) / ("cam%d" % k)
                    if t.exists():
                        shutil.rmtree(t)
                    shutil.copytree(ROOT[0] / ("tri%d" % v) / ("cam%d" % k), t)
                for what in ("mono", "stereo"):
                    try:
                        getattr(Calibrator(str(raw), force >= 1, force >= 2), what)()
                    except SystemExit:
                        if force or step == 0:
                            return rec.fail("tri:refused", "%s of images in the %s folder ended without result (history %s)" % (what, where, hist[:step + 1]))
                rec.step(2)
                rec.state((where, hist[:step + 1]))
                now = {p.name.replace(tag, ""): "".join(l for l in p.read_text().replace(tag, "").splitlines(True) if not l.startswith("date")) for p in sorted(out.glob("*.yaml"))}
                want = {"mono_a.yaml", "mono_b.yaml", "mono_c.yaml", "resized_mono_b.yaml", "stereo_a_b.yaml", "stereo_a_c.yaml", "stereo_c_a.yaml"}
                if set(now) != want:
                    return rec.fail("tri:files", "calibration files %s instead of %s (history %s)" % (sorted(now), sorted(want), hist[:step + 1]))
                used = [h[0] for h in hist[:step + 1] if h[1] == 2 or hist.index(h) == 0][-1]
                who = "images in the %s folder, history %s" % (where, hist[:step + 1])
                if force == 0 and before is not None and now != before:
                    return rec.fail("tri:changed", "%s: calibration changed without the force option" % who)
                before = now
                cams = TRI[used]
                load = lambda x: StereoCamera(out / ("stereo_%s%s_%s%s.yaml" % (tag, x[0], tag, x[1])))
                ab, ac, ca = load("ab"), load("ac"), load("ca")
                for sc, k in ((ab, 1), (ac, 2)):
                    R, T = RIGS[cams[k][1]]
                    dR = math.degrees(math.acos(max(-1.0, min(1.0, (np.trace(sc.R.T @ R) - 1) / 2))))
                    if dR > 0.3 or np.abs(np.ravel(sc.t) - T).max() > 0.006:
                        return rec.fail("tri:rig", "%s: cameras 1 and %d: rotation off by %.3f degrees, translation %s instead of %s" % (who, k + 1, dR, np.ravel(sc.t).round(4).tolist(), T.tolist()))
                if np.abs(ac.R @ ca.R - np.eye(3)).max() > 2e-3 or np.abs(ac.R @ np.ravel(ca.t) + np.ravel(ac.t)).max() > 1e-3:
                    return rec.fail("tri:inverse", "%s: the calibration of cameras 3 and 1 is not the inverse of that of 1 and 3" % who)
                if ab.right.size != ab.left.size or MonoCamera(out / ("mono_%sb.yaml" % tag)).size != (W * 3 // 4, H * 3 // 4):
                    return rec.fail("tri:size", "%s: image sizes %s %s" % (who, ab.left.size, ab.right.size))
            rec.out((where, hist, mc.digest(now).hex()))
    finally:
        for p in Path("/tmp").glob("*" + tag + "*"):
            if p.is_dir():
                shutil.rmtree(p)
            else:
                p.unlink()


def consistent(sc, who, rec):
    """The parts of a stereo calibration belong to the same rig."""
    R, t = sc.R, np.ravel(sc.t)
    if np.abs(sc.right.R @ R - sc.left.R).max() > 2e-4:
        rec.fail("stereo:rectification", "%s: the rectifying rotations do not belong to the published rotation (they differ by %.5f)" % (who, np.abs(sc.right.R @ R - sc.left.R).max()))
    tr = sc.right.R @ t
    k = int(np.argmax(np.abs(tr)))
    f = sc.right.P[0, 0]
    want = f * tr[k]
    got = sc.right.P[k, 3]
    if abs(got - want) > 2e-3 * abs(want) or abs(sc.right.P[1 - k, 3]) > 1e-6:
        rec.fail("stereo:projection", "%s: baseline in the projection matrix is %.5f, published %.5f" % (who, got / f, tr[k]))
    tx = np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])
    if np.abs(sc.E - tx @ R).max() > 1e-5:
        rec.fail("stereo:essential", "%s: essential matrix does not belong to the published rotation and translation" % who)
    # fundamental matrix: image points of the same 3D point
    for X in ([0, 0, 1.0], [0.3, -0.2, 1.5], [-0.4, 0.3, 2.0]):
        X = np.array(X)
        a, b = sc.left.K @ X, sc.right.K @ (R @ X + t)
        l = sc.F @ (a / a[2])
        n = math.hypot(l[0], l[1])
        if n == 0 or abs((b / b[2]) @ l) / n > 0.05:
            return rec.fail("stereo:fundamental", "%s: point %s is %s pixels from its epipolar line of the fundamental matrix" % (who, X.tolist(), "?" if n == 0 else round(abs((b / b[2]) @ l) / n, 2)))


def body():
    ck = mc.new_check("C24", assumptions=["calibration boards are seen upright and sharp", "at most one wrong view of a camera and at most two pairs in which the board moved between the images"])
    mc.silence_console()
    D.stub_version()
    import cv2  # noqa: F401
    import auv_cal.calibration  # noqa: F401

    T = ck.thorough
    mod = [(a, b, g, r) for a in CAMS for b in CAMS for g in RIGS for r in ((None, 0.5, 0.25) if T else (None, 0.5))]
    ck.explore("camera models", mod, model_case, note="every camera, partner and rig; pixel grid and points seen by both")
    subs = [()] + [(i,) for i in range(14)]
    mono = [(c, b, o, q, e) for c in CAMS for b in subs for o in (range(-1, 14) if T else (0, -1)) for q in (BOARD, (7, 5, 0.06)) for e in ((2.0, 4.0, 8.0) if T else (4.0,))]
    ck.explore("mono calibration with wrong views", mono, mono_case, note="none or any one of 14 views with wrong detections, several orders of the views")
    names = list(STEREO) if T else ["a", "c", "e"]
    prs = [()] + list(itertools.combinations(range(NV), 1)) + list(itertools.combinations(range(NV), 2))
    with mc.scratch() as root:
        ROOT[0] = Path(root)
        prepare(ROOT[0], names, NV)
        st = [(g, b, i == 0) for g in names for i, b in enumerate(prs if T else (prs[:4] + prs[19::19] if g != "a" else prs[:19] + prs[19::5]))]
        ck.explore("stereo calibration with wrong pairs", st, stereo_case, note="rendered images of every rig, all sets of at most two of %d pairs in which the board moved" % NV)
        prepare_tri(ROOT[0])
        hists = [((0, 0),) + h for n in ((0, 1, 2) if T else (0, 1)) for h in itertools.product(((1, 0), (1, 1), (1, 2), (0, 2)), repeat=n)]
        ck.explore("complete calibrations of three cameras", [(w, h) for w in ("raw", "processed") for h in hists], tri_case, note="cameras of different resolution; calibrated again with new images with and without the force options")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
