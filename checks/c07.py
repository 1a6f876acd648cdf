"""C07: the Kalman filter fuses only valid data and keeps a valid covariance."""
import csv
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import geom as G

import numpy as np

T = D.T0
ANG = (3, 4, 5)


# ------------------------------------------------------------------ reference filter
def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def motion(x, dt):
    """Constant body velocity and body rates."""
    r, p, y = x[3:6]
    R = np.array(G.rot(*(math.degrees(v) for v in (r, p, y))))
    E = np.array(
        [
            [1, math.sin(r) * math.tan(p), math.cos(r) * math.tan(p)],
            [0, math.cos(r), -math.sin(r)],
            [0, math.sin(r) / math.cos(p), math.cos(r) / math.cos(p)],
        ]
    )
    out = x.copy()
    out[0:3] += R @ x[6:9] * dt
    out[3:6] += E @ x[9:12] * dt
    return out


def jac(x, dt):
    J = np.zeros((12, 12))
    for k in range(12):
        h = 1e-5
        d = np.zeros(12)
        d[k] = h
        # fourth order central difference
        J[:, k] = (8 * (motion(x + d, dt) - motion(x - d, dt)) - (motion(x + 2 * d, dt) - motion(x - 2 * d, dt))) / (12 * h)
    return J


class Ref:
    def __init__(self, t, x, P, Q, thr):
        self.t, self.x, self.P, self.Q, self.thr = t, np.array(x, float), np.array(P, float), np.array(Q, float), thr
        self.states = [[t, self.x.copy(), self.P.copy()]]
        self.rejected = []
        self.near = False

    def predict(self, t, dt):
        A = jac(self.x, dt)
        self.x = motion(self.x, dt)
        self.P = A @ self.P @ A.T + abs(dt) * self.Q
        for k in ANG:
            self.x[k] = wrap(self.x[k])
        self.t = t
        self.states.append([t, self.x.copy(), self.P.copy()])

    def correct(self, t, idx, z, var):
        use = [k for k in range(len(idx)) if math.isfinite(z[k])]
        if not use:
            return True
        H = np.zeros((len(use), 12))
        for r, k in enumerate(use):
            H[r, idx[k]] = 1
        z = np.array([z[k] for k in use])
        R = np.diag([max(abs(var[k]), 1e-9) for k in use])
        S = H @ self.P @ H.T + R
        inn = z - H @ self.x
        for r, k in enumerate(use):
            if idx[k] in ANG:
                inn[r] = wrap(inn[r])
        md2 = float(inn @ np.linalg.solve(S, inn))
        self.near = self.near or abs(md2 - self.thr ** 2) < 1e-6 * (1 + self.thr ** 2)
        if md2 >= self.thr ** 2:
            self.rejected.append(t)
            return False
        K = self.P @ H.T @ np.linalg.inv(S)
        self.x = self.x + K @ inn
        I = np.eye(12) - K @ H
        self.P = I @ self.P @ I.T + K @ R @ K.T
        for k in ANG:
            self.x[k] = wrap(self.x[k])
        self.states[-1] = [self.states[-1][0], self.x.copy(), self.P.copy()]
        return True

    def smooth(self):
        out = [[t, x.copy(), P.copy()] for t, x, P in self.states]
        for i in range(len(out) - 2, -1, -1):
            t, x, P = self.states[i]
            dt = out[i + 1][0] - t
            A = jac(x, dt)
            Pp = A @ P @ A.T + dt * self.Q
            J = P @ A.T @ np.linalg.inv(Pp)
            inn = out[i + 1][1] - motion(x, dt)
            for k in ANG:
                inn[k] = wrap(inn[k])
            out[i][1] = x + J @ inn
            out[i][2] = P + J @ (out[i + 1][2] - Pp) @ J.T
        return out


def arr(v):
    return np.array(v, dtype=float).reshape(-1)


def mat(v):
    return np.array(v, dtype=float)


def valid_cov(P):
    P = mat(P)
    if P.shape != (12, 12) or not np.isfinite(P).all():
        return "not a finite 12x12 matrix"
    s = max(1.0, np.abs(P).max())
    if np.abs(P - P.T).max() > 1e-8 * s:
        return "asymmetric by %g" % np.abs(P - P.T).max()
    w = np.linalg.eigvalsh((P + P.T) / 2).min()
    if w < -1e-8 * s:
        return "negative eigenvalue %g" % w
    return None


def same_state(x, y, tol=1e-6):
    x, y = arr(x), arr(y)
    d = x - y
    for k in ANG:
        d[k] = wrap(d[k])
    return np.isfinite(d).all() and np.abs(d).max() <= tol * (1 + np.abs(y).max())


def same_cov(a, b, tol=1e-6):
    a, b = mat(a), mat(b)
    return a.shape == b.shape and np.isfinite(a).all() and np.abs(a - b).max() <= tol * (1 + np.abs(b).max())


# ------------------------------------------------------------------ operations
STATES = {
    "level": [10, -5, 20, 0.0, 0.0, 0.3, 1.0, 0.1, 0.0, 0.0, 0.0, 0.0],
    "wrap": [10, -5, 20, 0.2, -0.3, 3.12, 0.6, -0.4, 0.2, 0.01, -0.02, 0.05],
    "rolled": [10, -5, 20, 3.05, -0.3, -3.0, 0.6, -0.4, 0.2, 0.01, -0.02, 0.05],
    "steep": [0, 0, 5, -0.5, 0.9, -2.0, 0.4, 0.3, -0.3, 0.1, 0.05, -0.2],
}
NAN, INF = float("nan"), float("inf")
# name: (kind, values, standard deviations)
OPS = {
    "P": ("p", 0.7),
    "p": ("p", 0.05),
    "z": ("p", 0.0),
    "O": ("o", (0.1, -0.1, 3.0), (0.05, 0.05, 0.05)),
    "o": ("o", (0.15, -0.2, -3.1), (0.02, 0.03, 0.1)),  # other side of the wrap
    "r": ("o", (-3.1, -0.25, 3.1), (0.05, 0.05, 0.05)),  # other side of the roll and heading wraps
    "x": ("d", (400.0,), (0.2,)),  # outlier
    "N": ("o", (0.1, NAN, NAN), (0.05, 0.05, 0.05)),
    "U": ("u", (11.0, -4.0), (2.0, 1.5)),
    "X": ("u", (900.0, -700.0), (2.0, 1.5)),  # outlier
    "n": ("u", (NAN, NAN), (2.0, 1.5)),
    "i": ("u", (INF, -4.0), (2.0, 1.5)),
    "D": ("d", (19.0,), (0.2,)),
    "e": ("d", (19.0,), (1e-7,)),  # nearly exact
    "V": ("v", (0.9, 0.05, 0.02), (0.05, 0.04, 0.03)),
    "v": ("v", (-0.5, NAN, 0.3), (0.3, 0.3, 0.3)),
}
IDX = {"o": (3, 4, 5), "u": (0, 1), "d": (2,), "v": (6, 7, 8)}
STD = {"position_xy": {"model": "sensor", "factor": 0.0, "offset": 1.0}, "position_z": {"model": "sensor", "factor": 0.0, "offset": 0.1}, "speed": {"model": "sensor", "factor": 0.0, "offset": 0.1}, "orientation": {"model": "sensor", "factor": 0.0, "offset": 0.1}}
Q0 = np.diag([1e-4] * 3 + [1e-5] * 3 + [1e-3] * 3 + [1e-4] * 3)


def p0(kind):
    if kind == "diag":
        return np.diag([4.0, 4.0, 1.0, 0.04, 0.04, 0.09, 0.2, 0.2, 0.2, 0.01, 0.01, 0.01])
    B = np.array([[math.sin(1.7 * i + 0.9 * j * j) for j in range(12)] for i in range(12)]) * 0.15
    return B @ B.T + np.diag([1.0, 1.0, 0.5, 0.01, 0.01, 0.02, 0.1, 0.1, 0.1, 0.01, 0.01, 0.01])


def measurement(kind, z, std, t):
    """Build a Measurement through the code's own constructors."""
    from auv_nav.localisation.ekf import Measurement
    from auv_nav.sensors import BodyVelocity, Depth, Orientation, Usbl

    m = Measurement(STD)
    deg = math.degrees
    if kind == "o":
        s = Orientation()
        s.epoch_timestamp = t
        s.roll, s.pitch, s.yaw = (deg(v) for v in z)
        s.roll_std, s.pitch_std, s.yaw_std = (deg(v) for v in std)
        m.from_orientation(s)
    elif kind == "u":
        s = Usbl()
        s.epoch_timestamp, s.northings, s.eastings, s.depth = t, z[0], z[1], 10.0
        s.northings_std, s.eastings_std = std
        m.from_usbl(s, [0.0, 0.0, 0.0], [0.0, 0.0, 0.0])
    elif kind == "d":
        s = Depth()
        s.epoch_timestamp, s.depth, s.depth_std = t, z[0], std[0]
        m.from_depth(s, [0.0, 0.0, 0.0], [0.0, 0.0, 0.0])
    else:
        s = BodyVelocity()
        s.epoch_timestamp = t
        s.x_velocity, s.y_velocity, s.z_velocity = z
        s.x_velocity_std, s.y_velocity_std, s.z_velocity_std = std
        m.from_dvl(s)
    return m


def ops_case(c, rec):
    from auv_nav.localisation.ekf import EkfImpl

    word, st, cov, thr = c
    x0, P0 = STATES[st], p0(cov)
    ekf = EkfImpl()
    ekf.set_initial_state(T, np.array([x0], float).T, P0.copy())
    ekf.set_process_noise_covariance(Q0.copy())
    ekf.set_mahalanobis_distance_threshold(thr)
    ref = Ref(T, x0, P0, Q0, thr)
    t = T
    for n, ch in enumerate(word):
        op = OPS[ch]
        before = (arr(ekf.get_state()).copy(), mat(ekf.covariance).copy())
        if op[0] == "p":
            t += op[1]
            ekf.predict(t, op[1])
            ref.predict(t, op[1])
        else:
            kind, z, std = op
            m = measurement(kind, z, std, t)
            ekf.correct(m)
            ok = ref.correct(t, IDX[kind], z, [s * s for s in std])
            if ref.near:
                return  # exactly on the gate: either decision is right
            if not ok and not (same_state(ekf.get_state(), before[0], 0.0) and same_cov(ekf.covariance, before[1], 0.0)):
                rec.fail("gated-changes-state", "word %s: step %d is beyond the gate but changed the estimate" % (word, n))
                return
            if all(not math.isfinite(v) for v in z) and not same_state(ekf.get_state(), before[0], 1e-12):
                rec.fail("nonfinite-changes-state", "word %s: step %d has no finite value but changed the estimate" % (word, n))
                return
            if ok:
                P = mat(ekf.covariance)
                for i, v in zip(IDX[kind], z):
                    if math.isfinite(v) and P[i, i] > before[1][i, i] * (1 + 1e-9) + 1e-12:
                        rec.fail("variance-grows", "word %s: step %d observes state %d and its variance grows from %g to %g" % (word, n, i, before[1][i, i], P[i, i]))
                        return
        rec.step()
        x, P = ekf.get_state(), ekf.covariance
        rec.state((c[1:], [round(float(v), 9) for v in arr(x)]))
        bad = valid_cov(P)
        if bad:
            rec.fail("covariance", "word %s from %s/%s: covariance after step %d is %s" % (word, st, cov, n, bad))
            return
        if not same_state(x, ref.x):
            rec.fail("state", "word %s from %s/%s: state after step %d is %s, expected %s" % (word, st, cov, n, np.round(arr(x), 6), np.round(ref.x, 6)))
            return
        if not same_cov(P, ref.P):
            rec.fail("covariance-value", "word %s from %s/%s: covariance after step %d differs from the Kalman equations by %g" % (word, st, cov, n, np.abs(mat(P) - ref.P).max()))
            return
        if any(abs(arr(x)[k]) > math.pi + 1e-9 for k in ANG):
            rec.fail("angle-range", "word %s: an angle left [-pi, pi]: %s" % (word, arr(x)[3:6]))
    got = ekf.get_states()
    rec.out([s.get_time() - T for s in got])
    judge_states(rec, "word %s" % word, got, ref.states)
    if len(ref.states) > 1:
        ekf.smooth(enable=True)
        judge_states(rec, "smoothed word %s" % word, ekf.get_smoothed_states(), ref.smooth(), 1e-5)


def judge_states(rec, what, got, want, tol=1e-6):
    if [round(s.get_time() - T, 6) for s in got] != [round(w[0] - T, 6) for w in want]:
        rec.fail("state-times", "%s: states at %s, expected %s" % (what, [round(s.get_time() - T, 4) for s in got], [round(w[0] - T, 4) for w in want]))
        return
    for k, (s, w) in enumerate(zip(got, want)):
        x, P = s.get()
        if not same_state(x, w[1], tol):
            rec.fail("stored-state", "%s: stored state %d is %s, expected %s" % (what, k, np.round(arr(x), 5), np.round(w[1], 5)))
            return
        if not same_cov(P, w[2], tol):
            rec.fail("stored-covariance", "%s: stored covariance %d differs by %g" % (what, k, np.abs(mat(P) - w[2]).max()))
            return
        bad = valid_cov(P)
        if bad:
            rec.fail("covariance", "%s: stored covariance %d is %s" % (what, k, bad))
            return


# ------------------------------------------------------------------ whole filter
def sensors(streams):
    from auv_nav.sensors import BodyVelocity, Depth, Orientation, Usbl

    out = {"u": [], "d": [], "o": [], "v": [], "c": []}
    for k, (ch, t) in enumerate(streams):
        if ch == "u":
            s = Usbl()
            s.northings, s.eastings, s.depth = 11.0 + 0.3 * k, -4.0 - 0.2 * k, 20.0
            s.northings_std, s.eastings_std, s.depth_std = 2.0, 1.5, 1.0
        elif ch == "d":
            s = Depth()
            s.depth, s.depth_std = 20.0 + 0.1 * k, 0.2
        elif ch == "o":
            s = Orientation()
            s.roll, s.pitch, s.yaw = 3.0 - k, -4.0 + 2 * k, (357.0 + 2 * k) % 360
            s.roll_std = s.pitch_std = s.yaw_std = 2.0
        elif ch == "v":
            s = BodyVelocity()
            s.x_velocity, s.y_velocity, s.z_velocity = 1.0 - 0.05 * k, 0.1 + 0.02 * k, 0.01 * k
            s.x_velocity_std, s.y_velocity_std, s.z_velocity_std = 0.05, 0.06, 0.07
        else:
            out["c"].append(T + t)
            continue
        s.epoch_timestamp = T + t
        out[ch].append(s)
    return out


USBL_TO_DVL, DEPTH_TO_DVL = [0.8, -0.5, 0.4], [-0.6, 0.3, 0.7]


def run_case(c, rec):
    """Streams of measurements in every order and coincidence."""
    from auv_nav.localisation.ekf import ExtendedKalmanFilter
    from auv_nav.sensors import SyncedOrientationBodyVelocity

    streams, smoother, end = c
    S = sensors(streams)
    init = SyncedOrientationBodyVelocity()
    init.epoch_timestamp = T
    init.northings, init.eastings, init.depth = 10.0, -5.0, 20.0
    init.roll, init.pitch, init.yaw = 2.0, -3.0, 355.0
    init.x_velocity, init.y_velocity, init.z_velocity = 1.0, 0.1, 0.0
    P0 = p0("diag")
    f = ExtendedKalmanFilter(init, T + end, P0.copy(), Q0.copy(), STD, S["u"], S["d"], S["o"], S["v"], 4.0, smoother, USBL_TO_DVL, DEPTH_TO_DVL)
    f.run(list(S["c"]))
    rec.step(len(streams))
    rec.state(c)
    ref = Ref(T, [10.0, -5.0, 20.0] + [math.radians(v) for v in (2.0, -3.0, 355.0)] + [1.0, 0.1, 0.0, 0, 0, 0], P0, Q0, 4.0)
    queue = {k: [s for s in S[k] if s.epoch_timestamp > T] for k in "oudv"}
    stamps = [t for t in S["c"] if t > T]
    cur = 0
    while cur < T + end:
        nxt = [q[0].epoch_timestamp for q in queue.values() if q] + stamps[:1]
        if not nxt or min(nxt) > T + end:
            break
        cur = min(nxt)
        ref.predict(cur, cur - ref.t)
        for k in "oudv":
            if queue[k] and queue[k][0].epoch_timestamp == cur:
                s = queue[k].pop(0)
                att = [math.degrees(v) for v in ref.x[3:6]]
                if k == "o":
                    z, sd = [math.radians(v) for v in (s.roll, s.pitch, s.yaw)], [math.radians(v) for v in (s.roll_std, s.pitch_std, s.yaw_std)]
                elif k == "u":
                    o = G.apply(G.rot(*att), USBL_TO_DVL)
                    z, sd = [s.northings + o[0], s.eastings + o[1]], [s.northings_std, s.eastings_std]
                elif k == "d":
                    z, sd = [s.depth + G.apply(G.rot(*att), DEPTH_TO_DVL)[2]], [s.depth_std]
                else:
                    z, sd = [s.x_velocity, s.y_velocity, s.z_velocity], [s.x_velocity_std, s.y_velocity_std, s.z_velocity_std]
                ref.correct(cur, IDX[k], z, [v * v for v in sd])
        if stamps and stamps[0] == cur:
            stamps.pop(0)
    if ref.near:
        return
    rec.out([s.get_time() - T for s in f.get_result()])
    judge_states(rec, "streams %s" % (streams,), f.get_result(), ref.states, 1e-5)
    if smoother and len(ref.states) > 1:
        judge_states(rec, "smoothed streams %s" % (streams,), f.get_smoothed_result(), ref.smooth(), 1e-4)
    judge_published(rec, streams, f.get_smoothed_result() if smoother else f.get_result(), c)
    nrej = sum(len(v) for v in f.get_rejected_measurements().values())
    if nrej != len(ref.rejected):
        rec.fail("rejected", "streams %s: %d measurements reported as rejected, expected %d" % (streams, nrej, len(ref.rejected)))


_DESC = []


def description():
    """Mission and vehicle with a shifted origin, read through the real classes."""
    if not _DESC:
        from oplab import Mission, Vehicle
        import c06

        with mc.scratch() as d:
            raw, pro, conf = D.make_dive(d, [D.j_origin()], mission=D.mission_yaml(cameras=3), vehicle=c06.MOUNTS["all"])
            out = [Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml")]
            _DESC.extend(out)
    return _DESC


def judge_published(rec, streams, states, c):
    """The published pose, velocity, rates, uncertainties and covariance are those of the state."""
    from auv_nav.localisation.ekf import save_ekf_to_list
    from auv_nav.sensors import SyncedOrientationBodyVelocity
    import c06

    mission, vehicle = description()
    dr = []
    for k in range(4):
        b = SyncedOrientationBodyVelocity()
        b.epoch_timestamp, b.altitude = T - 0.5 + k, 5.0 + k * k
        dr.append(b)
    off = lambda n: [c06.MOUNTS["all"][n][k] for k in ("surge_m", "sway_m", "heave_m")]
    lever = [a - b for a, b in zip(off("origin"), off("dvl"))]
    deg = math.degrees
    for shift in (True, False):
        out = save_ekf_to_list(states, mission, vehicle, dr, shift)
        if len(out) != len(states):
            rec.fail("published", "%d of %d states published" % (len(out), len(states)))
            return
        for b, s in zip(out, states):
            x, P = arr(s.get()[0]), mat(s.get()[1])
            sd = np.sqrt(np.maximum(0.0, np.diag(P)))
            o = G.apply(G.rot(*(deg(v) for v in x[3:6])), lever) if shift else (0.0, 0.0, 0.0)
            t = s.get_time()
            h = c06.at([(d.epoch_timestamp, d.altitude) for d in dr], t)
            want = dict(
                epoch_timestamp=t, northings=x[0] + o[0], eastings=x[1] + o[1], depth=x[2] + o[2], roll=deg(x[3]), pitch=deg(x[4]), yaw=deg(x[5]),
                x_velocity=x[6], y_velocity=x[7], z_velocity=x[8], vroll=deg(x[9]), vpitch=deg(x[10]), vyaw=deg(x[11]),
                northings_std=sd[0], eastings_std=sd[1], depth_std=sd[2], roll_std=deg(sd[3]), pitch_std=deg(sd[4]), yaw_std=deg(sd[5]),
                x_velocity_std=sd[6], y_velocity_std=sd[7], z_velocity_std=sd[8], vroll_std=deg(sd[9]), vpitch_std=deg(sd[10]), vyaw_std=deg(sd[11]),
                altitude=None if h is None else h - o[2],
            )
            for k, v in want.items():
                if v is None:
                    continue
                g = float(getattr(b, k))
                if not (mc.angle_close(g, v, 1e-7) if k in ("roll", "pitch", "yaw") else mc.close(g, v, 1e-9, 1e-9)):
                    rec.fail("published", "streams %s: published %s is %r, expected %r" % (streams, k, g, v))
                    return
            if b.covariance is None or not same_cov(b.covariance, P, 1e-12):
                rec.fail("published", "streams %s: the published covariance is not that of the state" % (streams,))
                return


# ------------------------------------------------------------------ whole processing
def process_case(c, rec):
    """EKF poses published by `auv_nav process`."""
    from auv_nav.process import process
    import c06

    ts, smoother, usbl = c
    ts = [T + (-0.6, 0.1, 0.8, 1.35, 2.4, 3.15, 5.5)[k] for k in ts]
    veh = c06.MOUNTS["all"]
    vel = c06.series([T - 0.4 + k for k in range(5)], [c06.VEL[x] for x in "fdbfd"])
    ori = c06.series([T + 0.8 * k for k in range(5)], [c06.ATT["w"]] * 5)
    imgs = c06.images(ts, 3)
    us = [(T + 0.3 + k, 3.0 + k, 2.0 - k, 20.0) for k in range(4)] if usbl else ()
    items = c06.build(vel, ori, c06.DEP, c06.ALT, imgs, usbl=us)
    out, _ = c06.run(items, veh, D.mission_yaml(cameras=3), D.nav_config(ekf=True, smoother=smoother, threshold=1e3))
    rec.step(len(items))
    rec.state(c)
    rec.out(sorted(out))
    fl, COL = c06.fl, c06.COL
    cen = out.get("ekf/auv_ekf_centre.csv")
    dvl = out.get("dead_reckoning/auv_dr_dvl.csv")
    if cen is None or dvl is None:
        rec.fail("missing-output", "no EKF centre csv, files %s" % sorted(out))
        return
    tm = [fl(r, COL["t"]) for r in cen]
    if any(b <= a for a, b in zip(tm, tm[1:])):
        rec.fail("published-times", "EKF centre times are not increasing: %s" % [round(t - T, 4) for t in tm])
    lo, hi = fl(dvl[0], COL["t"]), fl(dvl[-1], COL["t"])
    if tm[0] < lo - 1e-6 or tm[-1] > hi + 1e-6:
        rec.fail("published-range", "EKF poses at %.3f..%.3f, navigation data at %.3f..%.3f" % (tm[0] - T, tm[-1] - T, lo - T, hi - T))
    # every sensor time inside the data has a state
    want = {round(t, 4) for t, _ in vel + ori + c06.DEP + [(u[0], 0) for u in us] + [(i[0], 0) for i in imgs] if lo < t <= hi} | {round(lo, 4)}
    got = {round(t, 4) for t in tm}
    if want != got:
        rec.fail("published-times", "EKF states missing at %s, unexpected at %s" % (sorted(round(t - T, 4) for t in want - got), sorted(round(t - T, 4) for t in got - want)))
    # altitude: the DVL altitude carried to the origin
    alts = [(t, h) for t, h in c06.ALT]
    off = lambda n: [veh[n][k] for k in ("surge_m", "sway_m", "heave_m")]
    by = {}
    for r in cen:
        by[round(fl(r, COL["t"]), 5)] = r
        for col in ("vehicle_std_x [m]", "vehicle_std_y [m]", "vehicle_std_z [m]", "vehicle_std_roll [deg]", "vehicle_std_pitch [deg]", "vehicle_std_yaw [deg]"):
            v = fl(r, col)
            if not (math.isfinite(v) and v >= 0):
                rec.fail("published-std", "%s is %s" % (col, r[col]))
    da = [(fl(r, COL["t"]), fl(r, "altitude [m]")) for r in dvl]
    for r in cen:
        a = c06.at(da, fl(r, COL["t"]))
        att = [fl(r, k) for k in ("roll [deg]", "pitch [deg]", "heading [deg]")]
        o = G.apply(G.rot(*att), [x - y for x, y in zip(off("origin"), off("dvl"))])
        if a is not None and not mc.close(fl(r, "altitude [m]"), a - o[2], 1e-6, 1e-6):
            rec.fail("altitude", "EKF altitude at %+.3f is %s, expected %r" % (fl(r, COL["t"]) - T, r["altitude [m]"], a - o[2]))
            break
    from geographiclib.geodesic import Geodesic

    for cam in (1, 2, 3):
        name = "ekf/auv_ekf_cam%d%s.csv" % (cam, "_laser" if cam == 3 else "")
        mine = [(t, f) for t, f, k in imgs if k == cam and lo < t <= hi]
        rows = out.get(name)
        if rows is None:
            if len(mine) > 1:
                rec.fail("missing-output", "no %s" % name)
            continue
        if [os.path.basename(r["relative_path"]) for r in rows] != [os.path.basename(f) for _, f in mine]:
            rec.fail("camera-rows", "%s has %s, expected %s" % (name, [r["relative_path"] for r in rows], [f for _, f in mine]))
            continue
        for r, (t, f) in zip(rows, mine):
            b = by.get(round(t, 5))
            if b is None:
                rec.fail("camera-rows", "no EKF state at the shutter time of %s" % f)
                break
            att = [fl(b, k) for k in ("roll [deg]", "pitch [deg]", "heading [deg]")]
            o = G.apply(G.rot(*att), [x - y for x, y in zip(off("cam%d" % cam), off("origin"))])
            exp = dict(n=fl(b, COL["n"]) + o[0], e=fl(b, COL["e"]) + o[1], z=fl(b, COL["z"]) + o[2], h=fl(b, COL["h"]) - o[2])
            bad = ["%s=%r expected %r" % (k, fl(r, COL[k]), v) for k, v in exp.items() if not mc.close(fl(r, COL[k]), v, 1e-9, 1e-6)]
            g = Geodesic.WGS84.Inverse(50.0, -1.0, fl(r, "latitude [deg]"), fl(r, "longitude [deg]"))
            a = math.radians(g["azi1"])
            if abs(g["s12"] * math.cos(a) - fl(r, COL["n"])) > 1e-4 or abs(g["s12"] * math.sin(a) - fl(r, COL["e"])) > 1e-4:
                bad.append("latitude/longitude do not match northing/easting")
            if bad:
                rec.fail("camera-pose", "%s %s: %s" % (name, f, "; ".join(bad)))
                break


def orders():
    """All orders and coincidences of one measurement of each stream and an image time."""
    out = []
    for slots in itertools.product((0.5, 1.0, 1.5), repeat=5):
        out.append(tuple(sorted(zip("udovc", slots), key=lambda x: x[1])))
    return out


def body():
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    chk = mc.Check("C07", assumptions=["pitch away from +-90 degrees", "a measurement exactly on the gate may go either way"])
    q = not chk.thorough
    words = lambda al, lo, hi: ["".join(w) for n in range(lo, hi + 1) for w in itertools.product(al, repeat=n)]
    A = "PzOoNUXniDeVv"
    cases = [(w, s, "full", 3.0) for w in words(A, 1, 3 if q else 4) for s in (("wrap",) if q else STATES)]
    cases += [(w, s, p, t) for w in words(A, 1, 2) for s in STATES for p in ("diag", "full") for t in (0.5, 3.0, 1e6)]
    cases += [(w, st, "diag", 3.0) for w in words("PrOo", 1, 4) for st in ("rolled", "wrap")]
    cases += [("P" + "".join(x + "p" for x in w), "level", "diag", 3.0) for w in words("XxU", 4, 6 if q else 8)]
    cases += [("".join(ch * n for ch, n in zip(a, k)), "level", "full", 3.0) for a in ("XPUX", "xPDx", "XxUD") for k in itertools.product((1, 3, 9), repeat=4)]
    if not q:
        cases += [(w, "wrap", "diag", 3.0) for w in words("POUDV", 5, 6)]
    else:
        cases += [(w, "wrap", "diag", 3.0) for w in words("POUV", 4, 4)]
    chk.explore("operations", cases, ops_case, "all words of predict/update operations x start state x covariance x gate")
    chk.explore("streams", [(s, sm, e) for s in orders() for sm in (False, True) for e in ((1.5,) if q else (1.0, 1.2, 1.5, 9.0))], run_case, "all orders and coincidences of the sensor streams")
    two = [tuple(sorted(zip("udovcovu"[:n], sl), key=lambda x: x[1])) for n in ((6,) if q else (6, 7)) for sl in itertools.product((-0.5, 0.0, 0.6, 1.2), repeat=n) if sorted(sl[:3]) == list(sl[:3])]
    chk.explore("streams-long", [(s, True, e) for s in two for e in (0.6, 1.3)], run_case, "two measurements per stream, before/at the start and after the end")
    chk.explore("process", [(s, sm, u) for n in ((0, 2, 3, 7) if q else range(8)) for s in itertools.combinations(range(7), n) for sm in (True, False) for u in (True, False)], process_case, "image times x smoother x fixes through whole processing")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
