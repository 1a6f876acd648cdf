"""C31: the particle filter moves, weighs and redraws its particles by its motion and observation model."""
import itertools
import math
import os
import sys
from pathlib import Path

import numpy as np

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

STD = {
    "position_xy": {"model": "linear", "offset": 2.0, "factor": 0.01},
    "speed": {"model": "linear", "offset": 0.2, "factor": 0.05},
    "position_z": {"model": "linear", "offset": 0.05, "factor": 0.01},
    "orientation": {"model": "linear", "offset": 2.0, "factor": 0.01},
}
AXES = {
    "position_xy": {"model": "linear", "offset": 2.0, "factor": 0.01},
    "speed": {"model": "linear", "offset": 0.2, "factor": 0.05, "offset_x": 0.3, "factor_x": 0.1, "offset_y": 0.15, "factor_y": 0.02, "offset_z": 0.1, "factor_z": 0.0},
    "position_z": {"model": "linear", "offset": 0.05, "factor": 0.01},
    "orientation": {"model": "linear", "offset": 2.0, "factor": 0.01},
}
ZERO = {k: {"model": "linear", "offset": 0.0, "factor": 0.0} for k in STD}
KD, KI, KU = 1.5, 0.5, 1.25
T0 = 1500000000.0


class Draws:
    """Stands in for the generator: cycles through one enumerated sequence of normal and one of uniform draws."""

    def __init__(self, normal, unit):
        self.n, self.u = itertools.cycle(normal), itertools.cycle(unit)

    def _many(self, it, shape):
        shape = tuple(s for s in shape if s is not None)
        if not shape:
            return float(next(it))
        return np.array([next(it) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)

    def randn(self, *shape):
        return self._many(self.n, shape)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self._many(self.n, np.atleast_1d(size) if size is not None else ())

    def standard_normal(self, size=None):
        return self._many(self.n, np.atleast_1d(size) if size is not None else ())

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._many(self.u, np.atleast_1d(size) if size is not None else ())

    def rand(self, *shape):
        return self._many(self.u, shape)

    def __enter__(self):
        from auv_nav.localisation import pf

        self.old = []
        for m in (pf, np.random):
            for n in ("randn", "normal", "standard_normal", "uniform", "rand", "random"):
                if hasattr(m, n) and callable(getattr(m, n)):
                    self.old.append((m, n, getattr(m, n)))
                    setattr(m, n, getattr(self, "rand" if n == "random" else n))
        return self

    def __exit__(self, *a):
        for m, n, f in self.old:
            setattr(m, n, f)


def rot(roll, pitch, yaw):
    cr, sr, cp, sp, cy, sy = math.cos(roll), math.sin(roll), math.cos(pitch), math.sin(pitch), math.cos(yaw), math.sin(yaw)
    return np.array(
        [
            [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
            [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        ]
    )


def dead_reckoning(n, gap):
    from auv_nav.sensors import SyncedOrientationBodyVelocity

    out = []
    for k in range(n):
        s = SyncedOrientationBodyVelocity()
        s.epoch_timestamp = T0 + gap[k]
        s.roll, s.pitch, s.yaw = 8.0 - 3 * k, -6.0 + 4.5 * k, (335.0 + 40 * k) % 360
        s.x_velocity, s.y_velocity, s.z_velocity = 1.0 + 0.25 * k, -0.5 + 0.375 * k, 0.25 - 0.125 * k
        s.depth, s.altitude = 40.0 + k, 5.0 - 0.25 * k
        s.northings, s.eastings = 3.0 + 0.8 * k, -7.0 + 0.3 * k
        out.append(s)
    return out


def usbl(times, shift):
    from auv_nav.sensors import Usbl

    out = []
    for k, t in enumerate(times):
        u = Usbl.__new__(Usbl)
        u.epoch_timestamp = T0 + t
        u.northings, u.eastings, u.depth = 3.0 + 0.8 * t + shift[0], -7.0 + 0.3 * t + shift[1] * (1 if k % 2 else 0.5), 40.0 + t
        u.northings_std, u.eastings_std, u.depth_std = 0.6 + 0.1 * k, 0.5, 0.3
        out.append(u)
    return out


def sigma(p, key, v):
    """standard deviation of one noisy quantity of record v"""
    s = p["speed"]
    ax = {"x_velocity": "_x", "y_velocity": "_y", "z_velocity": "_z"}
    if key in ax:
        a = ax[key] if "factor_x" in s else ""
        return (v * s["factor" + a] + s["offset" + a]) * KD
    return math.radians(v * p["orientation"]["factor"] + p["orientation"]["offset"]) * KI


def motion(case, rec):
    from auv_nav.localisation import pf

    n, std, gap, fixes, shift, normal, unit = case
    p = {"std": STD, "axes": AXES, "zero": ZERO}[std]
    rec.state(case)
    dr, fx = dead_reckoning(len(gap), gap), usbl(fixes, shift)
    seen = {"fix": [], "best": None}
    weigh, redraw = pf.ParticleFilter.measure, pf.ParticleFilter.resample

    def measure(self, *a, **k):
        before = [(q, q.weight, q.state[:3, 0].copy()) for q in self.particles]
        r = weigh(self, *a, **k)
        fix = fx_now[len(seen["fix"])] if len(seen["fix"]) < len(fx_now) else fx[-1]
        like = []
        sd = KU * math.sqrt(fix.northings_std**2 + fix.eastings_std**2 + fix.depth_std**2)
        for _, w, x in before:
            d2 = (x[0] - fix.northings) ** 2 + (x[1] - fix.eastings) ** 2 + (x[2] - fix.depth) ** 2
            like.append(w * math.exp(-d2 / (2 * sd * sd)) / (sd * math.sqrt(2 * math.pi)))
        tot = sum(like)
        if {id(b[0]) for b in before} != {id(q) for q in self.particles} or len(self.particles) != n:
            rec.fail("particles", "weighing the particles changes which particles there are")
        elif tot > 1e-15:
            want = {id(b[0]): v / tot for b, v in zip(before, like)}
            for q in self.particles:
                if abs(q.weight - want[id(q)]) > 1e-9:
                    rec.fail("weight", "a particle weighs %r after a fix instead of %r" % (q.weight, want[id(q)]))
                    break
        if any(abs(b[2] - b[0].state[:3, 0]).max() > 0 for b in before):
            rec.fail("moved", "a fix moves a particle")
        ws = [q.weight for q in self.particles]
        seen["fix"].append((fix, ws))
        seen["n"] = 1 / sum(w * w for w in ws)
        seen["redrawn"] = False
        top = max(ws)
        seen["best"] = [(tuple(q.trajectory_time), np.array([s[:2, 0] for s in q.trajectory])) for q in self.particles if q.weight >= top - 1e-12]
        seen["ambiguous"] = abs(seen["n"] - n / 2.0) < 1e-9
        rec.step()
        return r

    def resample(self, *a, **k):
        old = [(q.weight, q.state.copy()) for q in self.particles]
        r = redraw(self, *a, **k)
        seen["redrawn"] = True
        if len(self.particles) != n:
            rec.fail("number", "%d particles after drawing from %d" % (len(self.particles), n))
            return r
        if len({id(q) for q in self.particles}) != n:
            rec.fail("shared", "two particles are the same object after drawing")
        left = list(self.particles)
        groups = {}
        for w, s in old:
            groups.setdefault(s.tobytes(), [0.0, 0])[0] += w
        for q in left:
            if q.state.tobytes() not in groups:
                rec.fail("invented", "drawing gives a particle that was not there")
                return r
            groups[q.state.tobytes()][1] += 1
        for s, (w, c) in groups.items():
            if not (math.floor(n * w - 1e-6) <= c <= math.ceil(n * w + 1e-6) + sum(1 for o in old if o[1].tobytes() == s) - 1):
                rec.fail("drawn", "a particle of weight %.4f is drawn %d times out of %d" % (w, c, n))
        if any(abs(q.weight - 1.0 / n) > 1e-9 for q in self.particles):
            rec.fail("reset", "the particles do not weigh the same after drawing")
        rec.out("redrawn")
        return r

    fx_now = [f for f in fx if f.epoch_timestamp >= dr[0].epoch_timestamp and f.epoch_timestamp <= dr[-1].epoch_timestamp]
    pf.ParticleFilter.measure, pf.ParticleFilter.resample = measure, resample
    try:
        with Draws(normal, unit), np.errstate(all="ignore"):
            out = pf.run_particle_filter(fx, dr, n, p, KD, KI, KU, measurement_update_flag=True)
    finally:
        pf.ParticleFilter.measure, pf.ParticleFilter.resample = weigh, redraw
    rec.step()
    poses, used = out[0], out[1]
    # the epochs of the trajectory: every record, and every fix within the records, in order
    want = sorted([(r.epoch_timestamp, 1, r) for r in dr] + [(f.epoch_timestamp, 0, f) for f in fx_now], key=lambda e: e[:2])
    if seen["fix"] and len(seen["fix"]) != len(fx_now):
        rec.fail("fixes", "%d of %d fixes are used" % (len(seen["fix"]), len(fx_now)))
    if [round(q.epoch_timestamp, 5) for q in poses] != [round(e[0], 5) for e in want]:
        rec.fail("epochs", "poses at %r instead of %r" % ([q.epoch_timestamp - T0 for q in poses], [e[0] - T0 for e in want]))
        return
    allowed = sorted(set(normal))
    cur, x, t = None, np.array([dr[0].northings, dr[0].eastings]), dr[0].epoch_timestamp
    for q, (te, kind, r) in zip(poses, want):
        if kind:
            cur = r
        if cur is None:
            # a fix at the first record: nothing has been recorded about the motion yet
            x = np.array([q.northings, q.eastings])
            if abs(x - [dr[0].northings, dr[0].eastings]).max() > 1e-6:
                rec.fail("start", "the trajectory starts elsewhere than dead reckoning")
            continue
        for key in ("roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity"):
            v, s = getattr(cur, key), sigma(p, key, getattr(cur, key))
            if key in ("roll", "pitch", "yaw"):
                s = math.degrees(s)
            if min(abs(getattr(q, key) - v - a * s) for a in allowed) > 1e-6:
                rec.fail("noise:" + key, "%s %r is not the recorded %r with one of the drawn errors of deviation %r" % (key, getattr(q, key), v, s))
        ro, pi = math.radians(q.roll), math.radians(q.pitch)
        dz = (-math.sin(pi) * q.x_velocity + math.cos(pi) * math.sin(ro) * q.y_velocity + math.cos(pi) * math.cos(ro) * q.z_velocity) * (te - t)
        s = p["position_z"]["factor"] * cur.depth + p["position_z"]["offset"]
        if min(abs(q.depth - cur.depth - a * s - z) for a in allowed for z in (0.0, dz)) > 1e-5:
            rec.fail("depth", "depth %r is not the recorded %r with one of the drawn errors of deviation %r" % (q.depth, cur.depth, s))
        x = x + rot(*(math.radians(a) for a in (q.roll, q.pitch, q.yaw))) @ np.array([q.x_velocity, q.y_velocity, q.z_velocity]) * (te - t)
        t = te
        if abs(x - [q.northings, q.eastings]).max() > 1e-5:
            rec.fail("motion", "pose at %.2f is %r instead of %r" % (te - T0, (q.northings, q.eastings), tuple(x)))
            return
    # the published trajectory is the one of the particle that agrees best with the fixes
    if seen["best"] is not None:
        k = len(seen["best"][0][0])
        got = np.array([[q.northings, q.eastings] for q in poses[:k]])
        if not any(len(b[0]) == k and abs(b[1] - got).max() < 1e-6 for b in seen["best"]):
            rec.fail("best", "the published trajectory is not that of the particle with the largest weight")
    lean = [f for f, w in seen["fix"] if 1 / sum(a * a for a in w) < n / 2.0 - 1e-9]
    edge = [f for f, w in seen["fix"] if abs(1 / sum(a * a for a in w) - n / 2.0) <= 1e-9]
    if (seen["fix"] or not fx_now) and [f for f in used if not any(f is e for e in edge)] != lean:
        rec.fail("when", "drawn after %d fixes instead of %d: exactly when fewer than half of the particles matter" % (len(used), len(lean)))
    rec.out((len(poses), len(used)))


def draws_case(case, rec):
    """drawing alone: every set of weights, every offset"""
    from auv_nav.localisation import pf

    weights, start = case
    rec.state(case)
    n = len(weights)
    f = pf.ParticleFilter(n, None, None)
    prior = pf.Particle()
    prior.state = np.zeros((pf.Index.DIM, 1))
    prior.time = 0.0
    f.set_prior(prior)
    if len({id(q) for q in f.particles}) != n or any(abs(q.weight - 1.0 / n) > 1e-12 for q in f.particles):
        rec.fail("prior", "the particles of the prior are not separate ones of equal weight")
        return
    tot = float(sum(weights))
    for k, (q, w) in enumerate(zip(f.particles, weights)):
        q.weight = w / tot
        q.state[0, 0] = k
    neff = 1 / sum((w / tot) ** 2 for w in weights)
    if abs(f.get_neff() - neff) > 1e-9:
        rec.fail("effective", "effective number %r instead of %r" % (f.get_neff(), neff))
    if abs(neff - n / 2.0) > 1e-9 and f.should_resample() != (neff < n / 2.0):
        rec.fail("when", "drawing is%s due with %r of %d particles effective" % ("" if f.should_resample() else " not", neff, n))
    with Draws((0.0,), (start,)):
        f.resample()
    rec.step()
    got = [int(q.state[0, 0]) for q in f.particles]
    for k, w in enumerate(weights):
        c, e = got.count(k), n * w / tot
        if not math.floor(e - 1e-9) <= c <= math.ceil(e + 1e-9):
            rec.fail("drawn", "particle %d of weight %r is drawn %d times out of %d" % (k, w / tot, c, n))
    if len({id(q) for q in f.particles}) != n:
        rec.fail("shared", "two particles are the same object after drawing")
    rec.out(tuple(got))


def fair_case(weights, rec):
    """over all offsets a particle is drawn as often as its weight says, on average exactly"""
    from auv_nav.localisation import pf

    rec.state(weights)
    n, tot, m = len(weights), float(sum(weights)), 64
    count = np.zeros(n)
    for i in range(m):
        f = pf.ParticleFilter(n, None, None)
        prior = pf.Particle()
        prior.state = np.zeros((pf.Index.DIM, 1))
        prior.time = 0.0
        f.set_prior(prior)
        for k, (q, w) in enumerate(zip(f.particles, weights)):
            q.weight = w / tot
            q.state[0, 0] = k
        with Draws((0.0,), ((i + 0.5) / m,)):
            f.resample()
        rec.step()
        for q in f.particles:
            count[int(q.state[0, 0])] += 1.0 / m
    if abs(count - n * np.array(weights) / tot).max() > 2.0 / m:
        rec.fail("biased", "particles of weights %r are drawn %r times on average" % (weights, tuple(count)))
    rec.out(tuple(np.round(count, 3)))


# ---------------------------------------------------------------- the command
def table(f):
    lines = f.read_text().splitlines()
    head = [h.strip() for h in lines[0].split(",")]
    return [dict(zip(head, l.split(","))) for l in lines[1:]]


def command(case, rec):
    """products of a dive without noise: the trajectory is the integral, every position agrees with its offset from the origin"""
    from auv_nav.process import process
    from auv_nav.tools.latlon_wgs84 import metres_to_latlon

    from auv_nav.localisation import pf

    cameras, yaw0, origin, mounted, kd, ki, number = case
    rec.state(case)
    body = []
    for k in range(6):
        t = D.T0 + k
        body += [
            D.j_vel(t, 1.0 + 0.1 * k, 0.1, 0.02 * k, std=0.07),
            D.j_ori(t + 0.1, 1.0 * k, -0.5 * k, (yaw0 + 6 * k) % 360, std=0.3),
            D.j_depth(t - 0.2, 10 + k, std=0.2),
            D.j_alt(t - 0.1, 5.0 + 0.1 * k),
            D.j_usbl(t + 0.4, 100 + k, 50 - k, 10 + k, std=1.5),
            D.j_img(t + 0.3, "a/%07d.png" % k, "b/%07d.png" % k if cameras > 1 else None),
        ]
        if cameras > 2:
            body.append(D.j_laser(t + 0.35, "c/%07d.png" % k))
    body.sort(key=lambda d: d["epoch_timestamp"])
    conf = D.nav_config(pf=True)
    conf["particle_filter"].update(particles_number=number, dvl_noise_sigma_factor=kd, imu_noise_sigma_factor=ki, usbl_noise_sigma_factor=1.75)
    seen = {}
    model, weigh = pf.UsblObservationModel, pf.ParticleFilter.measure

    class Model(model):
        def __init__(self, *a, **k):
            seen["factor"] = (list(a) + list(k.values()))[0]
            model.__init__(self, *a, **k)

    def measure(self, *a, **k):
        seen["number"] = len(self.particles)
        return weigh(self, *a, **k)

    veh, mis = D.vehicle_yaml(), D.mission_yaml(cameras=cameras)
    if not mounted:
        veh["dvl"] = dict(veh["ins"])
    mis["origin"]["latitude"], mis["origin"]["longitude"] = origin
    with mc.scratch() as d:
        mis["payloads"] = {"ctd": {"path": "ctd/log.csv", "format": "generic_csv", "timezone": 0, "timeoffset": 0}}
        veh["payloads"] = {"ctd": D.off(0.5, 0.2, 0.1)}
        for o in conf["csv_output"].values():
            if isinstance(o, dict):
                o["payload"] = True
        raw, pro, cf = D.make_dive(d, [D.j_origin(*origin)] + body, vehicle=veh, mission=mis, config=conf)
        (raw / "ctd").mkdir()
        (raw / "ctd" / "log.csv").write_text("corrected_timestamp,salinity\n" + "".join("%.2f,%.2f\n" % (D.T0 + k + 0.6, 35 + k) for k in range(4)))
        pf.UsblObservationModel, pf.ParticleFilter.measure = Model, measure
        try:
            with Draws((1.0,), (0.5,)):
                process(str(pro), False, "", "")
        finally:
            pf.UsblObservationModel, pf.ParticleFilter.measure = model, weigh
        rec.step()
        csv = next(pro.glob("json_renav_*")) / "csv"
        files = {f.stem: table(f) for f in csv.rglob("*pf*.csv") if "cov" not in f.stem}
        ref = table(next(csv.rglob("auv_dr_dvl.csv")))
    if seen.get("factor", 1.75) != 1.75 or seen.get("number", number) != number:
        rec.fail("configured", "%r particles and factor %r for the fixes instead of %d and 1.75" % (seen.get("number"), seen.get("factor"), number))
    need = {"auv_pf_centre", "auv_pf_dvl", "ctd_pf"} | ({"auv_pf_cam3_laser"} if cameras > 2 else set()) | {"auv_pf_" + c["name"] for c in mis["image"]["cameras"][:2]}
    missing = [m for m in need if not files.get(m)]
    if missing:
        rec.fail("missing", "no %s" % ", ".join(sorted(missing)))
        return
    for name, rws in files.items():
        for r in rws:
            n, e = float(r["northing [m]"]), float(r["easting [m]"])
            lat, lon = metres_to_latlon(origin[0], origin[1], e, n)
            try:
                got = float(r["latitude [deg]"]), float(r["longitude [deg]"])
            except ValueError:
                got = (math.inf, math.inf)
            if not (abs(got[0] - lat) < 1e-7 and abs(got[1] - lon) < 1e-7):
                rec.fail("latlon:" + name, "position (%s, %s) of a pose at northing %r, easting %r" % (r["latitude [deg]"], r["longitude [deg]"], n, e))
                return
    dvl, ctr = files["auv_pf_dvl"], files["auv_pf_centre"]
    if [r["timestamp"] for r in dvl] != [r["timestamp"] for r in ctr]:
        rec.fail("rows", "the centre and the velocity sensor have different epochs")
        return

    def val(r, *keys):
        return [float(r[k]) for k in keys]

    off = [veh["dvl"]["%s_m" % a] for a in ("surge", "sway", "heave")]
    for a, b in zip(dvl, ctr):
        att = [math.radians(v) for v in val(a, "roll [deg]", "pitch [deg]", "heading [deg]")]
        want = np.array(val(a, "northing [m]", "easting [m]")) + rot(*att) @ (-np.array(off))
        if abs(want - val(b, "northing [m]", "easting [m]")).max() > 1e-5:
            rec.fail("lever", "the centre of the vehicle is not offset from the velocity sensor by its mounting")
            return
    if abs(np.array(val(dvl[0], "northing [m]", "easting [m]")) - val(ref[0], "northing [m]", "easting [m]")).max() > 1e-5:
        rec.fail("start", "the trajectory starts elsewhere than the dead reckoning of the velocity sensor")
    # the integral of the recorded motion from where dead reckoning starts
    ev = [(float(r["timestamp"]), 1, r) for r in ref]
    ev += [(D.T0 + k + 0.4, 0, None) for k in range(6) if ev[0][0] <= D.T0 + k + 0.4 <= ev[-1][0]]
    ev.sort(key=lambda e: e[:2])
    if [round(float(r["timestamp"]), 3) for r in dvl] != [round(e[0], 3) for e in ev]:
        rec.fail("epochs", "%d poses instead of one per record and fix (%d)" % (len(dvl), len(ev)))
        return
    sp = conf["std"]["speed"]
    x, t, cur = np.array(val(ref[0], "northing [m]", "easting [m]")), ev[0][0], None
    for q, (te, kind, r) in zip(dvl, ev):
        cur = r if kind else cur
        o = conf["std"]["orientation"]
        att = [a + (a * o["factor"] + o["offset"]) * ki for a in val(cur, "roll [deg]", "pitch [deg]", "heading [deg]")]
        k = float(cur["timestamp"]) - D.T0
        x = x + rot(*(math.radians(a) for a in att)) @ np.array([v + (v * sp["factor_" + a] + sp["offset_" + a]) * kd for a, v in zip("xyz", (1.0 + 0.1 * k, 0.1, 0.02 * k))]) * (te - t)
        t = te
        if abs(np.array(val(q, "roll [deg]", "pitch [deg]", "heading [deg]")) - att).max() > 1e-5:
            rec.fail("attitude", "the attitude at %.1f is not the recorded one" % (te - D.T0))
        if not mounted and abs(np.array(val(q, "northing [m]", "easting [m]")) - x).max() > 1e-4:
            rec.fail("motion", "the pose at %.1f is not the integral of the recorded motion" % (te - D.T0))
            return
    # cameras: the centre at the time of the image, offset by the mounting
    mounts = [("auv_pf_cam1", veh["cam1"]), ("auv_pf_cam2", veh["cam2"]), ("auv_pf_cam3_laser", veh["cam3"]), ("ctd_pf", veh["payloads"]["ctd"])]
    for cam, mount in mounts:
        off = [mount["%s_m" % a] - veh["origin"]["%s_m" % a] for a in ("surge", "sway", "heave")]
        for r in files.get(cam, []):
            te = float(r["timestamp [s]"] if "timestamp [s]" in r else r["corrected_timestamp"])
            k = max([i for i in range(len(ctr) - 1) if float(ctr[i]["timestamp"]) <= te + 1e-6], default=None)
            if k is None:
                rec.fail("outside", "an image before the navigation gets a pose")
                return
            a, b = ctr[k], ctr[k + 1]
            f = (te - float(a["timestamp"])) / (float(b["timestamp"]) - float(a["timestamp"]))

            def mix(c, wrap=False):
                u, v = float(a[c]), float(b[c])
                return u + f * ((v - u + 180) % 360 - 180 if wrap else v - u)

            want = np.array([mix("northing [m]"), mix("easting [m]")]) + rot(*(math.radians(mix(c, True)) for c in ("roll [deg]", "pitch [deg]", "heading [deg]"))) @ np.array(off)
            if abs(np.array(val(r, "northing [m]", "easting [m]")) - want).max() > 1e-4:
                rec.fail("camera", "%s at %.1f is not at its mounting on the vehicle" % (cam, te - D.T0))
                return
    rec.out(len(dvl))


def body():
    ck = mc.new_check("C31")
    gaps = [(0, 1, 2), (0, 0.5, 2.5, 3)] + ([(0, 1, 1.25, 4), (0, 2)] if ck.thorough else [])
    normals = [s for k in (1, 2, 3) for s in itertools.product((-1.0, 0.0, 1.0), repeat=k) if k == 1 or len(set(s)) > 1]
    slots = (-0.75, 0.0, 0.4, 1.0, 1.6, 3.5)
    fixes = [f for k in (1, 2, 3) for f in itertools.combinations(slots, k)]
    cases = [
        (n, std, g, f, sh, nm, u)
        for n in ((1, 3, 4) if ck.thorough else (1, 3))
        for std in ("std", "axes", "zero")
        for g in gaps
        for f in fixes
        for sh in ((0.5, -0.25), (2.0, 1.5))
        for nm in (normals if std != "zero" else normals[:1])
        for u in (((0.0,), (0.5,), (0.999,)) if ck.thorough else ((0.5,),))
        if ck.thorough or (n == 3) or nm in normals[:6]
    ]
    if not ck.thorough:
        cases = [c for k, c in enumerate(cases) if c[1] != "axes" or len(c[3]) < 3]
    ck.explore("motion, weights and redrawing", cases, motion, "every sequence of draws up to length 3 cycled, every set of up to 3 fix times")
    top = 5 if ck.thorough else 4
    ws = [w for k in range(1, top + 1) for w in itertools.product((0, 1, 2, 7), repeat=k) if sum(w)]
    ck.explore("drawing", [(w, s) for w in ws for s in (0.0, 0.25, 0.5, 0.75, 0.999)], draws_case, "every vector of weights and offset")
    ck.explore("fair drawing", [w for w in ws if len(w) > 1], fair_case, "every vector of weights, 64 offsets each")
    ck.explore(
        "process command",
        [(c, y, o, m, kd, ki, 2 if kd else 3) for kd, ki in ((0.0, 0.0), (2.0, 0.0), (0.0, 3.0)) for m in (True, False) for c in (1, 2, 3) for y in (0, 100, 190, 352) for o in ((50.0, -1.0), (-33.0, 151.0))],
        command,
        "dive without noise, cameras, headings and hemispheres",
    )
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
