#!/usr/bin/env python3
"""C21: images of two cameras are paired by time, and only if they were taken together."""
import itertools
import os
import re
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc  # noqa: E402
import dataset as D  # noqa: E402
import rawfmt as R  # noqa: E402

ck = mc.new_check("C21")
mc.silence_console()
D.stub_version()

import datetime  # noqa: E402

from auv_cal import laser_calibrator as LC  # noqa: E402
from auv_cal.camera_calibrator import find_common_filenames  # noqa: E402
from auv_nav.parsers.parse_acfr_images import parse_acfr_images  # noqa: E402
from auv_nav.parsers.parse_biocam_images import correct_timestamps, parse_biocam_images  # noqa: E402
from auv_nav.parsers.parse_ntnu_stereo import parse_ntnu_stereo_images  # noqa: E402
from oplab import Mission, Vehicle  # noqa: E402

START = 1500076799500  # [ms] 2017-07-14 23:59:59.500
TOL = 50
# what one moment may leave behind: (left taken, right taken, right minus left [ms])
WIDE = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 1, -30), (1, 1, 30), (1, 1, 80), (1, 1, -80)]
DENSE = [(1, 1, 0), (1, 1, 20), (1, 1, -20)]


def stamps(case):
    gap, slots = case
    ls, rs = [], []
    for k, (a, b, d) in enumerate(slots):
        t = START + k * gap
        if a:
            ls.append(t)
        if b:
            rs.append(t + d)
    return ls, rs


def expected(ls, rs):
    out = []
    for a in ls:
        b = min(rs, key=lambda x: abs(x - a), default=None)
        if b is not None and abs(b - a) < TOL:
            out.append((a, b))
    return sorted(out)


def cal(ms):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=ms)
    return d


def acfr(ms, side):
    d = cal(ms)
    return "PR_%s_%03d_%s16" % (d.strftime("%Y%m%d_%H%M%S"), ms % 1000, side + "C")


def ntnu(ms, side):
    return "%s.%04d%s" % (cal(ms).strftime("%y%m%d-%H%M%S"), ms % 1000 * 10 + 3, side)


CAM = {"L": -123456, "R": 7654321}  # the clocks of the two cameras are not synchronised


def biocam(ms, side, digits=6):
    us = datetime.timedelta(microseconds=123 if digits == 6 else 0)
    a, b = cal(ms) + us, cal(ms + CAM[side]) + us
    f = lambda x: x.strftime("%Y%m%d_%H%M%S_%f")[: digits - 6 or None]
    return "%s_%s_pco%s" % (f(a), f(b), {"L": "c", "R": "m"}[side])


FMT = {
    "acfr": ("acfr_standard", parse_acfr_images, lambda t, s: "image/%s.tif" % acfr(t, s)),
    "ntnu": ("ntnu_stereo", parse_ntnu_stereo_images, lambda t, s: "image/%s.jpg" % ntnu(t, s)),
    "biocam": ("biocam4000_15c", parse_biocam_images, lambda t, s: "image/%sC_strobe/%s.tif" % (s, biocam(t, s))),
    "biocam3": ("biocam4000_15c", parse_biocam_images, lambda t, s: "image/%sC_strobe/%s.tif" % (s, biocam(t, s, 3))),
}
SUB = {"acfr": 0.0, "ntnu": 0.3, "biocam": 0.123, "biocam3": 0.0}  # [ms] finer part of the times
_ENV = {}
_CTX = mc.scratch()
_ROOT = _CTX.__enter__()


def env(name):
    key = (os.getpid(), name)
    if key not in _ENV:
        root = _ROOT / ("%s_%d" % (name, os.getpid()))
        raw, pro, cfg = D.make_raw(root, mission=D.raw_mission(img_fmt=FMT[name][0]))
        for s in () if "biocam" not in name else ("LC_strobe", "RC_strobe", "LC_laser", "RC_laser"):
            (raw / "image" / s).mkdir()
        (pro / "nav").mkdir(parents=True, exist_ok=True)
        _ENV[key] = (Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), raw, pro)
    return _ENV[key]


def parser_case(case, rec):
    name, ftype, extra, body = case
    m, v, raw, pro = env(name)
    ls, rs = stamps(body)
    path = FMT[name][2]
    files = {path(t, "L"): ("L", t) for t in ls}
    files.update({path(t, "R"): ("R", t) for t in rs})
    if name == "biocam" and extra:
        for k, sub in enumerate(("000/", "", "000/001/")):
            files["image/RC_laser/%s%s.jpg" % (sub, biocam(START + 5000 * (k + 1), "R"))] = ("laser", START + 5000 * (k + 1))
    for f in files:
        (raw / f).parent.mkdir(parents=True, exist_ok=True)
        (raw / f).write_text("")
    stem = {Path(f).name: k for f, k in files.items()}
    try:
        got = FMT[name][1](m, v, "images", ftype, pro / "nav")
    finally:
        for f in files:
            (raw / f).unlink()
    rec.step()
    if name == "acfr" and not rs:
        want = [(a, a) for a in ls]  # documented: a single camera is used as both
        second = "L"
    else:
        want = expected(ls, rs)
        second = "R"
    if ftype == "oplab":
        pairs, las = [], []
        for it in got:
            if it["category"] == "laser":
                las.append(it)
                continue
            pairs.append([(stem[Path(it[c][0]["filename"]).name], it[c][0]["epoch_timestamp"]) for c in ("camera1", "camera2")])
            for c in ("camera1", "camera2") if "biocam" in name else ():
                (s, t), e = stem[Path(it[c][0]["filename"]).name], it[c][0]
                if abs(e["epoch_timestamp_cam"] * 1000 - t - CAM[s] - SUB[name]) > 0.01 or abs(e["epoch_timestamp_cpu"] * 1000 - t - SUB[name]) > 0.01:
                    rec.fail("biocam:clocks", "%s: clocks read as %r (camera) and %r (computer)" % (e["filename"], e["epoch_timestamp_cam"], e["epoch_timestamp_cpu"]))
            if abs(it["epoch_timestamp"] - pairs[-1][0][1]) > 1e-6:
                rec.fail("%s:item-time" % name, "the pair of %s carries the time %r" % (it["camera1"][0]["filename"], it["epoch_timestamp"]))
        if name == "biocam" and extra:
            x = sorted((stem[Path(e["camera3"][0]["filename"]).name], [round(t * 1000 - START - SUB[name], 2) for t in (e["epoch_timestamp"], e["camera3"][0]["epoch_timestamp"], e["camera3"][0]["epoch_timestamp_cam"] - CAM["R"] / 1000)]) for e in las)
            if x != [(("laser", START + 5000 * k), [5000.0 * k] * 3) for k in (1, 2, 3)]:
                rec.fail("biocam:laser", "three laser images not reported once with their own time: %r" % (x,))
    else:
        rows = re.findall(r"^VIS: (\S+) \[(\S+)\] (\S+) exp: 0$", got, re.M)
        if len(rows) * 1 != got.count("\n") or len(rows) % 2:
            rec.fail("%s:acfr-text" % name, "unexpected text %r" % got[:200])
            return
        x = [(stem[Path(f).name], float(t)) for t, t2, f in rows if t == t2]
        x = [e for e in x if e[0][0] != "laser"]
        pairs = [list(e) for e in zip(x[::2], x[1::2])]
    for (ka, ta), (kb, tb) in pairs:
        if ka[0] != "L" or kb[0] != second:
            rec.fail("%s:side" % name, "pair made of %s and %s" % (ka, kb))
        for k, t in ((ka, ta), (kb, tb)):
            if abs(t * 1000 - k[1] - SUB[name]) > 0.01:
                rec.fail("%s:own-time" % name, "image taken at %.3f reported at %.6f" % (k[1] / 1000, t))
    g = sorted((a[0][1], b[0][1]) for a, b in pairs)
    rec.state(tuple(g))
    rec.out((name, len(g)))
    if g != want:
        rec.fail("%s:pairs" % name, "left %s right %s: paired %s, expected %s" % tuple([[(q - START if isinstance(q, int) else tuple(z - START for z in q)) for q in w] for w in (ls, rs, g, want)]))


def calib_case(case, rec):
    """Pairing of the chessboard images of a stereo calibration and of the images of a laser calibration."""
    name, order, body = case
    ls, rs = stamps(body)
    if not ls or not rs:
        return
    if name == "sx3":
        mk = lambda pre: (lambda t, s: "%s%07d" % (pre[s], t - START + 5000))
        stem = mk({"L": "", "R": "image"}) if order & 2 else mk({"L": "image", "R": ""})
        want = sorted((a, b) for a in ls for b in rs if a == b)
    else:
        stem = {"acfr": acfr, "biocam": biocam}[name]
        want = expected(ls, rs)
    L = [{"file": "/d/l/%s.tif" % stem(t, "L"), "t": t} for t in ls]
    Rr = [{"file": "/d/r/%s.tif" % stem(t, "R"), "t": t} for t in rs]
    if order & 1:
        Rr.reverse()
    if order & 4:
        L.reverse()
    got = sorted((a["t"], b["t"]) for a, b in find_common_filenames(L, Rr))
    rec.step()
    rec.state(tuple(got))
    if got != want:
        rec.fail("stereo-calibration:%s" % name, "left %s right %s: paired %s, expected %s" % ([t - START for t in ls], [t - START for t in rs], [(a - START, b - START) for a, b in got], [(a - START, b - START) for a, b in want]))
    if name == "acfr" or (name == "sx3" and order & 2):
        return
    seen = []

    class Stop(Exception):
        pass

    class Par:
        def __init__(self, *a, **k):
            pass

        def __call__(self, jobs):
            for _, a, kw in jobs:
                p = [x for x in list(a) + list(kw.values()) if isinstance(x, (str, Path))]
                seen.append(([x for x in p if str(x).startswith("/d/l/")][0], [x for x in p if str(x).startswith("/d/r/")][0]))
            raise Stop

    obj = _Bare()
    old = LC.joblib.Parallel
    LC.joblib.Parallel = Par
    try:
        obj.cal([Path(x["file"]) for x in L], [Path(x["file"]) for x in Rr], Path("/nonexistent"))
    except Stop:
        pass
    finally:
        LC.joblib.Parallel = old
    rec.step()
    by = {x["file"]: x["t"] for x in L + Rr}
    got = sorted((by[str(a)], by[str(b)]) for a, b in seen)
    if got != want:
        rec.fail("laser-calibration:%s" % name, "left %s right %s: paired %s, expected %s" % ([t - START for t in ls], [t - START for t in rs], [(a - START, b - START) for a, b in got], [(a - START, b - START) for a, b in want]))


class _Bare(LC.LaserCalibrator):
    """A laser calibrator of which only the choice of images is exercised."""

    def __init__(self):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return None


def clock_case(case, rec):
    """BioCam: image times follow the camera clock, which runs at its own rate and offset."""
    drift, offset, delays, lasers = case
    T0 = 1.5e9
    items = []
    want = {}
    for k, d in enumerate(delays):
        t = T0 + 3.0 * k
        cams = {}
        for c, (dr, of) in (("camera1", (drift, offset)), ("camera2", (-drift, 2 * offset))):
            cam = T0 + (t - T0) * (1 + dr) - of
            cams[c] = [{"epoch_timestamp": t + d, "epoch_timestamp_cpu": t + d, "epoch_timestamp_cam": cam, "filename": "%s_%d" % (c, k)}]
            want["%s_%d" % (c, k)] = t
        items.append({"epoch_timestamp": t + d, "category": "image", **cams})
        if lasers:
            t2 = t + 1.25
            cam = T0 + (t2 - T0) * (1 - drift) - 2 * offset
            items.insert(0, {"epoch_timestamp": t2 + d, "category": "laser", "camera3": [{"epoch_timestamp": t2 + d, "epoch_timestamp_cpu": t2 + d, "epoch_timestamp_cam": cam, "filename": "camera3_%d" % k}]})
            want["camera3_%d" % k] = t2
    items.append({"epoch_timestamp": 0, "category": "depth"})
    out = correct_timestamps([dict(x) for x in items])
    rec.step()
    if len(out) != len(items):
        rec.fail("clock:count", "%d items became %d" % (len(items), len(out)))
    exact = len(set(delays)) == 1
    got = {}
    for it in out:
        for c in ("camera1", "camera2", "camera3"):
            if c not in it:
                continue
            e = it[c][0]
            got[e["filename"]] = e["epoch_timestamp"]
            cpu = e["epoch_timestamp_cpu"]
            if e["epoch_timestamp"] > cpu + 2e-3:
                rec.fail("clock:later-than-written", "%s: taken %.4f s after it was written" % (e["filename"], e["epoch_timestamp"] - cpu))
            if exact and abs(e["epoch_timestamp"] - cpu) > 2e-3:
                rec.fail("clock:exact", "%s: %.4f s off with a perfectly linear clock" % (e["filename"], e["epoch_timestamp"] - cpu))
            if c != "camera2" and abs(it["epoch_timestamp"] - e["epoch_timestamp"]) > 1e-9:
                rec.fail("clock:item-time", "%s: item time %r, camera time %r" % (e["filename"], it["epoch_timestamp"], e["epoch_timestamp"]))
    rec.state(mc.digest(sorted(got.items())))
    # one and the same clock (rate and offset) is applied to all images of a physical camera
    for cams in (("camera1",), ("camera2", "camera3")):
        pts = sorted((want[f], got[f]) for f in got if f.split("_")[0] in cams)
        if len(pts) > 2:
            (x0, y0), (x1, y1) = pts[0], pts[-1]
            for x, y in pts:
                if abs(y0 + (x - x0) * (y1 - y0) / (x1 - x0) - y) > 2e-3:
                    rec.fail("clock:linear", "%s: the corrected times are not a linear function of the camera clock" % (cams,))
            if min(b[1] - a[1] for a, b in zip(pts, pts[1:])) <= 0:
                rec.fail("clock:order", "%s: order of the images changed" % (cams,))


n = 5 if ck.thorough else 4
bodies = [(250, s) for s in itertools.product(WIDE, repeat=n)] + [(60, s) for s in itertools.product(DENSE, repeat=4)]
if n < 4:
    bodies += [(250, s) for s in itertools.product(WIDE[1:4] + WIDE[5:7], repeat=4)]
ck.explore("parsers: stereo pairs", [(f, t, 0, b) for f in FMT for t in ("oplab", "acfr") for b in (bodies if f != "biocam3" else [(250, s) for s in itertools.product(WIDE, repeat=3)])], parser_case, note="all patterns of missing and shifted images over %d moments" % n)
ck.explore("parsers: BioCam with laser images", [("biocam", t, 1, b) for t in ("oplab", "acfr") for b in bodies[: 8**4]], parser_case)
ck.explore("calibration: stereo and laser pairs", [(f, o, b) for f in ("acfr", "biocam", "sx3") for o in range(8) for b in bodies], calib_case)
ds = [0.0, 0.05, 0.4]
clk = [(dr, of, d, l) for dr in (0.0, 1e-5, -1e-4) for of in (0.0, 37.5, -3600.0) for k in ((2, 3, 4, 5) if ck.thorough else (2, 3, 4)) for d in itertools.product(ds, repeat=k) for l in (0, 1)]
ck.explore("BioCam clock correction", clk, clock_case, note="all delays of up to 4 images")
_CTX.__exit__(None, None, None)
ck.finish()
