"""C17: image correction uses exactly the selected images, each with its own distance."""
import argparse
import csv
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import numpy as np
import yaml

H, W = 4, 5
LO, HI = {"parse": 2.0, "process": 1.5}, {"parse": 6.0, "process": 7.0}
# kind -> (altitude text as function of position and mode bounds, file exists)
KINDS = "LmiMHNX"
REST = ",0.0,0.0,0.0,0.0,0.0,0.0"


def altitude(kind, k, lo, hi):
    return {"L": lo - 0.25, "m": lo, "i": lo + 0.25 + 0.5 * k, "M": hi, "H": hi + 0.5, "N": None, "X": lo + 0.3 + 0.5 * k, "o": hi - 0.2}[kind]


def picture(dive, k):
    """pixel values of an image: distinct per image, pixel"""
    base = 8 + 3 * (2 * k + dive)
    return (base + np.arange(H * W).reshape(H, W) % 3).astype(np.uint8)


def name(dive, k):
    return "PR_20170714_02%02d%02d_%03d_LC" % (dive, k, 100 + k)


def settings(metric, method, listed, mode):
    return {
        "version": 2,
        "method": method,
        "colour_correction": {
            "distance_metric": metric,
            "metric_path": "json_renav_*",
            "altitude_filter": {m: {"min_m": LO[m], "max_m": HI[m]} for m in LO},
            "smoothing": "mean",
            "window_size": 3,
        },
        "cameras": [
            {"camera_name": "RC"},
            {
                "camera_name": "LC",
                "image_file_list": {m: ("list.txt" if listed and m == mode else "none") for m in LO},
                "colour_correction": {"brightness": 10, "contrast": 20},
                "manual_balance": {"subtractors_rgb": [0.01, 0.02, 0.03], "colour_gain_matrix_rgb": [[2, 0, 0], [0, 3, 0], [0, 0, 4]]},
            },
        ],
        "output_settings": {"undistort": False, "compression_parameter": "png"},
    }


def camera_yaml(cam_type="grayscale"):
    cams = [{"name": n, "type": cam_type, "bit_depth": 8, "path": "image/" + n, "extension": "png", "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxx.xxx"} for n in ("RC", "LC")]
    return {"camera_system": "acfr_standard", "cameras": cams}


def build(root, dives, metric, mode, method="colour_correction", folder="ekf", listed=None, maps=None, spare=True):
    """Dives on disk; returns per dive (raw, processed, [(name, altitude, picture, kind)])"""
    from imageio.v2 import imwrite

    out = []
    for d, pat in enumerate(dives):
        m = D.mission_yaml(cameras=2, fmt="acfr_standard")
        for c, n in zip(m["image"]["cameras"], ("RC", "LC")):
            c.update(name=n, path="image/" + n)
        raw, pro, cfg = D.make_dive(root, None, mission=m, name="dive%d" % d, camera=camera_yaml())
        cfg.mkdir(parents=True)
        (cfg / "correct_images.yaml").write_text(yaml.safe_dump(settings(metric, method, listed is not None, mode)))
        (raw / "image" / "LC").mkdir(parents=True)
        nav = pro / "json_renav_20170714_024000_20170714_030000" / "csv" / folder
        nav.mkdir(parents=True)
        rows, imgs = ["relative_path,northing [m],altitude [m],timestamp [s]"], []
        for k, kind in enumerate(pat):
            alt = altitude(kind, k, LO[mode], HI[mode])
            rel = "image/LC/%s.png" % name(d, k)
            rows.append("%s,%r,%s,%r" % (rel, 10.0 * d + k, alt, 1500000000.0 + k))
            if kind != "X":
                imwrite(raw / rel, picture(d, k))
            imgs.append((name(d, k), alt, picture(d, k), kind))
            if maps is not None and maps[k]:
                dm = pro / "3d_reconstruction/depth_maps/gp_smoothed" / "image" / "LC" / (name(d, k) + "_depthmap.npy")
                dm.parent.mkdir(parents=True, exist_ok=True)
                np.save(dm, depth_map(k))
        if maps is not None:
            (pro / "3d_reconstruction/depth_maps/gp_smoothed").mkdir(parents=True, exist_ok=True)
        if spare:  # an image that has no navigation
            imwrite(raw / "image" / "LC" / (name(d, 90) + ".png"), np.full((H, W), 200, np.uint8))
        (nav / (("auv_ekf_LC.csv") if folder == "ekf" else "auv_dr_LC.csv")).write_text("\n".join(rows) + "\n")
        if folder == "ekf":
            other = nav.parent / "dead_reckoning"
            other.mkdir()
            (other / "auv_dr_LC.csv").write_text(rows[0] + "\n" + "\n".join("image/LC/%s.png,0,3.9,0" % name(d, k) for k in range(len(pat))) + "\n")
        if listed is not None:
            (cfg / "list.txt").write_text("".join("%s\n" % x for x in [listed_name(d, k, ext) for k, ext in listed if k < len(pat)] + ["not_there.png"]))
        out.append((raw, pro, imgs))
    return out


def listed_name(d, k, ext):
    # "~": a name that only begins like that of an image
    return name(d, k)[:-1] + ".png" if ext == "~" else name(d, k) + ext


def depth_map(k):
    return 1.0 + 0.5 * k + 0.01 * np.arange(H * W).reshape(H, W)


def selected(imgs, mode, listed):
    out = []
    for k, (n, alt, pic, kind) in enumerate(imgs):
        if kind == "X" or alt is None or not LO[mode] < alt < HI[mode]:
            continue
        if listed is not None and k not in [x for x, e in listed if e != "~"]:
            continue
        out.append((k, n, alt, pic))
    return out


def args_for(path, force=False):
    return argparse.Namespace(path=path, force=force, suffix="", memmap_location=".", memmap_size_gb=1)


def setup_code():
    import joblib
    from correct_images import corrections

    mc.silence_console()
    corrections.save_attenuation_plots = lambda *a, **k: None
    os.environ["TQDM_DISABLE"] = "1"
    return joblib


def quietly(fn, *a):
    """run a command with joblib in this process; True when it refuses"""
    import contextlib
    import io
    import warnings

    import joblib

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stderr(io.StringIO()), joblib.parallel_config(backend="sequential"):
            try:
                fn(*a)
                return False
            except SystemExit:
                return True


def raw_state(built):
    return [mc.snapshot(raw) for raw, _, _ in built]


A0, B0, C0, G0 = 0.5, -0.25, 0.05, 0.3


def developed(pic, dist):
    x = pic.astype(np.float64) / 256.0
    x = G0 / (A0 * np.exp(B0 * dist) + C0) * x
    x = np.clip((x - 0.1) / 0.2 * 0.2 + 0.1, 0, 1)
    x = 12.92 * x if (x < 0.0031308).all() else 1.055 * np.power(x, 1 / 1.5) - 0.055
    return np.clip(x * 255, 0, 255)


def process_case(case, rec):
    """every in/out pattern through the process command"""
    from imageio.v2 import imread
    from correct_images.correct_images import call_process

    pat, metric, folder, listed, maps = case
    rec.state(case)
    with mc.scratch() as root:
        built = build(root, [pat], metric, "process", folder=folder, listed=listed, maps=maps)
        raw, pro, imgs = built[0]
        par = pro / "image" / "LC" / ("params_" + metric)
        par.mkdir(parents=True)
        att = np.zeros((1, H, W, 3), np.float32)
        att[..., 0], att[..., 1], att[..., 2] = A0, B0, C0
        np.save(par / "attenuation_parameters.npy", att)
        np.save(par / "correction_gains.npy", np.full((1, H, W), G0, np.float32))
        np.save(par / "image_corrected_mean.npy", np.full((H, W, 1), 0.1, np.float32))
        np.save(par / "image_corrected_std.npy", np.full((H, W, 1), 0.2, np.float32))
        np.save(par / "image_raw_mean.npy", np.full((H, W), 0.1, np.float32))
        np.save(par / "image_raw_std.npy", np.full((H, W), 0.2, np.float32))
        before, params = raw_state(built), mc.snapshot(par)
        want = selected(imgs, "process", listed)
        if metric == "depth_map":
            want = [w for w in want if maps[w[0]]]
        refused = quietly(call_process, args_for(str(raw)))
        rec.step()
        if raw_state(built) != before:
            rec.fail("raw", "processing changes the raw data")
        if mc.snapshot(par) != params:
            rec.fail("params", "processing changes the correction parameters")
        out = [p for p in (pro / "image" / "LC").glob("corrected_*")]
        got = {p.stem: p for d in out for p in d.glob("*.png")}
        if refused and not want:
            if got:
                rec.fail("written", "refused, yet images are written: %s" % sorted(got))
            return
        if refused:
            rec.fail("refused", "processing is refused although %s are selected" % [w[1] for w in want])
            return
        if sorted(got) != sorted(w[1] for w in want):
            rec.fail("selection", "images written %s, selected %s" % (sorted(got), sorted(w[1] for w in want)))
            return
        for k, n, alt, pic in want:
            img = imread(got[n]).astype(np.float64)
            x = pic.astype(np.float64) / 256.0
            if metric == "uniform":
                dist = None
                x = np.clip((x - 0.1) / 0.2 * 0.2 + 0.1, 0, 1)
                e = np.clip((1.055 * np.power(x, 1 / 1.5) - 0.055) * 255, 0, 255)
            else:
                e = developed(pic, alt if metric == "altitude" else depth_map(k))
            rec.out((n, img.tobytes()))
            if img.shape != e.shape or np.abs(img - np.floor(e)).max() > 1:
                rec.fail("pixels", "image %s is not developed with its own distance: %s, expected %s" % (n, img.ravel()[:4], e.ravel()[:4]))
        rows = list(csv.DictReader((out[0] / "filelist.csv").open()))
        if [(r["relative_path"], r["raw_relative_path"]) for r in rows] != [(n + ".png", "image/LC/%s.png" % n) for _, n, _, _ in want]:
            rec.fail("filelist", "filelist.csv lists %s for %s" % ([r["relative_path"] for r in rows], [w[1] for w in want]))
        elif any(not mc.close(float(r["altitude [m]"]), w[2], 1e-9, 1e-9) or float(r["northing [m]"]) != w[0] for r, w in zip(rows, want)):
            rec.fail("filelist-pose", "filelist.csv gives an image another image's pose")
        if len(pat) == 2:
            frozen = mc.snapshot(pro / "image")
            if not quietly(call_process, args_for(str(raw))):
                rec.fail("overwrite", "processing again without force is not refused")
            if mc.snapshot(pro / "image") != frozen:
                rec.fail("overwrite", "processing again without force changes results")
            if quietly(call_process, args_for(str(raw), True)) or {k: v for k, v in mc.snapshot(pro / "image").items()} != frozen:
                rec.fail("again", "processing again with force gives other results")


def parse_case(case, rec):
    """every in/out pattern of one or more dives through the parse command"""
    from correct_images.correct_images import call_parse

    pats, folder, listed = case
    rec.state(case)
    with mc.scratch() as root:
        built = build(root, pats, "uniform", "parse", folder=folder, listed=listed)
        before = raw_state(built)
        per = [selected(imgs, "parse", listed) for _, _, imgs in built]
        usable = [any(i[3] != "X" and i[1] is not None and (listed is None or k in [x for x, e in listed if e != "~"]) for k, i in enumerate(imgs)) for _, _, imgs in built]
        want = [w[3].astype(np.float64) / 256.0 for p in per for w in p]
        refused = quietly(call_parse, args_for([str(raw) for raw, _, _ in built]))
        rec.step()
        if raw_state(built) != before:
            rec.fail("raw", "parsing changes the raw data")
        files = [pro / "image" / "LC" / "params_uniform" / n for _, pro, _ in built for n in ("image_raw_mean.npy", "image_raw_std.npy")]
        if refused:
            if any(f.exists() for f in files):
                rec.fail("written", "refused, yet parameters are written")
            if len(want) >= 3 and all(usable):
                rec.fail("refused", "parsing is refused although %d images are selected" % len(want))
            return
        if len(want) < 3:
            rec.fail("too-few", "parameters computed although %d images are selected" % len(want))
            return
        mean, std = np.mean(want, axis=0), np.std(want, axis=0)
        for f in files:
            if not f.exists():
                rec.fail("missing", "no %s for %s" % (f.name, f.parents[3].name))
                continue
            g = np.load(f).squeeze()
            rec.out((f.name, g.tobytes()))
            e = mean if "mean" in f.name else std
            if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
                rec.fail("statistics", "%s of %s is not that of the %d selected images" % (f.name, f.parents[3].name, len(want)))
        if len(pats) == 1 and len(pats[0]) == 3:
            frozen = mc.snapshot(built[0][1] / "image")
            if not quietly(call_parse, args_for([str(built[0][0])])):
                rec.fail("overwrite", "parsing again without force is not refused")
            if mc.snapshot(built[0][1] / "image") != frozen:
                rec.fail("overwrite", "parsing again without force changes results")


def parse_maps_case(case, rec):
    """parse with depth maps: only images that have one count"""
    global H, W
    small = H, W
    H, W = 10, 11  # curves are plotted at every tenth pixel
    try:
        parse_maps(case, rec)
    finally:
        H, W = small


def parse_maps(case, rec):
    from correct_images.correct_images import call_parse

    pat, maps = case
    rec.state(case)
    with mc.scratch() as root:
        built = build(root, [pat], "depth_map", "parse", maps=maps)
        raw, pro, imgs = built[0]
        before = raw_state(built)
        want = [w[3].astype(np.float64) / 256.0 for w in selected(imgs, "parse", None) if maps[w[0]]]
        refused = quietly(call_parse, args_for([str(raw)]))
        rec.step()
        if raw_state(built) != before:
            rec.fail("raw", "parsing changes the raw data")
        files = [pro / "image" / "LC" / "params_depth_map" / n for n in ("image_corrected_mean.npy", "image_corrected_std.npy")]
        if refused:
            if any(f.exists() for f in files):
                rec.fail("written", "refused, yet parameters are written")
            if len(want) >= 3:
                rec.fail("refused", "parsing is refused although %d images with depth map are selected" % len(want))
            return
        if len(want) < 3:
            rec.fail("too-few", "parameters computed although %d images with depth map are selected" % len(want))
            return
        # no bin is filled, so the curve is constant and the corrected images are the raw ones
        for f, e in zip(files, (np.mean(want, axis=0), np.std(want, axis=0))):
            g = np.load(f).squeeze()
            rec.out((f.name, g.tobytes()))
            if g.shape != e.shape or np.abs(g - e).max() > 1e-6:
                rec.fail("statistics", "%s is not that of the %d selected images with depth map" % (f.name, len(want)))


def manual_case(case, rec):
    """manual balance: every image of the camera, each developed from its own file"""
    from imageio.v2 import imread
    from correct_images.correct_images import call_correct, call_process

    present, cmd, nav = case
    rec.state(case)
    with mc.scratch() as root:
        pat = "".join("i" if p else "X" for p in present)
        built = build(root, [pat], "altitude", "process", method="manual_balance", spare=False)
        raw, pro, imgs = built[0]
        (raw / "camera.yaml").write_text(yaml.safe_dump(camera_yaml("rgb")))
        from imageio.v2 import imwrite

        for k, (n, _, pic, kind) in enumerate(imgs):
            if kind == "i":
                imwrite(raw / "image" / "LC" / (n + ".png"), np.dstack([pic, pic + 20, pic + 40]))
        if not nav:
            import shutil

            shutil.rmtree(pro)
        before = raw_state(built)
        refused = quietly({"process": call_process, "correct": call_correct}[cmd], args_for(str(raw)))
        rec.step()
        if raw_state(built) != before:
            rec.fail("raw", "manual balance changes the raw data")
        if refused:
            rec.fail("refused", "manual balance is refused")
            return
        out = [p for p in (pro / "image" / "LC").glob("corrected_manual*")]
        got = {p.stem: p for d in out for p in d.glob("*.png")}
        want = [i for i in imgs if i[3] == "i"]
        if sorted(got) != sorted(i[0] for i in want):
            rec.fail("selection", "images written %s, camera has %s" % (sorted(got), [i[0] for i in want]))
            return
        for n, _, pic, _ in want:
            img = imread(got[n]).astype(np.float64)
            e = np.dstack([(v / 256.0 - s) * g for v, s, g in zip((pic.astype(float), pic + 20.0, pic + 40.0), (0.01, 0.02, 0.03), (2, 3, 4))])
            e = np.floor(np.clip(e * 255, 0, 255))
            rec.out((n, img.tobytes()))
            if img.shape != e.shape or np.abs(img - e).max() > 1:
                rec.fail("pixels", "image %s is not its own raw image balanced" % n)
        rows = list(csv.DictReader((out[0] / "filelist.csv").open()))
        if sorted(r["relative_path"] for r in rows) != sorted(i[0] + ".png" for i in want):
            rec.fail("filelist", "filelist.csv lists %s" % [r["relative_path"] for r in rows])


def undistort_case(case, rec):
    """lens distortion is removed with the calibration of the camera itself"""
    import cv2
    from imageio.v2 import imread
    from correct_images.correct_images import call_process

    own, other, flag, metric = case
    rec.state(case)
    calib = {"none": None, "zero": [0, 0, 0, 0, 0], "barrel": [-0.6, 0.1, 0.0, 0.0, 0.0], "shear": [0.3, 0.0, 0.05, -0.04, 0.0]}
    K = np.array([[6.0, 0, 2.1], [0, 5.5, 1.4], [0, 0, 1]])

    def text(n, d):
        f = lambda m: ", ".join("%r" % float(x) for x in np.ravel(m))
        return (
            "%%YAML:1.0\nimage_width: %d\nimage_height: %d\ncamera_name: %s\ncamera_matrix: !!opencv-matrix\n  rows: 3\n  cols: 3\n  dt: d\n  data: [%s]\ndistortion_model: plumb_bob\n"
            "distortion_coefficients: !!opencv-matrix\n  rows: 1\n  cols: 5\n  dt: d\n  data: [%s]\nrectification_matrix: !!opencv-matrix\n  rows: 3\n  cols: 3\n  dt: d\n  data: [%s]\n"
            "projection_matrix: !!opencv-matrix\n  rows: 3\n  cols: 4\n  dt: d\n  data: [%s]\n" % (W, H, n, f(K), f(d), f(np.eye(3)), f(np.hstack([K, np.zeros((3, 1))])))
        )

    with mc.scratch() as root:
        built = build(root, ["ii"], "uniform", "process")
        raw, pro, imgs = built[0]
        from imageio.v2 import imwrite

        imgs = [(n, a, ((np.arange(H * W).reshape(H, W) * (37 + 10 * k)) % 211).astype(np.uint8), kind) for k, (n, a, _, kind) in enumerate(imgs)]
        for n, _, pic, _ in imgs:
            imwrite(raw / "image" / "LC" / (n + ".png"), pic)
        cfg = root / "configuration" / "y" / "dive0" / "correct_images.yaml"
        y = yaml.safe_load(cfg.read_text())
        y["output_settings"]["undistort"] = flag
        cfg.write_text(yaml.safe_dump(y))
        cal = pro.parent / "calibration"
        cal.mkdir()
        for n, c in (("LC", own), ("RC", other)):
            if calib[c] is not None:
                (cal / ("mono_%s.yaml" % n)).write_text(text(n, calib[c]))
        par = pro / "image" / "LC" / "params_uniform"
        par.mkdir(parents=True)
        np.save(par / "image_raw_mean.npy", np.full((H, W), 0.1, np.float32))
        np.save(par / "image_raw_std.npy", np.full((H, W), 0.2, np.float32))
        if quietly(call_process, args_for(str(raw))):
            rec.fail("refused", "processing is refused")
            return
        rec.step()
        got = {p.stem: p for d in (pro / "image" / "LC").glob("corrected_*") for p in d.glob("*.png")}
        for n, _, pic, _ in imgs:
            x = (np.clip(pic / 256.0, 0, 1)).astype(np.float64)
            if flag and calib[own] is not None:
                d = np.array(calib[own])
                nk, _ = cv2.getOptimalNewCameraMatrix(K, d, (W, H), 0)
                x = cv2.undistort(x, K, d, None, nk)
            x = 12.92 * x if (x < 0.0031308).all() else 1.055 * np.power(x, 1 / 1.5) - 0.055
            e = np.floor(np.clip(x * 255, 0, 255))
            if n not in got:
                rec.fail("selection", "image %s is not written" % n)
                continue
            img = imread(got[n]).astype(np.float64)
            rec.out((n, img.tobytes()))
            if img.shape != e.shape or np.abs(img - e).max() > 1:
                rec.fail("undistort", "image %s is not undistorted with its camera's calibration: %s, expected %s" % (n, img.ravel()[:5], e.ravel()[:5]))


def body():
    ck = mc.new_check("C17")
    D.stub_version()
    setup_code()
    T = ck.thorough
    pats = ["".join(p) for n in range(1, 5 if T else 4) for p in itertools.product(KINDS, repeat=n)]
    cases = [(p, "altitude", "ekf", None, None) for p in pats]
    cases += [(p, "altitude", "dead_reckoning", None, None) for p in pats if len(p) == 2]
    cases += [(p, "uniform", f, None, None) for p in pats if len(p) <= 2 for f in ("ekf", "dead_reckoning")]
    sub = [tuple((k, e) for k, e in zip(range(3), es) if e is not None) for es in itertools.product((None, ".png", "", ".tif", "~"), repeat=3)]
    cases += [(p, "altitude", "ekf", s, None) for p in ("iii", "iLi", "iXi", "Nii", "ioi") for s in sub]
    maps = list(itertools.product((True, False), repeat=3))
    cases += [("".join(p), "depth_map", "ekf", None, m) for p in itertools.product("iHX" if not T else KINDS, repeat=3) for m in maps]
    ck.explore("process", cases, process_case, note="all altitude/missing-file patterns x metric x navigation folder x user list x depth maps present, through the process command; every pixel judged")
    base = [p for p in pats if len(p) == 3 and (T or not set(p) & {"m", "M"} or p.count("i") >= 2)]
    cases = [((p,), "ekf", None) for p in base]
    cases += [(("ioi" + p,), "ekf", None) for p in KINDS] + [((p + "ioi",), "dead_reckoning", None) for p in KINDS]
    two = ["i", "ii", "iL", "Hi", "iii", "LL", "iN", "iX"]
    cases += [((p, q), "ekf", None) for p in two for q in two if "i" in p]
    cases += [(("ii", p, q), "ekf", None) for p in two[:5] for q in two[:5]]
    cases += [((p, q), "ekf", s) for p, q in (("iii", "iii"), ("iLi", "ioi")) for s in (sub[::9] if not T else sub)]
    cases += [((p,), "ekf", s) for p in ("iiii", "iLii") for s in sub]
    ck.explore("parse", cases, parse_case, note="the same patterns for one to three dives through the parse command; mean and standard deviation judged against the selected images")
    cases = [("".join(p), m) for p in itertools.product("iH", repeat=4) if T or p.count("i") != 2 for m in itertools.product((True, False), repeat=4)]
    ck.explore("parse with depth maps", cases, parse_maps_case, note="all altitude patterns of four images x depth maps present; fewer than three usable images are refused")
    ck.explore("manual balance", [(p, c, n) for k in (1, 2, 3) for p in itertools.product((True, False), repeat=k) if any(p) for c in ("process", "correct") for n in (True, False)], manual_case, note="all present/missing patterns, with and without navigation, process and correct commands")
    cal = ("none", "zero", "barrel", "shear")
    ck.explore("distortion", [(a, b, f, "uniform") for a in cal for b in cal for f in (True, False)], undistort_case, note="all calibrations of the camera and of the other camera x switch")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
