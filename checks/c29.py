"""C29: image correction follows its configuration, cameras and file precedence."""
import contextlib
import copy
import io
import itertools
import os
import shutil
import sys
import warnings

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import numpy as np
import yaml

H, W = 4, 5
ALTS = [3.0, 3.5, 4.0, 5.5, 7.5]
STAMP = "xxxYYYYMMDDxhhmmssxfffxxx.xxx"


def name(cam, k):
    return "PR_20170714_0200%02d_%03d_%s" % (k, 100 + k, cam)


def picture(cam, k):
    return (10 + 7 * (sum(map(ord, cam)) % 5) + 4 * k + np.arange(H * W).reshape(H, W) * (1 + k % 2)).astype(np.uint8)


def full(cams=("LC", "RC"), method="colour_correction", metric="altitude"):
    """a configuration in which everything is written out"""
    per = {"LC": (20, 5, [1, 2, 3], [[2, 0, 0], [0, 3, 0], [0, 0, 4]]), "RC": (40, 8, [4, 0, 1], [[1.5, 0, 0], [0, 1, 0], [0, 0, 2]]), "XC": (25, 6, [0, 1, 0], [[1, 0, 0], [0, 1.25, 0], [0, 0, 1]])}
    return {
        "version": 2,
        "method": method,
        "colour_correction": {
            "distance_metric": metric,
            "metric_path": "json_renav_*",
            "altitude_filter": {"parse": {"min_m": 2.0, "max_m": 6.0}, "process": {"min_m": 2.5, "max_m": 8.0}},
            "smoothing": "mean",
            "window_size": 3,
        },
        "cameras": [
            {
                "camera_name": c,
                "image_file_list": {"parse": "none", "process": "none"},
                "colour_correction": {"brightness": per[c][0], "contrast": per[c][1]},
                "manual_balance": {"subtractors_rgb": per[c][2], "colour_gain_matrix_rgb": per[c][3]},
            }
            for c in cams
        ],
        "output_settings": {"undistort": False, "compression_parameter": "png"},
    }


def camera_yaml(cams=("LC", "RC"), kind="grayscale", path="image/%s", fmt="acfr_standard"):
    return {"camera_system": fmt, "cameras": [{"name": n, "type": kind, "bit_depth": 8, "path": path % n, "extension": "png", "filename_to_date": STAMP} for n in cams]}


def dive(root, conf, cam=None, images=("LC", "RC"), cams=("LC", "RC"), where="raw", dname="dive1", fmt="acfr_standard", shift=0.0):
    from imageio.v2 import imwrite

    m = D.mission_yaml(cameras=2, fmt=fmt)
    m["image"]["cameras"] = m["image"]["cameras"][:2]
    for c, n in zip(m["image"]["cameras"], ("LC", "RC")):
        c.update(name=n, path="image/" + n)
    raw, pro, cfg = D.make_dive(root, None, mission=m, name=dname)
    cfg.mkdir(parents=True, exist_ok=True)
    nav = pro / "json_renav_20170714_024000_20170714_030000" / "csv" / "ekf"
    nav.mkdir(parents=True)
    for n in images:
        (raw / "image" / n).mkdir(parents=True)
        rows = ["relative_path,northing [m],altitude [m],timestamp [s]"]
        for k, a in enumerate(ALTS):
            rel = "image/%s/%s.png" % (n, name(n, k))
            imwrite(raw / rel, picture(n, k))
            rows.append("%s,%r,%r,%r" % (rel, 1.0 * k, a + shift, 1500000000.0 + k))
        (nav / ("auv_ekf_%s.csv" % n)).write_text("\n".join(rows) + "\n")
    if cam is None:
        cam = camera_yaml(cams)
    if cam:
        ((raw if where == "raw" else cfg) / "camera.yaml").write_text(yaml.safe_dump(cam, sort_keys=False))
    if conf is not None:
        for suffix, c in (conf if isinstance(conf, dict) and "version" not in conf else {"": conf}).items():
            (cfg / ("correct_images%s.yaml" % ("_" + suffix if suffix else ""))).write_text(yaml.safe_dump(c, sort_keys=False))
    return raw, pro, cfg


def command(*argv):
    """the command line; True when it refuses. It must leave no temporary file in the working directory."""
    import joblib
    from correct_images import correct_images as ci

    here = os.getcwd()
    with mc.scratch() as tmp, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = sys.argv
        sys.argv = ["correct_images"] + [str(a) for a in argv]
        os.chdir(tmp)
        try:
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()), joblib.parallel_config(backend="sequential"):
                ci.main()
            return False
        except SystemExit as e:
            return e.code not in (0, None)
        finally:
            sys.argv = old
            os.chdir(here)


def results(pro):
    """everything written about images, by path; numbers as numbers (independent of how they were saved)"""
    p = pro / "image"
    home = str(pro.parents[2]).encode()
    return {str(f.relative_to(p)): f.read_bytes().replace(home, b"") for f in sorted(p.rglob("*")) if f.is_file()} if p.is_dir() else {}


def compare(rec, key, got, want, what):
    rec.out((sorted(got), hash(tuple(sorted(got.items())))))
    a, b = set(got), set(want)
    if a != b:
        rec.fail(key + "-files", "%s: %s" % (what, ", ".join(["missing " + x for x in sorted(b - a)][:2] + ["extra " + x for x in sorted(a - b)][:2])))
        return
    for k in sorted(a):
        if got[k] != want[k]:
            rec.fail(key + "-content", "%s: %s differs" % (what, k))
            return


_memo = {}


def reference(rec, conf, suffix="", **kw):
    """results of parse and process of the written-out configuration, each command on its own"""
    key = repr((conf, suffix, sorted(kw.items())))
    if key not in _memo:
        with mc.scratch() as root:
            raw, pro, cfg = dive(root, {suffix: conf}, **kw)
            x = ["--suffix", suffix] if suffix else []
            for c in ("parse", "process"):
                if command(c, raw, *x):
                    raise mc.HarnessError("%s of the reference is refused" % c)
            _memo[key] = results(pro)
            if not _memo[key]:
                raise mc.HarnessError("reference without results")
    return _memo[key]


# ---------------------------------------------------------------- spellings and options left out
def v_metric(c):
    c["colour_correction"]["distance_metric"] = "none"


def v_filter(c):
    c["colour_correction"]["altitude_filter"] = {"min_m": 2.0, "max_m": 6.0}


def v_nolist(c):
    for x in c["cameras"]:
        del x["image_file_list"]


def v_blanklist(c):
    for x in c["cameras"]:
        x["image_file_list"] = None


def v_halflist(c):
    c["cameras"][0]["image_file_list"] = {"parse": "none"}
    c["cameras"][1]["image_file_list"] = {"process": "none"}


def v_nobright(c):
    del c["cameras"][0]["colour_correction"]["brightness"]


def v_nocontrast(c):
    del c["cameras"][1]["colour_correction"]["contrast"]


def v_nocolour(c):
    del c["cameras"][1]["colour_correction"]


def v_nosub(c):
    del c["cameras"][0]["manual_balance"]["subtractors_rgb"]


def v_nogain(c):
    del c["cameras"][1]["manual_balance"]["colour_gain_matrix_rgb"]


def v_nomanual(c):
    del c["cameras"][0]["manual_balance"]


def e_filter(c):
    for m in ("parse", "process"):
        c["colour_correction"]["altitude_filter"][m] = {"min_m": 2.0, "max_m": 6.0}


def e_set(i, sec, **kw):
    def f(c):
        c["cameras"][i][sec].update(kw)

    return f


ONE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
# name -> (variant, what it means written out, excluded together with)
VAR = {
    "metric none": (v_metric, lambda c: c["colour_correction"].update(distance_metric="uniform"), ()),
    "one altitude filter": (v_filter, e_filter, ()),
    "no image_file_list": (v_nolist, lambda c: None, ("blank image_file_list", "half image_file_list")),
    "blank image_file_list": (v_blanklist, lambda c: None, ("no image_file_list", "half image_file_list")),
    "half image_file_list": (v_halflist, lambda c: None, ("no image_file_list", "blank image_file_list")),
    "no brightness": (v_nobright, e_set(0, "colour_correction", brightness=30), ()),
    "no contrast": (v_nocontrast, e_set(1, "colour_correction", contrast=3), ("no camera colour_correction",)),
    "no camera colour_correction": (v_nocolour, e_set(1, "colour_correction", brightness=30, contrast=3), ("no contrast",)),
    "no subtractors": (v_nosub, e_set(0, "manual_balance", subtractors_rgb=[0, 0, 0]), ("no manual_balance",)),
    "no gain": (v_nogain, e_set(1, "manual_balance", colour_gain_matrix_rgb=ONE), ()),
    "no manual_balance": (v_nomanual, e_set(0, "manual_balance", subtractors_rgb=[0, 0, 0], colour_gain_matrix_rgb=ONE), ("no subtractors",)),
}


def spelling_case(case, rec):
    method, names = case
    rec.state(case)
    a = full(method=method)
    b = full(method=method)
    for n in names:
        VAR[n][0](a)
        VAR[n][1](b)
    kw = {}
    kind = "grayscale"
    if method == "manual_balance":
        kw["cam"] = camera_yaml(kind="rggb")
    want = reference(rec, b, **kw)
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, a, **kw)
        text = (cfg / "correct_images.yaml").read_bytes()
        before = mc.snapshot(raw)
        for c in ("parse", "process"):
            rec.step()
            if command(c, raw):
                rec.fail("refused", "%s with %s is refused" % (c, ", ".join(names)))
                return
        compare(rec, "meaning", results(pro), want, "%s with %s" % (method, ", ".join(names) or "nothing left out"))
        if (cfg / "correct_images.yaml").read_bytes() != text:
            rec.fail("config", "the configuration is changed")
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the raw data are changed")


# ---------------------------------------------------------------- cameras
def camera_case(case, rec):
    """each camera as if it was the only one"""
    method, names, system, images = case
    rec.state(case)
    kind = "rggb" if method == "manual_balance" else "grayscale"
    run = [c for c in names if c in system and c in images]
    want = {}
    for c in run:
        want.update(reference(rec, full((c,), method), cam=camera_yaml((c,), kind), images=(c,)))
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, full(names, method), cam=camera_yaml(system, kind), images=images)
        for c in ("parse", "process"):
            rec.step()
            if command(c, raw):
                rec.fail("refused", "%s is refused for cameras %s, configured %s, images of %s" % (c, system, names, images))
                return
        compare(rec, "cameras", results(pro), want, "cameras %s, configured %s, images of %s" % (system, names, images))


# ---------------------------------------------------------------- camera.yaml precedence
CAMS = {
    "A": camera_yaml(("LC",), "rggb"),
    "B": camera_yaml(("LC", "RC"), "grbg"),
    "C": camera_yaml(("RC",), "bggr"),
    "wrong": camera_yaml(("LC",), "rggb", fmt="biocam"),
}


def precedence_case(case, rec):
    inraw, incfg, cmd = case
    rec.state(case)
    conf = full(method="manual_balance")
    win = incfg or inraw
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, conf, cam=False)
        for d, x in ((raw, inraw), (cfg, incfg)):
            if x:
                (d / "camera.yaml").write_text(yaml.safe_dump(CAMS[x]))
        before = mc.snapshot(raw)
        kept = (cfg / "camera.yaml").read_bytes() if incfg else None
        refused = False
        for c in (("parse", "process") if cmd == "both" else ("correct",)):
            rec.step()
            refused = command(c, raw) or refused
        got = results(pro)
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the raw data are changed")
        if kept is not None and (cfg / "camera.yaml").read_bytes() != kept:
            rec.fail("config", "camera.yaml is changed")
    if win == "wrong":
        if not refused or got:
            rec.fail("mismatch", "a camera.yaml of another camera system is accepted")
        return
    if refused:
        rec.fail("refused", "refused with camera.yaml %s in raw and %s in config" % (inraw, incfg))
        return
    compare(rec, "precedence", got, reference(rec, conf, cam=CAMS[win]), "camera.yaml %s in raw, %s in config" % (inraw, incfg))


# ---------------------------------------------------------------- defaults stored
FORMATS = {
    "acfr_standard": ("acfr", "ts1/SSK17-01"),
    "seaxerocks_3": ("sx3", "ae2000/YK17-23C"),
    "biocam": ("biocam", "as6/DY109"),
    "biocam4000_15c": ("biocam4000_15c", "alr/jc220"),
    "hybis": ("hybis", "hybis"),
    "ntnu_stereo": ("ntnu_stereo", "ntnu_stereo/tautra21"),
    "stereo_gopro": ("stereo_gopro", "smarty200/stereo_gopro"),
}  # (the camera.yaml shipped for voyis cannot be loaded, see DESIGN.md)
TIMES = {
    "seaxerocks_3": "index,date,time,ms\n0000001,20170714,020000,100\n",
    "stereo_gopro": "file_left,number_left,file_right,number_right,epoch\nL1.JPG,0000001,R1.JPG,0000001,1500000000.0\n",
}


def default_case(case, rec):
    """without files the shipped ones of the image format; an existing configuration is used"""
    from correct_images.correct_images import load_configuration_and_camera_system as load

    fmt, suffix, have = case
    rec.state(case)
    import correct_images

    src = os.path.dirname(os.path.dirname(correct_images.__file__))
    shipped = os.path.join(src, "correct_images/default_yaml", FORMATS[fmt][0], "correct_images.yaml")
    camera = os.path.join(src, "auv_nav/default_yaml", FORMATS[fmt][1], "camera.yaml")
    with mc.scratch() as root:
        own = full(metric="uniform") if have else None
        raw, pro, cfg = dive(root, {suffix: own} if have else None, cam=False, fmt=fmt)
        fn = cfg / ("correct_images%s.yaml" % ("_" + suffix if suffix else ""))
        text = fn.read_bytes() if have else open(shipped, "rb").read()
        wanted = yaml.safe_load(open(camera))
        kinds = {c["name"]: c["type"] for c in wanted["cameras"]}
        for c in wanted["cameras"]:
            if "timestamp_file" in c:
                f = raw / c["timestamp_file"].replace("*", "1")
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_text(TIMES[fmt])
        before = mc.snapshot(raw)
        for again in (False, True):
            rec.step()
            with contextlib.redirect_stdout(io.StringIO()):
                conf, system = load(raw, suffix)
            if fn.read_bytes() != text:
                rec.fail("stored", "%s: the stored configuration is not the %s one" % (fmt, "existing" if have else "shipped"))
            others = [f.name for f in cfg.rglob("*") if f.is_file() and f != fn]
            if others:
                rec.fail("others", "%s: unexpected configuration files %s" % (fmt, others))
            y = yaml.safe_load(text)
            if [c.camera_name for c in conf.configs.camera_configs] != [c["camera_name"] for c in y["cameras"]] or conf.method != y["method"]:
                rec.fail("loaded", "%s: the loaded configuration is not the stored one" % fmt)
            if system.camera_system != fmt or {c.name: c.type for c in system.cameras} != kinds:
                rec.fail("system", "%s: cameras %s" % (fmt, [c.name for c in system.cameras]))
        if mc.snapshot(raw) != before:
            rec.fail("raw", "the raw data are changed")
        logs = [f for f in (pro / "log").rglob("*_correct_images.yaml")]
        if not logs or any(f.read_bytes() != text for f in logs):
            rec.fail("log", "the log folder has no copy of the configuration")


# ---------------------------------------------------------------- suffixes
def of_suffix(s):
    c = full(metric="uniform" if s == "" else "altitude")
    c["colour_correction"]["window_size"] = 3
    if s == "a":  # the same folders but for the suffix
        c = full(metric="uniform")
        c["colour_correction"]["altitude_filter"]["parse"] = {"min_m": 2.0, "max_m": 8.0}
        c["colour_correction"]["altitude_filter"]["process"] = {"min_m": 3.2, "max_m": 6.0}
    if s == "a_B-2":
        c["colour_correction"]["altitude_filter"]["process"] = {"min_m": 3.2, "max_m": 8.0}
    return c


SUFF = ("", "a", "a_B-2")


def suffix_history(case, rec):
    """runs with different suffixes do not meet"""
    cmds, how = case
    rec.state(case)
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, {s: of_suffix(s) for s in SUFF})
        texts = {f.name: f.read_bytes() for f in cfg.glob("*.yaml")}
        want = {}
        for s in cmds:
            x = ["--suffix", s] if s else []
            rec.step()
            if s in [t for t in SUFF if any(k in want for k in reference(rec, of_suffix(t), t))]:
                frozen = results(pro)
                if not command("correct" if how == "correct" else "parse", raw, *x):
                    rec.fail("again", "suffix %r is run again without force" % s)
                if results(pro) != frozen:
                    rec.fail("again", "suffix %r run again without force changes results" % s)
                continue
            for c in (("correct",) if how == "correct" else ("parse", "process")):
                if command(c, raw, *x):
                    rec.fail("refused", "%s with suffix %r after %s is refused" % (c, s, cmds))
                    return
            mine = reference(rec, of_suffix(s), s)
            if s and any(not k.split("/")[1].endswith("_" + s) for k in mine):
                rec.fail("name", "suffix %r is not part of the folders" % s)
            if set(mine) & set(want):
                rec.fail("shared", "suffix %r uses the folders of another one" % s)
            want.update(mine)
            compare(rec, "suffix", results(pro), want, "suffixes %s with %s" % (cmds, how))
        if {f.name: f.read_bytes() for f in cfg.glob("*.yaml")} != texts:
            rec.fail("config", "configurations are changed")


BAD = ("a/b", "../x", "a b", "a.b", "é", "a\nb", "a*", "\\", "~", "a:", "a+b")


def bad_suffix(case, rec):
    cmd, s = case
    rec.state(case)
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, {x: of_suffix(x) for x in SUFF})
        before = {str(f): f.read_bytes() for f in sorted(root.rglob("*")) if f.is_file()}
        command(cmd, raw, "--suffix", s)
        rec.step()
        after = {str(f): f.read_bytes() for f in sorted(root.rglob("*")) if f.is_file()}
        if after != before:
            rec.fail("bad", "suffix %r is accepted" % s)


# ---------------------------------------------------------------- result folders
def balance(**kw):
    c = full(("LC",), "manual_balance")
    c["cameras"][0]["manual_balance"].update(kw)
    return c


def colour(metric="altitude", **kw):
    c = full(("LC",), metric=metric)
    c["cameras"][0]["colour_correction"].update(kw)
    return c


KINDS = {
    "base": lambda: colour(),
    "brightness": lambda: colour(brightness=35),
    "contrast": lambda: colour(contrast=9),
    "swapped": lambda: colour(brightness=5, contrast=20),
    "uniform": lambda: colour("uniform"),
    "manual": lambda: balance(),
    "gain": lambda: balance(colour_gain_matrix_rgb=[[2, 0, 0], [0, 3, 0], [0, 0, 5]]),
    "green": lambda: balance(colour_gain_matrix_rgb=[[2, 0, 0], [0, 4, 0], [0, 0, 4]]),
    "red": lambda: balance(colour_gain_matrix_rgb=[[1, 0, 0], [0, 3, 0], [0, 0, 4]]),
    "sub r": lambda: balance(subtractors_rgb=[0, 2, 3]),
    "sub g": lambda: balance(subtractors_rgb=[1, 1, 3]),
    "sub b": lambda: balance(subtractors_rgb=[1, 2, 2]),
}


def folder_case(case, rec):
    """images of configurations that differ in brightness, contrast, metric or balance do not replace each other"""
    rec.state(case)
    done = {}
    with mc.scratch() as root:
        raw, pro, cfg = dive(root, KINDS[case[0]](), cams=("LC",), images=("LC",))
        for k in case:
            conf = KINDS[k]()
            (cfg / "correct_images.yaml").write_text(yaml.safe_dump(conf))
            command("parse", raw)  # refused if the parameters are there
            rec.step()
            if command("process", raw):
                rec.fail("refused", "configurations %s: processing %r is refused" % (case, k))
                return
            done.update(reference(rec, conf, cams=("LC",), images=("LC",)))
            compare(rec, "folders", results(pro), done, "configurations %s one after the other" % (case,))


# ---------------------------------------------------------------- several dives
def other(c, what):
    k = c["colour_correction"]
    if what == "metric":
        k["distance_metric"] = "altitude"
    elif what == "method":
        c["method"] = "manual_balance"
    elif what == "smoothing":
        k["smoothing"] = "median"
    elif what == "window":
        k["window_size"] = 5
    elif what == "fewer":
        c["cameras"].pop()
    elif what == "names":
        c["cameras"][1]["camera_name"] = "XC"
    elif what == "altitudes":
        k["altitude_filter"]["parse"] = {"min_m": 3.2, "max_m": 8.0}
    elif what == "undistort":
        c["output_settings"]["compression_parameter"] = "tif"
    return c


DIFFER = ("metric", "method", "smoothing", "window", "fewer", "names", "system")


def dives_case(case, rec):
    """several dives: only if they are corrected alike, whatever their order"""
    diffs = case
    rec.state(case)
    with mc.scratch() as root:
        dives = []
        for i, w in enumerate(diffs):
            dives.append(dive(root, other(full(metric="uniform"), w), dname="dive%d" % i, shift=0.1 * i))
            if w == "system":
                (dives[-1][0] / "camera.yaml").write_text(yaml.safe_dump(dict(camera_yaml(), camera_system="biocam")))
                m = yaml.safe_load((dives[-1][0] / "mission.yaml").read_text())
                m["image"]["format"] = "biocam"
                (dives[-1][0] / "mission.yaml").write_text(yaml.safe_dump(m))
        before = [results(p) for _, p, _ in dives]
        refused = command("parse", *[r for r, _, _ in dives])
        rec.step()
        alike = len({w if w in DIFFER else "" for w in diffs}) == 1
        got = [results(p) for _, p, _ in dives]
        rec.out((refused, [sorted(g) for g in got]))
        if not alike:
            if not refused:
                rec.fail("mixed", "dives %s are parsed together" % (diffs,))
            if got != before:
                rec.fail("mixed-written", "dives %s: refused, yet results are written" % (diffs,))
            return
        if refused:
            rec.fail("refused", "dives %s are not parsed together" % (diffs,))
            return
        lo = {"altitudes": (3.2, 8.0)}
        for cam in ("LC",) if diffs[0] in ("fewer", "names") else () if diffs[0] in ("metric", "method") else ("LC", "RC"):
            sel = [picture(cam, k) / 256.0 for i, w in enumerate(diffs) for k, a in enumerate(ALTS) if lo.get(w, (2.0, 6.0))[0] < a + 0.1 * i < lo.get(w, (2.0, 6.0))[1]]
            for i, (r, p, c) in enumerate(dives):
                f = p / "image" / cam / "params_uniform" / "image_raw_mean.npy"
                if not f.exists() or np.abs(np.load(f).squeeze() - np.mean(sel, axis=0)).max() > 1e-6:
                    rec.fail("mean", "dives %s: the mean of camera %s for dive %d is not that of all selected images" % (diffs, cam, i))


# ---------------------------------------------------------------- images of a camera
def tree_case(case, rec):
    """the images of a camera are exactly those its path names"""
    from oplab import CameraSystem

    path, folders = case
    rec.state(case)
    import fnmatch

    with mc.scratch() as root:
        raw = root / "raw" / "dive"
        raw.mkdir(parents=True)
        files = []
        for i, f in enumerate(folders):
            (raw / f).mkdir(parents=True, exist_ok=True)
            for k, stem in enumerate((name("LC", 3 * i + 1), name("RC", 3 * i), name("LC", 3 * i))):
                for ext in ("png", "txt"):
                    (raw / f / (stem + "." + ext)).write_text("x")
                files.append("%s/%s.png" % (f, stem))
        node = camera_yaml(("LC",))
        node["cameras"][0]["path"] = path
        (raw / "camera.yaml").write_text(yaml.safe_dump(node))
        s = CameraSystem(raw / "camera.yaml", raw)
        got = [os.path.relpath(x, raw) for x in s.cameras[0].image_list]
        stamps = s.cameras[0].stamp_list
        rec.step()
    parts = path.strip("/").split("/")

    def match(f):
        # every component of the path names a folder; the last one may name files, and `*` at its end also what is inside
        fp = f.split("/")
        d = fp[:-1]
        if len(parts) == len(fp) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(d, parts)):
            return fnmatch.fnmatchcase(fp[-1], parts[-1] if parts[-1].endswith("*") else parts[-1] + ".png")
        return len(parts) <= len(d) and all(fnmatch.fnmatchcase(a, b) for a, b in zip(d, parts))

    if path.count("*") > 1:
        want = sorted(f for f in files if len(parts) == len(f.split("/")) and match(f))
    elif "*" in path:
        want = sorted(f for f in files if len(parts) <= len(f.split("/")) - 1 and match(f))
    else:
        want = sorted(f for f in files if os.path.dirname(f) == path.strip("/"))
    rec.out((path, tuple(got)))
    if got != want:
        rec.fail("images", "path %s in %s: %d images instead of %d (%s)" % (path, folders, len(got), len(want), sorted(set(got) ^ set(want))[:2]))
        return
    times = []
    for f in want:
        n = os.path.basename(f)
        times.append(1499990400 + 7200 + int(n[14:16]) * 60 * 0 + int(n[16:18]) + int(n[19:22]) / 1000.0)
    if len(stamps) != len(times) or any(abs(a - b) > 1e-6 for a, b in zip(stamps, times)):
        rec.fail("stamps", "path %s: image times %s instead of %s" % (path, stamps[:3], times[:3]))


def body():
    ck = mc.new_check("C29")
    D.stub_version()
    mc.silence_console()
    from correct_images import corrections

    corrections.save_attenuation_plots = lambda *a, **k: None
    from correct_images.corrector import Corrector

    Corrector.plot_all_attenuation_curves = lambda *a, **k: None
    os.environ["TQDM_DISABLE"] = "1"
    T = ck.thorough
    names = list(VAR)
    colour = [n for n in names if n not in ("no subtractors", "no gain", "no manual_balance")]
    manual = [n for n in names if n not in ("metric none", "no brightness", "no contrast", "no camera colour_correction")]
    ok = lambda c: not any(y in VAR[x][2] for x in c for y in c)
    combos = [("colour_correction", c) for r in range(0, 4 if T else 3) for c in itertools.combinations(colour, r) if ok(c)]
    combos += [("manual_balance", c) for r in range(0, 5 if T else 4) for c in itertools.combinations(manual, r) if ok(c)]
    ck.explore("spellings", combos, spelling_case, "older spellings and options left out, alone and together, against everything written out")
    subs = [p for r in (1, 2) for p in itertools.permutations(("LC", "RC"), r)] + [("XC", "LC"), ("LC", "XC", "RC"), ("XC",)]
    sysm = [p for r in (1, 2) for p in itertools.permutations(("LC", "RC"), r)]
    imgs = [("LC", "RC"), ("LC",), ("RC",)]
    ck.explore("cameras", [(m, a, b, i) for m in ("colour_correction", "manual_balance") for a in subs for b in sysm for i in imgs], camera_case, "every list of configured cameras x cameras of the system x cameras with images")
    pre = [(a, b, c) for a in (None, "A", "B", "C", "wrong") for b in (None, "A", "B", "C", "wrong") if a or b for c in ("both", "correct")]
    ck.explore("camera.yaml", pre, precedence_case, "every pair of camera.yaml in the raw and configuration folders")
    ck.explore("defaults", [(f, s, h) for f in FORMATS for s in ("", "x") for h in (False, True)], default_case, "every image format")
    ck.explore("suffixes", [(p, h) for p in itertools.product(SUFF, repeat=3 if T else 2) for h in ("correct", "parse+process")], suffix_history, "all sequences of suffixes")
    ck.explore("bad suffixes", [(c, s) for c in ("parse", "process", "correct") for s in BAD], bad_suffix, "suffixes that are no file names")
    ck.explore("folders", list(itertools.permutations(KINDS, 3 if T else 2)), folder_case, "all ordered lists of configurations that differ in one value")
    what = ("", "altitudes", "undistort") + DIFFER
    ck.explore("dives", [p for p in itertools.product(what, repeat=2)] + [p for p in itertools.permutations(("", "altitudes", "window"), 3)] + [("", "", w) for w in what] + [(w, "", "") for w in what], dives_case, "all pairs of dives that differ in one option, some triples")
    fold = ["image/i0", "image/i1", "image/Data0", "image/Data1", "image/x"]
    cases = []
    for r in range(1, 4):
        for fs in itertools.permutations(fold, r):
            for p in ("image/i0", "image/i0/", "image/i*", "image/i*/*LC*", "image/i*/*RC*", "image/*/*LC", "image/Data*"):
                if any(f.startswith(p.split("*")[0].rstrip("/")) for f in fs):
                    cases.append((p, fs))
        for fs in itertools.permutations(["image/Data0/Cam1", "image/Data1/Cam1", "image/Data0/Cam2"], r):
            cases += [("image/Data*/Cam1", fs), ("image/Data*/Cam2", fs)]
    ck.explore("images of a camera", cases, tree_case, "all sets of folders x path patterns")
    return ck.finish()


if __name__ == "__main__":
    mc.main(body)
