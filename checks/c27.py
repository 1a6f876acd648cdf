"""C27: the navigation configuration selects exactly the products it names, and left-out options mean their defaults."""
import contextlib
import copy
import itertools
import logging
import os
import sys
from pathlib import Path

import yaml

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

DR = ("auv_centre", "auv_dvl", "camera_1", "camera_2", "camera_3", "payload")
EKF = ("auv_centre", "camera_1", "camera_2", "camera_3", "payload")
CAM = {"camera_1": "cam1", "camera_2": "cam2", "camera_3": "cam3"}


def items(cameras, fixes=6, lasers=True):
    body = []
    for k in range(6):
        t = D.T0 + k
        body += [
            D.j_vel(t, 1.0 + 0.1 * k, 0.1, 0.02 * k, std=0.07),
            D.j_ori(t + 0.1, 1.0 * k, -0.5 * k, (352 + 6 * k) % 360, std=0.3),
            D.j_depth(t - 0.2, 10 + k, std=0.2),
            D.j_alt(t - 0.1, 5.0 + 0.1 * k),
        ]
        if k < fixes:
            body.append(D.j_usbl(t + 0.4, 100 + k, 50 - k, 10 + k, std=1.5))
        body.append(D.j_img(t + 0.3, "a/%07d.png" % k, "b/%07d.png" % k if cameras > 1 else None))
        if cameras > 2 and lasers:
            body.append(D.j_laser(t + 0.35, "c/%07d.png" % k))
    body.sort(key=lambda d: d["epoch_timestamp"])
    return [D.j_origin()] + body


def execute(conf, cameras, its, payload=True):
    """(error, {file: bytes}) of the navigation products of a fresh run of the command"""
    from auv_nav.process import process

    m = D.mission_yaml(cameras=cameras)
    veh = D.vehicle_yaml()
    if payload:
        m["payloads"] = {"ctd": {"path": "ctd/log.csv", "format": "generic_csv", "timezone": 0, "timeoffset": 0}}
        veh["payloads"] = {"ctd": D.off(0.5, 0.2, 0.1)}
    with mc.scratch() as d:
        raw, pro, cf = D.make_dive(d, its, vehicle=veh, mission=m, config=conf)
        if payload:
            (raw / "ctd").mkdir()
            (raw / "ctd" / "log.csv").write_text("corrected_timestamp,salinity\n" + "".join("%.2f,%.2f\n" % (D.T0 + k + 0.6, 35 + k) for k in range(4)))
        before = (cf / "auv_nav.yaml").read_bytes()
        err = None
        try:
            process(str(pro), False, "", "")
        except mc.CaseTimeout:
            raise
        except (Exception, SystemExit) as e:
            if not mc.from_repo(e):
                raise
            err = "%s: %s" % (type(e).__name__, e)
        out = {}
        for r in pro.glob("json_renav_*/csv"):
            for f in sorted(r.rglob("*")):
                if f.is_file():
                    out[str(f.relative_to(r))] = f.read_bytes()
        if (cf / "auv_nav.yaml").read_bytes() != before:
            err = "the configuration file was changed"
    return err, out


def owner(f):
    """the configuration switch a product belongs to"""
    p = Path(f)
    if p.parts[0] == "sensor_values_and_uncertainties":
        return None
    if f == "auv_usbl.csv":
        return ("usbl",)
    part, name = p.parts[0], p.stem
    if name.endswith("centre_sss"):
        return (part, "auv_centre")
    if p.suffix == ".txt":
        part = "spp"
    if part == "spp" or name.startswith("auv_"):
        for c, n in CAM.items():
            if n in name:
                return (part, c)
        if name.startswith("auv_") and name.endswith("centre"):
            return (part, "auv_centre")
        if name.startswith("auv_") and name.endswith("dvl"):
            return (part, "auv_dvl")
    if name.startswith("ctd"):
        return (part, "payload")
    return ("unknown", f)


def config(ekf, spp, off):
    c = D.nav_config(ekf=ekf, spp=spp)
    o = c["csv_output"]
    for p in ("dead_reckoning", "particle_filter", "ekf"):
        o[p]["payload"] = True
    for sw in off:
        if sw == ("usbl",):
            o["usbl"] = False
        elif sw == ("activate",):
            o["activate"] = False
        elif sw[0] == "spp":
            c["spp_output"]["ekf"][sw[1]] = False
        else:
            o[sw[0]][sw[1]] = False
    return c


_ALL = {}


def full(ekf, spp, cameras, fixes, lasers):
    k = (ekf, spp, cameras, fixes, lasers)
    if k not in _ALL:
        _ALL[k] = execute(config(ekf, spp, ()), cameras, items(cameras, fixes, lasers))
    return _ALL[k]


def expected(ekf, spp, cameras, fixes, lasers):
    """files that must exist with everything switched on"""
    f = {"dead_reckoning/auv_dr_centre.csv", "dead_reckoning/auv_dr_centre_sss.txt", "dead_reckoning/auv_dr_dvl.csv", "dead_reckoning/ctd_dr.csv", "dead_reckoning/auv_dr_cam1.csv"}
    if cameras > 1:
        f.add("dead_reckoning/auv_dr_cam2.csv")
    if cameras > 2 and lasers:
        f.add("dead_reckoning/auv_dr_cam3_laser.csv")
    if fixes:
        f.add("auv_usbl.csv")
    if ekf:
        f |= {"ekf/auv_ekf_centre.csv", "ekf/ctd_ekf.csv", "ekf/auv_ekf_cam1.csv", "ekf/auv_ekf_cam1_cov.csv"}
        if cameras > 1:
            f |= {"ekf/auv_ekf_cam2.csv", "ekf/auv_ekf_cam2_cov.csv"}
        if cameras > 2 and lasers:
            f |= {"ekf/auv_ekf_cam3_laser.csv", "ekf/auv_ekf_cam3_laser_cov.csv"}
    return f


def products(c, rec):
    ekf, spp, cameras, fixes, lasers, offs = c
    err, ref = full(ekf, spp, cameras, fixes, lasers)
    what = "%d cameras%s, %d fixes, ekf %s, spp %s" % (cameras, "" if lasers else " without laser images", fixes, ekf, spp)
    if err:
        rec.fail("process-fails", "everything on, %s: %s" % (what, err))
        return
    miss = expected(ekf, spp, cameras, fixes, lasers) - set(ref)
    if miss:
        rec.fail("product-missing", "everything on, %s: %s not written" % (what, sorted(miss)))
        return
    for off in offs:
        err, got = execute(config(ekf, spp, off), cameras, items(cameras, fixes, lasers))
        rec.step()
        rec.state((ekf, spp, cameras, fixes, lasers, off))
        where = "%s, off: %s" % (what, ["/".join(x) for x in off])
        if err:
            rec.fail("process-fails", "%s: %s" % (where, err))
            return
        want = {}
        for f, v in ref.items():
            o = owner(f)
            if o is not None and o[0] != "spp" and o[0] != "unknown" and ("activate",) in off:
                continue
            if o in off:
                continue
            want[f] = v
        rec.out(sorted(want))
        for f in sorted(set(want) | set(got)):
            if f not in want:
                rec.fail("unrequested-product", "%s: %s is written" % (where, f))
                return
            if f not in got:
                rec.fail("product-missing", "%s: %s is not written" % (where, f))
                return
            if got[f] != want[f]:
                rec.fail("product-depends", "%s: %s differs from that with everything on" % (where, f))
                return


def rows(out):
    """usbl csv: number of data rows"""
    return len(out.get("auv_usbl.csv", b"").decode().splitlines()) - 1 if "auv_usbl.csv" in out else 0


def fixes_case(c, rec):
    n, = c
    err, out = execute(config(False, False, ()), 1, items(1, n))
    rec.step()
    rec.state(c)
    rec.out(rows(out))
    if err:
        rec.fail("process-fails", "%d fixes: %s" % (n, err))
    elif rows(out) != n:
        rec.fail("usbl-rows", "%d fixes give %d rows in auv_usbl.csv" % (n, rows(out)))


def noise(n, d):
    """covariance as the list of a configuration with n states"""
    return [float(d[i]) if i == j else 0.01 * ((i * 7 + j * 7) % 5) if n == 12 and abs(i - j) == 99 else 0.0 for i in range(n) for j in range(n)]


def variant(name, c):
    """apply a respelling to config c; None if it does not apply"""
    s = c["std"]
    if name == "old-std-names":
        s["usbl"], s["depth"], s["dvl"] = s.pop("position_xy"), s.pop("position_z"), s.pop("speed")
    elif name == "15-states":
        for k in ("process_noise_covariance", "initial_estimate_covariance"):
            m = c["ekf"][k]
            big = [[7.0] * 15 for _ in range(15)]
            for i in range(12):
                for j in range(12):
                    big[i][j] = m[i * 12 + j]
            c["ekf"][k] = [x for r in big for x in r]
    elif name == "integer-noise":
        for k in ("process_noise_covariance", "initial_estimate_covariance"):
            c["ekf"][k] = [int(x) if x == int(x) else x for x in c["ekf"][k]]
    elif name == "json":
        pass
    return c


# (name, edit of the explicit configuration that states the default, edit that leaves it out)
def E(path, value):
    def f(c):
        d = c
        for k in path[:-1]:
            d = d.setdefault(k, {})
        d[path[-1]] = copy.deepcopy(value)

    return f


def X(*path):
    def f(c):
        d = c
        for k in path[:-1]:
            d = d[k]
        d.pop(path[-1], None)

    return f


SENSOR = {"position_xy": {"model": "sensor"}, "position_z": {"model": "sensor"}, "speed": {"model": "sensor"}, "orientation": {"model": "sensor"}}
DEFAULTS = {
    "std": (E(("std",), SENSOR), X("std")),
    "std.position_xy": (E(("std", "position_xy"), {"model": "sensor"}), X("std", "position_xy")),
    "std.position_z": (E(("std", "position_z"), {"model": "sensor"}), X("std", "position_z")),
    "std.speed": (E(("std", "speed"), {"model": "sensor"}), X("std", "speed")),
    "std.orientation": (E(("std", "orientation"), {"model": "sensor"}), X("std", "orientation")),
    "std.position_xy.model": (E(("std", "position_xy", "model"), "sensor"), X("std", "position_xy", "model")),
    "std.position_z.model": (E(("std", "position_z", "model"), "sensor"), X("std", "position_z", "model")),
    "std.speed.model": (E(("std", "speed", "model"), "sensor"), X("std", "speed", "model")),
    "std.orientation.model": (E(("std", "orientation", "model"), "sensor"), X("std", "orientation", "model")),
    "ekf": (E(("ekf", "activate"), False), X("ekf")),
    "ekf.activate_smoother": (E(("ekf", "activate_smoother"), True), X("ekf", "activate_smoother")),
    "ekf.threshold": (E(("ekf", "mahalanobis_distance_threshold"), 3.0), X("ekf", "mahalanobis_distance_threshold")),
    "usbl_filter": (E(("usbl_filter", "activate"), False), X("usbl_filter")),
    "particle_filter": (E(("particle_filter", "activate"), False), X("particle_filter")),
    "csv_output": (E(("csv_output", "activate"), False), X("csv_output")),
    "spp_output": (E(("spp_output", "activate"), False), X("spp_output")),
    "plot_output": (E(("plot_output", "activate"), False), X("plot_output")),
    "dead_reckoning.payload": (E(("csv_output", "dead_reckoning", "payload"), True), X("csv_output", "dead_reckoning", "payload")),
    "particle_filter.payload": (E(("csv_output", "particle_filter", "payload"), True), X("csv_output", "particle_filter", "payload")),
    "ekf.payload": (E(("csv_output", "ekf", "payload"), True), X("csv_output", "ekf", "payload")),
}
SAME = ("old-std-names", "15-states", "integer-noise")


def noisy():
    """fixes and depths that jump, so that threshold, smoother and filter settings show in the results"""
    its = items(2)
    for k, i in enumerate(its):
        if i["category"] == "usbl":
            i["data_target"][2]["northings"] += [0.0, 3.0, -2.0, 6.0, 0.5][k % 5]
    return its


_DEF = {}


def defaults(c, rec):
    names, same = c
    conf = D.nav_config(ekf=True, spp=False)
    conf["std"]["position_xy"] = {"model": "linear", "offset": 2.0, "factor": 0.01}
    conf["csv_output"]["dead_reckoning"]["payload"] = True
    conf["csv_output"]["particle_filter"]["payload"] = True
    conf["csv_output"]["ekf"]["payload"] = True
    given, left = copy.deepcopy(conf), copy.deepcopy(conf)
    for n in names:
        DEFAULTS[n][0](given)
        DEFAULTS[n][1](left)
    for n in same:
        left = variant(n, left)
    its = noisy()
    k = yaml.safe_dump(given)
    if k not in _DEF:
        _DEF[k] = execute(given, 2, its)
    werr, want = _DEF[k]
    err, got = execute(left, 2, its)
    rec.step()
    rec.state(c)
    rec.out(want)
    what = "left out: %s%s" % (list(names), ", written as %s" % list(same) if same else "")
    if werr:
        rec.fail("process-fails", "defaults of %s written out: %s" % (list(names), werr))
    elif err:
        rec.fail("default-fails", "%s: %s" % (what, err))
    elif got != want:
        f = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)][0]
        rec.fail("default-differs", "%s: %s differs from the configuration with the default written out" % (what, f))


OTHER = {
    "std.position_xy": E(("std", "position_xy"), {"model": "linear", "offset": 7.0, "factor": 0.2}),
    "std.position_z": E(("std", "position_z"), {"model": "linear", "offset": 7.0, "factor": 0.2}),
    "std.speed": E(("std", "speed"), {"model": "linear", "offset": 0.7, "factor": 0.2}),
    "std.orientation": E(("std", "orientation"), {"model": "linear", "offset": 7.0, "factor": 0.2}),
    "ekf": E(("ekf", "activate"), False),
    "ekf.activate_smoother": E(("ekf", "activate_smoother"), False),
    "ekf.threshold": E(("ekf", "mahalanobis_distance_threshold"), 0.3),
    "ekf.process_noise": E(("ekf", "process_noise_covariance"), [0.3 if i % 13 == 0 else 0.0 for i in range(144)]),
    "ekf.initial": E(("ekf", "initial_estimate_covariance"), [0.3 if i % 13 == 0 else 0.0 for i in range(144)]),
    "usbl_filter": E(("usbl_filter", "activate"), True),
    "spp_output": E(("spp_output", "activate"), True),
}


def honoured(c, rec):
    """An option that is given is used, whatever is left out besides: it shows in the results."""
    name, left, smoother = c
    conf = D.nav_config(ekf=True)
    conf["std"] = copy.deepcopy(SENSOR)
    conf["usbl_filter"]["max_auv_speed"] = 1.0
    conf["ekf"]["activate_smoother"] = smoother
    its = noisy()
    other = copy.deepcopy(conf)
    OTHER[name](other)
    for n in left:
        DEFAULTS[n][1](conf)
        DEFAULTS[n][1](other)
    k = yaml.safe_dump(conf)
    if k not in _DEF:
        _DEF[k] = execute(conf, 2, its)
    err, got = execute(other, 2, its)
    rec.step()
    rec.state(c)
    rec.out(got)
    if err:
        rec.fail("option-fails", "%s set, %s left out: %s" % (name, list(left), err))
    elif got == _DEF[k][1]:
        rec.fail("option-ignored", "%s set to another value, %s left out: no product changes" % (name, list(left)))


@contextlib.contextmanager
def no_plots():
    """the plotting functions themselves are not run (they may be called with anything)"""
    import auv_nav.process as P

    keep = {n: getattr(P, n) for n in dir(P) if n.startswith("plot_")}
    try:
        for n in keep:
            setattr(P, n, lambda *a, **k: None)
        yield
    finally:
        for n in keep:
            setattr(P, n, keep[n])


def plots(c, rec):
    """Switching plots on changes none of the other products."""
    cameras, ekf, filt, left, fixes = c
    conf = D.nav_config(ekf=ekf, usbl_filter=filt)
    conf["usbl_filter"]["max_auv_speed"] = 20.0
    for n in left:
        conf.pop(n, None)
    its = items(cameras, fixes)
    werr, want = execute(copy.deepcopy(conf), cameras, its)
    for html in (True, False):
        on = copy.deepcopy(conf)
        on["plot_output"] = {"activate": True, "pdf_plot": False, "html_plot": html}
        with no_plots():
            err, got = execute(on, cameras, its)
        rec.step()
        rec.state(c + (html,))
        rec.out(sorted(got))
        if werr or err:
            rec.fail("process-fails", "%s: without plots %s, with plots %s" % (c, werr, err))
        elif got != want:
            rec.fail("plots-change", "%s: products change when plots are switched on" % (c,))


def generated(c, rec):
    """Without a configuration the shipped default is stored and used."""
    from auv_nav.process import process

    cameras, = c
    shipped = Path(os.environ.get("VERIF_REPO", "/repo")) / "src/auv_nav/default_yaml/auv_nav.yaml"
    conf = yaml.safe_load(shipped.read_text())
    conf["plot_output"]["activate"] = False
    _, want = execute(conf, cameras, items(cameras), payload=False)
    with mc.scratch() as d:
        raw, pro, cf = D.make_dive(d, items(cameras), mission=D.mission_yaml(cameras=cameras))
        err = None
        try:
            with no_plots():
                process(str(pro), False, "", "")
        except mc.CaseTimeout:
            raise
        except (Exception, SystemExit) as e:
            if not mc.from_repo(e):
                raise
            err = "%s: %s" % (type(e).__name__, e)
        rec.step()
        rec.state(c)
        rec.out(want)
        if err:
            rec.fail("process-fails", "without a configuration: %s" % err)
            return
        f = cf / "auv_nav.yaml"
        if not f.is_file() or yaml.safe_load(f.read_text()) != yaml.safe_load(shipped.read_text()):
            rec.fail("default-not-stored", "no configuration equal to the shipped one in %s" % cf)
        got = {}
        for r in pro.glob("json_renav_*/csv"):
            for f in sorted(r.rglob("*")):
                if f.is_file():
                    got[str(f.relative_to(r))] = f.read_bytes()
        if got != want:
            f = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)][0]
            rec.fail("default-differs", "without a configuration %s differs from that with the shipped one" % f)


def body():
    mc.silence_console()
    logging.disable(logging.CRITICAL)
    D.stub_version()
    chk = mc.new_check(
        "C27",
        assumptions=[
            "plots are off; the particle filter (random numbers) is off",
            "the sensor csv files have no switch and are always written",
        ],
    )
    q = not chk.thorough
    grouped = lambda ps, n: [tuple(ps[i:i + n]) for i in range(0, len(ps), n)]
    sets = lambda sw, k: [tuple(s) for r in range(k + 1) for s in itertools.combinations(sw, r)]
    dr = [("usbl",)] + [("dead_reckoning", x) for x in DR] + [("activate",)]
    ek = [("ekf", x) for x in EKF]
    sp = [("spp", x) for x in CAM]
    cases = [(False, False, 3, 6, True, g) for g in grouped(sets(dr, 8), 16)]
    cases += [(True, False, 3, 6, True, g) for g in grouped(sets(ek, 5), 4)]
    cases += [(True, True, 3, 6, True, g) for g in grouped(sets(sp + [("activate",)], 4), 4)]
    if not q:
        cases += [(True, True, 3, 6, True, g) for g in grouped([s for s in sets(dr + ek + sp, 3) if len(s) > 1], 16)]
    cases += [(e, s, n, f, l, ((), (("activate",),))) for e in (False, True) for s in (False, True) for n in (1, 2, 3) for f in (0, 1, 6) for l in ((True, False) if n == 3 else (True,))]
    chk.explore("products", cases, products, "all subsets of switches; cameras, laser images, number of fixes x Kalman filter x pose information")
    chk.explore("fixes", [(n,) for n in range(7)], fixes_case, "number of fixes")
    names = list(DEFAULTS)
    inside = lambda a, b: a.startswith(b + ".") or b == "csv_output" and a.endswith(".payload")
    clash = lambda a, b: a != b and (inside(a, b) or inside(b, a))
    combos = [t for r in range(1, 3 if q else 4) for t in itertools.combinations(names, r) if not any(clash(a, b) for a in t for b in t)]
    if q:
        combos = [t for k, t in enumerate(combos) if len(t) < 2 or k % 3 == 0]
    variants = [((), s) for r in (1, 2, 3) for s in itertools.combinations(SAME, r)]
    chk.explore("defaults", [(t, ()) for t in combos] + variants, defaults, "options left out, one by one and together; older spellings")
    gone = ["std.position_xy", "std.position_z", "std.speed", "std.orientation", "ekf.activate_smoother", "ekf.threshold", "usbl_filter", "particle_filter", "spp_output", "plot_output"]
    opts = [(n, (g,) if g else (), sm) for n in OTHER for g in [None] + gone if n != g for sm in (True, False) if not (n == "ekf.activate_smoother" and not sm)]
    opts = [o for o in opts if not ("ekf.activate_smoother" in o[1] and not o[2])]
    chk.explore("honoured", opts, honoured, "every option with another value x one option left out x smoother")
    chk.explore("generated", [(n,) for n in (1, 2, 3)], generated, "no configuration")
    lefts = [(), ("particle_filter",), ("usbl_filter",), ("particle_filter", "usbl_filter")]
    chk.explore("plots", [(n, e, f, l, x) for n in (1, 2, 3) for e in (False, True) for f in (False, True) for l in lefts for x in (0, 1, 6)], plots, "plots on and off (drawing itself left out)")
    return chk.finish()


mc.main(body)
