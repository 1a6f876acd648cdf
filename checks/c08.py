"""C08: position-fix filtering removes exactly the inconsistent fixes; offset is the mean difference."""
import copy
import csv
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import geom as G

T = D.T0
SIGMA, SPEED = 2.0, 0.5


def lerp_at(s, t):
    for (t0, a), (t1, b) in zip(s, s[1:]):
        if t0 <= t <= t1:
            return G.lerp(t, t0, t1, a, b)
    return None


def reference(fixes, dep, sigma, speed, by_depth, by_distance):
    """fixes: (t, n, e, z, n_std, e_std, z_std); dep: (t, z, std). Indices kept."""
    keep = [i for i, f in enumerate(fixes) if f[0] >= dep[0][0] + 1 and f[0] + 1 <= dep[-1][0]]
    if by_depth:
        z = [(d[0], d[1]) for d in dep]
        zs = [(d[0], d[2]) for d in dep]
        keep = [i for i in keep if abs(fixes[i][3] - lerp_at(z, fixes[i][0])) <= sigma * (fixes[i][6] + lerp_at(zs, fixes[i][0]))]
    if by_distance:

        def ok(i, j):
            a, b = fixes[i], fixes[j]
            env = math.hypot(a[4], a[5]) + math.hypot(b[4], b[5]) + abs(a[0] - b[0]) * speed
            return math.hypot(a[1] - b[1], a[2] - b[2]) <= sigma * env

        keep = [keep[p] for p in range(2, len(keep) - 2) if all(ok(keep[p], keep[p + n]) for n in (-2, -1, 1, 2))]
    return keep


def usbl(f):
    from auv_nav.sensors import Usbl

    u = Usbl()
    u.epoch_timestamp, u.northings, u.eastings, u.depth, u.northings_std, u.eastings_std, u.depth_std = f
    u.latitude, u.longitude, u.latitude_std, u.longitude_std, u.distance_to_ship = 50.0, -1.0, 1e-5, 1e-5, 30.0
    return u


def depth(d):
    from auv_nav.sensors import Depth

    x = Depth()
    x.epoch_timestamp, x.depth, x.depth_std = d
    x.depth_timestamp = d[0]
    return x


def run_filter(fixes, dep, flags, rec, tag):
    from auv_nav.localisation.usbl_filter import usbl_filter

    ul, dl = [usbl(f) for f in fixes], [depth(d) for d in dep]
    got = usbl_filter(list(ul), dl, SIGMA, SPEED, apply_depth_filter=flags[0], apply_north_east_filter=flags[1])[1]
    rec.step(len(fixes))
    key = lambda u: (u.epoch_timestamp, u.northings, u.eastings, u.depth, u.northings_std, u.eastings_std, u.depth_std)
    got = [key(u) for u in got]
    want = [fixes[i] for i in reference(fixes, dep, SIGMA, SPEED, *flags)]
    rec.out([g[0] - T for g in got])
    if got != want:
        sh = lambda l: [(round(f[0] - T, 3),) + tuple(round(x, 3) for x in f[1:4]) for f in l]
        rec.fail(tag, "fixes %s, depth filter %s, distance filter %s: kept %s, expected %s" % (sh(fixes), flags[0], flags[1], sh(got), sh(want)))


DEP = [(T - 3 + 1.5 * k, 20.0 + 0.5 * k, 0.1 + 0.02 * k) for k in range(11)]


def fix(kind, k, t):
    """A fix of a kind at time t; the k-th of its sequence."""
    z = lerp_at([(d[0], d[1]) for d in DEP], t)
    zs = lerp_at([(d[0], d[2]) for d in DEP], t)
    if z is None:
        z, zs = 20.0, 0.1
    n, e, s = 0.4 * (t - T), -0.2 * (t - T), 0.5
    if kind == "n":  # north outlier
        n += 30.0
    elif kind == "e":  # east outlier, just inside reach of a neighbour two steps away but not one
        e += 4.4
    elif kind == "w":
        e -= 300.0
    elif kind == "d":  # much too deep
        z += 50.0
    elif kind == "i":  # depth just inside
        z += 2 * (1.0 + zs) - 0.01
    elif kind == "o":  # depth just outside, shallow side
        z -= 2 * (1.0 + zs) + 0.01
    elif kind == "u":  # uncertain fix, far away but within its own uncertainty
        n += 30.0
        s = 12.0
    return (t, n, e, z, s, s * 0.8, 1.0)


def word_case(c, rec):
    w, flags, step = c
    fixes = [fix(x, k, T + 0.3 + step * k) for k, x in enumerate(w)]
    rec.state(c)
    run_filter(fixes, DEP, flags, rec, "filter")


def time_case(c, rec):
    """Every placement of fixes relative to the ends of the depth record."""
    ts, flags = c
    fixes = [fix("g", k, T + x) for k, x in enumerate(ts)]
    rec.state(c)
    run_filter(fixes, [d for d in DEP if d[0] <= T + 6], flags, rec, "time-filter")


# ------------------------------------------------------------------ offset
def offset_case(c, rec):
    from auv_nav.localisation.usbl_offset import usbl_offset

    dr, us = c
    pn = lambda t: 3.0 * math.sin(0.9 * t) + t
    pe = lambda t: 2.0 * math.cos(0.7 * t) - 0.5 * t
    N, E = [pn(t) for t in dr], [pe(t) for t in dr]
    un, ue = [40.0 + 7 * k * k - t for k, t in enumerate(us)], [-90.0 + 5 * k - 0.3 * t * t for k, t in enumerate(us)]
    a = [[T + t for t in dr], list(N), list(E), [T + t for t in us], list(un), list(ue)]
    got = usbl_offset(*a)
    rec.step(len(us))
    rec.state(c)
    rec.out(got)
    sn, se = list(zip(dr, N)), list(zip(dr, E))
    inside = [k for k, t in enumerate(us) if dr[0] <= t <= dr[-1]]
    if not inside:
        want = (0.0, 0.0)
    else:
        want = (
            sum(un[k] - lerp_at(sn, us[k]) for k in inside) / len(inside),
            sum(ue[k] - lerp_at(se, us[k]) for k in inside) / len(inside),
        )
    if not (mc.close(got[0], want[0], 1e-6, 1e-5) and mc.close(got[1], want[1], 1e-6, 1e-5)):
        rec.fail("offset", "poses at %s, fixes at %s: offset %s, expected %s" % (dr, us, got, want))


# ------------------------------------------------------------------ whole processing
def process_case(c, rec):
    """Filter and offset inside `auv_nav process`."""
    from auv_nav.process import process

    w, flags, active, sigma, speed = c
    fixes = [fix(x, k, T + 0.3 + 0.9 * k) for k, x in enumerate(w)]
    items = []
    for k in range(12):
        items += [D.j_vel(T - 1.4 + k, 1.0, 0.2, 0.0), D.j_ori(T - 1.0 + 0.9 * k, 0.0, 0.0, 30.0)]
        items.append(D.j_alt(T - 1.5 + k, 5.0))
    items += [D.j_depth(t, z, std=s) for t, z, s in DEP]
    for t, n, e, z, ns, es, zs in fixes:
        j = D.j_usbl(t, n, e, z, std=ns)
        j["data_target"][3]["eastings_std"] = es
        j["data_target"][4]["depth_std"] = zs
        items.append(j)
    items.sort(key=lambda d: d["epoch_timestamp"])
    cfg = D.nav_config(usbl_filter=active)
    cfg["usbl_filter"].update(max_auv_speed=speed, sigma_factor=sigma)
    cfg["std"]["position_xy"] = {"model": "sensor"}
    cfg["std"]["position_z"] = {"model": "sensor"}
    m = D.mission_yaml(cameras=1)
    if flags is not None:
        m["usbl"]["apply_depth_filter"], m["usbl"]["apply_north_east_filter"] = flags
    veh = D.vehicle_yaml(dvl=D.off())
    with mc.scratch() as d:
        raw, pro, conf = D.make_dive(d, [D.j_origin()] + items, mission=m, vehicle=veh, config=cfg)
        process(str(pro), False, "", "")
        ren = [p for p in pro.iterdir() if p.name.startswith("json_renav")][0]
        rows = []
        f = ren / "csv" / "auv_usbl.csv"
        if f.is_file():
            rows = [r for r in csv.reader(open(f))][1:]
        cen = list(csv.DictReader(open(ren / "csv" / "dead_reckoning" / "auv_dr_centre.csv")))
    rec.step(len(items))
    rec.state(c)
    got = [tuple(float(x) for x in r[:4]) for r in rows]
    rec.out(got)
    kept = [fixes[i] for i in reference(fixes, DEP, sigma, speed, *(flags or (True, True)))] if active else fixes
    if len(kept) > 1 or got:
        if len(got) != len(kept) or any(not all(mc.close(a, b, 1e-12, 1e-6) for a, b in zip(g, k[:4])) for g, k in zip(got, kept)):
            rec.fail("process-fixes", "word %s flags %s: published fixes at %s, expected %s" % (w, flags, [round(g[0] - T, 2) for g in got], [round(k[0] - T, 2) for k in kept]))
    # straight track: the dead-reckoned position is linear in time
    y = math.radians(30.0)
    vn, ve = math.cos(y) * 1.0 - math.sin(y) * 0.2, math.sin(y) * 1.0 + math.cos(y) * 0.2
    ts = [float(r.get("timestamp", r.get("timestamp [s]"))) for r in cen]
    t0 = T - 1.0
    inside = [k for k in kept if ts[0] <= k[0] <= ts[-1]]
    on = sum(k[1] - vn * (k[0] - t0) for k in inside) / len(inside) if inside else 0.0
    oe = sum(k[2] - ve * (k[0] - t0) for k in inside) / len(inside) if inside else 0.0
    for r, t in zip(cen, ts):
        n, e = float(r["northing [m]"]), float(r["easting [m]"])
        if abs(n - (vn * (t - t0) + on)) > 1e-5 or abs(e - (ve * (t - t0) + oe)) > 1e-5:
            rec.fail("process-offset", "word %s flags %s: pose at %+.2f is (%.4f, %.4f), expected (%.4f, %.4f)" % (w, flags, t - T, n, e, vn * (t - t0) + on, ve * (t - t0) + oe))
            break


def body():
    chk = mc.Check("C08")
    q = not chk.thorough
    words = lambda al, lo, hi: ["".join(w) for n in range(lo, hi + 1) for w in itertools.product(al, repeat=n)]
    FL = [(True, True), (True, False), (False, True), (False, False)]
    chk.explore("fix-words", [(w, FL[0], 1.0) for w in words("gned", 0, 6 if q else 8)], word_case, "all words of consistent / outlying fixes")
    chk.explore("fix-words-flags", [(w, f, s) for w in words("gweiou", 0, 4 if q else 5) for f in FL for s in (0.4, 1.6)], word_case, "words x enabled filters x spacing")
    chk.explore("fix-words-long", [("".join("g" if k not in bad else x for k in range(n)), FL[0], 0.8) for n in range(5, 11) for m in (1, 2, 3) for bad in itertools.combinations(range(n), m) for x in "neudw"], word_case, "up to three outliers of one kind in long sequences")
    pl = (-4.0, -3.0, -2.01, -2.0, -1.0, 2.0, 4.9, 5.0, 5.01, 6.0, 8.0)
    chk.explore("fix-times", [(s, f) for n in range(1, 5 if q else 7) for s in itertools.combinations(pl, n) for f in FL], time_case, "placement of fixes around the depth record")
    grid = (-3.0, -0.5, 0.0, 0.4, 1.0, 2.5, 3.0, 7.0, 30.0, 31.0, 33.5, 40.0, 70.0)
    drs = [(0.0, 1.0, 2.0, 3.0), (0.0, 10.0, 20.0, 40.0), (0.0, 0.5, 30.5, 33.5), (0.0, 3.0)]
    chk.explore("offset", [(d, s) for d in drs for n in range(1, 5 if q else 8) for s in itertools.combinations(grid, n)], offset_case, "every set of fix times against several pose time grids")
    pw = words("gnd", 6, 6) if q else words("gnd", 5, 8)
    chk.explore("process", [(w, FL[0], True, SIGMA, SPEED) for w in pw] + [(w, FL[0], True, s, v) for w in ("gndggwg", "ggnewgg", "ggddwggg", "guggogg", "giggggng") for s in (0.3, 1.0, SIGMA, 6.0) for v in (0.05, SPEED, 20.0)] + [(w, f, a, SIGMA, SPEED) for w in ("gggggg", "gdgggggg", "ggngggg", "gggg", "g", "gndg", "") for f in FL + [None] for a in (True, False)], process_case, "words of fixes through whole processing")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
