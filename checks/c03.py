"""C03: nav_standard.json is chronological and complete; merges keep everything."""
import collections
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

STAMPS = [5.0, 9.5, 10.0, 999999999.5, 1000000000.25, 1500000000.0, 1500000000.5, 1500000000.25]


def key(item):
    return json.dumps(item, sort_keys=True)


def check_order(rec, items, what):
    if not items or items[0].get("category") != "origin":
        rec.fail("origin-first", "%s: first record is %r" % (what, str(items[:1])[:120]))
    ts = [float(i["epoch_timestamp"]) for i in items]
    for a, b in zip(ts, ts[1:]):
        if b < a:
            rec.fail("not-chronological", "%s: %r is followed by %r" % (what, a, b))
            return


def check_same(rec, want, got, what):
    w = collections.Counter(map(key, want))
    g = collections.Counter(map(key, got))
    if w != g:
        lost = list((w - g).elements())[:1]
        extra = list((g - w).elements())[:1]
        rec.fail("lossy", "%s: missing %s unexpected %s" % (what, [x[:200] for x in lost], [x[:200] for x in extra]))


# ------------------------------------------------------------------ ordering
def order_case(c, rec):
    from auv_nav.parsers.parse_interlacer import parse_interlacer

    items = [D.j_origin()]
    for k, s in enumerate(c):
        it = D.j_depth(s, 10.0 + (k if k != 1 else 0))
        if k % 2:
            it = dict(D.j_alt(s, 3.0 + k))
        items.append(it)
    with mc.scratch() as d:
        (d / "nav_standard.json").write_text(json.dumps(items))
        parse_interlacer(d, "nav_standard.json")
        got = json.loads((d / "nav_standard.json").read_text())
    rec.step()
    rec.state(tuple(c))
    rec.out([g["epoch_timestamp"] for g in got])
    check_order(rec, got, c)
    check_same(rec, items, got, c)


# ------------------------------------------------------------------ whole parse
DAY0 = 1499990400.0  # 2017-07-14


def expected(times, utimes, itimes, have):
    """(category, time, value) of every measurement the raw files carry."""
    out = []
    for k, t in enumerate(times):
        if "velocity" in have:
            out.append(("velocity-body", DAY0 + t, 1.0 + k))
            out.append(("velocity-inertial", DAY0 + t, 0.5 + k))
        if "orientation" in have:
            out.append(("orientation", DAY0 + t, 100.0 + k))
        if "depth" in have:
            out.append(("depth", DAY0 + t, 20.0 + k))
        if "altitude" in have:
            out.append(("altitude", DAY0 + t, 5.0 + k))
    if "usbl" in have:
        out += [("usbl", DAY0 + t, 30.0 + k) for k, t in enumerate(utimes)]
    if "image" in have:
        out += [("image", DAY0 + t, "image/170714-%s.%03d0L.jpg" % (D.hms(t)[:6], 0)) for t in itimes]
    return sorted(out, key=lambda x: (x[1], x[0], str(x[2])))


def observed(items):
    out = []
    for i in items[1:]:
        cat = i["category"]
        if cat == "velocity" and i["frame"] == "body":
            out.append(("velocity-body", i["epoch_timestamp"], i["data"][0]["x_velocity"]))
        elif cat == "velocity":
            out.append(("velocity-inertial", i["epoch_timestamp"], i["data"][0]["north_velocity"]))
        elif cat == "orientation":
            out.append((cat, i["epoch_timestamp"], i["data"][0]["heading"]))
        elif cat == "depth":
            out.append((cat, i["epoch_timestamp"], i["data"][0]["depth"]))
        elif cat == "altitude":
            out.append((cat, i["epoch_timestamp"], i["data"][0]["altitude"]))
        elif cat == "usbl":
            out.append((cat, i["epoch_timestamp"], i["data_target"][4]["depth"]))
        elif cat == "image":
            out.append((cat, i["epoch_timestamp"], i["camera1"][0]["filename"]))
        else:
            out.append((cat, i["epoch_timestamp"], None))
    return sorted(out, key=lambda x: (x[1], x[0], str(x[2])))


def raw_dive(root, times, utimes, itimes, have, name="20170714_024000_dive", lat=50.0, lasers=()):
    ph = []
    for k, t in enumerate(times):
        ph += D.phins_burst(t, vel=(1.0 + k, 0.0, 0.0), yaw=100.0 + k, depth=20.0 + k, alt=5.0 + k, speed=(0.1, 0.5 + k, 0.2))
    us = [D.usbl_line("2017-07-14", "%s:%s:%s" % (D.hms(t)[:2], D.hms(t)[2:4], D.hms(t)[4:6]), "AUV", lat + 0.001, -1.001, 30.0 + k, 30, 45, 50) for k, t in enumerate(utimes)]
    im = ["image/170714-%s.%03d0%s.jpg" % (D.hms(t)[:6], 0, c) for t in itimes for c in "LR"]
    m = D.raw_mission(img_fmt="ntnu_stereo", lat=lat)
    for s in ("velocity", "orientation", "depth", "altitude", "usbl", "image"):
        if s not in have and s != "velocity":
            m.pop(s, None)
    return D.make_raw(root, name, m, phins_lines=ph, usbl_lines=us, images=im)


def close_lists(want, got):
    if len(want) != len(got):
        return "%d measurements instead of %d: %s" % (len(got), len(want), [x for x in want if x[0] not in [g[0] for g in got]][:2])
    for w, g in zip(want, got):
        if w[0] != g[0] or abs(w[1] - g[1]) > 1e-5:
            return "%s | %s" % (w, g)
        if isinstance(w[2], str):
            if w[2] != g[2]:
                return "%s | %s" % (w, g)
        elif not mc.close(w[2], g[2], 1e-6, 1e-6):
            return "%s | %s" % (w, g)


def parse_case(c, rec):
    from auv_nav.parse import parse_single

    have, times, utimes, itimes = c
    with mc.scratch() as d:
        raw, pro, _ = raw_dive(d, times, utimes, itimes, have)
        parse_single(str(raw), True)
        got = D.nav_json(pro)
    rec.step()
    rec.state(c)
    rec.out(observed(got))
    check_order(rec, got, c)
    o = got[0].get("data", [{}])[0]
    if (o.get("latitude"), o.get("longitude")) != (50.0, -1.0):
        rec.fail("origin-value", str(o))
    df = close_lists(expected(times, utimes, itimes, have), observed(got))
    if df:
        rec.fail("lossy", "%s: %s" % (c, df))


# ------------------------------------------------------------------ merges
def dive_items(spec, tag):
    """spec: list of (kind, time)"""
    out = []
    for n, (kind, t) in enumerate(spec):
        f = "image/%s_%d" % (tag, n)
        if kind == "depth":
            out.append(D.j_depth(t, 1.0 + n))
        elif kind == "img1":
            out.append(D.j_img(t, f + "_1.png"))
        elif kind == "img2":
            out.append(D.j_img(t, f + "_1.png", f + "_2.png"))
        elif kind == "laser":
            out.append(D.j_laser(t, f + "_l.png"))
        elif kind == "laser3":
            it = D.j_laser(t, f)
            del it["filename"]
            it["camera3"] = [{"epoch_timestamp": t, "filename": f + "_3.png"}]
            out.append(it)
    return out


def prefixed(items, dive):
    out = json.loads(json.dumps(items))
    for it in out:
        for c in ("camera1", "camera2", "camera3"):
            if c in it:
                it[c][0]["filename"] = dive + "/" + it[c][0]["filename"]
        if it["category"] == "laser" and "filename" in it:
            it["filename"] = dive + "/" + it["filename"]
    return out


def merge_case(c, rec):
    from auv_nav.parse import merge_json_files

    dives, origins = c
    with mc.scratch() as d:
        files, want = [], []
        for k, (spec, o) in enumerate(zip(dives, origins)):
            name = "2017071%d_000000_dive" % k
            p = d / "processed" / "y" / name / "nav"
            p.mkdir(parents=True)
            items = [D.j_origin(*o)] + dive_items(spec, "abc"[k])
            (p / "nav_standard.json").write_text(json.dumps(items))
            files.append(p / "nav_standard.json")
            if k == 0:
                want.append(items[0])
            want += prefixed(items[1:], name)
        before = mc.snapshot(d)
        try:
            got = merge_json_files(files)
            refused = False
        except SystemExit:
            refused = True
        after = mc.snapshot(d)
    rec.step(len(dives))
    rec.state(c)
    rec.out(refused)
    if before != after:
        rec.fail("merge-modifies-input", "%s" % (c,))
    if len(set(origins)) > 1:
        if not refused:
            rec.fail("origins-differ", "dives with origins %s were merged" % (origins,))
        return
    if refused:
        rec.fail("refused", "dives with equal origins were refused: %s" % (c,))
        return
    rec.out([g["epoch_timestamp"] for g in got])
    if got[0].get("category") != "origin":
        rec.fail("origin-first", "merged list starts with %s" % str(got[0])[:100])
    check_same(rec, want, got, c)


def merge_parse_case(c, rec):
    from auv_nav.parse import parse

    order, starts, lats = c
    names = ["20170714_0%d0000_d" % h for h in range(3)]
    with mc.scratch() as d:
        paths, want, exp_img = [], [], []
        for k in order:
            t = starts[k]
            raw, pro, _ = raw_dive(d, [t, t + 2], [t + 1], [t + 1], {"velocity", "orientation", "depth", "altitude", "usbl", "image"}, names[k], lats[k])
            paths.append((k, raw, pro))
        refused = False
        try:
            parse([str(r) for _, r, _ in paths], True, True)
        except SystemExit:
            refused = True
        merged = [p for p in (d / "processed" / "y").iterdir() if p.name.endswith("_merged")]
        for k, raw, pro in paths:
            own = D.nav_json(pro) if (pro / "nav" / "nav_standard.json").exists() else None
            if own is None:
                rec.fail("dive-not-parsed", "%s" % (c,))
                return
            check_order(rec, own, c)
            want += prefixed(own[1:], names[k])
        got = None
        if len(merged) == 1 and (merged[0] / "nav" / "nav_standard.json").exists():
            got = D.nav_json(merged[0])
        mname = [m.name for m in merged]
    rec.step(len(order))
    rec.state(c)
    rec.out((refused, mname))
    used = [lats[k] for k in order]
    if len(set(used)) > 1:
        if not refused or got is not None:
            rec.fail("origins-differ", "dives with origin latitudes %s were merged" % (used,))
        return
    if refused or got is None:
        rec.fail("no-merged-file", "%s: refused=%s merged folders %s" % (c, refused, mname))
        return
    ks = sorted(order)
    f = lambda n: n.replace("_", "")[:14]
    if mname != ["%s_%s_merged" % (f(names[ks[0]]), f(names[ks[-1]]))]:
        rec.fail("merged-name", "%s for dives %s" % (mname, [names[k] for k in order]))
    check_order(rec, got, c)
    check_same(rec, want, got[1:], c)


def body():
    chk = mc.new_check("C03", assumptions=["measurement times are positive (after 1970)", "order among records with equal time is not prescribed"])
    mc.silence_console()
    D.no_parse_plots()
    import auv_nav.parse  # noqa

    cases = []
    n = 4 if not chk.thorough else 5
    for k in range(0, n + 1):
        cases += list(itertools.product(STAMPS if k < 4 or chk.thorough else STAMPS[1:7], repeat=k))
    chk.explore("ordering", cases, order_case, "all record sequences up to length %d over %d timestamps" % (n, len(STAMPS)))

    sens = ["velocity", "orientation", "depth", "altitude", "usbl", "image"]
    cases = []
    base = 9600.0
    subsets = [frozenset(s) for r in range(0, 7) for s in itertools.combinations(sens, r) if "velocity" in s]
    for h in subsets:
        cases.append((tuple(sorted(h)), (base, base + 1), (base + 1,), (base + 2,)))
        cases.append((tuple(sorted(h)), (base + 1, base), (base + 2, base), (base, base + 3)))
    allset = tuple(sorted(sens))
    offs = [0, 1, 2] if not chk.thorough else [0, 1, 2, 3]
    for tt in itertools.product(offs, repeat=3):
        for ut in itertools.product(offs, repeat=2):
            for it in [(0,), (1, 3), (3, 1), (2, 0)]:
                cases.append((allset, tuple(base + x for x in tt), tuple(base + x for x in ut), tuple(base + x for x in it)))
    # missing data for a configured sensor
    for tt in [(), (base,)]:
        for ut in [(), (base,)]:
            for it in [(), (base + 1,)]:
                if it or True:
                    cases.append((tuple(x for x in allset if x != "image" or it), tt, ut, it))
    chk.explore("parse", cases, parse_case, "all sensor subsets; all short time orders through the real parse step")

    kinds = ["depth", "img1", "img2", "laser", "laser3"]
    specs = [()] + [((k, 100.0),) for k in kinds] + [((a, 100.0), (b, 100.0 + dt)) for a in kinds for b in kinds for dt in (1.0,)]
    o0, o1, o2 = (50.0, -1.0), (50.0, 1.0), (-50.0, -1.0)
    cases = []
    for s in specs:
        cases.append(((s,), (o0,)))
    small = [()] + [((k, t),) for k in kinds for t in (50.0, 100.0)]
    for a in specs:
        for b in small:
            cases.append(((a, b), (o0, o0)))
    for b, c2 in itertools.product(small[:6], repeat=2):
        cases.append(((specs[7], b, c2), (o0, o0, o0)))
    for os_ in itertools.product((o0, o1, o2), repeat=2):
        cases.append(((specs[1], specs[2]), os_))
    for os_ in itertools.product((o0, o1, o2), repeat=3):
        cases.append(((specs[1], specs[2], specs[3]), os_))
    for lat, lon in itertools.product((50.0, 50.0 + 1e-9, 50.0001, -50.0), (-1.0, -1.0 + 1e-9, -1.0004, 1.0)):
        cases.append(((specs[1], specs[2]), (o0, (lat, lon))))
        cases.append(((specs[1], specs[2], specs[3]), (o0, o0, (lat, lon))))
    chk.explore("merge", cases, merge_case, "all merges of up to three small dives over record kinds and origins")

    cases = []
    for r in (2, 3):
        for order in itertools.permutations(range(3), r):
            for starts in [(3600, 7200, 10800), (10800, 7200, 3600), (3600, 3601, 3602), (3600, 3600, 3600)]:
                cases.append((order, tuple(float(x) for x in starts), (50.0, 50.0, 50.0)))
            for lats in [(50.0, 51.0, 50.0), (50.0, 50.0, 51.0), (51.0, 50.0, 50.0)]:
                cases.append((order, (3600.0, 7200.0, 10800.0), lats))
    chk.explore("merge-command", cases, merge_parse_case, "parse with merging, all orders and overlaps of up to three dives")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
