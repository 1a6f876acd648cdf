"""C26: processing a time span of a dive uses the measurements of that span and no others."""
import itertools
import os
import sys
import time
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

N = 9  # seconds of data


def items(t0, shift):
    """A dive with every kind of record; `shift` moves all records relative to whole seconds."""
    out = [D.j_origin()]
    body = []
    for k in range(N):
        t = t0 + k + shift
        yaw = (340 + 7 * k) % 360
        body += [
            D.j_vel(t, 1.0 + 0.1 * k, 0.1 * (k % 3), 0.02 * k),
            D.j_ivel(t, 1.0 + k, 0.5 * k, 0.1),
            D.j_ori(t, 1.0 * k, -0.5 * k, yaw),
            D.j_depth(t, 10 + 0.5 * k),
            D.j_alt(t, 5.0 + 0.1 * k),
            D.j_usbl(t, 100 + 2 * k, 50 - k, 10 + 0.5 * k),
            D.j_img(t, "a/%07d.png" % k, "b/%07d.png" % k),
            D.j_laser(t, "c/%07d.png" % k),
            D.j_ori(t + 0.5, 1.0 * k + 0.5, -0.5 * k - 0.25, (yaw + 3.5) % 360),
            D.j_depth(t + 0.5, 10 + 0.5 * k + 0.3),
            D.j_alt(t + 0.5, 5.2 + 0.1 * k),
            D.j_usbl(t + 0.5, 101 + 2 * k, 50 - k, 10.2 + 0.5 * k),
            D.j_img(t + 0.5, "a/%07d.png" % (100 + k), "b/%07d.png" % (100 + k)),
            D.j_laser(t + 0.5, "c/%07d.png" % (100 + k)),
        ]
    # the first and the last record stand alone
    body += [D.j_usbl(t0 + shift - 0.25, 99.0, 50.0, 10.0), D.j_usbl(t0 + shift + N - 0.25, 130.0, 40.0, 14.0)]
    body.sort(key=lambda d: d["epoch_timestamp"])
    return out + body


def stamp(t):
    return time.strftime("%Y%m%d%H%M%S", time.gmtime(t))


def cfg(kind):
    if kind == "ekf":
        return D.nav_config(ekf=True, spp=False)
    if kind == "usbl":
        c = D.nav_config(usbl_filter=True)
        c["usbl_filter"]["max_auv_speed"] = 3
        return c
    return D.nav_config()


def tree(p):
    return {str(f.relative_to(p)): f.read_bytes() for f in sorted(p.rglob("*")) if f.is_file()} if p.is_dir() else {}


def renavs(pro):
    return sorted(p for p in pro.glob("json_renav_*") if p.is_dir())


def run(pro, s, e, force=False, long=False):
    """auv_nav process as called from the command line"""
    from auv_nav.auv_nav import main

    args = ["auv_nav", "process", str(pro)] + (["-F"] if force else [])
    args += (["--start" if long else "-s", s] if s else []) + (["--end" if long else "-e", e] if e else [])
    old = sys.argv
    sys.argv = args
    try:
        main()
        return None
    except mc.CaseTimeout:
        raise
    except (Exception, SystemExit) as ex:
        if not mc.from_repo(ex):
            raise
        return "%s: %s" % (type(ex).__name__, ex)
    finally:
        sys.argv = old


_REF = {}


def alone(kind, its):
    """Results of a dive that only ever contained these records, processed completely."""
    with mc.scratch() as d:
        raw, pro, conf = D.make_dive(d, its, mission=D.mission_yaml(cameras=3), config=cfg(kind))
        lo, hi = its[-1 if len(its) < 2 else 1]["epoch_timestamp"], its[-1]["epoch_timestamp"]
        err = run(pro, stamp(lo - 100), stamp(hi + 100))  # nothing is outside
        r = renavs(pro)
        return err, (tree(r[0]) if r else {})


def span(its, t0, s, e):
    lo = its[1]["epoch_timestamp"] if s is None else t0 + s
    hi = its[-1]["epoch_timestamp"] if e is None else t0 + e
    return lo, hi, its[:1] + [i for i in its[1:] if lo <= i["epoch_timestamp"] <= hi]


def compare(rec, what, got, want):
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            a = (got.get(k) or b"").decode().splitlines()
            b = (want.get(k) or b"").decode().splitlines()
            extra = [x for x in a if x not in b][:1]
            miss = [x for x in b if x not in a][:1]
            rec.fail("span-differs:" + os.path.basename(k), "%s: %s differs from processing only the span; unexpected %s, missing %s" % (
                what, k, [x[:90] for x in extra] if k in got else "file missing", [x[:90] for x in miss] if k in want else "extra file"))
            return False
    return True


def one(rec, kind, t0, shift, pro, its, s, e, what):
    lo, hi, sub = span(its, t0, s, e)
    before = set(renavs(pro))
    err = run(pro, "" if s is None else stamp(t0 + s), "" if e is None else stamp(t0 + e), long=bool(s) and s % 2 == 1)
    key = (kind, t0, shift, lo, hi)
    if key not in _REF:
        _REF[key] = alone(kind, sub)
    werr, want = _REF[key]
    rec.state((kind, t0, shift, s, e))
    name = "json_renav_%s_%s_%s_%s" % (stamp(lo)[:8], stamp(lo)[8:], stamp(hi)[:8], stamp(hi)[8:])
    # a span that holds several seconds of data must work; shorter ones may be refused, but then so is the dive cut down to it
    if werr is not None and len(sub) > 1 and sub[-1]["epoch_timestamp"] - sub[1]["epoch_timestamp"] >= 3:
        rec.fail("process-fails", "%s: a dive of %.1f s is not processed: %s" % (what, sub[-1]["epoch_timestamp"] - sub[1]["epoch_timestamp"], werr))
        return None
    if (err is None) != (werr is None):
        rec.fail("span-outcome", "%s: process says %s, processing only the records of the span %s" % (what, err, werr))
        return None
    if err is not None:
        rec.count("refused spans")
        return None
    if not (pro / name).is_dir():
        rec.fail("span-folder", "%s: results are in %s, expected %s" % (what, [p.name for p in set(renavs(pro)) - before], name))
        return None
    rec.count("compared spans")
    rec.out(want)
    if not compare(rec, what, tree(pro / name), want):
        return None
    return pro / name


def case(c, rec):
    kind, t0, shift, tz, spans = c
    its = items(t0, shift)
    old = os.environ.get("TZ")
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        for s, e in spans:
            with mc.scratch() as d:
                raw, pro, conf = D.make_dive(d, its, mission=D.mission_yaml(cameras=3), config=cfg(kind))
                one(rec, kind, t0, shift, pro, its, s, e, "%s, records at +%.2f s, span %s..%s, TZ=%s" % (kind, shift, s, e, tz))
                rec.step()
            if rec.fails:
                return
    finally:
        if tz:
            os.environ.pop("TZ", None)
            if old is not None:
                os.environ["TZ"] = old
            time.tzset()


def history(c, rec):
    """Several spans of one dive, one after the other: each is as if processed alone and the others stay."""
    kind, spans = c
    its = items(D.T0, 0.0)
    with mc.scratch() as d:
        raw, pro, conf = D.make_dive(d, its, mission=D.mission_yaml(cameras=3), config=cfg(kind))
        done = {}
        for s, e in spans:
            p = one(rec, kind, D.T0, 0.0, pro, its, s, e, "%s, span %s..%s after %s" % (kind, s, e, [q.name for q in done]))
            if rec.fails:
                return
            for q, t in done.items():
                if tree(q) != t:
                    rec.fail("other-span-changed", "processing span %s..%s changes %s" % (s, e, q.name))
                    return
            if p is not None:
                done[p] = tree(p)
            rec.step()
        for p, t in done.items():
            parts = p.name.split("_")
            err = run(pro, parts[2] + parts[3], parts[4] + parts[5])
            if err is None or tree(p) != t:
                rec.fail("span-overwritten", "processing %s again without force: %s" % (p.name, "accepted" if err is None else "results changed"))
                return


def body():
    mc.silence_console()
    D.stub_version()
    chk = mc.new_check(
        "C26",
        assumptions=[
            "spans too short to be processed are compared by outcome only: the dive cut down to them must be refused as well",
            "plots are off",
        ],
    )
    q = not chk.thorough
    ends = [None] + list(range(-1, N + 1))
    pairs = [(s, e) for s in ends for e in ends if s is None or e is None or s < e]
    grouped = lambda ps, n: [tuple(ps[i:i + n]) for i in range(0, len(ps), n)]
    chk.explore("spans", [("dr", D.T0, sh, None, g) for sh in ((0.0, 0.25) if q else (0.0, 0.25, 0.5, 0.75)) for g in grouped(pairs, 8)], case, "every pair of first and last second, given or left out")
    sel = [(s, e) for s, e in pairs if (e is None or e >= 4) and (s is None or s <= 4)]
    chk.explore("filters", [(k, D.T0, sh, None, g) for k in ("ekf", "usbl") for sh in ((0.0,) if q else (0.0, 0.25)) for g in grouped(sel if not q else sel[::2], 4)], case, "the same with the Kalman filter and the fix filter")
    # new year, leap day, and host time zones incl. one in summer time
    t0s = [1483228800.0 - 4, 1456704000.0 - 5]
    tz = [None, "Asia/Tokyo", "America/New_York", "Europe/London"]
    some = [(None, None), (0, None), (None, 6), (1, 7), (2, 8)]
    chk.explore("dates", [("dr", t0, 0.0, z, tuple(some)) for t0 in t0s + [D.T0] for z in tz], case, "midnights at new year and leap day x host time zone")
    hs = [(None, None), (0, 4), (2, 7), (None, 6), (3, None)]
    chk.explore("histories", [(k, h) for k in ("dr", "ekf") for h in itertools.permutations(hs, 2 if q else 3)], history, "all ordered lists of spans of one dive, then each repeated without force")
    return chk.finish()


mc.main(body)
