"""C02: parsing a dive depends neither on worker scheduling nor on earlier parses in the process."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import sched

TRACE = ("parse_phins.py", "parse_acfr_images.py", "parse_biocam_images.py", "parse_ntnu_stereo.py", "parse_usbl_dump.py", "parse_interlacer.py")


def _img(fmt, k, cam, sec, ms, day="20170714"):
    if fmt == "acfr_standard":
        return "image/PR_%s_0240%02d_%03d_%sC16.png" % (day, sec, ms, "LR"[cam])
    if fmt in ("biocam", "biocam4000_15c"):
        return "image/%sC_strobe/%s_0240%02d_%06d_%s_0240%02d_%06d_pcoc.tif" % ("LR"[cam], day, sec, ms * 1000, day, sec, ms * 1000)
    if fmt == "ntnu_stereo":
        return "image/%s-0240%02d.%04d%s.jpg" % (day[2:], sec, ms, "LR"[cam])
    raise mc.HarnessError(fmt)


# dive -> (bursts, image (sec, ms, second camera lag ms or None), usbl count, tide)
DIVES = {
    "A": (2, [(1, 100, 0), (2, 100, 3), (3, 250, 0)], 2, True),
    "B": (3, [(7, 400, 2)], 1, False),
    "C": (1, [(4, 0, 0), (5, 500, None), (6, 0, 1), (7, 900, 0)], 3, True),
}


def build(root, dive, fmt, name=None):
    n, imgs, nu, tide = DIVES[dive]
    k0 = ord(dive) - ord("A")
    ph = []
    for k in range(n):
        ph += D.phins_burst(9600 + 3 * k0 + k, vel=(1.0 + k0 + k, 0.1 * k0, 0.05), yaw=(350 + 7 * k) % 360, depth=20 + k + 5 * k0, alt=5 + k)
    us = [D.usbl_line("2017-07-14", "02:40:%02d" % (k + 2 * k0), "AUV", 50.001 + 1e-4 * k, -1.001 - 1e-4 * k0, 20 + k, 30, 45, 50) for k in range(nu)]
    im = []
    for j, (s, ms, lag) in enumerate(imgs):
        im.append(_img(fmt, j, 0, s, ms))
        if lag is not None:
            im.append(_img(fmt, j, 1, s, ms + lag))
    mission = D.raw_mission(tide=tide, img_fmt=fmt)
    tf = {"t.csv": ["2017-07-14T02:%02d:00Z,%.1f,0,0" % (m, 1.0 + 0.1 * m) for m in (39, 40, 41, 42)]} if tide else None
    raw, pro, _ = D.make_raw(root, name or "20170714_02400%d_%s" % (k0, dive), mission, phins_lines=ph, usbl_lines=us, images=im, tide_files=tf)
    return raw, pro


def result(pro, root):
    # the order of items with equal time is part of the result
    return json.loads((pro / "nav" / "nav_standard.json").read_text().replace(str(root), "<root>"))


def pools(cls):
    import multiprocessing.pool

    import auv_nav.parse as P

    old = getattr(P, "ThreadPool", None), multiprocessing.pool.ThreadPool
    if old[0] is not None:
        P.ThreadPool = cls
    multiprocessing.pool.ThreadPool = cls
    return old


def unpool(old):
    import multiprocessing.pool

    import auv_nav.parse as P

    if old[0] is not None:
        P.ThreadPool = old[0]
    multiprocessing.pool.ThreadPool = old[1]


# ------------------------------------------------------------------ schedules
def execute(dive, fmt, policy, dev, trace=False):
    from auv_nav.parse import parse_single

    with mc.scratch() as d:
        raw, pro = build(d, dive, fmt)
        s = sched.Sched(dev, policy, path_filter=str(d), trace_files=TRACE if trace else ())
        err = None
        old = pools(sched.ControlledPool)
        try:
            s.run(lambda: parse_single(str(raw), True))
        except (sched.Divergence, mc.CaseTimeout):
            raise
        except (Exception, SystemExit) as e:
            if not mc.from_repo(e) and not isinstance(e, sched.Deadlock):
                raise
            err = "%s: %s" % (type(e).__name__, e)
        finally:
            unpool(old)
        out = result(pro, d) if err is None and (pro / "nav" / "nav_standard.json").exists() else None
    return s, out, err


def plain(dive, fmt):
    """Fresh forked process, ordinary pool replaced by run-to-completion."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            s, out, err = execute(dive, fmt, "eager", {})
            data = json.dumps([out, err]).encode()
        except BaseException as e:
            data = json.dumps([None, "harness " + repr(e)]).encode()
        with os.fdopen(w, "wb") as f:
            f.write(data)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out, err = json.loads(f.read())
    os.waitpid(pid, 0)
    return out, err


REF = {}


def first_diff(a, b):
    if a is None or b is None:
        return "missing result"
    if len(a) != len(b):
        return "%d items instead of %d" % (len(b), len(a))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return "item %d: %s | %s" % (i, str(x)[:160], str(y)[:160])


def sched_case(c, rec):
    dive, fmt, policy, dev, trace, depth = c
    devd = dict(dev)

    def go(dd):
        s, out, err = execute(dive, fmt, policy, dd, trace)
        rec.step(len(s.points))
        rec.count("schedules")
        for p in s.points:
            rec.state((dive, fmt, p[0], p[3], p[4]))
        rec.out(out)
        at = [s.points[i][4] for i in dd if i < len(s.points)]
        if s.log:
            rec.fail("deadlock", "%s at %s" % (s.log, at))
        elif err:
            rec.fail("command-fails", "%s under deviations %s at %s" % (err, dd, at))
        else:
            d = first_diff(REF[dive, fmt], out)
            if d:
                rec.fail("schedule-dependent", "%s under deviations %s at %s" % (d, dd, at))
        return s

    s = go(devd)
    if depth > 1 and not rec.fails:
        for i, t in sched.alternatives(s.points, (max(devd) if devd else -1) + 1):
            d2 = dict(devd)
            d2[i] = t
            go(d2)
            if rec.fails:
                return


# ------------------------------------------------------------------ histories
def hist_case(c, rec):
    """c = sequence of (dive, fmt, entry); every parse must equal the fresh one."""
    from auv_nav.parse import parse, parse_single

    with mc.scratch() as d:
        old = pools(sched.ControlledPool)
        try:
            trees = {}
            for k, (dive, fmt, entry) in enumerate(c):
                root = d / ("%s_%s" % (dive, fmt))
                if (dive, fmt) not in trees:
                    trees[dive, fmt] = (root,) + build(root, dive, fmt)
                root, raw, pro = trees[dive, fmt]
                if entry == "single":
                    parse_single(str(raw), True)
                else:
                    parse([str(raw)], True, False)
                out = result(pro, root)
                rec.step()
                rec.state((tuple(c[: k + 1])))
                rec.out(out)
                df = first_diff(REF[dive, fmt], out)
                if df:
                    rec.fail("history-dependent", "parse %d of %s: %s" % (k + 1, list(c), df))
                    return
        finally:
            unpool(old)


def batch_case(c, rec):
    """One command line naming several dives, optionally merged."""
    from auv_nav.parse import parse

    dives, fmt = c
    with mc.scratch() as d:
        old = pools(sched.ControlledPool)
        try:
            info = [(x,) + build(d, x, fmt) for x in dives]
            parse([str(raw) for _, raw, _ in info], True, False)
            for x, raw, pro in info:
                out = result(pro, d)
                rec.step()
                rec.state((dives, fmt, x))
                rec.out(out)
                df = first_diff(REF[x, fmt], out)
                if df:
                    rec.fail("batch-dependent", "dive %s parsed in batch %s: %s" % (x, dives, df))
        finally:
            unpool(old)


def body():
    chk = mc.new_check(
        "C02",
        assumptions=[
            "the parser pool is replaced by a controlled pool with the same interface; one scheduled thread per task",
            "scheduling points: task start/end/join, locks, file-system calls, and (line groups) every source line of the parser modules",
            "html plots of the parse step are not generated",
        ],
    )
    mc.silence_console()
    D.no_parse_plots()
    fmts = ["acfr_standard", "biocam", "ntnu_stereo"]
    for f in fmts:
        for x in DIVES:
            if f == "biocam" and len(DIVES[x][1]) < 2:
                continue  # clock fit needs two images
            out, err = plain(x, f)
            if err and err.startswith("harness"):
                raise mc.HarnessError(err)
            REF[x, f] = out
            if out is None:
                chk.fails.append(("fresh", (x, f), "command-fails", err))
    fm = {f: [x for x in DIVES if REF.get((x, f)) is not None] for f in fmts}

    for f in fmts:
        x = "A" if "A" in fm[f] else None
        if not x:
            continue
        base = [(x, f, p, (), False, 1) for p in ("eager", "lazy")]
        chk.explore("default:" + f, base, sched_case, "both default policies", parallel=False)
        for policy in ("eager", "lazy"):
            s = execute(x, f, policy, {})[0]
            chk.explore(
                "bound1:%s:%s" % (f, policy),
                [(x, f, policy, ((i, t),), False, 2 if chk.thorough else 1) for i, t in sched.alternatives(s.points)],
                sched_case,
                "every single%s departure from the %s policy (%d points)" % ("/double" if chk.thorough else "", policy, len(s.points)),
            )
    for f in fmts if chk.thorough else fmts[:1]:
        x = "A"
        s = execute(x, f, "eager", {}, True)[0]
        # a worker may be preempted at any of its source lines
        alts = sched.alternatives(s.points)
        if not chk.thorough:
            # leave out alternatives that merely swap among several waiting workers at one point
            seen = set()
            keep = []
            for i, t in alts:
                tag = (s.points[i][0], s.points[i][4], t)
                if tag in seen:
                    continue
                seen.add(tag)
                keep.append((i, t))
            alts = keep
        chk.explore(
            "lines:" + f,
            [(x, f, "eager", ((i, t),), True, 1) for i, t in alts],
            sched_case,
            "departure at source lines of the parser modules (%d points)" % len(s.points),
        )

    depth = 3
    cases = []
    for f in fmts:
        for n in range(1, depth + 1):
            cases += [tuple((x, f, "single") for x in q) for q in itertools.product(fm[f], repeat=n)]
    mixed = [(x, f) for f in fmts for x in fm[f]]
    for q in itertools.product(mixed, repeat=2 if not chk.thorough else 3):
        cases.append(tuple((x, f, "list") for x, f in q))
    chk.explore("histories", cases, hist_case, "all parse sequences up to length %d" % depth)
    cases = []
    for f in fmts:
        for n in (2, 3):
            cases += [(q, f) for q in itertools.permutations(fm[f], n)]
    chk.explore("batches", cases, batch_case, "all orders of dives on one command line")
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
