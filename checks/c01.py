"""C01: what `auv_nav process` writes does not depend on how its threads are scheduled."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import sched

CONFIGS = {
    # name: (cameras, config kwargs, payload, inertial velocities)
    "dr": (1, dict(), False),
    "dr+inertial": (3, dict(), True),
    "ekf+spp": (3, dict(ekf=True, spp=True), True),
    "ekf": (2, dict(ekf=True, smoother=False), False),
}


def items(cameras, inertial):
    T = D.T0
    out = [D.j_origin()]
    body = []
    for k in range(4):
        t = T + k
        yaw = (352 + 6 * k) % 360
        body += [
            D.j_vel(t, 1.0 + 0.1 * k, 0.1, 0.02 * k),
            D.j_ori(t + 0.1, 1.0 * k, -0.5 * k, yaw),
            D.j_depth(t - 0.2, 10 + k),
            D.j_alt(t - 0.1, 5.0 + 0.1 * k),
            D.j_usbl(t + 0.4, 100 + k, 50 - k, 10 + k),
        ]
        if inertial:
            body.append(D.j_ivel(t + 0.15, 1 + k, 0.5 * k, 0.1))
        body.append(D.j_img(t + 0.3, "a/%07d.png" % k, "b/%07d.png" % k if cameras > 1 else None))
        if cameras > 2:
            body.append(D.j_laser(t + 0.35, "c/%07d.png" % k))
    body.sort(key=lambda d: d["epoch_timestamp"])
    return out + body


def execute(cfg, policy, dev, trace=()):
    from auv_nav.process import process

    cameras, kw, inertial = CONFIGS[cfg]
    with mc.scratch() as d:
        raw, pro, conf = D.make_dive(
            d, items(cameras, inertial), mission=D.mission_yaml(cameras=cameras), config=D.nav_config(**kw)
        )
        s = sched.Sched(dev, policy, path_filter=str(pro), trace_files=trace)
        err = None
        try:
            s.run(lambda: process(str(pro), False, "", ""))
        except (sched.Divergence, mc.CaseTimeout):
            raise
        except (Exception, SystemExit) as e:
            if not mc.from_repo(e) and not isinstance(e, sched.Deadlock):
                raise
            err = "%s: %s" % (type(e).__name__, e)
        out = {}
        for p in sorted(pro.rglob("*")):
            rel = p.relative_to(pro)
            if p.is_file() and rel.parts[0] != "log":
                out[str(rel)] = p.read_text()
        terr = [(t.name.split(" ")[-1], type(t.exc).__name__) for t in s.threads if t.exc is not None]
        terr += [(n.split(" ")[-1], "killed at exit") for n in s.abandoned]
    return s, out, err, terr


_REF = {}


def reference(cfg):
    if cfg not in _REF:
        _REF[cfg] = execute(cfg, "eager", {})
    return _REF[cfg]


def diff(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            la = (a.get(k) or "").splitlines()
            lb = (b.get(k) or "").splitlines()
            for i in range(max(len(la), len(lb))):
                x = la[i] if i < len(la) else "<absent>"
                y = lb[i] if i < len(lb) else "<absent>"
                if x != y:
                    return os.path.basename(k), "line %d: %s | %s" % (i + 1, x[:120], y[:120])
    return None, None


def judge(cfg, s, out, err, terr, rec, dev):
    rec.step(len(s.points))
    for p in s.points:
        rec.state((cfg, p[0], p[3], p[4]))
    rec.out(out)
    ref = reference(cfg)
    who = "" if not dev else " deviations=%s at %s" % (dev, [s.points[i][4] for i in dev if i < len(s.points)])
    if s.log:
        rec.fail("deadlock", "%s%s" % (s.log, who))
    elif err:
        rec.fail("command-fails", "process() raised %s under this schedule%s" % (err, who))
    elif terr:
        rec.fail("writer-fails", "a writer thread died: %s%s" % (terr, who))
    else:
        name, d = diff(ref[1], out)
        if name:
            rec.fail("output-differs:" + name, "%s: %s%s" % (name, d, who))


def case(c, rec):
    cfg, policy, dev, trace, depth = c
    trace = ("csv_tools.py",) if trace else ()
    devd = dict(dev)
    try:
        s, out, err, terr = execute(cfg, policy, devd, trace)
    except sched.Divergence as e:
        raise mc.HarnessError("replay divergence: %s" % e)
    judge(cfg, s, out, err, terr, rec, devd)
    rec.count("schedules")
    if depth > 1 and not rec.fails:
        last = max(devd) if devd else -1
        for i, t in sched.alternatives(s.points, last + 1):
            d2 = dict(devd)
            d2[i] = t
            s2, o2, e2, t2 = execute(cfg, policy, d2, trace)
            judge(cfg, s2, o2, e2, t2, rec, d2)
            rec.count("schedules")
            if rec.fails:
                return


def body():
    chk = mc.new_check(
        "C01",
        assumptions=[
            "scheduling points: thread start/join/end, lock operations, every audited file-system call; "
            "code between two points is treated as atomic (in the line-level group every source line of the CSV writer is a point)",
            "HTML plots are off (they are not schedule-relevant data products and contain random element ids)",
        ],
    )
    mc.silence_console()
    import auv_nav.process  # noqa

    base = []
    for cfg in CONFIGS:
        for policy in ("eager", "lazy"):
            base.append((cfg, policy, (), False, 1))
    chk.explore("default-schedules", base, case, "deviation bound 0, two default policies, four configurations")
    for cfg in CONFIGS:
        if not chk.thorough and cfg == "ekf":
            continue
        for policy in ("eager", "lazy"):
            s = execute(cfg, policy, {})[0]
            alts = sched.alternatives(s.points)
            chk.explore(
                "bound1:%s:%s" % (cfg, policy),
                [(cfg, policy, ((i, t),), False, 1) for i, t in alts],
                case,
                "every single departure from the %s policy (%d points)" % (policy, len(s.points)),
            )
    for cfg in ["dr"] if not chk.thorough else ["dr", "dr+inertial", "ekf+spp"]:
        s = execute(cfg, "eager", {})[0]
        alts = sched.alternatives(s.points)
        if not chk.thorough:
            continue
        chk.explore(
            "bound2:%s:eager" % cfg,
            [(cfg, "eager", ((i, t),), False, 2) for i, t in alts],
            case,
            "every pair of departures from the eager policy",
        )
    # line-level points inside the CSV writers
    cfg = "dr"
    for policy in ("eager",) if not chk.thorough else ("eager", "lazy"):
        s = execute(cfg, policy, {}, ("csv_tools.py",))[0]
        alts = sched.alternatives(s.points)
        chk.explore(
            "lines:%s:%s" % (cfg, policy),
            [(cfg, policy, ((i, t),), True, 1) for i, t in alts],
            case,
            "single departure at every source line of the CSV writers (%d points)" % len(s.points),
        )
    chk.finish()


if __name__ == "__main__":
    mc.main(body)
