"""C12: results are only overwritten when forced; raw data and configuration never change."""
import contextlib
import hashlib
import logging
import os
import re
import shutil
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

A, B = "y/20170714_024000_a", "y/20170714_030000_b"
MERGED = "y/20170714024000_20170714030000_merged"
SCRATCH = re.compile(rb'[^\s",]*/vf_\w+/(?:w/|f/|)ds')
CACHE = None  # histories whose state is already on disk


# ------------------------------------------------------------------ the data set
def raw_files(version, sod, usbl=True):
    """(mission, phins lines, usbl lines, images) of one version of the raw data."""
    m = D.raw_mission("20170714", images=True, usbl=usbl, lat=50.0, lon=-1.0)
    m["orientation"]["std_offset"] = 0.0
    ph, ul, im = [], [], []
    for k in range(6):
        s = sod + k
        ph += D.phins_burst(s, vel=(1.0 + 0.1 * k + 0.5 * version, 0.1, 0.05), yaw=10.0 + k, depth=20.0 + k + 7 * version, alt=5.0 + k)
        ul.append(D.usbl_line("2017-07-14", "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60), "AUV", 50.001, -1.001 + 1e-5 * k, 30.0 + k, 10.0, 20.0, 33.0))
        for lab in ("LC", "RC"):
            im.append("image/PR_20170714_%02d%02d%02d_500_%s16.tif" % (s // 3600, s // 60 % 60, s % 60, lab))
    return m, ph, ul, im


def config(version):
    import yaml

    c = D.nav_config(ekf=version == 1, csv=version != 2, threshold=3.0 + version)
    c["std"]["speed"]["offset"] = c["std"]["speed"]["offset_x"] = 0.1 + 0.2 * version
    return yaml.safe_dump(c)


def base(root, dives):
    for n, sod in dives:
        m, ph, ul, im = raw_files(0, sod)
        raw, pro, cfg = D.make_raw(root, name=Path(n).name, mission=m, phins_lines=ph, usbl_lines=ul, images=im)
        shutil.rmtree(pro, ignore_errors=True)
        cfg.mkdir(parents=True, exist_ok=True)
        (cfg / "auv_nav.yaml").write_text(config(0))


@contextlib.contextmanager
def argv(args):
    old = sys.argv
    sys.argv = args
    root = logging.getLogger()
    keep, lvl = list(root.handlers), root.level
    try:
        yield
    finally:
        sys.argv = old
        for h in list(root.handlers):
            if h not in keep:
                root.removeHandler(h)
                h.close()
        root.setLevel(lvl)


def cli(*args):
    from auv_nav.auv_nav import main

    with argv(["auv_nav"] + [str(a) for a in args]):
        try:
            main()
            return 0
        except SystemExit as e:
            return e.code if isinstance(e.code, int) else 1


# ------------------------------------------------------------------ operations
RANGE = ("20170714024001", "20170714024004")


def op_args(root, op):
    """Command line of a step (without the force flag), and the folders it may write."""
    name = op.replace(" -F", "")
    ra, rb, pa = root / "raw" / A, root / "raw" / B, root / "processed" / A
    if name == "parse":
        return ["parse", ra], ["processed/%s/nav" % A]
    if name == "merge":
        return ["parse", "--merge", ra, rb], ["processed/%s/nav" % A, "processed/%s/nav" % B, "processed/" + MERGED]
    if name == "process":
        return ["process", pa], ["processed/%s/json_renav_20170714_024000_20170714_02400" % A]
    if name == "process range":
        return ["process", "-s", RANGE[0], "-e", RANGE[1], pa], ["processed/%s/json_renav_%s_%s_%s_%s" % (A, RANGE[0][:8], RANGE[0][8:], RANGE[1][:8], RANGE[1][8:])]
    if name == "to acfr":
        return ["convert", "oplab_to_acfr", ra, root / "processed" / A / "acfr"], ["processed/%s/acfr" % A]
    src = root / "acfr_in"
    out = root / "processed" / A / "acfr_csv"
    if name == "from acfr vehicle":
        return ["convert", "acfr_to_oplab", "--vehicle-pose", src / "vehicle_pose_est.data", "-o", out], ["processed/%s/acfr_csv/auv_acfr_centre" % A]
    if name == "from acfr stereo":
        return ["convert", "acfr_to_oplab", "--stereo-pose", src / "stereo_pose_est.data", "-o", out], ["processed/%s/acfr_csv/auv_acfr_LC" % A, "processed/%s/acfr_csv/auv_acfr_RC" % A]
    raise mc.HarnessError(op)


def run_step(root, op):
    args, _ = op_args(root, op)
    k = 2 if args[0] == "convert" else 1
    return cli(*(args[:k] + (["-F"] if op.endswith(" -F") else []) + args[k:]))


def is_edit(op):
    return op in ("edit raw", "edit config", "annotate", "edit acfr")


def edit(root, op):
    if op == "edit raw":
        mark = root / ".rawversion"
        v = 1 - int(mark.read_text()) if mark.exists() else 1
        mark.write_text(str(v))
        m, ph, ul, im = raw_files(v, 9600)
        f = root / "raw" / A / "nav" / "phins" / m["velocity"]["filename"]
        f.write_text("\r\n".join(ph) + "\r\n")
    elif op == "edit config":
        f = root / "configuration" / A / "auv_nav.yaml"
        vs = [config(v) for v in range(3)]
        f.write_text(vs[(vs.index(f.read_text()) + 1) % 3])
    elif op == "edit acfr":
        for f in sorted((root / "acfr_in").iterdir()):
            f.write_text(f.read_text().replace("51.5", "61.5") if "51.5" in f.read_text() else f.read_text().replace("61.5", "51.5"))
    elif op == "annotate":
        # a person keeps notes in, or corrects, some of the results
        for f in sorted((root / "processed").rglob("*")):
            if f.is_file() and "log" not in f.parts and f.suffix in (".csv", ".data", ".yaml") and "edited by hand" not in f.read_text():
                f.write_text(f.read_text() + "# edited by hand\n")


def results(root):
    """Everything but the time-stamped logs."""
    out = {}
    for p in sorted(root.rglob("*")):
        rel = str(p.relative_to(root))
        if p.is_file() and "/log/" not in rel:
            # some results name their input by absolute path; states move between scratch folders
            out[rel] = hashlib.sha1(SCRATCH.sub(b"ROOT", p.read_bytes())).hexdigest()
    return out


def inside(path, targets):
    return any(path.startswith(t) for t in targets)


# ------------------------------------------------------------------ a checked transition
def load_state(hist, basefn, dest):
    """Copy of the state after `hist`, replaying what is not cached."""
    if CACHE is not None:
        p = Path(CACHE) / key(hist)
        if p.exists():
            shutil.copytree(p, dest)
            return
    if not hist:
        dest.mkdir()
        basefn(dest)
        return
    load_state(hist[:-1], basefn, dest)
    if is_edit(hist[-1]):
        edit(dest, hist[-1])
    else:
        run_step(dest, hist[-1])


def key(hist):
    return mc.digest(hist).hex()[:20] if hist else "base"


def make_case(basefn):
    def case(hist, rec):
        hist = tuple(hist)
        with mc.scratch() as tmp:
            work = tmp / "w" / "ds"
            work.parent.mkdir()
            load_state(hist[:-1], basefn, work)
            op = hist[-1]
            before = results(work)
            if is_edit(op):
                edit(work, op)
            else:
                transition(work, tmp, hist, op, before, rec)
            after = results(work)
            rec.step()
            h = mc.digest(sorted(after.items())).hex()
            rec.state(h)
            rec.out(sorted(after.items()))
            if CACHE is not None:
                dst = Path(CACHE) / key(hist)
                if not dst.exists():
                    t = Path(CACHE) / (".%s.%d" % (key(hist), os.getpid()))
                    shutil.copytree(work, t)
                    (Path(CACHE) / (key(hist) + ".digest")).write_text(h)
                    t.rename(dst)

    return case


def transition(work, tmp, hist, op, before, rec):
    forced = op.endswith(" -F")
    _, targets = op_args(work, op)
    # what a first run in this situation gives
    fresh = tmp / "f" / "ds"
    fresh.parent.mkdir()
    shutil.copytree(work, fresh)
    for k in before:
        if inside(k, targets):
            (fresh / k).unlink()
    for t in targets:
        for d in (fresh / t).parent.glob((fresh / t).name + "*"):
            if d.is_dir():
                shutil.rmtree(d)
    run_step(fresh, op.replace(" -F", "") + " -F")
    want = {k: v for k, v in results(fresh).items() if inside(k, targets)}
    rec.step()

    run_step(work, op)
    after = results(work)
    story = " > ".join(hist)
    for k in sorted(set(before) | set(after)):
        b, a = before.get(k), after.get(k)
        if a == b:
            continue
        if k.startswith("raw/") or k.startswith("acfr_in/"):
            rec.fail("input-changed", "%s: the input file %s was %s" % (story, k, "created" if b is None else "deleted" if a is None else "modified"))
        elif k.startswith("configuration/") and b is not None:
            rec.fail("config-changed", "%s: the existing configuration %s was %s" % (story, k, "deleted" if a is None else "modified"))
        elif b is not None and not forced:
            rec.fail("overwritten", "%s: %s existed and was %s although overwriting was not requested" % (story, k, "deleted" if a is None else "rewritten"))
        elif b is not None and not inside(k, targets):
            rec.fail("overwritten-other", "%s: %s, a result of another step, was %s" % (story, k, "deleted" if a is None else "rewritten"))
    if not want and ready(hist[:-1], op):
        rec.fail("nothing-produced", "%s: the last step wrote no results" % story)
    for k, v in want.items():
        if forced or k not in before:
            have = any(inside(x, [t]) for x in before for t in targets if inside(k, [t]))
            if not forced and have:
                continue  # the step found results of its own and left them alone
            if op == "merge" and k in after and any(inside(x, targets) for x in before):
                continue  # merges the existing parses, which may be of other raw data
            if after.get(k) != v:
                rec.fail("not-produced" if k not in after else "not-fresh", "%s: %s %s" % (story, k, "was not written" if k not in after else "is not what a first run writes"))


def ready(hist, op):
    """Does the history give the step what it needs?"""
    done = {h.replace(" -F", "") for h in hist}
    if op.startswith("to acfr"):
        return False
    return "parse" in done or "merge" in done if op.startswith("process") else True


def explore(ck, group, basefn, ops, depth, start=()):
    """Breadth-first search over histories, one per distinct state."""
    global CACHE
    case = make_case(basefn)
    if ck.args.replay:
        ck.explore(group, [], case)
        return
    with mc.scratch("vfc12_") as cache:
        CACHE = str(cache)
        seen, frontier = set(), [start]
        if start:
            with mc.scratch() as t:
                load_state(start, basefn, t / "ds")
                shutil.copytree(t / "ds", cache / key(start))
        total = 0
        for d in range(1, depth + 1):
            cases = [h + (o,) for h in frontier for o in ops]
            ck.explore("%s, step %d" % (group, d), cases, case, note="every step from each of %d distinct states" % len(frontier))
            nxt = []
            for c in cases:
                f = cache / (key(c) + ".digest")
                if not f.exists():
                    continue
                h = f.read_text()
                if h not in seen:
                    seen.add(h)
                    nxt.append(c)
            frontier = nxt
            total += len(cases)
        CACHE = None


def base_one(root):
    base(root, [(A, 9600)])


def base_nocsv(root):
    base_one(root)
    (root / "configuration" / A / "auv_nav.yaml").write_text(config(2))


def base_two(root):
    base(root, [(A, 9600), (B, 10800)])


def base_acfr(root):
    base_one(root)
    (root / "configuration" / A / "auv_nav.yaml").write_text(config(1))
    src = root / "acfr_in"
    src.mkdir()
    rows = ["%d \t%.1f \t50.0 \t-1.0 \t%.1f \t2.0 \t51.5 \t0.1 \t0.2 \t0.3" % (k, 1e9 + k, 10.0 * k) for k in range(3)]
    hdr = "%\n" * 44 + "ORIGIN_LATITUDE 50.0\nORIGIN_LONGITUDE -1.0\n"
    (src / "vehicle_pose_est.data").write_text(hdr + "".join(r + " \t4.0\n" for r in rows))
    hdr = "%\n" * 55 + "ORIGIN_LATITUDE 50.0\nORIGIN_LONGITUDE -1.0\n"
    (src / "stereo_pose_est.data").write_text(hdr + "".join(r + " \tl%d.png \tr%d.png \t4.0 \t0 \t0\n" % (k, k) for k, r in enumerate(rows)))


def body():
    ck = mc.new_check("C12", assumptions=["log folders, whose names carry the time of the run, are not results", "a file left by an earlier run under another configuration may stay next to the results of a forced run"])
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    import auv_nav.auv_nav  # noqa: F401
    import auv_nav.process  # noqa: F401

    T = ck.thorough
    step = ["parse", "parse -F", "process", "process -F"]
    rng = ["process range", "process range -F"]
    explore(ck, "parse/process", base_one, step + ["edit raw", "edit config", "annotate"] + (rng if T else []), 7 if T else 5)
    explore(ck, "two time ranges", base_one, ["process", "process -F"] + rng + ["edit config", "annotate"], 6 if T else 4, ("parse",))
    explore(ck, "csv output off", base_nocsv, ["process", "process -F", "edit raw", "parse -F", "edit config", "annotate"], 5 if T else 3, ("parse",))
    explore(ck, "merging", base_two, ["merge", "merge -F", "parse", "parse -F", "edit raw", "annotate"], 6 if T else 3)
    explore(ck, "ACFR export", base_acfr, ["to acfr", "to acfr -F", "process -F", "edit config", "annotate"], 5 if T else 3, ("parse", "process"))
    explore(ck, "ACFR import", base_acfr, ["from acfr vehicle", "from acfr vehicle -F", "from acfr stereo", "from acfr stereo -F", "edit acfr", "annotate"], 6 if T else 4, ())
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
