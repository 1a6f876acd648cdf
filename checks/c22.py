#!/usr/bin/env python3
"""C22: a run interrupted at any file operation can be repeated to the same result, and leaves no half-written navigation data behind."""
import json
import os
import resource
import shutil
import signal
import sys
from pathlib import Path

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import c12 as S  # the steps and the data sets; nothing runs on import

EV = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.truncate", "os.link", "os.symlink"}
WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
NAV = "nav/nav_standard.json"


def base_noconfig(root):
    S.base_one(root)
    shutil.rmtree(root / "configuration")


# scenario: (initial data, steps done before, the interrupted step)
SCEN = {
    "parse": (S.base_one, (), "parse"),
    "parse again": (S.base_one, ("parse", "edit raw"), "parse -F"),
    "merge": (S.base_two, (), "merge"),
    "merge parsed": (S.base_two, ("parse",), "merge"),
    "merge again": (S.base_two, ("merge", "edit raw"), "merge -F"),
    "process": (S.base_one, ("parse",), "process"),
    "process with filter": (S.base_one, ("parse", "edit config"), "process"),
    "process again": (S.base_one, ("parse", "process", "edit config"), "process -F"),
    "process range": (S.base_one, ("parse",), "process range"),
    "process, no configuration": (base_noconfig, ("parse",), "process"),
    "to acfr": (S.base_acfr, ("parse", "process"), "to acfr"),
    "to acfr again": (S.base_acfr, ("parse", "process", "to acfr", "edit config", "process -F"), "to acfr -F"),
    "from acfr vehicle": (S.base_acfr, (), "from acfr vehicle"),
    "from acfr stereo": (S.base_acfr, (), "from acfr stereo"),
    "from acfr stereo again": (S.base_acfr, ("from acfr stereo", "edit acfr"), "from acfr stereo -F"),
}


def child(root, op, mode, k, report=None):
    """Run a step in a process of its own that is interrupted as told; exit code 77 = killed."""
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.alarm(120)
            import auv_nav.process as P
            import threading

            class Inline(threading.Thread):
                """The writing threads run to their end when started (C01 varies their order)."""

                def start(self):
                    self._ran = True
                    try:
                        self.run()
                    except BaseException:  # as in a thread: reported, not passed on
                        pass

                def join(self, timeout=None):
                    pass

                def is_alive(self):
                    return False

            class Proxy:
                Thread = Inline

                def __getattr__(self, name):
                    return getattr(threading, name)

            if hasattr(P, "threading"):
                P.threading = Proxy()
            if hasattr(P, "Thread"):
                P.Thread = Inline
            n = [0]
            log = []
            top = str(root)

            def hook(event, args):
                if event not in EV:
                    return
                path = args[0] if args else None
                if isinstance(path, int) or path is None:
                    return
                path = os.fspath(path)
                path = os.fsdecode(path) if isinstance(path, bytes) else path
                path = os.path.abspath(path)
                if not path.startswith(top):
                    return
                if event == "open" and not (isinstance(args[2], int) and args[2] & WRITE):
                    return
                n[0] += 1
                log.append((event, os.path.relpath(path, top)))
                if n[0] == k:
                    if mode == "kill":
                        os._exit(77)
                    if mode == "fault":
                        raise OSError(5, "Input/output error", path)

            sys.addaudithook(hook)
            if mode in ("torn", "full"):
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "torn" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            try:
                code = S.run_step(root, op)
            except BaseException:
                code = 2
            if report:
                Path(report).write_text(json.dumps(log))
        finally:
            os._exit(code if code in (0, 1, 2) else 3)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return 77 if os.WTERMSIG(st) == signal.SIGXFSZ else 128 + os.WTERMSIG(st)
    return os.WEXITSTATUS(st)


REF = None  # folder with, per scenario, the state before and after an uninterrupted run


def prepare(name, dest):
    """State before the step, and the results of the uninterrupted step."""
    basefn, hist, op = SCEN[name]
    (dest / "f").mkdir()
    S.load_state(hist, basefn, dest / "f" / "ds")
    shutil.copytree(dest / "f" / "ds", dest / "w" / "ds")
    mode = "none"
    c = child(dest / "w" / "ds", op, mode, 0, dest / "events.json")
    if not (dest / "events.json").exists():
        raise mc.HarnessError("%s: uninterrupted run ended with %d" % (name, c))
    (dest / "after.json").write_text(json.dumps([c, S.results(dest / "w" / "ds")]))
    sizes = sorted({p.stat().st_size for p in (dest / "w" / "ds" / "processed").rglob("*") if p.is_file()})
    (dest / "sizes.json").write_text(json.dumps(sizes))
    (dest / "nav.json").write_text(json.dumps({k: v for k, v in S.results(dest / "w" / "ds").items() if k.endswith(NAV)}))


def reference(name, dest):
    with mc.scratch() as t:
        (t / "w").mkdir()
        prepare(name, t)
        op = SCEN[name][2]
        if op in ("parse", "merge"):
            run(t / "w" / "ds", "process")
            out = {f: h for f, h in S.results(t / "w" / "ds").items() if "json_renav" in f}
            (t / "processed.json").write_text(json.dumps(out))
        shutil.copytree(t, dest)


def case_fn(case, rec):
    name, mode, k = case
    basefn, hist, op = SCEN[name]
    with mc.scratch() as tmp:
        if REF is not None:
            ref = Path(REF) / name
        else:
            ref = tmp / "r"
            reference(name, ref)
        code0, clean = json.loads((ref / "after.json").read_text())
        before = S.results(ref / "f" / "ds")
        work = tmp / "w" / "ds"
        work.parent.mkdir(exist_ok=True)
        shutil.copytree(ref / "f" / "ds", work)
        c = child(work, op, mode, k)
        rec.step()
        if c > 77:
            rec.fail("abort", "%s: the step ended with signal %d" % (name, c - 128))
        state = S.results(work)
        rec.state((name, mc.digest(sorted(state.items())).hex()))
        rec.out((name, mode, c))
        story = "%s interrupted (%s at %d)" % (name, mode, k)
        for f in sorted(set(before) | set(state)):
            a, b = before.get(f), state.get(f)
            if f.startswith(("raw/", "acfr_in/")) and a != b:
                rec.fail("input-changed", "%s: the input file %s changed" % (story, f))
            elif f.startswith("configuration/") and a != b and b not in (a, clean.get(f)) and f in clean:
                rec.fail("half-configuration", "%s: %s is neither complete nor absent" % (story, f))
            elif f.endswith(NAV) and b not in (a, clean.get(f)) and not (b is None and a is not None and op.endswith("-F")):
                rec.fail("half-navigation", "%s: %s is neither absent nor complete" % (story, f))
        if name == "process, no configuration":
            return  # the default configuration draws plots; its results are not compared
        # without force: what is published must be what an uninterrupted run publishes
        if op in ("parse", "merge"):
            alt = tmp / "f" / "ds"
            alt.parent.mkdir()
            shutil.copytree(work, alt)
            run(alt, op)
            run(alt, "process")
            rec.step()
            w = json.loads((ref / "processed.json").read_text())
            for f, h in S.results(alt).items():
                if "json_renav" in f and w.get(f) != h:
                    rec.fail("published-partial", "%s, then repeated without force and processed: %s differs from that of an uninterrupted run" % (story, f))
        r = run(work, op.replace(" -F", "") + " -F")
        rec.step()
        if r != code0:
            rec.fail("rerun-fails", "%s: running it again with -F ends with %r, an uninterrupted run with %r" % (story, r, code0))
        again = S.results(work)
        for f in sorted(set(clean) | set(again)):
            if clean.get(f) == again.get(f):
                continue
            if f not in clean:
                if Path(f).suffix in (".csv", ".json", ".yaml", ".data", ".cal"):
                    rec.fail("leftover", "%s: after running it again with -F the file %s is there, which an uninterrupted run does not leave" % (story, f))
            else:
                rec.fail("rerun-differs", "%s: after running it again with -F %s is %s" % (story, f, "missing" if f not in again else "not that of an uninterrupted run"))


def detect(root, two):
    """Laser detections of an image pair, as kept for later calibrations."""
    import numpy as np
    from auv_cal.laser_calibrator import get_laser_pixels_in_image_pair as f

    y, x = np.mgrid[0:120, 0:260].astype(np.float32)
    maps = (x, y)
    a, b = root / "raw" / "y" / "d" / "l" / "a.png", root / "raw" / "y" / "d" / "r" / "b.png"
    r = f(a, maps, b, maps, 0.1, 5, 25, 0, 58 if two else -1, 62, -1, two, False, False, "cam")
    return [np.asarray(p).tolist() for p in r]


def draw(root):
    import cv2
    import numpy as np

    for k, p in enumerate(("l/a.png", "r/b.png")):
        img = np.zeros((120, 260), np.uint8)
        for u in range(80, 180):
            for v0 in (30 + k + u * 0.1, 85 + k - u * 0.05):
                for v in range(int(v0) - 3, int(v0) + 5):
                    img[v, u] = max(img[v, u], int(200 * np.exp(-((v - v0) ** 2) / 3)))
        f = root / "raw" / "y" / "d" / p
        f.parent.mkdir(parents=True, exist_ok=True)
        cv2.imwrite(str(f), img)


CLEAN = {}


def laser_case(case, rec):
    two, mode, k = case
    with mc.scratch() as tmp:
        draw(tmp / "w")
        if two not in CLEAN:
            draw(tmp / "c")
            CLEAN[two] = detect(tmp / "c", two)
        clean = CLEAN[two]
        if not clean[0] or len(clean[0]) < 10 or (two and len(clean[2]) < 10):
            rec.out("laser not detected")
            return
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(60)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "torn" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
                detect(tmp / "w", two)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        rec.step()
        rec.state((case, mc.digest(sorted((str(p), p.stat().st_size) for p in (tmp / "w").rglob("*.txt"))).hex()))
        for n in ("interrupted", "repeated"):
            got = detect(tmp / "w", two)
            rec.step()
            if [[tuple(q) for q in p] for p in got] != [[tuple(q) for q in p] for p in clean]:
                rec.fail("detections", "detection interrupted after %d bytes (%s): the next run uses %s laser points, there are %s" % (k, mode, [len(p) for p in got], [len(p) for p in clean]))


def run(root, op):
    try:
        return S.run_step(root, op)
    except Exception as e:  # reported through the results
        return "exception %s" % type(e).__name__


def body():
    global REF
    ck = mc.new_check("C22", assumptions=["a crash loses what the process had not handed to the operating system and keeps what it had; the file system itself keeps its promises", "one interruption per history", "threads write one after the other (their interleavings are those of C01)"])
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    import auv_nav.auv_nav  # noqa: F401
    import auv_nav.process  # noqa: F401

    T = ck.thorough
    if ck.args.replay:
        ck.explore("interrupted steps", [], case_fn)
        ck.explore("interrupted laser detection", [], laser_case)
        ck.finish()
        return
    with mc.scratch("vfc22_") as cache:
        cases = []
        for name in SCEN:
            if not T and name in ("process range", "merge parsed", "to acfr again"):
                continue
            d = cache / name
            reference(name, d)
            op = SCEN[name][2]
            events = json.loads((d / "events.json").read_text())
            sizes = json.loads((d / "sizes.json").read_text())
            ks = range(1, len(events) + 1)
            cut = sorted({x for s in sizes if s > 1 for x in ((1, s // 4, s // 2, s - 1) if T else (s // 2, s - 1)) if 0 < x < s})
            if name == "process, no configuration":
                ks = [k for k in ks if events[k - 1][1].startswith("configuration")]
                ks = ks + [ks[-1] + 1]
                cf = [p.stat().st_size for p in (d / "w" / "ds" / "configuration").rglob("*") if p.is_file()]
                cut = sorted({x for n in cf for x in (1, n // 2, n - 1)})
            cases += [(name, m, k) for m in (("kill", "fault") if T or not name.startswith("process") else ("kill",)) for k in ks]
            cases += [(name, m, k) for m in (("torn", "full") if T or not name.startswith("process") else ("torn",)) for k in cut]
        REF = str(cache)
        ck.explore("interrupted steps", cases, case_fn, note="a kill or a failure at every file operation of %d steps, and a kill or full disk at every size" % len(SCEN))
        REF = None
    ck.explore("interrupted laser detection", [(t, m, k) for t in (False, True) for m in ("torn", "full") for k in range(0, 1000, 7 if T else 50)], laser_case, note="a kill or full disk at every size of the stored detections")
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
