"""Shared machinery for the bounded exhaustive checks.

A check enumerates a finite list of *cases* (operation sequences, input shapes,
schedules, crash points ...), runs the real code from /repo/src on every one of
them and compares what is observable with a reference model.  Nothing is sampled.

Every case function gets a `Rec` and reports
  rec.state(key)      a distinct canonical state the execution went through
  rec.step(n)         n transitions of the implementation (calls / schedule steps)
  rec.out(value)      an observation (goes into the replay digest and outcome count)
  rec.fail(key, msg)  the property does not hold on this case
"""
import argparse
import contextlib
import hashlib
import mmap
import itertools
import json
import math
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src"
EVID = Path(os.environ.get("VERIF_EVIDENCE", str(VERIF / "evidence")))
CASE_LIMIT_S = int(os.environ.get("VERIF_CASE_LIMIT", "240"))

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_NUM_THREADS", "1")
sys.dont_write_bytecode = True
if str(SRC) not in sys.path:
    sys.path.insert(0, str(SRC))


class HarnessError(Exception):
    pass


class CaseTimeout(Exception):
    pass


class Rec:
    def __init__(self):
        self.states = set()
        self.steps = 0
        self.fails = []
        self.obs = hashlib.sha256()
        self.outcome = None
        self.extra = {}

    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.steps += n

    def out(self, value):
        r = repr(canon(value))
        self.obs.update(r.encode())

    def fail(self, key, msg):
        self.fails.append((str(key), str(msg)[:2000]))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


def canon(v):
    """Canonical, repr-stable form of an observation."""
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            return ("nd", v.shape, [canon(x) for x in v.ravel().tolist()])
        if isinstance(v, np.generic):
            v = v.item()
    except ImportError:
        pass
    if isinstance(v, float):
        if math.isnan(v):
            return "nan"
        if v == 0:
            return "0.0"
        return "%.13g" % v
    if isinstance(v, dict):
        return sorted((str(k), canon(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return sorted(repr(canon(x)) for x in v)
    if isinstance(v, Path):
        return str(v)
    return v


def digest(key):
    return hashlib.blake2b(repr(canon(key)).encode(), digest_size=8).digest()


def close(a, b, rel=1e-7, abs_=1e-7):
    if a is None or b is None:
        return a is None and b is None
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def angle_close(a, b, tol=1e-6, period=360.0):
    if a is None or b is None:
        return a is None and b is None
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    d = (a - b) % period
    return min(d, period - d) <= tol


def from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(str(SRC)):
            return True
        tb = tb.tb_next
    return False


def brief_tb(exc):
    out = []
    for f in traceback.extract_tb(exc.__traceback__):
        if f.filename.startswith(str(SRC)):
            out.append("%s:%s:%s" % (f.filename[len(str(SRC)) + 1:], f.lineno, f.name))
    return " <- ".join(reversed(out[-4:]))


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(fn, case):
    """Run one case; exceptions of the code under test become failures."""
    rec = Rec()
    main = True
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT_S)
    except ValueError:
        main = False
    try:
        fn(case, rec)
    except CaseTimeout:
        rec.fail("nontermination", "case did not finish within %ds" % CASE_LIMIT_S)
        _STOP[0] = 1  # one is enough: do not spend the limit on every further case
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        if from_repo(e):
            rec.fail(
                "exception:%s" % type(e).__name__,
                "%s: %s [%s]" % (type(e).__name__, e, brief_tb(e)),
            )
        elif isinstance(e, MemoryError) or getattr(e, "errno", None) in (12, 24, 28):
            raise
        else:
            # the oracle could not read what the code produced
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rec.fail("malformed-result", "%s: %s while judging the result [%s:%s]" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
    finally:
        if main:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return rec


_FN = None
_STOP = mmap.mmap(-1, 1)  # shared with the workers: set once a case did not terminate


def _worker(args):
    idx, case = args
    if _STOP[0]:
        return idx, "skip", None
    try:
        rec = run_case(_FN, case)
    except BaseException as e:  # harness trouble
        return idx, "error", traceback.format_exc()
    return idx, "ok", (
        rec.states,
        rec.steps,
        rec.fails,
        rec.obs.hexdigest(),
        rec.extra,
    )


class Check:
    def __init__(self, pid, title="", level="model_checking", assumptions=()):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--replay", default=None)
        ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
        ap.add_argument("--verbose", action="store_true")
        self.args = ap.parse_args()
        self.pid = pid
        self.tier = "thorough" if self.args.tier == "thorough" else "quick"
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.level = level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.fails = []  # (group, case, key, msg)
        self.groups = {}
        self.samples = []
        self.extra = {}
        self.rechecked = 0
        self.capped = []
        self._report = None
        global _CHECK
        _CHECK = self
        self._quiet()

    # ------------------------------------------------------------ output
    def _quiet(self):
        sys.stdout.flush()
        self._report = os.fdopen(os.dup(1), "w", buffering=1)
        self._log = tempfile.TemporaryFile()
        if not self.args.verbose:
            os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
            os.dup2(self._log.fileno(), 2)

    def say(self, *a):
        print(*a, file=self._report, flush=True)

    # ------------------------------------------------------------ exploring
    def explore(self, group, cases, fn, note="", parallel=True, exhaustive=True):
        """Run fn on every case of the finite list `cases`."""
        global _FN
        if self.args.replay:
            self._replay(group, cases, fn)
            return
        cases = list(cases)
        t = time.time()
        _FN = fn
        nfail0 = len(self.fails)
        st0, tr0 = len(self.states), self.transitions
        # replay determinism: a fixed subset is executed twice
        picks = set()
        if cases:
            n = len(cases)
            k = 8
            picks = {int(i * (n - 1) / max(1, k - 1)) for i in range(k)}
        results = [None] * len(cases)
        if parallel and self.args.jobs > 1 and len(cases) > 8:
            ctx = multiprocessing.get_context("fork")
            chunk = max(1, min(64, len(cases) // (self.args.jobs * 8)))
            with ctx.Pool(self.args.jobs) as pool:
                for idx, st, val in pool.imap_unordered(
                    _worker, list(enumerate(cases)), chunksize=chunk
                ):
                    results[idx] = (st, val)
        else:
            for i, c in enumerate(cases):
                idx, st, val = _worker((i, c))
                results[idx] = (st, val)
        for i, (st, val) in enumerate(results):
            if st == "skip":
                continue
            if st == "error":
                self._crash("harness error in group %s case %r\n%s" % (group, cases[i], val))
            states, steps, fails, obs, extra = val
            self.states.update((group, s) for s in states)
            self.transitions += steps
            self.traces += 1
            self.outcomes.add(obs)
            for k, v in extra.items():
                self.extra[k] = self.extra.get(k, 0) + v
            for key, msg in fails:
                self.fails.append((group, cases[i], key, msg))
            if i in picks and not fails and not _STOP[0]:
                _, st2, val2 = _worker((i, cases[i]))
                self.rechecked += 1
                if st2 == "skip":
                    continue
                if st2 == "error":
                    self._crash("harness error on re-execution\n" + val2)
                if val2[3] != obs:
                    self.fails.append(
                        (
                            group,
                            cases[i],
                            "history-dependent",
                            "executing the same case again, in a process that had "
                            "already executed others, gave different observations",
                        )
                    )
        self.groups[group] = {
            "cases": len(cases),
            "states": len(self.states) - st0,
            "transitions": self.transitions - tr0,
            "failing": len(self.fails) - nfail0,
            "wall_s": round(time.time() - t, 2),
            "note": note,
            "exhaustive": exhaustive,
        }
        if cases and len(self.samples) < 12:
            self.samples.append({"group": group, "case": jsonable(cases[0])})
            if len(cases) > 2:
                self.samples.append({"group": group, "case": jsonable(cases[len(cases) // 2])})
        self.say(
            "[%s] %-34s cases=%d states=%d transitions=%d failing=%d %.1fs"
            % (
                self.pid,
                group,
                len(cases),
                self.groups[group]["states"],
                self.groups[group]["transitions"],
                self.groups[group]["failing"],
                time.time() - t,
            )
        )

    def _replay(self, group, cases, fn):
        with open(self.args.replay) as f:
            rp = json.load(f)
        if rp["group"] != group:
            return
        want = json.dumps(rp["case"], sort_keys=True)
        for c in cases:
            if json.dumps(jsonable(c), sort_keys=True) == want:
                rec = run_case(fn, c)
                self.say("replayed", group, json.dumps(jsonable(c)))
                for key, msg in rec.fails:
                    self.say("  still fails:", key, msg)
                    self.fails.append((group, c, key, msg))
                if not rec.fails:
                    self.say("  passes now")
                return
        self.say("case not found in this tier's enumeration; try the other tier")

    def _crash(self, text):
        self.say("CHECK ERROR", text)
        try:
            self._log.seek(0)
            self.say(self._log.read()[-3000:].decode(errors="replace"))
        except Exception:
            pass
        self._report.flush()
        os._exit(2)

    # ------------------------------------------------------------ finishing
    def finish(self):
        known = load_known(self.pid)
        new, seen_known = [], {}
        for group, case, key, msg in self.fails:
            k = match_known(known, group, case, key)
            if k is not None:
                seen_known.setdefault(k["id"], [k, 0])[1] += 1
            else:
                new.append((group, case, key, msg))
        if self.args.replay:
            for group, case, key, msg in new:
                self.say("VIOLATION property=%s replay=%s" % (self.pid, self.args.replay))
            sys.stdout.flush()
            os._exit(1 if new else 0)
        for kid, (k, n) in sorted(seen_known.items()):
            self.say("KNOWN-FINDING: property=%s %s (%d explored cases)" % (self.pid, k["what"], n))
        paths = []
        rdir = EVID / "replays" / self.pid
        if rdir.exists():
            shutil.rmtree(rdir)
        if new:
            rdir.mkdir(parents=True, exist_ok=True)
            by = {}
            for group, case, key, msg in new:
                by.setdefault((group, key), []).append((case, msg))
            for n, ((group, key), lst) in enumerate(sorted(by.items())[:10]):
                case, msg = min(lst, key=lambda cm: len(json.dumps(jsonable(cm[0]))))
                p = rdir / ("%02d.json" % n)
                p.write_text(
                    json.dumps(
                        {
                            "property": self.pid,
                            "group": group,
                            "key": key,
                            "message": msg,
                            "case": jsonable(case),
                            "failing_cases": len(lst),
                            "tier": self.tier,
                            "replay_cmd": "VERIF_TIER=%s %s --replay %s"
                            % (self.tier, " ".join([sys.executable, sys.argv[0]]), p),
                        },
                        indent=1,
                    )
                )
                paths.append(p)
                self.say("  %s/%s (%d cases): %s" % (group, key, len(lst), msg[:600]))
                self.say("VIOLATION property=%s replay=%s" % (self.pid, p))
        EVID.mkdir(exist_ok=True, parents=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "states": len(self.states),
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "distinct_observed_outcomes": len(self.outcomes),
                "re_executed_for_determinism": self.rechecked,
                "exhaustive": not self.capped and all(g["exhaustive"] for g in self.groups.values()),
                "caps_hit": self.capped,
                "groups": self.groups,
                "counters": self.extra,
                "samples": self.samples,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
            "known_findings": {k: v[1] for k, v in seen_known.items()},
        }
        (EVID / ("%s.json" % self.pid)).write_text(json.dumps(ev, indent=1))
        self.say(
            "[%s] tier=%s traces=%d states=%d transitions=%d outcomes=%d new=%d known=%d wall=%.1fs"
            % (
                self.pid,
                self.tier,
                self.traces,
                len(self.states),
                self.transitions,
                len(self.outcomes),
                len(new),
                sum(v[1] for v in seen_known.values()),
                time.time() - self.t0,
            )
        )
        self._report.flush()
        os._exit(1 if new else 0)


def main(body):
    """Run a check body, turning harness trouble into exit code 2."""
    try:
        body()
    except BaseException as e:
        if _CHECK is not None and isinstance(e, (Exception, SystemExit)) and not isinstance(e, HarnessError) and from_repo(e):
            # the code under test fails in the scenario the exploration starts from
            _CHECK.fails.append(("preparation", None, "exception:%s" % type(e).__name__, "%s: %s [%s]" % (type(e).__name__, e, brief_tb(e))))
            _CHECK.finish()
        if isinstance(e, SystemExit):
            raise
        tb = traceback.format_exc()
        try:
            fd = os.fdopen(os.dup(2), "w")
        except Exception:
            fd = sys.__stderr__
        if _CHECK is not None:
            _CHECK._crash(tb)
        print(tb, file=fd)
        os._exit(2)


_CHECK = None


def new_check(*a, **k):
    return Check(*a, **k)


def jsonable(v):
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            return v.tolist()
        if isinstance(v, np.generic):
            return v.item()
    except ImportError:
        pass
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {str(k): jsonable(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return sorted((jsonable(x) for x in v), key=str)
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        return str(v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    return str(v)


# ------------------------------------------------------------------ findings
def load_known(pid):
    p = VERIF / "known_findings.json"
    if not p.exists():
        return []
    return [
        k for k in json.loads(p.read_text())["findings"] if k["property"] == pid and k["status"] == "known"
    ]


def match_known(known, group, case, key):
    js = jsonable(case)
    for k in known:
        if k["group"] != group or k["key"] != key:
            continue
        if "cases" in k:
            if js in k["cases"]:
                return k
        else:
            return k
    return None


# ------------------------------------------------------------------ helpers
@contextlib.contextmanager
def scratch(prefix="vf_"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield Path(d).resolve()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def snapshot(root, skip=()):
    """{relative path: sha or 'dir'} of a tree."""
    root = Path(root)
    out = {}
    for p in sorted(root.rglob("*")):
        rel = str(p.relative_to(root))
        if any(rel.startswith(s) for s in skip):
            continue
        if p.is_dir():
            out[rel] = "dir"
        else:
            out[rel] = hashlib.sha1(p.read_bytes()).hexdigest()
    return out


def silence_console():
    """The console only reports; keep it from costing time."""
    from oplab import Console

    for name in ("info", "warn", "error", "banner", "progress"):
        if hasattr(Console, name):
            setattr(Console, name, staticmethod(lambda *a, **k: None))
    return Console


def product(*a, **k):
    return list(itertools.product(*a, **k))
