"""C11: corrupted or incomplete PHINS sentences never become measurements."""
import calendar
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D

DAY = (2017, 7, 14)
E0 = calendar.timegm(DAY + (0, 0, 0, 0, 0, 0))
CATS = ["velocity", "orientation", "depth", "altitude"]
BURSTS = [
    dict(sod=9600.0, vel=(1.0, 0.1, 0.05), yaw=350.0, roll=1.0, pitch=-2.0, depth=20.0, alt=5.0, speed=(0.1, 0.2, 0.3)),
    dict(sod=9601.0, vel=(-1.5, 0.2, -0.15), yaw=2.5, roll=-1.25, pitch=3.0, depth=21.5, alt=6.0, speed=(-0.4, 0.5, -0.6)),
    dict(sod=9602.125, vel=(0.75, -0.3, 0.25), yaw=11.0, roll=0.5, pitch=-4.5, depth=23.25, alt=4.5, speed=(0.7, -0.8, 0.9)),
]
NAMES = ["TIME", "HEHDT", "ATITUD", "STDHRP", "LOGIN", "SPEED", "STDSPD", "DEPIN", "LOGDVL"]


ORDERS = [tuple(range(9)), (1, 2, 5, 3, 6, 0, 4, 7, 8), (0, 4, 8, 7, 1, 2, 3, 5, 6)]


def clean(order=0):
    """Time first (0, 2) or, as the instrument may be set up, after the attitude (1)."""
    return [D.phins_burst(**b)[k] for b in BURSTS for k in ORDERS[order]]


# ------------------------------------------------------------------ reference
def sentence(text):
    """Fields of an intact sentence, or None."""
    text = text.strip()
    if text.count("*") != 1:
        return None
    payload, chk = text.split("*")
    if not re.fullmatch(r"[0-9A-Fa-f]{2}", chk) or not payload.startswith("$"):
        return None
    c = 0
    for ch in payload[1:]:
        c ^= ord(ch)
    if c != int(chk, 16):
        return None
    f = payload.split(",")
    if f[0] not in ("$PIXSE", "$HEHDT") or len(f) < 2:
        return None
    return f


def tod(s):
    if len(s) not in (10, 13) or not re.fullmatch(r"\d{6}\.\d+", s):
        return None
    h, m, sec = int(s[:2]), int(s[2:4]), int(s[4:6])
    if h > 23 or m > 59 or sec > 59:
        return None
    return E0 + h * 3600 + m * 60 + sec + int(s[7:10]) / 1000.0


def nums(f, n):
    try:
        return [float(x) for x in f[2:2 + n]] if len(f) >= 2 + n else None
    except ValueError:
        return None


def reference(lines, cat, keep_dvl=True):
    """Measurements (time, values) the intact sentences of a log carry."""
    out = []
    t = None
    dvl = None
    yaw = att = None
    std = False
    for l in lines:
        f = sentence(l)
        if f is None:
            continue
        if f[0] == "$HEHDT":
            try:
                yaw, att = float(f[1]), None
            except ValueError:
                pass
            continue
        h = f[1]
        if h == "TIME__":
            if t is None:
                yaw = att = None
            t = tod(f[2]) if len(f) > 2 else None
        elif h == "ATITUD":
            v = nums(f, 2)
            if v:
                att = v
        elif h == "STDHRP":
            std = std or nums(f, 3) is not None
        if cat == "orientation" and h in ("ATITUD", "STDHRP") and yaw is not None and att is not None and std:
            if t is not None:
                out.append(("orientation", t, (yaw, -att[0], -att[1])))
            yaw = att = None
        if h == "LOGIN_":
            v = nums(f, 3)
            td = tod(f[6]) if len(f) > 6 else None
            if v and td is None and not keep_dvl:
                dvl = None
            if v and td is not None:
                dvl = td
                if cat == "velocity" and t is not None:
                    out.append(("body", td, (v[0], -v[1], -v[2])))
        elif h == "SPEED_" and cat == "velocity":
            v = nums(f, 3)
            if v and t is not None:
                out.append(("inertial", t, (v[1], v[0], -v[2])))
        elif h == "DEPIN_" and cat == "depth":
            v = nums(f, 1)
            td = tod(f[3]) if len(f) > 3 else None
            if v and td is not None and t is not None:
                out.append(("depth", td, (v[0],)))
        elif h == "LOGDVL" and cat == "altitude":
            v = nums(f, 3)
            if v and t is not None and dvl is not None:
                out.append(("altitude", t, (v[2],)))
    return out


def observed(items):
    out = []
    for i in items:
        d = {k: v for e in i["data"] for k, v in e.items()}
        if i["category"] == "velocity" and i["frame"] == "body":
            out.append(("body", i["epoch_timestamp_dvl"], (d["x_velocity"], d["y_velocity"], d["z_velocity"])))
        elif i["category"] == "velocity":
            out.append(("inertial", i["epoch_timestamp"], (d["north_velocity"], d["east_velocity"], d["down_velocity"])))
        elif i["category"] == "orientation":
            out.append(("orientation", i["epoch_timestamp"], (d["heading"], d["roll"], d["pitch"])))
        elif i["category"] == "depth":
            out.append(("depth", i["epoch_timestamp_depth"], (d["depth"],)))
        elif i["category"] == "altitude":
            out.append(("altitude", i["epoch_timestamp"], (d["altitude"],)))
    return out


def eq(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and abs(x[1] - y[1]) < 1e-5 and len(x[2]) == len(y[2]) and all(p is not None and abs(p - q) < 1e-6 for p, q in zip(x[2], y[2])) for x, y in zip(a, b))


_ENV = {}


def env():
    """A mission object and its raw folder, per process."""
    if os.getpid() not in _ENV:
        from oplab import Mission, Vehicle

        root = _ROOT / str(os.getpid())
        m = D.raw_mission(images=False, usbl=False)
        raw, pro, cfg = D.make_raw(root, mission=m)
        (pro / "nav").mkdir(parents=True)
        _ENV[os.getpid()] = (Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), pro / "nav", raw / "nav" / "phins" / m["velocity"]["filename"], root)
    return _ENV[os.getpid()]


_ROOT = None


def parse(data, cat):
    from auv_nav.parsers.parse_phins import parse_phins

    mission, vehicle, out, path, _ = env()
    path.write_bytes(data)
    return parse_phins(mission, vehicle, cat, "oplab", out)


def judge(rec, lines, what, loose=None):
    """lines: list of str (utf-8 text) or bytes; loose: alternative log that is also acceptable."""
    data = b"".join((l if isinstance(l, bytes) else l.encode()) + b"\r\n" for l in lines)
    text = data.decode("utf-8", errors="ignore")
    ref = re.split(r"\r\n|\n|\r", text)
    for cat in CATS:
        got = observed(parse(data, cat))
        rec.step()
        rec.state((cat, tuple(got)))
        rec.out(got)
        want = reference(ref, cat)
        if not eq(got, want) and cat == "altitude":
            want = reference(ref, cat, False)  # the time of the altitude itself is unknown
        if not eq(got, want) and not (loose and eq(got, reference(loose, cat))):
            rec.fail(cat, "%s: %s measurements %s, expected %s" % (what, cat, short(got, want), short(want, got)))
            return


def short(a, b):
    d = [x for x in a if x not in b] or a
    return str([(x[0], round(x[1] - E0, 3), x[2]) for x in d[:3]]) + (" (%d)" % len(a))


def subst(ch):
    o = ord(ch)
    out = {chr(o ^ (1 << b)) for b in range(7)}
    out |= set("0159*,$ #AZaz.-+")
    out -= {ch}
    return sorted(out)


def fault_case(c, rec):
    """All faults of one kind at one line."""
    i, kind = c
    lines = clean()
    l = lines[i]
    tag = "%s of burst %d" % (NAMES[i % 9], i // 9)
    rep = lambda x: lines[:i] + [x] + lines[i + 1:]
    n = len(l)
    if kind == "substitute":
        for p in range(n):
            for s in subst(l[p]):
                judge(rec, rep(l[:p] + s + l[p + 1:]), "%s, character %d %r -> %r" % (tag, p, l[p], s))
                if rec.fails:
                    return
    elif kind == "delete":
        for p in range(n):
            judge(rec, rep(l[:p] + l[p + 1:]), "%s, character %d deleted" % (tag, p))
    elif kind == "truncate":
        for p in range(n):
            judge(rec, rep(l[:p]), "%s cut after %d characters" % (tag, p))
            judge(rec, rep(l[p:]), "%s without its first %d characters" % (tag, p))
    elif kind == "insert":
        for p in range(n + 1):
            for s in ("0", "7", ",", "*", "$", "A"):
                judge(rec, rep(l[:p] + s + l[p:]), "%s, %r inserted at %d" % (tag, s, p))
            judge(rec, rep(l[:p] + " " + l[p:]), "%s, space inserted at %d" % (tag, p), loose=lines)
    elif kind == "split":
        for p in range(1, n):
            judge(rec, rep(l[:p] + "\r\n" + l[p:]), "%s broken over two lines at %d" % (tag, p))
        if i + 1 < len(lines):
            judge(rec, lines[:i] + [l + lines[i + 1]] + lines[i + 2:], "%s joined with the next line" % tag)
            for p in range(0, n, 3):
                judge(rec, lines[:i] + [l[:p] + lines[i + 1]] + lines[i + 2:], "%s overrun by the next line at %d" % (tag, p))
    elif kind == "bytes":
        for p in range(n):
            for b in (b"\xff", b"\x80", b"\xc3"):
                judge(rec, rep(l[:p].encode() + b + l[p + 1:].encode()), "%s, byte %d -> %r" % (tag, p, b))
    elif kind == "repeat":
        judge(rec, lines[:i] + [l, l[: n // 2], l[n // 2:], "", "garbage", "$", "*", "$*00", "$PIXSE*00", "$HEHDT*00"] + lines[i + 1:], tag + " followed by garbage")
    if kind == "missing":
        judge(rec, lines[:i] + lines[i + 1:], tag + " missing")


def pair_case(c, rec):
    order, gone = c
    lines = clean(order)
    judge(rec, [l for k, l in enumerate(lines) if k not in gone], "sentence order %d, sentences %s missing" % (order, gone))


def field_case(c, rec):
    """Sentences whose checksum is right but whose fields are not complete."""
    i = c
    lines = clean()
    body_ = lines[i][1:].split("*")[0]
    f = body_.split(",")
    muts = []
    k0 = 1 if f[0] == "HEHDT" else 2
    for k in range(k0, len(f)):
        if f[0] == "HEHDT" and k == 2:
            continue
        for v in ("", "x", "1.2.3", "--"):
            if f[1] == "LOGIN_" and k == 5:
                continue  # the fourth value of LOGIN_ is not used
            muts.append(f[:k] + [v] + f[k + 1:])
        muts.append(f[:k])
    if f[1] in ("TIME__", "LOGIN_", "DEPIN_"):
        t = f[-1]
        for v in (t[:4] + "60" + t[6:], t[:4] + "xx" + t[6:], "xx" + t[2:], t[:2] + "  " + t[4:], t[:6], "", "25" + t[2:], t[:2] + "61" + t[4:], t[:7] + "abc"):
            muts.append(f[:-1] + [v])
    for m in muts:
        judge(rec, lines[:i] + [D.phins(",".join(m))] + lines[i + 1:], "sentence %r" % ",".join(m))
        if rec.fails:
            return


def body():
    ck = mc.new_check("C11", assumptions=[
        "faults that keep the XOR checksum intact (e.g. two exchanged characters) are undetectable in this protocol",
        "an attitude is reported once an uncertainty sentence has been seen, an altitude once a velocity sentence has been seen; measurements following a lost time sentence carry the last intact time",
    ])
    mc.silence_console()
    from oplab import Console

    if hasattr(Console, "log"):
        Console.log = staticmethod(lambda *a, **k: None)
    D.stub_version()
    n = len(clean())
    kinds = ["missing", "delete", "truncate", "repeat", "substitute", "insert", "split", "bytes"]
    idx = range(n) if ck.thorough else range(n)
    global _ROOT
    with mc.scratch() as _ROOT:
        ck.explore("fields", list(range(n)), field_case, note="valid checksum, missing or malformed fields")
        ck.explore("faults", [(i, k) for i in idx for k in kinds], fault_case, note="every single fault of each kind in every line of a 27 sentence log")
        ck.explore("missing-pairs", [(o, g) for o in range(3) for k in range(4 if ck.thorough else 3) for g in itertools.combinations(range(n), k)], pair_case)
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
