"""C09: times are absolute UTC seconds, whatever the host's time zone."""
import calendar
import collections
import datetime
import itertools
import os
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import mc
import dataset as D
import rawfmt as R

SECONDS = [
    (2000, 2, 28, 23, 59, 59), (2000, 2, 29, 0, 0, 0), (2000, 3, 1, 0, 0, 0), (2004, 2, 29, 12, 34, 56), (2016, 12, 31, 23, 59, 59),
    (2017, 1, 1, 0, 0, 0), (2018, 2, 28, 23, 59, 59), (2018, 3, 1, 0, 0, 0), (2019, 3, 31, 1, 30, 0), (2019, 6, 30, 23, 59, 59),
    (2019, 7, 1, 9, 8, 7), (2019, 10, 27, 1, 30, 0), (2020, 2, 29, 23, 0, 1), (2020, 3, 29, 2, 30, 0), (2024, 11, 3, 1, 30, 0), (2038, 1, 19, 3, 14, 8),
]
MICROS = [0, 1000, 70500, 250000, 999999]
HOSTS = ["UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Pacific/Chatham"]
ZONES = [(0, 0), ("utc", 0), ("UTC", 0), (9, 9), ("jst", 9), ("JST", 9), ("cet", 1), ("CET", 1), (-3.5, -3.5), (5.5, 5.5), (12, 12), (-11, -11), ("5.75", 5.75)]
OFFS = [0.0, 0.25, -3600.5]


class Host:
    def __init__(self, tz):
        self.tz = tz

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.tz
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def instants(res):
    return sorted({c + (u // res * res,) for c in SECONDS for u in MICROS})


def base_mission():
    m = D.raw_mission(images=False, usbl=False)
    for k in ("velocity", "orientation", "depth", "altitude"):
        del m[k]
    return m


def parse(root, sections, files, name="20170714_024000_dive"):
    from auv_nav.parse import parse_single

    m = base_mission()
    m.update(sections)
    raw, pro, cfg = D.make_dive(root, None, None, m, None, name, camera={"cameras": []})
    for k, v in files.items():
        p = raw / k
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(v)
    parse_single(str(raw), True)
    return D.nav_json(pro)[1:]


def times_of(item):
    out = [item["epoch_timestamp"]]
    for k in ("epoch_timestamp_dvl", "epoch_timestamp_depth"):
        if k in item:
            out.append(item[k])
    for k in ("camera1", "camera2", "camera3"):
        if k in item:
            for d in item[k] if isinstance(item[k], list) else [item[k]]:
                if "epoch_timestamp" in d:
                    out.append(d["epoch_timestamp"])
    return out


def format_case(c, rec):
    fmt, tz, hours, off, host = c
    writer, res, zoned, oneday = R.NAV.get(fmt) or R.IMG[fmt]
    cals = instants(res)
    days = [[x for x in cals if x[:3] == d] for d in sorted({x[:3] for x in cals})] if oneday else [cals]
    shift = off - (hours * 3600.0 if zoned else 0.0)
    for group in days:
        recs = [R.rec(x, depth=20.0 + 0.01 * k) for k, x in enumerate(group)]
        sections, files = writer(recs, tz, off)
        with mc.scratch() as root, Host(host):
            items = parse(root, sections, files)
        rec.step(len(items))
        want = sorted(R.epoch(x) + shift for x in group)
        by = collections.defaultdict(list)
        for it in items:
            by[it["category"]].append(it)
        expected = [k for k in sections if k != "image"] or (["image", "laser"] if fmt == "seaxerocks_3" else ["image"])
        for cat in expected:
            lst = sorted(by.get(cat, []), key=lambda i: i["epoch_timestamp"])
            rec.state((fmt, cat, tz, off, host, group[0]))
            rec.out([(cat, round(i["epoch_timestamp"], 5)) for i in lst])
            if len(lst) != len(want):
                rec.fail("count:" + cat, "%s, zone %r, offset %r, host %s: %d %s measurements from %d records" % (fmt, tz, off, host, len(lst), cat, len(want)))
                return
            for i, w, x in zip(lst, want, group):
                for t in times_of(i):
                    if abs(float(t) - w) > 2e-5:
                        rec.fail("time:" + cat, "%s, zone %r, offset %r, host %s: record at %s has time %r, expected %r (%+.6f s)" % (fmt, tz, off, host, x, t, w, float(t) - w))
                        return


# ------------------------------------------------------------------ tide
def tide_case(c, rec):
    fmt, tz, hours, off, host = c
    from oplab import Mission, Vehicle

    secs = fmt == "NOC_CTI"
    cals = sorted({x if secs else x[:5] + (0,) for x in SECONDS})
    rows = []
    for k, x in enumerate(cals):
        h = 0.5 + 0.01 * k
        if secs:
            rows.append("%04d-%02d-%02dT%02d:%02d:%02dZ,%.3f,0.1,20" % (x + (h,)))
        else:
            rows.append("%2d/%2d/%04d  %02d:%02d     %6.2f      0.14       51" % (x[2], x[1], x[0], x[3], x[4], h))
    m = base_mission()
    m["tide"] = {"format": fmt, "filepath": "tide/", "timezone": tz, "timeoffset": off, "std_factor": 0.01, "std_offset": 0.1}
    with mc.scratch() as root, Host(host):
        raw, pro, cfg = D.make_dive(root, None, None, m, None, "d", camera={"cameras": []})
        (raw / "tide").mkdir()
        (raw / "tide" / "a.csv").write_text("\n".join(["h%d" % i for i in range(6)] + rows) + "\n")
        (pro / "nav").mkdir(parents=True)
        if secs:
            from auv_nav.parsers.parse_tide_CTI import parse_tide_CTI as f
        else:
            from auv_nav.parsers.parse_NOC_polpred import parse_NOC_polpred as f
        items = f(Mission(raw / "mission.yaml"), Vehicle(raw / "vehicle.yaml"), "tide", "oplab", pro / "nav")
    rec.step(len(items))
    rec.state(c)
    want = [R.epoch(x + (0,)) - hours * 3600.0 + off for x in cals]
    got = [i["epoch_timestamp"] for i in items]
    rec.out(got)
    if len(got) != len(want) or any(abs(a - b) > 1e-5 for a, b in zip(got, want)):
        rec.fail("time:tide", "%s, zone %r, offset %r, host %s: times %r, expected %r" % (fmt, tz, off, host, got[:4], want[:4]))
    for k, i in enumerate(items):
        if abs(i["data"][0]["height"] - (0.5 + 0.01 * k)) > 1e-9:
            rec.fail("height", "%s: height %r at row %d" % (fmt, i["data"][0]["height"], k))
            return


# ------------------------------------------------------------------ conversions
def conv_case(c, rec):
    from auv_nav.tools import time_conversions as T

    year, month, host = c
    with Host(host):
        for d in range(1, calendar.monthrange(year, month)[1] + 1):
            for h, mi, s in ((0, 0, 0), (1, 30, 0), (2, 59, 59), (12, 0, 1), (23, 59, 59)):
                ref = calendar.timegm((year, month, d, h, mi, s, 0, 0, 0))
                rec.step()
                rec.state((year, month, d, h))
                txt = "%04d%02d%02d%02d%02d%02d" % (year, month, d, h, mi, s)
                got = {
                    "string_to_epoch": T.string_to_epoch(txt) - ref,
                    "epoch_to_datetime": 0 if T.epoch_to_datetime(ref) == txt and T.epoch_to_datetime(ref + 0.75) == txt else T.epoch_to_datetime(ref + 0.75),
                    "epoch_to_day": 0 if T.epoch_to_day(ref) == "%04d/%02d/%02d" % (year, month, d) else T.epoch_to_day(ref),
                }
                for z in (0, 9, -3.5, 5.75, 12, -11):
                    got["zone %r" % z] = round(T.date_time_to_epoch(year, month, d, h, mi, s, z) - (ref - z * 3600.0), 6)
                got["us"] = round(T.date_time_to_epoch(year, month, d, h, mi, s, 0, 250001) - (ref + 0.250001), 6)
                for k, v in got.items():
                    if v != 0:
                        rec.fail("conversion:" + k.split()[0], "host %s, %s: %s is off: %r" % (host, txt, k, v))
                        return
    rec.out(c)


def zone_case(c, rec):
    from auv_nav.tools.time_conversions import read_timezone

    z, h = c
    rec.step()
    rec.state(c)
    got = read_timezone(z)
    rec.out(got)
    if float(got) != h:
        rec.fail("zone", "read_timezone(%r) = %r, expected %r" % (z, got, h))


# ------------------------------------------------------------------ file names
NAMES = [
    ("xxxYYYYMMDDxhhmmssxfffxxxx.xxx", "PR_%Y%m%d_%H%M%S_{ms:03d}_LC16.png", 1000),
    ("YYYYMMDDxhhmmssxfffuuuxxxxx.xxx", "%Y%m%d_%H%M%S_{ms:03d}{us:03d}_pcoc.tif", 1),
    ("YYYYMMDDhhmmss.xxx", "%Y%m%d%H%M%S.jpg", 1000000),
    ("hhmmssxDDMMYYYYxfffxuuu.xxx", "%H%M%S_%d%m%Y_{ms:03d}_{us:03d}.raw", 1),
    ("eeeeeeeeeeeeeeeee.xxx", "epoch", 1),
]


def name_case(c, rec):
    from oplab import FilenameToDate

    fmt, pat, res, cal, host = c
    cal = cal[:6] + (cal[6] // res * res,)
    d = datetime.datetime(*cal)
    if pat == "epoch":
        ref = "%.6f" % R.epoch(cal)
        name, fmt = ref + ".png", "e" * len(ref) + ".xxx"
    else:
        name = d.strftime(pat).format(ms=cal[6] // 1000, us=cal[6] % 1000)
    with Host(host):
        got = FilenameToDate(fmt)("/some/where/" + name)
    rec.step()
    rec.state((fmt, cal))
    rec.out(got)
    if abs(float(got) - R.epoch(cal)) > 1e-5:
        rec.fail("file-name", "host %s, format %s: %s gives %r, expected %r" % (host, fmt, name, got, R.epoch(cal)))


def index_case(c, rec):
    from oplab import FilenameToDate

    order, host = c
    cals = [instants(1000)[i] for i in order]
    with mc.scratch() as root, Host(host):
        d = root / "raw" / "dive"
        d.mkdir(parents=True)
        rows = ["index,date,time,ms"] + ["%07d,%s,%02d%02d%02d,%03d" % ((10 * k, R.day(x)) + x[3:6] + (x[6] // 1000,)) for k, x in enumerate(cals)]
        (d / "FileTime.csv").write_text("\n".join(rows) + "\n")
        f = FilenameToDate("iiiiiii.xxx", "FileTime.csv", [
            {"name": "index", "content": "iiiiiii"}, {"name": "date", "content": "YYYYMMDD"}, {"name": "time", "content": "hhmmss"}, {"name": "ms", "content": "fff"}], str(d))
        for k, x in enumerate(cals):
            got = f("%07d.raw" % (10 * k))
            rec.step()
            if abs(float(got) - R.epoch(x)) > 1e-5:
                rec.fail("file-index", "host %s: image %d of %s gives %r, expected %r" % (host, 10 * k, rows[1:], got, R.epoch(x)))
                return
    rec.state(order)
    rec.out(order)


def body():
    ck = mc.new_check("C09", assumptions=[
        "time zone database of the sandbox; zones are constant offsets as in mission.yaml (no daylight saving in mission zones)",
        "formats without a zone in their parser (EIVA Navipac, NTNU DVL, KOYO21 ROV) are explored with zone 0 and offset 0; ae2000 logs are UTC by definition and only the offset applies",
    ])
    mc.silence_console()
    D.stub_version()
    D.no_parse_plots()
    import auv_nav.parse  # noqa: F401

    hosts = HOSTS
    zones = ZONES if ck.thorough else [z for z in ZONES if z[0] not in ("UTC", "JST", "CET", 12)]
    offs = OFFS if ck.thorough else OFFS[1:]
    cases = []
    for fmt, w in list(R.NAV.items()) + list(R.IMG.items()):
        for host in hosts:
            if w[2] is False:
                cases.append((fmt, 0, 0, 0.0, host))
                continue
            if w[3] and not ck.thorough:
                cases += [(fmt, z, h, offs[k % len(offs)], host) for k, (z, h) in enumerate(zones) if (k + hosts.index(host)) % 2 == 0]
                continue
            cases += [(fmt, z, h, o, host) for z, h in zones for o in offs]
    ck.explore("formats", cases, format_case, note="instrument format x mission zone x offset x host zone; every log holds every calendar boundary instant")
    cases = [(f, z, h, o, host) for f in ("NOC_CTI", "NOC_polpred") for z, h in zones for o in offs for host in hosts]
    ck.explore("tide", cases, tide_case)
    years = [1999, 2000, 2016, 2019, 2020, 2038] + ([1970, 1972, 2001, 2004, 2023, 2024, 2099, 2100] if ck.thorough else [])
    ck.explore("conversions", [(y, m, h) for y in years for m in range(1, 13) for h in hosts], conv_case, note="every day of the given years")
    ck.explore("zones", ZONES[:-1] + [("bst", 1), ("BST", 1)], zone_case)
    ck.explore("file-names", [n + (x, h) for n in NAMES for x in instants(1) for h in hosts], name_case)
    n = len(instants(1000))
    orders = list(itertools.permutations([0, 7, n // 2, n - 1])) + list(itertools.product([1, n - 2], repeat=3))
    ck.explore("file-index", [(o, h) for o in orders for h in (hosts if ck.thorough else hosts[:3])], index_case)
    ck.finish()


if __name__ == "__main__":
    mc.main(body)
