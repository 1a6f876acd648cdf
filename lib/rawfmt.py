"""Writers of raw instrument files, one per format the parsers accept.

A record is a dict: cal=(Y, M, D, h, m, s, us), and the physical values lat, lon,
depth, alt, roll, pitch, yaw, vx, vy, vz.  Each writer returns
(mission sections, {relative file: text}).  `res` is the time resolution [us] of
the format, `tz` says whether the mission's time zone and offset apply to it.
"""
import calendar

import dataset as D

VALUES = dict(lat=50.01, lon=-1.02, depth=20.5, alt=5.25, roll=1.5, pitch=-2.5, yaw=40.0, vx=0.5, vy=-0.25, vz=0.125)


def rec(cal, **over):
    r = dict(VALUES, cal=tuple(cal))
    r.update(over)
    return r


def epoch(cal):
    return calendar.timegm(cal[:6] + (0, 0, 0)) + cal[6] / 1e6


def nmea(body):
    c = 0
    for ch in body:
        c ^= ord(ch)
    return "$%s*%02X" % (body, c)


def dm(v, w):
    """Nautical ddmm.mmmmmm of |v|, degrees padded to w digits (minutes never reach 60)."""
    v = abs(v)
    d = int(v)
    m = "%09.6f" % ((v - d) * 60)
    if m.startswith("60"):
        d, m = d + 1, "00.000000"
    return d, m


def ll(lat, lon):
    a, b = dm(lat, 2), dm(lon, 3)
    return "%02d%s" % a, "N" if lat >= 0 else "S", "%03d%s" % b, "E" if lon >= 0 else "W"


def sec(fmt, path, tz, off, **kw):
    return dict({"format": fmt, "filepath": path, "timezone": tz, "timeoffset": off, "std_factor": 0.01, "std_offset": 0.5}, **kw)


def day(c):
    return "%04d%02d%02d" % c[:3]


# ------------------------------------------------------------------ navigation
def phins(recs, tz=0, off=0.0, digits=3):
    fn = day(recs[0]["cal"]) + "_phins.txt"
    lines = []
    for r in recs:
        c = r["cal"]
        t = "%02d%02d%02d.%06d" % (c[3:6] + (c[6] // 1000 * 1000,))
        t = t[: 7 + digits]
        lines += [
            D.phins("PIXSE,TIME__,%s" % t), D.phins("HEHDT,%.3f,T" % r["yaw"]), D.phins("PIXSE,ATITUD,%.3f,%.3f" % (r["roll"], r["pitch"])),
            D.phins("PIXSE,STDHRP,0.050,0.010,0.020"), D.phins("PIXSE,LOGIN_,%.3f,%.3f,%.3f,0.1,%s" % (r["vx"], r["vy"], r["vz"], t)),
            D.phins("PIXSE,DEPIN_,%.3f,%s" % (r["depth"], t)), D.phins("PIXSE,LOGDVL,1500.000,0.500,%.3f" % r["alt"]),
        ]
    m = {k: sec("phins", "nav/", tz, off, filename=fn) for k in ("velocity", "orientation", "depth", "altitude")}
    return m, {"nav/" + fn: "\r\n".join(lines) + "\r\n"}


def usbl_dump(recs, tz=0, off=0.0):
    lines = []
    for r in recs:
        c = r["cal"]
        (a, am), (b, bm) = dm(r["lat"], 0), dm(r["lon"], 0)
        lines.append("%04d-%02d-%02d,%02d:%02d:%02d,AUV,a,b,c,%d-%s %s,%d-%s %s,D=%.3f,L=10.0,B=20.0,S=%.3f" % (
            c[:6] + (a, am, "N" if r["lat"] >= 0 else "S", b, bm, "E" if r["lon"] >= 0 else "W", r["depth"], r.get("range", 30.0))))
    return {"usbl": sec("usbl_dump", "nav/", tz, off, filename="usbl.csv", label="AUV")}, {"nav/usbl.csv": "\n".join(lines) + "\n"}


def gaps(recs, tz=0, off=0.0):
    lines = []
    for k, r in enumerate(recs):
        c = r["cal"]
        t0 = epoch(c)
        la, ns, lo, ew = ll(r["lat"], r["lon"])
        ship0 = ll(r.get("slat", 50.0), r.get("slon", -1.0))
        ship1 = ll(r.get("slat1", r.get("slat", 50.0)), r.get("slon1", r.get("slon", -1.0)))

        def stamp(e):
            import datetime

            d = datetime.datetime.fromtimestamp(0, datetime.timezone.utc) + datetime.timedelta(microseconds=round(e * 1e6))
            return "%02d%02d%02d.%03d,%02d,%02d,%04d" % (d.hour, d.minute, d.second, d.microsecond // 1000, d.day, d.month, d.year)

        ship = lambda e, at: nmea("PTSAG,#1,%s,0,%s,%s,%s,%s,F,0000,1,0,9999*" % ((stamp(e),) + tuple(at)))
        lines += [
            ship(t0 - r.get("before", 1.0), ship0), nmea("HEHDT,%.2f,T" % r.get("head0", 10.0)),
            nmea("PTSAG,#2,%s,4,%s,%s,%s,%s,F,%.2f,1,0,9999*" % (stamp(t0), la, ns, lo, ew, r["depth"])),
            ship(t0 + r.get("after", 1.0), ship1), nmea("HEHDT,%.2f,T" % r.get("head1", 10.0)),
        ]
    return {"usbl": sec("gaps", "nav/", tz, off, label=4)}, {"nav/gaps.dat": "\n".join(lines) + "\n"}


def noc_nmea(recs, tz=0, off=0.0):
    lines = []
    for r in recs:
        c = r["cal"]
        la, ns, lo, ew = ll(r["lat"], r["lon"])
        lines.append("%02d/%02d/%04d %02d:%02d:%02d\t%s" % (
            c[2], c[1], c[0], c[3], c[4], c[5],
            nmea("GPGGA,%02d%02d%02d.%03d,%s,%s,%s,%s,1,08,0.9,%.3f,M,0.0,M,0.0,0004" % (c[3:6] + (c[6] // 1000, la, ns, lo, ew, -r["depth"])))))
    return {"usbl": sec("NOC_nmea", "nav/", tz, off, label=4)}, {"nav/usbl.txt": "\n".join(lines) + "\n"}


def eiva(recs, tz=0, off=0.0):
    lines = []
    for r in recs:
        c = r["cal"]
        t = "%04d:%02d:%02d:%02d:%02d:%02d.%03d" % (c[:6] + (c[6] // 1000,))
        lines.append("R132  4 %s %s" % (t, nmea("PRDID,%.2f,%.2f,%.2f" % (r["pitch"], r["roll"], r["yaw"]))))
        lines.append("D     4  19  1 %s %.3f" % (t, r["depth"]))
        lines.append("P  D    4 %s 1.0 2.0 %.3f %.9f %.9f" % (t, -r["depth"], r["lat"], r["lon"]))
    m = {k: sec("eiva_navipac", "nav/", tz, off, filename="", label=4) for k in ("orientation", "depth", "usbl")}
    return m, {"nav/log_G.NPD": "\n".join(lines) + "\n"}


NTNU = ["time", "X_tp", "Y_tp", "Z_pg", "phi", "theta", "psi", "u_dvl", "v_dvl", "z_dvl", "p", "q", "r"] + ["MT_DATA%02d" % i for i in range(43)] + [
    "dvl_alt0", "dvl_alt1", "dvl_alt2", "dvl_alt3", "ship_pos_x", "ship_pos_y", "ship_pos_psi", "pressure_kpa", "rov_str_z", "rov_str_psi", "rov_str_r"]


def ntnu_dvl(recs, tz=0, off=0.0):
    fn = day(recs[0]["cal"]) + "_rov.log"
    lines = ["head", "units"]
    for r in recs:
        c = r["cal"]
        v = {"time": "%02d:%02d:%02d.%06d" % c[3:7], "u_dvl": r["vx"], "v_dvl": r["vy"], "z_dvl": r["vz"], "dvl_alt1": r["alt"], "dvl_alt3": r["alt"]}
        lines.append("\t".join(str(v.get(k, 0.0)) for k in NTNU))
    return {k: sec("ntnu_dvl", "nav/", tz, off, filename=fn) for k in ("velocity", "altitude")}, {"nav/" + fn: "\n".join(lines) + "\n"}


def koyo21(recs, tz=0, off=0.0):
    raw = ["Date,Time,LatD,Roll,Pich,Hedding,Depth(ROV),ALT"]
    pos = ["timestamp,Hedding,Lat,Lon,Depth(ROV),ALT,dist,Lat_flt,Lon_flt,calc_depth"]
    vel = ["timestamp,surge,heave"]
    for r in recs:
        c = r["cal"]
        raw.append("%04d/%02d/%02d,%02d:%02d:%02d,0,%s,%s,%s,%s,%s" % (c[:6] + (r["roll"], r["pitch"], r["yaw"], r["depth"], r["alt"])))
        pos.append("%04d-%02d-%02d %02d:%02d:%02d,%s,0,0,%s,%s,0,%.9f,%.9f,0" % (c[:6] + (r["yaw"], r["depth"], r["alt"], r["lat"], r["lon"])))
        vel.append("%04d-%02d-%02d %02d:%02d:%02d,%s,%s" % (c[:6] + (r["vx"], r["vz"])))
    m = {k: sec("koyo21rov", "nav/", tz, off, filename="raw.csv") for k in ("orientation", "depth", "altitude")}
    m["usbl"] = sec("koyo21rov", "nav/", tz, off, filename="pos.csv", label=4)
    m["velocity"] = sec("koyo21rov", "nav/", tz, off, filename="vel.csv")
    return m, {"nav/raw.csv": "\n".join(raw) + "\n", "nav/pos.csv": "\n".join(pos) + "\n", "nav/vel.csv": "\n".join(vel) + "\n"}


def ae2000(recs, tz=0, off=0.0):
    c = recs[0]["cal"]
    st = "%02d%02d%02d000000" % (c[0] % 100, c[1], c[2])
    dvl = ["n,date,dvl_validBottom,dvl_surgeVelBottom,dvl_swayVelBottom,dvl_heaveVelBottom,dvl_rangeBottom"]
    qua = ["n,date,roll,pitch,yaw,rrate,prate,yrate"]
    pos = ["n,date,Depth"]
    for k, r in enumerate(recs):
        c = r["cal"]
        t = "%04d/%02d/%02d %02d:%02d:%02d.%03d" % (c[:6] + (c[6] // 1000,))
        dvl.append("%d,%s,1,%s,%s,%s,%s" % (k, t, r["vx"] * 1000, r["vy"] * 1000, r["vz"] * 1000, r["alt"]))
        qua.append("%d,%s,%s,%s,%s,0,0,0" % (k, t, r["roll"], r["pitch"], r["yaw"]))
        pos.append("%d,%s,%s" % (k, t, r["depth"] + 0.001 * k))
    f = {"velocity": "dvl" + st + ".csv", "altitude": "dvl" + st + ".csv", "orientation": "quadrans" + st + ".csv", "depth": "pos" + st + ".csv"}
    m = {k: sec("ae2000", "nav/", tz, off, filename=v) for k, v in f.items()}
    return m, {"nav/" + f["velocity"]: "\n".join(dvl) + "\n", "nav/" + f["orientation"]: "\n".join(qua) + "\n", "nav/" + f["depth"]: "\n".join(pos) + "\n"}


# ------------------------------------------------------------------ images
def _img(fmt, tz, off, names, paths):
    return {"image": {"format": fmt, "timezone": tz, "timeoffset": off, "cameras": [
        {"name": n, "origin": "cam%d" % (i + 1), "path": p} for i, (n, p) in enumerate(zip(names, paths))]}}


def img_acfr(recs, tz=0, off=0.0):
    f = {}
    for r in recs:
        c = r["cal"]
        for s in ("LC", "RC"):
            f["image/PR_%s_%02d%02d%02d_%03d_%s16.tif" % ((day(c),) + c[3:6] + (c[6] // 1000, s))] = ""
    return _img("acfr_standard", tz, off, ["LC", "RC"], ["image", "image"]), f


def img_ntnu(recs, tz=0, off=0.0):
    f = {}
    for r in recs:
        c = r["cal"]
        for s in ("L", "R"):
            f["image/%s-%02d%02d%02d.%04d%s.jpg" % ((day(c)[2:],) + c[3:6] + (c[6] // 100, s))] = ""
    return _img("ntnu_stereo", tz, off, ["L", "R"], ["image", "image"]), f


def img_sx3(recs, tz=0, off=0.0):
    rows = ["index,date,time,ms"]
    las = ["index,date,time,ms"]
    f = {}
    for k, r in enumerate(recs):
        c = r["cal"]
        row = "%07d,%s,%02d%02d%02d,%03d" % ((k, day(c)) + c[3:6] + (c[6] // 1000,))
        rows.append(row)
        las.append(row)
        f["image/LM165/000/image%07d.tif" % k] = ""
    f["image/FileTime.csv"] = "\n".join(rows) + "\n"
    f["image/LM165/FileTime.csv"] = "\n".join(las) + "\n"
    f["image/c1/x"] = f["image/c2/x"] = ""
    m = _img("seaxerocks_3", tz, off, ["Cam51707923", "Cam51707925", "LM165"], ["image/c1", "image/c2", "image/LM165"])
    return m, f


def img_biocam(recs, tz=0, off=0.0):
    f = {}
    for r in recs:
        c = r["cal"]
        t = "%s_%02d%02d%02d_%06d" % ((day(c),) + c[3:7])
        for d, s in (("LC_strobe", "pcoc"), ("RC_strobe", "pcom")):
            f["image/%s/%s_%s_%s.tif" % (d, t, t, s)] = ""
    f["image/LC_laser/x"] = ""
    f["image/RC_laser/x"] = ""
    return _img("biocam4000_15c", tz, off, ["LC", "RC"], ["image", "image"]), f


# name: (writer, resolution in us, zone applies, one day per file, {category: entries per record})
NAV = {
    "phins": (phins, 1000, True, True),
    "phins, times to the microsecond": (lambda recs, tz=0, off=0.0: phins(recs, tz, off, 6), 1000, True, True),
    "usbl_dump": (usbl_dump, 1000000, True, False),
    "gaps": (gaps, 1000, True, False),
    "NOC_nmea": (noc_nmea, 1000, True, False),
    "eiva_navipac": (eiva, 1000, False, False),
    "ntnu_dvl": (ntnu_dvl, 1, False, True),
    "koyo21rov": (koyo21, 1000000, False, False),
    "ae2000": (ae2000, 1000, None, False),
}
IMG = {
    "acfr_standard": (img_acfr, 1000, True, False),
    "ntnu_stereo": (img_ntnu, 100, True, False),
    "seaxerocks_3": (img_sx3, 1000, True, False),
    "biocam4000_15c": (img_biocam, 1, True, False),
}
