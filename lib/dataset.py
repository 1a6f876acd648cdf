"""Tiny synthetic dives: raw/processed/configuration trees the real commands run on."""
import copy
import json
from pathlib import Path

import yaml

T0 = 1500000000.0  # 2017-07-14 02:40:00 UTC


def off(surge=0.0, sway=0.0, heave=0.0, roll=0.0, pitch=0.0, yaw=0.0):
    return dict(surge_m=surge, sway_m=sway, heave_m=heave, roll_deg=roll, pitch_deg=pitch, yaw_deg=yaw)


VEHICLE = {
    "origin": off(),
    "ins": off(),
    "dvl": off(0.5, 0.1, 0.2),
    "depth": off(0.3, -0.2, 0.4),
    "usbl": off(0.1, 0.0, -0.5),
    "cam1": off(1.0, 0.25, 0.5),
    "cam2": off(1.5, -0.25, 0.6),
    "cam3": off(-1.0, 0.0, 0.75),
}


def vehicle_yaml(**over):
    v = copy.deepcopy(VEHICLE)
    v.update(over)
    return v


def mission_yaml(lat=50.0, lon=-1.0, cameras=2, fmt="seaxerocks_3", **over):
    m = {
        "version": 1,
        "origin": {
            "latitude": lat,
            "longitude": lon,
            "coordinate_reference_system": "wgs84",
            "date": "2017/07/14",
        },
        "velocity": {"format": "phins", "filepath": "nav/", "filename": "phins.log", "timezone": 0, "timeoffset": 0.0, "std_factor": 0.001, "std_offset": 0.002},
        "orientation": {"format": "phins", "filepath": "nav/", "filename": "phins.log", "timezone": 0, "timeoffset": 0.0, "std_factor": 0.0, "std_offset": 0.003},
        "depth": {"format": "phins", "filepath": "nav/", "filename": "phins.log", "timezone": 0, "timeoffset": 0.0, "std_factor": 0.0, "std_offset": 0.1},
        "altitude": {"format": "phins", "filepath": "nav/", "filename": "phins.log", "timezone": 0, "timeoffset": 0.0, "std_factor": 0.0, "std_offset": 0.1},
        "usbl": {"format": "gaps", "filepath": "nav/", "timezone": 0, "timeoffset": 0.0, "label": 4, "std_factor": 0.01, "std_offset": 2.0},
    }
    if cameras:
        m["image"] = {
            "format": fmt,
            "timezone": 0,
            "timeoffset": 0.0,
            "cameras": [
                {"name": "cam%d" % (i + 1), "origin": "cam%d" % (i + 1), "path": "image/cam%d" % (i + 1)}
                for i in range(cameras)
            ],
        }
    m.update(over)
    for k in [k for k, v in m.items() if v is None]:
        del m[k]
    return m


def nav_config(ekf=False, smoother=True, spp=False, csv=True, usbl_filter=False, plots=False, threshold=3.0, pf=False):
    eye = lambda d: [float(d[i]) if i == j else 0.0 for i in range(12) for j in range(12)]
    cam = {"auv_centre": True, "camera_1": True, "camera_2": True, "camera_3": True}
    return {
        "version": 1,
        "usbl_filter": {"activate": usbl_filter, "max_auv_speed": 0.1, "sigma_factor": 2},
        "std": {
            "position_xy": {"model": "linear", "offset": 2.0, "factor": 0.01},
            "speed": {"model": "linear", "offset_x": 0.1, "factor_x": 0.01, "offset_y": 0.1, "factor_y": 0.01, "offset_z": 0.1, "factor_z": 0.01, "offset": 0.1, "factor": 0.01},
            "position_z": {"model": "linear", "offset": 0.05, "factor": 0.01},
            "orientation": {"model": "linear", "offset": 0.05, "factor": 0.01, "offset_x": 0.05, "factor_x": 0.0, "offset_y": 0.05, "factor_y": 0.0, "offset_z": 0.05, "factor_z": 0.0},
        },
        "particle_filter": {
            "activate": pf,
            "dvl_noise_sigma_factor": 2.0,
            "imu_noise_sigma_factor": 2.0,
            "usbl_noise_sigma_factor": 1.0,
            "particles_number": 20,
            "particles_plot_time_interval": 300,
        },
        "ekf": {
            "activate": ekf,
            "activate_smoother": smoother,
            "mahalanobis_distance_threshold": threshold,
            "process_noise_covariance": eye([1e-4] * 12),
            "initial_estimate_covariance": eye([1.0] * 12),
        },
        "csv_output": {
            "activate": csv,
            "usbl": True,
            "dead_reckoning": dict(cam, auv_dvl=True),
            "particle_filter": dict(cam, auv_dvl=True),
            "ekf": dict(cam),
        },
        "spp_output": {"activate": spp, "ekf": {"camera_1": True, "camera_2": True, "camera_3": True}},
        "plot_output": {"activate": plots, "pdf_plot": False, "html_plot": plots},
    }


# ---------------------------------------------------------------- json items
def j_origin(lat=50.0, lon=-1.0):
    return {
        "epoch_timestamp": 0.0,
        "class": "origin",
        "category": "origin",
        "data": [{"latitude": lat, "longitude": lon, "crs": "wgs84", "date": "2017/07/14"}],
    }


def j_vel(t, vx, vy, vz, std=0.05, dvl_t=None):
    return {
        "epoch_timestamp": t,
        "epoch_timestamp_dvl": t if dvl_t is None else dvl_t,
        "class": "measurement",
        "sensor": "phins",
        "frame": "body",
        "category": "velocity",
        "data": [
            {"x_velocity": vx, "x_velocity_std": std},
            {"y_velocity": vy, "y_velocity_std": std},
            {"z_velocity": vz, "z_velocity_std": std},
        ],
    }


def j_ivel(t, vn, ve, vd, std=0.05, lat=50.0, lon=-1.0):
    return {
        "epoch_timestamp": t,
        "class": "measurement",
        "sensor": "phins",
        "frame": "inertial",
        "category": "velocity",
        "data": [
            {"north_velocity": vn, "north_velocity_std": std},
            {"east_velocity": ve, "east_velocity_std": std},
            {"down_velocity": vd, "down_velocity_std": std},
        ],
    }


def j_ori(t, roll, pitch, yaw, std=0.05):
    return {
        "epoch_timestamp": t,
        "class": "measurement",
        "sensor": "phins",
        "frame": "body",
        "category": "orientation",
        "data": [
            {"heading": yaw, "heading_std": std},
            {"roll": roll, "roll_std": std},
            {"pitch": pitch, "pitch_std": std},
        ],
    }


def j_depth(t, d, std=0.1):
    return {
        "epoch_timestamp": t,
        "epoch_timestamp_depth": t,
        "class": "measurement",
        "sensor": "phins",
        "frame": "inertial",
        "category": "depth",
        "data": [{"depth": d, "depth_std": std}],
    }


def j_alt(t, a, std=0.1):
    return {
        "epoch_timestamp": t,
        "epoch_timestamp_dvl": t,
        "class": "measurement",
        "sensor": "phins",
        "frame": "body",
        "category": "altitude",
        "data": [{"altitude": a, "altitude_std": std}, {"sound_velocity": 1500.0, "sound_velocity_correction": 0.0}],
    }


def j_usbl(t, n, e, d, lat=None, lon=None, std=1.0, dist=50.0):
    import sys
    from geographiclib.geodesic import Geodesic
    import math

    if lat is None:
        r = Geodesic.WGS84.Direct(50.0, -1.0, math.degrees(math.atan2(e, n)), math.hypot(n, e))
        lat, lon = r["lat2"], r["lon2"]
    return {
        "epoch_timestamp": t,
        "class": "measurement",
        "sensor": "gaps",
        "frame": "inertial",
        "category": "usbl",
        "data_ship": [{"latitude": lat, "longitude": lon}, {"northings": n, "eastings": e}, {"heading": 0.0}],
        "data_target": [
            {"latitude": lat, "latitude_std": 1e-5},
            {"longitude": lon, "longitude_std": 1e-5},
            {"northings": n, "northings_std": std},
            {"eastings": e, "eastings_std": std},
            {"depth": d, "depth_std": std},
            {"distance_to_ship": dist},
        ],
    }


def j_img(t, f1, f2=None, dt2=0.0):
    d = {
        "epoch_timestamp": t,
        "class": "measurement",
        "sensor": "cam",
        "frame": "body",
        "category": "image",
        "camera1": [{"epoch_timestamp": t, "filename": f1}],
    }
    if f2 is not None:
        d["camera2"] = [{"epoch_timestamp": t + dt2, "filename": f2}]
    return d


def j_laser(t, f):
    return {
        "epoch_timestamp": t,
        "class": "measurement",
        "sensor": "laser",
        "frame": "body",
        "category": "laser",
        "filename": f,
    }


# ---------------------------------------------------------------- on disk
def make_dive(root, items=None, vehicle=None, mission=None, config=None, name="dive1", camera=None):
    """Create raw/ (yaml), optionally processed/ (nav_standard.json) and configuration/."""
    root = Path(root)
    raw = root / "raw" / "y" / name
    pro = root / "processed" / "y" / name
    cfg = root / "configuration" / "y" / name
    raw.mkdir(parents=True, exist_ok=True)
    (raw / "vehicle.yaml").write_text(yaml.safe_dump(vehicle or vehicle_yaml()))
    (raw / "mission.yaml").write_text(yaml.safe_dump(mission or mission_yaml()))
    if camera is not None:
        (raw / "camera.yaml").write_text(yaml.safe_dump(camera))
    if items is not None:
        (pro / "nav").mkdir(parents=True, exist_ok=True)
        (pro / "nav" / "nav_standard.json").write_text(json.dumps(items))
    if config is not None:
        cfg.mkdir(parents=True, exist_ok=True)
        (cfg / "auv_nav.yaml").write_text(yaml.safe_dump(config))
    return raw, pro, cfg


# ---------------------------------------------------------------- raw dives
def phins(body):
    """One PHINS sentence with its checksum; body starts after '$'."""
    c = 0
    for ch in body:
        c ^= ord(ch)
    return "$%s*%02X" % (body, c)


def hms(sod):
    """Seconds of day -> hhmmss.mmm"""
    ms = int(round(sod * 1000))
    h, ms = divmod(ms, 3600000)
    m, ms = divmod(ms, 60000)
    s, ms = divmod(ms, 1000)
    return "%02d%02d%02d.%03d" % (h, m, s, ms)


def phins_burst(sod, vel=(1.0, 0.1, 0.05), yaw=10.0, roll=1.0, pitch=-2.0, depth=20.0, alt=5.0, speed=(0.1, 0.2, 0.3), dvl_lag=0.1, depth_lag=0.2):
    t = hms(sod)
    return [
        phins("PIXSE,TIME__,%s" % t),
        phins("HEHDT,%.3f,T" % yaw),
        phins("PIXSE,ATITUD,%.3f,%.3f" % (roll, pitch)),
        phins("PIXSE,STDHRP,0.050,0.010,0.020"),
        phins("PIXSE,LOGIN_,%.3f,%.3f,%.3f,0.1,%s" % (vel + (hms(sod - dvl_lag),))),
        phins("PIXSE,SPEED_,%.3f,%.3f,%.3f" % speed),
        phins("PIXSE,STDSPD,0.011,0.012,0.013"),
        phins("PIXSE,DEPIN_,%.3f,%s" % (depth, hms(sod - depth_lag))),
        phins("PIXSE,LOGDVL,1500.000,0.500,%.3f" % alt),
    ]


def usbl_line(date, time, label, lat, lon, depth, lateral, bearing, distance):
    def dm(v, pos, neg):
        h = pos if v >= 0 else neg
        v = abs(v)
        d = int(v)
        return "%d-%.6f %s" % (d, (v - d) * 60, h)

    return "%s,%s,%s,a,b,c,%s,%s,D=%.3f,L=%.3f,B=%.3f,S=%.3f" % (
        date, time, label, dm(lat, "N", "S"), dm(lon, "E", "W"), depth, lateral, bearing, distance)


def raw_mission(day="20170714", tz=0, off=0.0, images=True, usbl=True, tide=False, lat=50.0, lon=-1.0, img_fmt="acfr_standard", **over):
    base = lambda: {"format": "phins", "filepath": "nav/phins/", "filename": day + "_phins.txt", "timezone": tz, "timeoffset": off, "std_factor": 0.001, "std_offset": 0.002}
    m = {
        "version": 1,
        "origin": {"latitude": lat, "longitude": lon, "coordinate_reference_system": "wgs84", "date": "2017/07/14"},
        "velocity": base(), "orientation": base(), "depth": base(), "altitude": base(),
    }
    if usbl:
        m["usbl"] = {"format": "usbl_dump", "filepath": "nav/usbl/", "filename": "usbl.csv", "label": "AUV", "timezone": tz, "timeoffset": off, "std_factor": 0.01, "std_offset": 2.0}
    if images:
        m["image"] = {
            "format": img_fmt, "timezone": tz, "timeoffset": off,
            "cameras": [
                {"name": "LC", "origin": "cam1", "path": "image"},
                {"name": "RC", "origin": "cam2", "path": "image"},
            ],
        }
    if tide:
        m["tide"] = {"format": "NOC_CTI", "filepath": "tide/", "timezone": tz, "timeoffset": 0.0, "std_factor": 0.01, "std_offset": 0.1}
    m.update(over)
    return m


def make_raw(root, name="20170714_024000_dive", mission=None, vehicle=None, phins_lines=(), usbl_lines=(), images=(), tide_files=None, extra=None):
    """Raw folder with real instrument files (images are (relative path, bytes or None))."""
    raw, pro, cfg = make_dive(root, None, vehicle, mission or raw_mission(), None, name, camera={"cameras": []})
    m = mission or raw_mission()
    d = raw / "nav" / "phins"
    d.mkdir(parents=True, exist_ok=True)
    (d / m["velocity"]["filename"]).write_text("\r\n".join(phins_lines) + ("\r\n" if phins_lines else ""))
    if "usbl" in m:
        d = raw / "nav" / "usbl"
        d.mkdir(parents=True, exist_ok=True)
        (d / "usbl.csv").write_text("\n".join(usbl_lines) + ("\n" if usbl_lines else ""))
    if "image" in m:
        (raw / "image").mkdir(exist_ok=True)
    for item in images:
        p = raw / (item if isinstance(item, str) else item[0])
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b"" if isinstance(item, str) else item[1])
    if tide_files is not None:
        (raw / "tide").mkdir(exist_ok=True)
        for fn, rows in tide_files.items():
            (raw / "tide" / fn).write_text("\n".join(["h%d" % i for i in range(6)] + list(rows)) + "\n")
    for fn, text in (extra or {}).items():
        p = raw / fn
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_text(text)
    return raw, pro, cfg


def no_parse_plots():
    import auv_nav.parse as P

    if hasattr(P, "plot_parse_data"):
        P.plot_parse_data = lambda *a, **k: None


def stub_version():
    """The pipeline may not be pip-installed in the interpreter that runs the checks."""
    import importlib.metadata as im

    orig = im.version

    def version(name):
        try:
            return orig(name)
        except im.PackageNotFoundError:
            return "0"

    im.version = version


def nav_json(pro):
    return json.loads((Path(pro) / "nav" / "nav_standard.json").read_text())
