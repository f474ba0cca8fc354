"""Synthetic dives: configuration files, nav_standard records, drivers and readers."""

import copy
import csv
import json
import math
from pathlib import Path

import numpy as np
import yaml

from lib.engine import quiet

EPOCH0 = 1_530_000_000.0


def rot(roll, pitch, yaw):
    """Body->inertial (NED), ZYX convention, degrees. Independent of the repository."""
    r, p, y = (math.radians(a) for a in (roll, pitch, yaw))
    rx = np.array([[1, 0, 0], [0, math.cos(r), -math.sin(r)], [0, math.sin(r), math.cos(r)]])
    ry = np.array([[math.cos(p), 0, math.sin(p)], [0, 1, 0], [-math.sin(p), 0, math.cos(p)]])
    rz = np.array([[math.cos(y), -math.sin(y), 0], [math.sin(y), math.cos(y), 0], [0, 0, 1]])
    return rz @ ry @ rx


def wrap180(a):
    return (np.asarray(a) + 180.0) % 360.0 - 180.0


def lerp(t, ts, ys):
    return np.interp(t, ts, ys)


def lerp_angle(t, ts, ys):
    """Shortest-arc piecewise linear interpolation, degrees."""
    un = np.degrees(np.unwrap(np.radians(np.asarray(ys, float))))
    return np.interp(t, ts, un) % 360.0


# --------------------------------------------------------------------------- records
def r_origin(lat, lon):
    return {"epoch_timestamp": 0.0, "class": "origin", "category": "origin",
            "data": [{"latitude": lat, "longitude": lon, "crs": "wgs84", "date": "2018/06/26"}]}


def r_vel(t, v, std=(0.02, 0.02, 0.02), t_dvl=None):
    return {"epoch_timestamp": t, "epoch_timestamp_dvl": t if t_dvl is None else t_dvl,
            "class": "measurement", "sensor": "sim", "frame": "body", "category": "velocity",
            "data": [{"x_velocity": v[0], "x_velocity_std": std[0]},
                     {"y_velocity": v[1], "y_velocity_std": std[1]},
                     {"z_velocity": v[2], "z_velocity_std": std[2]}]}


def r_ivel(t, v, std=(0.02, 0.02, 0.02)):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "inertial", "category": "velocity",
            "data": [{"north_velocity": v[0], "north_velocity_std": std[0]},
                     {"east_velocity": v[1], "east_velocity_std": std[1]},
                     {"down_velocity": v[2], "down_velocity_std": std[2]}]}


def r_ori(t, rpy, std=(0.1, 0.1, 0.1)):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "body",
            "category": "orientation",
            "data": [{"heading": rpy[2], "heading_std": std[2]},
                     {"roll": rpy[0], "roll_std": std[0]},
                     {"pitch": rpy[1], "pitch_std": std[1]}]}


def r_depth(t, d, std=0.05):
    return {"epoch_timestamp": t, "epoch_timestamp_depth": t, "class": "measurement", "sensor": "sim",
            "frame": "inertial", "category": "depth", "data": [{"depth": d, "depth_std": std}]}


def r_alt(t, a, std=0.05):
    return {"epoch_timestamp": t, "epoch_timestamp_dvl": t, "class": "measurement", "sensor": "sim",
            "frame": "body", "category": "altitude",
            "data": [{"altitude": a, "altitude_std": std},
                     {"sound_velocity": 1500.0, "sound_velocity_correction": 0.0}]}


def r_usbl(t, lat, lon, n, e, d, std=2.0, depth_std=2.0, dist=100.0, east_std=None):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "inertial",
            "category": "usbl",
            "data_ship": [{"latitude": lat, "longitude": lon}, {"northings": 0.0, "eastings": 0.0},
                          {"heading": 0.0}],
            "data_target": [{"latitude": lat, "latitude_std": 1e-5}, {"longitude": lon, "longitude_std": 1e-5},
                            {"northings": n, "northings_std": std}, {"eastings": e, "eastings_std": std if east_std is None else east_std},
                            {"depth": d, "depth_std": depth_std}, {"distance_to_ship": dist}]}


def r_img(t, f1, t2=None, f2=None):
    d = {"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "body", "category": "image",
         "camera1": [{"epoch_timestamp": t, "filename": f1}]}
    if f2 is not None:
        d["camera2"] = [{"epoch_timestamp": t if t2 is None else t2, "filename": f2}]
    return d


def r_laser(t, f):
    return {"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "body",
            "category": "laser", "filename": f}


# --------------------------------------------------------------------------- configuration
def off(x=0.0, y=0.0, z=0.0, roll=0.0, pitch=0.0, yaw=0.0):
    return {"surge_m": float(x), "sway_m": float(y), "heave_m": float(z),
            "roll_deg": float(roll), "pitch_deg": float(pitch), "yaw_deg": float(yaw)}


def vehicle_dict(origin=(0, 0, 0), ins=(0, 0, 0), dvl=(0, 0, 0), depth=(0, 0, 0), usbl=(0, 0, 0),
                 cams=None, payloads=None, dvl_yaw=0.0, ins_yaw=0.0):
    d = {"origin": off(*origin), "ins": off(*ins, yaw=ins_yaw), "dvl": off(*dvl, yaw=dvl_yaw),
         "depth": off(*depth), "usbl": off(*usbl)}
    for name, o in (cams or {}).items():
        d[name] = off(*o)
    if payloads:
        d["payloads"] = {k: off(*v) for k, v in payloads.items()}
    return d


def sensor_entry(fmt="sim", filepath="nav/", filename="x.txt", tz=0, timeoffset=0.0, **kw):
    d = {"format": fmt, "filepath": filepath, "filename": filename, "timezone": tz,
         "timeoffset": timeoffset, "std_factor": 0.0, "std_offset": 0.0}
    d.update(kw)
    return d


def mission_dict(lat, lon, cams=(), sensors=("velocity", "orientation", "depth", "altitude", "usbl"),
                 image_format="sim", image_tz=0, image_timeoffset=0.0, entries=None, payloads=None):
    d = {"version": 1,
         "origin": {"latitude": lat, "longitude": lon, "coordinate_reference_system": "wgs84",
                    "date": "2018/06/26"}}
    for s in sensors:
        d[s] = sensor_entry()
    for k, v in (entries or {}).items():
        d[k] = v
    if cams:
        d["image"] = {"format": image_format, "timezone": image_tz, "timeoffset": image_timeoffset,
                      "cameras": list(cams)}
    if payloads:
        d["payloads"] = payloads
    return d


PROC_DIAG = [0.05, 0.05, 0.06, 0.03, 0.03, 0.06, 0.025, 0.025, 0.04, 0.01, 0.01, 0.02]


def localisation_dict(ekf=False, smoother=True, pf=False, usbl_filter=False, max_speed=2.0, sigma=2.0,
                      particles=50, mahal=3.0, std=None, process_diag=None, init_diag=None, plots=False,
                      csv=True, init_full=None):
    pd_ = process_diag or PROC_DIAG
    id_ = init_diag or [1e-9] * 12
    std = std or {k: {"offset": 0.0, "factor": 0.0, "model": "sensor"}
                  for k in ("position_xy", "position_z", "speed", "orientation")}
    flags = {"auv_centre": True, "auv_dvl": True, "camera_1": True, "camera_2": True, "camera_3": True,
             "payload": True}
    return {
        "std": std,
        "usbl_filter": {"activate": bool(usbl_filter), "max_auv_speed": max_speed, "sigma_factor": sigma},
        "ekf": {"activate": bool(ekf), "activate_smoother": bool(smoother),
                "mahalanobis_distance_threshold": mahal,
                "process_noise_covariance": np.diag(pd_).ravel().tolist(),
                "initial_estimate_covariance": np.diag(id_).ravel().tolist()},
        "particle_filter": {"activate": bool(pf), "mode": "usbl", "dvl_noise_sigma_factor": 2,
                            "imu_noise_sigma_factor": 2, "usbl_noise_sigma_factor": 1,
                            "particles_number": particles, "particles_plot_time_interval": 600},
        "csv_output": {"activate": bool(csv), "usbl": True, "dead_reckoning": dict(flags),
                       "particle_filter": dict(flags), "ekf": dict(flags)},
        "spp_output": {"activate": False, "ekf": dict(flags)},
        "plot_output": {"activate": bool(plots), "html_plot": bool(plots)},
    }


class Dive:
    def __init__(self, root, cruise="2018", platform="auv", name="20180626_080000_sim"):
        self.root = Path(root)
        rel = Path(cruise) / platform / name
        self.raw = self.root / "raw" / rel
        self.processed = self.root / "processed" / rel
        self.config = self.root / "configuration" / rel
        for p in (self.raw, self.config):
            p.mkdir(parents=True, exist_ok=True)

    def write_config(self, mission, vehicle, camera=None):
        (self.raw / "mission.yaml").write_text(yaml.safe_dump(mission, sort_keys=False))
        (self.raw / "vehicle.yaml").write_text(yaml.safe_dump(vehicle, sort_keys=False))
        (self.raw / "camera.yaml").write_text(
            yaml.safe_dump(camera or {"camera_system": "sim", "cameras": []}, sort_keys=False))

    def write_localisation(self, loc):
        (self.config / "auv_nav.yaml").write_text(yaml.safe_dump(loc))

    def write_nav(self, records):
        p = self.processed / "nav"
        p.mkdir(parents=True, exist_ok=True)
        recs = sorted(records, key=lambda r: r["epoch_timestamp"])
        (p / "nav_standard.json").write_text(json.dumps(recs))

    def nav(self):
        return json.loads((self.processed / "nav" / "nav_standard.json").read_text())

    def renav(self):
        ds = sorted(self.processed.glob("json_renav_*"))
        return ds

    def process(self, force=True, start="", end="", **kw):
        from auv_nav.process import process

        with quiet():
            process(str(self.processed), force, start, end, **kw)
        ds = self.renav()
        return ds[-1] if ds else None

    def process_cli(self, *flags):
        """auv_nav process PATH FLAGS..., through the command line parser."""
        nav_main("process", self.processed, *flags)
        ds = self.renav()
        return ds[-1] if ds else None

    def parse(self, force=True):
        from auv_nav.parse import parse

        with quiet():
            parse([str(self.raw)], force, False)


def nav_main(*argv):
    from auv_nav.auv_nav import main

    with quiet():
        main([str(a) for a in argv])


def read_csv(path):
    """-> list of dict(str->str), header names stripped."""
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    if not rows:
        return []
    head = [h.strip() for h in rows[0]]
    return [dict(zip(head, (x.strip() for x in r))) for r in rows[1:] if r]


def col(rows, name):
    return np.array([float(r[name]) if r[name] not in ("None", "") else np.nan for r in rows])
