"""C04 poses of images, laser images and payload samples in the outputs of auv_nav process."""
import math

import numpy as np
from geographiclib.geodesic import Geodesic

from lib import dive as D
from lib.engine import case_rng, scratch
from lib.navsim import Nav

PID = "C04"
RULE = ("random synthetic dives with one to three cameras, laser images and a payload, images before/after/exactly on the "
        "navigation span, images sharing a timestamp, run through the real process() with dead reckoning, EKF and particle "
        "filter outputs; non-trivial: every (image or sample, solution) pair whose pose was compared")
REQUIRED = {"dr:set": 8, "dr:pose": 100, "ekf:set": 8, "ekf:pose": 100, "pf:set": 4, "pf:pose": 50, "laser:pose": 20,
            "payload:pose": 20, "geographic": 50, "dr:vehicle": 100, "ekf:vehicle": 100, "pf:vehicle": 50, "dr:std": 50, "ekf:std": 50}
CASE_TIMEOUT = 90


def cases(rng, tier):
    n = 12 if tier == "quick" else 40
    return [{"kind": k, "i": i} for i in range(n) for k in ("dr", "ekf", "pf", "laser", "payload", "edge", "two", "few")]


def run_case(case, rec):
    rng = case_rng(case)
    kind = case["kind"]
    kw = dict(dur=float(rng.choice([20, 30])), usbl_dt=1.5, cams=int(rng.integers(1, 3)), turning=True)
    if kind == "laser":
        kw.update(cams=int(rng.integers(2, 4)), laser=True)
    if kind in ("edge",):
        kw.update(cam_before=float(rng.uniform(0, 6)), cam_after=float(rng.uniform(0, 6)), cam_exact=True,
                  dup_images=bool(rng.random() < 0.5))
    if kind == "two":
        kw.update(cams=2, cam2_skew=float(rng.choice([0.0, 0.013, -0.02])))
    nav = Nav(rng, **kw)
    if kind == "edge":  # an image at the first instant of the track
        nav.cam_t = np.unique(np.concatenate([nav.cam_t, nav.ori_t[nav.ori_t >= nav.vel_t[0]][:2]]))
    nousbl = False
    if kind == "few":  # a single image, none within the track, or no USBL for the particle filter
        sel = rng.integers(0, 3)
        k = int(rng.integers(2, len(nav.cam_t) - 2))
        if sel == 0:
            nav.cam_t = nav.cam_t[k:k + 1]
        elif sel == 1:
            nav.cam_t = nav.t1 + 5 + np.arange(4.0) if rng.random() < 0.5 else nav.t0 - 5 - np.arange(4.0)[::-1]
        else:
            nousbl = True
    ekf = kind in ("ekf", "laser", "payload", "edge") or rng.random() < 0.4
    pf = kind in ("pf", "few") or (kind == "payload" and rng.random() < 0.5)
    pay = None
    with scratch() as root:
        d = D.Dive(root)
        mission, vehicle = nav.mission(), nav.vehicle()
        laser_cam = nav.cam_names[-1]
        if nav.laser and len(nav.cam_names) == 2:  # BioCam: one of the two cameras records the laser
            laser_cam = nav.cam_names[int(rng.integers(0, 2))]
            mission["image"]["format"] = "biocam"
            for c in mission["image"]["cameras"]:
                c["records_laser"] = c["name"] == laser_cam
        if kind == "payload":
            pay = {"off": [round(float(x), 3) for x in rng.uniform(-2, 2, 3)],
                   "t": np.round(np.sort(rng.uniform(nav.t0 - 2, nav.t1 + 2, 25)), 3),
                   "timeoffset": float(rng.choice([0.0, 2.5, -1.25]))}
            vehicle["payloads"] = {"ctd": D.off(*pay["off"])}
            mission["payloads"] = {"ctd": {"path": "ctd/ctd.csv", "format": "generic_csv", "timezone": 0,
                                           "timeoffset": pay["timeoffset"]}}
            (d.raw / "ctd").mkdir()
            with open(d.raw / "ctd/ctd.csv", "w") as f:
                f.write("corrected_timestamp,temp,idx\n")
                for i, t in enumerate(pay["t"]):
                    f.write("%r,%r,%d\n" % (float(t), float(10 + i / 7), i))
        d.write_config(mission, vehicle)
        d.write_localisation(D.localisation_dict(ekf=ekf, pf=pf, particles=12, smoother=bool(rng.random() < 0.7)))
        recs = nav.records()
        if nousbl:
            recs = [r for r in recs if r["category"] != "usbl"]
        d.write_nav(recs)
        wit = dict(options=kw, ekf=ekf, pf=pf)
        with rec.guard("dr:set", "process() on a valid dive", **wit):
            out = d.process()
            images = sorted((r for r in recs if r["category"] == "image"), key=lambda r: r["epoch_timestamp"])
            lasers = sorted((r for r in recs if r["category"] == "laser"), key=lambda r: r["epoch_timestamp"])
            for sol, folder, on in (("dr", "dead_reckoning", True), ("ekf", "ekf", ekf), ("pf", "particle_filter", pf)):
                if not on:
                    continue
                base = out / "csv" / folder
                if sol == "pf" and nousbl:
                    left = [p.name for p in base.glob("*.csv") if D.read_csv(p)] if base.exists() else []
                    rec.check("pf:set", not left, "particle filter tables %s although the filter did not run" % left, **wit)
                    continue
                cp = base / ("auv_%s_centre.csv" % sol)
                if not rec.check(sol + ":set", cp.exists(), "%s missing" % cp.name, **wit):
                    continue
                centre = Track(D.read_csv(cp))
                vehicle_pose(rec, nav, sol, out, centre, wit)
                for n, name in enumerate(nav.cam_names[:2]):
                    want = [(r["camera%d" % (n + 1)][0]["filename"], r["camera%d" % (n + 1)][0]["epoch_timestamp"])
                            for r in images]
                    compare(rec, nav, sol, sol, base / ("auv_%s_%s.csv" % (sol, name)), centre, want,
                            nav.cam_off[name], wit)
                if nav.laser:
                    name = nav.cam_names[-1]
                    lo = nav.cam_off[laser_cam]
                    want = [(r["filename"], r["epoch_timestamp"]) for r in lasers]
                    compare(rec, nav, sol, "laser", base / ("auv_%s_%s_laser.csv" % (sol, name)), centre, want, lo, wit)
                    if sol == "ekf":
                        compare(rec, nav, sol, "laser", base / ("auv_ekf_%s_laser_at_dvl.csv" % name), centre, want, nav.dvl_off, wit)
                if pay:
                    payload(rec, nav, sol, base, centre, pay, wit)
        rec.case()
        rec.seen(kind, nav.t0, len(images))


class Track:
    def __init__(self, rows):
        self.t = D.col(rows, "timestamp")
        self.c = {k: D.col(rows, h) for k, h in (("n", "northing [m]"), ("e", "easting [m]"), ("d", "depth [m]"),
                                                  ("a", "altitude [m]"), ("roll", "roll [deg]"), ("pitch", "pitch [deg]"))}
        self.yaw = D.col(rows, "heading [deg]")
        self.std = {h: D.col(rows, h) for h in rows[0] if h.startswith("vehicle_std")}
        self.rows = rows

    def at(self, t):
        k = int(np.clip(np.searchsorted(self.t, t), 1, len(self.t) - 1))
        t0, t1 = self.t[k - 1], self.t[k]
        x = 0.0 if t1 == t0 else (t - t0) / (t1 - t0)
        o = {q: v[k - 1] * (1 - x) + v[k] * x for q, v in self.c.items()}
        o["yaw"] = self.yaw[k - 1] + float(D.wrap180(self.yaw[k] - self.yaw[k - 1])) * x
        return o

    def deviation(self, t):
        """Standard deviations of the vehicle at that instant."""
        k = int(np.clip(np.searchsorted(self.t, t), 1, len(self.t) - 1))
        x = (t - self.t[k - 1]) / (self.t[k] - self.t[k - 1]) if self.t[k] > self.t[k - 1] else 0.0
        return {h: v[k - 1] * (1 - x) + v[k] * x for h, v in self.std.items()}

    def sensor(self, t, arm):
        p = self.at(t)
        v = D.rot(p["roll"], p["pitch"], p["yaw"]) @ arm
        return dict(p, n=p["n"] + v[0], e=p["e"] + v[1], d=p["d"] + v[2], a=p["a"] - v[2])


def vehicle_pose(rec, nav, sol, out, centre, wit):
    """Centre of the vehicle = DVL (or depth sensor) plus lever arm, altitude measured at the DVL."""
    arm = np.array(nav.origin) - np.array(nav.dvl_off)
    dvl = out / "csv" / {"dr": "dead_reckoning", "ekf": "dead_reckoning", "pf": "particle_filter"}[sol] / ("auv_%s_dvl.csv" % ("pf" if sol == "pf" else "dr"))
    if not rec.check(sol + ":vehicle", dvl.exists(), "%s missing" % dvl.name, **wit):
        return
    ref = Track(D.read_csv(dvl))
    da = np.array(nav.origin) - np.array(nav.depth_off)
    for i, t in enumerate(centre.t):
        c = {k: v[i] for k, v in centre.c.items()}
        R = D.rot(c["roll"], c["pitch"], centre.yaw[i])
        if sol == "ekf":
            if not ref.t[0] <= t <= ref.t[-1]:
                continue
            bad = {"altitude": (c["a"], ref.at(t)["a"] - (R @ arm)[2])}
        else:
            v = R @ arm
            bad = {"northing": (c["n"], ref.c["n"][i] + v[0]), "easting": (c["e"], ref.c["e"][i] + v[1]), "altitude": (c["a"], ref.c["a"][i] - v[2]),
                   "depth": (c["d"], ref.c["d"][i] + (R @ da)[2]), "heading": (0.0, float(D.wrap180(centre.yaw[i] - ref.yaw[i]))), "time": (t, ref.t[i])}
        bad = {k: v for k, v in bad.items() if not abs(v[0] - v[1]) < 1e-6}
        rec.check(sol + ":vehicle", not bad, "%s track at %.3f: %s (got, sensor plus lever arm)" % (sol, t, bad), **wit)


def compare(rec, nav, sol, mon, path, centre, want, off, wit):
    eps = 2e-6 if sol == "pf" else 0.0
    inside = [(f, t) for f, t in want if centre.t[0] - eps <= t <= centre.t[-1] + eps]
    if sol == "pf":  # accumulated time: ends are fuzzy
        edge = {f for f, t in want if abs(t - centre.t[0]) <= eps or abs(t - centre.t[-1]) <= eps}
    else:
        edge = set()
    if not inside:
        rec.check(sol + ":set", not path.exists() or not D.read_csv(path), "%s lists images although none lies within the track" % path.name, **wit)
        rec.event("tables without images")
        return
    if not rec.check(sol + ":set", path.exists(), "%s was not written although %d images lie within the track"
                     % (path.name, len(inside)), **wit):
        return
    rows = D.read_csv(path)
    got = [r["relative_path"] for r in rows]
    strip = lambda fs: [f for f in fs if f not in edge]
    rec.event("images_outside_track", len(want) - len(inside))
    if not rec.check(sol + ":set", strip(got) == strip([f for f, _ in inside]),
                     "%s lists %d images, %d lie within the track" % (path.name, len(got), len(inside)),
                     missing=sorted(set(f for f, _ in inside) - set(got))[:5], extra=sorted(set(got) - set(f for f, _ in inside))[:5],
                     **wit):
        return
    times = dict(inside)
    arm = np.array(off) - np.array(nav.origin)
    tol = 1e-4 if sol == "pf" else 2e-6
    for r in rows:
        t = times[r["relative_path"]]
        rec.seen(sol, r["relative_path"], t)
        exp = centre.sensor(t, arm)
        got = {"n": float(r["northing [m]"]), "e": float(r["easting [m]"]), "d": float(r["depth [m]"]),
               "a": float(r["altitude [m]"]), "roll": float(r["roll [deg]"]), "pitch": float(r["pitch [deg]"])}
        bad = {k: (got[k], exp[k]) for k in got if not abs(got[k] - exp[k]) < tol}
        if not abs(float(D.wrap180(float(r["heading [deg]"]) - exp["yaw"]))) < tol:
            bad["yaw"] = (r["heading [deg]"], exp["yaw"])
        if not abs(float(r["timestamp [s]"]) - t) < 1e-6:
            bad["timestamp"] = (r["timestamp [s]"], t)
        rec.check(mon + ":pose", not bad, "%s: %s of %s (got, vehicle pose + lever arm)" % (path.name, bad, r["relative_path"]),
                  lever=off, **wit)
        geo(rec, nav, r, got["n"], got["e"], path.name, wit)
        sd = centre.deviation(t)
        bad = {h: (r[h], v) for h, v in sd.items() if h in r and np.isfinite(v) and not (r[h] != "None" and abs(float(r[h]) - v) < 1e-7)}
        rec.check(sol + ":std", not bad, "%s: %s of %s (got, vehicle at that instant)" % (path.name, bad, r["relative_path"]), **wit)


def geo(rec, nav, r, n, e, name, wit):
    g = Geodesic.WGS84.Direct(nav.lat0, nav.lon0, math.degrees(math.atan2(e, n)), math.hypot(n, e))
    la, lo = float(r["latitude [deg]"]), float(r["longitude [deg]"])
    rec.check("geographic", abs(la - g["lat2"]) < 1e-8 and abs(D.wrap180(lo - g["lon2"])) < 1e-7,
              "%s: lat/lon (%.8f, %.8f) but its metric position is at (%.8f, %.8f)" % (name, la, lo, g["lat2"], g["lon2"]), **wit)


def payload(rec, nav, sol, base, centre, pay, wit):
    path = base / ("ctd_%s.csv" % sol)
    ts = pay["t"] + pay["timeoffset"]
    eps = 2e-6 if sol == "pf" else 0.0
    inside = [i for i, t in enumerate(ts) if centre.t[0] - eps <= t <= centre.t[-1] + eps]
    if not inside:
        return
    if not rec.check(sol + ":set", path.exists(), "%s was not written" % path.name, **wit):
        return
    rows = D.read_csv(path)
    got = [int(float(r["idx"])) for r in rows]
    if not rec.check("payload:pose", got == inside, "%s has samples %s, %s lie within the track" % (path.name, got, inside), **wit):
        return
    arm = np.array(pay["off"]) - np.array(nav.origin)
    for r in rows:
        i = int(float(r["idx"]))
        exp = centre.sensor(float(ts[i]), arm)
        g = {"n": float(r["northing [m]"]), "e": float(r["easting [m]"]), "d": float(r["depth [m]"]), "a": float(r["altitude [m]"])}
        tol = 1e-4 if sol == "pf" else 5e-6
        bad = {k: (g[k], exp[k]) for k in g if not abs(g[k] - exp[k]) < tol}
        rec.check("payload:pose", not bad and abs(float(r["temp"]) - (10 + i / 7)) < 1e-9,
                  "%s: sample %d %s" % (path.name, i, bad), **wit)
        rec.seen("payload", sol, i, float(ts[i]))
        geo(rec, nav, r, g["n"], g["e"], path.name, wit)
