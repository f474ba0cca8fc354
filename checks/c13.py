"""C13 navigation records and pose tables read back as they were written, with the configured uncertainty model."""
import csv as _csv
import json
import math

import numpy as np

from lib import dive as D
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C13"
RULE = ("random records of every kind written to JSON or csv and read back by the program, under every uncertainty model; random dives processed "
        "with every combination of model settings; non-trivial: a (kind, model, value sign/size class, missing field) combination")
REQUIRED = {"json-fields": 1500, "std-model": 500, "csv-table": 100, "csv-readback": 40, "states-window": 40, "slam-rows": 30,
            "sidescan": 30, "process-std": 40, "payload-table": 10}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 160 if tier == "quick" else 600
    out = [{"kind": k, "rep": r} for r in range(n) for k in ("json", "csv", "states", "spp", "sss")]
    out += [{"kind": "process", "rep": r} for r in range(n if tier == "quick" else n // 2)]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def val(rng, scale=10.0):
    c = rng.integers(0, 6)
    if c == 0:
        return 0.0
    if c == 1:
        return float(rng.uniform(-1, 1) * 1e-7)
    return float(rng.uniform(-scale, scale))


def epoch(rng):
    return float(np.round(rng.uniform(1e9, 2e9), int(rng.integers(0, 7))))


def same(a, b):
    if a is None or b is None:
        return a is b
    return float(a) == float(b)


def run_case(case, rec):
    globals()["k_" + case["kind"]](case, rec, case_rng(case))


# ------------------------------------------------------------------ JSON records
def k_json(case, rec, rng):
    from auv_nav import sensors as S

    for _ in range(40):
        kind = str(rng.choice(["velocity", "inertial", "orientation", "depth", "altitude", "usbl", "tide", "camera", "stereo"]))
        model = str(rng.choice(["sensor", "linear", "linear", "linear_xyz"]))
        off, fac = float(rng.choice([0.0, 0.1, 1.7])), float(rng.choice([0.0, 0.01, 0.5]))
        std = {"model": "sensor" if model == "sensor" else "linear", "offset": off, "factor": fac}
        axis = {}
        if model == "linear_xyz" and kind == "velocity":
            for a in "xyz":
                axis[a] = (float(rng.uniform(0, 1)), float(rng.uniform(0, 1)))
            std = {"model": "linear", **{"offset_" + a: v[0] for a, v in axis.items()}, **{"factor_" + a: v[1] for a, v in axis.items()}}
        rec.case()
        t = epoch(rng)
        with rec.guard("json-fields", "%s record round trip" % kind, model=std):
            fields, stds = {}, {}
            if kind == "velocity":
                o, r = S.BodyVelocity(), S.BodyVelocity()
                o.epoch_timestamp, o.epoch_timestamp_dvl = t + float(rng.uniform(-0.9, 0.9)), t
                for a in "xyz":
                    v, s = val(rng, 3), abs(val(rng, 1))
                    setattr(o, a + "_velocity", v)
                    setattr(o, a + "_velocity_std", s)
                    fields[a + "_velocity"] = v
                    f0, k0 = axis.get(a, (off, fac))
                    stds[a + "_velocity_std"] = s if std["model"] == "sensor" else f0 + k0 * abs(v)
                fields["epoch_timestamp"] = t
                args = (std,)
            elif kind == "inertial":
                o, r = S.InertialVelocity(), S.InertialVelocity()
                for a in ("north", "east", "down"):
                    for suf in ("", "_std"):
                        v = val(rng, 3) if not suf else abs(val(rng, 1))
                        setattr(o, a + "_velocity" + suf, v)
                        fields[a + "_velocity" + suf] = v
                o.epoch_timestamp = fields["epoch_timestamp"] = t
                args = ()
            elif kind == "orientation":
                o, r = S.Orientation(), S.Orientation()
                for a, sc in (("roll", 60), ("pitch", 60), ("yaw", 360)):
                    v, s = val(rng, sc), abs(val(rng, 1))
                    if a == "yaw":
                        v = v % 360 if rng.random() < 0.7 else v
                    setattr(o, a, v)
                    setattr(o, a + "_std", s)
                    fields[a] = v
                    stds[a + "_std"] = s if std["model"] == "sensor" else off + fac * abs(v)
                o.epoch_timestamp = fields["epoch_timestamp"] = t
                args = (std,)
                std = dict(std, offset=off, factor=fac)
                args = (std,)
            elif kind == "depth":
                o, r = S.Depth(), S.Depth()
                o.depth, o.depth_std = val(rng, 3000), abs(val(rng, 1))
                o.epoch_timestamp, o.depth_timestamp = t, t + float(rng.uniform(-1, 1))
                fields = {"depth": o.depth, "epoch_timestamp": t, "depth_timestamp": o.depth_timestamp}
                stds["depth_std"] = o.depth_std if std["model"] == "sensor" else off + fac * abs(o.depth)
                args = (dict(std, offset=off, factor=fac),)
            elif kind == "altitude":
                o, r = S.Altitude(), S.Altitude()
                o.altitude, o.altitude_std = abs(val(rng, 100)), abs(val(rng, 1))
                o.epoch_timestamp = t
                o.altitude_timestamp = t
                o.sound_velocity = None if rng.random() < 0.3 else 1500.0
                fields = {"altitude": o.altitude, "altitude_std": o.altitude_std, "epoch_timestamp": t}
                args = ()
            elif kind == "tide":
                o, r = S.Tide(), S.Tide()
                o.height, o.height_std, o.epoch_timestamp = val(rng, 6), abs(val(rng, 1)), t
                fields = {"height": o.height, "epoch_timestamp": t}
                stds["height_std"] = o.height_std if std["model"] == "sensor" else off + fac * abs(o.height)
                args = (dict(std, offset=off, factor=fac),)
            elif kind == "usbl":
                o, r = S.Usbl(), S.Usbl()
                for k, sc in (("latitude", 85), ("longitude", 179), ("northings", 5000), ("eastings", 5000), ("depth", 3000)):
                    v = val(rng, sc)
                    setattr(o, k, v)
                    setattr(o, k + "_std", abs(val(rng, 5)))
                    fields[k] = v
                fields["depth_std"] = o.depth_std
                o.distance_to_ship = fields["distance_to_ship"] = float(rng.uniform(0, 4000))
                for k in ("latitude_ship", "longitude_ship", "northings_ship", "eastings_ship", "heading_ship"):
                    v = None if rng.random() < 0.2 else val(rng, 80)
                    setattr(o, k, v)
                    fields[k] = v
                o.epoch_timestamp = fields["epoch_timestamp"] = t
                for k in ("northings", "eastings"):
                    stds[k + "_std"] = getattr(o, k + "_std") if std["model"] == "sensor" else off + fac * o.distance_to_ship
                if std["model"] == "sensor":
                    for k in ("latitude", "longitude"):
                        stds[k + "_std"] = getattr(o, k + "_std")
                args = (dict(std, offset=off, factor=fac),)
            elif kind == "camera":
                o, r = S.Camera(), S.Camera()
                o.epoch_timestamp, o.filename = t, "image/raw/Cam, A/%07d.png" % int(rng.integers(0, 10**6))
                o.sensor_string = "sim"
                fields = {"epoch_timestamp": t, "filename": o.filename}
                args = ("camera1",)
            else:
                o, r = S.StereoCamera(), S.Camera()
                t2 = t + float(rng.uniform(-0.1, 0.1))
                o.left.epoch_timestamp, o.left.filename = t, "a/1.png"
                o.right.epoch_timestamp, o.right.filename = t2, "b/1.png"
                right = rng.random() < 0.5
                fields = {"epoch_timestamp": t2 if right else t, "filename": "b/1.png" if right else "a/1.png"}
                args = ("camera2" if right else "camera1",)
            missing = rng.random() < 0.15 and kind == "inertial"
            if missing:
                o.north_velocity_std = fields["north_velocity_std"] = None
            text = json.dumps(o._to_json())
            back = json.loads(text)
            rec.check("json-fields", isinstance(back.get("category"), str) and back.get("epoch_timestamp") is not None,
                      "%s record lacks category or time" % kind)
            with quiet():
                r.from_json(back, *args)
            for k, v in fields.items():
                got = getattr(r, k)
                ok = got == v if isinstance(v, str) else same(got, v)
                rec.check("json-fields", ok, "%s.%s written %r read back %r" % (kind, k, v, got))
            for k, v in stds.items():
                got = getattr(r, k)
                rec.check("std-model", got is not None and abs(got - v) <= 1e-12 * max(1, abs(v)) and got >= 0,
                          "%s.%s is %r, the %s model gives %r" % (kind, k, got, std["model"], v), std=std)
            rec.seen("json", kind, model if stds else "-", tuple((k, (v > 0) - (v < 0)) for k, v in fields.items()
                                                                 if isinstance(v, float) and "epoch" not in k))
    rec.sample({"kind": kind, "record": fields})


# ------------------------------------------------------------------ csv tables
SYNC = {"timestamp": "epoch_timestamp", "northing [m]": "northings", "easting [m]": "eastings", "depth [m]": "depth",
        "roll [deg]": "roll", "pitch [deg]": "pitch", "heading [deg]": "yaw", "altitude [m]": "altitude", "latitude [deg]": "latitude",
        "longitude [deg]": "longitude", "vehicle_std_x [m]": "northings_std", "vehicle_std_y [m]": "eastings_std",
        "vehicle_std_z [m]": "depth_std", "vehicle_std_roll [deg]": "roll_std", "vehicle_std_pitch [deg]": "pitch_std",
        "vehicle_std_yaw [deg]": "yaw_std", "vehicle_std_vx [m/s]": "x_velocity_std", "vehicle_std_vy [m/s]": "y_velocity_std",
        "vehicle_std_vz [m/s]": "z_velocity_std", "vehicle_std_vroll [deg/s]": "vroll_std", "vehicle_std_vpitch [deg/s]": "vpitch_std",
        "vehicle_std_vyaw [deg/s]": "vyaw_std"}
CAM = {k: v for k, v in SYNC.items() if k != "timestamp"}
CAM.update({"relative_path": "filename", "timestamp [s]": "epoch_timestamp", "x_velocity [m/s]": "x_velocity",
            "y_velocity [m/s]": "y_velocity", "z_velocity [m/s]": "z_velocity"})
TABLES = {
    "SyncedOrientationBodyVelocity": SYNC, "Camera": CAM,
    "BodyVelocity": {k: k for k in ("epoch_timestamp", "x_velocity", "y_velocity", "z_velocity", "x_velocity_std", "y_velocity_std",
                                    "z_velocity_std")},
    "InertialVelocity": {k: k for k in ("epoch_timestamp", "north_velocity", "east_velocity", "down_velocity", "north_velocity_std",
                                        "east_velocity_std", "down_velocity_std")},
    "Orientation": {k: k for k in ("epoch_timestamp", "roll", "pitch", "yaw", "roll_std", "pitch_std", "yaw_std")},
    "Depth": {k: k for k in ("epoch_timestamp", "depth", "depth_std")},
    "Altitude": {k: k for k in ("epoch_timestamp", "altitude")},
    "Tide": {k: k for k in ("epoch_timestamp", "height", "height_std")},
    "Usbl": {k: k for k in ("epoch_timestamp", "latitude", "longitude", "northings", "eastings", "depth", "distance_to_ship",
                            "latitude_std", "longitude_std", "northings_std", "eastings_std", "depth_std")},
}


def fill(rng, cls, cols, i):
    from auv_nav import sensors as S

    o = getattr(S, cls)()
    for a in cols.values():
        setattr(o, a, "image/raw/C/%07d.png" % i if a == "filename" else (epoch(rng) if a == "epoch_timestamp" else val(rng, 500)))
    return o


def rows_of(path):
    with open(path, newline="") as f:
        r = list(_csv.reader(f))
    return [h.strip() for h in r[0]], r[1:]


def k_csv(case, rec, rng):
    import pandas as pd

    from auv_nav import sensors as S
    from auv_nav.tools.csv_tools import write_csv

    for cls, cols in TABLES.items():
        rec.case()
        n = int(rng.choice([2, 3, 17, 60]) if rng.random() < 0.97 else 2500)
        objs = [fill(rng, cls, cols, i) for i in range(n)]
        if rng.random() < 0.3 and cls in ("SyncedOrientationBodyVelocity", "Camera"):
            objs[int(rng.integers(0, n))].vroll_std = None
        cov = cls == "Camera" and rng.random() < 0.5
        if cov:
            for o in objs:
                o.covariance = rng.normal(0, 1, (12, 12))
        with scratch() as d, rec.guard("csv-table", "write_csv of %s" % cls):
            with quiet():
                write_csv(d / "csv" / "x", objs, "tab", True)
            head, rows = rows_of(d / "csv" / "x" / "tab.csv")
            rec.check("csv-table", len(rows) == n and all(len(r) == len(head) for r in rows),
                      "%s: %d rows of %s columns under a header of %d for %d objects" % (cls, len(rows), {len(r) for r in rows}, len(head), n))
            rec.check("csv-table", set(cols) <= set(head), "%s: missing columns %s" % (cls, set(cols) - set(head)))
            bad = [(i, c) for i, (o, r) in enumerate(zip(objs, rows)) for c, a in cols.items()
                   if not _eq(r[head.index(c)], getattr(o, a))]
            rec.check("csv-table", not bad, "%s: value under %s differs from the object's" % (cls, bad[:3]))
            rec.seen("csv", cls, n, cov)
            df = pd.read_csv(d / "csv" / "x" / "tab.csv", float_precision="round_trip")
            if cls in ("SyncedOrientationBodyVelocity", "Camera"):
                bad = []
                for (_, row), o in zip(df.iterrows(), objs):
                    b = getattr(S, cls)()
                    b.from_df(row)
                    bad += [a for a in cols.values() if not _eq(getattr(b, a), getattr(o, a))]
                rec.check("csv-readback", not bad, "%s read back from its table differs in %s" % (cls, sorted(set(bad))[:5]))
            if cov:
                h, rr = rows_of(d / "csv" / "x" / "tab_cov.csv")
                ok = len(rr) == n and len(h) == 37
                names = ["x", "y", "z", "roll", "pitch", "yaw"]
                if ok:
                    for o, r in zip(objs, rr):
                        for i, a in enumerate(names):
                            for j, b in enumerate(names):
                                ok = ok and float(r[h.index("cov_%s_%s" % (a, b))]) == o.covariance[i, j]
                        ok = ok and r[0] == o.filename
                rec.check("csv-table", ok, "covariance table does not hold the covariances of the poses, row by row")


def _eq(text, v):
    if v is None:
        return text in ("None", "") or text is None or (isinstance(text, float) and math.isnan(text))
    if isinstance(v, str):
        return text == v
    try:
        return float(text) == float(v)
    except (TypeError, ValueError):
        return False


def k_states(case, rec, rng):
    from auv_nav.tools.csv_tools import load_states, write_csv

    with scratch() as d:
        n = int(rng.choice([2, 5, 30]))
        objs = [fill(rng, "Camera", CAM, i) for i in range(n)]
        for o in objs:
            a = rng.normal(0, 1, (12, 12))
            o.covariance = a @ a.T if rng.random() < 0.5 else a
        with quiet():
            write_csv(d, objs, "cam", True)
        for _ in range(4):
            rec.case()
            a, b = sorted(int(x) for x in rng.integers(0, n, 2))
            mode = str(rng.choice(["inside", "all", "one", "no end", "no start"]))
            if mode == "all":
                a, b = 0, n - 1
            if mode == "one":
                b = a
            start, end = objs[a].filename, objs[b].filename
            exp = objs[a:b + 1]
            if mode == "no end":
                end, exp = "nowhere", objs[a:]
            if mode == "no start":
                start, exp = "nowhere", []
            with rec.guard("states-window", "load_states %s" % mode):
                with quiet():
                    got = load_states(d / "cam.csv", start, end)
                ok = [g.filename for g in got] == [e.filename for e in exp]
                rec.check("states-window", ok, "%s: images %d to %d of %d asked, got %d states" % (mode, a, b, n, len(got)))
                if ok:
                    bad = []
                    for g, e in zip(got, exp):
                        for k in ("northings", "eastings", "depth", "roll", "pitch", "yaw", "x_velocity", "y_velocity", "z_velocity",
                                  "epoch_timestamp"):
                            if not math.isclose(getattr(g, k), getattr(e, k), rel_tol=1e-12, abs_tol=1e-300):
                                bad.append(k)
                        if not np.allclose(np.asarray(g.covariance, float), e.covariance[:6, :6], rtol=1e-12, atol=0):
                            bad.append("covariance")
                    rec.check("states-window", not bad, "states read back differ in %s" % sorted(set(bad)))
                rec.seen("states", mode, n, a == 0, b == n - 1)


# ------------------------------------------------------------------ SLAM++ and sidescan text
def k_spp(case, rec, rng):
    from auv_nav.tools.csv_tools import spp_csv

    rec.case()
    n, first = int(rng.choice([2, 4, 12]) if rng.random() < 0.9 else 1300), int(rng.choice([0, 1, 57, 12345, 999995, 1203456]))
    objs = []
    for i in range(n):
        o = fill(rng, "Camera", CAM, first + i)
        a = rng.normal(0, 1, (12, 12))
        o.covariance = np.asmatrix(a @ a.T + np.eye(12))
        objs.append(o)
    with scratch() as d, rec.guard("slam-rows", "spp_csv"):
        with quiet():
            for o in objs:
                o.get_info()
            spp_csv(objs, "cam", d / "out", True)
        lines = [x.split() for x in (d / "out" / "cam.txt").read_text().splitlines()]
        rec.check("slam-rows", len(lines) == n and all(x[0] == "EDGE3" and len(x) == 30 for x in lines),
                  "%d lines of %s fields for %d poses" % (len(lines), {len(x) for x in lines}, n))
        P = [0, 1, 2, 5, 4, 3]
        for k, (x, o) in enumerate(zip(lines, objs)):
            ids = (int(x[1]), int(x[2]))
            rec.check("slam-rows", ids == (k, k + 1), "edge %d joins nodes %s" % (k, ids))
            pose = [float(v) for v in x[3:9]]
            exp = [o.northings, o.eastings, o.depth, o.yaw, o.pitch, o.roll]
            rec.check("slam-rows", pose == exp, "edge %d has pose %s instead of %s" % (k, pose, exp))
            info = np.linalg.inv(np.asarray(o.covariance))[np.ix_(P, P)]
            got = np.array([float(v) for v in x[9:]])
            ref = info[np.triu_indices(6)]
            rec.check("slam-rows", np.allclose(got, ref, rtol=1e-6, atol=1e-9 * abs(ref).max()),
                      "edge %d: information is not the upper triangle (x y z yaw pitch roll) of the inverse covariance" % k)
        rec.seen("spp", n, first)


def k_sss(case, rec, rng):
    import calendar
    import time

    from auv_nav.tools.csv_tools import write_sidescan_csv

    rec.case()
    n = int(rng.choice([1, 2, 9]))
    objs = []
    for i in range(n):
        o = fill(rng, "SyncedOrientationBodyVelocity", SYNC, i)
        o.latitude, o.longitude = float(rng.uniform(-80, 80)), float(rng.uniform(-180, 180))
        o.x_velocity = float(rng.uniform(-2, 2))
        objs.append(o)
    with scratch() as d, rec.guard("sidescan", "write_sidescan_csv"):
        with quiet():
            write_sidescan_csv(d / "o", objs, "sss", True)
        text = (d / "o" / "sss.txt").read_text().splitlines()
        names = text[0].lstrip("#").split()
        rec.check("sidescan", len(text) == n + 1, "%d lines for %d states" % (len(text), n))
        attr = {"NorthDeg": ("latitude", 1e-6), "EastDeg": ("longitude", 1e-6), "HeadingDeg": ("yaw", 1e-3), "RollDeg": ("roll", 1e-3),
                "PitchDeg": ("pitch", 1e-3), "Altitude": ("altitude", 1e-3), "Depth": ("depth", 1e-3), "Speed": ("x_velocity", 1e-3)}
        for ln, o in zip(text[1:], objs):
            f = dict(zip(names, ln.split()))
            bad = [k for k, (a, tol) in attr.items() if abs(float(f[k]) - getattr(o, a)) > 0.51 * tol]
            rec.check("sidescan", not bad, "sidescan columns %s do not hold the state" % bad, line=ln)
            ep = calendar.timegm(time.strptime(f["Date"] + f["Time"], "%Y%m%d%H%M%S"))
            rec.check("sidescan", ep == math.floor(o.epoch_timestamp), "time %s %s is not %r in UTC" % (f["Date"], f["Time"], o.epoch_timestamp))
        rec.seen("sss", n)


# ------------------------------------------------------------------ through process
LEGACY = {"position_xy": "usbl", "position_z": "depth", "speed": "dvl"}


def k_process(case, rec, rng):
    nav = Nav(rng, dur=20.0, cams=1, turning=False, usbl_dt=3.0)
    nav.velo[:, 1] -= float(rng.choice([0, 0.5]))
    conf, models = {}, {}
    for k in ("position_xy", "position_z", "speed", "orientation"):
        m = str(rng.choice(["sensor", "linear", "missing", "legacy", "no model"]))
        off, fac = float(rng.uniform(0, 0.3)), float(rng.uniform(0, 0.2))
        axes = {}
        if m == "missing":
            models[k] = None
            continue
        e = {"model": "linear", "offset": off, "factor": fac}
        models[k] = [(off, fac)] * 3
        if m == "sensor":
            e["model"] = "sensor"
            models[k] = None
        elif m == "no model":
            e.pop("model")
            models[k] = None
        elif k == "speed" and rng.random() < 0.4:
            models[k] = [(float(rng.uniform(0, 0.3)), float(rng.uniform(0, 0.2))) for _ in range(3)]
            e = {"model": "linear", **{"offset_" + a: o for a, (o, _) in zip("xyz", models[k])},
                 **{"factor_" + a: f for a, (_, f) in zip("xyz", models[k])}}
        conf[LEGACY.get(k, k) if m == "legacy" else k] = e
        axes[k] = m
    with scratch() as root:
        d = D.Dive(root)
        mission, vehicle = nav.mission(), nav.vehicle()
        vehicle["payloads"] = {"ctd": D.off(0.2, 0.1, -0.3)}
        to = float(rng.choice([0.0, 1.5, -2.0]))
        mission["payloads"] = {"ctd": {"path": "ctd/ctd.csv", "format": "generic_csv", "timezone": 0, "timeoffset": to}}
        (d.raw / "ctd").mkdir()
        pt = np.round(np.sort(rng.uniform(nav.vel_t[2] + 1, nav.vel_t[-3] - 1, 12)), 3)
        (d.raw / "ctd/ctd.csv").write_text("corrected_timestamp,temp,note\n" + "".join(
            "%r,%r,n%d\n" % (float(t) - to, 4 + 0.01 * i, i) for i, t in enumerate(pt)))
        d.write_config(mission, vehicle)
        loc = D.localisation_dict(std={"x": {}})
        loc["std"] = conf
        if not conf and rng.random() < 0.5:
            del loc["std"]
        d.write_localisation(loc)
        d.write_nav(nav.records())
        rec.case()
        with rec.guard("process-std", "process with uncertainty settings %s" % json.dumps(conf)):
            out = d.process()
            rows = D.read_csv(out / "csv" / "dead_reckoning" / "auv_dr_centre.csv")
            t = D.col(rows, "timestamp")
            m = models["speed"]
            for i, a in enumerate("xyz"):
                s = nav.vstd[:, i] if m is None else m[i][0] + m[i][1] * np.abs(nav.velo[:, i])
                ref = np.interp(t, nav.vel_t, s)
                got = D.col(rows, "vehicle_std_v%s [m/s]" % a)
                rec.check("process-std", np.allclose(got, ref, rtol=0, atol=1e-9), "uncertainty of v%s in the track is not that of the %s model"
                          % (a, "sensor" if m is None else "linear"), max_error=float(np.abs(got - ref).max()))
            m = models["orientation"]
            idx = np.searchsorted(nav.ori_t, t - 1e-6)
            for i, a in enumerate(("roll", "pitch", "yaw")):
                s = nav.ostd[idx, i] if m is None else m[i][0] + m[i][1] * np.abs(nav.ori[idx, i])
                got = D.col(rows, "vehicle_std_%s [deg]" % a)
                rec.check("process-std", np.allclose(got, s, rtol=0, atol=1e-9), "uncertainty of %s is not that of the %s model"
                          % (a, "sensor" if m is None else "linear"))
            m = models["position_z"]
            s = nav.dstd if m is None else m[0][0] + m[0][1] * np.abs(nav.dep)
            rec.check("process-std", np.allclose(D.col(rows, "vehicle_std_z [m]"), np.interp(t, nav.dep_t, s), rtol=0, atol=1e-9),
                      "uncertainty of depth is not that of the %s model" % ("sensor" if m is None else "linear"))
            m = models["position_xy"]
            ur = D.read_csv(next(p for p in sorted((out / "csv").rglob("usbl.csv")) if p.name == "usbl.csv"))
            s = 2.0 if m is None else m[0][0] + m[0][1] * 100.0
            rec.check("process-std", np.allclose(D.col(ur, "northings_std"), s) and np.allclose(D.col(ur, "eastings_std"), s) and len(ur) > 2,
                      "uncertainty of USBL is not that of the model", expected=s)
            rec.seen("process", tuple(sorted(conf)), tuple(models[k] is None for k in sorted(models)))
            base = next((out / "csv").rglob("velocity_body.csv")).parent
            for name, ts, key, vals in (("velocity_body", nav.vel_t, "y_velocity", nav.velo[:, 1]), ("orientation", nav.ori_t, "yaw", nav.ori[:, 2]),
                                        ("depth", nav.dep_t, "depth", nav.dep), ("altitude", nav.alt_t, "altitude", nav.alt),
                                        ("usbl", nav.usbl_t, "northings", nav.usbl[:, 0])):
                r = D.read_csv(base / (name + ".csv"))
                rec.check("process-std", len(r) == len(ts) and np.array_equal(D.col(r, "epoch_timestamp"), ts)
                          and np.array_equal(D.col(r, key), vals), "%s.csv does not hold the readings of nav_standard.json" % name)
        with rec.guard("payload-table", "payload table"):
            f = next((out / "csv" / "dead_reckoning").glob("*ctd*.csv"))
            rows = D.read_csv(f)
            rec.check("payload-table", [r["note"] for r in rows] == ["n%d" % i for i in range(len(pt))]
                      and all(abs(float(r["temp"]) - (4 + 0.01 * i)) < 1e-12 for i, r in enumerate(rows))
                      and all(abs(float(r["corrected_timestamp"]) - (float(x) - to)) < 1e-6 for r, x in zip(rows, pt)),
                      "payload table does not hold the %d readings with their own columns" % len(pt), rows=rows[:2])
            cent = D.read_csv(out / "csv" / "dead_reckoning" / "auv_dr_centre.csv")
            got = D.col(rows, "depth [m]")
            ref = np.interp(pt, D.col(cent, "timestamp"), D.col(cent, "depth [m]"))
            rec.check("payload-table", np.abs(got - ref).max() < 1.5, "payload depth is not that of its (clock-corrected) instant within a metre and a half")
