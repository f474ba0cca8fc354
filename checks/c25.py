"""C25 format conversion keeps every pose: oplab <-> ACFR, HyBIS -> oplab."""
import math
import os
import re
import time
from types import SimpleNamespace as NS

import numpy as np

from lib import dive as D
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C25"
RULE = ("dives with random poses (all headings, both hemispheres, negative and positive angles) converted to ACFR files and back, laser interpolation onto ACFR "
        "poses, HyBIS logs and koyo20rov logs (ship log, attitude, two cameras and a laser camera) with images between records; non-trivial: headings across north and roll different from pitch")
REQUIRED = {"vehicle": 10, "stereo": 10, "back": 10, "raw": 10, "laser": 5, "hybis": 20, "koyo": 20}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 60 if tier == "quick" else 500
    out = [{"kind": k, "rep": r} for r in range(n) for k in ("acfr", "acfr", "hybis", "hybis", "koyo", "dive")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def near(a, b, tol=1e-6):
    return abs(float(a) - float(b)) <= tol


def near_ang(a, b, tol=1e-6):
    return abs((float(a) - float(b) + 180) % 360 - 180) <= tol


CENTRE = ["timestamp", "northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]", "latitude [deg]", "longitude [deg]"]
CAM = ["relative_path", "northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]", "timestamp [s]",
       "latitude [deg]", "longitude [deg]"]
VELS = ["x_velocity [m/s]", "y_velocity [m/s]", "z_velocity [m/s]"]
STDS = ["vehicle_std_%s" % s for s in ("x [m]", "y [m]", "z [m]", "roll [deg]", "pitch [deg]", "yaw [deg]", "vx [m/s]", "vy [m/s]", "vz [m/s]",
                                       "vroll [deg/s]", "vpitch [deg/s]", "vyaw [deg/s]")]


def pose(rng, t):
    return {"northing [m]": float(rng.uniform(-900, 900)), "easting [m]": float(rng.uniform(-900, 900)), "depth [m]": float(rng.uniform(5, 3000)),
            "roll [deg]": float(rng.uniform(-40, 40)), "pitch [deg]": float(rng.uniform(-40, 40)),
            "heading [deg]": float(rng.choice([rng.uniform(0, 360), rng.uniform(355, 360), rng.uniform(0, 5), 0.0, 180.0])),
            "altitude [m]": float(rng.uniform(0.5, 12)), "latitude [deg]": float(rng.uniform(-80, 80)), "longitude [deg]": float(rng.uniform(-180, 180)),
            "timestamp": t, "timestamp [s]": t}


def table(path, rows, columns):
    path.parent.mkdir(parents=True, exist_ok=True)
    with path.open("w") as f:
        f.write(",".join(columns) + "\n")
        for r in rows:
            f.write(",".join(str(r.get(c, 0.1)) for c in columns) + "\n")


def data_lines(path):
    """origin and data rows of an ACFR pose file, by content"""
    origin, rows = {}, []
    for line in path.read_text().splitlines():
        s = line.strip()
        if not s or s.startswith("%"):
            continue
        p = s.split()
        if p[0].startswith("ORIGIN_"):
            origin[p[0]] = float(p[1])
        else:
            rows.append(p)
    return origin, rows


def check_vehicle(rec, f, cen, lat, lon, wit):
    origin, rows = data_lines(f)
    rec.check("vehicle", near(origin.get("ORIGIN_LATITUDE", 1e9), lat) and near(origin.get("ORIGIN_LONGITUDE", 1e9), lon), "origin of the vehicle pose file", **wit)
    rec.check("vehicle", len(rows) == len(cen), "%d vehicle poses for %d rows" % (len(rows), len(cen)), **wit)
    for k, (p, r) in enumerate(zip(rows, cen)):
        if not rec.check("vehicle", len(p) == 11, "vehicle pose line with %d items" % len(p), **wit):
            return
        v = [float(x) for x in p]
        ok = (int(v[0]) == k and near(v[1], r["timestamp"]) and near(v[2], r["latitude [deg]"], 1e-9) and near(v[3], r["longitude [deg]"], 1e-9)
              and near(v[4], r["northing [m]"]) and near(v[5], r["easting [m]"]) and near(v[6], r["depth [m]"])
              and near_ang(math.degrees(v[7]), r["roll [deg]"]) and near_ang(math.degrees(v[8]), r["pitch [deg]"])
              and near_ang(math.degrees(v[9]), r["heading [deg]"]) and near(v[10], r["altitude [m]"]))
        if not rec.check("vehicle", ok, "vehicle pose %d differs from the navigation solution" % k, line=p, expected={c: r[c] for c in CENTRE}, **wit):
            return


def rig(roll, pitch, heading):
    """Euler angles of the stereo rig mounted top-down facing backwards."""
    return -pitch, roll, heading - 90


def check_stereo(rec, f, c1, c2, lat, lon, wit):
    origin, rows = data_lines(f)
    rec.check("stereo", near(origin.get("ORIGIN_LATITUDE", 1e9), lat) and near(origin.get("ORIGIN_LONGITUDE", 1e9), lon), "origin of the stereo pose file", **wit)
    rec.check("stereo", len(rows) == len(c1), "%d stereo poses for %d image pairs" % (len(rows), len(c1)), **wit)
    for k, (p, r, q) in enumerate(zip(rows, c1, c2)):
        if not rec.check("stereo", len(p) == 15, "stereo pose line with %d items" % len(p), **wit):
            return
        x, y, z = rig(r["roll [deg]"], r["pitch [deg]"], r["heading [deg]"])
        v = [float(s) for s in p[:10]]
        ok = (int(v[0]) == k and near(v[1], r["timestamp [s]"]) and near(v[2], r["latitude [deg]"], 1e-9) and near(v[3], r["longitude [deg]"], 1e-9)
              and near(v[4], r["northing [m]"]) and near(v[5], r["easting [m]"]) and near(v[6], r["depth [m]"])
              and near_ang(math.degrees(v[7]), x) and near_ang(math.degrees(v[8]), y) and near_ang(math.degrees(v[9]), z)
              and p[10] == r["relative_path"].split("/")[-1] and p[11] == q["relative_path"].split("/")[-1] and near(p[12], r["altitude [m]"]))
        if not rec.check("stereo", ok, "stereo pose %d differs from the navigation solution" % k, line=p, expected={c: r[c] for c in CAM}, right=q["relative_path"], **wit):
            return


def same_row(got, want, names):
    bad = []
    for c in names:
        if c == "relative_path":
            if got[c].split("/")[-1] != want[c].split("/")[-1]:
                bad.append(c)
        elif c in ("roll [deg]", "pitch [deg]", "heading [deg]"):
            if not near_ang(got[c], want[c]):
                bad.append(c)
        elif not near(got[c], want[c], 1e-6):
            bad.append(c)
    return bad


def check_table(rec, mon, path, want, names, what, wit):
    rows = D.read_csv(path) if path.exists() else []
    rec.check(mon, len(rows) == len(want), "%s: %d rows for %d poses" % (what, len(rows), len(want)), **wit)
    for k, (g, w) in enumerate(zip(rows, want)):
        try:
            bad = same_row(g, w, names)
        except (KeyError, ValueError) as e:
            bad = [repr(e)]
        if not rec.check(mon, not bad, "%s row %d: %s differ from the pose" % (what, k, bad), got={c: g.get(c) for c in names}, want={c: w[c] for c in names}, **wit):
            return


def tokens(line):
    return re.findall(r"-?\d+\.?\d*(?:[eE][-+]?\d+)?", line)


def field(line, name):
    m = re.search(r"(?:^|\s)%s:\s*(-?[\d.]+(?:[eE][-+]?\d+)?)" % name, line)
    return float(m.group(1)) if m else None


def check_raw(rec, path, records, wit):
    """combined.RAW.auv: one line per record, in time order, each velocity with the latest altitude and attitude since the last."""
    lines = [x for x in path.read_text().splitlines() if x.strip()]
    want, alt, ori = [], None, None
    recs = sorted((r for r in records if r["category"] != "origin"), key=lambda r: r["epoch_timestamp"])
    for r in recs:
        c = r["category"]
        t = r["epoch_timestamp"]
        if c == "altitude":
            alt = r["data"][0]["altitude"]
        elif c == "orientation":
            d = {k: v for x in r["data"] for k, v in x.items()}
            ori = d
            want.append(("PHINS_COMPASS", t, {"r": d["roll"], "p": d["pitch"], "h": d["heading"], "std_r": d["roll_std"], "std_p": d["pitch_std"], "std_h": d["heading_std"]}))
        elif c == "velocity":
            if abs(r["epoch_timestamp"] - r["epoch_timestamp_dvl"]) >= 1.0:
                continue
            if alt is not None and ori is not None:
                d = {k: v for x in r["data"] for k, v in x.items()}
                want.append(("RDI", r["epoch_timestamp_dvl"], {"alt": alt, "h": ori["heading"], "p": ori["pitch"], "r": ori["roll"], "vx": d["x_velocity"], "vy": d["y_velocity"], "vz": d["z_velocity"]}))
                alt = ori = None
        elif c == "depth":
            want.append(("PAROSCI", r["epoch_timestamp_depth"], {"": r["data"][0]["depth"]}))
        elif c == "usbl":
            d = {k: v for x in r["data_target"] for k, v in x.items()}
            want.append(("SSBL_FIX", t, {"target_x": d["northings"], "target_y": d["eastings"], "target_z": d["depth"], "target_sr": d["distance_to_ship"]}))
        elif c == "image":
            for cam in ("camera1", "camera2"):
                want.append(("VIS", r[cam][0]["epoch_timestamp"], {"file": r[cam][0]["filename"]}))
    rec.check("raw", len(lines) == len(want), "combined.RAW has %d lines for %d records" % (len(lines), len(want)), **wit)
    for k, (l, (tag, t, vals)) in enumerate(zip(lines, want)):
        ok = l.startswith(tag + ":")
        if ok:
            rest = l[len(tag) + 1:]
            ok = near(float(rest.split()[0]), t)
            for n, v in vals.items():
                if n == "file":
                    ok = ok and v in rest
                elif n == "":
                    ok = ok and near(float(rest.split()[1]), v)
                else:
                    g = field(rest, n)
                    ok = ok and g is not None and near(g, v)
        if not rec.check("raw", ok, "combined.RAW line %d does not hold its record" % k, line=l, want=(tag, t, vals), **wit):
            return


def to_acfr(d, out, force=False):
    D.nav_main("convert", "oplab_to_acfr", d.processed, out, *(["-F"] if force else []))


def from_acfr(out, vp, sp, dive=None, force=False):
    flags = [("-o", out), ("--vehicle-pose", vp), ("--stereo-pose", sp), ("-d", dive)]
    D.nav_main("convert", "acfr_to_oplab", *(x for f in flags if f[1] for x in f), *(["-F"] if force else []))


def run_case(case, rec):
    rng = case_rng(case)
    if case["kind"] == "hybis":
        return hybis(case, rec, rng)
    if case["kind"] == "koyo":
        return koyo(case, rec, rng)
    with scratch() as td:
        d = D.Dive(td)
        laser = bool(rng.random() < 0.7)
        nav = Nav(rng, dur=25.0, cams=3 if laser else 2, laser=laser, turning=True, cam2_skew=float(rng.choice([0.0, 0.013])))
        recs = nav.records()
        late = rng.random() < 0.5
        for r in recs:
            if late and r["category"] == "velocity" and rng.random() < 0.3:
                # the clock of the velocity log is ahead or behind
                r["epoch_timestamp_dvl"] = r["epoch_timestamp"] + float(rng.choice([0.9, -0.7, 1.5, -3.0]))
        if rng.random() < 0.3:
            for r in recs:
                if r["category"] == "image" and len(r.get("camera2", [])):
                    r["camera2"][0]["filename"] = r["camera1"][0]["filename"]
        lasts = nav.laser_t
        if laser and rng.random() < 0.4:
            last = max(r["epoch_timestamp"] for r in recs) + 0.5
            recs.append(D.r_laser(last, "image/%s_laser/%07d.tif" % (nav.cam_names[-1], len(nav.laser_t))))
            lasts = np.append(lasts, last)
        d.write_config(nav.mission(), nav.vehicle())
        d.write_nav(recs)
        wit = {"case": case["i"], "kind": case["kind"]}
        names = nav.cam_names
        if case["kind"] == "dive":
            d.write_localisation(D.localisation_dict(ekf=True))
            with rec.guard("vehicle", "process for conversion", **wit):
                renav = d.process()
            ekf = renav / "csv" / "ekf"

            def load(p, cols):
                return [{c: (r[c] if c == "relative_path" else float(r[c])) for c in cols} for r in D.read_csv(p)]
            cen = load(ekf / "auv_ekf_centre.csv", CENTRE)
            cams = [load(ekf / ("auv_ekf_%s.csv" % n), CAM) for n in names[:2]]
        else:
            ekf = d.processed / "json_renav_20180626_080000_20180626_090000" / "csv" / "ekf"
            m = int(rng.integers(3, 40))
            T = nav.t0 + np.sort(np.round(rng.uniform(0, 25, m), 3))
            cen = [pose(rng, float(t)) for t in T]
            table(ekf / "auv_ekf_centre.csv", cen, CENTRE + STDS)
            cams = []
            m = int(rng.integers(3, 30))
            T = nav.t0 + np.sort(rng.choice(np.arange(0, 25000), m, replace=False)) / 1000.0
            for n in names[:2]:
                rows = [pose(rng, float(t)) for t in T]
                for k, r in enumerate(rows):
                    r["relative_path"] = "image/%s/PR_%03d_%s.png" % (n, k, n)
                cams.append(rows)
                table(ekf / ("auv_ekf_%s.csv" % n), rows, CAM + VELS + STDS)
        out = d.root / "processed" / "acfr" / "x"
        vf, sf = out / "vehicle_pose_est.data", out / "stereo_pose_est.data"
        again = bool(rng.random() < 0.3)
        if again:
            # over the results of a longer dive
            out.mkdir(parents=True)
            for f in (vf, sf):
                f.write_text("% an older result\n" + "1 2 3 4 5 6 7 8 9 10 11\n" * 3000)
        with rec.guard("vehicle", "convert to ACFR", **wit):
            to_acfr(d, out, force=again)
        check_vehicle(rec, vf, cen, nav.lat0, nav.lon0, wit)
        check_stereo(rec, sf, cams[0], cams[1], nav.lat0, nav.lon0, wit)
        check_raw(rec, out / "dRAWLOGS_cv" / "combined.RAW.auv", recs, wit)
        cfg = dict(l.split(None, 1) for l in (out / "mission.cfg").read_text().splitlines() if l.strip())
        rec.check("raw", near(cfg["MAG_VAR_LAT"], nav.lat0) and near(cfg["MAG_VAR_LNG"], nav.lon0), "mission.cfg origin", cfg=cfg, **wit)

        from auv_nav.parsers.acfr_stereo_pose import AcfrStereoPoseParser
        from auv_nav.parsers.acfr_vehicle_pose import AcfrVehiclePoseParser
        with rec.guard("back", "read ACFR files", **wit), quiet():
            readers = AcfrVehiclePoseParser(str(vf)), AcfrStereoPoseParser(str(sf))
        for p in readers:
            rec.check("back", near(p.origin_latitude, nav.lat0) and near(p.origin_longitude, nav.lon0), "origin read from an ACFR file",
                      got=(p.origin_latitude, p.origin_longitude), want=(nav.lat0, nav.lon0), **wit)

        # and back
        back = d.root / "back"
        back.mkdir()
        with rec.guard("back", "convert from ACFR", **wit):
            from_acfr(back, vf, sf, d.processed if laser else None)
        check_table(rec, "back", back / "auv_acfr_centre.csv", cen, CENTRE, "vehicle", wit)
        check_table(rec, "back", back / "auv_acfr_LC.csv", cams[0], CAM, "left camera", wit)
        right = [dict(l, relative_path=r["relative_path"]) for l, r in zip(*cams)]
        check_table(rec, "back", back / "auv_acfr_RC.csv", right, CAM, "right camera", wit)
        if laser:
            ts = np.array([r["timestamp [s]"] for r in cams[0]])
            inside = [(i, t) for i, t in enumerate(nav.laser_t) if ts[0] <= t <= ts[-1]]
            rows = D.read_csv(back / "auv_acfr_laser.csv")
            rec.check("laser", len(rows) == len(lasts), "%d laser rows for %d laser images" % (len(rows), len(lasts)), **wit)
            got = {r["relative_path"]: r for r in rows}
            uniq = len(np.unique(ts)) == len(ts)
            for i, t in inside:
                f = "image/%s_laser/%07d.tif" % (names[-1], i)
                if not rec.check("laser", f in got, "laser image %s has no pose" % f, **wit):
                    break
                want = {"relative_path": f, "timestamp [s]": t}
                for c in CAM[1:]:
                    if c == "timestamp [s]":
                        continue
                    ys = [r[c] for r in cams[0]]
                    want[c] = float(pair_lerp(t, ts, ys, c == "heading [deg]"))
                if uniq:
                    bad = same_row(got[f], want, CAM)
                    if not rec.check("laser", not bad, "laser pose is not between the bracketing image poses: %s" % bad, got={c: got[f][c] for c in CAM}, want=want, **wit):
                        break
        rec.case()
        rec.seen(case["kind"], len(cen), len(cams[0]), laser)
        rec.sample({"kind": case["kind"], "rows": len(cen), "pairs": len(cams[0]), "laser": laser})


def pair_lerp(t, ts, ys, angle):
    k = int(np.searchsorted(ts, t, side="left"))
    if k == 0:
        return ys[0]
    a, b = ys[k - 1], ys[k]
    w = (t - ts[k - 1]) / (ts[k] - ts[k - 1])
    d = b - a
    if angle:
        if d > 180:
            d -= 360
        elif d < -180:
            d += 360
    v = a + w * d
    return v % 360 if angle else v


def dm(v, lon):
    h = ("E" if v >= 0 else "W") if lon else ("N" if v >= 0 else "S")
    v = abs(v)
    deg = int(v)
    m = (v - deg) * 60
    s = "%08.5f" % m
    if s.startswith("60"):
        s = "59.99999"
    return ("%03d" if lon else "%02d") % deg + s + h


def undm(s):
    n = 3 if s[-1] in "EW" else 2
    v = int(s[:n]) + float(s[n:-1]) / 60
    return -v if s[-1] in "WS" else v


def hybis(case, rec, rng):
    from auv_nav.convert import hybis_to_oplab
    from geographiclib.geodesic import Geodesic

    tz = os.environ.get("TZ")
    try:
        os.environ["TZ"] = str(rng.choice(["UTC", "Asia/Tokyo", "America/New_York"]))
        time.tzset()
        with scratch() as td:
            d = D.Dive(td)
            T = int(D.EPOCH0 + rng.integers(0, 10**7))
            n = int(rng.integers(5, 40))
            ts = T + np.cumsum(rng.integers(1, 6, n))
            if rng.random() < 0.3:  # a dive across midnight
                ts += int(-(-ts[0] // 86400) * 86400 - ts[int(rng.integers(1, n))])
            lat = float(rng.uniform(-60, 60)) + np.cumsum(rng.normal(0, 1e-4, n))
            lon = float(rng.uniform(-170, 170)) + np.cumsum(rng.normal(0, 1e-4, n))
            slat, slon = [dm(x, False) for x in lat], [dm(x, True) for x in lon]
            lat, lon = np.array([undm(s) for s in slat]), np.array([undm(s) for s in slon])
            head = (float(rng.choice([355.0, 3.0, 180.0, 90.0])) + np.cumsum(rng.normal(0, 4, n))) % 360
            head = np.round(head, 1) % 360
            roll, pitch = np.round(rng.uniform(-10, 10, n), 1), np.round(rng.uniform(-10, 10, n), 1)
            dep, alt = np.round(rng.uniform(500, 1000, n), 2), np.round(rng.uniform(1, 8, n), 2)
            wdep, walt = dep.copy(), alt.copy()
            if rng.random() < 0.6:  # a dropped reading inside the log
                k = int(rng.integers(1, n - 1))
                w = (ts[k] - ts[k - 1]) / (ts[k + 1] - ts[k - 1])
                lost = int(rng.integers(1, 4))
                if lost & 1:
                    alt[k] = 0
                    walt[k] = alt[k - 1] + w * (alt[k + 1] - alt[k - 1])
                if lost & 2:
                    dep[k] = 0
                    wdep[k] = dep[k - 1] + w * (dep[k + 1] - dep[k - 1])
            nofix = set(int(x) for x in rng.choice(np.arange(n), int(rng.integers(0, 3)), replace=False)) if rng.random() < 0.5 else set()
            navf = d.raw / "nav" / "hybis.csv"
            navf.parent.mkdir(parents=True)
            L = ["Date ,Time,Roll,Pitch,Heading,Pressure,Altitude,Hybis Long,Hybis Lat"]
            for k in range(n):
                g = time.gmtime(int(ts[k]))
                L.append(",".join([time.strftime("%d/%m/%Y", g), time.strftime("%H:%M:%S", g), str(roll[k]), str(pitch[k]), str(head[k]), str(dep[k]), str(alt[k]),
                                   slon[k], slat[k]]))
                if k in nofix:  # a record without a position is left out
                    g = time.gmtime(int(ts[k]) + 0)
                    L.append(",".join([time.strftime("%d/%m/%Y", g), time.strftime("%H:%M:%S", g), "0", "0", "0", "0", "0", "NoFix", "NoFix"]))
            navf.write_text("\n".join(L) + "\n")
            imgd = d.raw / "image"
            imgd.mkdir()
            m = int(rng.integers(2, 12))
            it = np.sort(np.round(rng.uniform(ts[0], ts[-1], m), 2))
            if rng.random() < 0.5:
                it[int(rng.integers(m))] = float(ts[int(rng.integers(n))])
                it.sort()
            order = rng.permutation(m) if rng.random() < 0.3 else np.arange(m)
            for k in range(m):
                f = imgd / ("IMG_%04d.jpg" % order[k])
                f.write_bytes(b"x")
                os.utime(f, (it[k], it[k]))
            ref = None
            if rng.random() < 0.7:
                ref = (round(float(lat[0] + rng.uniform(-0.01, 0.01)), 6), round(float(lon[0] + rng.uniform(-0.01, 0.01)), 6))
            text = rng.random() < 0.5
            a = ref or (0, 0)
            d.processed.mkdir(parents=True)
            args = NS(navigation_file=str(navf), image_path=str(imgd), reference_lat=a[0], reference_lon=a[1],
                      output_folder=str(d.processed), force=False)
            wit = {"case": case["i"], "tz": os.environ["TZ"], "log": L[:60], "images": [float(x) for x in it], "ref": ref}
            with rec.guard("hybis", "convert a HyBIS dive", **wit):
                if text:
                    D.nav_main("convert", "hybis_to_oplab", "-i", navf, "-d", imgd, "-o", d.processed, "--reference-lat=%r" % a[0], "--reference-lon=%r" % a[1])
                else:
                    with quiet():
                        hybis_to_oplab(args)
            ds = d.renav()
            name = "json_renav_%s_%s" % (time.strftime("%Y%m%d_%H%M%S", time.gmtime(int(ts[0]))), time.strftime("%Y%m%d_%H%M%S", time.gmtime(int(ts[-1]))))
            if not rec.check("hybis", len(ds) == 1 and ds[0].name == name, "output folder is not named after the log", got=[x.name for x in ds], want=name, **wit):
                return
            rows = D.read_csv(ds[0] / "csv" / "dead_reckoning" / "auv_dr_hybis_camera.csv")
            rec.check("hybis", len(rows) == m, "%d rows for %d images" % (len(rows), m), **wit)
            lat0, lon0 = ref or (lat[0], lon[0])
            byfile = {r["relative_path"].split("/")[-1]: r for r in rows}
            for k in range(m):
                f = "IMG_%04d.jpg" % order[k]
                if not rec.check("hybis", f in byfile, "image %s has no pose" % f, **wit):
                    return
                r = byfile[f]
                t = float(it[k])
                want = {"timestamp": t, "depth [m]": pair_lerp(t, ts, wdep, False), "altitude [m]": pair_lerp(t, ts, walt, False),
                        "roll [deg]": pair_lerp(t, ts, roll, False), "pitch [deg]": pair_lerp(t, ts, pitch, False), "heading [deg]": pair_lerp(t, ts, head, True),
                        "latitude [deg]": pair_lerp(t, ts, lat, False), "longitude [deg]": pair_lerp(t, ts, lon, False)}
                g = Geodesic.WGS84.Inverse(lat0, lon0, want["latitude [deg]"], want["longitude [deg]"])
                want["northing [m]"] = g["s12"] * math.cos(math.radians(g["azi1"]))
                want["easting [m]"] = g["s12"] * math.sin(math.radians(g["azi1"]))
                bad = []
                for c, v in want.items():
                    tol = 0.02 + 1e-3 * g["s12"] if c.startswith(("north", "east")) else 1e-5
                    if not (near_ang if "[deg]" in c and "itude" not in c else near)(r[c], v, tol):
                        bad.append(c)
                if not rec.check("hybis", not bad, "pose of an image is not between its bracketing records: %s" % bad, got=r, want=want, **wit):
                    return
            rec.case()
            rec.seen("hybis", n, m, bool(nofix), ref is None, int(lat[0] > 0), int(lon[0] > 0))
            rec.sample({"kind": "hybis", "records": n, "images": m})
    finally:
        os.environ.pop("TZ", None)
        if tz:
            os.environ["TZ"] = tz
        time.tzset()


def koyo(case, rec, rng):
    """ROV dive of koyo20: ship log, attitude and the time of every image -> a pose for every image within the logs"""
    from geographiclib.geodesic import Geodesic

    tz = os.environ.get("TZ")
    try:
        os.environ["TZ"] = str(rng.choice(["UTC", "Asia/Tokyo", "America/New_York"]))
        time.tzset()
        with scratch() as td:
            d = D.Dive(td)
            T = int(D.EPOCH0 + rng.integers(0, 10**7))
            n = int(rng.integers(6, 40))
            ts = T + np.cumsum(rng.integers(1, 5, n))
            if rng.random() < 0.3:  # a dive across midnight
                ts += int(-(-ts[0] // 86400) * 86400 - ts[int(rng.integers(1, n))])
            lat0, lon0 = float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170))
            lat, lon = np.round(lat0 + np.cumsum(rng.normal(0, 1e-5, n)), 8), np.round(lon0 + np.cumsum(rng.normal(0, 1e-5, n)), 8)
            dep, alt = np.round(rng.uniform(500, 1000) + np.cumsum(rng.normal(0, 0.2, n)), 2), np.round(rng.uniform(1, 8, n), 2)
            wdep, walt = dep.copy(), alt.copy()
            if rng.random() < 0.5:  # a dropped reading
                k = int(rng.integers(1, n - 1))
                w = (ts[k] - ts[k - 1]) / (ts[k + 1] - ts[k - 1])
                if rng.random() < 0.5:
                    alt[k], walt[k] = 0, alt[k - 1] + w * (alt[k + 1] - alt[k - 1])
                else:
                    dep[k], wdep[k] = 0, dep[k - 1] + w * (dep[k + 1] - dep[k - 1])
            sl = d.raw / "nav" / "ship_log"
            sl.mkdir(parents=True)
            nf = int(rng.integers(1, 3))
            cut = [0, n] if nf == 1 else [0, int(rng.integers(2, n - 2)), n]
            for a, b in zip(cut, cut[1:]):
                L = []
                for k in range(a, b):
                    g = time.gmtime(int(ts[k]))
                    c = ["0"] * 40
                    c[2], c[3] = time.strftime("%y/%m/%d", g), time.strftime("%H:%M:%S", g)
                    c[23], c[24], c[31], c[32] = str(dep[k]), str(alt[k]), repr(float(lat[k])), repr(float(lon[k]))
                    L.append(",".join(c))
                (sl / ("log_%03d.csv" % a)).write_text("\n".join(L) + "\n", encoding="shift_jis")
            (sl / "log_FIX.csv").write_text("x,y\n")

            def stamps(m):
                t = np.unique(np.round(rng.uniform(ts[0] - 3, ts[-1] + 3, m), 3))
                if rng.random() < 0.3:
                    t = np.unique(np.append(t, float(ts[int(rng.integers(1, n))])))
                return t

            def clock(t):
                s, ms = int(np.floor(t + 1e-6)), int(round((t - np.floor(t + 1e-6)) * 1000))
                g = time.gmtime(s)
                return time.strftime("%Y%m%d", g), time.strftime("%H%M%S", g), max(ms, 0)

            m = int(rng.integers(8, 60))
            rt = np.unique(np.round(rng.uniform(ts[0] - 2, ts[-1] + 2, m), 3))
            m = len(rt)
            head = np.round((float(rng.choice([358.0, 1.0, 180.0, 90.0])) + np.cumsum(rng.normal(0, 5, m))) % 360, 2) % 360
            roll, pitch = np.round(rng.uniform(-10, 10, m), 2), np.round(rng.uniform(-10, 10, m), 2)
            (d.raw / "nav" / "TCM").mkdir()
            order = rng.permutation(m) if rng.random() < 0.3 else np.arange(m)
            (d.raw / "nav" / "TCM" / "TCM.csv").write_text("index,date(YYYYMMDD),time(hhmmss),time_ms(iiii),heading(degrees),pitch(degrees),roll(degrees)\n" + "".join(
                "%d,%s,%s,%04d,%s,%s,%s\n" % ((i,) + clock(rt[i]) + (head[i], pitch[i], roll[i])) for i in order))
            times = {}
            for cam in ("LM165", "Xviii"):
                (d.raw / "image" / cam).mkdir(parents=True)
                times[cam] = stamps(int(rng.integers(3, 25)))
                k0 = int(rng.integers(1, 12000))
                (d.raw / "image" / cam / "FileTime.csv").write_text("index,date,time,ms\n" + "".join("%d,%s,%s,%d\n" % ((k0 + i,) + clock(t)) for i, t in enumerate(times[cam])))
                times[cam] = [(k0 + i, float(t)) for i, t in enumerate(times[cam])]
            arm = {k: tuple(float(x) for x in np.round(rng.uniform(-2, 2, 3), 2)) for k in ("camA", "camB", "LM165", "dvl", "depth")}
            d.write_config(D.mission_dict(lat0, lon0, cams=[{"name": "camA", "type": "bayer_rggb", "path": "image/Xviii/A"}, {"name": "camB", "type": "bayer_rggb", "path": "image/Xviii/B"},
                                                            {"name": "LM165", "type": "grayscale", "path": "image/LM165"}], image_format="sim"),
                           D.vehicle_dict(dvl=arm["dvl"], depth=arm["depth"], cams={k: arm[k] for k in ("camA", "camB", "LM165")}))
            d.processed.mkdir(parents=True)
            wit = {"case": case["i"], "tz": os.environ["TZ"], "files": nf}
            with rec.guard("koyo", "convert a koyo20rov dive", **wit):
                D.nav_main("convert", "koyo20rov_to_oplab", "-i", d.raw if rng.random() < 0.5 else d.processed)
            ds = d.renav()
            a, b = min(ts[0], rt[0]), max(ts[-1], rt[-1])
            name = "json_renav_%s_%s" % tuple(time.strftime("%Y%m%d_%H%M%S", time.gmtime(int(np.floor(x + 1e-6)))) for x in (a, b))
            if not rec.check("koyo", len(ds) == 1 and ds[0].name == name, "output folder is not named after the logs", got=[x.name for x in ds], want=name, **wit):
                return
            for out, cam, target, path in (("camA", "Xviii", "camA", "image/Xviii/A/%07d.raw"), ("camB", "Xviii", "camB", "image/Xviii/B/%07d.raw"), ("LM165_at_dvl", "LM165", "dvl", None)):
                rows = D.read_csv(ds[0] / "csv" / "dead_reckoning" / ("auv_dr_%s.csv" % out))
                want = [(i, t) for i, t in times[cam] if max(ts[0], rt[0]) - 1e-6 <= t <= min(ts[-1], rt[-1]) + 1e-6]
                lim = [max(ts[0], rt[0]), min(ts[-1], rt[-1])]
                if any(min(abs(t - x) for x in lim) < 1e-3 for _, t in times[cam]):
                    continue
                if not rec.check("koyo", len(rows) == len(want), "%s: %d rows for %d images within the logs" % (out, len(rows), len(want)), **wit):
                    return
                for r, (i, t) in zip(rows, want):
                    rel = path % i if path else "image/LM165/%s/image%07d.tif" % (("%07d" % i)[1:4], i)
                    p = [float(pair_lerp(t, rt, v, False)) for v in (roll, pitch)] + [float(pair_lerp(t, rt, head, True))]
                    R = D.rot(*p)
                    la, lo = pair_lerp(t, ts, lat, False), pair_lerp(t, ts, lon, False)
                    g = Geodesic.WGS84.Inverse(lat0, lon0, la, lo)
                    ne = g["s12"] * np.array([math.cos(math.radians(g["azi1"])), math.sin(math.radians(g["azi1"]))])
                    off = R @ (np.array(arm[target]) - np.array(arm["dvl"]))
                    ne = ne + off[:2]
                    w = {"northing [m]": ne[0], "easting [m]": ne[1], "depth [m]": pair_lerp(t, ts, wdep, False) + (R @ (np.array(arm[target]) - np.array(arm["depth"])))[2],
                         "altitude [m]": pair_lerp(t, ts, walt, False) - off[2], "roll [deg]": p[0], "pitch [deg]": p[1], "heading [deg]": p[2], "timestamp [s]": t}
                    bad = [] if r["relative_path"] == rel else ["relative_path"]
                    for c, v in w.items():
                        tol = 0.03 + 1e-3 * g["s12"] if c.startswith(("north", "east")) else 2e-3 if "[deg]" in c or c[:3] in ("dep", "alt") else 1e-5
                        if not (near_ang if "[deg]" in c else near)(r[c], v, tol):
                            bad.append(c)
                    h = Geodesic.WGS84.Inverse(float(r["latitude [deg]"]), float(r["longitude [deg]"]), *[Geodesic.WGS84.Direct(lat0, lon0, math.degrees(math.atan2(ne[1], ne[0])), math.hypot(*ne))[k] for k in ("lat2", "lon2")])
                    if h["s12"] > 0.03 + 1e-3 * g["s12"]:
                        bad.append("position")
                    if not rec.check("koyo", not bad, "%s: pose of an image does not follow from its bracketing records: %s" % (out, bad), got=r, want=w, **wit):
                        return
            # its own results are kept unless told otherwise
            keep = "auv_dr_%s.csv" % str(rng.choice(["camA", "camB", "LM165_at_dvl"]))
            for f in (ds[0] / "csv" / "dead_reckoning").iterdir():
                if f.name == keep:
                    f.write_text("mine\n")
                else:
                    f.unlink()
            for force in (False, True):
                try:
                    D.nav_main("convert", "koyo20rov_to_oplab", "-i", d.raw, *(["-F"] if force else []))
                except (AssertionError, SystemExit):
                    pass
                left = {f.name: f.read_text() for f in (ds[0] / "csv" / "dead_reckoning").iterdir()}
                rec.check("koyo", (left.get(keep) == "mine\n") != force, "an existing result is %s" % ("kept with -F" if force else "overwritten without -F"), **wit)
            rec.case()
            rec.seen("koyo", n, m, nf)
            rec.sample({"kind": "koyo", "records": n, "images": len(times["Xviii"])})
    finally:
        os.environ.pop("TZ", None)
        if tz:
            os.environ["TZ"] = tz
        time.tzset()
