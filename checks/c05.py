"""C05 the EKF: every instant has one state, covariances are valid, and the recursion is the stated filter/smoother."""
import math

import numpy as np

from auv_nav.localisation.ekf import ExtendedKalmanFilter
from auv_nav.sensors import BodyVelocity, Depth, Orientation, SyncedOrientationBodyVelocity, Usbl
from lib import dive as D
from lib.ekfref import Ref, wrap
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C05"
RULE = ("random asynchronous orientation/DVL/depth/USBL series (missing sensors, coincident stamps, outliers, gaps, sensor or "
        "model uncertainties, lever arms, full initial covariances) through the real filter, monitored against an independent "
        "complex-step EKF/RTS; whole dives through process(), with and without --relative_pose_uncertainty, compared at the CSV output; non-trivial: each filter state compared")
REQUIRED = {"states": 60, "covariance": 2000, "filtered": 2000, "smoothed": 1000, "rejected": 60, "smoother-shrinks": 1000,
            "csv-std": 200, "csv-state": 200, "csv-cov": 50, "relative": 60}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["a run where some innovation lies within 1e-6 (relative) of the rejection gate is not compared to the reference",
               "pitch stays below 60 degrees (the motion model is singular at 90)"]


def cases(rng, tier):
    n = 120 if tier == "quick" else 240
    m = 10 if tier == "quick" else 60
    return [{"kind": k, "i": i} for k, q in (("filter", n), ("process", m), ("relative", 2 * m)) for i in range(q)]


def run_case(case, rec):
    rng = case_rng(case)
    {"filter": filt, "process": proc, "relative": relative}[case["kind"]](rec, rng)


def spd(rng, scale):
    a = rng.normal(0, 1, (12, 12)) * 0.3 + np.eye(12)
    return scale * a @ a.T


def filt(rec, rng):
    for _ in range(3):
        dur = float(rng.uniform(3, 15))
        t0 = D.EPOCH0 + float(rng.integers(0, 10**6))
        q = lambda n, lo=-0.5: np.round(np.sort(rng.uniform(t0 + lo, t0 + dur, n)), 3)
        use = {k: rng.random() < 0.85 for k in ("ori", "vel", "dep", "usbl")}
        if not any(use.values()):
            use["ori"] = True
        N = int(rng.integers(3, 30))
        ot, vt, dt_, ut = q(N), q(N), q(N), q(max(2, N // 4))
        if rng.random() < 0.4:  # coincident stamps across sensors
            k = min(len(ot), len(vt)) // 2
            vt[:k] = ot[:k]
            dt_[1:2] = ot[1:2]
            ut[:1] = ot[1:2]
            vt, dt_, ut = np.sort(vt), np.sort(dt_), np.sort(ut)
        ot, vt, dt_, ut = (np.unique(a) for a in (ot, vt, dt_, ut))
        if rng.random() < 0.35:  # a reading at the very start, which the initial state already has
            for a in (ot, vt, dt_, ut):
                if rng.random() < 0.6:
                    a[0] = t0
            ot, vt, dt_, ut = (np.unique(a) for a in (ot, vt, dt_, ut))
        if rng.random() < 0.3:  # outage
            a = t0 + dur * 0.3
            vt = vt[(vt < a) | (vt > a + dur * 0.5)]
        out_p = float(rng.choice([0, 0, 0.1]))
        big = lambda s: float(rng.normal(0, 30 * s)) if rng.random() < out_p else 0.0
        model = {k: bool(rng.random() < 0.3) for k in ("ori", "vel", "dep", "usbl")}
        psi0 = float(rng.choice([0, 179, 181, 359, 90]))
        std = {"position_xy": {"factor": 0.01, "offset": 1.0}, "position_z": {"factor": 0.001, "offset": 0.05},
               "speed": {"factor": 0.01, "offset": 0.02}, "orientation": {"factor": 0.002, "offset": 0.2}}
        if rng.random() < 0.5:
            std["speed"] = {"factor_x": 0.01, "offset_x": 0.02, "factor_y": 0.02, "offset_y": 0.03, "factor_z": 0.03,
                            "offset_z": 0.01}
        sp = std["speed"]
        meas, ol, vl, dl, ul = [], [], [], [], []
        if use["ori"]:
            for t in ot:
                o = Orientation(0.1, 0.0)
                o.epoch_timestamp = float(t)
                o.roll, o.pitch = float(rng.normal(0, 8)), float(np.clip(rng.normal(0, 8), -40, 40))
                o.yaw = (psi0 + 4 * (t - t0) + float(rng.normal(0, 1)) + big(3)) % 360
                s = [0.0] * 3 if model["ori"] else [float(x) for x in rng.uniform(0.05, 1, 3)]
                o.roll_std, o.pitch_std, o.yaw_std = s
                ol.append(o)
                r = np.radians([0.2 + 0.002 * abs(a) for a in (o.roll, o.pitch, o.yaw)] if model["ori"] else s) ** 2
                meas.append((float(t), "orientation", np.radians([o.roll, o.pitch, o.yaw]), r))
        if use["vel"]:
            for t in vt:
                v = BodyVelocity(0.1, 0.0)
                v.epoch_timestamp = float(t)
                v.x_velocity, v.y_velocity, v.z_velocity = float(0.8 + rng.normal(0, 0.05)) + big(0.1), float(rng.normal(0, 0.2)), float(rng.normal(0, 0.1))
                s = [0.0] * 3 if model["vel"] else [float(x) for x in rng.uniform(0.01, 0.1, 3)]
                v.x_velocity_std, v.y_velocity_std, v.z_velocity_std = s
                vl.append(v)
                if model["vel"]:
                    s = [abs(getattr(v, a + "_velocity")) * sp.get("factor_" + a, sp.get("factor")) + sp.get("offset_" + a, sp.get("offset"))
                         for a in "xyz"]
                meas.append((float(t), "DVL", np.array([v.x_velocity, v.y_velocity, v.z_velocity]), np.array(s) ** 2))
        if use["dep"]:
            for t in dt_:
                d = Depth(0.1, 0.0)
                d.epoch_timestamp = float(t)
                d.depth = float(40 + 0.1 * (t - t0) + rng.normal(0, 0.1)) + big(1)
                d.depth_std = 0.0 if model["dep"] else float(rng.uniform(0.01, 0.3))
                dl.append(d)
                s = d.depth_std or d.depth * 0.001 + 0.05
                meas.append((float(t), "depth", np.array([d.depth]), np.array([s ** 2])))
        if use["usbl"]:
            for t in ut:
                u = Usbl(0.1, 0.0)
                u.epoch_timestamp = float(t)
                u.northings = 0.5 * (t - t0) + float(rng.normal(0, 2)) + big(20)
                u.eastings = -0.5 * (t - t0) + float(rng.normal(0, 2))
                u.depth = 40.0
                if model["usbl"]:
                    u.northings_std = u.eastings_std = 0.0
                    s = 1.0 + 0.01 * math.sqrt(u.northings ** 2 + u.eastings ** 2 + 1600)
                    s = [s, s]
                else:
                    s = [float(x) for x in rng.uniform(0.5, 5, 2)]
                    u.northings_std, u.eastings_std = s
                ul.append(u)
                meas.append((float(t), "USBL", np.array([u.northings, u.eastings]), np.array(s) ** 2))
        init = SyncedOrientationBodyVelocity()
        init.epoch_timestamp = t0
        init.northings, init.eastings, init.depth = [float(x) for x in rng.normal(0, 2, 3) + [0, 0, 40]]
        init.roll, init.pitch, init.yaw = float(rng.normal(0, 5)), float(rng.normal(0, 5)), psi0
        init.x_velocity, init.y_velocity, init.z_velocity = 0.8, float(rng.normal(0, .1)), float(rng.normal(0, .1))
        x0 = np.array([init.northings, init.eastings, init.depth, *np.radians([init.roll, init.pitch, init.yaw]),
                       init.x_velocity, init.y_velocity, init.z_velocity, 0, 0, 0])
        P0 = np.eye(12) * float(rng.choice([1e-9, 1e-6, 1e-2])) if rng.random() < 0.5 else spd(rng, float(rng.choice([1e-4, 1e-2])))
        Q = np.diag(D.PROC_DIAG) * float(rng.choice([0.05, 1])) if rng.random() < 0.7 else spd(rng, 0.01)
        gate = float(rng.choice([2.5, 3, 6, 300]))
        ua, da = [float(x) for x in rng.uniform(-1, 1, 3)], [float(x) for x in rng.uniform(-1, 1, 3)]
        stamps = sorted(set(q(int(rng.integers(0, 15)), lo=-1).tolist()))
        end = float(rng.choice([t0 + dur, t0 + dur * 0.6]))
        smoother = bool(rng.random() < 0.75)
        wit = dict(use=use, n=N, gate=gate, smoother=smoother, model=model, yaw0=psi0)
        ref = Ref(t0, x0, P0, Q, gate, ua, da)
        ref.run(meas, stamps, end)
        if ref.margin < 1e-6 or not np.isfinite(ref.states[-1][1]).all() or max(abs(s[1][4]) for s in ref.states) > 1.0:
            rec.event("not_compared")
            continue
        with rec.guard("states", "extended Kalman filter", **wit):
            with quiet():
                f = ExtendedKalmanFilter(init, end, P0.copy(), Q.copy(), std, ul, dl, ol, vl, gate, smoother, ua, da)
                f.run(list(stamps))
            got = f.get_result()
            rec.case()
            gt, rt = [s.time for s in got], [s[0] for s in ref.states]
            rec.event("measurements_accepted", ref.accepted)
            want = {t for t in rt if t <= end}
            if not rec.check("states", set(gt) >= want and len(gt) == len(set(gt)) and gt == sorted(gt) and set(gt) <= set(rt),
                             "filter has %d states, %d distinct instants of measurements/requests; in order: %s"
                             % (len(gt), len(rt), gt == sorted(gt)), missing=sorted(want - set(gt))[:4], **wit):
                continue
            refd = {s[0]: s for s in ref.states}
            states(rec, "filtered", got, refd, wit)
            rej = {k: list(v) for k, v in f.get_rejected_measurements().items() if len(v)}
            rec.check("rejected", rej == {k: v for k, v in ref.rejected.items() if v},
                      "rejected %s, the gate rejects %s" % ({k: len(v) for k, v in rej.items()}, {k: len(v) for k, v in ref.rejected.items()}), **wit)
            rec.event("measurements_rejected", sum(map(len, ref.rejected.values())))
            sm = f.get_smoothed_result()
            if len(rt) < 2:
                continue
            rec.check("states", [s.time for s in sm] == gt, "smoothed states are not at the filtered instants", **wit)
            if smoother:
                rs = ref.smooth()
                states(rec, "smoothed", sm, {s[0]: s for s in rs}, wit, tol=1e-5)
                for a, b in zip(got, sm):
                    da_, db_ = np.diag(np.asarray(a.covariance)), np.diag(np.asarray(b.covariance))
                    rec.check("smoother-shrinks", (db_ <= da_ * (1 + 1e-6) + 1e-12).all(),
                              "smoothing increased a variance: %s -> %s" % (da_, db_), **wit)
            else:
                states(rec, "filtered", sm, refd, wit)
            rec.seen("filter", t0, N, gate, tuple(use.values()))
            rec.sample(dict(wit, states=len(gt), rejected={k: len(v) for k, v in rej.items()}))


def states(rec, mon, got, ref, wit, tol=1e-6):
    for s in got:
        if s.time not in ref:
            continue
        x, P = np.asarray(s.state, float).ravel(), np.asarray(s.covariance, float)
        _, rx, rP = ref[s.time]
        scale = np.sqrt(np.maximum(np.diag(rP), 1e-12))
        sym = np.abs(P - P.T) / np.outer(scale, scale)
        ok = np.isfinite(x).all() and np.isfinite(P).all()
        eig = np.linalg.eigvalsh((P + P.T) / 2 / np.outer(scale, scale)).min() if ok else -np.inf
        if not rec.check("covariance", ok and sym.max() < 1e-6 and eig > -1e-6,
                         "%s covariance at %r: finite=%s asymmetry=%.3g smallest eigenvalue=%.3g" % (mon, s.time, ok, sym.max(), eig), **wit):
            return
        dx = x - rx
        dx[3:6] = wrap(dx[3:6])
        ex = np.abs(dx) / (scale + np.abs(rx) * 1e-3 + 1e-3)
        eP = np.abs(P - rP) / np.outer(scale, scale)
        rec.seen(mon, s.time)
        if not rec.check(mon, ex.max() < tol * 10 and eP.max() < tol * 100,
                         "%s state at %r departs from the filter equations: component %d by %.3g, covariance %s by %.3g (relative)"
                         % (mon, s.time, int(ex.argmax()), dx[ex.argmax()], np.unravel_index(eP.argmax(), eP.shape), eP.max()), **wit):
            return


STD = ["vehicle_std_x [m]", "vehicle_std_y [m]", "vehicle_std_z [m]", "vehicle_std_roll [deg]", "vehicle_std_pitch [deg]",
       "vehicle_std_yaw [deg]", "vehicle_std_vx [m/s]", "vehicle_std_vy [m/s]", "vehicle_std_vz [m/s]",
       "vehicle_std_vroll [deg/s]", "vehicle_std_vpitch [deg/s]", "vehicle_std_vyaw [deg/s]"]
DEG = np.array([1, 1, 1, 180 / math.pi, 180 / math.pi, 180 / math.pi] * 2)
POSE = ["x", "y", "z", "roll", "pitch", "yaw"]


def proc(rec, rng):
    smoother = bool(rng.random() < 0.6)
    kw = dict(dur=15.0, cams=int(rng.integers(1, 3)), usbl=True, usbl_dt=2.0)
    nav = Nav(rng, **kw)
    gate = float(rng.choice([3.0, 8.0]))
    wit = dict(smoother=smoother, gate=gate, options=kw)
    init_diag = [float(x) for x in rng.choice([1e-9, 1e-3], 12)]
    with scratch() as root, rec.guard("csv-state", "process() with the EKF", **wit):
        d = D.Dive(root)
        d.write_config(nav.mission(), nav.vehicle())
        loc = D.localisation_dict(ekf=True, smoother=smoother, mahal=gate, init_diag=init_diag)
        if rng.random() < 0.3:  # matrices of the older 15-state files: the first twelve rows and columns
            for k in ("process_noise_covariance", "initial_estimate_covariance"):
                m = np.diag([7.0] * 15)
                m[:12, :12] = np.array(loc["ekf"][k]).reshape(12, 12)
                loc["ekf"][k] = m.ravel().tolist()
        d.write_localisation(loc)
        recs = nav.records()
        d.write_nav(recs)
        out = d.process()
        dr = D.read_csv(out / "csv/dead_reckoning/auv_dr_dvl.csv")
        ekf = D.read_csv(out / "csv/ekf/auv_ekf_centre.csv")
        t0, end = float(dr[0]["timestamp"]), float(dr[-1]["timestamp"])
        rpy = [float(dr[0][k]) for k in ("roll [deg]", "pitch [deg]", "heading [deg]")]
        dvl, dep, usb, org = map(np.array, (nav.dvl_off, nav.depth_off, nav.usbl_off, nav.origin))
        z0 = float(np.interp(t0, nav.dep_t, nav.dep)) + (D.rot(*rpy) @ (dvl - dep))[2]
        v0 = [float(np.interp(t0, nav.vel_t, nav.velo[:, k])) for k in range(3)]
        x0 = [float(dr[0]["northing [m]"]), float(dr[0]["easting [m]"]), z0, *np.radians(rpy), *v0, 0, 0, 0]
        meas = [(float(t), "orientation", np.radians(o), np.radians(s) ** 2) for t, o, s in zip(nav.ori_t, nav.ori, nav.ostd)]
        meas += [(float(t), "DVL", v, s ** 2) for t, v, s in zip(nav.vel_t, nav.velo, nav.vstd)]
        meas += [(float(t), "depth", np.array([v]), np.array([s ** 2])) for t, v, s in zip(nav.dep_t, nav.dep, nav.dstd)]
        meas += [(float(t), "USBL", u[:2], np.array([4.0, 4.0])) for t, u in zip(nav.usbl_t, nav.usbl)]
        ref = Ref(t0, x0, np.diag(init_diag), np.diag(D.PROC_DIAG), gate, dvl - usb, dvl - dep)
        ref.run(meas, [float(t) for t in nav.cam_t], end)
        if ref.margin < 1e-5:
            return
        states_ = {round(s[0], 4): s for s in (ref.smooth() if smoother else ref.states)}
        rec.case()
        rec.seen("process", t0, len(ekf))
        ts = [round(float(r["timestamp"]), 4) for r in ekf]
        rec.check("states", ts == sorted(states_), "EKF track has %d rows, %d instants were measured or requested" % (len(ts), len(states_)), **wit)
        bykey = {}
        for r, t in zip(ekf, ts):
            if t not in states_:
                continue
            _, x, P = states_[t]
            R = D.rot(*np.degrees(x[3:6]))
            c = x[:3] + R @ (org - dvl)
            g = np.array([float(r[k]) for k in ("northing [m]", "easting [m]", "depth [m]")])
            gr = np.array([float(r[k]) for k in ("roll [deg]", "pitch [deg]", "heading [deg]")])
            sc = np.sqrt(np.diag(P))
            e1 = np.abs(g - c).max()
            e2 = np.abs(D.wrap180(gr - np.degrees(x[3:6]))).max()
            rec.check("csv-state", e1 < 2e-4 and e2 < 2e-3,
                      "EKF track at %s departs from the filter equations by %.3g m, %.3g deg" % (t, e1, e2), **wit)
            gs = np.array([float(r[k]) for k in STD])
            bykey[t] = gs
            rel = np.abs(gs - sc * DEG) / (sc * DEG + 1e-6)
            rec.check("csv-std", rel.max() < 1e-3, "%s at %s: %s, the filter covariance gives %s"
                      % (STD[int(rel.argmax())], t, gs[rel.argmax()], (sc * DEG)[rel.argmax()]), **wit)
        for name in nav.cam_names:
            cam = D.read_csv(out / "csv/ekf" / ("auv_ekf_%s.csv" % name))
            cov = D.read_csv(out / "csv/ekf" / ("auv_ekf_%s_cov.csv" % name))
            rec.check("csv-cov", [r["relative_path"] for r in cov] == [r["relative_path"] for r in cam],
                      "covariance file of %s does not list the images of its pose file" % name, **wit)
            for r, c in zip(cam, cov):
                C = np.array([[float(c["cov_%s_%s" % (a, b)]) for b in POSE] for a in POSE])
                sd = np.array([float(r[k]) for k in STD[:6]]) / DEG[:6]
                t = round(float(r["timestamp [s]"]), 4)
                ok = np.isfinite(C).all() and np.abs(C - C.T).max() < 1e-6 * np.abs(C).max() and np.allclose(np.sqrt(np.abs(np.diag(C))), sd, rtol=1e-5, atol=1e-9)
                full = states_[t][2][:6, :6]
                sc = np.sqrt(np.diag(full))
                ok2 = (np.abs(C - full) / np.outer(sc, sc)).max() < 1e-3
                rec.check("csv-cov", ok and ok2, "covariance of %s is not that of its pose (consistent with the std columns: %s)"
                          % (r["relative_path"], ok), **wit)


def relative(rec, rng):
    """process -r: the uncertainty of laser poses relative to one of them, against the reference filter started there."""
    smoother = bool(rng.random() < 0.5)
    cams = int(rng.integers(2, 4))
    nav = Nav(rng, dur=20.0, cams=cams, laser=True, usbl_dt=2.0)
    init_diag = [float(x) for x in rng.choice([1e-9, 1e-3], 12)]
    name = nav.cam_names[-1]
    wit = dict(smoother=smoother, cams=cams, init=init_diag)
    with scratch() as root, rec.guard("relative", "process --relative_pose_uncertainty", **wit):
        d = D.Dive(root)
        mission = nav.mission()
        if cams == 2:
            mission["image"]["format"] = "biocam"
            for c in mission["image"]["cameras"]:
                c["records_laser"] = c["name"] == name
        d.write_config(mission, nav.vehicle())
        d.write_localisation(D.localisation_dict(ekf=True, smoother=smoother, mahal=8.0, init_diag=init_diag))
        d.write_nav(nav.records())
        out = d.process()
        csv = out / "csv/ekf"
        stored = D.read_csv(csv / ("auv_ekf_%s_laser_at_dvl.csv" % name))
        scov = [cov6(r) for r in D.read_csv(csv / ("auv_ekf_%s_laser_at_dvl_cov.csv" % name))]
        a = int(rng.integers(0, len(stored) - 4))
        b = int(rng.integers(a, len(stored)))
        edge = rng.random()
        if edge < 0.3:  # up to the last frame, or a single frame
            b = len(stored) - 1 if edge < 0.15 else a
        wit.update(start=a, end=b, frames=len(stored))
        keep = {p: p.read_bytes() for p in out.rglob("*.csv")}
        try:
            d.process_cli("-r", "--start_image_identifier", stored[a]["relative_path"], "--end_image_identifier", stored[b]["relative_path"])
        except SystemExit:
            pass
        for p, old in keep.items():
            rec.check("relative", p.exists() and p.read_bytes() == old, "%s was changed by the relative run" % p.name, **wit)
        want = stored[a:b + 1]
        t0 = float(want[0]["timestamp [s]"]) - 0.000001
        dvl, dep, usb = map(np.array, (nav.dvl_off, nav.depth_off, nav.usbl_off))
        meas = [(float(t), "orientation", np.radians(o), np.radians(s) ** 2) for t, o, s in zip(nav.ori_t, nav.ori, nav.ostd)]
        meas += [(float(t), "DVL", v, s ** 2) for t, v, s in zip(nav.vel_t, nav.velo, nav.vstd)]
        meas += [(float(t), "depth", np.array([v]), np.array([s ** 2])) for t, v, s in zip(nav.dep_t, nav.dep, nav.dstd)]
        meas += [(float(t), "USBL", u[:2], np.array([4.0, 4.0])) for t, u in zip(nav.usbl_t, nav.usbl)]
        x0 = [float(want[0][k]) for k in ("northing [m]", "easting [m]", "depth [m]")]
        x0 += [math.radians(float(want[0][k])) for k in ("roll [deg]", "pitch [deg]", "heading [deg]")]
        x0 += [float(want[0][k]) for k in ("x_velocity [m/s]", "y_velocity [m/s]", "z_velocity [m/s]")] + [0, 0, 0]
        P0 = np.diag([0.0] * 6 + init_diag[6:])
        ref = Ref(t0, x0, P0, np.diag(D.PROC_DIAG), 8.0, dvl - usb, dvl - dep)
        ref.run(meas, sorted({float(t) for t in [*nav.cam_t, *nav.laser_t]}), float(want[-1]["timestamp [s]"]))
        states_ = {round(s[0], 4): s for s in (ref.smooth() if smoother else ref.states)[1:]}
        rec.case()
        rec.seen("relative", cams, smoother, a, b)
        for kind in ("subtraction", "ekf_propagation"):
            stem = "auv_ekf_cov_based_on_%s_%s_laser_at_dvl" % (kind, name)
            rows, covs = D.read_csv(csv / (stem + ".csv")), D.read_csv(csv / (stem + "_cov.csv"))
            names = [r["relative_path"] for r in want]
            if not rec.check("relative", [r["relative_path"] for r in rows] == names and [r["relative_path"] for r in covs] == names,
                             "%s does not list the laser frames from the start to the end image" % stem, **wit):
                continue
            for i, (r, c, w) in enumerate(zip(rows, covs, want)):
                C = cov6(c)
                g = [np.array([float(q[k]) for k in POSE6]) for q in (r, w)]
                t = float(w["timestamp [s]"])
                ok = abs(float(r["timestamp [s]"]) - t) < 2e-6
                if kind == "subtraction":
                    full = scov[a + i] + scov[a] if i else np.zeros((6, 6))
                    ok = ok and np.abs(g[0] - g[1]).max() < 1e-6 and np.abs(C - full).max() <= 1e-9 * (1 + np.abs(full).max())
                elif ref.margin > 1e-5:
                    _, x, P = states_[round(t, 4)]
                    e = g[0] - np.r_[x[:3], np.degrees(x[3:6])]
                    sc = np.sqrt(np.diag(P[:6, :6]))
                    ok = ok and np.abs(e[:3]).max() < 5e-4 and np.abs(D.wrap180(e[3:])).max() < 5e-3
                    ok = ok and (np.abs(C - P[:6, :6]) / (np.outer(sc, sc) + 1e-6)).max() < 5e-3
                rec.check("relative", ok, "%s: pose or covariance of frame %d of %d is wrong" % (stem, i, len(want)), **wit)


POSE6 = ["northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]"]


def cov6(row):
    return np.array([[float(row["cov_%s_%s" % (p, q)]) for q in POSE] for p in POSE])
