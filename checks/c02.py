"""C02 interpolation of navigation samples."""
import numpy as np

from auv_nav.sensors import Camera, SyncedOrientationBodyVelocity, Usbl
from auv_nav.tools.interpolate import (
    interpolate, interpolate_altitude, interpolate_camera, interpolate_covariance, interpolate_dvl, interpolate_sensor_list,
    interpolate_usbl)
from geographiclib.geodesic import Geodesic
from lib import dive as D
from lib.engine import case_rng, quiet
import math

PID = "C02"
RULE = ("random timestamped tracks (3-40 samples, irregular spacing, headings crossing north both ways, spans from 1 ms "
        "to minutes) x queries at sample times, between samples, at both ends and outside; and dives through process, the USBL filter and the converters, whose interpolated columns are compared with the records they come from; non-trivial: every query")
REQUIRED = {"scalar": 500, "heading-arc": 500, "dvl-linear": 500, "usbl-linear": 500, "camera-linear": 300,
            "sensor-list-pose": 500, "sensor-list-set": 100, "covariance": 200, "altitude": 300,
            "dive attitude": 10, "dive depth-altitude": 10, "dive dr:pose": 50, "dive ekf:pose": 20, "dive pf:pose": 10, "dive laser:pose": 5, "dive payload:pose": 5,
            "dive filter-depth": 10, "dive hybis": 10, "dive laser": 2}


def cases(rng, tier):
    n = 60 if tier == "quick" else 120
    out = [{"kind": k, "i": i} for i in range(n) for k in ("pair", "camera", "list", "altitude")]
    # the interpolations inside the commands, watched by the monitors of the checks that simulate them
    m = 1 if tier == "quick" else 12
    for i in range(m):
        out += [{"kind": "dive", "of": "c03", "as": k, "i": 2 * i + j} for k in ("plain", "turn", "nousbl", "gap", "window") for j in range(2)]
        out += [{"kind": "dive", "of": "c04", "as": k, "i": 2 * i + j} for k in ("dr", "ekf", "pf", "laser", "payload", "edge", "two") for j in range(2)]
        out += [{"kind": "dive", "of": "c07", "as": "filter", "i": 3 * i + j} for j in range(3)]
        out += [{"kind": "dive", "of": "c25", "as": k, "i": 4 * i + j} for k in ("hybis", "acfr", "dive") for j in range(6)]
    return out


KEEP = {"c03": ("attitude", "depth-altitude", "uncertainty", "position"), "c04": ("dr:pose", "ekf:pose", "pf:pose", "laser:pose", "payload:pose"), "c07": ("filter-depth",), "c25": ("hybis", "laser")}


def altitude(rec, rng):
    for _ in range(20):
        tr = track(rng)
        ts = [s.epoch_timestamp for s in tr]
        for t in queries(rng, ts, False):
            t = float(t)
            a, b, x = expect(tr, t)
            rec.case()
            with rec.guard("altitude", "interpolate altitude", t=t, ts=ts):
                g = interpolate_altitude(t, tr)
                w = a.altitude * (1 - x) + b.altitude * x
                rec.check("altitude", abs(g - w) < 1e-5, "altitude %r at %r, bracketing samples give %r" % (g, t, w), ts=ts)


def run_case(case, rec):
    rng = case_rng(case)
    if case["kind"] == "dive":
        import importlib

        mod = importlib.import_module("checks." + case["of"])
        rec.borrow(mod.run_case, dict(case, kind=case["as"]), KEEP[case["of"]], "dive ")
        return
    {"pair": pair, "camera": camera, "list": slist, "altitude": altitude}[case["kind"]](rec, rng)


def heading(rng):
    if rng.random() < 0.5:
        return float(rng.choice([0, 359.5, 0.5, 1, 350, 10, 180, 179, 181, 90, 270]) + rng.uniform(0, 0.4)) % 360
    return float(rng.uniform(0, 360))


def sample(rng, t, cls=SyncedOrientationBodyVelocity):
    s = cls()
    s.epoch_timestamp = t
    for k in ("x_velocity", "y_velocity", "z_velocity", "roll", "pitch", "northings", "eastings", "depth", "altitude",
              "latitude", "longitude"):
        setattr(s, k, float(rng.normal() * 20))
    s.yaw = heading(rng)
    return s


def arc_ok(got, y0, y1, x):
    """shortest arc, result on the circle in [0, 360]; ambiguous at exactly 180."""
    d = float(D.wrap180(y1 - y0))
    want = y0 + d * x
    ok = abs(D.wrap180(got - want)) < 1e-6
    if abs(abs(d) - 180) < 1e-6:
        ok = ok or abs(D.wrap180(got - (y0 - d * x))) < 1e-6
    return ok and -1e-9 <= got <= 360 + 1e-9, want % 360


def pair(rec, rng):
    for _ in range(150):
        t0 = float(np.round(D.EPOCH0 + rng.uniform(0, 1e6), 3))
        dt = float(10 ** rng.uniform(-2, 2.5))
        t1 = t0 + dt
        x = float(rng.choice([0.0, 1.0, 0.5])) if rng.random() < 0.25 else float(rng.uniform(0, 1))
        t = t0 + x * dt
        x = (t - t0) / (t1 - t0)
        rec.case()
        a, b = sample(rng, t0), sample(rng, t1)
        if rng.random() < 0.5:  # close headings across north
            a.yaw = float(rng.uniform(-9, 9)) % 360
            b.yaw = float(rng.uniform(-9, 9)) % 360
        rec.seen(t0, t, a.yaw, b.yaw)
        wit = dict(t0=t0, t1=t1, t=t, yaw0=a.yaw, yaw1=b.yaw)
        with rec.guard("scalar", "interpolate", **wit):
            y = interpolate(t, t0, t1, a.depth, b.depth)
            rec.check("scalar", abs(y - (a.depth * (1 - x) + b.depth * x)) < 1e-6, "scalar interpolation off: %r" % y, **wit)
            y = interpolate(t0, t0, t0, a.depth, b.depth)
            rec.check("scalar", y == a.depth or y == b.depth, "coincident samples give %r" % y, **wit)
        with rec.guard("dvl-linear", "interpolate synced sample", **wit):
            c = interpolate_dvl(t, a, b)
            for k in ("x_velocity", "y_velocity", "z_velocity", "roll", "pitch"):
                w = getattr(a, k) * (1 - x) + getattr(b, k) * x
                rec.check("dvl-linear", abs(getattr(c, k) - w) < 1e-6, "%s = %r, linear gives %r" % (k, getattr(c, k), w), **wit)
            ok, want = arc_ok(c.yaw, a.yaw, b.yaw, x)
            rec.check("heading-arc", ok, "heading %r, shortest arc gives %r" % (c.yaw, want), **wit)
            rec.check("dvl-linear", c.epoch_timestamp == t, "timestamp changed", **wit)
        with rec.guard("usbl-linear", "interpolate usbl", **wit):
            u, v = Usbl(0.1, 0.01), Usbl(0.1, 0.01)
            for q, tt in ((u, t0), (v, t1)):
                q.epoch_timestamp = tt
                for k in ("northings", "eastings", "northings_std", "eastings_std", "depth"):
                    setattr(q, k, float(rng.normal() * 50))
            w_ = interpolate_usbl(t, u, v)
            for k in ("northings", "eastings", "northings_std", "eastings_std", "depth"):
                w = getattr(u, k) * (1 - x) + getattr(v, k) * x
                rec.check("usbl-linear", abs(getattr(w_, k) - w) < 1e-6, "usbl %s = %r, linear %r" % (k, getattr(w_, k), w), **wit)
        with rec.guard("covariance", "interpolate covariance", **wit):
            A = rng.normal(size=(12, 12)); A = A @ A.T
            B = rng.normal(size=(12, 12)); B = B @ B.T
            C = interpolate_covariance(t, t0, t1, A.copy(), B.copy())
            rec.check("covariance", np.allclose(C, (1 - x) * A + x * B, atol=1e-5), "covariance not the convex combination", **wit)
            rec.check("covariance", np.linalg.eigvalsh((C + C.T) / 2)[0] > -1e-7, "covariance lost positive semi-definiteness", **wit)
    rec.sample(wit)


def track(rng, cls=SyncedOrientationBodyVelocity):
    n = int(rng.integers(3, 40))
    dts = 10 ** rng.uniform(-1.5, 1.0, n)
    ts = np.round(D.EPOCH0 + rng.uniform(0, 1e5) + np.cumsum(dts), 3)
    ts = np.unique(ts)
    return [sample(rng, float(t), cls) for t in ts]


def queries(rng, ts, outside):
    q = list(rng.uniform(ts[0], ts[-1], int(rng.integers(2, 25))))
    q += list(rng.choice(ts, 3)) + [ts[0]] * int(rng.integers(0, 2)) + [ts[-1]] * int(rng.integers(0, 2))
    q += [rng.uniform(ts[0], ts[1]), rng.uniform(ts[-2], ts[-1])]
    if outside:
        q += list(ts[0] - rng.uniform(0.01, 50, int(rng.integers(0, 6))))
        q += list(ts[-1] + rng.uniform(0.01, 50, int(rng.integers(0, 6))))
    return np.sort(np.array([float(x) for x in q]))


def expect(tr, t):
    ts = np.array([s.epoch_timestamp for s in tr])
    k = int(np.clip(np.searchsorted(ts, t), 1, len(ts) - 1))
    a, b = tr[k - 1], tr[k]
    return a, b, (t - a.epoch_timestamp) / (b.epoch_timestamp - a.epoch_timestamp)


def camera(rec, rng):
    for _ in range(10):
        tr = track(rng, Camera)
        ts = [s.epoch_timestamp for s in tr]
        for t in queries(rng, ts, False):
            t = float(t)
            a, b, x = expect(tr, t)
            rec.case()
            rec.seen("cam", t, a.yaw, b.yaw)
            wit = dict(t=t, ts=ts[:50], bracket=[a.epoch_timestamp, b.epoch_timestamp])
            with rec.guard("camera-linear", "interpolate camera", **wit):
                c = interpolate_camera(t, tr, "f.png")
                for k in ("northings", "eastings", "depth", "altitude", "roll", "pitch", "x_velocity", "y_velocity",
                          "z_velocity", "latitude", "longitude"):
                    w = getattr(a, k) * (1 - x) + getattr(b, k) * x
                    rec.check("camera-linear", abs(getattr(c, k) - w) < 1e-5,
                              "camera %s = %r at %r, bracketing samples give %r" % (k, getattr(c, k), t, w), **wit)
                ok, want = arc_ok(c.yaw, a.yaw, b.yaw, x)
                rec.check("heading-arc", ok, "camera heading %r, shortest arc gives %r (between %r and %r)"
                          % (c.yaw, want, a.yaw, b.yaw), **wit)
                rec.check("camera-linear", c.filename == "f.png" and c.epoch_timestamp == t, "image identity changed", **wit)


STD = ("northings_std", "eastings_std", "depth_std", "roll_std", "pitch_std", "yaw_std", "x_velocity_std",
       "y_velocity_std", "z_velocity_std", "vroll_std", "vpitch_std", "vyaw_std")


def slist(rec, rng):
    for _ in range(10):
        tr = track(rng)
        with_cov = rng.random() < 0.5
        with_std = rng.random() < 0.7
        for s in tr:
            if with_cov:
                A = rng.normal(size=(12, 12))
                s.covariance = A @ A.T
            if with_std:
                for k in STD:
                    setattr(s, k, float(rng.uniform(0, 2)))
        # smooth-ish heading so the arc is meaningful but wraps
        y = rng.uniform(0, 360)
        for s in tr:
            y += rng.uniform(-60, 60)
            s.yaw = float(y % 360)
        ts = np.array([s.epoch_timestamp for s in tr])
        q = queries(rng, ts, True)
        cams = []
        for i, t in enumerate(q):
            c = Camera()
            c.epoch_timestamp, c.filename = float(t), "%05d.png" % i
            cams.append(c)
        off, org = rng.uniform(-2, 2, 3).tolist(), rng.uniform(-1, 1, 3).tolist()
        lat0, lon0 = float(rng.uniform(-70, 70)), float(rng.uniform(-179, 179))
        want = [(c.filename, c.epoch_timestamp) for c in cams if ts[0] <= c.epoch_timestamp <= ts[-1]]
        wit = dict(ts=ts.tolist()[:60], q=q.tolist()[:60], off=off, org=org)
        rec.case()
        rec.seen("list", ts[0], q.tolist())
        rec.event("sensors_outside_track", len(cams) - len(want))
        with rec.guard("sensor-list-set", "interpolate a sensor list", **wit):
            with quiet():
                interpolate_sensor_list(cams, "cam", off, org, [lat0, lon0], tr)
            got = [(c.filename, c.epoch_timestamp) for c in cams]
            if not rec.check("sensor-list-set", got == want,
                             "sensor list keeps %d of %d, %d lie within the track" % (len(got), len(q), len(want)), got=got, **wit):
                continue
            for c in cams:
                a, b, x = expect(tr, c.epoch_timestamp)
                lin = lambda k: getattr(a, k) * (1 - x) + getattr(b, k) * x
                ok, yaw = arc_ok(c.yaw, a.yaw, b.yaw, x)
                rec.check("heading-arc", ok, "sensor heading %r, shortest arc %r" % (c.yaw, yaw), t=c.epoch_timestamp, **wit)
                arm = D.rot(lin("roll"), lin("pitch"), yaw) @ (np.array(off) - np.array(org))
                exp = {"northings": lin("northings") + arm[0], "eastings": lin("eastings") + arm[1],
                       "depth": lin("depth") + arm[2], "altitude": lin("altitude") - arm[2],
                       "roll": lin("roll"), "pitch": lin("pitch"), "x_velocity": lin("x_velocity"),
                       "y_velocity": lin("y_velocity"), "z_velocity": lin("z_velocity")}
                if with_std:
                    exp.update({k: lin(k) for k in STD})
                for k, w in exp.items():
                    g = getattr(c, k)
                    rec.check("sensor-list-pose", g is not None and abs(g - w) < 1e-5,
                              "%s of the sensor at %r is %r, expected %r" % (k, c.epoch_timestamp, g, w),
                              t=c.epoch_timestamp, **wit)
                if with_cov:
                    W = (1 - x) * a.covariance + x * b.covariance
                    rec.check("covariance", c.covariance is not None and np.allclose(c.covariance, W, atol=1e-5),
                              "sensor covariance is not that of its bracketing samples", t=c.epoch_timestamp, **wit)
                e, n = exp["eastings"], exp["northings"]
                g = Geodesic.WGS84.Direct(lat0, lon0, math.degrees(math.atan2(e, n)), math.hypot(e, n))
                rec.check("sensor-list-pose", abs(c.latitude - g["lat2"]) < 1e-8 and
                          abs(D.wrap180(c.longitude - g["lon2"])) < 1e-7, "latitude/longitude of the sensor",
                          t=c.epoch_timestamp, **wit)
    rec.sample({"track": len(tr), "kept": len(want), "of": len(q)})
