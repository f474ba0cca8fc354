"""C06 what the EKF delivers: an estimate within its own uncertainty of the truth, immune to gross outliers, anchored by USBL."""
import math

import numpy as np
from geographiclib.geodesic import Geodesic

from lib import dive as D
from lib.engine import case_rng, scratch

PID = "C06"
RULE = ("random simulated dives with a known true trajectory (turning through north, rolling, descending) and sensor noise of "
        "the declared standard deviations, through the real process() with EKF with and without smoother; the same dives with "
        "single gross outliers in one USBL, depth, velocity or attitude record, and without USBL; non-trivial: each dive")
REQUIRED = {"truth": 500, "nees": 8, "outlier:usbl": 4, "outlier:depth": 4, "outlier:velocity": 4, "outlier:orientation": 4,
            "usbl-used": 5, "no-usbl": 4, "nees-pool": 4}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["the truth monitor allows 6.5 reported standard deviations plus 5 cm; the mean squared normalised error must stay below 16 per axis in a dive and below 3.5 pooled over 12 dives"]


def cases(rng, tier):
    n = 4 if tier == "quick" else 24
    out = [{"kind": k, "i": i} for i in range(n * 3) for k in ("truth",)]
    out += [{"kind": "out-" + k, "i": i} for i in range(n + 2) for k in ("usbl", "depth", "velocity", "orientation")]
    out += [{"kind": k, "i": i} for i in range(n + 2) for k in ("used", "dr")]
    out = [{"kind": "pool", "i": i} for i in range(n)] + out
    return out


class Sim:
    def __init__(self, rng, dur=40.0, usbl=True, usbl_std=1.0, usbl_dt=1.5, east_std=None, arms=True):
        T = D.EPOCH0 + float(rng.integers(0, 10**6))
        self.T, self.dur = T, dur
        h = 0.01
        tt = np.arange(0, dur + 5, h)
        psi = float(rng.choice([340, 20, 180, 90])) + float(rng.uniform(-4, 4)) * tt + 10 * np.sin(0.11 * tt)
        roll = 6 * np.sin(float(rng.uniform(.05, .2)) * tt + 1) + float(rng.uniform(-4, 4))
        pitch = 5 * np.sin(float(rng.uniform(.05, .2)) * tt) + float(rng.uniform(-4, 4))
        u = 0.9 + 0.2 * np.sin(0.1 * tt)
        v = 0.15 * np.sin(0.13 * tt + 2)
        w = 0.08 * np.sin(0.09 * tt) + 0.02
        vn = np.array([D.rot(a, b, c) @ np.array(q) for a, b, c, q in zip(roll, pitch, psi, zip(u, v, w))])
        pos = np.vstack([[0, 0, 60], [0, 0, 60] + np.cumsum((vn[1:] + vn[:-1]) / 2 * h, axis=0)])
        self.tt, self.pos, self.psi, self.roll, self.pitch, self.vb = tt, pos, psi, roll, pitch, np.c_[u, v, w]
        self.lat0, self.lon0 = float(rng.uniform(-60, 60)), float(rng.uniform(-170, 170))
        self.s = dict(o=0.3, v=0.02, d=0.05, u=usbl_std, e=east_std or usbl_std)
        # mounting of the USBL transponder, the depth sensor and the reference point; the DVL is the centre of rotation
        self.usbl_off, self.depth_off, self.origin = ([[round(float(x), 2) for x in rng.uniform(-s, s, 3)] for s in (6, 3, 2)] if arms
                                                      else [[0.0] * 3] * 3)
        moved = lambda off: pos + np.array([D.rot(a, b, c) @ np.array(off) for a, b, c in zip(roll, pitch, psi)])
        pu, pd = moved(self.usbl_off), moved(self.depth_off)
        self.centre = moved(self.origin)
        rnd = lambda dt, a=0.0, b=0.0: np.round(np.arange(a, dur - b, dt) + rng.uniform(0, 0.3 * dt, len(np.arange(a, dur - b, dt))), 3)
        self.recs = [D.r_origin(self.lat0, self.lon0)]
        at = lambda arr, t: np.interp(t, tt, arr)
        N = lambda s: float(rng.normal(0, s))
        for t in rnd(0.3):
            s = self.s["o"]
            self.recs.append(D.r_ori(T + t, [at(roll, t) + N(s), at(pitch, t) + N(s), (at(psi, t) + N(s)) % 360], [s] * 3))
        for t in rnd(0.5, 0.7, 0.5):
            s = self.s["v"]
            self.recs.append(D.r_vel(T + t, [at(self.vb[:, k], t) + N(s) for k in range(3)], [s] * 3))
        for t in rnd(0.4):
            self.recs.append(D.r_depth(T + t, at(pd[:, 2], t) + N(self.s["d"]), self.s["d"]))
            self.recs.append(D.r_alt(T + t, 5.0))
        if usbl:
            for t in rnd(usbl_dt, 0.2):
                n, e = at(pu[:, 0], t) + N(self.s["u"]), at(pu[:, 1], t) + N(self.s["e"])
                self.recs.append(self.usbl(T + t, n, e, at(pu[:, 2], t)))
        for k, t in enumerate(rnd(1.1, 2, 2)):
            self.recs.append(D.r_img(T + t, "image/CamA/%05d.png" % k))

    def usbl(self, t, n, e, d):
        g = Geodesic.WGS84.Direct(self.lat0, self.lon0, math.degrees(math.atan2(e, n)), math.hypot(n, e))
        return D.r_usbl(t, g["lat2"], g["lon2"], float(n), float(e), float(d), std=self.s["u"], east_std=self.s["e"])

    def truth(self, t):
        return np.array([np.interp(t - self.T, self.tt, self.centre[:, k]) for k in range(3)])


def go(sim, recs, smoother, gate, init=None, dr=False):
    sensors = ("velocity", "orientation", "depth", "altitude", "usbl")
    with scratch() as root:
        d = D.Dive(root)
        d.write_config(D.mission_dict(sim.lat0, sim.lon0, cams=[{"name": "CamA", "path": "image"}], sensors=sensors),
                       D.vehicle_dict(origin=sim.origin, usbl=sim.usbl_off, depth=sim.depth_off, cams={"CamA": (0, 0, 0)}))
        d.write_localisation(D.localisation_dict(ekf=True, smoother=smoother, mahal=gate, init_diag=init or
                                                 [25, 25, 0.1] + [1e-3] * 3 + [1e-2] * 6))
        d.write_nav(recs)
        out = d.process()
        rows = D.read_csv(out / "csv/ekf/auv_ekf_centre.csv")
        r = {"t": D.col(rows, "timestamp"),
             "p": np.c_[D.col(rows, "northing [m]"), D.col(rows, "easting [m]"), D.col(rows, "depth [m]")],
             "s": np.c_[D.col(rows, "vehicle_std_x [m]"), D.col(rows, "vehicle_std_y [m]"), D.col(rows, "vehicle_std_z [m]")],
             "yaw": D.col(rows, "heading [deg]"), "ys": D.col(rows, "vehicle_std_yaw [deg]")}
        q = D.read_csv(out / "csv/dead_reckoning/auv_dr_centre.csv")
        r["dr_t"] = D.col(q, "timestamp")
        r["dr"] = np.c_[D.col(q, "northing [m]"), D.col(q, "easting [m]")]
        return r


def run_case(case, rec):
    rng = case_rng(case)
    kind = case["kind"]
    smoother = bool(rng.random() < 0.6)
    wit = dict(smoother=smoother)
    rec.case()
    with rec.guard("truth", "process() with the EKF", **wit):
        if kind == "truth":
            sim = Sim(rng, usbl_std=float(rng.choice([0.1, 0.3, 1.0, 8.0])), east_std=float(rng.choice([0.1, 0.3, 3.0, 8.0])))
            truth(rec, sim, go(sim, sim.recs, smoother, 6.0), wit)
        elif kind == "used":
            sim = Sim(rng, usbl_std=0.3)
            r = go(sim, sim.recs, smoother, 6.0)
            e = np.linalg.norm((r["p"] - np.array([sim.truth(t) for t in r["t"]]))[:, :2], axis=1)
            half = len(e) // 3
            rec.check("usbl-used", e[half:].mean() < 0.6 and r["s"][half:, :2].max() < 0.6,
                      "mean horizontal error %.2f m, largest reported std %.2f m with 0.3 m USBL fixes every 1.5 s"
                      % (e[half:].mean(), r["s"][half:, :2].max()), **wit)
            rec.seen("used", sim.T)
        elif kind == "dr":
            sim = Sim(rng, usbl=False)
            r = go(sim, sim.recs, smoother, 8.0, init=[1e-9] * 3 + [1e-3] * 3 + [1e-2] * 6)
            p = r["p"][:, :2]
            dr = np.c_[np.interp(r["t"], r["dr_t"], r["dr"][:, 0]), np.interp(r["t"], r["dr_t"], r["dr"][:, 1])]
            e = np.linalg.norm(p - p[0] - (dr - dr[0]), axis=1)
            path = np.r_[0, np.cumsum(np.linalg.norm(np.diff(dr, axis=0), axis=1))]
            rec.check("no-usbl", (e < 0.15 + 0.02 * path).all(), "without USBL the EKF leaves the dead-reckoned track by %.2f m" % e.max(), **wit)
            tr = np.array([sim.truth(t)[:2] for t in r["t"]])
            e = np.linalg.norm(p - p[0] - (tr - tr[0]), axis=1)
            rec.check("no-usbl", (e < 0.3 + 0.03 * path).all(), "without USBL the EKF drifts %.2f m from the truth" % e.max(), **wit)
            s = r["s"][:, 0]
            if not smoother:
                rec.check("no-usbl", s[-1] > s[len(s) // 3] > s[0] * 0.999, "position uncertainty does not grow although there is no position fix", **wit)
            rec.seen("dr", sim.T)
        elif kind == "pool":
            pool(rec, rng, case, smoother, wit)
        else:
            outlier(rec, rng, kind[4:], smoother, wit)


def truth(rec, sim, r, wit):
    tr = np.array([sim.truth(t) for t in r["t"]])
    e = np.abs(r["p"] - tr)
    bad = (e > 6.5 * r["s"] + 0.05).any(axis=1)
    for k in range(len(e)):
        rec.monitors["truth"] += 1
    if bad.any():
        k = int(np.argmax(bad))
        rec.violate("truth", "EKF at %.3f is off the truth by %s m with reported std %s m" % (r["t"][k], e[k], r["s"][k]), **wit)
    # the errors of one dive are correlated: a single dive may be 4 sigma off in one axis, the pool of dives may not
    rec.check("nees", (((e / (r["s"] + 0.02)) ** 2).mean(axis=0) < 16).all(),
              "mean squared normalised error %s" % ((e / r["s"]) ** 2).mean(axis=0), **wit)
    ty = np.interp(r["t"] - sim.T, sim.tt, sim.psi)
    ey = np.abs(D.wrap180(r["yaw"] - ty))
    rec.check("truth", (ey < 6.5 * r["ys"] + 0.5).all(), "EKF heading is off the truth by up to %.1f deg" % ey.max(), **wit)
    rec.seen("truth", sim.T)
    rec.event("states_against_truth", len(e))
    rec.sample(dict(max_err=e.max(axis=0), mean_std=r["s"].mean(axis=0)))


def pool(rec, rng, case, smoother, wit):
    """Normalised errors pooled over independent dives."""
    n, acc = 12, []
    u, e_ = [(8.0, 8.0), (0.3, 6.0), (6.0, 0.3), (1.0, 1.0)][case["i"] % 4]
    for _ in range(n):
        sim = Sim(rng, usbl_std=u, east_std=e_, dur=25.0)
        r = go(sim, sim.recs, smoother, 6.0)
        tr = np.array([sim.truth(t) for t in r["t"]])
        acc.append((((r["p"] - tr) / (r["s"] + 0.02)) ** 2).mean(axis=0))
        rec.seen("pool", sim.T)
    m = np.mean(acc, axis=0)
    rec.check("nees-pool", (m < 3.5).all(), "mean squared normalised error over %d dives %s (USBL std %s, %s m)" % (n, m, u, e_), **wit)
    rec.sample({"pooled_nees": m.tolist()})


def outlier(rec, rng, what, smoother, wit):
    sim = Sim(rng, usbl_std=1.0)
    base = go(sim, sim.recs, smoother, 5.0)
    cat = {"usbl": "usbl", "depth": "depth", "velocity": "velocity", "orientation": "orientation"}[what]
    # choose a record well inside the dive
    idx = [i for i, r in enumerate(sim.recs) if r["category"] == cat and sim.T + 12 < r["epoch_timestamp"] < sim.T + sim.dur - 8]
    i = int(rng.choice(idx))
    import copy

    recs = copy.deepcopy(sim.recs)
    r = recs[i]
    sign = float(rng.choice([-1, 1]))
    if what == "usbl":
        r["data_target"][2]["northings"] += sign * 120
        r["data_target"][3]["eastings"] += 80
    elif what == "depth":
        r["data"][0]["depth"] += sign * 25
    elif what == "velocity":
        k = int(rng.integers(0, 3))
        key = "xyz"[k] + "_velocity"
        r["data"][k][key] += sign * 4
    else:
        r["data"][0]["heading"] = (r["data"][0]["heading"] + sign * 120) % 360
    moved = go(sim, recs, smoother, 5.0)
    if not rec.check("outlier:" + what, len(moved["t"]) == len(base["t"]) and np.array_equal(moved["t"], base["t"]),
                     "an outlier changed the instants of the track", **wit):
        return
    # dead reckoning (the start point) may shift slightly; the filter must not follow the outlier
    e = np.abs(moved["p"] - base["p"])[len(base["t"]) // 6:]
    s = base["s"][len(base["t"]) // 6:]
    a, b = (2.5, 0.3) if what == "usbl" else (1.0, 0.15)  # a USBL outlier also moves the start by the anchoring
    rec.check("outlier:" + what, (e < a * s + b).all(),
              "one gross %s outlier moved the track by %s m (reported std %s)" % (what, e.max(axis=0), s.max(axis=0)), **wit)
    ey = np.abs(D.wrap180(moved["yaw"] - base["yaw"])).max()
    rec.check("outlier:" + what, ey < 6, "one gross %s outlier turned the vehicle by %.1f deg" % (what, ey), **wit)
    truth(rec, sim, moved, wit)
    rec.seen(what, sim.T, i)
