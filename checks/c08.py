"""C08 particle filter."""
import math

import numpy as np

from auv_nav.localisation import pf as PF
from auv_nav.sensors import SyncedOrientationBodyVelocity, Usbl
from lib import dive as D
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C08"
RULE = ("random dead-reckoned tracks with USBL fixes (before, inside and after the track, far outliers, coincident stamps) through "
        "the real particle filter, particle sets with random weights through propagation, weighting and resampling, and whole "
        "dives through process(); non-trivial: each run with at least one update, each resampled population")
REQUIRED = {"weights": 200, "likelihood": 100, "resample": 100, "noise": 20, "track-times": 20, "noise-free": 8, "attitude": 20,
            "altitude": 20, "depth": 20, "usbl-pull": 4, "csv": 6, "conserved": 20, "dive pf:vehicle": 50}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["statistical monitors use 6-sigma bounds of their own sampling error"]


def cases(rng, tier):
    n = 8 if tier == "quick" else 60
    return [{"kind": k, "i": i} for i in range(n) for k in ("set", "run", "noisefree", "pull", "process", "prop", "dive")]


def run_case(case, rec):
    rng = case_rng(case)
    if case["kind"] == "dive":  # the particle filter tables of whole dives
        from checks import c04

        rec.borrow(c04.run_case, dict(case, kind="pf"), ("pf:vehicle", "pf:set", "pf:pose"), "dive ")
        return
    {"set": pset, "run": runs, "noisefree": noisefree, "pull": pull, "process": proc, "prop": prop}[case["kind"]](rec, rng)


def std(xy=0.0, z=0.0, sp=0.0, ori=0.0, fz=0.0, fs=0.0, fo=0.0):
    return {"position_xy": {"factor": 0.0, "offset": xy, "model": "linear"},
            "position_z": {"factor": fz, "offset": z, "model": "linear"},
            "speed": {"factor": fs, "offset": sp, "model": "linear"},
            "orientation": {"factor": fo, "offset": ori, "model": "linear"}}


def usbl(t, n, e, d, s=(1.0, 1.0, 1.0)):
    u = Usbl(0.1, 0.0)
    u.epoch_timestamp, u.northings, u.eastings, u.depth = float(t), float(n), float(e), float(d)
    u.northings_std, u.eastings_std, u.depth_std = s
    return u


def dr_track(rng, n=80, dt=0.5, vbias=(0, 0, 0), noise_t=True):
    """DR list (as measured) and the true horizontal track."""
    t0 = D.EPOCH0 + float(rng.integers(0, 10**6))
    ts = t0 + dt * np.arange(n) + (np.round(rng.uniform(0, 0.3 * dt, n), 3) if noise_t else 0)
    psi0, rate = float(rng.uniform(0, 360)), float(rng.uniform(-5, 5))
    out, truth = [], []
    p = np.array([float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50))])
    q = p.copy()
    last = None
    for t in ts:
        s = SyncedOrientationBodyVelocity()
        s.epoch_timestamp = float(t)
        s.roll, s.pitch = 5 * math.sin(0.2 * (t - t0)), 4 * math.cos(0.1 * (t - t0))
        s.yaw = (psi0 + rate * (t - t0)) % 360
        v = np.array([0.8 + 0.1 * math.sin(0.3 * (t - t0)), 0.1 * math.sin(0.11 * (t - t0)), 0.02])
        R = D.rot(s.roll, s.pitch, s.yaw)
        if last is not None:
            q = q + (R @ v)[:2] * (t - last)
            p = p + (R @ (v + vbias))[:2] * (t - last)
        last = t
        s.x_velocity, s.y_velocity, s.z_velocity = [float(x) for x in v + np.array(vbias)]
        s.northings, s.eastings = float(p[0]), float(p[1])
        s.depth = 60 + 0.05 * (t - t0)
        s.altitude = 5 + math.sin(0.3 * (t - t0))
        out.append(s)
        truth.append(q.copy())
    return out, ts, np.array(truth)


FILTERS = []


class Watched(PF.ParticleFilter):
    """The real filter, remembered so that its final population can be looked at."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        FILTERS.append(self)


def runf(us, dr, n, s, kd=1.0, ki=1.0, ku=1.0):
    real, PF.ParticleFilter = PF.ParticleFilter, Watched
    del FILTERS[:]
    try:
        with quiet():
            return PF.run_particle_filter(us, dr, n, s, kd, ki, ku)
    finally:
        PF.ParticleFilter = real


def pset(rec, rng):
    for _ in range(15):
        N = int(rng.integers(2, 60))
        ku = float(rng.choice([0.5, 1.0, 2.0]))
        om = PF.UsblObservationModel(ku)
        mm = PF.DeadReckoningMovementModel(std(), 1.0, 1.0)
        pf = PF.ParticleFilter(N, mm, om, expected_iterations=100)
        prior = PF.Particle()
        prior.time = 0.0
        pf.set_prior(prior)
        xyz = rng.normal(0, 5, (N, 3))
        for i, p in enumerate(pf.particles):
            p.state[0, 0], p.state[1, 0], p.state[2, 0] = xyz[i]
        rec.check("weights", len(pf.particles) == N and abs(sum(p.weight for p in pf.particles) - 1) < 1e-9
                  and len({id(p) for p in pf.particles}) == N, "prior weights / distinct particles", n=N)
        far = rng.random() < 0.25
        w = np.full(N, 1.0 / N)
        for _k in range(int(rng.integers(1, 4))):
            c = rng.normal(0, 4, 3) + (1e4 if far else 0)
            s = [float(x) for x in rng.uniform(0.5, 3, 3)]
            wit = dict(N=N, far=far, factor=ku)
            order = {tuple(np.round([p.state[j, 0] for j in range(3)], 12)): i for i, p in enumerate(pf.particles)}
            before = np.array([p.weight for p in pf.particles])
            pos = np.array([[p.state[j, 0] for j in range(3)] for p in pf.particles])
            with rec.guard("weights", "weighting by a USBL fix", **wit):
                pf.set_observation(usbl(0, *c, s=s))
                pf.measure()
            after = {tuple(np.round([p.state[j, 0] for j in range(3)], 12)): p.weight for p in pf.particles}
            aw = np.array([after[k] for k in order]) if set(after) == set(order) else None
            if not rec.check("weights", aw is not None and np.isfinite(aw).all() and (aw >= 0).all() and abs(aw.sum() - 1) < 1e-9,
                             "weights after an observation: sum %s" % (None if aw is None else aw.sum()), **wit):
                return
            sig = ku * math.sqrt(sum(x * x for x in s))
            ll = -((pos - c) ** 2).sum(axis=1) / (2 * sig ** 2)
            if not far:
                e = before * np.exp(ll - ll.max())
                e /= e.sum()
                ok = np.allclose(aw, e, rtol=1e-6, atol=1e-12)
                rec.check("likelihood", ok, "posterior weights are not prior x Gaussian likelihood (largest difference %.3g)" % np.abs(aw - e).max(), **wit)
        w = np.array([p.weight for p in pf.particles])
        rec.check("weights", abs(pf.get_neff() - 1 / (w ** 2).sum()) < 1e-6 * N, "effective particle number", N=N)
        rec.check("weights", bool(pf.should_resample()) == bool(1 / (w ** 2).sum() < N / 2), "resampling criterion", N=N)
        src = {tuple(np.round([p.state[j, 0] for j in range(3)], 12)): p.weight for p in pf.particles}
        with rec.guard("resample", "resampling", N=N):
            pf.resample()
        cnt = {}
        for p in pf.particles:
            k = tuple(np.round([p.state[j, 0] for j in range(3)], 12))
            cnt[k] = cnt.get(k, 0) + 1
        rec.check("resample", len(pf.particles) == N and set(cnt) <= set(src), "resampling changed the number or states of particles", N=N)
        off = max(abs(cnt.get(k, 0) - N * w_) for k, w_ in src.items())
        rec.check("resample", off < 1 + 1e-6, "a particle of weight w was drawn %.2f times away from N*w" % off, N=N)
        rec.check("resample", len({id(p) for p in pf.particles}) == N, "resampled particles share state", N=N)
        mv = SyncedOrientationBodyVelocity()
        mv.depth, mv.roll, mv.pitch, mv.yaw, mv.x_velocity, mv.y_velocity, mv.z_velocity, mv.altitude = 5.0, 0, 0, 0, 1.0, 0, 0, 3.0
        n0 = [len(p.trajectory) for p in pf.particles]
        with rec.guard("resample", "propagating a resampled population", N=N), quiet():
            pf.set_movement(mv)
            pf.propagate(0.1)
        rec.check("resample", [len(p.trajectory) for p in pf.particles] == [n + 1 for n in n0],
                  "propagating a resampled population once does not add one entry to each particle's own track", N=N)
        rec.case()
        rec.seen("set", N, float(xyz[0, 0]))


def prop(rec, rng):
    """Distribution of propagated particles."""
    N = 1500
    s = std(z=0.2, sp=0.05, ori=0.8, fz=0.001, fs=0.01)
    kd, ki = float(rng.choice([1.0, 2.0])), float(rng.choice([1.0, 2.0]))
    mm = PF.DeadReckoningMovementModel(s, kd, ki)
    pf = PF.ParticleFilter(N, mm, PF.UsblObservationModel(1.0), expected_iterations=10**6)
    prior = PF.Particle()
    prior.time = 10.0
    prior.state[0, 0], prior.state[1, 0] = 7.0, -3.0
    pf.set_prior(prior)
    m = SyncedOrientationBodyVelocity()
    m.depth, m.roll, m.pitch, m.yaw = 50.0, 3.0, -2.0, float(rng.uniform(5, 350))
    m.x_velocity, m.y_velocity, m.z_velocity, m.altitude = 1.0, 0.2, 0.1, 4.5
    dt = float(rng.uniform(0.1, 0.5))
    with rec.guard("noise", "propagation"):
        with quiet():
            pf.set_movement(m)
            pf.propagate(dt)
        X = np.array([p.state.ravel() for p in pf.particles])
    rec.check("noise", all(abs(p.time - (10.0 + dt)) < 1e-9 for p in pf.particles), "particle time")
    exp = {"roll": (3, math.radians(3.0), math.radians(0.8) * ki), "pitch": (4, math.radians(-2.0), math.radians(0.8) * ki),
           "yaw": (5, math.radians(m.yaw), math.radians(0.8) * ki), "vx": (6, 1.0, (0.05 + 0.01) * kd), "vy": (7, 0.2, (0.05 + 0.002) * kd),
           "vz": (8, 0.1, (0.05 + 0.001) * kd)}
    for name, (k, mu, sg) in exp.items():
        rec.check("noise", abs(X[:, k].mean() - mu) < 6 * sg / math.sqrt(N), "mean of propagated %s is %.5f, measured %.5f" % (name, X[:, k].mean(), mu))
        rec.check("noise", abs(X[:, k].std() / sg - 1) < 6 / math.sqrt(2 * N), "spread of propagated %s is %.5f, configured %.5f" % (name, X[:, k].std(), sg),
                  mech="noise-" + name)
    z = X[:, 2] - dt * np.array([(D.rot(*np.degrees(x[3:6])) @ x[6:9])[2] for x in X])
    rec.check("noise", abs(z.mean() - 50) < 6 * 0.25 / math.sqrt(N) and abs(z.std() / 0.25 - 1) < 6 / math.sqrt(2 * N),
              "propagated depth %.3f +- %.3f, configured 50 +- 0.25" % (z.mean(), z.std()))
    ne = np.array([[7.0, -3.0] + dt * (D.rot(*np.degrees(x[3:6])) @ x[6:9])[:2] for x in X])
    rec.check("noise", np.abs(X[:, :2] - ne).max() < 1e-9, "particle displacement is not its velocity rotated by its attitude")
    rec.check("noise", np.abs(X[:, 9] - 4.5).max() < 1e-12, "altitude")
    rec.case()
    rec.seen("prop", m.yaw, dt)


def runs(rec, rng):
    for _ in range(3):
        dr, ts, truth = dr_track(rng, n=int(rng.integers(10, 60)))
        m = int(rng.integers(1, 12))
        lo, hi = float(rng.choice([0, 5])), float(rng.choice([0, 5]))
        tu = np.round(np.sort(rng.uniform(ts[0] - lo, ts[-1] + hi, m)), 3)
        tu = tu[np.r_[True, np.diff(tu) > 0.6]]
        if rng.random() < 0.3 and len(tu) > 2:
            tu[1] = ts[np.searchsorted(ts, tu[1]) % len(ts)]
            tu.sort()
        us = [usbl(t, np.interp(t, ts, truth[:, 0]) + rng.normal(0, 1) + (800 if rng.random() < 0.1 else 0),
                   np.interp(t, ts, truth[:, 1]) + rng.normal(0, 1), 60) for t in tu]
        N = int(rng.integers(3, 40))
        so = float(rng.choice([0.2, 1.0]))
        ki = float(rng.choice([1, 2]))
        s = std(z=0.1, sp=0.05, ori=so)
        wit = dict(n=len(dr), usbl=len(us), N=N, before=int((tu < ts[0]).sum()), after=int((tu > ts[-1]).sum()))
        with rec.guard("track-times", "run_particle_filter", **wit):
            res = runf(us, dr, N, s, 1.0, ki, 1.0)
        if not res:
            return
        tr, used, hist = res[0], res[1], res[2]
        rec.case()
        rec.seen("run", ts[0], N, len(us))
        t = np.array([x.epoch_timestamp for x in tr])
        rec.check("track-times", (np.diff(t) > -1e-6).all(), "particle filter track runs backwards in time", **wit)
        near = lambda a, b: np.abs(np.asarray(a)[:, None] - np.asarray(b)[None, :]).min(axis=1) < 1e-4
        rec.check("track-times", near(ts, t).all(), "%d dead reckoning instants are missing from the track" % (~near(ts, t)).sum(), **wit)
        rec.check("track-times", near(t, np.r_[ts, tu]).all(), "track has instants that were never measured", **wit)
        ins = tu[(tu >= ts[0]) & (tu <= ts[-1])]
        rec.check("track-times", len(t) == len(ts) + len(ins), "track has %d entries for %d dead reckoning samples and %d fixes"
                  % (len(t), len(ts), len(ins)), **wit)
        if len(ins):
            rec.check("track-times", near(ins, t).all(), "%d USBL fixes were not used" % (~near(ins, t)).sum(), **wit)
        rec.check("conserved", all(len(h) == N for h in hist), "number of particles changed: %s" % sorted({len(h) for h in hist}), **wit)
        rec.check("conserved", all(any(u is v or u.epoch_timestamp == v.epoch_timestamp for v in us) for u in used) and
                  len({u.epoch_timestamp for u in used}) == len(used), "resampling fixes are not distinct input fixes", **wit)
        arr = lambda a: np.array([getattr(x, a) for x in tr])
        if FILTERS:  # the track is that of a particle of the largest weight
            pop = FILTERS[-1].particles
            top = max(p.weight for p in pop)
            best = [p for p in pop if p.weight >= top * (1 - 1e-9)]
            rec.check("best", any(abs(p.northings - tr[-1].northings) + abs(p.eastings - tr[-1].eastings) < 1e-9 for p in best),
                      "the track is not that of the particle with the largest weight", **wit)
        k = np.searchsorted(ts, t + 1e-5) - 1
        k = np.clip(k, 0, len(ts) - 1)
        opts = (k, np.maximum(k - 1, 0))  # a fix on the very instant of a sample may be handled on either side of it
        val = lambda a, j: np.array([getattr(dr[q], a) for q in j])
        diff = lambda a: np.minimum(*[np.abs(arr(a) - val(a, j)) for j in opts])
        for a in ("roll", "pitch", "yaw"):
            e = np.minimum(*[np.abs(D.wrap180(arr(a) - val(a, j))) for j in opts])
            rec.check("attitude", e.max() < 7 * so * ki + 1e-9, "%s of the track is %.1f deg off the measured attitude (sigma %.1f)" % (a, e.max(), so * ki), **wit)
        rec.check("altitude", diff("altitude").max() < 1e-9, "altitude is not the measured one", **wit)
        rec.check("depth", diff("depth").max() < 0.7 + 0.5 * 1.2, "depth is %.2f m off" % diff("depth").max(), **wit)
        rec.check("attitude", np.isfinite(np.array([arr(a) for a in ("northings", "eastings", "depth", "roll", "pitch", "yaw")], float)).all(),
                  "non-finite track", **wit)


def noisefree(rec, rng):
    dr, ts, truth = dr_track(rng, n=60, dt=0.25)
    us = [usbl(t, np.interp(t, ts, truth[:, 0]), np.interp(t, ts, truth[:, 1]), 60) for t in np.arange(ts[0] + 1.03, ts[-1], 2.7)]
    with rec.guard("noise-free", "run_particle_filter without noise"):
        tr = runf(us, dr, 8, std())[0]
    t = np.array([x.epoch_timestamp for x in tr])
    n = np.array([x.northings for x in tr])
    e = np.array([x.eastings for x in tr])
    err = np.hypot(n - np.interp(t, ts, truth[:, 0]), e - np.interp(t, ts, truth[:, 1]))
    rec.check("noise-free", err.max() < 0.2, "without noise the track leaves the dead-reckoned one by %.3f m" % err.max())
    rec.check("noise-free", err[0] < 1e-9, "the track does not start at the first dead-reckoned position")
    rec.case()
    rec.seen("noisefree", ts[0])


def pull(rec, rng):
    b = float(rng.choice([-0.15, 0.15]))
    dr, ts, truth = dr_track(rng, n=160, dt=0.5, vbias=(b, 0.1, 0))
    us = [usbl(t, np.interp(t, ts, truth[:, 0]) + rng.normal(0, 0.3), np.interp(t, ts, truth[:, 1]) + rng.normal(0, 0.3),
               60 + 0.05 * (t - ts[0]), (0.5, 0.5, 0.5)) for t in np.arange(ts[0] + 1.1, ts[-1], 2.0)]
    with rec.guard("usbl-pull", "run_particle_filter on a drifting track"):
        tr = runf(us, dr, 150, std(z=0.05, sp=0.3, ori=0.5), 1.5, 1.0, 1.0)[0]
    t = np.array([x.epoch_timestamp for x in tr])
    n, e = np.array([x.northings for x in tr]), np.array([x.eastings for x in tr])
    g = np.hypot(n - np.interp(t, ts, truth[:, 0]), e - np.interp(t, ts, truth[:, 1]))
    dd = np.hypot(np.array([x.northings for x in dr]) - truth[:, 0], np.array([x.eastings for x in dr]) - truth[:, 1])
    h = len(g) // 2
    rec.check("usbl-pull", g[h:].mean() < 0.4 * dd[len(dd) // 2:].mean(),
              "the filter is %.2f m off the USBL track, dead reckoning %.2f m" % (g[h:].mean(), dd[len(dd) // 2:].mean()))
    rec.case()
    rec.seen("pull", ts[0])


def proc(rec, rng):
    nav = Nav(rng, dur=15.0, cams=1, usbl_dt=2.0, turning=True)
    s = std(xy=1.0, z=0.0, sp=0.0, ori=0.0)
    for k in s:
        s[k]["model"] = "sensor"
    with scratch() as root, rec.guard("csv", "process() with the particle filter"):
        d = D.Dive(root)
        d.write_config(nav.mission(), nav.vehicle())
        d.write_localisation(D.localisation_dict(pf=True, particles=6, std=s))
        d.write_nav(nav.records())
        out = d.process()
        c = D.read_csv(out / "csv/particle_filter/auv_pf_centre.csv")
        dr = D.read_csv(out / "csv/dead_reckoning/auv_dr_centre.csv")
        t, td = D.col(c, "timestamp"), D.col(dr, "timestamp")
        same = [(i, int(np.abs(td - x).argmin())) for i, x in enumerate(t) if np.abs(td - x).min() < 1e-4]
        at = nav.usbl_t
        same = [(i, j) for i, j in same if not len(at) or np.abs(at - td[j]).min() > 1e-3]
        i, j = np.array(same).T
        for k, tol in (("northing [m]", 0.8), ("easting [m]", 0.8), ("depth [m]", 0.35), ("altitude [m]", 1e-3), ("roll [deg]", 1e-6),
                       ("pitch [deg]", 1e-6), ("heading [deg]", 1e-6)):
            e = np.abs(D.wrap180(D.col(c, k)[i] - D.col(dr, k)[j]))
            rec.check("csv", e.max() < tol, "noise-free particle filter %s departs from dead reckoning by %.3g" % (k, e.max()))
        rec.check("csv", np.abs(td[:, None] - t[None, :]).min(axis=1).max() < 1e-3, "dead reckoning instants missing from the particle filter track")
    rec.case()
    rec.seen("process", nav.t0)
