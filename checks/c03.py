"""C03 dead-reckoned track of auv_nav process."""
import math
import time

import numpy as np
from geographiclib.geodesic import Geodesic

from lib import dive as D
from lib.engine import Inconclusive, case_rng, scratch
from lib.navsim import Nav

PID = "C03"
RULE = ("random synthetic dives (irregular sampling, headings crossing north, roll/pitch up to 20 deg, random lever arms, "
        "with and without USBL, processing windows, sensor gaps, corrupt velocity records) run through the real process(); "
        "non-trivial: a dive with at least 5 output rows, distinct by its random seed and options")
REQUIRED = {"timestamps": 20, "position": 20, "depth-altitude": 20, "attitude": 20, "geographic": 5, "window": 5,
            "uncertainty": 10, "lever-arm-turning": 3}
CASE_TIMEOUT = 60


def cases(rng, tier):
    n = 20 if tier == "quick" else 50
    out = []
    for i in range(n):
        for kind in ("plain", "turn", "straight", "nousbl", "window", "gap", "corrupt", "arm"):
            out.append({"kind": kind, "i": i})
    return out


def write(nav, d, extra=(), drop=None, **loc):
    recs = nav.records() + list(extra)
    if drop:
        recs = [r for r in recs if not drop(r)]
    d.write_config(nav.mission(), nav.vehicle())
    d.write_localisation(D.localisation_dict(**loc))
    d.write_nav(recs)


def stamp(t):
    return time.strftime("%Y%m%d%H%M%S", time.gmtime(t))


def run_case(case, rec):
    rng = case_rng(case)
    kind = case["kind"]
    kw = dict(usbl_dt=1.5, dur=float(rng.choice([25, 30, 60])), turning=kind not in ("straight",), usbl=kind != "nousbl",
              ori_dt=float(rng.choice([0.1, 0.5, 1.1])), vel_dt=float(rng.choice([0.25, 0.8, 1.7])))
    if kind == "arm":
        kw.update(dvl_offset=[round(float(x), 3) for x in rng.uniform(-1, 1, 3)], usbl=False, dur=30.0)
    nav = Nav(rng, **kw)
    extra, start, end = [], "", ""
    lo, hi = -math.inf, math.inf
    if kind == "corrupt":  # velocity whose own clock disagrees by a second or more must not be used
        for t in rng.uniform(nav.t0, nav.t1, 6):
            extra.append(D.r_vel(float(t), [50.0, -50.0, 9.0], t_dvl=float(t) + float(rng.choice([-1.5, 2, 100]))))
    if kind == "gap":  # silence in the velocity sensor: bridged linearly ...
        a = nav.t0 + 0.35 * (nav.t1 - nav.t0)
        b = a + 0.3 * (nav.t1 - nav.t0)
        which = rng.integers(0, 3)
        if which != 1:
            keep = (nav.vel_t < a) | (nav.vel_t > b)
            nav.vel_t, nav.velo, nav.vstd = nav.vel_t[keep], nav.velo[keep], nav.vstd[keep]
        if which != 0:  # ... or in the attitude sensor: the track is integrated across it
            keep = (nav.ori_t < a) | (nav.ori_t > b)
            nav.ori_t, nav.ori, nav.ostd = nav.ori_t[keep], nav.ori[keep], nav.ostd[keep]
    if kind == "window":
        span = nav.t1 - nav.t0
        if rng.random() < 0.8:
            start = stamp(nav.t0 + rng.uniform(0.1, 0.3) * span)
            lo = calendar(start)
        if rng.random() < 0.8 or not start:
            end = stamp(nav.t0 + rng.uniform(0.7, 0.9) * span)
            hi = calendar(end)
        if rng.random() < 0.7:  # samples exactly on the edges of the window
            for x in (lo, hi):
                if math.isfinite(x):
                    on_edge(nav, x, rng)
        crop(nav, lo, hi)
    with scratch() as root:
        d = D.Dive(root)
        full = Nav_records(nav, extra, kind, case)
        d.write_config(nav.mission(), nav.vehicle())
        d.write_localisation(D.localisation_dict())
        d.write_nav(full)
        wit = dict(options={k: v for k, v in kw.items()}, start=start, end=end)
        with rec.guard("position", "process() on a valid dive", **wit):
            out = d.process(start=start, end=end)
            check_outputs(rec, nav, out, kind, wit, start, end)


def calendar(s):
    import calendar as c

    return float(c.timegm(time.strptime(s, "%Y%m%d%H%M%S")))


def Nav_records(nav, extra, kind, case):
    recs = nav.records() + list(extra)
    if kind == "window":
        recs += nav.outside
    return recs


def on_edge(nav, x, rng):
    for t, val, std, f in (("ori_t", "ori", "ostd", nav.rpy), ("vel_t", "velo", "vstd", nav.vel)):
        tt = getattr(nav, t)
        if x in tt or not tt[0] < x < tt[-1]:
            continue
        k = int(np.searchsorted(tt, x))
        setattr(nav, t, np.insert(tt, k, x))
        setattr(nav, val, np.insert(getattr(nav, val), k, f(x), axis=0))
        setattr(nav, std, np.insert(getattr(nav, std), k, rng.uniform(0.01, 0.1, 3), axis=0))


def crop(nav, lo, hi):
    """Keep as reference only what lies in the window; what lies outside is still written."""
    allr = nav.records()
    for t, arrs in (("ori_t", ("ori", "ostd")), ("vel_t", ("velo", "vstd")), ("dep_t", ("dep", "dstd")),
                    ("alt_t", ("alt",)), ("usbl_t", ("usbl",)), ("cam_t", ())):
        tt = getattr(nav, t)
        m = (tt >= lo) & (tt <= hi)
        setattr(nav, t, tt[m])
        for a in arrs:
            setattr(nav, a, getattr(nav, a)[m])
    inside = {(r["category"], r["epoch_timestamp"]) for r in nav.records()}
    nav.outside = [r for r in allr if (r["category"], r["epoch_timestamp"]) not in inside]


def check_outputs(rec, nav, out, kind, wit, start, end):
    if out is None:
        rec.violate("position", "process() wrote no json_renav folder", **wit)
        return
    ref = nav.reference_dr()
    if len(ref["t"]) < 5:
        raise Inconclusive("too few attitude samples")
    tracks = {}
    for name in ("centre", "dvl"):
        p = out / "csv/dead_reckoning" / ("auv_dr_%s.csv" % name)
        if not rec.check("timestamps", p.exists(), "%s was not written" % p.name, **wit):
            return
        tracks[name] = D.read_csv(p)
    rec.case()
    rec.seen(kind, nav.t0, len(ref["t"]))
    rec.event("rows", len(tracks["centre"]))
    shift = {}
    for name, rows in tracks.items():
        t = D.col(rows, "timestamp")
        ok = len(t) == len(ref["t"]) and np.array_equal(t, ref["t"])
        if not rec.check("timestamps", ok,
                         "%s track has %d rows; %d attitude samples lie within the velocity span" % (name, len(t), len(ref["t"])),
                         track=name, got=t, want=ref["t"], **wit):
            return
        s = slice(None)
        n, e = D.col(rows, "northing [m]"), D.col(rows, "easting [m]")
        if kind == "arm":
            if name == "dvl":
                arm(rec, nav, ref, s, n, e, wit)
            continue
        R = ref[name + "_ne"][s]
        dn, de = n - R[:, 0], e - R[:, 1]
        shift[name] = (float(np.median(dn)), float(np.median(de)))
        worst = float(max(np.ptp(dn), np.ptp(de)))
        rec.check("position", worst < 1e-5,
                  "%s track departs by %.4f m from the integral of the measured velocity" % (name, worst),
                  track=name, worst=worst, **wit)
        if not nav.has_usbl:
            rec.check("position", abs(shift[name][0]) < 1e-6 + 0 and abs(shift[name][1]) < 1e-6,
                      "track without USBL starts %s away from the origin" % (shift[name],), track=name, **wit)
        for k, c in enumerate(("roll [deg]", "pitch [deg]", "heading [deg]")):
            d = np.abs(D.wrap180(D.col(rows, c) - ref["rpy"][s][:, k])).max()
            rec.check("attitude", d < 1e-7, "%s of the %s track differs from the measurement by %g" % (c, name, d),
                      track=name, **wit)
        cov = (t >= nav.dep_t[0]) & (t <= nav.dep_t[-1])
        d = np.abs(D.col(rows, "depth [m]") - ref[name + "_depth"][s])[cov]
        rec.check("depth-altitude", len(d) == 0 or d.max() < 1e-6, "depth of the %s track is off by %g m"
                  % (name, d.max() if len(d) else 0), track=name, **wit)
        cov = (t >= nav.alt_t[0]) & (t <= nav.alt_t[-1])
        d = np.abs(D.col(rows, "altitude [m]") - ref[name + "_alt"][s])[cov]
        rec.check("depth-altitude", len(d) == 0 or d.max() < 1e-6, "altitude of the %s track is off by %g m"
                  % (name, d.max() if len(d) else 0), track=name, **wit)
        if True:
            la, lo = D.col(rows, "latitude [deg]"), D.col(rows, "longitude [deg]")
            for j in range(0, len(rows), max(1, len(rows) // 5)):
                g = Geodesic.WGS84.Direct(nav.lat0, nav.lon0, math.degrees(math.atan2(e[j], n[j])), math.hypot(n[j], e[j]))
                rec.check("geographic", abs(la[j] - g["lat2"]) < 1e-8 and abs(D.wrap180(lo[j] - g["lon2"])) < 1e-7,
                          "row %d of the %s track: lat/lon (%.8f, %.8f), metric position corresponds to (%.8f, %.8f)"
                          % (j, name, la[j], lo[j], g["lat2"], g["lon2"]), track=name, **wit)
        for c, src in (("vehicle_std_roll [deg]", nav.ostd[:, 0]), ("vehicle_std_pitch [deg]", nav.ostd[:, 1]),
                       ("vehicle_std_yaw [deg]", nav.ostd[:, 2])):
            want = np.interp(t, nav.ori_t, src)
            rec.check("uncertainty", np.abs(D.col(rows, c) - want).max() < 1e-9, "%s does not carry the sensor's" % c,
                      track=name, **wit)
        for k, c in enumerate(("vehicle_std_vx [m/s]", "vehicle_std_vy [m/s]", "vehicle_std_vz [m/s]")):
            want = np.interp(t, nav.vel_t, nav.vstd[:, k])
            rec.check("uncertainty", np.abs(D.col(rows, c) - want).max() < 1e-9, "%s does not carry the sensor's" % c,
                      track=name, **wit)
    if kind == "arm":
        return
    rec.check("position", max(abs(a - b) for a, b in zip(shift["centre"], shift["dvl"])) < 1e-5,
              "centre and DVL tracks were shifted differently: %s" % shift, **wit)
    if kind == "window":
        t = D.col(tracks["centre"], "timestamp")
        rec.check("window", (not start or t[0] >= calendar(start)) and (not end or t[-1] <= calendar(end)),
                  "rows outside the requested window", **wit)
        first = start or stamp_first(nav)
        name = out.name
        want = "json_renav_%s_%s_" % (start[:8], start[8:]) if start else None
        rec.check("window", want is None or name.startswith(want), "output folder %s for start %s" % (name, start), **wit)
        rec.check("window", not end or name.endswith("_%s_%s" % (end[:8], end[8:])),
                  "output folder %s for end %s" % (name, end), **wit)
    rec.sample({"kind": kind, "rows": len(tracks["centre"]), "shift": shift["centre"], "folder": out.name})


def stamp_first(nav):
    return stamp(nav.t0)


def arm(rec, nav, ref, s, n, e, wit):
    """DVL away from the rotation centre while turning. Physically the DVL track is the integral of
    what the DVL measured; the code adds an angular-rate term to it (known finding)."""
    t, rpy, v = ref["t"], ref["rpy"], ref["v_body"]
    R = ref["dvl_ne"][s]
    phys = max(np.ptp(n - R[:, 0]), np.ptp(e - R[:, 1]))
    # variant: v + omega x r with omega from finite differences of the attitude samples
    vv = []
    for k, tk in enumerate(t):
        i = int(np.searchsorted(nav.ori_t, tk))
        a, b = max(i - 1, 0), min(i + 1, len(nav.ori_t) - 1)
        w = np.radians(D.wrap180(nav.ori[b] - nav.ori[a]) / (nav.ori_t[b] - nav.ori_t[a]))
        vv.append(v[k] + np.cross(w, np.array(nav.dvl_off)))
    vn = np.array([D.rot(*a) @ b for a, b in zip(rpy, vv)])
    dt = np.diff(t)
    alt = np.vstack([[0, 0], np.cumsum((vn[1:, :2] + vn[:-1, :2]) / 2 * dt[:, None], axis=0)])[s]
    var = max(np.ptp(n - alt[:, 0]), np.ptp(e - alt[:, 1]))
    rec.monitors["lever-arm-turning"] += 1
    rec.case()
    rec.seen("arm", nav.t0)
    if phys < 1e-5:
        return
    if var < 1e-5:
        rec.violate("lever-arm-turning", "DVL track of a turning vehicle departs by %.3f m from the integral of the DVL "
                    "velocity (DVL at %s)" % (phys, nav.dvl_off), mech="dvl-lever-arm-turning", **wit)
    else:
        rec.violate("lever-arm-turning", "DVL track of a turning vehicle departs by %.3f m from the integral of the DVL "
                    "velocity and by %.3f m from the rate-corrected one" % (phys, var), **wit)
