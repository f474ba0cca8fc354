"""C07 USBL outlier rejection and anchoring of the dead-reckoned track."""
import numpy as np

from auv_nav.localisation.usbl_filter import usbl_filter
from auv_nav.localisation.usbl_offset import usbl_offset
from auv_nav.sensors import Depth, Usbl
from lib import dive as D
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C07"
RULE = ("random USBL series (2-80 fixes, outliers in depth and position, fixes outside the depth record, near-threshold "
        "values, few or no overlapping fixes) against depth series; random tracks for the offset; whole dives through "
        "process(); non-trivial: series with at least one rejected and one kept fix, or an offset over at least one fix")
REQUIRED = {"filter-depth": 100, "filter-distance": 100, "offset": 200, "offset-process": 5, "filter-process": 5, "settings": 40, "none-left": 5}
ASSUMPTIONS = ["fixes closer than 1e-9 (relative) to a rejection threshold are not judged"]


def cases(rng, tier):
    n = 80 if tier == "quick" else 200
    out = [{"kind": k, "i": i} for i in range(n) for k in ("filter", "offset")]
    return out + [{"kind": k, "i": i} for i in range(n) for k in ("process", "settings")]


def run_case(case, rec):
    rng = case_rng(case)
    {"filter": filt, "offset": offset, "process": proc, "settings": settings}[case["kind"]](rec, rng)


def series(rng):
    n = int(rng.integers(1, 60))
    t0 = D.EPOCH0 + float(rng.uniform(0, 1e5))
    dep = []
    for t in np.sort(rng.uniform(0, 200, int(rng.integers(2, 120)))):
        d = Depth()
        d.epoch_timestamp = t0 + float(t)
        d.depth = float(50 + 0.2 * t + 3 * np.sin(t / 9))
        d.depth_std = float(rng.uniform(0.01, 0.5))
        dep.append(d)
    us = []
    ts = np.sort(rng.uniform(-10, 210, n))
    if rng.random() < 0.3:
        ts[rng.integers(0, n)] = dep[0].epoch_timestamp - t0 + float(rng.choice([0.5, 1.5, 0.999, 1.001]))
        ts[rng.integers(0, n)] = dep[-1].epoch_timestamp - t0 - float(rng.choice([0.5, 1.5, 0.999, 1.001]))
        ts.sort()
    depth_out, pos_out = float(rng.uniform(0, 0.3)), float(rng.uniform(0, 0.3))
    for t in ts:
        u = Usbl(0.1, 0.01)
        u.epoch_timestamp = t0 + float(t)
        u.northings = float(0.8 * t + rng.normal(0, 1)) + (float(rng.normal(0, 60)) if rng.random() < pos_out else 0)
        u.eastings = float(-0.5 * t + rng.normal(0, 1)) + (float(rng.normal(0, 60)) if rng.random() < pos_out else 0)
        u.northings_std, u.eastings_std = float(rng.uniform(0.2, 3)), float(rng.uniform(0.2, 3))
        u.depth = float(50 + 0.2 * t + 3 * np.sin(t / 9) + rng.normal(0, 0.4)) + (float(rng.normal(0, 8)) if rng.random() < depth_out else 0)
        u.depth_std = float(rng.uniform(0.1, 1.0)) * float(rng.choice([1, 1, -1]))
        us.append(u)
    return us, dep


def reference(us, dep, sigma, speed, use_d, use_ne, eps=1e-6):
    """indices of the fixes left after the time, depth and distance filters, and whether one is too close to a limit to say"""
    td = np.array([d.epoch_timestamp for d in dep])
    dd, ds = np.array([d.depth for d in dep]), np.array([d.depth_std for d in dep])
    fuzzy = False
    s1 = []
    for i, u in enumerate(us):
        if td[0] + 1 <= u.epoch_timestamp <= td[-1] - 1:
            s1.append(i)
    s2 = []
    for i in s1:
        u = us[i]
        env = sigma * (abs(u.depth_std) + np.interp(u.epoch_timestamp, td, ds))
        diff = abs(u.depth - np.interp(u.epoch_timestamp, td, dd))
        fuzzy |= abs(diff - env) < eps
        if diff <= env or not use_d:
            s2.append(i)
    s3 = []
    if use_ne:
        for k in range(2, len(s2) - 2):
            ok = True
            for q in (k - 2, k - 1, k + 1, k + 2):
                a, b = us[s2[k]], us[s2[q]]
                dist = np.hypot(a.northings - b.northings, a.eastings - b.eastings)
                env = sigma * (np.hypot(a.northings_std, a.eastings_std) + np.hypot(b.northings_std, b.eastings_std)
                               + abs(a.epoch_timestamp - b.epoch_timestamp) * speed)
                fuzzy |= abs(dist - env) < eps
                ok &= dist <= env
            if ok:
                s3.append(s2[k])
    else:
        s3 = s2
    return s1, s2, s3, bool(fuzzy)


def filt(rec, rng):
    for _ in range(12):
        us, dep = series(rng)
        sigma, speed = float(rng.choice([1.0, 2.0, 3.0])), float(rng.choice([0.5, 1.0, 2.0]))
        use_d, use_ne = bool(rng.random() < 0.8), bool(rng.random() < 0.8)
        ident = {id(u): i for i, u in enumerate(us)}
        s1, s2, s3, fuzzy = reference(us, dep, sigma, speed, use_d, use_ne)
        if fuzzy:
            continue
        wit = dict(n=len(us), sigma=sigma, speed=speed, depth_filter=use_d, distance_filter=use_ne)
        rec.case()
        if s3 and len(s3) < len(us):
            rec.seen(us[0].epoch_timestamp, len(us), sigma, speed)
        with rec.guard("filter-depth", "usbl_filter", **wit):
            with quiet():
                a, b = usbl_filter(list(us), dep, sigma, speed, apply_north_east_filter=use_ne, apply_depth_filter=use_d)
            gb = [ident[id(u)] for u in b]
            rec.check("filter-distance", gb == s3, "kept fixes %s, the stated envelopes keep %s" % (gb[:40], s3[:40]), **wit)
            if use_ne:
                ga = [ident[id(u)] for u in a]
                rec.check("filter-depth", ga == s2, "depth filtering keeps %s, the stated envelope keeps %s" % (ga[:40], s2[:40]), **wit)
            else:
                rec.check("filter-depth", set(gb) <= set(s1), "kept a fix with no depth data", **wit)
            rec.event("fixes_rejected", len(us) - len(gb))
            rec.event("fixes_kept", len(gb))
    rec.sample(dict(wit, kept=len(s3)))


def offset(rec, rng):
    for _ in range(30):
        t0 = D.EPOCH0 + float(rng.uniform(0, 1e5))
        td = t0 + np.arange(0, float(rng.uniform(3, 120)), 0.5) + rng.uniform(0, 0.2)
        nd = 3 * np.sin((td - t0) / 5) + 0.9 * (td - t0)
        ed = 4 * np.cos((td - t0) / 7)
        m = int(rng.integers(1, 25))
        lo, hi = float(rng.choice([-40, 0.0, -5])), float(rng.choice([0, 40, 5]))
        tu = np.sort(rng.uniform(td[0] + lo, td[-1] + hi, m))
        tu = tu[np.r_[True, np.diff(tu) > 0.9]]  # USBL is slower than the dead reckoning
        dense = rng.random() < 0.5
        if dense:
            tu = np.arange(td[0] + lo, td[-1] + hi, float(rng.uniform(1, 8)))
        off = rng.uniform(-500, 500, 2)
        nu = np.interp(tu, td, nd) + off[0] + rng.normal(0, 2, len(tu))
        eu = np.interp(tu, td, ed) + off[1] + rng.normal(0, 2, len(tu))
        ins = [i for i, t in enumerate(tu) if td[0] <= t <= td[-1]]
        wit = dict(td=[td[0], td[-1]], tu=tu, off=off)
        rec.case()
        with rec.guard("offset", "usbl_offset", **wit):
            with quiet():
                on, oe = usbl_offset(td.tolist(), nd.tolist(), ed.tolist(), tu.tolist(), nu.tolist(), eu.tolist())
            if not ins:
                rec.check("offset", on == 0 and oe == 0, "no fix overlaps the track, which is shifted by (%s, %s)" % (on, oe), **wit)
                continue
            rec.seen(t0, len(ins))
            rn = nu[ins] - np.interp(tu[ins], td, nd)
            re = eu[ins] - np.interp(tu[ins], td, ed)
            gaps = np.diff(tu)
            kmax = 1 if len(gaps) and gaps.max() < 19 and tu[0] > td[0] - 19 else len(ins) - 1
            ok = any(abs(on - rn[k:].mean()) < 1e-6 and abs(oe - re[k:].mean()) < 1e-6
                     for k in range(0, min(kmax, len(ins) - 1) + 1))
            rec.check("offset", ok, "offset (%.4f, %.4f), mean USBL-DR difference over the %d overlapping fixes (%.4f, %.4f)"
                      % (on, oe, len(ins), rn.mean(), re.mean()), **wit)


def proc(rec, rng):
    nav = Nav(rng, dur=40.0, usbl_dt=float(rng.choice([1.0, 2.0])), turning=True)
    out_i = rng.choice(len(nav.usbl_t), 2, replace=False)
    use_filter = bool(rng.random() < 0.6)
    if use_filter:
        nav.usbl[out_i, 0] += rng.choice([-200, 300], 2)
    else:
        out_i = []
    with scratch() as root:
        d = D.Dive(root)
        d.write_config(nav.mission(), nav.vehicle())
        d.write_localisation(D.localisation_dict(usbl_filter=use_filter, sigma=3.0, max_speed=2.0))
        d.write_nav(nav.records())
        wit = dict(filter=use_filter, outliers=[float(nav.usbl_t[i]) for i in out_i])
        with rec.guard("offset-process", "process() with USBL", **wit):
            out = d.process()
            us = D.read_csv(out / "csv/auv_usbl.csv")
            tu, nu, eu = D.col(us, "Timestamp"), D.col(us, "Northing [m]"), D.col(us, "Easting [m]")
            rec.case()
            rec.seen("proc", nav.t0)
            bad = [float(nav.usbl_t[i]) for i in out_i if float(nav.usbl_t[i]) in tu]
            rec.check("filter-process", not bad, "gross USBL outliers at %s survive the filter" % bad, **wit)
            if not use_filter:
                rec.check("filter-process", np.array_equal(tu, nav.usbl_t), "USBL fixes lost with the filter off", **wit)
            else:
                near = set()
                for i in out_i:
                    near |= set(range(i - 2, i + 3))
                clean = [float(t) for i, t in enumerate(nav.usbl_t) if i not in near and 2 < i < len(nav.usbl_t) - 3]
                lost = [t for t in clean if t not in tu]
                rec.check("filter-process", not lost, "USBL fixes consistent with all neighbours were rejected: %s" % lost[:5], **wit)
            ref = nav.reference_dr()
            rows = D.read_csv(out / "csv/dead_reckoning/auv_dr_centre.csv")
            t, n, e = D.col(rows, "timestamp"), D.col(rows, "northing [m]"), D.col(rows, "easting [m]")
            ins = (tu >= t[0]) & (tu <= t[-1])
            rn, re = nu[ins] - np.interp(tu[ins], t, n), eu[ins] - np.interp(tu[ins], t, e)
            ok = any(abs(rn[k:].mean()) < 1e-5 and abs(re[k:].mean()) < 1e-5 for k in range(2))
            rec.check("offset-process", ok, "dead-reckoned track is not centred on the USBL fixes: mean residual (%.3f, %.3f)"
                      % (rn.mean(), re.mean()), **wit)


def settings(rec, rng):
    """the filters that mission.yaml asks for, with the limits of auv_nav.yaml, and what is left of the track when no fix is"""
    dt = float(rng.choice([1.0, 2.0, 4.0, 11.0, 16.0]))
    nav = Nav(rng, dur=40.0, usbl_dt=dt, turning=True)
    n = len(nav.usbl_t)
    use_d, use_ne = bool(rng.random() < 0.6), bool(rng.random() < 0.6)
    active = bool(rng.random() < 0.85)
    sigma, speed = float(rng.choice([1.0, 3.0, 6.0])), float(rng.choice([0.5, 2.0, 5.0]))
    nav.usbl[rng.random(n) < 0.12, 0] += rng.choice([-200, 30, 60, 300])
    nav.usbl[rng.random(n) < 0.12, 2] += rng.choice([-8, 5, 12, 40])
    if rng.random() < 0.25:
        # no fix survives
        use_d, active = True, True
        nav.usbl[:, 2] += 200
    with scratch() as root:
        d = D.Dive(root)
        m = nav.mission()
        for key, on in (("apply_depth_filter", use_d), ("apply_north_east_filter", use_ne)):
            if not on or rng.random() < 0.7:
                m["usbl"][key] = on
        d.write_config(m, nav.vehicle())
        d.write_localisation(D.localisation_dict(usbl_filter=active, sigma=sigma, max_speed=speed))
        d.write_nav(nav.records())
        wit = dict(active=active, depth_filter=use_d, distance_filter=use_ne, sigma=sigma, speed=speed)
        us, dep = [], []
        for t, (a, b, z) in zip(nav.usbl_t, nav.usbl):
            u = Usbl(0.1, 0.01)
            u.epoch_timestamp, u.northings, u.eastings, u.depth = float(t), float(a), float(b), float(z)
            u.northings_std = u.eastings_std = u.depth_std = 2.0
            us.append(u)
        for t, z, s in zip(nav.dep_t, nav.dep, nav.dstd):
            q = Depth()
            q.epoch_timestamp, q.depth, q.depth_std = float(t), float(z), float(s)
            dep.append(q)
        keep = list(range(n))
        if active:
            _, _, keep, fuzzy = reference(us, dep, sigma, speed, use_d, use_ne, 1e-2)
            if fuzzy:
                return
        want = np.array([us[i].epoch_timestamp for i in keep])
        with rec.guard("settings", "process() with USBL filters as configured", **wit):
            out = d.process()
            rec.case()
            rec.seen("settings", use_d, use_ne, active, sigma, speed, len(keep))
            f = out / "csv/auv_usbl.csv"
            if len(keep) > 0:
                tu = D.col(D.read_csv(f), "Timestamp") if f.exists() else np.array([])
                rec.check("settings", np.array_equal(tu, want), "%d of %d USBL fixes are consistent with the settings, process keeps %d" % (len(keep), n, len(tu)), extra=sorted(set(tu) - set(want))[:5], missing=sorted(set(want) - set(tu))[:5], **wit)
            ref = nav.reference_dr()
            rows = D.read_csv(out / "csv/dead_reckoning/auv_dr_centre.csv")
            t, nn, ee = D.col(rows, "timestamp"), D.col(rows, "northing [m]"), D.col(rows, "easting [m]")
            sh = np.c_[nn, ee] - np.c_[[np.interp(t, ref["t"], ref["centre_ne"][:, k]) for k in range(2)]].T
            if not any(t[0] <= x <= t[-1] for x in want):
                rec.check("none-left", np.abs(sh).max() < 1e-3, "no USBL fix is left, the track is shifted by (%.3f, %.3f)" % tuple(sh.mean(0)), **wit)
                return
            ins = [i for i in keep if t[0] <= us[i].epoch_timestamp <= t[-1]]
            r = np.array([[us[i].northings - np.interp(us[i].epoch_timestamp, t, nn), us[i].eastings - np.interp(us[i].epoch_timestamp, t, ee)] for i in ins])
            ok = any(np.abs(r[k:].mean(0)).max() < 1e-2 for k in range(min(2, len(r)))) or (np.diff(want).max(initial=0) >= 19 and len(r) > 2)
            rec.check("settings", ok, "the track is not centred on the USBL fixes that are left: (%.3f, %.3f)" % tuple(r.mean(0)), **wit)
