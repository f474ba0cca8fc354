"""Dives of raw logs for the parse checks: builder, driver and record comparison."""

import math

import numpy as np
from geographiclib.geodesic import Geodesic

from lib import dive as D
from lib import rawdive as R

NAV = {"phins": R.phins, "ae2000": R.ae2000, "alr": R.alr, "autosub": R.autosub}
IMG = {"acfr": R.img_acfr, "seaxerocks": R.img_seaxerocks, "biocam": R.img_biocam, "ntnu": R.img_ntnu, "voyis": R.img_voyis}
USBL = {"gaps": R.gaps, "usbl_dump": R.usbl_dump, "nmea": R.noc_nmea, "sonardyne": R.sonardyne}
EXTRA = {"koyo": R.koyo, "ntnu_dvl": R.ntnu_dvl, "eiva": R.eiva}
CATS = ("velocity", "orientation", "depth", "altitude")


def rtz(rng, zero=False):
    if zero:
        return 0
    k = int(rng.integers(0, 5))
    if k == 0:
        return 0
    if k == 1:
        return int(rng.integers(-12, 15))
    if k == 2:
        return float(rng.choice([5.5, -3.5, 5.75, 12.75, 9.5]))
    return int(rng.choice([9, -8, 1, 2, 10]))


def roff(rng, zero=False):
    if zero or rng.random() < 0.4:
        return 0.0
    return round(float(rng.uniform(-50, 50)), 3)


def rorigin(rng):
    if rng.random() < 0.2:  # degrees of zero on either side of the equator and the meridian
        return (round(float(rng.uniform(-0.6, 0.6)), 5), round(float(rng.uniform(-0.6, 0.6)), 5))
    return (round(float(rng.uniform(-75, 75)), 5), round(float(rng.uniform(-175, 175)), 5))


class Built:
    pass


def build(rng, dive, nav=None, extra=None, usbl=None, img=None, tide=None, tz=True, bad=0.0, subset=True, origin=None,
          dvl_yaw=0.0, ins_yaw=0.0, n=None, day=None, h0=None, depth_gaps=False, cam_fmt=None):
    """Write the raw logs and the configuration of one dive; returns what its parsed records must be."""
    b = Built()
    b.origin = origin = origin or rorigin(rng)
    day = day or R.rday(rng)
    h0 = float(rng.uniform(0.5, 22)) if h0 is None else h0
    ents, exp, cams = {}, [], {}
    b.clocks = {}

    def clk(name):
        b.clocks[name] = c = R.Clock(rtz(rng, not tz), roff(rng, not tz))
        return c

    k = {"day": day, "h0": h0}
    if n:
        k["n"] = n
    if nav:
        cats = CATS
        if subset and rng.random() < 0.4:
            cats = ("velocity",) + tuple(c for c in CATS[1:] if rng.random() < 0.6)
        if depth_gaps:
            cats = tuple(c for c in cats if c != "depth")
        kw = dict(k)
        if nav == "phins":
            kw["dvl_yaw"] = dvl_yaw
        if nav == "alr":
            kw["origin"] = origin
            kw["usbl"] = not usbl
        if nav == "ae2000":
            kw["dvl_rpy"] = (0.0, 0.0, dvl_yaw)
            kw["ins_yaw"] = ins_yaw
        a, e, _ = NAV[nav](rng, dive.raw, clk("nav"), cats=cats, bad=bad, **kw)
        ents.update(a)
        exp += e
    if extra:
        kw = dict(k)
        if extra != "ntnu_dvl":
            kw["origin"] = origin
        else:
            kw["dvl_yaw"] = dvl_yaw
        a, e, _ = EXTRA[extra](rng, dive.raw, clk("extra"), bad=bad, **kw)
        ents.update(a)
        exp += e
    if usbl:
        kw = dict(k)
        if usbl == "gaps":
            kw["files"] = int(rng.integers(1, 3))
            kw["as_depth"] = False
        a, e, _ = USBL[usbl](rng, dive.raw, clk("usbl"), origin, bad=bad, **kw)
        if depth_gaps and usbl == "gaps":
            a["depth"] = dict(a["usbl"])
            e = e + [dict(x, cat="depth", v={"depth": x["v"]["depth"]}) for x in e]
        ents.update(a)
        exp += e
    if img:
        kw = dict(k)
        if img == "biocam":
            kw["fmt"] = cam_fmt or "biocam4000_15c"
        a, e, x = IMG[img](rng, dive.raw, clk("img"), **kw)
        ents.update(a)
        exp += e
        cams = x["cams"]
        b.camera_yaml = x.get("camera_yaml")
    b.tide = None
    if tide:
        tt = [int(x["t"] * 1000) for x in exp if x["cat"] in ("depth", "usbl")]
        if tt:
            lo, hi = min(tt), max(tt)
            if rng.random() < 0.3:  # the tide record may end before the dive does
                hi = lo + (hi - lo) // 2
            step = int(rng.choice([1, 5, 10, 15]))
            a, hs = R.tide(rng, dive.raw, clk("tide"), lo - step * 60000, hi + int(rng.integers(0, 2)) * step * 60000,
                           step_min=step, fmt=tide)
            ents.update(a)
            b.tide = hs
            ts, hv = [h[0] for h in hs], [h[1] for h in hs]
            for x in exp:
                if x["cat"] in ("depth", "usbl") and "depth" in x["v"]:
                    if ts[0] <= x["t"] <= ts[-1]:
                        x["raw_depth"] = x["v"]["depth"]
                        x["v"] = dict(x["v"], depth=x["v"]["depth"] - float(np.interp(x["t"], ts, hv)))
                        x["tide"] = True
    b.entries, b.exp, b.cams = ents, exp, cams
    mission = {"version": 1, "origin": {"latitude": origin[0], "longitude": origin[1],
                                        "coordinate_reference_system": "wgs84", "date": day.strftime("%Y/%m/%d")}}
    mission.update(ents)
    dive.write_config(mission, D.vehicle_dict(cams=cams, dvl_yaw=dvl_yaw, ins_yaw=ins_yaw), camera=getattr(b, "camera_yaml", None))
    b.mission = mission
    return b


def pair(exp, obs, tol=2e-3):
    """Match expected and observed records of one (category, frame): -> pairs, lost, extra.

    Several records of one kind may carry the same instant (a depth of two instruments): matched in any order that
    fits their values best.
    """
    groups = {}
    for x in exp:
        groups.setdefault((x["cat"], x.get("frame", "")), ([], []))[0].append(x)
    for o in obs:
        f = o.get("frame", "") if o["category"] == "velocity" else ""
        groups.setdefault((o["category"], f), ([], []))[1].append(o)
    pairs, lost, extra = [], [], []
    for g, (es, os_) in groups.items():
        es = sorted(es, key=lambda x: x["t"])
        os_ = sorted(os_, key=lambda o: o["epoch_timestamp"])
        i = j = 0
        while i < len(es) and j < len(os_):
            d = os_[j]["epoch_timestamp"] - es[i]["t"]
            if abs(d) <= tol:
                pairs.append((es[i], os_[j]))
                i += 1
                j += 1
            elif d > 0:
                lost.append(es[i])
                i += 1
            else:
                extra.append(os_[j])
                j += 1
        lost += es[i:]
        extra += os_[j:]
    return pairs, lost, extra


def compare_ids(rec, mon, exp, obs, tol=2e-3, **wit):
    """Conservation: every reading of the logs is there once, at its instant, and nothing else."""
    pairs, lost, extra = pair(exp, obs, tol)
    rec.check(mon, not lost and not extra,
              "%d expected records not found (first: %s), %d records that no reading explains (first: %s)"
              % (len(lost), brief(lost), len(extra), brief(extra)), **wit)
    rec.event("records paired", len(pairs))
    return pairs


def brief(l):
    if not l:
        return None
    x = l[0]
    return {k: x[k] for k in ("cat", "category", "frame", "t", "epoch_timestamp", "fmt", "sensor") if k in x}


def angdiff(a, b):
    return abs((a - b + 180) % 360 - 180)


def compare_values(rec, mon, pairs, mech=None):
    for x, o in pairs:
        f = R.flat(o)
        bad = []
        for k, v in x.get("v", {}).items():
            g = f.get(k)
            if g is None or not np.isfinite(g):
                bad.append((k, g, v))
                continue
            d = angdiff(g, v) if k == "heading" else abs(g - v)
            tol = 2e-7 if k in ("latitude", "longitude") else 1e-6 * (1 + abs(v))
            if d > tol:
                bad.append((k, g, v))
        rec.check(mon, not bad, "%s %s at %.3f: fields differ (name, stored, measured): %s" % (x["fmt"], x["cat"], x["t"], bad),
                  mech=mech, fmt=x["fmt"])
        if x["cat"] == "usbl":
            usbl_values(rec, mon, x, o, f)
        for c, (name, t) in x.get("files", {}).items():
            got = R.rec_files(o).get(c)
            rec.check(mon + "-image", got is not None and got[0].endswith(name) and (t is None or abs(got[1] - t) < 2e-3),
                      "%s: %s is %s, expected file %s at %s" % (x["fmt"], c, got, name, t), fmt=x["fmt"])


def usbl_values(rec, mon, x, o, f):
    la, lo = x["v"]["latitude"], x["v"]["longitude"]
    g = Geodesic.WGS84.Inverse(x["origin"][0], x["origin"][1], la, lo)
    n, e = g["s12"] * math.cos(math.radians(g["azi1"])), g["s12"] * math.sin(math.radians(g["azi1"]))
    rec.check(mon + "-local", abs(f["northings"] - n) < 0.05 and abs(f["eastings"] - e) < 0.05,
              "%s: local position (N %.3f, E %.3f) of the fix, %.3f, %.3f from its latitude and longitude"
              % (x["fmt"], f["northings"], f["eastings"], n, e), fmt=x["fmt"])
    if "ship_any" in x:
        sd = {}
        for d in o["data_ship"]:
            sd.update(d)
        ok = [s for s in x["ship_any"] if abs(sd["latitude"] - s[0]) < 1e-7 and abs(sd["longitude"] - s[1]) < 1e-7]
        rec.check(mon + "-ship", bool(ok) and sd["heading"] in x["head_any"],
                  "ship position and heading %s, observations around the fix %s %s" % (sd, x["ship_any"], x["head_any"]))
        if ok:
            dist = math.hypot(Geodesic.WGS84.Inverse(ok[0][0], ok[0][1], la, lo)["s12"], x.get("raw_depth", x["v"]["depth"]))
            s = dist * x["fac"][0] + x["fac"][1]
            rec.check(mon + "-std", abs(f["northings_std"] - s) < 0.05 and abs(f["eastings_std"] - s) < 0.05 and
                      abs(f["distance_to_ship"] - dist) < 1.0,
                      "uncertainty %s at distance %.2f, model %.3f" % (f["northings_std"], dist, s))
    if "ship" in x:
        s = o["data_ship"]
        sd = {}
        for d in s:
            sd.update(d)
        rec.check(mon + "-ship", abs(sd["latitude"] - x["ship"][0]) < 1e-6 and abs(sd["longitude"] - x["ship"][1]) < 1e-6,
                  "ship position at the instant of the fix is %s, interpolated %s" % ((sd["latitude"], sd["longitude"]), x["ship"]))
        h1, h2 = x["ship_heads"]
        arc = (h2 - h1 + 180) % 360 - 180
        # the heading lies on the shorter arc between the surrounding headings
        if abs(abs(arc) - 180) > 1e-3:
            d = (sd["heading"] - h1 + 180) % 360 - 180
            lo_, hi_ = min(0, arc) - 1e-6, max(0, arc) + 1e-6
            rec.check(mon + "-ship", lo_ <= d <= hi_ and 0 <= sd["heading"] <= 360, "ship heading %.3f is not between %.3f and %.3f" % (sd["heading"], h1, h2))
        hd = Geodesic.WGS84.Inverse(x["ship"][0], x["ship"][1], la, lo)["s12"]
        fac, offs = x["fac"]
        lo_d, hi_d = hd - 1, math.hypot(hd, x.get("raw_depth", f["depth"])) + 1
        s = f["northings_std"]
        rec.check(mon + "-std", lo_d * fac + offs <= s <= hi_d * fac + offs and abs(f["eastings_std"] - s) < 1e-9,
                  "uncertainty of the fix %.3f, distance %.1f..%.1f x %.4f + %.3f" % (s, lo_d, hi_d, fac, offs))


def compare_std(rec, mon, pairs):
    for x, o in pairs:
        f = R.flat(o)
        for k, g in f.items():
            if k.endswith("_std") and not (g is None and x.get("frame") == "inertial"):
                rec.check(mon + "-nonneg", g is not None and g >= 0, "%s %s: %s = %s" % (x["fmt"], x["cat"], k, g), fmt=x["fmt"])
        if x.get("std"):
            bad = [(k, f.get(k), v) for k, v in x["std"].items() if f.get(k) is None or abs(f[k] - v) > 1e-6 * (1 + abs(v))]
            rec.check(mon, not bad, "%s %s at %.3f: uncertainties differ (name, stored, model): %s" % (x["fmt"], x["cat"], x["t"], bad),
                      fmt=x["fmt"])
        if x.get("std_any"):
            ok = any(all(abs(f[k] - v) < 1e-9 for k, v in s.items()) for s in x["std_any"])
            rec.check(mon, ok, "%s %s at %.3f: uncertainty is not that of the last report: %s of %s"
                      % (x["fmt"], x["cat"], x["t"], {k: f.get(k) for k in x["std_any"][0]}, x["std_any"]), fmt=x["fmt"])


def order(rec, recs, b, mon="chronological"):
    t = [r["epoch_timestamp"] for r in recs]
    bad = [i for i in range(1, len(t)) if t[i] < t[i - 1]]
    rec.check(mon, not bad, "record %s is older than the one before it" % bad[:3])
    og = [i for i, r in enumerate(recs) if r["category"] == "origin"]
    rec.check("origin-first", og == [0], "origin records at positions %s" % og)
    if og:
        d = R.flat(recs[og[0]])
        rec.check("origin-first", abs(d["latitude"] - b.origin[0]) < 1e-9 and abs(d["longitude"] - b.origin[1]) < 1e-9,
                  "origin is %s, mission says %s" % (d, b.origin))
