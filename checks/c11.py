"""C11 every parsed record carries the UTC instant of its reading, whatever time zone log and machine are in."""
import os
import time

from auv_nav.tools import time_conversions as TC
from lib import dive as D
from lib import parsecase as P
from lib import rawdive as R
from lib.engine import case_rng, scratch

PID = "C11"
RULE = ("raw logs of every instrument and camera format with a time zone setting, written in random zones (whole, half and quarter "
        "hours, both signs, names), with random clock offsets, near midnight, month, year and leap-day ends, parsed on machines "
        "set to six different zones (with and without daylight saving); non-trivial: zone or offset not zero")
REQUIRED = {"utc-instant": 80, "machine-zone-irrelevant": 20, "camera-instant": 300, "calendar-arithmetic": 1500, "dvl-instant": 100}
CASE_TIMEOUT = 120
ZONES = ["UTC0", "JST-9", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "NPT-5:45", "HST10"]


def cases(rng, tier):
    n = 24 if tier == "quick" else 240
    out = []
    for r in range(n):
        for nav, usbl, img in (("phins", "gaps", "acfr"), ("phins", "usbl_dump", "seaxerocks"), ("phins", "nmea", "ntnu"),
                               ("ae2000", "gaps", "biocam"), ("alr", "nmea", "biocam"), ("autosub", "usbl_dump", "acfr"),
                               ("phins", None, "biocam"), (None, "gaps", "ntnu"), (None, "nmea", "seaxerocks"), ("phins", "sonardyne", "voyis"),
                               (None, "sonardyne", None), (None, None, "voyis")):
            out.append({"kind": "dive", "nav": nav, "usbl": usbl, "img": img, "rep": r,
                        "tide": [None, "NOC_polpred", "NOC_CTI"][int(rng.integers(0, 3))]})
        for x in ("koyo", "ntnu_dvl", "eiva"):
            out.append({"kind": "dive", "nav": None, "extra": x, "usbl": None, "img": None, "rep": r, "tide": None})
        out.append({"kind": "drift", "rep": r})
        out.append({"kind": "calendar", "rep": r})
    for i, c in enumerate(out):
        c["i"] = i
    return out


def set_zone(z):
    os.environ["TZ"] = z
    time.tzset()


def run_case(case, rec):
    try:
        {"dive": dive_case, "drift": drift_case, "calendar": calendar_case}[case["kind"]](case, rec, case_rng(case))
    finally:
        set_zone("UTC0")


def zone_names(rng, mission):
    """The zone may be given as a number, a number in quotes or a name."""
    for k, e in mission.items():
        if isinstance(e, dict) and "timezone" in e:
            z = e["timezone"]
            names = {0: ["utc", "UTC", "0"], 9: ["jst", "JST", "9"], 1: ["cet", "CET", "1"]}.get(z, [str(z)])
            if rng.random() < 0.4:
                e["timezone"] = str(rng.choice(names))


def dive_case(case, rec, rng):
    edge = rng.random() < 0.6
    h0 = float(rng.choice([0.01, 23.2, 23.998, 23.999])) if edge else None
    n = 12
    with scratch() as tmp:
        dive = D.Dive(tmp)
        b = P.build(rng, dive, nav=case["nav"], extra=case.get("extra"), usbl=case["usbl"], img=case["img"], tide=case["tide"] if case["nav"] in ("phins", "ae2000")
                    or case["usbl"] else None, h0=h0, n=n)
        zone_names(rng, b.mission)
        dive.write_config(b.mission, D.vehicle_dict(cams=b.cams), camera=getattr(b, "camera_yaml", None))
        rec.case(len(b.exp))
        nontrivial = any(c.tz or c.off for c in b.clocks.values())
        if nontrivial:
            rec.seen(case["nav"], case.get("extra"), case["usbl"], case["img"], tuple((c.tz, c.off) for c in b.clocks.values()))
        zs = [str(z) for z in rng.choice(ZONES, 2, replace=False)]
        first = None
        for z in zs:
            set_zone(z)
            with rec.guard("utc-instant", "parse on a machine in zone %s" % z, zones={k: (c.tz, c.off) for k, c in b.clocks.items()}):
                dive.parse()
                recs = [r for r in dive.nav() if r["category"] != "origin"]
                pairs = P.compare_ids(rec, "utc-instant", b.exp, recs, zone=z)
                for x, o in pairs:
                    for c, (name, t) in x.get("files", {}).items():
                        got = R.rec_files(o).get(c)
                        rec.check("camera-instant", got is not None and (t is None or abs(got[1] - t) < 2e-3),
                                  "%s %s: %s, expected %s at %s" % (x["fmt"], c, got, name, t), zone=z)
                    if "t_dvl" in x:
                        rec.check("dvl-instant", abs(o["epoch_timestamp_dvl"] - x["t_dvl"]) < 2e-3,
                                  "instant of the DVL packet %r, %r in the log" % (o["epoch_timestamp_dvl"], x["t_dvl"]))
                    if x.get("tide"):
                        f = R.flat(o)
                        rec.check("tide-instant", abs(f["depth"] - x["v"]["depth"]) < 1e-6 * (1 + abs(f["depth"])),
                                  "depth %.4f, %.4f with the tide of its instant" % (f["depth"], x["v"]["depth"]), tide=case["tide"])
                if first is None:
                    first = recs
                else:
                    rec.check("machine-zone-irrelevant", recs == first, "records differ between machines in zones %s" % zs)
                rec.event("machine zone " + z)
        rec.sample({"clocks": {k: (c.tz, c.off) for k, c in b.clocks.items()}, "records": len(b.exp), "machine": zs})


def drift_case(case, rec, rng):
    """Format biocam: the computer's time stamps are replaced by a line through the camera clock."""
    with scratch() as tmp:
        dive = D.Dive(tmp)
        b = P.build(rng, dive, img="biocam", cam_fmt="biocam", n=20)
        rec.case(len(b.exp))
        rec.seen("drift", case["rep"])
        with rec.guard("biocam-clock", "parse of biocam images"):
            set_zone(str(rng.choice(ZONES)))
            dive.parse()
            recs = [r for r in dive.nav() if r["category"] != "origin"]
            pairs = P.compare_ids(rec, "biocam-clock", b.exp, recs, tol=0.06)
            for x, o in pairs:
                if x["cat"] == "image":
                    g = R.rec_files(o)["camera1"]
                    rec.check("biocam-clock", g[0].endswith(x["files"]["camera1"][0]) and abs(g[1] - x["files"]["camera1"][1]) < 6e-3,
                              "image %s at %.6f, computer clock %.6f" % (g[0], g[1], x["files"]["camera1"][1]))


def calendar_case(case, rec, rng):
    import calendar as cal
    import datetime as dt

    set_zone(str(rng.choice(ZONES)))
    for _ in range(700):
        t = int(rng.integers(0, 4_000_000_000))
        if rng.random() < 0.3:
            t = t // 86400 * 86400 + int(rng.choice([0, 86399, 1]))
        d = dt.datetime(1970, 1, 1) + dt.timedelta(seconds=t)
        z = float(rng.choice([0, 9, -8, 5.5, 5.75, -3.5, 14, -12]))
        us = int(rng.integers(0, 1_000_000))
        rec.case()
        with rec.guard("calendar-arithmetic", "calendar to epoch", t=t, z=z):
            e = TC.date_time_to_epoch(d.year, d.month, d.day, d.hour, d.minute, d.second, z, us)
            rec.check("calendar-arithmetic", abs(e - (t - z * 3600 + us * 1e-6)) < 2e-6, "%s zone %s -> %r" % (d, z, e))
            s = TC.epoch_to_datetime(t)
            rec.check("calendar-arithmetic", s == d.strftime("%Y%m%d%H%M%S"), "epoch %d -> %s" % (t, s))
            rec.check("calendar-arithmetic", TC.string_to_epoch(d.strftime("%Y%m%d%H%M%S")) == t, "text -> epoch %d" % t)
            rec.check("calendar-arithmetic", cal.timegm(TC.epoch_to_utctime(t)) == t, "utc time of %d" % t)
