"""C26 processing a time window uses exactly the records inside it."""
import calendar
import os
import random
import shutil
import time

import numpy as np

from lib import dive as D
from lib.engine import case_rng, scratch
from lib.navsim import Nav

PID = "C26"
RULE = ("random dives processed for random windows (start only, finish only, both, none; edges on and between records, across midnight) under several "
        "machine time zones, against the same dive with the records outside the window taken out; non-trivial: a window that leaves out records of the dive")
REQUIRED = {"window": 30, "inside": 30, "folder": 30}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 10 if tier == "quick" else 80
    out = [{"kind": "window", "rep": r, "mode": m} for r in range(n) for m in ("plain", "ekf", "pf", "laser")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def stamp(t):
    return time.strftime("%Y%m%d%H%M%S", time.gmtime(t))


def outputs(folder):
    return {str(p.relative_to(folder)): p.read_bytes() for p in sorted(folder.rglob("*")) if p.suffix in (".csv", ".txt") and "csv" in p.parts}


def run_case(case, rec):
    rng = case_rng(case)
    tz = os.environ.get("TZ")
    try:
        os.environ["TZ"] = str(rng.choice(["UTC", "Asia/Tokyo", "America/New_York", "Australia/Lord_Howe"]))
        time.tzset()
        window(case, rec, rng)
    finally:
        os.environ.pop("TZ", None)
        if tz:
            os.environ["TZ"] = tz
        time.tzset()


def window(case, rec, rng):
    m = case["mode"]
    day = D.EPOCH0 - D.EPOCH0 % 86400 + 86400 * int(rng.integers(1, 300))
    ep = float(day - 25) if rng.random() < 0.4 else float(day + int(rng.integers(0, 80000)))
    kw = dict(dur=60.0, usbl_dt=2.5, cams=2, turning=True, epoch=ep)
    if m == "laser":
        kw.update(cams=3, laser=True)
    nav = Nav(rng, **kw)
    recs = nav.records()
    a, b = int(nav.t0 + rng.integers(5, 20)), int(nav.t1 - rng.integers(5, 20))
    mode = str(rng.choice(["both", "start", "finish", "none"], p=[0.5, 0.2, 0.2, 0.1]))
    if rng.random() < 0.6 and mode != "none":  # records exactly on the edges and just beyond them
        for t in (a, b):
            for dt in (0.0, 0.4, -0.4):
                recs.append(D.r_depth(t + dt, 55.0))
                recs.append(D.r_ori(t + dt + 0.0007 * (dt != 0), list(nav.rpy(t + dt)), [0.2, 0.3, 0.1]))
                recs.append(D.r_vel(t + dt, list(nav.vel(t + dt))))
                recs.append(D.r_alt(t + dt, 6.5))
                recs.append(D.r_usbl(t + dt, nav.lat0, nav.lon0, float(nav.usbl_bias[0]), float(nav.usbl_bias[1]), 53.0))
                if m == "laser":
                    recs.append(D.r_laser(t + dt, "image/CamC_laser/%07d.tif" % (9000 + len(recs))))
                recs.append(D.r_img(t + dt + 0.0, "image/CamA/%07d.png" % (9000 + len(recs)), t + dt, "image/CamB/%07d.png" % (9000 + len(recs))))
    start = stamp(a) if mode in ("both", "start") else ""
    end = stamp(b) if mode in ("both", "finish") else ""
    times = [r["epoch_timestamp"] for r in recs]
    lo = a if start else min(t for t in times if t > 1e6)
    hi = b if end else max(times)
    kept = [r for r in recs if r["class"] == "origin" or lo <= r["epoch_timestamp"] <= hi]
    names_in = {c[0]["filename"] for r in kept for k, c in r.items() if k.startswith("camera")} | {r["filename"] for r in kept if "filename" in r}
    with scratch() as root:
        got = []
        for rr, st, en in ((recs, start, end), (kept, "", "")):
            d = D.Dive(root)
            d.write_config(nav.mission(), nav.vehicle())
            d.write_localisation(D.localisation_dict(ekf=m in ("ekf", "laser"), pf=m == "pf", particles=10, usbl_filter=False))
            d.write_nav(rr)
            for p in d.renav():
                shutil.rmtree(p)
            np.random.seed(3)
            random.seed(3)
            rec.case()
            with rec.guard("window", "process window %s" % mode):
                if rr is recs:  # the window as the user gives it
                    out = d.process_cli("-F", *(["-s", st] if st else []), *(["-e", en] if en else []))
                else:
                    out = d.process()
                got.append(outputs(out))
                if rr is not recs:
                    continue
                s, e = stamp(lo), stamp(hi)
                rec.check("folder", out.name == "json_renav_%s_%s_%s_%s" % (s[:8], s[8:], e[:8], e[8:]),
                          "output folder %s for the window %s to %s" % (out.name, s, e))
        if len(got) == 2:
            diff = [k for k in sorted(set(got[0]) | set(got[1])) if got[0].get(k) != got[1].get(k)]
            rec.check("window", not diff and len(got[0]) > 3, "%s window: %s differ from those of the dive without the records outside" % (mode, diff[:3]),
                      mode=m, start=start, finish=end)
            for k, v in got[0].items():
                if not k.endswith(".csv"):
                    continue
                lines = v.decode().splitlines()
                head = [x.strip() for x in lines[0].split(",")]
                tc = [i for i, h in enumerate(head) if h in ("timestamp", "timestamp [s]", "epoch_timestamp")]
                pc = [i for i, h in enumerate(head) if h == "relative_path"]
                bad = [ln for ln in lines[1:] if tc and not (lo - 1e-6 <= float(ln.split(",")[tc[0]]) <= hi + 1e-6)]
                bad += [ln for ln in lines[1:] if pc and ln.split(",")[pc[0]] not in names_in]
                rec.check("inside", not bad, "%s holds %d rows of records outside the window" % (k, len(bad)), row=bad[:1])
            if len(kept) < len(recs):
                rec.seen(m, mode, case["rep"])
            rec.event("records inside the window", len(kept))
            rec.event("records outside the window", len(recs) - len(kept))
            rec.sample({"window": [start, end], "records": len(recs), "inside": len(kept), "mode": m})
