"""C12 values of the parsed records: what the instrument reported, with the configured uncertainty; damaged packets rejected."""
import os
import time

from lib import dive as D
from lib import parsecase as P
from lib.engine import case_rng, scratch

PID = "C12"
RULE = ("generated raw logs (PHINS, ae2000, ALR, Autosub, GAPS, USBL dump, NOC NMEA) with random values on both sides of zero, "
        "the equator and the meridian, with and without damaged packets (bit errors, truncation, wrong checksum, wrong beacon, "
        "invalid clock fields, invalid flags), parsed by the real parser and compared reading by reading; "
        "non-trivial: a log with at least one reading")
REQUIRED = {"value": 2000, "std": 1500, "value-local": 100, "value-ship": 60, "only-valid-packets": 60, "std-nonneg": 3000}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 8 if tier == "quick" else 80
    out = []
    for r in range(n):
        for nav in ("phins", "ae2000", "alr", "autosub"):
            for bad in (0.0, 0.08):
                for usbl in ("gaps", "usbl_dump", "nmea", "sonardyne"):
                    for k in range(2):
                        out.append({"kind": "dive", "nav": nav, "bad": bad, "usbl": usbl, "rep": r * 2 + k})
        for x in ("koyo", "ntnu_dvl", "eiva"):
            for bad in (0.0, 0.15):
                for k in range(3):
                    out.append({"kind": "dive", "nav": None, "extra": x, "bad": bad, "usbl": None, "rep": r * 3 + k, "yaw": k == 2})
        for nav in ("phins", "ae2000", "alr"):
            for k in range(4):
                out.append({"kind": "dive", "nav": nav, "bad": 0.0, "usbl": None, "rep": r * 4 + k, "yaw": True})
        for k in range(12):
            out.append({"kind": "dive", "nav": "phins", "bad": 0.25, "usbl": "gaps", "rep": r * 12 + k, "depth_gaps": k % 3 == 0})
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    os.environ["TZ"] = "UTC0"
    time.tzset()
    with scratch() as tmp:
        dive = D.Dive(tmp)
        yaw = float(rng.choice([90.0, 180.0, -45.0, rng.uniform(-180, 180)])) if case.get("yaw") else 0.0
        iyaw = float(rng.uniform(-90, 90)) if case.get("yaw") and case["nav"] == "ae2000" else 0.0
        b = P.build(rng, dive, nav=case["nav"], extra=case.get("extra"), dvl_yaw=yaw, ins_yaw=iyaw, usbl=case["usbl"], bad=case["bad"], tz=bool(case["i"] % 2), n=30,
                    depth_gaps=case.get("depth_gaps", False))
        if not b.exp:
            return
        rec.case(len(b.exp))
        rec.seen(case.get('extra'), case["nav"], case["usbl"], case["bad"], case["rep"], len(b.exp))
        with rec.guard("only-valid-packets", "parse of %s + %s" % (case["nav"] or case["extra"], case["usbl"])):
            dive.parse()
            recs = [r for r in dive.nav() if r["category"] != "origin"]
            pairs = P.compare_ids(rec, "only-valid-packets", b.exp, recs)
            P.compare_values(rec, "value", pairs)
            P.compare_std(rec, "std", pairs)
        rec.event("readings", len(b.exp))
        rec.sample({"nav": case["nav"], "usbl": case["usbl"], "readings": len(b.exp), "bad": case["bad"]})
