"""C10 parsing a dive keeps every reading exactly once, in time order, origin first; merging dives keeps them all; tides."""
import itertools
import os
import sys
import time

import numpy as np

from lib import dive as D
from lib import parsecase as P
from lib import rawdive as R
from lib.engine import case_rng, quiet, scratch

PID = "C10"
RULE = ("dives of one to four instruments plus cameras and tide table in every format, with random subsets of the categories, "
        "sensors that start and end at different times, several log files per instrument, parsed under random thread switch "
        "intervals, twice, after other dives in the same process, and merged two to four at a time in any order; "
        "non-trivial: at least two categories of records")
REQUIRED = {"conservation": 60, "chronological": 60, "origin-first": 120, "tide-depth": 300, "tide-range": 20, "repeatable": 15,
            "merge-conservation": 12, "merge-files": 12, "history-free": 8}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 6 if tier == "quick" else 60
    out = []
    for r in range(n):
        for nav, usbl, img in itertools.product(("phins", "ae2000", "alr", "autosub"), ("gaps", "usbl_dump", "nmea", None),
                                                ("acfr", "seaxerocks")):
            out.append({"kind": "dive", "nav": nav, "usbl": usbl, "img": img, "rep": r, "tide": None})
        for nav, usbl in itertools.product(("phins", "ae2000", "autosub", None), ("sonardyne",)):
            out.append({"kind": "dive", "nav": nav, "usbl": usbl, "img": "voyis", "rep": r, "tide": None})
        for nav, img in itertools.product(("phins", "autosub", None), ("biocam", "ntnu", "voyis", None)):
            if nav or img:
                out.append({"kind": "dive", "nav": nav, "usbl": None, "img": img, "rep": r, "tide": None})
        for x in ("koyo", "ntnu_dvl", "eiva"):
            out.append({"kind": "dive", "nav": None, "extra": x, "usbl": None, "img": None, "rep": r, "tide": None})
        for fmt in ("NOC_polpred", "NOC_CTI"):
            for nav, usbl in (("phins", "gaps"), ("ae2000", "usbl_dump"), ("autosub", "nmea"), ("alr", "gaps"), ("phins", None),
                              ("phins", "sonardyne")):
                out.append({"kind": "dive", "nav": nav, "usbl": usbl, "img": None, "rep": r, "tide": fmt})
        for k in range(8):
            out.append({"kind": "merge", "rep": r * 8 + k})
        for k in range(6):
            out.append({"kind": "history", "rep": r * 6 + k})
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    os.environ["TZ"] = "UTC0"
    time.tzset()
    old = sys.getswitchinterval()
    try:
        {"dive": dive_case, "merge": merge_case, "history": history_case}[case["kind"]](case, rec, case_rng(case))
    finally:
        sys.setswitchinterval(old)


def dive_case(case, rec, rng):
    with scratch() as tmp:
        dive = D.Dive(tmp)
        b = P.build(rng, dive, nav=case["nav"], extra=case.get("extra"), usbl=case["usbl"], img=case["img"], tide=case["tide"],
                    n=int(rng.integers(2, 40)), depth_gaps=bool(case["usbl"] == "gaps" and rng.random() < 0.4))
        rec.case(len(b.exp))
        if len({x["cat"] for x in b.exp}) > 1:
            rec.seen(case["nav"], case["usbl"], case["img"], case["tide"], case["rep"], len(b.exp))
        with rec.guard("conservation", "parse"):
            sys.setswitchinterval(float(rng.choice([1e-6, 1e-4, 5e-3])))
            dive.parse()
            recs = dive.nav()
            P.order(rec, recs, b)
            pairs = P.compare_ids(rec, "conservation", b.exp, [r for r in recs if r["category"] != "origin"])
            for x, o in pairs:
                if case["tide"] and x["cat"] in ("depth", "usbl") and "depth" in x["v"]:
                    f = R.flat(o)
                    mon = "tide-depth" if x.get("tide") else "tide-range"
                    rec.check(mon, abs(f["depth"] - x["v"]["depth"]) < 1e-6 * (1 + abs(f["depth"])),
                              "%s %s at %.3f: depth %.4f, expected %.4f (%s the tide table, measured %s)"
                              % (x["fmt"], x["cat"], x["t"], f["depth"], x["v"]["depth"], "within" if x.get("tide") else "outside",
                                 x.get("raw_depth")), tide=case["tide"])
                for c, (name, t) in x.get("files", {}).items():
                    got = R.rec_files(o).get(c)
                    rec.check("image-file", got is not None and got[0].endswith(name), "%s %s: %s, expected %s" % (x["fmt"], c, got, name))
            if case["i"] % 3 == 0:
                sys.setswitchinterval(1e-5)
                dive.parse()
                rec.check("repeatable", dive.nav() == recs, "parsing the same dive again gave other records")
            rec.event("records", len(recs))
        rec.sample({"records": len(b.exp), "nav": case["nav"], "usbl": case["usbl"], "img": case["img"], "tide": case["tide"]})


def merge_case(case, rec, rng):
    from auv_nav.parse import parse

    k = int(rng.integers(2, 5))
    origin = P.rorigin(rng)
    img = str(rng.choice(["seaxerocks", "biocam", "ntnu"]))
    with scratch() as tmp:
        dives, exps = [], []
        day = R.rday(rng)
        for j in range(k):
            h = float(rng.uniform(0.5, 22)) if rng.random() < 0.5 else 10.0  # dives may also overlap in time
            name = "%s_%02d%02d%02d_dive%d" % (day.strftime("%Y%m%d"), int(h), j, 10 + j, j)
            d = D.Dive(tmp, name=name)
            b = P.build(rng, d, nav=str(rng.choice(["phins", "ae2000", "autosub"])), usbl=str(rng.choice(["usbl_dump", "nmea"])),
                        img=img, origin=origin, day=day, h0=h, n=int(rng.integers(3, 15)))
            dives.append(d)
            exps.append(b)
        order = list(range(k))
        rng.shuffle(order)
        rec.case(sum(len(b.exp) for b in exps))
        rec.seen("merge", case["rep"], k, img)
        with rec.guard("merge-conservation", "merge of %d dives" % k, img=img):
            with quiet():
                parse([str(dives[j].raw) for j in order], True, True)
            out = [p for p in dives[0].processed.parent.iterdir() if p.name.endswith("_merged")]
            rec.check("merge-conservation", len(out) == 1, "merged folders: %s" % [p.name for p in out])
            import json

            recs = json.loads((out[0] / "nav" / "nav_standard.json").read_text())
            P.order(rec, recs, exps[0], mon="merge-chronological")
            want = [x for b in exps for x in b.exp]
            pairs = P.compare_ids(rec, "merge-conservation", want, [r for r in recs if r["category"] != "origin"])
            # every image is there under the name of its dive
            files = sorted(n for r in recs for n, _ in R.rec_files(r).values())
            names = []
            for d, b in zip(dives, exps):
                single = [r for r in d.nav() if r["category"] != "origin"]
                P.compare_ids(rec, "merge-keeps-dives", b.exp, single)
                names += ["%s/%s" % (d.processed.name, n) for r in single for n, _ in R.rec_files(r).values()]
            rec.check("merge-files", files == sorted(names), "file names of the merged dive: %s, expected %s" % (files[:2], sorted(names)[:2]))
            rec.event("merged image files", len(files))
            for f in ("mission.yaml", "vehicle.yaml", "camera.yaml"):
                rec.check("merge-config", (out[0] / f).exists() and (out[0] / f).read_text() == (dives[order[0]].raw / f).read_text(),
                          "%s of the merged dive" % f)


def history_case(case, rec, rng):
    """What was parsed before in the same process does not show in a dive."""
    img = str(rng.choice(["acfr", "seaxerocks", "biocam", "ntnu", "voyis"]))
    nav = str(rng.choice(["phins", "ae2000", "alr", "autosub"]))
    with scratch() as tmp:
        ds = []
        for j in range(3):
            d = D.Dive(tmp, name="20200101_00000%d_d" % j)
            b = P.build(rng, d, nav=nav, usbl=str(rng.choice(["gaps", "usbl_dump", "nmea", "sonardyne"])), img=img, n=int(rng.integers(3, 15)))
            ds.append((d, b))
        rec.seen("history", case["rep"], img, nav)
        for d, b in ds:
            rec.case(len(b.exp))
            with rec.guard("history-free", "parse of a dive after others", img=img, nav=nav):
                d.parse()
                P.compare_ids(rec, "history-free", b.exp, [r for r in d.nav() if r["category"] != "origin"], img=img, nav=nav)
