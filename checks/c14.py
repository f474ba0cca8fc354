"""C14 nothing is overwritten without -F; raw data and existing configuration are never written."""
import os
import sys
import time

import numpy as np

from lib import dive as D
from lib import imgdive as I
from lib import parsecase as P
from lib import watch as W
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C14"
RULE = ("command histories (parse, process, convert, correct_images; with and without -F; several dives, windows, methods and suffixes; results edited or partly removed "
        "in between) with an audit hook recording every write and content snapshots of all folders; non-trivial: a command met results of an earlier one")
REQUIRED = {"kept": 60, "raw-untouched": 60, "config-untouched": 60, "first-run": 25, "regenerated": 15, "refused": 30, "others-untouched": 20}
CASE_TIMEOUT = 240
LOGS = ("log",)


def cases(rng, tier):
    n = 1 if tier == "quick" else 8
    out = []
    for r in range(n):
        out += [{"kind": "nav", "rep": r, "v": v} for v in range(12)]
        out += [{"kind": "multi", "rep": r, "v": v} for v in range(4)]
        out += [{"kind": "window", "rep": r, "v": v} for v in range(8)]
        out += [{"kind": "acfr", "rep": r, "v": v} for v in range(6)]
        out += [{"kind": "hybis", "rep": r, "v": v} for v in range(3)]
        out += [{"kind": "images", "rep": r, "v": v} for v in range(8)]
    for i, c in enumerate(out):
        c["i"] = i
    return out


class Session:
    """runs commands on one tree of folders and watches what they touch"""

    def __init__(self, rec, root, wit):
        self.rec, self.root, self.wit = rec, root, wit

    def raw(self):
        return W.snapshot(self.root / "raw")

    def cfg(self):
        return W.snapshot(self.root / "configuration")

    def out(self):
        return W.snapshot(self.root / "processed", skip=LOGS)

    def run(self, what, f, *a, **k):
        """-> (exit code or None, difference of the results)"""
        raw, cfg, out = self.raw(), self.cfg(), self.out()
        code = None
        with W.writes() as log:
            try:
                with quiet():
                    f(*a, **k)
            except SystemExit as e:
                code = e.code if e.code is not None else 0
        rec = self.rec
        rec.event("writes observed", len(log))
        rawdir = str((self.root / "raw").resolve()) + os.sep
        bad = [x for x in log if x[1].startswith(rawdir)]
        # re-creating a folder that exists (mkdir exist_ok) changes nothing
        bad = [x for x in bad if not (x[0] == "os.mkdir" and x[1] in raw)]
        d = W.diff(raw, self.raw())
        rec.check("raw-untouched", not bad and not any(d.values()), "%s writes to the raw data" % what, writes=bad[:5], changes=d, **self.wit)
        d = W.diff(cfg, self.cfg())
        rec.check("config-untouched", not d["changed"] and not d["removed"], "%s changed existing configuration" % what, changes=d, **self.wit)
        return code, W.diff(out, self.out())


def tamper(rng, snap, only=None, keep_all=True):
    """edit some results, so that a rewritten file shows"""
    files = sorted(k for k, v in snap.items() if v != "dir" and (only is None or only(k)))
    n = max(1, len(files) // 2)
    for k in rng.choice(len(files), min(n, len(files)), replace=False):
        with open(files[int(k)], "ab") as f:
            f.write(b"\n# edited by the user\n")


def nav_main(*argv):
    from auv_nav.auv_nav import main

    old = sys.argv
    sys.argv = ["auv_nav"] + [str(a) for a in argv]
    try:
        main([str(a) for a in argv])
    finally:
        sys.argv = old


def same(a, b, root, name):
    """results equal file by file (html pages carry generated ids)"""
    x = {k: v for k, v in a.items() if not k.endswith(".html")}
    y = {k: v for k, v in b.items() if not k.endswith(".html")}
    return W.diff(x, y)


def run_case(case, rec):
    os.environ["TZ"] = "UTC0"
    time.tzset()
    rng = case_rng(case)
    with scratch() as td:
        wit = {"kind": case["kind"], "variant": case["v"], "case": case["i"]}
        s = Session(rec, td, wit)
        # somebody else's results beside
        other = td / "processed" / "2018" / "auv" / "20170101_000000_other" / "nav"
        other.mkdir(parents=True)
        (other / "nav_standard.json").write_text("[]")
        (other.parent / "notes.txt").write_text("mine")
        before = W.snapshot(other.parent)
        {"nav": nav, "multi": multi, "window": window, "acfr": acfr, "hybis": hybis, "images": images}[case["kind"]](case, rec, rng, td, s)
        d = W.diff(before, W.snapshot(other.parent))
        rec.check("others-untouched", not any(d.values()), "results of another dive were touched", changes=d, **wit)
        rec.case()
        rec.seen(case["kind"], case["v"], case["rep"])


def nothing(d):
    return not d["changed"] and not d["removed"]


def strict(d):
    return not any(d.values())


def nav(case, rec, rng, td, s):
    """parse and process of one dive, repeated"""
    wit = s.wit
    dive = D.Dive(td)
    P.build(rng, dive, nav=str(rng.choice(["phins", "ae2000", "autosub"])), usbl="usbl_dump", img=str(rng.choice(["acfr", "seaxerocks"])), subset=False, n=25, tz=False)
    target = dive.raw if case["v"] % 2 else dive.processed
    if case["v"] % 3 == 0:
        dive.processed.mkdir(parents=True)
        if case["v"] % 2 == 0:
            (dive.processed / "log").mkdir()
            (dive.processed / "log" / "20180101_000000_auv_nav_parse.log").write_text("x")
    else:
        dive.processed.mkdir(parents=True)
        (dive.processed / "image").mkdir()
        (dive.processed / "image" / "thumb.txt").write_text("kept")
    nv = dive.processed / "nav" / "nav_standard.json"
    with rec.guard("first-run", "parse of a new dive", **wit):
        code, d = s.run("parse", nav_main, "parse", target)
        rec.check("first-run", code in (None, 0) and nv.exists() and nothing(d), "a dive without results is not parsed", code=code, changes=d, **wit)
        if not nv.exists():
            return
        first = s.out()
        # again, after the results were edited or partly removed
        tamper(rng, W.snapshot(dive.processed / "nav"))
        if case["v"] % 4 == 3:
            for k in list((dive.processed / "nav").glob("*.html"))[: int(rng.integers(0, 2))]:
                k.unlink()
        code, d = s.run("parse again", nav_main, "parse", target)
        rec.check("kept", strict(d), "parse without -F changed existing results", changes=d, **wit)
        code, d = s.run("parse -F", nav_main, "parse", "-F", target)
        d = same(first, s.out(), td, "")
        rec.check("regenerated", code in (None, 0) and nothing(d) and not d["added"], "parse -F does not give the results of the first parse", changes=d, **wit)
        # process
        dive.write_localisation(D.localisation_dict(ekf=case["v"] % 2 == 0, plots=False))
        code, d = s.run("process", nav_main, "process", target)
        rec.check("first-run", code in (None, 0) and bool(dive.renav()) and nothing(d), "a parsed dive is not processed", code=code, changes=d, **wit)
        if not dive.renav():
            return
        ren = dive.renav()[0]
        first = W.snapshot(ren)
        tamper(rng, W.snapshot(ren))
        if case["v"] % 4 == 1:  # all that is left of the earlier run is one table, or the folder
            files = [k for k, v in W.snapshot(ren).items() if v != "dir"]
            for k in files[1:] if case["v"] % 8 == 1 else files:
                os.unlink(k)
        code, d = s.run("process again", nav_main, "process", target)
        rec.check("kept", strict(d), "process without -F changed existing results", changes=d, **wit)
        rec.check("refused", code not in (None, 0), "process met existing results and did not refuse", code=code, **wit)
        code, d = s.run("process -F", nav_main, "process", "-F", target)
        d = same(first, W.snapshot(ren), td, "")
        rec.check("regenerated", code in (None, 0) and nothing(d), "process -F does not give the results of the first process", changes=d, **wit)
        rec.sample({"kind": "nav", "files": len(first)})


def multi(case, rec, rng, td, s):
    """several dives in one parse: only those without results are parsed"""
    wit = s.wit
    day = None
    dives, origin = [], P.rorigin(rng)
    for k in range(3):
        dive = D.Dive(td, name="201806%02d_08%02d00_sim" % (10 + k, k))
        P.build(rng, dive, nav="phins", usbl="usbl_dump", img="acfr", subset=False, n=12, tz=False, origin=origin, day=day)
        dive.processed.mkdir(parents=True)
        dives.append(dive)
    which = int(rng.integers(0, 3))
    with rec.guard("first-run", "parse of several dives", **wit):
        s.run("parse", nav_main, "parse", dives[which].raw)
        first = W.snapshot(dives[which].processed, skip=LOGS)
        tamper(rng, W.snapshot(dives[which].processed / "nav"), only=lambda k: k.endswith("html") or case["v"] % 2)
        edited = W.snapshot(dives[which].processed, skip=LOGS)
        code, d = s.run("parse of three dives", nav_main, "parse", *[x.raw for x in dives])
        now = W.snapshot(dives[which].processed, skip=LOGS)
        rec.check("kept", strict(W.diff(edited, now)), "parse of several dives without -F changed the results of one", changes=W.diff(edited, now), **wit)
        rec.check("first-run", all((x.processed / "nav" / "nav_standard.json").exists() for x in dives), "a dive without results was skipped beside one with results",
                  code=code, **wit)
        snaps = s.out()
        code, d = s.run("parse -F of two dives", nav_main, "parse", "-F", dives[which].raw, dives[(which + 1) % 3].raw)
        now = W.snapshot(dives[which].processed, skip=LOGS)
        dd = same(first, now, td, "")
        rec.check("regenerated", nothing(dd), "parse -F of several dives does not give the first results", changes=dd, **wit)
        third = str(dives[(which + 2) % 3].processed)
        rec.check("others-untouched", not [k for v in d.values() for k in v if k.startswith(third)], "parse -F touched a dive it was not given", changes=d, **wit)


def window(case, rec, rng, td, s):
    """results of one time span are kept when another is processed"""
    from datetime import datetime, timezone

    wit = s.wit
    dive = D.Dive(td)
    v = Nav(rng, dur=60.0, cams=2, turning=True)
    dive.write_config(v.mission(), v.vehicle())
    dive.write_nav(v.records())
    dive.write_localisation(D.localisation_dict(ekf=case["v"] % 2 == 0, pf=False))

    def stamp(t):
        return datetime.fromtimestamp(int(t), timezone.utc).strftime("%Y%m%d%H%M%S")
    A = ["-s", stamp(v.t0 + 5), "-e", stamp(v.t0 + 40)] if case["v"] % 3 else []
    B = ["-s", stamp(v.t0 + 12), "-e", stamp(v.t0 + 40)]
    with rec.guard("first-run", "process of time spans", **wit):
        navfile = W.snapshot(dive.processed / "nav")
        code, d = s.run("process A", nav_main, "process", *A, dive.raw)
        rec.check("first-run", code in (None, 0) and len(dive.renav()) == 1, "the first time span is not processed", code=code, **wit)
        a = dive.renav()[0]
        fa = W.snapshot(a)
        tamper(rng, fa)
        ea = W.snapshot(a)
        force = ["-F"] if case["v"] % 4 == 2 else []
        code, d = s.run("process B", nav_main, "process", *force, *B, dive.raw)
        rec.check("first-run", code in (None, 0) and len(dive.renav()) == 2, "a second time span is not processed beside the first", code=code, **wit)
        rec.check("kept", strict(W.diff(ea, W.snapshot(a))), "processing another time span changed the results of the first", changes=W.diff(ea, W.snapshot(a)), **wit)
        code, d = s.run("process A again", nav_main, "process", *A, dive.raw)
        rec.check("kept", strict(d), "process without -F changed existing results", changes=d, **wit)
        rec.check("refused", code not in (None, 0), "process met existing results of that time span and did not refuse", code=code, **wit)
        b = [x for x in dive.renav() if x != a]
        eb = W.snapshot(*b)
        code, d = s.run("process -F A", nav_main, "process", "-F", *A, dive.raw)
        rec.check("regenerated", nothing(same(fa, W.snapshot(a), td, "")), "process -F does not give the first results", changes=same(fa, W.snapshot(a), td, ""), **wit)
        rec.check("others-untouched", strict(W.diff(eb, W.snapshot(*b))), "process -F of one time span changed another", changes=W.diff(eb, W.snapshot(*b)), **wit)
        rec.check("kept", strict(W.diff(navfile, W.snapshot(dive.processed / "nav"))), "process changed the parsed data", **wit)


def acfr(case, rec, rng, td, s):
    wit = s.wit
    dive = D.Dive(td)
    v = Nav(rng, dur=25.0, cams=3, laser=True, turning=True)
    dive.write_config(v.mission(), v.vehicle())
    dive.write_nav(v.records())
    dive.write_localisation(D.localisation_dict(ekf=True))
    with rec.guard("first-run", "conversion", **wit):
        s.run("process", nav_main, "process", dive.raw)
        nav_out = W.snapshot(dive.processed, skip=LOGS)
        out = td / "processed" / "acfr" / "x"
        code, d = s.run("to acfr", nav_main, "convert", "oplab_to_acfr", dive.processed, out)
        vf, sf = out / "vehicle_pose_est.data", out / "stereo_pose_est.data"
        rec.check("first-run", code in (None, 0) and vf.exists() and sf.exists() and nothing(d), "conversion to ACFR writes no files", code=code, **wit)
        first = W.snapshot(out)
        tamper(rng, first, only=lambda k: k.endswith(".data"))
        gone = (None, vf, sf)[case["v"] % 3]
        if gone:
            gone.unlink()
        code, d = s.run("to acfr again", nav_main, "convert", "oplab_to_acfr", dive.processed, out)
        rec.check("kept", strict(d), "conversion to ACFR without -F changed existing files", changes=d, **wit)
        rec.check("refused", code not in (None, 0), "conversion met existing files and did not refuse", code=code, **wit)
        code, d = s.run("to acfr -F", nav_main, "convert", "oplab_to_acfr", "-F", dive.processed, out)
        rec.check("regenerated", nothing(W.diff(first, W.snapshot(out))), "conversion -F does not give the first files", changes=W.diff(first, W.snapshot(out)), **wit)
        back = td / "processed" / "back"
        back.mkdir()
        a = ["convert", "acfr_to_oplab", "--vehicle-pose", vf, "--stereo-pose", sf, "--dive-folder", dive.processed]

        def conv(*extra):
            from auv_nav.convert import acfr_to_oplab
            from types import SimpleNamespace as NS
            acfr_to_oplab(NS(output_folder=str(back), vehicle_pose=str(vf) if "v" in extra else None, stereo_pose=str(sf) if "s" in extra else None,
                             dive_folder=str(dive.processed) if "s" in extra else None, force="F" in extra))
        code, d = s.run("from acfr", conv, "v", "s")
        rec.check("first-run", code in (None, 0) and len(list(back.glob("*.csv"))) == 4, "conversion from ACFR writes no tables", code=code,
                  files=[p.name for p in back.iterdir()], **wit)
        first = W.snapshot(back)
        names = ["auv_acfr_centre.csv", "auv_acfr_LC.csv", "auv_acfr_RC.csv", "auv_acfr_laser.csv"]
        for k in names:
            with (back / k).open("a") as f:
                f.write("# edited\n")
        kept = names[case["v"] % 4]
        for k in names:
            if k != kept and case["v"] >= 2:
                (back / k).unlink()
        edited = W.snapshot(back)
        code, d = s.run("from acfr again", conv, "v", "s")
        rec.check("kept", nothing(W.diff(edited, W.snapshot(back))), "conversion from ACFR without -F changed existing tables", changes=W.diff(edited, W.snapshot(back)), **wit)
        rec.check("refused", code not in (None, 0), "conversion met an existing table and did not refuse", code=code, kept=kept, **wit)
        code, d = s.run("from acfr -F", conv, "v", "s", "F")
        rec.check("regenerated", nothing(W.diff(first, W.snapshot(back))), "conversion -F does not give the first tables", changes=W.diff(first, W.snapshot(back)), **wit)
        rec.check("others-untouched", strict(W.diff(nav_out, W.snapshot(dive.processed, skip=LOGS))), "conversion changed the navigation results", **wit)


def hybis_files(rng, raw):
    (raw / "image").mkdir(parents=True)
    T = int(D.EPOCH0)
    L = ["Date ,Time,Roll,Pitch,Heading,Pressure,Altitude,Hybis Long,Hybis Lat"]
    for k in range(12):
        g = time.gmtime(T + 3 * k)
        L.append(",".join([time.strftime("%d/%m/%Y", g), time.strftime("%H:%M:%S", g), "1.0", "2.0", "30.0", "%.1f" % rng.uniform(500, 600), "3.0",
                           "00130.%05dW" % rng.integers(0, 99999), "5030.%05dN" % rng.integers(0, 99999)]))
    (raw / "hybis.csv").write_text("\n".join(L) + "\n")
    for k in range(5):
        f = raw / "image" / ("IMG_%04d.jpg" % k)
        f.write_bytes(b"x")
        os.utime(f, (T + 2.5 + 5 * k, T + 2.5 + 5 * k))
    return {"log": raw / "hybis.csv", "images": raw / "image", "lat": "50.5", "lon": "-1.5"}


def hybis(case, rec, rng, td, s):
    wit = s.wit
    src = hybis_files(rng, td / "raw" / "2018" / "auv" / "h")
    out = td / "processed" / "2018" / "auv" / "h"
    out.mkdir(parents=True)
    args = ["convert", "hybis_to_oplab", "-i", src["log"], "-d", src["images"], "-o", out, "--reference-lat", src["lat"], "--reference-lon", src["lon"]]
    with rec.guard("first-run", "HyBIS conversion", **wit):
        code, d = s.run("hybis", nav_main, *args)
        csvs = list(out.rglob("*.csv"))
        rec.check("first-run", code in (None, 0) and len(csvs) == 1, "HyBIS conversion writes no table", code=code, **wit)
        first = W.snapshot(out)
        tamper(rng, first)
        code, d = s.run("hybis again", nav_main, *args)
        rec.check("kept", strict(d), "HyBIS conversion without -F changed existing results", changes=d, **wit)
        rec.check("refused", code not in (None, 0), "HyBIS conversion met existing results and did not refuse", code=code, **wit)
        code, d = s.run("hybis -F", nav_main, *args, "-F")
        rec.check("regenerated", nothing(W.diff(first, W.snapshot(out))), "HyBIS conversion -F does not give the first table", changes=W.diff(first, W.snapshot(out)), **wit)


def images(case, rec, rng, td, s):
    """correct_images parse and process"""
    wit = s.wit
    v = case["v"]
    cams = [I.Cam("CAM1", "grayscale", 10, 10), I.Cam("CAM2", "rggb" if v % 2 else "rgb", 10, 10)]
    d = I.ImgDive(td, rng, cams, n=6)
    manual = v % 4 == 3
    metric = "uniform"
    suffix = ("", "b")[v % 2]
    k = dict(method="manual_balance" if manual else "colour_correction", metric=metric, brightness=30, contrast=int(rng.integers(2, 9)))
    d.config(suffix=suffix, **k)
    raw = d.dive.raw
    sfx = ["--suffix", suffix] if suffix else []
    mm = td / "mm"
    with rec.guard("first-run", "correct_images", **wit):
        base = d.dive.processed / "image"
        navs = W.snapshot(*d.dive.renav())
        code, x = s.run("correct_images parse", I.run, "parse", *sfx, raw, memmap=mm)
        if not manual:
            rec.check("first-run", code in (None, 0) and all(list((base / c.name).rglob("*.npy")) for c in cams), "correction parameters are not computed", code=code, **wit)
            first = W.snapshot(base)
            tamper(rng, first, only=lambda f: f.endswith(".npy"))
            keep = W.snapshot(base)
            if v % 3 == 2:  # one parameter file left
                files = [f for f, h in keep.items() if f.endswith(".npy")]
                for f in files[:-1]:
                    if "/%s/" % cams[0].name in f and len([g for g in files if "/%s/" % cams[0].name in g and os.path.exists(g)]) > 1:
                        os.unlink(f)
            code, x = s.run("correct_images parse again", I.run, "parse", *sfx, raw, memmap=mm)
            rec.check("kept", strict(x), "correct_images parse without -F changed existing parameters", changes=x, **wit)
            rec.check("refused", code not in (None, 0), "correct_images parse met existing parameters and did not refuse", code=code, **wit)
            code, x = s.run("correct_images parse -F", I.run, "parse", "-F", *sfx, raw, memmap=mm)
            rec.check("regenerated", nothing(W.diff(first, W.snapshot(base))), "correct_images parse -F does not give the first parameters",
                      changes=W.diff(first, W.snapshot(base)), **wit)
        code, x = s.run("correct_images process", I.run, "process", *sfx, raw)
        n = len([p for p in base.rglob("*.png") if "corrected_" in str(p.parent)])
        rec.check("first-run", code in (None, 0) and n == 12 and nothing(x), "images are not corrected: %d of 12" % n, code=code, changes=x, **wit)
        first = W.snapshot(base)
        tamper(rng, first, only=lambda f: "corrected_" in f)
        folders = sorted({p.parent for p in base.rglob("*.png") if "corrected_" in str(p.parent)})
        if v % 3 == 1:  # one file left in each folder
            for f in folders:
                ps = sorted(p for p in f.iterdir())
                for p in ps[1:]:
                    p.unlink()
        code, x = s.run("correct_images process again", I.run, "process", *sfx, raw)
        rec.check("kept", strict(x), "correct_images process without -F changed existing images", changes=x, **wit)
        rec.check("refused", code not in (None, 0), "correct_images process met existing images and did not refuse", code=code, **wit)
        # another configuration goes beside
        before = W.snapshot(base)
        k2 = dict(k, contrast=k["contrast"] + 1) if not manual else dict(k, gains=((2, 0, 0), (0, 1, 0), (0, 0, 1)))
        d.config(suffix=suffix, **k2)
        code, x = s.run("correct_images process, other settings", I.run, "process", *sfx, raw)
        n2 = len([p for p in base.rglob("*.png") if "corrected_" in str(p.parent)])
        y = W.diff(before, W.snapshot(base))
        rec.check("kept", nothing(y), "images of other settings were changed", changes=y, **wit)
        rec.check("first-run", code in (None, 0) and bool(y["added"]), "images are not corrected with other settings beside the first", code=code, **wit)
        d.config(suffix=suffix, **k)
        code, x = s.run("correct_images process -F", I.run, "process", "-F", *sfx, raw)
        rec.check("regenerated", nothing(W.diff(first, W.snapshot(base))), "correct_images process -F does not give the first images", changes=W.diff(first, W.snapshot(base)), **wit)
        rec.check("others-untouched", strict(W.diff(navs, W.snapshot(*d.dive.renav()))), "correct_images changed the navigation", **wit)
