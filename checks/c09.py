"""C09 the files written by process and parse do not depend on the schedule of their writer threads or on repetition."""
import contextlib
import hashlib
import random
import sys
import threading
import time

import numpy as np
import yaml

from lib import dive as D
from lib import parsecase as P
from lib.engine import case_rng, quiet, scratch
from lib.navsim import Nav

PID = "C09"
RULE = ("random dives processed (dead reckoning, EKF, particle filter, laser, payload, USBL filter, SLAM++ output) and parsed under "
        "different schedules of the program's threads: each writer run to its end before the main thread goes on, each held back "
        "until it is joined, in either order, or delayed by random pauses and switch intervals; "
        "non-trivial: a (dive, schedule) pair with at least one writer thread under control")
REQUIRED = {"schedule-independent": 60, "parse-schedule": 10, "repeatable": 8, "over-existing": 8, "other-outputs": 8}
CASE_TIMEOUT = 150


def cases(rng, tier):
    n = 8 if tier == "quick" else 60
    out = [{"kind": "process", "rep": r, "mode": m} for r in range(n) for m in ("plain", "ekf", "pf", "laser", "spp", "plots")]
    out += [{"kind": "parse", "rep": r} for r in range(2 * n)]
    for i, c in enumerate(out):
        c["i"] = i
    return out


OWN = ("auv_nav", "oplab", "correct_images")


class Control:
    """Schedules the threads that run functions of the program."""

    def __init__(self, mode, seed=0):
        self.mode, self.rng, self.held, self.n = mode, random.Random(seed), [], 0

    def __enter__(self):
        self.T = threading.Thread
        self.orig = (self.T.start, self.T.join)
        ctl, (start, join) = self, self.orig

        def mine(t):
            f = getattr(t, "_target", None)
            return f is not None and str(getattr(f, "__module__", "")).split(".")[0] in OWN

        def new_start(t):
            if not mine(t):
                return start(t)
            ctl.n += 1
            if ctl.mode == "eager":
                start(t)
                join(t)
            elif ctl.mode in ("lazy", "lazy-reverse"):
                ctl.held.append(t)
            elif ctl.mode == "pauses":
                f = t._target

                def late(*a, **k):
                    time.sleep(ctl.rng.uniform(0, 0.05))
                    return f(*a, **k)

                t._target = late
                start(t)
                time.sleep(ctl.rng.choice([0, 0, 0.01]))
            else:
                start(t)

        def new_join(t, timeout=None):
            if t in ctl.held:
                ctl.release()
            return join(t, timeout)

        self.T.start, self.T.join = new_start, new_join
        return self

    def release(self):
        start, join = self.orig
        todo, self.held = self.held, []
        if self.mode == "lazy-reverse":
            todo = todo[::-1]
        for t in todo:
            start(t)
            if self.mode == "lazy-reverse":
                join(t)

    def __exit__(self, *a):
        self.release()
        self.T.start, self.T.join = self.orig
        for t in threading.enumerate():
            if t is not threading.current_thread() and not t.daemon:
                t.join(60)


def outputs(folder):
    out = {}
    for p in sorted(folder.rglob("*")):
        if p.is_file() and p.suffix in (".csv", ".json", ".txt") and "log" not in p.parent.parts[-1:]:
            out[str(p.relative_to(folder))] = p.read_bytes()
    return out


def diff(a, b):
    d = [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)]
    if not d:
        return "", None
    k = d[0]
    la, lb = a.get(k, b"<missing>").splitlines(), b.get(k, b"<missing>").splitlines()
    for n, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return "%d files differ, first %s line %d: %r / %r" % (len(d), k, n, x[:150], y[:150]), k
    return "%d files differ, first %s: %d / %d lines" % (len(d), k, len(la), len(lb)), k


def run_case(case, rec):
    rng = case_rng(case)
    old = sys.getswitchinterval()
    try:
        (process_case if case["kind"] == "process" else parse_case)(case, rec, rng)
    finally:
        sys.setswitchinterval(old)


def process_case(case, rec, rng):
    m = case["mode"]
    kw = dict(dur=20.0, usbl_dt=1.5, cams=2, turning=True)
    if m == "laser":
        kw.update(cams=3, laser=True)
    nav = Nav(rng, **kw)
    with scratch() as root:
        d = D.Dive(root)
        mission, vehicle = nav.mission(), nav.vehicle()
        vehicle["payloads"] = {"ctd": D.off(0.2, 0.1, -0.3)}
        mission["payloads"] = {"ctd": {"path": "ctd/ctd.csv", "format": "generic_csv", "timezone": 0, "timeoffset": 0.0}}
        (d.raw / "ctd").mkdir()
        (d.raw / "ctd/ctd.csv").write_text("corrected_timestamp,temp\n" + "".join(
            "%r,%d\n" % (float(t), i) for i, t in enumerate(np.sort(rng.uniform(nav.t0 + 3, nav.t1 - 3, 15)))))
        d.write_config(mission, vehicle)
        loc = D.localisation_dict(ekf=m in ("ekf", "laser", "spp"), pf=m == "pf", particles=10, usbl_filter=bool(rng.random() < 0.5),
                                  plots=m == "plots")
        if m == "spp":
            loc["spp_output"]["activate"] = True
        d.write_localisation(loc)
        ivel = [D.r_ivel(float(t), tuple(map(float, rng.normal(0, 0.3, 3)))) for t in np.linspace(nav.t0 + 0.05, nav.t1 - 0.05, 37)]
        d.write_nav(sorted(nav.records() + ivel, key=lambda r: r["epoch_timestamp"]))
        res, base, names = {}, None, []
        modes = ["eager", "lazy", "lazy-reverse", "pauses", "eager"]
        for n, mode in enumerate(modes):
            rec.case()
            with rec.guard("schedule-independent", "process with %s writers" % mode, mode=m):
                np.random.seed(7)
                random.seed(7)
                sys.setswitchinterval(float(rng.choice([1e-6, 1e-4, 5e-3])))
                for p in d.renav():
                    import shutil

                    shutil.rmtree(p)
                with Control(mode, case["i"]) as ctl:
                    out = d.process()
                got = outputs(out)
                rows = [len(D.read_csv(p)) for p in out.rglob("*velocity_inertial*.csv")]
                rec.check("schedule-independent", rows in ([], [len(ivel)]), "%d inertial velocities read, rows written by %s writers: %r" % (len(ivel), mode, rows))
                if ctl.n:
                    rec.seen(case["rep"], m, mode)
                rec.event("writer threads under control: " + mode, ctl.n)
                if base is None:
                    base = got
                    rec.check("schedule-independent", len(got) > 5, "only %d output files" % len(got))
                else:
                    msg, k = diff(base, got)
                    mon = "repeatable" if n == len(modes) - 1 else "schedule-independent"
                    rec.check(mon, not msg, "%s: eager writers against %s writers: %s" % (m, mode, msg), file=k, schedule=mode)
        with rec.guard("over-existing", "process again over its own results", mode=m):
            rec.case()
            np.random.seed(7)
            random.seed(7)
            got = outputs(d.process(force=True))
            msg, k = diff(base, got)
            rec.check("over-existing", not msg, "%s: first run against the same run over its results: %s" % (m, msg), file=k)
        others(d, rec, rng, m, base)
        rec.sample({"mode": m, "files": len(base or {}), "schedules": modes})


def others(d, rec, rng, m, base):
    """The tables that dead reckoning writes are the same whichever other outputs are asked for; so are those of each estimator."""
    import shutil

    for other in {"plain": ("ekf", "pf"), "ekf": ("off", "pf"), "pf": ("off", "ekf"), "laser": ("off",), "spp": ("noekf", "off"), "plots": ("off", "ekf")}[m]:
        for p in d.renav():
            shutil.rmtree(p)
        loc = yaml.safe_load((d.config / "auv_nav.yaml").read_text())
        loc["ekf"]["activate"] = other in ("ekf",) or (other == "pf" and m == "ekf")
        loc["particle_filter"]["activate"] = other == "pf"
        loc["spp_output"]["activate"] = other == "noekf"
        d.write_localisation(loc)
        rec.case()
        with rec.guard("other-outputs", "process %s with %s" % (m, other), mode=m):
            np.random.seed(7)
            random.seed(7)
            got = outputs(d.process())
            drop = lambda o: {k: v for k, v in o.items() if k.endswith(".csv") and "/ekf/" not in k and "/pf/" not in k}
            keep = lambda o, e: {k: v for k, v in o.items() if k.endswith(".csv") and "/%s/" % e in k}
            a, b = drop(base), drop(got)
            rec.event("tables compared with other outputs", len(b))
            both = set(a) & set(b)
            rec.check("other-outputs", len(both) > 4, "only %d tables in common: %r / %r" % (len(both), sorted(a)[:5], sorted(b)[:5]))
            msg, k = diff({k: a[k] for k in both}, {k: b[k] for k in both})
            rec.check("other-outputs", not msg, "%s against %s: %s" % (m, other, msg), file=k)
            a, b = keep(base, "ekf"), keep(got, "ekf")
            if a and b:
                msg, k = diff(a, b)
                rec.check("other-outputs", not msg, "%s against %s: EKF tables: %s" % (m, other, msg), file=k)


def parse_case(case, rec, rng):
    import auv_nav.parse as AP

    with scratch() as root:
        d = D.Dive(root)
        img = str(rng.choice(["acfr", "seaxerocks", "biocam", "ntnu"]))
        P.build(rng, d, nav=str(rng.choice(["phins", "ae2000", "alr", "autosub"])), usbl=str(rng.choice(["gaps", "nmea", "usbl_dump"])),
                img=img, tide=[None, "NOC_CTI", "NOC_polpred"][int(rng.integers(0, 3))], subset=False)
        base = None
        for rnd in range(3):
            rec.case()
            r = random.Random(case["i"] * 10 + rnd)
            saved = {}
            for n in [x for x in dir(AP) if x.startswith("parse_") and x not in ("parse_single", "parse_interlacer")]:
                f = getattr(AP, n)
                if callable(f) and rnd:
                    saved[n] = f

                    def slow(*a, _f=f, **k):
                        time.sleep(r.uniform(0, 0.08))
                        return _f(*a, **k)

                    setattr(AP, n, slow)
            try:
                with rec.guard("parse-schedule", "parse with delayed readers"):
                    sys.setswitchinterval(r.choice([1e-6, 1e-4, 5e-3]))
                    d.parse()
                    got = d.nav()
                    if base is None:
                        base = got
                    else:
                        rec.seen("parse", case["rep"], rnd)
                        rec.check("parse-schedule", got == base, "records differ with the order the logs are read in (%s)" % img)
            finally:
                for n, f in saved.items():
                    setattr(AP, n, f)
