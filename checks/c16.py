"""C16 mission.yaml and vehicle.yaml mean what they say, whatever subset of entries they hold."""
import os
from pathlib import Path

import numpy as np
import yaml

from lib.engine import case_rng, quiet, scratch

PID = "C16"
RULE = ("mission.yaml and vehicle.yaml files with generated subsets of sensors, cameras, payloads, frames, time zones and the two legacy layouts are read by Mission and Vehicle, copied and written; the oracle is the generated content; "
        "every pair of default files of the repository is read too; non-trivial: distinct (sensors, cameras, frame naming, layout) combinations")
REQUIRED = {"entry": 400, "zone": 100, "camera": 60, "frame": 100, "payload": 20, "copy": 20, "written": 20, "refused": 30, "legacy": 16, "default": 5}
CASE_TIMEOUT = 60
BUDGET = {"quick": 240, "thorough": 1200}
SENSORS = ("velocity", "orientation", "depth", "altitude", "usbl", "tide", "dead_reckoning")
FRAME = {"velocity": "dvl", "orientation": "ins", "depth": "depth", "altitude": "dvl", "usbl": "usbl"}


def cases(rng, tier):
    n = 300 if tier == "quick" else 600
    out = [{"kind": "default"}]
    for j in range(n):
        out += [{"kind": k, "n": j} for k in ("pair", "build", "refuse", "legacy")]
    return out


def run_case(case, rec):
    with scratch() as root:
        globals()["t_" + case["kind"]](rec, case_rng(case), case, root)


def zone(rng):
    """(what is written, hours)"""
    return [("utc", 0), ("UTC", 0), ("jst", 9), ("JST", 9), ("cet", 1), ("CET", 1), (-3, -3), (5.5, 5.5), ("-3.5", -3.5), ("10", 10), (None, 0), (0, 0)][int(rng.integers(12))]


def timed(rng, d):
    z, h = zone(rng)
    if z is not None:
        d["timezone"] = z
    off = float(np.round(rng.uniform(-50, 50), 3)) if rng.random() < 0.6 else None
    if off is not None:
        d["timeoffset"] = off
    return h, off or 0.0


def pos(rng):
    p = {k: float(np.round(v, 3)) for k, v in zip(("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg"), rng.uniform(-5, 5, 6))}
    for k in p:
        if rng.random() < 0.15:
            p[k] = [0, 0.0, 2][int(rng.integers(3))]
    return p


def word(rng):
    return "".join(rng.choice(list("abcdefgh"), 5)) + str(int(rng.integers(100)))


def make(rng, own=True, cams=None, payloads=None):
    """content of a mission and of a vehicle file, and what they mean"""
    m = {"version": 1, "origin": {"latitude": float(rng.uniform(-80, 80)), "longitude": float(rng.uniform(-180, 180)), "coordinate_reference_system": "wgs84", "date": "2020/0%d/1%d" % (rng.integers(1, 9), rng.integers(9))}}
    frames = {}
    exp = {"frame": {}, "zone": {}}
    v = {"origin": pos(rng)}
    for s in SENSORS:
        if rng.random() < 0.25:
            continue
        e = {"format": word(rng)}
        exp["zone"][s] = timed(rng, e)
        for k, f in (("filepath", word), ("filename", word), ("std_factor", lambda r: float(r.uniform(0, 1))), ("std_offset", lambda r: float(r.uniform(0, 1))), ("topic", word)):
            if rng.random() < 0.6:
                e[k] = f(rng)
        if s == "usbl":
            k = rng.integers(4)
            for q in ((), ("label",), ("id",), ("label", "id"))[k]:
                e[q] = int(rng.integers(1, 20))
            for q in ("apply_depth_filter", "apply_north_east_filter"):
                if rng.random() < 0.5:
                    e[q] = bool(rng.random() < 0.5)
            if rng.random() < 0.5:
                e["field_id"] = int(rng.integers(1, 9))
        if s in FRAME:
            if own and rng.random() < 0.4:
                e["origin"] = s + "_" + word(rng)
            exp["frame"][s] = e.get("origin", FRAME[s])
        m[s] = e
    for s in FRAME:
        # frames that nothing in the mission needs may be there too
        if s in exp["frame"]:
            v.setdefault(exp["frame"][s], pos(rng))
        if rng.random() < 0.5:
            v.setdefault(FRAME[s], pos(rng))
    n = int(rng.integers(0, 4)) if cams is None else cams
    exp["cams"] = []
    if n:
        im = {"format": word(rng), "cameras": []}
        exp["zone"]["image"] = timed(rng, im)
        for i in range(n):
            c = {"name": "cam_%d_%s" % (i, word(rng)), "path": word(rng)}
            if own and rng.random() < 0.4:
                c["origin"] = "mount_%d_%s" % (i, word(rng))
            if rng.random() < 0.5:
                c["records_laser"] = bool(rng.random() < 0.5)
            t = rng.integers(3)
            if t:
                c[("timeoffset", "timeoffset_s")[t - 1]] = float(np.round(rng.uniform(-9, 9), 3))
            if rng.random() < 0.4:
                c["topic"] = "/" + word(rng)
            im["cameras"].append(c)
            f = c.get("origin", c["name"])
            v[f] = pos(rng)
            if rng.random() < 0.3:
                v.setdefault(c["name"], pos(rng))
            exp["cams"].append((c, f))
        m["image"] = im
    k = int(rng.integers(0, 4)) if payloads is None else payloads
    if k:
        m["payloads"], v["payloads"] = {}, {}
        for _ in range(k):
            nm = "pay_" + word(rng)
            e = {"path": word(rng), "format": word(rng)}
            exp["zone"][nm] = timed(rng, e)
            if rng.random() < 0.5:
                e["columns"] = [{"name": "epoch_timestamp", "column": int(rng.integers(9))}, {"name": word(rng), "column": int(rng.integers(9))}]
            m["payloads"][nm] = e
            v["payloads"][nm] = pos(rng)
        if rng.random() < 0.4:
            v["payloads"]["unused"] = pos(rng)
    return m, v, exp


def save(root, m, v, name="dive"):
    d = Path(root) / name
    d.mkdir(parents=True)
    (d / "mission.yaml").write_text(yaml.safe_dump(m))
    (d / "vehicle.yaml").write_text(yaml.safe_dump(v))
    return d


def match(rec, mon, mi, m, exp, what):
    """the Mission mi holds the content m"""
    o = m["origin"]
    rec.check(mon, (mi.origin.latitude, mi.origin.longitude, mi.origin.crs, mi.origin.date) == (o["latitude"], o["longitude"], o["coordinate_reference_system"], o["date"]), "%s: the origin is not that of the file" % what)
    for s in SENSORS:
        x = getattr(mi, s)
        if s not in m:
            rec.check(mon, x.empty(), "%s: a mission without %s has one" % (what, s))
            continue
        e = m[s]
        rec.check(mon, not x.empty(), "%s: %s of the mission is lost" % (what, s))
        want = {"format": e["format"], "filepath": e.get("filepath", ""), "filename": e.get("filename", ""), "std_factor": e.get("std_factor", 0.0), "std_offset": e.get("std_offset", 0.0), "topic": e.get("topic"),
                "label": e.get("label", e.get("id", 0)), "field_id": e.get("field_id", 0), "apply_depth_filter": e.get("apply_depth_filter", True), "apply_north_east_filter": e.get("apply_north_east_filter", True)}
        if s in FRAME:
            want["origin"] = exp["frame"][s]
        got = {k: getattr(x, k, "nothing") for k in want}
        rec.check(mon, got == want, "%s: %s reads differently from the file" % (what, s), differences={k: [got[k], want[k]] for k in want if got[k] != want[k]})
    things = [(s, getattr(mi, s)) for s in SENSORS if s in m] + ([("image", mi.image)] if "image" in m else []) + [(p, mi.payloads.get(p)) for p in m.get("payloads", {})]
    for s, x in things:
        h, off = exp["zone"][s]
        ok = x is not None and float(x.timezone) == h and x.timeoffset_s == off and abs(x.timezone_s - 3600 * h) < 1e-9 and abs(x.offset_s - 3600 * h - off) < 1e-9
        rec.check("zone" if mon == "entry" else mon, ok, "%s: time zone %s h and offset %s s of %s are not those of the file" % (what, h, off, s))
    cams = [(c.name, c.path, c.origin, c.records_laser, c.timeoffset_s, c.topic) for c in mi.image.cameras]
    want = [(c["name"], c["path"], f, c.get("records_laser", False), c.get("timeoffset_s", c.get("timeoffset", 0.0)), c.get("topic")) for c, f in exp["cams"]]
    rec.check("camera" if mon == "entry" else mon, cams == want and mi.image.empty() == (not want), "%s: the cameras are not those of the file" % what, got=cams, want=want)
    if want:
        rec.check(mon, mi.image.format == m["image"]["format"], "%s: image format differs" % what)
    pay = {k: (p.path, p.format, p.columns) for k, p in mi.payloads.items()}
    rec.check("payload" if mon == "entry" else mon, pay == {k: (e["path"], e["format"], e.get("columns")) for k, e in m.get("payloads", {}).items()}, "%s: the payloads are not those of the file" % what, got=pay)


def at(o):
    return {k: getattr(o, a) for k, a in zip(("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg"), ("surge", "sway", "heave", "roll", "pitch", "yaw"))}


def mounted(rec, ve, v, exp, what):
    zero = {k: 0.0 for k in pos(np.random.default_rng(0))}
    rec.check("frame", at(ve.origin) == v["origin"], "%s: the origin of the vehicle is wrong" % what)
    for s, name in (("velocity", "dvl"), ("orientation", "ins"), ("depth", "depth"), ("usbl", "usbl")):
        f = exp["frame"].get(s, name)
        rec.check("frame", at(getattr(ve, name)) == v.get(f, zero), "%s: %s is mounted at frame %s, its position is taken from elsewhere" % (what, s, f), got=at(getattr(ve, name)), want=v.get(f, zero))
    for i in range(3):
        x = getattr(ve, "camera%d" % (i + 1))
        if i < len(exp["cams"]):
            rec.check("frame", at(x) == v[exp["cams"][i][1]], "%s: camera %d is not where its frame is" % (what, i + 1), got=at(x), want=v[exp["cams"][i][1]])
        else:
            rec.check("frame", x.empty() and at(x) == zero, "%s: a camera that does not exist has a position" % what)
    rec.check("payload", {k: at(p) for k, p in ve.payloads.items()} == v.get("payloads", {}), "%s: payload positions differ" % what)


def t_pair(rec, rng, case, root):
    from oplab import Mission, Vehicle

    m, v, exp = make(rng)
    d = save(root, m, v)
    rec.case()
    rec.seen("pair", sorted(exp["frame"].items(), key=str)[:2] and sorted(s for s in SENSORS if s in m), len(exp["cams"]), len(m.get("payloads", {})))
    with rec.guard("entry", "reading mission.yaml and vehicle.yaml", mission=m, vehicle=v):
        before = [(d / f).read_bytes() for f in ("mission.yaml", "vehicle.yaml")]
        with quiet():
            mi, ve = Mission(d / "mission.yaml"), Vehicle(d / "vehicle.yaml")
        match(rec, "entry", mi, m, exp, "read")
        mounted(rec, ve, v, exp, "read")
        out = Path(root) / "deep" / "copy"
        if rng.random() < 0.5:
            # those of an earlier run are there
            out.mkdir(parents=True)
            for f in ("mission.yaml", "vehicle.yaml"):
                (out / f).write_text("old: 1\nmetadata:\n    date: 1\n")
        with quiet():
            mi.write(out / "mission.yaml")
            ve.write(out / "vehicle.yaml")
        for f, src in (("mission.yaml", m), ("vehicle.yaml", v)):
            y = yaml.safe_load((out / f).read_text())
            meta = y.pop("metadata", {})
            rec.check("copy", y == src and {"username", "date", "hostname"} <= set(meta), "the copy of %s is not the file plus metadata" % f)
        with quiet():
            m2, v2 = Mission(out / "mission.yaml"), Vehicle(out / "vehicle.yaml")
        match(rec, "copy", m2, m, exp, "copy")
        mounted(rec, v2, v, exp, "copy")
        rec.check("copy", before == [(d / f).read_bytes() for f in ("mission.yaml", "vehicle.yaml")], "reading or copying changed the files")


def t_build(rec, rng, case, root):
    """a mission put together in a program, written and read back"""
    from oplab import Mission
    from oplab.mission import CameraEntry, PayloadEntry

    m, v, exp = make(rng)
    rec.case()
    rec.seen("build", sorted(s for s in SENSORS if s in m), len(exp["cams"]), len(m.get("payloads", {})))
    with rec.guard("written", "writing a mission made in a program", mission=m):
        with quiet():
            mi = Mission()
            mi.origin.load(m["origin"])
            for s in SENSORS:
                if s in m:
                    getattr(mi, s).load(m[s])
            if "image" in m:
                mi.image.load(m["image"])
            for k, e in m.get("payloads", {}).items():
                mi.payloads[k] = PayloadEntry()
                mi.payloads[k].load(e)
            d = Path(root) / "new"
            mi.write(d / "mission.yaml")
        (d / "vehicle.yaml").write_text(yaml.safe_dump(v))
        with quiet():
            back = Mission(d / "mission.yaml")
        match(rec, "written", back, m, exp, "written")


def t_refuse(rec, rng, case, root):
    """files that contradict each other stop the program"""
    from oplab import Mission, Vehicle

    kinds = ("sensor", "camera", "payload", "payload-frame", "nopayloads", "zone", "novehicle", "nomission")
    kind = kinds[case["n"] % len(kinds)]
    m, v, exp = make(rng, cams=1 + case["n"] // 8 % 4, payloads=1 + case["n"] // 8 % 2)
    if kind == "sensor":
        s = list(FRAME)[int(rng.integers(5))]
        m.setdefault(s, {"format": "x"})["origin"] = "nowhere"
    elif kind == "camera":
        c, f = exp["cams"][int(rng.integers(len(exp["cams"])))]
        del v[f]
        if "origin" in c:
            v[c["name"]] = pos(rng)
    elif kind == "payload":
        m["payloads"]["extra"] = {"path": "a", "format": "b"}
    elif kind == "payload-frame":
        # a frame of that name exists, though not among the payloads
        m["payloads"]["extra"] = {"path": "a", "format": "b"}
        v["extra"] = pos(rng)
    elif kind == "nopayloads":
        del v["payloads"]
    elif kind == "zone":
        m.setdefault("tide", {"format": "x"})["timezone"] = str(rng.choice(["gmt+1", "local", "5h"]))
    d = save(root, m, v)
    if kind == "novehicle":
        os.unlink(d / "vehicle.yaml")
    if kind == "nomission":
        os.unlink(d / "mission.yaml")
    rec.case()
    rec.seen("refuse", kind, len(exp["cams"]))
    for cls, f in ((Mission, "mission.yaml"), (Vehicle, "vehicle.yaml")):
        try:
            with quiet():
                cls(d / f)
            how = "is accepted"
        except SystemExit:
            how = ""
        except Exception as e:
            how = "ends in %s: %s" % (type(e).__name__, e)
        rec.check("refused", not how, "a mission and a vehicle file with a fault (%s), read as %s, %s" % (kind, f, how), mission=m, vehicle=v)


def t_legacy(rec, rng, case, root):
    from oplab import Mission, Vehicle

    fmt = ("seaxerocks_3", "acfr_standard")[case["n"] % 2]
    m, v, exp = make(rng, own=False, cams=0, payloads=0)
    if case["n"] % 4 < 2:
        del m["version"]
    else:
        m["version"] = 0
    for s in ("velocity", "orientation"):
        m.setdefault(s, {"format": "phins", "filepath": "nav/", "filename": "f"})
        exp["frame"][s] = FRAME[s]
        exp["zone"].setdefault(s, (0, 0.0))
        v.setdefault(FRAME[s], pos(rng))
    head = {}
    for s in ("velocity", "orientation"):
        if rng.random() < 0.6:
            m[s]["headingoffset"] = head[s] = float(np.round(rng.uniform(-90, 90), 2))
    im = {"format": fmt, "filepath": "image/", "camera1": "xviii/", "camera2": "yviii/", "camera3": "lm/"}
    exp["zone"]["image"] = timed(rng, im)
    m["image"] = im
    for i in range(3 if fmt == "seaxerocks_3" else 2):
        v["camera%d" % (i + 1)] = pos(rng)
    old = case["n"] % 3 == 0
    want = dict(v)
    if old:
        v = {k: {"x_offset": p["surge_m"], "y_offset": p["sway_m"], "z_offset": p["heave_m"]} for k, p in v.items()}
        for k, p in want.items():
            want[k] = dict(p, roll_deg=0.0, pitch_deg=0.0, yaw_deg=0.0)
        for s, f in (("velocity", "dvl"), ("orientation", "ins")):
            want[f] = dict(want[f], yaw_deg=head.get(s, 0.0))
    d = save(root, m, v)
    rec.case()
    rec.seen("legacy", fmt, old, sorted(head))
    with rec.guard("legacy", "reading files of the old layout", mission=m, vehicle=v):
        with quiet():
            mi, ve = Mission(d / "mission.yaml"), Vehicle(d / "vehicle.yaml")
        cams = [(c.name, c.origin, c.path) for c in mi.image.cameras]
        exp_c = [("fore", "camera1", "image/xviii/"), ("aft", "camera2", "image/yviii/"), ("laser", "camera3", "image/lm/")] if fmt == "seaxerocks_3" else [("xviii/", "camera1", "image/"), ("yviii/", "camera2", "image/")]
        rec.check("legacy", cams == exp_c and all(c.timeoffset_s == 0 for c in mi.image.cameras), "cameras of the old layout are %s" % cams)
        h, off = exp["zone"]["image"]
        rec.check("legacy", float(mi.image.timezone) == h and mi.image.timeoffset_s == off, "time zone of the images is not that of the file")
        exp["cams"] = [({}, o) for _, o, _ in exp_c]
        mounted(rec, ve, want, exp, "old layout")


def frame_of(p):
    if "x_offset" in p:
        return {"surge_m": p["x_offset"], "sway_m": p["y_offset"], "heave_m": p["z_offset"], "roll_deg": 0.0, "pitch_deg": 0.0, "yaw_deg": 0.0}
    return {k: p[k] for k in ("surge_m", "sway_m", "heave_m", "roll_deg", "pitch_deg", "yaw_deg")}


def t_default(rec, rng, case, root):
    """the examples that come with the program can be read"""
    import oplab
    from oplab import Mission, Vehicle

    src = Path(oplab.__file__).resolve().parent.parent
    for f in sorted(src.glob("*/default_yaml/**/mission.yaml")):
        if not (f.parent / "vehicle.yaml").exists():
            continue
        rec.case()
        name = str(f.parent.relative_to(src))
        rec.seen("default", name)
        with rec.guard("default", "reading the example %s" % name):
            raw, veh = yaml.safe_load(f.read_text()), yaml.safe_load((f.parent / "vehicle.yaml").read_text())
            with quiet():
                mi, ve = Mission(f), Vehicle(f.parent / "vehicle.yaml")
            rec.check("default", mi.origin.latitude == raw["origin"]["latitude"] and all(getattr(mi, s).empty() == (s not in raw) for s in SENSORS), "%s: the sensors read are not those of the file" % name)
            cams = raw.get("image", {}).get("cameras", []) if raw.get("version", 0) >= 1 else []
            for i, c in enumerate(cams[:3]):
                rec.check("default", at(getattr(ve, "camera%d" % (i + 1))) == frame_of(veh[c.get("origin", c["name"])]), "%s: camera %d is not at its frame" % (name, i + 1))
