"""C15 dataset folders, image lists and image times resolve exactly."""
import datetime
import os
import time
from pathlib import Path

import numpy as np
import yaml

from lib import watch as W
from lib.engine import case_rng, quiet, scratch

PID = "C15"
RULE = ("generated dataset trees (depths, names resembling the keywords, files and folders, relative and absolute paths), image folders in every supported layout, file "
        "names in every time format of the default camera files, timestamp tables, and machine time zones; non-trivial: distinct layouts, formats and zones")
REQUIRED = {"mapping": 400, "outside": 40, "file-list": 25, "copy": 25, "remove": 25, "file-time": 1500, "bad-name": 100, "image-list": 60, "image-times": 40, "camera-file": 40}
KEYS = ["raw", "processed", "configuration"]
NEAR = ["raw_data", "processed2", "configurations", "rawdata", "Raw", "my-raw", "dive", "2018", "ts1", "SSK17-01", "as_processed", "a b", "nav", "image", "d.raw"]


def cases(rng, tier):
    n = 200 if tier == "quick" else 600
    out = [{"kind": k} for _ in range(n) for k in ("paths", "files", "times", "images", "images", "cameras")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    globals()[case["kind"]](rec, rng)


def word(rng):
    return str(rng.choice(NEAR))


def quits(f, *a):
    try:
        with quiet():
            return False, f(*a)
    except SystemExit as e:
        return True, e.code


def paths(rec, rng):
    from oplab import get_config_folder, get_processed_folder, get_raw_folder
    from oplab import folder_structure as F

    get = {"raw": get_raw_folder, "processed": get_processed_folder, "configuration": get_config_folder}
    with scratch() as root:
        root = Path(os.path.realpath(root))
        top = root
        for it in range(12):
            rec.case()
            root = top / ("t%d" % it)
            root.mkdir()
            pre = [word(rng) for _ in range(rng.integers(0, 4))]
            post = [word(rng) for _ in range(rng.integers(0, 6))]
            src = str(rng.choice(KEYS))
            if rng.random() < 0.25:
                post.insert(int(rng.integers(0, len(post) + 1)), src)  # a folder further down with the same name is not the dataset's
            p = root.joinpath(*pre, src, *post)
            state = int(rng.integers(0, 3))
            if state == 1:
                p.mkdir(parents=True, exist_ok=True)
            elif state == 2:
                if not p.exists() and not any(q.is_file() for q in p.parents):
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_text("x")
            tree = W.snapshot(root)
            got = {}
            for dst in KEYS:
                want = root.joinpath(*pre, dst, *post)
                arg = [p, str(p), p.parent / "zz" / ".." / p.name][int(rng.integers(0, 3))]
                with rec.guard("mapping", "folder of " + str(p)):
                    g = got[dst] = get[dst](arg)
                    rec.check("mapping", isinstance(g, Path) and g == want, "%s folder of %s is %s, expected %s" % (dst, p, g, want), state=state)
                    if src not in post:
                        rec.check("mapping", get[src](g) == p, "%s folder of %s is not %s" % (src, g, p))
            rec.check("mapping", W.snapshot(root) == tree, "asking for a folder changed files")
            with rec.guard("mapping", "folder lists"):
                two = [p, p.parent / "other"] if post else [p]
                rec.check("mapping", F.get_raw_folders(two) == [get_raw_folder(x) for x in two], "list of raw folders")
                rec.check("mapping", F.get_processed_folders(two) == [get_processed_folder(x) for x in two], "list of processed folders")
                rec.check("mapping", F.get_raw_folders(p) == get_raw_folder(p) and F.get_processed_folders(p) == get_processed_folder(p), "single folder given to the list form")
            rec.seen("map", src, len(pre), len(post), state)
        root = top
        # relative paths
        (root / "raw" / "rel" / "dive").mkdir(parents=True, exist_ok=True)
        old = os.getcwd()
        try:
            os.chdir(root / "raw" / "rel")
            with rec.guard("mapping", "relative path"):
                g = get_processed_folder("dive")
                rec.check("mapping", g == root / "processed" / "rel" / "dive", "relative path gives %s" % g)
        finally:
            os.chdir(old)
        for _ in range(6):
            q = root.joinpath("out", *[word(rng) for _ in range(rng.integers(0, 3))])
            if rng.random() < 0.5 and not any(x.is_file() for x in q.parents):
                q.mkdir(parents=True, exist_ok=True)
            for dst in KEYS:
                with rec.guard("outside", "path outside"):
                    s, v = quits(get[dst], q)
                    rec.check("outside", s and v not in (0, None), "%s folder of %s, outside any dataset, is %r" % (dst, q, v))
        with rec.guard("mapping", "checks"):
            a, b = root / "ex1", root / "ex2"
            a.mkdir()
            b.mkdir()
            rec.check("mapping", F.check_dirs_exist([a, b]) is True and F.check_dirs_exist(a) is True, "existing folders reported missing")
            rec.check("mapping", F.check_dirs_exist([a, root / "no", b]) is False and F.check_dirs_exist([root / "no", a]) is False and F.check_dirs_exist([a, root / "no"]) is False
                      and F.check_dirs_exist(root / "no") is False, "missing folder reported existing")
            rec.check("mapping", not F.valid_dive(a), "folder without nav_standard.json taken for a dive")
            (a / "nav").mkdir()
            (a / "nav" / "nav_standard.json").write_text("[]")
            rec.check("mapping", F.valid_dive(a), "dive not recognised")


def grow(rng, d, depth=0):
    n = []
    for k in range(rng.integers(0 if depth else 1, 5)):
        p = d / ("f%d.%s" % (k, rng.choice(["txt", "raw", "", "csv"])))
        p.write_bytes(bytes(rng.integers(0, 256, int(rng.integers(0, 40))).astype(np.uint8)))
        n.append(p)
    if depth < 4:
        for k in range(rng.integers(0, 3)):
            q = d / ("%sd%d" % ("." if k == 1 else "", k))
            q.mkdir()
            n += grow(rng, q, depth + 1)
    return n


def files(rec, rng):
    from oplab import folder_structure as F
    from oplab import get_file_list

    with scratch() as root:
        root = Path(os.path.realpath(root))
        for k in range(3):
            rec.case()
            base, keep = root / ("a%d" % k), root / ("keep%d" % k)
            base.mkdir()
            keep.mkdir()
            want = grow(rng, base)
            grow(rng, keep)
            with rec.guard("file-list", "list of files"):
                got = get_file_list([base, str(base)][k % 2])
                rec.check("file-list", sorted(map(str, got)) == sorted(map(str, want)), "%d files listed, %d exist" % (len(got), len(want)))
            with rec.guard("copy", "copy"):
                src = want[int(rng.integers(0, len(want)))]
                dst = [root / ("c%d" % k) / "x" / "y.txt", root / "c.txt"][int(rng.integers(0, 2))]
                before = src.read_bytes()
                src.copy(dst)
                rec.check("copy", dst.read_bytes() == before and src.read_bytes() == before, "copy differs from the original")
            with rec.guard("remove", "remove folder"):
                links = int(rng.integers(0, 3))
                if links:
                    (base / "zlink").symlink_to(keep)
                if links == 2:
                    inner = base / "in"
                    inner.mkdir()
                    (inner / "flink").symlink_to(root / "c.txt")
                snap = W.snapshot(root, skip=(base.name,))
                F.remove_directory(base)
                rec.check("remove", not base.exists(), "folder still there")
                rec.check("remove", W.snapshot(root, skip=(base.name,)) == snap, "files outside the removed folder changed (links in it: %d)" % links)
                rec.seen("rm", links, len(want))


FORMATS = ["xxxYYYYMMDDxhhmmssxfffxxxxx.xxx", "YYYYMMDDxhhmmssxfffuuuxxxxxxxxxxxxxxxxxxxxxxxxxxxx.xxx", "xxxxxxxxxxxxxxxxxxxYYYYxMMxDDxhhmmssxfffuuuxx.xxx", "YYYYMMDDhhmmss.xxx",
           "DDxMMxYYYYxhhxmmxss.xxx", "xxYYYYMMDD_hhmmss_fffuuu.xxx", "hhmmssxYYYYMMDDxfff.xxx", "uuufffssmmhhDDMMYYYY.xxx"]
ZONES = ["UTC", "Asia/Tokyo", "America/St_Johns", "Europe/London", "Pacific/Auckland"]


class zone:
    def __init__(self, z):
        self.z = z

    def __enter__(self):
        self.old = os.environ.get("TZ")
        os.environ["TZ"] = self.z
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = self.old
        time.tzset()


def moment(rng, fmt):
    edge = rng.random()
    if edge < 0.3:
        y, mo, d, h, mi, s = rng.choice([[2016, 2, 29, 23, 59, 59], [2017, 12, 31, 23, 59, 59], [2018, 1, 1, 0, 0, 0], [2018, 3, 25, 1, 30, 0], [2018, 10, 28, 1, 30, 9], [2020, 2, 29, 0, 0, 1]])
    else:
        y, mo, d, h, mi, s = (rng.integers(2000, 2038), rng.integers(1, 13), rng.integers(1, 29), rng.integers(0, 24), rng.integers(0, 60), rng.integers(0, 60))
    us = int(rng.choice([0, 1000, 999000, 7000, 70000, 700000, 5, 50, 500, 999999, 123456, int(rng.integers(0, 10**6))]))
    if "f" not in fmt.split(".")[0]:
        us = 0
    elif "u" not in fmt:
        us = us // 1000 * 1000
    return datetime.datetime(int(y), int(mo), int(d), int(h), int(mi), int(s), us, tzinfo=datetime.timezone.utc)


def fill(rng, fmt, t):
    digits = {"Y": "%04d" % t.year, "M": "%02d" % t.month, "D": "%02d" % t.day, "h": "%02d" % t.hour, "m": "%02d" % t.minute, "s": "%02d" % t.second,
              "f": "%03d" % (t.microsecond // 1000), "u": "%03d" % (t.microsecond % 1000)}
    pos = {k: 0 for k in digits}
    out = ""
    for c in fmt:
        if c in digits and pos[c] < len(digits[c]):
            out += digits[c][pos[c]]
            pos[c] += 1
        elif c == "x":
            out += str(rng.choice(list("A0_9-RLC")))
        else:
            out += c
    return out


def epoch(t):
    return (t - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) / datetime.timedelta(microseconds=1) / 1e6


def times(rec, rng):
    from oplab import FilenameToDate

    with zone(str(rng.choice(ZONES))):
        for fmt in FORMATS:
            conv = FilenameToDate(fmt)
            for _ in range(22):
                rec.case()
                t = moment(rng, fmt)
                body = fmt.split(".")[0]
                name = fill(rng, body, t) + "." + str(rng.choice(["tif", "raw", "jpeg"]))
                if rng.random() < 0.4:
                    name = "/some/raw/20110203_040506_789/" + name
                with rec.guard("file-time", name, fmt=fmt):
                    got = conv(name)
                    rec.check("file-time", abs(got - epoch(t)) < 2e-6, "%s with format %s is %r, expected %r" % (name, fmt, got, epoch(t)))
                    rec.seen(fmt, t.microsecond % 1000 > 0, t.month)
            bad = fill(rng, fmt.split(".")[0], moment(rng, fmt))
            k = [i for i, c in enumerate(fmt.split(".")[0]) if c in "YMDhms"]
            s = list(bad)
            s[int(rng.choice(k))] = "Q"
            for b in ("".join(s) + ".tif", bad[: int(rng.integers(min(k), max(k)))] + ".tif"):
                try:
                    with quiet():
                        v = conv(b)
                except (AssertionError, ValueError, SystemExit):
                    rec.check("bad-name", True)
                else:
                    if b == "".join(s) + ".tif":
                        rec.check("bad-name", False, "%s with format %s gives the time %r" % (b, fmt, v))
        conv = FilenameToDate("xxxxxeeeeeeeeeeeeeeeeeeee.xxx")
        for _ in range(10):
            v = round(float(rng.uniform(9.5e8, 2e9)), int(rng.choice([0, 3, 6])))
            name = "image%s.png" % (("%.6f" % v)[:20])
            with rec.guard("file-time", name):
                rec.check("file-time", abs(conv(name) - v) < 1e-6, "%s gives %r" % (name, conv(name)))
        with scratch() as root:
            raw = Path(os.path.realpath(root)) / "raw" / "dive"
            raw.mkdir(parents=True)
            p = raw / "x.jpg"
            p.write_text("")
            m = float(rng.integers(10**9, 2 * 10**9)) + 0.25 * int(rng.integers(4))
            os.utime(p, (m - 500, m))
            with rec.guard("file-time", "modification time"):
                rec.check("file-time", FilenameToDate("m")(p) == m, "modification time %r gives %r" % (m, FilenameToDate("m")(p)))


def table(rng, folder, n, extra=False):
    """timestamp file in the SeaXerocks layout -> {index: epoch}"""
    rows, want = [], {}
    for i in rng.permutation(n) if rng.random() < 0.5 else range(n):
        t = moment(rng, "fff.")
        want[int(i) + 1] = epoch(t)
        rows.append("%07d,%s,%s,%03d%s" % (i + 1, t.strftime("%Y%m%d"), t.strftime("%H%M%S"), t.microsecond // 1000, ",7" if extra else ""))
    (folder / "FileTime.csv").write_text("index,date,time,ms\n" + "\n".join(rows) + "\n")
    return want


COLUMNS = [{"name": "index", "content": "iiiiiii"}, {"name": "date", "content": "YYYYMMDD"}, {"name": "time", "content": "hhmmss"}, {"name": "ms", "content": "fff"}]


def images(rec, rng):
    from oplab import CameraSystem

    with scratch() as root:
        raw = Path(os.path.realpath(root)) / "raw" / "2018" / "dive"
        ext = str(rng.choice(["tif", "raw", "png", "jpg"]))
        other = "txt"
        layouts = ["plain", "one", "one-deep", "two", "three", "prefix"]
        ask = [raw, Path(str(raw).replace("/raw/", "/processed/"))][int(rng.integers(0, 2))]
        cams, want, times_ = [], {}, {}
        for layout in rng.permutation(layouts)[:4]:
            layout = str(layout)
            name = "cam_" + layout
            fmt = str(rng.choice(FORMATS[:3]))
            base = raw / "image" / layout
            n = int(rng.integers(1, 9))
            body = fmt.split(".")[0]
            stamps = [moment(rng, fmt) for _ in range(n)]
            names = ["%s" % fill(rng, body, t) for t in stamps]
            timestamp = {}
            if layout == "plain":
                d, path = base, "image/plain"
                d.mkdir(parents=True)
                (d / "sub").mkdir()
                (d / "sub" / ("no." + ext)).write_text("")
            elif layout == "one":
                d, path = base / "SeaXerocksData20180102" / "Xviii" / "CamA", "image/one/SeaXerocksData*/Xviii/CamA"
                d.mkdir(parents=True)
                (d.parent / "CamB").mkdir()
                (d.parent / "CamB" / ("no." + ext)).write_text("")
            elif layout == "one-deep":
                d, path = base / "run7" / "LM" / "a" / "b", "image/one-deep/run*/LM"
                d.mkdir(parents=True)
            elif layout == "two":
                d, path = base / "x1", "image/two/*/*L"
                d.mkdir(parents=True)
                names = [m + "L" for m in names]
                (d / ("noR." + ext)).write_text("")
                (d / ("noL_thumbnail." + ext)).write_text("")
            elif layout == "three":
                d, path = base / "i2018", "image/three/i*/*LC*"
                d.mkdir(parents=True)
                names = [m.replace("L", "A").replace("R", "A") + "_LC16" for m in names]
                (d / ("no_RC16." + ext)).write_text("")
            else:
                d, path = base, "image/prefix/sot_image_"
                d.mkdir(parents=True)
                fmt = "xxxxxxxxxx" + fmt
                names = ["sot_image_" + m for m in names]
                (d / ("other." + ext)).write_text("")
            tab = None
            if layout in ("plain", "one", "one-deep") and rng.random() < 0.6:
                tab = table(rng, d if layout != "one" else d.parent, n, extra=bool(rng.random() < 0.3))
                names = ["%07d" % (i + 1) for i in range(n)]
                timestamp = {"timestamp_file": {"plain": "image/plain/FileTime.csv", "one": "image/one/SeaXerocksData*/Xviii/FileTime.csv", "one-deep": "image/one-deep/run*/LM/a/b/FileTime.csv"}[layout], "columns": COLUMNS}
                fmt = "iiiiiii.xxx"
            home = {m: d for m in names}
            if layout == "one-deep":
                (d / "c").mkdir()
                home = {m: [d, d / "c", d.parent][int(rng.integers(3))] for m in names}
            for m in names:
                (home[m] / (m + "." + ext)).write_text("")
                (home[m] / (m + "." + other)).write_text("")
            want[name] = sorted(str(home[m] / (m + "." + ext)) for m in set(names))
            by = {str(home[m] / (m + "." + ext)): (tab[i + 1] if tab else epoch(stamps[i])) for i, m in enumerate(names)}
            times_[name] = [by[x] for x in want[name]]
            cams.append(dict({"name": name, "type": "grayscale", "bit_depth": 8, "path": path, "extension": ext, "filename_to_date": fmt}, **timestamp))
        # an empty camera
        (raw / "image" / "none").mkdir(parents=True, exist_ok=True)
        cams.append({"name": "none", "type": "rgb", "bit_depth": 8, "path": "image/none", "extension": ext, "filename_to_date": FORMATS[0]})
        want["none"], times_["none"] = [], []
        # times from the files themselves
        (raw / "image" / "mod").mkdir()
        mods = {}
        for k in range(int(rng.integers(1, 4))):
            q = raw / "image" / "mod" / ("s%d.%s" % (k, ext))
            if rng.random() < 0.3:
                # the images are kept elsewhere
                (raw / "store").mkdir(exist_ok=True)
                (raw / "store" / q.name).write_text("")
                q.symlink_to(raw / "store" / q.name)
            else:
                q.write_text("")
            mods[str(q)] = float(rng.integers(10**9, 2 * 10**9)) + 0.25 * int(rng.integers(4))
            os.utime(q, (mods[str(q)] + 77, mods[str(q)]))
        cams.append({"name": "mod", "type": "rgb", "bit_depth": 8, "path": "image/mod", "extension": ext, "filename_to_date": "m"})
        want["mod"] = sorted(mods)
        times_["mod"] = [mods[x] for x in want["mod"]]
        f = raw / "camera.yaml"
        f.write_text(yaml.safe_dump({"camera_system": "sim", "cameras": cams}))
        with zone(str(rng.choice(ZONES))), quiet():
            with rec.guard("image-list", "camera system", path=str(f)):
                cs = CameraSystem([f, str(f)][int(rng.integers(0, 2))], ask)
                for c, node in zip(cs.cameras, cams):
                    rec.case()
                    with rec.guard("image-list", "images of " + node["name"]):
                        got = [str(x) for x in c.image_list]
                        rec.check("image-list", got == want[c.name], "%s: %d images %s, expected %d" % (node["path"], len(got), got[:2], len(want[c.name])))
                        rec.check("image-list", [str(x) for x in c.image_list] == got, "second call differs")
                        rec.seen("img", node["path"], ext, node["filename_to_date"])
                    with rec.guard("image-times", "times of " + node["name"]):
                        st = list(c.stamp_list)
                        rec.check("image-times", len(st) == len(times_[c.name]) and np.allclose(np.array(st, float), times_[c.name], atol=2e-6, rtol=0), "%s: times %r, expected %r" % (node["path"], st[:3], times_[c.name][:3]))


def cameras(rec, rng):
    from oplab import CameraSystem

    types = ["grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"]
    with scratch() as root:
        raw = Path(os.path.realpath(root)) / "raw" / "dive"
        raw.mkdir(parents=True)
        f = raw / "camera.yaml"
        for _ in range(5):
            rec.case()
            n = int(rng.integers(1, 5))
            cams = [{"name": str(rng.choice(["Cam%d" % i, "/a%d/b/c" % i])), "type": str(rng.choice(types)), "bit_depth": int(rng.choice([8, 12, 16, 18])), "path": "image/c%d" % i,
                     "extension": str(rng.choice(["tif", "raw"])), "filename_to_date": FORMATS[int(rng.integers(0, 3))]} for i in range(n)]
            f.write_text(yaml.safe_dump({"camera_system": "sys%d" % n, "cameras": cams}))
            with rec.guard("camera-file", "camera file"):
                cs = CameraSystem(f, raw)
                got = [(c.name, c.type, c.bit_depth, c.path, c.extension, c.filename_to_date) for c in cs.cameras]
                exp = [(c["name"][1:].replace("/", "_") if "/" in c["name"] else c["name"], c["type"], c["bit_depth"], c["path"], c["extension"], c["filename_to_date"]) for c in cams]
                rec.check("camera-file", cs.camera_system == "sys%d" % n and got == exp, "camera file read as %r, expected %r" % (got, exp))
            for what in range(5):
                bad = [dict(c) for c in cams]
                doc = {"camera_system": "s", "cameras": bad}
                k = int(rng.integers(0, n))
                if what == 0:
                    bad[k]["type"] = str(rng.choice(["gray", "rgbg", "RGB", "mono"]))
                elif what == 1:
                    bad[k].pop("filename_to_date")
                elif what == 2:
                    doc.pop("cameras")
                elif what == 3:
                    doc.pop("camera_system")
                f.write_text(yaml.safe_dump(doc))
                if what == 4:
                    f.unlink()
                with rec.guard("camera-file", "bad camera file"):
                    s, v = quits(CameraSystem, f, raw)
                    rec.check("camera-file", s and v not in (0, None), "camera file fault %d accepted" % what)
