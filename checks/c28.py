"""C28 the scripts that prepare a dataset for publication keep each image with its own pose, time and pixels."""
import contextlib
import datetime
import io
import os
import re
import runpy
import subprocess
import sys
from pathlib import Path

import numpy as np

from lib import dive as D
from lib.engine import case_rng, scratch
from lib.imgdive import mosaic

PID = "C28"
RULE = ("navigation tables in and out of time order, with images that have no pose and poses that have no image, names that are parts of each other, "
        "png and jpg folders, several serial logs and time-stamped files, Bayer patterns, folders of images with uneven lighting; "
        "non-trivial: a run that selects some of the rows or images and leaves others")
REQUIRED = {"simplify": 40, "squidle": 40, "kept": 40, "nothing-written": 20, "stats": 30, "clock": 20, "debayer": 6, "balance": 2, "bright": 6, "links": 4}
CASE_TIMEOUT = 200


def scripts():
    import oplab

    return Path(oplab.__file__).resolve().parents[1] / "scripts"


def cases(rng, tier):
    n = 40 if tier == "quick" else 300
    out = [{"kind": k, "rep": r} for r in range(n) for k in ("simplify", "squidle", "stats", "clock")]
    out += [{"kind": "debayer", "rep": r} for r in range(3 if tier == "quick" else 12)]
    out += [{"kind": "balance", "rep": r} for r in range(2 if tier == "quick" else 8)]
    out += [{"kind": k, "rep": r} for r in range(8 if tier == "quick" else 60) for k in ("bright", "links")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(name, *argv, cwd=None):
    """runs a script as the command line does -> what it printed"""
    out = io.StringIO()
    old, here = sys.argv, os.getcwd()
    sys.argv = [str(scripts() / name)] + [str(a) for a in argv]
    if cwd:
        os.chdir(cwd)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            try:
                runpy.run_path(sys.argv[0], run_name="__main__")
            except SystemExit as e:
                out.write("\nEXIT %s\n" % e.code)
    finally:
        sys.argv = old
        os.chdir(here)
    return out.getvalue()


def run_case(case, rec):
    rng = case_rng(case)
    with scratch() as td:
        globals()["t_" + case["kind"]](case, rec, rng, Path(td))


COLS = ["relative_path", "northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]", "timestamp [s]", "latitude [deg]",
        "longitude [deg]", "x_velocity [m/s]", "vehicle_std_x [m]"]


def table(rng, td, ext="tif", n=None):
    """a navigation table -> path, rows"""
    n = n or int(rng.integers(3, 40))
    pre = str(rng.choice(["PR_", "", "2018.06.", "IM-", "a b"]))
    t = D.EPOCH0 + float(rng.integers(0, 10**6)) + np.cumsum(rng.uniform(0.1, 4, n))
    if rng.random() < 0.3:
        t = np.round(t)
        t += np.arange(n)
    k0 = int(rng.integers(0, 300))
    rows = []
    for k in range(n):
        r = {c: float(rng.uniform(-40, 40)) for c in COLS[1:]}
        r.update({"timestamp [s]": float(t[k]), "latitude [deg]": float(rng.uniform(-80, 80)), "longitude [deg]": float(rng.uniform(-180, 180)), "altitude [m]": float(rng.uniform(0.5, 12)),
                  "relative_path": "image/Cam/%s%d.%s" % (pre, k0 + k, ext)})
        rows.append(r)
    if rng.random() < 0.4:
        rows = [rows[i] for i in rng.permutation(n)]
    p = td / "nav.csv"
    cols = list(COLS)
    if rng.random() < 0.3:
        cols = [cols[i] for i in rng.permutation(len(cols))]
    with p.open("w") as f:
        f.write(",".join(cols) + "\n")
        for r in rows:
            f.write(",".join(str(r[c]) for c in cols) + "\n")
    return p, rows


def folder(rng, td, rows):
    """images for some of the rows, and some that have no row -> folder, names of the rows in it"""
    d = td / "images"
    d.mkdir()
    e = str(rng.choice(["png", "jpg"]))
    stems = [Path(r["relative_path"]).stem for r in rows]
    keep = [s for s in stems if rng.random() < 0.6] or stems[:1]
    other = ["1" + keep[0], keep[-1] + "0", "calib"]
    other = [o for o in other if o not in stems]
    for s in keep + other[: int(rng.integers(0, 4))]:
        (d / (s + "." + e)).write_bytes(b"x")
    (d / "FileTime.csv").write_text("a\n")
    return d, e, keep


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))


def judge(rec, mon, out, want, cols, name, what):
    """cols: column written -> column of the navigation table (or a function of the row)"""
    if not rec.check(mon, out.exists(), what + ": nothing was written"):
        return
    rows = D.read_csv(out)
    rec.check(mon, len(rows) == len(want), "%s: %d rows for %d images" % (what, len(rows), len(want)))
    rec.check(mon, not rows or list(rows[0]) == [name] + list(cols), "%s: columns %r" % (what, list(rows[0]) if rows else []))
    for k, (g, w) in enumerate(zip(rows, want)):
        bad = []
        if g[name] != w["_name"]:
            bad.append(name)
        for c, src in cols.items():
            if src == "utc":
                s = g[c].split(".")
                t = datetime.datetime.strptime(s[0], "%Y-%m-%d %H:%M:%S").replace(tzinfo=datetime.timezone.utc).timestamp() + (float("0." + s[1]) if len(s) > 1 else 0)
                if abs(t - w["timestamp [s]"]) > 2e-6:
                    bad.append(c)
            elif not near(g[c], w[src]):
                bad.append(c)
        if not rec.check(mon, not bad, "%s: row %d: %s is not that of the image" % (what, k, bad), got=dict(g), want={c: w.get(c) for c in COLS}):
            return


def t_simplify(case, rec, rng, td):
    p, rows = table(rng, td)
    mode = str(rng.choice(["", "-s", "-l"]))
    imgs = rng.random() < 0.75
    out = td / "out.csv"
    args = [p, "-o", out] + ([mode] if mode else [])
    want = [dict(r, _name=Path(r["relative_path"]).name) for r in rows]
    if imgs:
        d, e, keep = folder(rng, td, rows)
        args += ["-i", d]
        want = [dict(r, _name=Path(r["relative_path"]).stem + "." + e) for r in rows if Path(r["relative_path"]).stem in keep]
    want.sort(key=lambda r: r["timestamp [s]"])
    cols = {"-s": COLS[9:11], "": COLS[8:11] + [COLS[3], COLS[7]] + COLS[4:7], "-l": COLS[8:11] + [COLS[3], COLS[7]] + COLS[4:7] + COLS[1:3]}[mode]
    publish(rec, rng, td, "simplify", "simplify_nav_file.py", args, out, want, {c: c for c in cols}, "filename", imgs, "simplify " + mode)


def t_squidle(case, rec, rng, td):
    p, rows = table(rng, td)
    d, e, keep = folder(rng, td, rows)
    out = td / "navdata.csv"
    want = [dict(r, _name=Path(r["relative_path"]).stem) for r in rows if Path(r["relative_path"]).stem in keep]
    want.sort(key=lambda r: r["timestamp [s]"])
    cols = {"pose.lat": "latitude [deg]", "pose.lon": "longitude [deg]", "pose.dep": "depth [m]", "pose.alt": "altitude [m]", "timestamp_start": "utc",
            "pose.data.northing_m": "northing [m]", "pose.data.easting_m": "easting [m]", "pose.data.roll": "roll [deg]", "pose.data.pitch": "pitch [deg]", "pose.data.heading": "heading [deg]"}
    if rng.random() < 0.4:
        (td / "images_thumbnails").mkdir()
        for k in keep[1:]:
            (td / "images_thumbnails" / (k + "_THM.jpg")).write_bytes(b"x")
    publish(rec, rng, td, "squidle", "generate_nav_file_for_squidle.py", [p, d, "-o", out], out, want, cols, "key", True, "squidle")


def publish(rec, rng, td, mon, script, args, out, want, cols, name, imgs, what):
    rec.case()
    d = td / "images"
    with rec.guard(mon, what):
        if imgs and rng.random() < 0.3:
            # both kinds of images: no telling which
            x = d / ("zz." + ("png" if list(d.glob("*.jpg")) else "jpg"))
            x.write_bytes(b"x")
            run(script, *args)
            rec.check("nothing-written", not out.exists(), what + ": a folder with png and jpg images gives a table")
            x.unlink()
        if imgs and rng.random() < 0.3:
            (td / "empty").mkdir()
            run(script, *[td / "empty" if a == d else a for a in args])
            rec.check("nothing-written", not out.exists(), what + ": a folder without images gives a table")
            (td / "empty" / "none_of_them.png").write_bytes(b"x")
            run(script, *[td / "empty" if a == d else a for a in args])
            rec.check("nothing-written", not out.exists(), what + ": a folder of other images gives a table")
        text = run(script, *args)
        judge(rec, mon, out, want, cols, name, what)
        if mon == "simplify":
            box = dict(re.findall(r"^([NSEW]): (-?[\d.e-]+)°", text, re.M))
            la, lo = [r["latitude [deg]"] for r in want], [r["longitude [deg]"] for r in want]
            rec.check(mon, len(box) == 4 and near(box["N"], max(la)) and near(box["S"], min(la)) and near(box["E"], max(lo)) and near(box["W"], min(lo)), what + ": bounding box", text=text[-300:])
        out.write_text("mine\n")
        run(script, *args)
        rec.check("kept", out.read_text() == "mine\n", what + ": an existing file is overwritten without -f")
        run(script, *args, "-f")
        judge(rec, mon, out, want, cols, name, what + " -f")
        rec.seen(what, len(want), imgs)
        rec.sample({"script": script, "rows": len(want)})


def t_stats(case, rec, rng, td):
    rows = [{"timestamp [s]": 1}, {"timestamp [s]": 0}]
    while rows != sorted(rows, key=lambda r: r["timestamp [s]"]):
        p, rows = table(rng, td)
    th = float(rng.choice([3.0, 6.0, 9.0]))
    ts = [r["timestamp [s]"] for r in rows]
    args, sel = [p, "-t", th], rows
    if rng.random() < 0.5:
        a, b = sorted(rng.uniform(ts[0] - 5, ts[-1] + 5, 2))
        a, b = round(a, 2), round(b, 2)
        args += ["-s", a, "-e", b]
        sel = [r for r in rows if a <= r["timestamp [s]"] <= b]
    al = 70.34
    if rng.random() < 0.5:
        al = float(rng.integers(30, 100))
        args += ["-a", al]
    low = [r for r in sel if r["altitude [m]"] < th]
    rec.case()
    with rec.guard("stats", "image_acquisition_stats"):
        text = run("image_acquisition_stats.py", *args)
        nums = dict((k.strip(), v) for k, v in re.findall(r"^(Number of images at alt|Average altitude|Total distance|Total surface|Bottom time|Number of images during)[^:]*: +(.*)$", text, re.M))
        if not low:
            rec.check("stats", "ERROR" in text and not nums, "statistics of no image at all", text=text[-300:])
            return
        t = [r["timestamp [s]"] for r in low]
        d = [np.hypot(b["northing [m]"] - a["northing [m]"], b["easting [m]"] - a["easting [m]"]) for a, b in zip(low, low[1:])]
        area = sum(x * r["altitude [m]"] * 2 * np.tan(np.radians(al / 2)) for x, r in zip(d, low[1:]))
        during = sum(min(t) <= r["timestamp [s]"] <= max(t) for r in sel)
        m = re.match(r"(\d+)h (\d+)min (\d+)s", nums.get("Bottom time", ""))
        got = {"images": int(nums["Number of images at alt"]), "altitude": float(nums["Average altitude"].rstrip("m")), "distance": float(nums["Total distance"].rstrip("m")),
               "surface": float(nums["Total surface"][:-2]), "time": int(m[1]) * 3600 + int(m[2]) * 60 + int(m[3]), "during": int(nums["Number of images during"])}
        want = {"images": len(low), "altitude": np.mean([r["altitude [m]"] for r in low]), "distance": sum(d), "surface": area, "time": max(t) - min(t), "during": during}
        tol = {"images": 0, "altitude": 6e-4, "distance": 0.51, "surface": 0.51, "time": 0.51, "during": 0}
        bad = [k for k in want if abs(got[k] - want[k]) > tol[k]]
        rec.check("stats", not bad, "%s of the images near the seafloor" % bad, got=got, want=want)
        rec.seen("stats", len(low), len(sel))


def t_clock(case, rec, rng, td):
    """ALR time to BioCam time, through the polls in BioCam's serial logs"""
    n = int(rng.integers(2, 12))
    t0 = int(D.EPOCH0 * 1000)
    alr = t0 + np.cumsum(rng.integers(1000, 600000, n))
    off = float(rng.uniform(-90e3, 90e3)) + np.cumsum(rng.normal(0, 40, n))
    mean = alr + off
    rtt = rng.integers(1, 200, n) * 2
    b0, b1 = np.round(mean - rtt / 2).astype(int), np.round(mean + rtt / 2).astype(int)
    if list(b0) != sorted(b0):
        return
    mean = (b0 + b1) / 2
    nf = int(rng.integers(1, min(3, n) + 1))
    cut = [0] + sorted(int(x) for x in rng.choice(np.arange(1, n), nf - 1, replace=False)) + [n]
    logs = []
    for k, (a, b) in enumerate(zip(cut, cut[1:])):
        p = td / ("2022071%d_auv_serial_message.log" % k)
        L = []
        for i in range(a, b):
            L += ["$BIOCAM,status,1,2,3,4,5,6,7", "poll_time: biocam,%d,request,0,alr,%d,biocam,%d,end" % (b0[i], alr[i], b1[i]), ""]
        p.write_text("\n".join(L))
        logs.append(p)
    div = float(rng.choice([1, 1000, 1000000]))
    col = str(rng.choice(["timestamp", "timestamp", "time"]))
    sub = td / str(rng.choice(["data", "ctd.csv_files"]))
    sub.mkdir()
    files = []
    for k in range(int(rng.integers(1, 4))):
        ts = np.sort(rng.uniform(alr[0] - 30000, alr[-1] + 30000, int(rng.integers(1, 30)))) / 1000 * div
        ts = np.round(ts, 3 if div == 1 else 0)
        if rng.random() < 0.3:
            ts[0] = alr[0] / 1000 * div
        p = sub / ("log%d.csv" % k)
        p.write_text("%s,depth\n" % col + "".join("%r,%d\n" % (float(x) if div == 1 else int(x), i) for i, x in enumerate(ts)))
        files.append((p, ts))
    args = list(logs)
    if rng.random() < 0.5:
        args += ["-a"] + [p for p, _ in files]
    else:
        for p, _ in files:
            args += ["-a", p]
    args += ["-d", div] if div != 1 or rng.random() < 0.5 else []
    args += ["-t", col] if col != "timestamp" or rng.random() < 0.5 else []
    rec.case()
    what = "%d serial logs, %d files" % (len(logs), len(files))
    outs = [sub / ("log%d_corrected.csv" % k) for k in range(len(files))]

    def judge_clock():
        for (p, ts), o in zip(files, outs):
            if not rec.check("clock", o.exists(), what + ": no corrected file for " + p.name):
                continue
            rows = D.read_csv(o)
            rec.check("clock", len(rows) == len(ts), "%s: %d rows corrected of %d" % (what, len(rows), len(ts)))
            x = ts / div * 1000
            k = np.clip(np.searchsorted(alr, x, side="right") - 1, 0, n - 2)
            want = (mean[k] + (x - alr[k]) * (mean[k + 1] - mean[k]) / (alr[k + 1] - alr[k])) / 1000
            got = D.col(rows, "corrected_timestamp")
            rec.check("clock", len(got) == len(want) and np.abs(got - want).max() < 2e-5, what + ": times are not those of the other clock", got=list(got[:5]), want=list(want[:5]), source=list(ts[:5]))
            rec.check("clock", [float(r[col]) for r in rows] == [float(v) for v in ts] and [int(r["depth"]) for r in rows] == list(range(len(ts))), what + ": the data changed")

    with rec.guard("clock", what):
        k = int(rng.integers(0, len(files)))
        outs[k].write_text("mine\n")
        run("adjust_alr_to_biocam_time.py", *args)
        rec.check("kept", outs[k].read_text() == "mine\n", what + ": an existing file is overwritten without -f")
        if rng.random() < 0.5:
            run("adjust_alr_to_biocam_time.py", *args, "-f")
        else:
            outs[k].unlink()
            run("adjust_alr_to_biocam_time.py", *args)
        judge_clock()
        if len(logs) > 1:
            for o in outs:
                if o.exists():
                    o.unlink()
            run("adjust_alr_to_biocam_time.py", *(logs[::-1] + args[len(logs):]))
            rec.check("nothing-written", not any(o.exists() for o in outs), what + ": serial logs in the wrong order are used")
        if n > 2:
            # one of the two clocks is set back between two polls
            back = str(rng.choice(["biocam", "alr"]))
            c0, ca, c1 = b0.copy(), alr.copy(), b1.copy()
            k = int(rng.integers(1, n))
            for c in ((c0, c1) if back == "biocam" else (ca,)):
                c[k:] -= c[k] - c[k - 1] + int(rng.integers(1, 5000))
            bad = td / "back.log"
            bad.write_text("\n".join("poll_time: biocam,%d,request,0,alr,%d,biocam,%d,end" % x for x in zip(c0, ca, c1)))
            for o in outs:
                if o.exists():
                    o.unlink()
            run("adjust_alr_to_biocam_time.py", bad, *args[len(logs):])
            rec.check("nothing-written", not any(o.exists() for o in outs), what + ": a log in which the %s clock is set back is used" % back)
        rec.seen("clock", len(logs), len(files), n, div)


def script(rec, name, args, cwd):
    p = subprocess.run([sys.executable, str(scripts() / name)] + [str(a) for a in args], cwd=str(cwd), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, PYTHONPATH=str(scripts().parent)))
    return p.returncode, p.stdout


def t_debayer(case, rec, rng, td):
    import cv2
    from imageio.v2 import imwrite

    for pattern in ("rggb", "grbg", "bggr", "gbrg", "mono"):
        rec.case()
        bits = int(rng.choice([8, 16]))
        ext = "tif" if bits == 16 else str(rng.choice(["png", "tif"]))
        src, out = td / ("in_" + pattern), td / "out" / pattern
        src.mkdir()
        want = {}
        h, w = 2 * int(rng.integers(6, 20)), 2 * int(rng.integers(6, 20))
        for k in range(int(rng.integers(1, 5))):
            c = rng.integers(10, 240, 3) * (1 if bits == 8 else 250)
            img = np.zeros((h, w), np.uint8 if bits == 8 else np.uint16)
            if pattern == "mono":
                img[:] = rng.integers(0, 255, (h, w))
                w3 = img
            else:
                img[:] = np.take_along_axis(np.broadcast_to(c, (h, w, 3)), mosaic(pattern, h, w)[:, :, None], axis=2)[:, :, 0]
                w3 = np.broadcast_to(c, (h, w, 3))
            name = "im.%d" % k
            imwrite(src / (name + "." + ext), img)
            want[name] = w3
        (src / "other.txt").write_text("x")
        p = pattern.upper() if rng.random() < 0.5 else pattern
        with rec.guard("debayer", pattern):
            rc, text = script(rec, "debayer_folder.py", [src, ext, p, out], td)
            rec.check("debayer", rc == 0 and sorted(x.name for x in out.iterdir()) == sorted(n + ".png" for n in want), "%s: files written: %r" % (p, sorted(x.name for x in out.iterdir()) if out.exists() else None), text=text[-400:])
            for n, x in want.items():
                if (out / (n + ".png")).exists():
                    g = cv2.imread(str(out / (n + ".png")), -1).astype(int)
                    g = g[:, :, ::-1] if g.ndim == 3 else g
                    ok = g.shape == x.shape and np.abs(g[2:-2, 2:-2] - x[2:-2, 2:-2]).max() <= 1
                    rec.check("debayer", ok, "%s, %d bits: not the colours of the scene" % (p, bits), got=g[5, 5].tolist() if g.ndim == 3 else g[5, :5].tolist(), want=np.asarray(x)[5, 5].tolist())
            rec.seen("debayer", pattern, bits)


def t_balance(case, rec, rng, td):
    """pixel_stats_folder: every pixel gets the same mean and spread over the folder"""
    from imageio.v2 import imread, imwrite

    h, w = 2 * int(rng.integers(10, 16)), 2 * int(rng.integers(18, 26))
    n = 40
    y, x = np.mgrid[0:h, 0:w]
    src = td / "in"
    src.mkdir()
    base = np.stack([60 + 60 * y / h + 30 * x / w, 50 + 90 * x / w, 120 - 60 * y / h], axis=2)
    z = rng.normal(0, 1, n)
    z = (z - z.mean()) / z.std()
    z[0] = 3.0
    for k in range(n):
        imwrite(src / ("im%02d.png" % k), np.clip(np.round(base * (1 + 0.12 * z[k])), 0, 255).astype(np.uint8))
    zz = (z - z.mean()) / z.std()
    rec.case()
    with rec.guard("balance", "pixel_stats_folder"):
        rc, text = script(rec, "pixel_stats_folder.py", [src, "png", td / "out"], td)
        if not rec.check("balance", rc == 0 and len(list((td / "out").glob("*.png"))) == n, "images written", text=text[-500:]):
            return
        a = np.stack([imread(td / "out" / ("im%02d.png" % k)).astype(float) for k in range(n)])
        inner = a[:, 3:-3, 3:-3]
        want = np.clip(25 + 7 * zz, 0, 100) * 2.56
        err = np.abs(inner - want[:, None, None, None]).max(axis=(1, 2, 3))
        rec.check("balance", err.max() < 8, "an image's pixels differ by up to %.1f from what its brightness among the images asks for" % err.max(), worst=int(err.argmax()))
        rec.check("balance", not list(td.glob("*.map")), "temporary files are left")
        rec.seen("balance", h, w)


def t_bright(case, rec, rng, td):
    from imageio.v2 import imwrite

    d = td / "im"
    d.mkdir()
    peak = {}
    for k in range(int(rng.integers(2, 12))):
        g = rng.random() < 0.3
        img = rng.integers(0, 120, (12, 14) if g else (12, 14, 3)).astype(np.uint8)
        if rng.random() < 0.5:
            img[int(rng.integers(12)), int(rng.integers(14))] = int(rng.integers(150, 256)) if g else rng.integers(100, 256, 3)
        p = d / ("im%d.png" % k)
        imwrite(p, img)
        peak[str(p)] = float(img.astype(float).mean(axis=2).max() if img.ndim == 3 else img.max())
    rec.case()
    with rec.guard("bright", "compute_max_brightness"):
        run("compute_max_brightness.py", d, td / "b.csv")
        rows = D.read_csv(td / "b.csv") if (td / "b.csv").exists() else []
        got = {r["path"]: float(r["max_brightness"]) for r in rows}
        rec.check("bright", sorted(got) == sorted(peak) and all(near(got[k], peak[k]) for k in got), "brightest pixels of the images", got=got, want=peak)
        th = int(rng.integers(80, 220))
        run("find_images_with_artefacts.py", td / "b.csv", td / "list.txt", "-t", th)
        lst = (td / "list.txt").read_text().splitlines()
        rec.check("bright", sorted(lst) == sorted(k for k, v in peak.items() if v > th), "list of the bright images", got=lst, want=peak, threshold=th)
        rec.seen("bright", len(peak), len(lst))


def t_links(case, rec, rng, td):
    raw, proc, dst = td / "raw", td / "proc", td / "out" / "links"
    raw.mkdir()
    proc.mkdir()
    e = str(rng.choice(["png", "jpg"]))
    names = ["im_%d" % k for k in rng.choice(1000, int(rng.integers(2, 15)), replace=False)]
    for s in names:
        (raw / (s + ".tif")).write_text(s)
    keep = [s for s in names if rng.random() < 0.6] or names[:1]
    for s in keep:
        (proc / (s + "." + e)).write_text("x")
    rel = rng.random() < 0.4
    args = [os.path.relpath(p, td) for p in (proc, raw, dst)] if rel else [str(p) for p in (proc, raw, dst)]
    rec.case()
    with rec.guard("links", "generate_symlinks_to_raw_images"):
        p = subprocess.run(["bash", str(scripts() / "generate_symlinks_to_raw_images.sh")] + args, cwd=str(td), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = {x.stem: x.read_text() if x.exists() else None for x in dst.glob("*.tif")} if dst.exists() else {}
        rec.check("links", p.returncode == 0 and got == {s: s for s in keep}, "links to the raw images (%s paths): %d for %d images" % ("relative" if rel else "absolute", len(got), len(keep)), text=p.stdout[-300:])
        before = sorted(x.name for x in dst.rglob("*"))
        p = subprocess.run(["bash", str(scripts() / "generate_symlinks_to_raw_images.sh")] + args, cwd=str(td), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        rec.check("links", p.returncode != 0 and sorted(x.name for x in dst.rglob("*")) == before, "an existing folder of links is changed")
        rec.seen("links", len(keep), rel)
