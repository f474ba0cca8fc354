"""C21 correct_images end to end: every selected image is corrected with parameters computed from the selected images."""
import os
from pathlib import Path

import numpy as np
import yaml

from lib import dive as D
from lib import imgdive as I
from lib.engine import case_rng, scratch

PID = "C21"
RULE = ("generated image dives (camera types, bit depths, distance metrics, smoothing methods, altitude filters, image lists, missing files and altitudes, depth maps with gaps, "
        "several cameras and dives, suffixes, undistortion, manual balance, sequential and multi-process workers) through the command line; non-trivial: distinct combinations")
REQUIRED = {"selection": 25, "outputs": 35, "filelist": 40, "bins": 20, "curve": 20, "gains": 7, "statistics": 12, "pixels": 20, "no-leftovers": 14, "refused": 10, "same-parameters": 4, "workers": 2}
CASE_TIMEOUT = 280
WORKERS = 8


def cases(rng, tier):
    n = 1 if tier == "quick" else 8
    out = []
    for r in range(n):
        for m in ("mean", "median", "mean_trimmed", "ransac_mean"):
            out.append({"kind": "altitude", "smoothing": m, "type": str(rng.choice(["grayscale", "rggb", "gbrg"])), "lists": m == "median", "dr": m == "mean", "per": 34 if m == "median" else 12})
        for t in ("rgb", "bgr"):
            out.append({"kind": "altitude", "smoothing": str(rng.choice(["mean", "median", "mean_trimmed", "ransac_mean"])), "type": t, "lists": t == "rgb", "dr": False})
        out.append({"kind": "depth_map", "smoothing": "mean", "type": "grayscale"})
        out.append({"kind": "depth_map", "smoothing": "median", "type": "rgb"})
        for t in ("grayscale", "rgb", "bgr", "rggb", "grbg", "bggr", "gbrg"):
            out.append({"kind": "uniform", "type": t})
            out.append({"kind": "manual", "type": t})
        out += [{"kind": "two", "metric": "uniform", "again": True}, {"kind": "two", "metric": "altitude", "again": bool(r % 2)}, {"kind": "workers", "smoothing": "mean_trimmed"}, {"kind": "workers", "smoothing": "median"},  {"kind": "refuse"}, {"kind": "refuse"}]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    globals()["t_" + case["kind"]](case, rec, rng)


# ------------------------------------------------------------------ reference
def altitudes(rng, lo=2.0, bins=8, per=12, thin=True, hi_extra=6):
    """>= 10 images in most 0.1 m bins, 9 in one, some outside and on the edges of [lo, lo + bins / 10]"""
    a = []
    for b in range(bins):
        k = 9 if thin and b == 3 else per + int(rng.integers(0, 3))
        a += list(lo + 0.1 * b + rng.uniform(0.004, 0.096, k))
    a += list(rng.uniform(lo - 0.9, lo - 0.01, hi_extra)) + list(rng.uniform(lo + 0.1 * bins + 0.01, lo + 0.1 * bins + 0.9, hi_extra)) + [lo, lo + 0.1 * bins]
    return rng.permutation(np.round(a, 6))


def pick(cam, lo, hi, names=None, dm=False):
    """indices of the images that a mode works on"""
    r = []
    for k, row in enumerate(cam.rows):
        if row["gone"] or row["altitude"] is None or not lo < row["altitude"] < hi:
            continue
        if names is not None and Path(row["relative_path"]).stem not in names:
            continue
        if dm and k in cam.skip:
            continue
        r.append(k)
    return r


def combine(stack, how):
    if how == "mean":
        return stack.mean(axis=0)
    if how == "median":
        return np.median(stack, axis=0)
    n = len(stack)
    s = np.sort(stack, axis=0)
    if how == "mean_trimmed":
        return s[int(n * 0.1):int(n * 0.9)].mean(axis=0)
    return None  # ransac: judged by the bounds of the values


def model(p, z):
    """(c,h,w,3) parameters, (h,w) distance -> (h,w,c)"""
    p = p.astype(np.float64)
    return np.moveaxis(p[..., 0] * np.exp(p[..., 1] * z) + p[..., 2], 0, -1)


def finish(img, cam, C, undist=None, gamma=True):
    if cam.type == "bgr":
        img = img[..., ::-1]
    elif cam.type not in ("rgb", "grayscale"):
        img = C.debayer(img.astype(np.float32), cam.type).astype(np.float64)
    if undist:
        img = C.distortion_correct(undist, img.astype(np.float32)).astype(np.float64)
    if gamma:
        img = 12.92 * img if img.max() < 0.0031308 else 1.055 * np.power(np.maximum(img, 0), 1 / 1.5) - 0.055
    return np.clip(img * 255, 0, 255)


def load_params(rec, d, cam, suffix):
    ps = [p for p in (d.dive.processed / "image" / cam.name).glob("params_*") if p.is_dir()]
    ps = [p for p in ps if (p.name.endswith("_" + suffix) if suffix else True)]
    rec.check("outputs", len(ps) == 1, "parameter folders for %s: %s" % (cam.name, [p.name for p in ps]))
    return {p.stem: np.load(p) for p in ps[0].glob("*.npy")}, ps[0]


def out_folder(d, cam):
    ps = [p for p in (d.dive.processed / "image" / cam.name).glob("corrected_*") if p.is_dir()]
    return ps[0] if len(ps) == 1 else None


def judge_outputs(rec, d, cam, idx, expected, C, fmt, what, tol=1, nav=True, suffix=""):
    """exactly the selected images are written, with the expected pixels, and listed"""
    from imageio.v2 import imread

    f = out_folder(d, cam)
    if not rec.check("outputs", f is not None, "%s: no single folder of corrected images" % what):
        pass
    if f is None:
        return
    rec.check("outputs", f.name.endswith("_" + suffix) if suffix else not f.name.endswith("_v2"), "%s: the corrected images are in %s" % (what, f.name))
    want = {Path(cam.rows[k]["relative_path"]).stem + "." + fmt: k for k in idx}
    got = {p.name for p in f.iterdir() if p.suffix != ".csv"}
    rec.check("selection", got == set(want), "%s: %d images corrected, %d selected; missing %s, unexpected %s" % (what, len(got), len(want), sorted(set(want) - got)[:3], sorted(got - set(want))[:3]))
    bad, worst, n = [], 0, 0
    for name, k in want.items():
        if name not in got:
            continue
        im = np.asarray(imread(f / name)).astype(float)
        e = expected(k)
        if im.shape != e.shape:
            bad.append((name, "shape %s, expected %s" % (im.shape, e.shape)))
            continue
        n += 1
        diff = np.abs(im - e)
        # the value is cut to an integer: allow one level, two for the steep end of the gamma curve
        dmax = float(diff.max())
        worst = max(worst, dmax)
        if dmax > tol + 1 or (diff > tol + 0.05).mean() > 0.02:
            bad.append((name, dmax))
    rec.check("pixels", not bad, "%s: %d of %d images differ from the correction of their own raw image (worst %s levels)" % (what, len(bad), len(want), worst), first=bad[:3])
    rec.event("corrected images compared", n)
    csv = f / "filelist.csv"
    with rec.guard("filelist", what):
        rows = D.read_csv(csv)
        exp = [(Path(cam.rows[k]["relative_path"]).stem + "." + fmt, cam.rows[k]["relative_path"]) for k in sorted(idx)]
        rec.check("filelist", sorted((r["relative_path"], r["raw_relative_path"]) for r in rows) == sorted(exp), "%s: filelist.csv lists %d images, %d corrected" % (what, len(rows), len(exp)), first=rows[:1])
        if nav:
            by = {x["relative_path"]: x for x in cam.nav}
            rec.check("filelist", all(abs(float(r[c]) - float(by[r["raw_relative_path"]][c])) < 1e-6 for c in ("northing [m]", "altitude [m]", "timestamp [s]")
                                      for r in rows), "%s: filelist.csv does not carry each image's own navigation" % what)


def running(maps):
    """mean of the maps; a hole counts as the mean so far"""
    m = np.zeros(maps[0].shape)
    for n, x in enumerate(maps):
        m += (np.where(x == 0, m, x) - m) / (n + 1)
    return m


def judge_params(rec, d, cam, prm, idx, metric, smoothing, lo, hi, what, others=()):
    """parameters against the selected images (idx, plus images of other dives) -> function k -> expected unitary image"""
    imgs = [cam.load(cam.images[k]) for k in idx]
    dist = [cam.rows[k]["altitude"] if metric == "altitude" else cam.maps[k] for k in idx]
    for oc, oi in others:
        imgs += [oc.load(oc.images[k]) for k in oi]
        dist += [oc.rows[k]["altitude"] if metric == "altitude" else oc.maps[k] for k in oi]
    st = np.stack(imgs)
    h, w, c = cam.h, cam.w, cam.c
    shp = (h, w, c)
    vec = np.array([float(np.mean(x)) for x in dist])
    att, gains = prm["attenuation_parameters"], prm["correction_gains"]
    edges = np.arange(lo, hi + 0.05, 0.1)
    im, dm = prm["images_map"], prm["distances_map"]
    used = 0
    for b in range(len(edges) - 1):
        sel = np.where((vec >= edges[b]) & (vec < edges[b + 1]))[0]
        if len(sel) < 10:
            rec.check("bins", np.all(im[b] == 0) and np.all(dm[b] == 0), "%s: distance bin %d with %d images is used" % (what, b, len(sel)))
            continue
        used += 1
        sub = st[sel].reshape((len(sel),) + shp)
        ref = combine(sub, smoothing)
        got = im[b].reshape(shp)
        if ref is not None:
            rec.check("bins", np.allclose(got, ref, atol=2e-5), "%s: bin %d is not the %s of its %d images (off by %g)" % (what, b, smoothing, len(sel), np.max(np.abs(got - ref))))
        else:
            rec.check("bins", np.all(got >= sub.min(axis=0) - 1e-5) and np.all(got <= sub.max(axis=0) + 1e-5) and np.all(np.abs(got - np.median(sub, axis=0)) < 0.1),
                      "%s: bin %d is no robust mean of its %d images" % (what, b, len(sel)))
        dref = running([np.broadcast_to(dist[i], (h, w)) for i in sel])
        rec.check("bins", np.allclose(dm[b].reshape(h, w), dref, atol=1e-4), "%s: distance of bin %d is wrong" % (what, b))
    # the curve goes through what the bins say
    s = cam.scene
    zs = [lo + 0.1, (lo + hi) / 2, hi - 0.1]
    lit = np.ones(shp, bool)
    if cam.dark:
        lit.reshape(-1)[: cam.dark] = False
    for i, j in getattr(cam, "holes", ()):
        lit[i, j] = False
    for z in zs:
        true = (s["a"] * np.exp(s["b"] * z) + s["c"]).reshape(shp)
        e = np.abs(model(att, np.full((h, w), z)) / true - 1)[lit]
        rec.check("curve", att.shape == (c, h, w, 3) and e.max() < cam.tol, "%s: attenuation curve is %.1f %% off the scene at %.2f m" % (what, 100 * e.max(), z))
    if cam.dark:
        flat = np.moveaxis(att[..., :], 0, -2).reshape(-1, 3)[: cam.dark]
        rec.check("curve", np.allclose(flat, [1, 0, 0]), "%s: pixels without light get the curve %s" % (what, flat[0]))
    target = float(vec.mean())
    want = att[..., 0].astype(float) * np.exp(att[..., 1].astype(float) * target) + att[..., 2]
    rec.check("gains", np.allclose(gains, want, rtol=1e-4), "%s: gains are not the curves at the mean distance %.3f m" % (what, target))
    cor = np.stack([x.reshape(shp) * (np.moveaxis(gains, 0, -1) / model(att, np.broadcast_to(z, (h, w)))) for x, z in zip(st, dist)])
    if cor.max() < 0.94:
        m, sd = cor.mean(axis=0), np.maximum(cor.std(axis=0), 1e-6)
        gm, gs = prm["image_corrected_mean"].reshape(shp), prm["image_corrected_std"].reshape(shp)
        rec.check("statistics", np.allclose(gm, m, atol=2e-4) and np.allclose(gs, sd, atol=5e-4), "%s: mean or spread of the corrected images is wrong (%g, %g)" % (what, np.max(np.abs(gm - m)), np.max(np.abs(gs - sd))))
    else:
        rec.event("over-exposed sets")
    return used


def predict(cam, prm, metric, brightness, contrast, C, undist=None):
    shp = (cam.h, cam.w, cam.c)

    def f(k):
        x = cam.load(cam.images[k]).reshape(shp)
        if metric == "uniform":
            m, s = prm["image_raw_mean"], prm["image_raw_std"]
        else:
            z = cam.rows[k]["altitude"] if metric == "altitude" else cam.maps[k]
            x = x * (np.moveaxis(prm["correction_gains"], 0, -1) / model(prm["attenuation_parameters"], np.broadcast_to(z, (cam.h, cam.w))))
            m, s = prm["image_corrected_mean"], prm["image_corrected_std"]
        x = (x - m.reshape(shp)) / s.reshape(shp) * contrast / 100 + brightness / 100
        x = np.clip(x, 0, 1).reshape(cam.shape())
        return finish(x, cam, C, undist)

    return f


def make(rng, type_, td, n_alts, dark=0, ekf=True, name="20180626_080000_sim", cams=None, missing=2, none_alt=2, scene=None, noise=0.05, size=None, t0=None, prefix=""):
    if cams is None:
        bits, ext = (8, "png") if type_ in ("rgb", "bgr") and rng.random() < 0.5 else [(8, "png"), (8, "tif"), (12, "tif"), (16, "tif")][int(rng.integers(0, 4))]
        cams = [I.Cam("CAM1", type_, *(size or (10, 12)), ext=ext, bits=bits)]

    def sc(cam):
        shp = cam.shape()
        return {"a": rng.uniform(0.5, 1.1, shp), "b": -rng.uniform(0.25, 0.6, shp), "c": rng.uniform(0.01, 0.04, shp)}

    d = I.ImgDive(td, rng, cams, alts=n_alts, missing=missing, none_alt=none_alt, ekf=ekf, noise=noise, dark=dark, scene=scene or sc, name=name, t0=t0, prefix=prefix)
    for c in cams:
        c.dark, c.skip, c.tol = dark, (), 0.12
        c.nav = D.read_csv(d.nav_path.parent / d.nav_path.name.replace(cams[-1].name, c.name))
    return d, cams


def lists(rng, d, cam):
    """image lists for parse and process -> names"""
    out = {}
    for mode in ("parse", "process"):
        names = [Path(r["relative_path"]).name for r in cam.rows]
        keep = [n for n in names if rng.random() < (0.9 if mode == "parse" else 0.3)]
        (d.dive.config / (mode + "_list.txt")).write_text("".join("%s\n" % (n if rng.random() < 0.5 else "image/x/" + n) for n in keep))
        out[mode] = {Path(n).stem for n in keep}
    return out


def leftovers(rec, mm, what):
    rest = [p.name for p in Path(mm).rglob("*") if p.is_file()] if Path(mm).exists() else []
    rec.check("no-leftovers", not rest, "%s: temporary files left behind: %s" % (what, rest[:3]))


def t_altitude(case, rec, rng, metric="altitude"):
    from correct_images import corrections as C

    rec.case()
    with scratch() as td:
        td = Path(td)
        dm = metric == "depth_map"
        dark = 3 if case["type"] == "grayscale" and not dm else 0
        alts = altitudes(rng, thin=not dm, per=case.get("per", 12))
        d, (cam,) = make(rng, case["type"], td, alts, dark=dark, ekf=not case.get("dr"))
        if dm:
            cam.skip = tuple(int(x) for x in rng.choice(len(cam.rows), int(rng.integers(6, 14)), replace=False))
            d.depth_maps(skip=cam.skip)
            cam.tol = 0.3
            # the images of the scene at the distances of the maps
            rescene(rng, d, cam)
            punch(rng, cam)
        lo, hi = 2.0, 2.8
        plo, phi = (2.2, 2.6) if rng.random() < 0.5 else (1.5, 3.2)
        ls = lists(rng, d, cam) if case.get("lists") else {"parse": None, "process": None}
        b, k = int(rng.choice([20, 30, 50])), int(rng.choice([3, 5, 10]))
        fmt = str(rng.choice(["png", "tif"]))
        suffix = str(rng.choice(["", "v2"]))
        d.config(metric=metric, smoothing=case["smoothing"], parse=(lo, hi), process=(plo, phi), brightness=b, contrast=k, fmt=fmt, suffix=suffix,
                 lists={cam.name: {"parse": "parse_list.txt", "process": "process_list.txt"}} if case.get("lists") else None)
        sfx = ["--suffix", suffix] if suffix else []
        what = "%s %s %s" % (metric, case["smoothing"], case["type"])
        where = [d.dive.raw, d.dive.processed][int(rng.integers(0, 2))]
        with rec.guard("outputs", "parse, " + what):
            I.run("parse", *sfx, where, memmap=td / "mm")
            leftovers(rec, td / "mm", what)
            prm, folder = load_params(rec, d, cam, suffix)
            idx = pick(cam, lo, hi, ls["parse"], dm)
            used = judge_params(rec, d, cam, prm, idx, metric, case["smoothing"], lo, hi, what)
            rec.event("distance bins compared", used)
        with rec.guard("outputs", "process, " + what):
            I.run("process", *sfx, where)
            out = pick(cam, plo, phi, ls["process"], dm)
            judge_outputs(rec, d, cam, out, predict(cam, prm, metric, b, k, C), C, fmt, what, suffix=suffix)
            rec.seen(metric, case["smoothing"], case["type"], cam.bits, bool(case.get("lists")), bool(suffix), plo)
        rec.sample({"what": what, "images": len(idx), "corrected": len(out)})


def punch(rng, cam):
    """holes in the depth maps, at two pixels"""
    cam.holes = [(2, 3), (7, 1)]
    for k, r in enumerate(cam.rows):
        for i, j in cam.holes:
            if rng.random() < 0.3:
                cam.maps[k][i, j] = 0
        if k not in cam.skip:
            np.save(r["map"], cam.maps[k])


def rescene(rng, d, cam):
    from imageio.v2 import imwrite

    s = cam.scene
    for k, r in enumerate(cam.rows):
        z = cam.maps[k]
        z = z[..., None] if cam.c == 3 else z
        st = cam.store((s["a"] * np.exp(s["b"] * z) + s["c"]) * (1 + 0.05 * rng.standard_normal(cam.shape())))
        cam.images[k] = st
        if not r["gone"]:
            imwrite(d.dive.raw / r["relative_path"], st)


def t_depth_map(case, rec, rng):
    t_altitude(case, rec, rng, "depth_map")


def calibration(rng, d, cam):
    from checks.c18 import calib

    p = d.dive.processed.parent / "calibration" / ("mono_" + cam.name + ".yaml")
    p.parent.mkdir(parents=True, exist_ok=True)
    calib(rng, p, cam.w, cam.h)
    for other in ("AAA", "zzz"):
        calib(rng, p.with_name("mono_%s.yaml" % other), cam.w, cam.h)
    return p


def t_uniform(case, rec, rng):
    from correct_images import corrections as C

    rec.case()
    with scratch() as td:
        td = Path(td)
        und = bool(rng.random() < 0.5)
        d, (cam,) = make(rng, case["type"], td, rng.uniform(1.5, 3.5, 24), size=(30, 40))
        lo, hi = 1.8, 3.1
        listed = bool(rng.random() < 0.5)
        ls = lists(rng, d, cam) if listed else {"parse": None, "process": None}
        b, k = int(rng.choice([20, 30, 50])), int(rng.choice([3, 5, 10]))
        d.config(metric="uniform", parse=(lo, hi), process=(1.0, 4.0), brightness=b, contrast=k, undistort=und, legacy=False,
                 lists={cam.name: {"parse": "parse_list.txt", "process": "process_list.txt"}} if listed else None)
        cal = calibration(rng, d, cam) if und else None
        what = "uniform " + case["type"]
        with rec.guard("outputs", what):
            once = bool(rng.random() < 0.4)
            if once:
                I.run("correct", d.dive.raw)
            else:
                I.run("parse", d.dive.raw, memmap=td / "mm")
                leftovers(rec, td / "mm", what)
            prm, _ = load_params(rec, d, cam, "")
            idx = pick(cam, lo, hi, ls["parse"])
            st = np.stack([cam.load(cam.images[i]) for i in idx])
            rec.check("statistics", np.allclose(prm["image_raw_mean"], st.mean(axis=0), atol=1e-5) and np.allclose(prm["image_raw_std"], st.std(axis=0), atol=5e-4), what + ": mean or spread of the raw images is wrong")
            if not once:
                I.run("process", d.dive.raw)
            judge_outputs(rec, d, cam, pick(cam, 1.0, 4.0, ls["process"]), predict(cam, prm, "uniform", b, k, C, cal), C, "png", what)
            rec.seen("uniform", case["type"], und)


def t_manual(case, rec, rng):
    from correct_images import corrections as C

    rec.case()
    with scratch() as td:
        td = Path(td)
        und = bool(rng.random() < 0.4)
        d, (cam,) = make(rng, case["type"], td, rng.uniform(1.5, 3.5, 8), size=(30, 40), none_alt=0)
        m = np.round(np.eye(3) + rng.uniform(-0.2, 0.6, (3, 3)), 2)
        s = np.round(rng.uniform(0, 0.1, 3), 2)
        d.config(method="manual_balance", gains=m, subtract=s, undistort=und)
        cal = calibration(rng, d, cam) if und else None
        what = "manual " + case["type"]

        def f(k):
            x = cam.load(cam.images[k])
            if cam.type == "bgr":
                x = x[..., ::-1]
            elif cam.type not in ("rgb", "grayscale"):
                x = C.debayer(x.astype(np.float32), cam.type).astype(np.float64)
            x = (x - s) @ m.T if x.ndim == 3 else (x - s[0]) * m[0, 0]
            if cal:
                x = C.distortion_correct(cal, x.astype(np.float32)).astype(np.float64)
            return np.clip(x * 255, 0, 255)

        with rec.guard("outputs", what):
            if rng.random() < 0.5:
                I.run("parse", d.dive.raw, memmap=td / "mm")
                leftovers(rec, td / "mm", what)
            I.run("process", d.dive.raw)
            judge_outputs(rec, d, cam, [k for k, r in enumerate(cam.rows) if not r["gone"]], f, C, "png", what, nav=False)
            rec.seen("manual", case["type"], und)


def t_two(case, rec, rng):
    """two dives parsed together, two cameras, one of them not configured"""
    from correct_images import corrections as C

    rec.case()
    metric = case["metric"]
    with scratch() as td:
        td = Path(td)
        scenes = {}

        def sc(cam):
            if cam.name not in scenes:
                shp = cam.shape()
                scenes[cam.name] = {"a": rng.uniform(0.5, 1.1, shp), "b": -rng.uniform(0.25, 0.6, shp), "c": rng.uniform(0.01, 0.04, shp)}
            return scenes[cam.name]

        dives = []
        for j, nm in enumerate(("20180626_080000_sim", "20180627_090000_sim")):
            cams = [I.Cam("CAM1", "grayscale", 10, 12), I.Cam("CAM10", "rgb", 11, 10), I.Cam("CAM", "grayscale", 10, 10)]
            a = altitudes(rng, bins=6, per=7, thin=False) if metric == "altitude" else rng.uniform(1.8, 3.2, 9)
            # alone neither dive fills the bins
            d, cams = make(rng, None, td, a, cams=cams, name=nm, missing=1, none_alt=1, scene=sc, prefix="D%d" % j)
            d.config(metric=metric, smoothing="mean", parse=(2.0, 2.6) if metric == "altitude" else (2.0, 3.0), brightness=30, contrast=5, cams=cams[1::-1], per_cam={"CAM1": (20, 4), "CAM10": (40, 7)})
            dives.append((d, cams))
        lo, hi = (2.0, 2.6) if metric == "altitude" else (2.0, 3.0)
        what = "two dives, " + metric
        with rec.guard("outputs", what):
            again = []
            if case.get("again"):
                # parameters of a first run with another range are there
                for d, cams in dives:
                    d.config(metric=metric, smoothing="mean", parse=(2.0, 2.5) if metric == "altitude" else (2.0, 2.8), brightness=30, contrast=5, cams=cams[1::-1], per_cam={"CAM1": (20, 4), "CAM10": (40, 7)})
                I.run("parse", *[d.dive.raw for d, _ in dives], memmap=td / "mm")
                for d, cams in dives:
                    d.config(metric=metric, smoothing="mean", parse=(lo, hi), brightness=30, contrast=5, cams=cams[1::-1], per_cam={"CAM1": (20, 4), "CAM10": (40, 7)})
                again = ["-F"]
            I.run("parse", *again, *[d.dive.raw for d, _ in dives], memmap=td / "mm")
            leftovers(rec, td / "mm", what)
            for n in range(2):
                prms = [load_params(rec, d, cams[n], "")[0] for d, cams in dives]
                keys = ["attenuation_parameters", "correction_gains", "image_corrected_mean", "image_corrected_std"] if metric == "altitude" else ["image_raw_mean", "image_raw_std"]
                rec.check("same-parameters", all(k in p for p in prms for k in keys) and all(np.array_equal(prms[0][k], prms[1][k]) for k in keys), what + ": the dives do not get the same parameters")
                full = [p for p in prms if "images_map" in p] or prms
                idx = [pick(cams[n], lo, hi) for _, cams in dives]
                if metric == "altitude":
                    judge_params(rec, dives[0][0], dives[0][1][n], full[0], idx[0], metric, "mean", lo, hi, what, others=[(dives[1][1][n], idx[1])])
                else:
                    st = np.stack([c[n].load(c[n].images[k]) for (_, c), ii in zip(dives, idx) for k in ii])
                    rec.check("statistics", np.allclose(prms[0]["image_raw_mean"], st.mean(axis=0), atol=1e-5), what + ": mean of the raw images of both dives is wrong")
                for (d, cams), p in zip(dives, prms):
                    if n == 0:
                        I.run("process", d.dive.raw)
                    b, k = ((20, 4), (40, 7))[n]
                    judge_outputs(rec, d, cams[n], pick(cams[n], lo, hi), predict(cams[n], p, metric, b, k, C), C, "png", what + " " + cams[n].name)
                    rec.check("selection", not (d.dive.processed / "image" / "CAM").exists() or not list((d.dive.processed / "image" / "CAM").rglob("*.*")), what + ": a camera that is not configured was corrected")
            rec.seen("two", metric)


def t_workers(case, rec, rng):
    """worker processes give what one process gives"""
    from lib import watch as W

    rec.case()
    with scratch() as td:
        td = Path(td)
        d, (cam,) = make(rng, "rgb", td, altitudes(rng, bins=5, thin=False))
        d.config(metric="altitude", smoothing=case.get("smoothing", "mean_trimmed"), parse=(2.0, 2.5), brightness=30, contrast=5)
        base = d.dive.processed / "image"
        res = []
        with rec.guard("workers", "parallel run"):
            for seq in (True, False):
                I.run("parse", "-F", d.dive.raw, memmap=td / "mm", sequential=seq)
                leftovers(rec, td / "mm", "workers")
                I.run("process", "-F", d.dive.raw, sequential=seq)
                res.append({str(p.relative_to(base)): (np.load(p) if p.suffix == ".npy" else p.read_bytes()) for p in base.rglob("*") if p.suffix in (".npy", ".png", ".csv") and "bin_" not in p.name
                            and "params_" not in str(p) or p.suffix == ".npy"})
            a, b = res
            rec.check("workers", sorted(a) == sorted(b), "one process writes %d files, several %d" % (len(a), len(b)))
            bad = [k for k in a if k in b and not (np.allclose(a[k], b[k], rtol=1e-5, atol=1e-6, equal_nan=True) if k.endswith(".npy") else a[k] == b[k])]
            rec.check("workers", not bad, "several worker processes give different results: %s" % bad[:4])
            rec.check("workers", len([k for k in a if k.endswith(".png")]) == len(pick(cam, 2.0, 2.5)), "images are missing")
            rec.seen("workers", len(a))


def t_refuse(case, rec, rng):
    with scratch() as td:
        td = Path(td)
        d, (cam,) = make(rng, "grayscale", td, rng.uniform(2.0, 3.0, 6))

        def fails(*a, **k):
            rec.case()
            try:
                I.run(*a, **k)
            except SystemExit as e:
                return e.code not in (0, None)
            except Exception:
                return True
            return False

        d.config(metric="altitude", parse=(2.0, 3.0))
        rec.check("refused", fails("process", d.dive.raw), "process without parameters goes on")
        d.config(metric="uniform", parse=(2.0, 3.0))
        rec.check("refused", fails("process", d.dive.raw), "process without raw statistics goes on")
        d.config(metric="altitude", parse=(12.0, 13.0))
        rec.check("refused", fails("parse", "-F", d.dive.raw, memmap=td / "mm"), "parse without any image in the altitude range goes on")
        d.config(metric="height", parse=(2.0, 3.0))
        rec.check("refused", fails("parse", "-F", d.dive.raw, memmap=td / "mm"), "an unknown distance metric is accepted")
        d.config(method="auto", parse=(2.0, 3.0))
        rec.check("refused", fails("parse", "-F", d.dive.raw, memmap=td / "mm"), "an unknown method is accepted")
        d.config(metric="uniform", parse=(2.0, 3.0), lists={cam.name: {"parse": "empty.txt", "process": "empty.txt"}})
        (d.dive.config / "empty.txt").write_text("not_there.png\n")
        rec.check("refused", fails("parse", "-F", d.dive.raw, memmap=td / "mm"), "a list without any of the images is accepted")
        # dives that do not belong together
        two = []
        for j, nm in enumerate(("20180626_080000_sim", "20180627_090000_sim")):
            x, _ = make(rng, None, td / "two", rng.uniform(2.05, 2.95, 6), cams=[I.Cam("CAM1", "grayscale", 10, 12), I.Cam("CAM2", "grayscale", 10, 12)], name=nm, missing=0, none_alt=0, prefix="D%d" % j)
            two.append(x)
        paths = [x.dive.raw for x in two]

        def params():
            return [p for x in two for p in x.dive.processed.rglob("*.npy")]

        def reset():
            for x in two:
                x.config(metric="uniform", parse=(2.0, 3.0))

        order = int(rng.integers(0, 2))
        for what in ("method", "metric", "smoothing", "window", "number", "name", "system", "mission", "path"):
            reset()
            x = two[order]
            files = {}
            cf = x.dive.config / "correct_images.yaml"
            c = yaml.safe_load(cf.read_text())
            if what == "method":
                c["method"] = "manual_balance"
            elif what == "metric":
                c["colour_correction"]["distance_metric"] = "altitude"
            elif what == "smoothing":
                c["colour_correction"]["smoothing"] = "median"
            elif what == "window":
                c["colour_correction"]["window_size"] = 5
            elif what == "number":
                c["cameras"] = c["cameras"][:1]
            elif what == "name":
                c["cameras"][1]["camera_name"] = "CAM3"
            elif what in ("system", "mission"):
                if what == "system":
                    f = x.dive.raw / "mission.yaml"
                    files[f] = f.read_text()
                    m = yaml.safe_load(files[f])
                    m["image"]["format"] = "other"
                    f.write_text(yaml.safe_dump(m))
                for f in (x.dive.raw / "camera.yaml", x.dive.config / "camera.yaml"):
                    if f.exists():
                        files[f] = f.read_text()
                        f.write_text(files[f].replace("camera_system: sim", "camera_system: other"))
            cf.write_text(yaml.safe_dump(c))
            p = list(paths)
            if what == "path":
                p.insert(order, td / "raw" / "2018" / "auv" / "no_such_dive")
            rec.check("refused", fails("parse", "-F", *p, memmap=td / "mm") and not params(), "dives with a different %s are taken together" % what)
            for f, t in files.items():
                f.write_text(t)
        reset()
        with rec.guard("refused", "two dives that do belong together"):
            I.run("parse", "-F", *paths, memmap=td / "mm")
            rec.check("refused", len(params()) >= 4, "two dives with the same settings are not taken together")
        rec.seen("refuse", case["i"])
