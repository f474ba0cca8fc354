"""C18 images are loaded at their true value and every pixel correction is its stated formula."""
import math
import os
from pathlib import Path

import numpy as np

from lib.engine import case_rng, quiet, scratch
from lib.imgdive import mosaic

PID = "C18"
RULE = ("generated images (8 and 16 bit, 8-16 significant bits, monochrome, colour, XVIII raw, Bayer mosaics of all patterns, edge values, odd shapes, non-contiguous and "
        "read-only arrays) through the loaders and each pixel correction, compared with the formula evaluated in float64; non-trivial: distinct types, depths, shapes and settings")
REQUIRED = {"load": 60, "raw": 2, "attenuation": 60, "gain": 40, "contrast": 60, "balance": 60, "debayer": 60, "gamma": 40, "undistort": 20, "rescale": 60, "rescale-method": 60, "rescale-set": 40, "write": 40, "input-untouched": 150}


def cases(rng, tier):
    n = 8 if tier == "quick" else 120
    out = [{"kind": k} for _ in range(n) for k in ("load", "attenuation", "contrast", "balance", "debayer", "gamma", "undistort", "rescale", "write")]
    out += [{"kind": "raw", "bits": (18, 24, 20)[k % 3]} for k in range(3 if tier == "quick" else 30)]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    globals()["t_" + case["kind"]](rec, rng, *([case["bits"]] if "bits" in case else []))


def shape(rng, colour=None, big=False):
    h, w = (int(rng.integers(1, 40)), int(rng.integers(1, 40))) if not big else (int(rng.integers(12, 60)), int(rng.integers(12, 60)))
    if rng.random() < 0.25:
        w = h  # square
    while 3 in (h, w):
        w += 1
        h += 2 if h == 3 else 0
    colour = rng.random() < 0.5 if colour is None else colour
    return (h, w, 3) if colour else (h, w)


def image(rng, shp, hi=1.0):
    x = rng.uniform(0, hi, shp)
    k = rng.random(shp)
    x[k < 0.05] = 0
    x[k > 0.95] = hi
    return x.astype(np.float32)


def same(rec, a, copy):
    rec.check("input-untouched", np.array_equal(a, copy), "the correction changed the image it was given")


def t_load(rec, rng):
    from imageio.v2 import imwrite

    from correct_images.loaders import default
    from correct_images.loaders.loader import Loader

    with scratch() as root:
        for k in range(10):
            rec.case()
            shp = shape(rng)
            ext = str(rng.choice(["png", "tif"]))
            if rng.random() < 0.4:
                bits = 8
                a = rng.integers(0, 256, shp).astype(np.uint8)
                a.flat[0], a.flat[-1] = 255, 0
                want = a.astype(np.float64) / 256
            else:
                bits = int(rng.choice([8, 10, 12, 14, 16]))
                if len(shp) == 3:
                    ext = "tif"
                a = rng.integers(0, 65536, shp).astype(np.uint16)
                a.flat[0], a.flat[-1] = 65535, 0
                want = np.floor(a.astype(np.float64) / 2 ** (16 - bits)) / 2 ** bits
            p = Path(root) / ("i%d.%s" % (k, ext))
            imwrite(p, a)
            with rec.guard("load", "loader", bits=bits, ext=ext, shape=shp):
                ld = Loader()
                ld.bit_depth = bits
                with quiet():
                    ld.set_loader("default")
                for f, arg in ((ld, p), (ld, str(p)), (lambda q: default.loader(q, src_bit=bits), p)):
                    got = f(arg)
                    rec.check("load", got.shape == want.shape and np.issubdtype(got.dtype, np.floating) and np.allclose(got, want, atol=1e-7, rtol=0), "%s %s with %d bits: pixel values differ from the file's by up to %g" % (
                        ext, a.dtype, bits, np.max(np.abs(got - want)) if got.shape == want.shape else -1), shape=got.shape)
                rec.seen("load", ext, str(a.dtype), bits, len(shp))


def t_raw(rec, rng, bits=18):
    from correct_images.loaders.loader import Loader

    rec.case()
    h, w = 1024, 1280
    v = rng.integers(0, 2 ** bits, h * w).astype(np.uint32)
    v[:8] = [0, 2 ** bits - 1, 1, 255, 256, 65535, 65536, 2 ** (bits - 1)]
    b = np.stack([v >> 16, (v >> 8) & 255, v & 255], axis=1).astype(np.uint8)  # big endian, three bytes each
    words = b.reshape(-1, 4)[:, ::-1]  # stored as little endian words of four bytes
    with scratch() as root:
        p = Path(root) / "0000001.raw"
        words.tofile(p)
        with rec.guard("raw", "XVIII loader"):
            ld = Loader()
            ld.bit_depth = bits
            with quiet():
                ld.set_loader("xviii")
            got = ld(p)
            rec.check("raw", got.shape == (h, w) and np.allclose(got, v.reshape(h, w) / 2.0 ** bits, atol=1e-7, rtol=0), "XVIII pixels of %d bits differ" % bits)
            rec.seen("raw", int(v[100]))


def t_attenuation(rec, rng):
    from correct_images import corrections as C

    for _ in range(10):
        rec.case()
        shp = shape(rng)
        h, w = shp[:2]
        c = 3 if len(shp) == 3 else 1
        prm = np.stack([rng.uniform(0.1, 3, (c, h, w)), -rng.uniform(0, 0.8, (c, h, w)), rng.uniform(0.001, 0.1, (c, h, w))], axis=-1).astype(np.float32)
        target = float(rng.uniform(1, 9))
        with rec.guard("gain", "gains"):
            g = C.calculate_correction_gains(target, prm, h, w, c)
            p8 = prm.astype(np.float64)
            want = p8[..., 0] * np.exp(p8[..., 1] * target) + p8[..., 2]
            rec.check("gain", g.shape == (c, h, w) and np.allclose(g, want, rtol=1e-5), "gain is not the modelled intensity at the target distance")
            img = image(rng, shp)
            if rng.random() < 0.5:
                d = np.full((h, w), float(rng.uniform(1, 9)))
            else:
                d = rng.uniform(1, 9, (h, w))
            cp = img.copy()
            img.setflags(write=False)
            got = C.attenuation_correct(img, d, prm, g)
            same(rec, img, cp)
            model = np.moveaxis(p8[..., 0] * np.exp(p8[..., 1] * d) + p8[..., 2], 0, -1)
            exp = cp.astype(np.float64) * (np.moveaxis(want, 0, -1) / model).reshape(shp)
            rec.check("attenuation", got.shape == shp and np.allclose(got, exp, rtol=1e-4, atol=1e-6), "corrected value is not gain divided by modelled intensity times the pixel (worst %g)" % np.max(np.abs(got - exp)), shape=shp)
            at = C.attenuation_correct(img, np.full((h, w), target), prm, g)
            rec.check("attenuation", np.allclose(at, cp, rtol=1e-4, atol=1e-6), "an image taken at the target distance was changed")
            rec.seen("att", shp, round(target, 1))


def t_contrast(rec, rng):
    from correct_images import corrections as C

    for _ in range(12):
        rec.case()
        shp = shape(rng)
        img = image(rng, shp, 1.5)
        mean, std = rng.uniform(0.1, 0.8, shp).astype(np.float32), rng.uniform(0.01, 0.3, shp).astype(np.float32)
        b, k = float(rng.choice([30, 10, 50, 0, 100])), float(rng.choice([3, 5, 10, 1, 20]))
        cp = img.copy()
        with rec.guard("contrast", "pixel statistics"):
            got = C.pixel_stat(img, mean, std, b, k)
            same(rec, img, cp)
            exp = np.clip((cp.astype(np.float64) - mean) / std * (k / 100) + b / 100, 0, 1)
            rec.check("contrast", got.shape == shp and np.allclose(got, exp, atol=2e-5), "brightness %g, contrast %g: worst difference %g" % (b, k, np.max(np.abs(got - exp))))
            n = 60
            stack = np.clip(rng.normal(0.4, 0.02, (n,) + shp), 0.2, 0.6)
            m, s = stack.mean(axis=0), stack.std(axis=0)
            out = np.stack([C.pixel_stat(x, m, s, 50.0, 5.0) for x in stack])
            rec.check("contrast", np.allclose(out.mean(axis=0), 0.5, atol=1e-6) and np.allclose(out.std(axis=0), 0.05, atol=1e-6), "a set of images does not get the requested mean and spread")
            rec.seen("px", shp, b, k)


def t_balance(rec, rng):
    from correct_images import corrections as C

    for _ in range(12):
        rec.case()
        shp = shape(rng)
        img = image(rng, shp)
        m = rng.uniform(-0.5, 2, (3, 3))
        s = rng.uniform(0, 0.3, 3)
        cp = img.copy()
        with rec.guard("balance", "manual balance"):
            got = C.manual_balance(img, m, s)
            same(rec, img, cp)
            x = cp.astype(np.float64)
            exp = (x - s) @ m.T if len(shp) == 3 else (x - s[0]) * m[0, 0]
            rec.check("balance", got.shape == shp and np.allclose(got, exp, atol=1e-5), "manual balance differs from matrix times (pixel minus subtractor) by up to %g" % np.max(np.abs(got - exp)), shape=shp)
            rec.check("balance", np.allclose(C.manual_balance(img, np.eye(3), np.zeros(3)), cp, atol=1e-6), "unit gains and no subtractors changed the image")
            rec.seen("bal", shp)


def t_debayer(rec, rng):
    from correct_images import corrections as C

    for pat in ("rggb", "grbg", "bggr", "gbrg"):
        for name in (pat, pat.upper()):
            rec.case()
            h, w = 2 * int(rng.integers(4, 20)), 2 * int(rng.integers(4, 20))
            rgb = rng.uniform(0, 0.99, 3)
            ch = mosaic(pat, h, w)
            img = rgb[ch].astype(np.float32)
            cp = img.copy()
            with rec.guard("debayer", "debayer " + name):
                got = C.debayer(img, name)
                same(rec, img, cp)
                rec.check("debayer", got.shape == (h, w, 3) and np.allclose(got, rgb, atol=1e-4), "%s: a uniform colour %s becomes %s" % (name, rgb, got[h // 2, w // 2]))
                # smooth scene: each site keeps its own colour's value, others are close
                yy, xx = np.mgrid[0:h, 0:w]
                full = np.stack([0.2 + 0.5 * xx / w, 0.8 - 0.4 * yy / h, 0.3 + 0.2 * (xx + yy) / (h + w)], axis=-1)
                got = C.debayer(np.take_along_axis(full, ch[..., None], axis=2)[..., 0].astype(np.float32), name)
                own = np.take_along_axis(got, ch[..., None], axis=2)[..., 0]
                want = np.take_along_axis(full, ch[..., None], axis=2)[..., 0]
                rec.check("debayer", np.allclose(own[2:-2, 2:-2], want[2:-2, 2:-2], atol=1e-4), "%s: a site does not keep its own colour's value" % name)
                rec.check("debayer", np.allclose(got[2:-2, 2:-2], full[2:-2, 2:-2], atol=0.5 / min(h, w)), "%s: a smooth scene is off by %g" % (name, np.max(np.abs(got - full)[2:-2, 2:-2])))
                over = C.debayer((img * 0 + 1.7).astype(np.float32), name)
                rec.check("debayer", np.allclose(over, 1, atol=1e-4), "%s: over-exposed pixels become %g" % (name, over.mean()))
                rec.seen("bayer", name, h, w)
    with rec.guard("debayer", "unknown pattern"):
        try:
            with quiet():
                C.debayer(np.zeros((8, 8), np.float32), "rgbg")
            ok = False
        except SystemExit:
            ok = True
        rec.check("debayer", ok, "an unknown pattern was accepted")


def t_gamma(rec, rng):
    from correct_images import corrections as C

    for _ in range(8):
        rec.case()
        shp = shape(rng)
        img = image(rng, shp)
        if img.max() < 0.0031308:
            img.flat[0] = 0.5
        cp = img.copy()
        with rec.guard("gamma", "gamma"):
            got = C.gamma_correct(img)
            same(rec, img, cp)
            exp = 1.055 * np.power(cp.astype(np.float64), 1 / 1.5) - 0.055
            rec.check("gamma", got.shape == shp and np.allclose(got, exp, atol=1e-5), "gamma curve off by %g" % np.max(np.abs(got - exp)))
            o = np.argsort(cp, axis=None)
            rec.check("gamma", np.all(np.diff(got.ravel()[o]) >= -1e-7), "gamma correction does not keep the order of intensities")
            dark = (image(rng, shp) * 0.003).astype(np.float32)
            g = C.gamma_correct(dark)
            rec.check("gamma", np.allclose(g, 12.92 * dark.astype(np.float64), atol=1e-6), "a dark image is not on the linear part of the curve")
            one = np.ones(shp, np.float32)
            rec.check("gamma", np.allclose(C.gamma_correct(one), 1, atol=1e-6), "white is not kept")
            rec.seen("gamma", shp)


def calib(rng, p, w, h, strong=True):
    f = float(rng.uniform(0.9, 1.4)) * w
    K = np.array([[f, 0, w / 2 + rng.uniform(-3, 3)], [0, f * rng.uniform(0.97, 1.03), h / 2 + rng.uniform(-3, 3)], [0, 0, 1]])
    d = np.array([rng.uniform(-0.2, 0.2), rng.uniform(-0.05, 0.05), rng.uniform(-0.004, 0.004), rng.uniform(-0.004, 0.004), 0.0]) * (1 if strong else 0)
    mat = lambda name, m: "%s: !!opencv-matrix\n  rows: %d\n  cols: %d\n  dt: d\n  data: [%s]\n" % (name, m.shape[0], m.shape[1], ", ".join("%.17g" % x for x in m.ravel()))  # noqa: E731
    p.write_text("%%YAML:1.0\nimage_width: %d\nimage_height: %d\ncamera_name: cam\n" % (w, h) + mat("camera_matrix", K) + "distortion_model: plumb_bob\n" + mat("distortion_coefficients", d.reshape(1, 5))
                 + mat("rectification_matrix", np.eye(3)) + mat("projection_matrix", np.hstack([K, np.zeros((3, 1))])))
    return K, d


def t_undistort(rec, rng):
    import cv2

    from correct_images import corrections as C

    with scratch() as root:
        for strong in (False, True, True):
            for colour in (False, True):
                rec.case()
                h, w = int(rng.integers(30, 60)), int(rng.integers(61, 90))
                K, d = calib(rng, Path(root) / "mono.yaml", w, h, strong)
                field = lambda x, y: np.stack([0.5 + 0.3 * np.sin(x / 9.0) * np.cos(y / 11.0), 0.2 + 0.6 * x / w, 0.9 - 0.5 * y / h], axis=-1)[..., slice(None) if colour else 0]  # noqa: E731
                yy, xx = np.mgrid[0:h, 0:w].astype(float)
                img = field(xx, yy).astype(np.float32)
                cp = img.copy()
                with rec.guard("undistort", "distortion"):
                    got = C.distortion_correct(Path(root) / "mono.yaml", img)
                    same(rec, img, cp)
                    nk, _ = cv2.getOptimalNewCameraMatrix(K, d, (w, h), 0)
                    x, y = (xx - nk[0, 2]) / nk[0, 0], (yy - nk[1, 2]) / nk[1, 1]
                    r2 = x * x + y * y
                    rad = 1 + d[0] * r2 + d[1] * r2 ** 2
                    xd = x * rad + 2 * d[2] * x * y + d[3] * (r2 + 2 * x * x)
                    yd = y * rad + d[2] * (r2 + 2 * y * y) + 2 * d[3] * x * y
                    u, v = K[0, 0] * xd + K[0, 2], K[1, 1] * yd + K[1, 2]
                    ok = (u > 1) & (u < w - 2) & (v > 1) & (v < h - 2)
                    exp = field(u, v)
                    err = np.abs(got - exp)[ok]
                    rec.check("undistort", got.shape == img.shape and ok.mean() > 0.5 and err.max() < 0.02, "undistorted image differs from the camera model by %g" % (err.max() if ok.any() else -1), d=d)
                    if not strong:
                        rec.check("undistort", np.abs(got - img)[2:-2, 2:-2].max() < 0.03, "an image without distortion was changed")
                    rec.seen("und", strong, colour, h, w)


def t_rescale(rec, rng):
    from correct_images import corrections as C

    for method in ("bicubic", "bilinear", "nearest_neighbour", "lanczos"):
        for keep in (False, True):
            for scale in (float(rng.uniform(0.3, 0.9)), float(rng.uniform(1.2, 3.0))):
                rec.case()
                h, w = int(rng.integers(30, 60)), int(rng.integers(61, 90))
                alt, fx = float(rng.uniform(1, 9)), float(rng.uniform(400, 2000))
                fy = fx * float(rng.uniform(0.95, 1.05))
                target = alt / fx / scale
                sh, sv = scale, alt / fy / target
                with rec.guard("rescale", method, keep=keep, scale=scale):
                    flat = np.full((h, w, 3), [40, 130, 220], np.uint8)
                    got = C.rescale(flat, method, target, alt, fx, fy, keep)
                    size = (h, w) if keep else (int(h * sv), int(w * sh))
                    near = abs(got.shape[0] - size[0]) <= 1 and abs(got.shape[1] - size[1]) <= 1 if not keep else got.shape[:2] == size
                    rec.check("rescale", near and got.shape[2] == 3 and got.dtype == np.uint8 and np.all(np.abs(got.astype(int) - [40, 130, 220]) <= 1), "uniform image %s becomes %s" % (flat.shape, got.shape))
                    ramp = np.zeros((h, w, 3), np.uint8)
                    ramp[..., 0] = np.round(np.linspace(20, 235, w))[None, :]
                    ramp[..., 1] = np.round(np.linspace(20, 235, h))[:, None]
                    got = C.rescale(ramp, method, target, alt, fx, fy, keep).astype(float)
                    H, W = got.shape[:2]
                    if keep and min(sh, sv) >= 1:
                        gx = ((np.arange(W) + 0.5) / W - 0.5) / sh * w + w / 2 - 0.5
                        gy = ((np.arange(H) + 0.5) / H - 0.5) / sv * h + h / 2 - 0.5
                    else:
                        gx, gy = (np.arange(W) + 0.5) / W * w - 0.5, (np.arange(H) + 0.5) / H * h - 0.5
                    ex, ey = 20 + 215 * gx / (w - 1), 20 + 215 * gy / (h - 1)
                    m = 4
                    tol = 215 / (min(h, w) - 1) * (1.8 if method != "nearest_neighbour" else 2.3) / min(1, sh, sv) + 2
                    e = max(np.abs(got[m:-m, m:-m, 0] - ex[None, m:-m]).max(), np.abs(got[m:-m, m:-m, 1] - ey[m:-m, None]).max())
                    rec.check("rescale", e < tol, "%s (same size %s, factor %.2f): content off by %.1f grey values" % (method, keep, scale, e), tol=tol)
                    # a step edge: the new values between two levels are those of the method asked for
                    edge = np.full((h, w, 3), 60, np.uint8)
                    edge[:, w // 2:] = 190
                    got = C.rescale(edge, method, target, alt, fx, fy, keep)
                    vals = np.unique(got)
                    if method == "nearest_neighbour":
                        good = set(vals) <= {60, 190}
                    elif method == "bilinear":
                        good = vals.min() >= 60 and vals.max() <= 190
                    else:
                        good = True
                    if scale > 1:
                        over = vals.min() < 59 and vals.max() > 191
                        good = good and (over or method in ("nearest_neighbour", "bilinear")) and (len(vals) > 2 or method == "nearest_neighbour")
                    rec.check("rescale-method", good, "%s (same size %s, factor %.2f): a step from 60 to 190 has values from %d to %d" % (method, keep, scale, vals.min(), vals.max()))
                    rec.seen("rs", method, keep, scale > 1)
    rescale_set(rec, rng)
    with rec.guard("rescale", "unknown method"):
        try:
            with quiet():
                C.rescale(np.zeros((8, 8, 3), np.uint8), "cubic", 0.01, 2.0, 300.0, 300.0, False)
            ok = False
        except SystemExit:
            ok = True
        rec.check("rescale", ok, "an unknown method was accepted")


def rescale_set(rec, rng):
    """rescaling a camera: every image of the folder at its own distance, under its own name"""
    import pandas as pd
    from imageio.v2 import imwrite

    import importlib

    R = importlib.import_module("correct_images.corrections.rescale")

    rec.case()
    names = ["1", "11", "2", "12", "IM_1", "IM_11", "a.b", "a"]
    ext = [str(rng.choice(["png", "jpg", "tif"])) for _ in names]
    rng.shuffle(names)
    h, w = 24, 36
    fx = float(rng.uniform(400, 2000))
    fy = fx * float(rng.uniform(0.9, 1.1))
    with scratch() as root:
        root = Path(root)
        proc = root / "processed" / "dive"
        src, out = proc / "image" / "CAM1" / "developed", proc / "scaled" / "CAM1"
        (proc / "calibration").mkdir(parents=True)
        (proc / "json" / "csv" / "ekf").mkdir(parents=True)
        (root / "raw" / "dive").mkdir(parents=True)
        src.mkdir(parents=True)
        K = np.array([[fx, 0, w / 2], [0, fy, h / 2], [0, 0, 1]])
        mat = lambda name, m: "%s: !!opencv-matrix\n  rows: %d\n  cols: %d\n  dt: d\n  data: [%s]\n" % (name, m.shape[0], m.shape[1], ", ".join("%.17g" % x for x in m.ravel()))  # noqa: E731
        (proc / "calibration" / "mono_CAM1.yaml").write_text("%%YAML:1.0\nimage_width: %d\nimage_height: %d\ncamera_name: cam\n" % (w, h) + mat("camera_matrix", K) + "distortion_model: plumb_bob\n"
                                                             + mat("distortion_coefficients", np.zeros((1, 5))) + mat("rectification_matrix", np.eye(3)) + mat("projection_matrix", np.hstack([K, np.zeros((3, 1))])))
        alts, imgs, rows = {}, {}, []
        for n, e in zip(names, ext):
            alts[n] = float(rng.uniform(2, 9))
            imgs[n] = rng.integers(0, 256, (h, w, 3)).astype(np.uint8)
            imwrite(src / (n + "." + e), imgs[n])
            rows.append({"relative_path": "image/CAM1/%s.%s" % (n, "tif"), "altitude [m]": alts[n]})
        lost = names[int(rng.integers(0, len(names)))]  # an image without a distance gets no output
        rows = [r for r in rows if Path(r["relative_path"]).stem != lost]
        rows += [{"relative_path": "image/CAM1/not_there.tif", "altitude [m]": 4.0}]
        order = rng.permutation(len(rows))
        pd.DataFrame([rows[i] for i in order]).to_csv(proc / "json" / "csv" / "ekf" / "auv_ekf_CAM1.csv")
        (src / "notes.txt").write_text("x")
        target = float(np.mean(list(alts.values())) / fx)
        keep, method = bool(rng.random() < 0.5), str(rng.choice(["bicubic", "bilinear", "nearest_neighbour", "lanczos"]))

        class Cam:
            camera_name, path, distance_path, interpolate_method, target_pixel_size, maintain_pixels, output_folder = "CAM1", "image/CAM1/developed", "json", method, target, keep, "scaled/CAM1"

        class Other:
            name = "CAM1"

        class System:
            cameras = [Other]

        done, real = {}, R.imwrite

        def stand_in(p, im, **kw):  # the FreeImage plugin has to be downloaded
            done[Path(p)] = np.asarray(im)

        R.imwrite = stand_in
        try:
            with rec.guard("rescale-set", "rescaling a camera"):
                with quiet():
                    R.rescale_camera(root / "raw" / "dive", System, Cam)
                want = {out / (n + "." + e): n for n, e in zip(names, ext) if n != lost}
                rec.check("rescale-set", set(done) == set(want), "rescaled images %s instead of %s" % (sorted(p.name for p in done), sorted(p.name for p in want)))
                for p, n in want.items():
                    if p in done:
                        from imageio.v2 import imread
                        exp = R.rescale(np.asarray(imread(src / p.name)), method, target, alts[n], fx, fy, keep)
                        rec.check("rescale-set", done[p].shape == exp.shape and np.array_equal(done[p], exp), "%s was not rescaled at its own distance of %.2f m" % (p.name, alts[n]))
                rec.seen("rset", keep, method, lost)
        finally:
            R.imwrite = real


def t_write(rec, rng):
    from imageio.v2 import imread

    from correct_images.tools.file_handlers import write_output_image

    with scratch() as root:
        for fmt in ("png", "tif", "tiff", "jpg", "bmp"):
            for colour in (False, True):
                rec.case()
                shp = shape(rng, colour, big=True)
                img = rng.integers(0, 256, shp).astype(np.uint8)
                if fmt == "jpg":
                    img = np.broadcast_to(np.linspace(30, 200, shp[1])[None, :, None] if colour else np.linspace(30, 200, shp[1])[None, :], shp).astype(np.uint8).copy()
                cp = img.copy()
                with rec.guard("write", fmt):
                    name = "IM_%05d.v1" % rng.integers(0, 99999)
                    p = write_output_image(img, name, Path(root), fmt)
                    rec.check("write", Path(p) == Path(root) / (name + "." + fmt) and Path(p).exists(), "written to %s" % p)
                    back = np.asarray(imread(p))
                    rec.check("write", back.shape == cp.shape and (np.array_equal(back, cp) if fmt != "jpg" else np.abs(back.astype(int) - cp).max() < 12), "%s image reads back differently" % fmt)
                    same(rec, img, cp)
                    rec.seen("write", fmt, colour)
