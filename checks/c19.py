"""C19 per-pixel statistics and the attenuation model over sets of images."""
from pathlib import Path

import numpy as np

from lib import imgdive as I
from lib.engine import case_rng, quiet, scratch

PID = "C19"
RULE = ("generated sets of 1-60 images (monochrome and colour, non-square, over-exposed pixels, unlit pixels, outliers, missing values) through every statistic, the memory maps "
        "and the exponential fit; oracle: the definition in float64, or the curve the data were made from; non-trivial: distinct sizes, shapes, outlier shares and curves")
REQUIRED = {"running": 60, "files": 40, "zeroes": 20, "median": 30, "trimmed": 60, "ransac": 40, "mean-std": 20, "memmap": 60, "fit-curve": 200, "fit-bounds": 200, "fit-skips": 100, "fit-empty": 20,
            "fit-layout": 30}
CASE_TIMEOUT = 120


def cases(rng, tier):
    n = 8 if tier == "quick" else 150
    out = [{"kind": k} for _ in range(n) for k in ("running", "files", "stats", "ransac", "memmap", "fit", "layout")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    globals()["t_" + case["kind"]](rec, rng)


def shape(rng, colour=None):
    h, w = int(rng.integers(2, 9)), int(rng.integers(10, 15))
    return (h, w, 3) if (rng.random() < 0.5 if colour is None else colour) else (h, w)


def t_running(rec, rng):
    from correct_images.tools.numerical import RunningMeanStd

    for _ in range(8):
        rec.case()
        shp = shape(rng)
        n = int(rng.choice([2, 3, 5, 20, 60]))
        clip = float(rng.choice([0.95, 0.95, 0.5]))
        ims = rng.uniform(0, 0.9 * clip, (n,) + shp)
        hot = rng.random((n,) + shp) < rng.choice([0, 0.1, 0.5])
        hot[0] = False
        ims[hot] = rng.uniform(clip * 1.01, 3, int(hot.sum()))
        ims[:, 0, 0] = 0.25  # constant pixel
        ims = ims.astype(np.float32)
        with rec.guard("running", "running statistics", n=n):
            dims = list(shp) if len(shp) == 3 else list(shp) + [1]
            r = RunningMeanStd(dims) if clip == 0.95 else RunningMeanStd(dims, clip)
            m, m2 = np.zeros(shp), np.zeros(shp)
            for k in range(n):
                if k < 2:
                    rec.check("running", (r.mean is None) and (r.std is None), "statistics after %d images" % k)
                x = ims[k].astype(np.float64)
                r.compute(ims[k].copy() if rng.random() < 0.5 else ims[k].reshape(dims).copy())
                x = np.where(x > clip, m, x)
                d = x - m
                m = m + d / (k + 1)
                m2 = m2 + d * (x - m)
            sd = np.maximum(np.sqrt(m2 / n), 1e-6)
            rec.check("running", r.mean.shape == shp and np.allclose(r.mean, m, atol=1e-5), "running mean of %d images off by %g" % (n, np.max(np.abs(r.mean - m))))
            rec.check("running", r.std.shape == shp and np.allclose(r.std, sd, atol=5e-4), "running spread of %d images off by %g" % (n, np.max(np.abs(r.std - sd))))
            rec.check("running", np.all(r.std > 0) and np.all(np.isfinite(r.std)), "spread is not positive")
            if not hot.any():
                rec.check("running", np.allclose(r.mean, ims.mean(axis=0), atol=1e-5) and np.allclose(r.std, np.maximum(ims.std(axis=0), 1e-6), atol=5e-4), "not the mean and spread of the set")
            rec.seen("run", shp, n, bool(hot.any()))


def t_files(rec, rng):
    from correct_images.loaders import depth_map
    from correct_images.loaders.loader import Loader
    from correct_images.tools.numerical import running_mean_std
    from imageio.v2 import imwrite

    with scratch() as root:
        for _ in range(6):
            rec.case()
            shp = shape(rng)
            n = int(rng.choice([1, 2, 7, 30]))
            a = rng.integers(0, 256, (n,) + shp).astype(np.uint8)
            fs = []
            for k in range(n):
                fs.append(Path(root) / ("f%d.png" % k))
                imwrite(fs[-1], a[k])
            ld = Loader()
            ld.bit_depth = 8
            with quiet():
                ld.set_loader("default")
            with rec.guard("files", "mean of files"):
                m, s = running_mean_std(fs if rng.random() < 0.5 else [str(f) for f in fs], loader=ld)
                x = a / 256.0
                rec.check("files", np.allclose(m, x.mean(axis=0), atol=1e-5) and np.allclose(s, x.std(axis=0), atol=5e-4), "mean or spread of %d files is wrong" % n)
            z = rng.uniform(1, 9, (max(n, 2),) + shp[:2])
            hole = rng.random(z.shape) < 0.3
            hole[0] = False
            z[hole] = 0
            gs = []
            for k in range(len(z)):
                gs.append(Path(root) / ("m%d.npy" % k))
                np.save(gs[-1], z[k])
            with rec.guard("zeroes", "mean of depth maps"):
                m, s = running_mean_std(gs, loader=depth_map.loader, width=shp[1], height=shp[0], ignore_zeroes=True)
                # a pixel without a distance counts as the mean so far, so it does not move the mean
                ref = np.zeros(shp[:2])
                for k in range(len(z)):
                    ref += np.where(z[k] == 0, 0, (z[k] - ref) / (k + 1))
                rec.check("zeroes", np.allclose(m, ref, atol=1e-4), "mean of depth maps with holes off by %g" % np.max(np.abs(m - ref)))
                lo = np.where(z == 0, np.inf, z).min(axis=0)
                rec.check("zeroes", np.all(m >= lo - 1e-4), "holes in the depth maps pull the mean below every measured distance")
                rec.seen("files", shp, n)


def t_stats(rec, rng):
    from correct_images.tools.numerical import image_mean_std_trimmed, mean_std, median_array

    for _ in range(8):
        rec.case()
        shp = shape(rng)
        n = int(rng.choice([2, 3, 4, 11, 20, 47]))
        x = rng.uniform(0, 1, (n,) + shp).astype(np.float32)
        bad = rng.random(x.shape) < 0.08
        x[bad] = rng.choice([0.0, 1.0, 5.0], int(bad.sum()))
        x8 = x.astype(np.float64)
        full = shp if len(shp) == 3 else shp + (1,)
        with rec.guard("median", "median", n=n):
            got = median_array(x)
            rec.check("median", got.shape == shp and np.allclose(got, np.median(x8, axis=0), atol=1e-6), "median of %d images differs" % n)
        with rec.guard("trimmed", "trimmed mean", n=n):
            with quiet():
                m, s = image_mean_std_trimmed(x)
            so = np.sort(x8, axis=0)[int(n * 0.1):int(n * 0.9)]
            rec.check("trimmed", m.shape == full and np.allclose(m.reshape(shp), so.mean(axis=0), atol=1e-5), "mean of the middle 80 %% of %d images is wrong" % n)
            rec.check("trimmed", s.shape == full and np.allclose(s.reshape(shp), so.std(axis=0), atol=1e-4), "spread of the middle 80 %% of %d images is wrong" % n)
            r = float(rng.choice([0.1, 0.4, 0.0]))
            with quiet():
                m = image_mean_std_trimmed(x, r, calculate_std=False)
            so = np.sort(x8, axis=0)[int(n * r / 2):int(n * (1 - r / 2))]
            rec.check("trimmed", m.shape == full and np.allclose(m.reshape(shp), so.mean(axis=0), atol=1e-5), "mean with trimming %g is wrong" % r)
        with rec.guard("mean-std", "mean and spread", n=n):
            y = x[..., 0] if len(shp) == 3 else x
            m, s = mean_std(np.ascontiguousarray(y))
            rec.check("mean-std", np.allclose(m, y.astype(float).mean(axis=0), atol=1e-5) and np.allclose(s, y.astype(float).std(axis=0), atol=1e-4), "mean or spread is wrong")
            rec.check("mean-std", np.allclose(mean_std(np.ascontiguousarray(y), False), m), "mean alone differs")
        rec.seen("stats", shp, n)


def t_ransac(rec, rng):
    from correct_images.tools.numerical import ransac_mean_std

    for _ in range(8):
        rec.case()
        shp = shape(rng)
        n = int(rng.choice([5, 12, 40]))
        share = float(rng.choice([0.0, 0.2, 0.4]))
        base = rng.uniform(0.0, 0.4, shp)
        x = base + rng.uniform(-0.03, 0.03, (n,) + shp)
        k = int(share * n)
        if k:
            for _s in range(1):
                x[:k] = base + rng.uniform(0.45, 0.6, (k,) + shp)
            x = rng.permuted(x, axis=0)
        x = x.astype(np.float32)
        x8 = x.astype(np.float64)
        inl = np.abs(x8 - base) < 0.1
        want = np.where(inl, x8, 0).sum(axis=0) / inl.sum(axis=0)
        sd = np.sqrt(np.where(inl, (x8 - want) ** 2, 0).sum(axis=0) / inl.sum(axis=0))
        with rec.guard("ransac", "robust mean", n=n, outliers=share):
            m, s = ransac_mean_std(x, max_iterations=1000, threshold=0.1, sample_size=2)
            rec.check("ransac", np.allclose(m.reshape(shp), want, atol=1e-4), "robust mean of %d images with %d outliers off by %g" % (n, k, np.max(np.abs(m.reshape(shp) - want))))
            rec.check("ransac", np.allclose(s.reshape(shp), sd, atol=1e-3), "robust spread of %d images with %d outliers is wrong" % (n, k))
            rec.seen("ransac", shp, n, k)


def t_memmap(rec, rng):
    from imageio.v2 import imwrite

    from correct_images.loaders.loader import Loader
    from correct_images.tools import memmap as M

    ld = Loader()
    ld.bit_depth = 8
    with scratch() as root, quiet():
        ld.set_loader("default")
        loc = Path(root) / "maps" / "deep"
        names = []
        for _ in range(4):
            rec.case()
            shp = shape(rng)
            n = int(rng.integers(1, 12))
            a = rng.integers(0, 256, (n,) + shp).astype(np.uint8)
            fs = []
            for k in range(n):
                fs.append(Path(root) / ("f%d.png" % k))
                imwrite(fs[-1], a[k])
            dims = list(shp) if len(shp) == 3 else list(shp) + [1]
            with rec.guard("memmap", "image map"):
                fn, h = M.create_memmap(fs, dims, loc, loader=ld)
                names.append(fn)
                rec.check("memmap", h.shape == (n,) + shp and h.dtype == np.float32 and np.allclose(h, a / 256.0, atol=1e-6), "the map does not hold the images in order")
                rec.check("memmap", Path(fn).parent == loc and Path(fn).exists() and Path(fn).stat().st_size == h.nbytes, "map file %s" % fn)
                back = np.memmap(fn, mode="r", dtype=np.float32, shape=h.shape)
                rec.check("memmap", np.array_equal(back, h), "the file does not hold the map")
            with rec.guard("memmap", "resized map"):
                flat = Path(root) / "flat.png"
                imwrite(flat, np.full(shp, 77, np.uint8))
                dd = [shp[0] * 2, shp[1] * 3] + dims[2:]
                fn, h = M.create_memmap([flat, flat], dd, loc, loader=ld)
                names.append(fn)
                rec.check("memmap", h.shape == (2,) + tuple(dd[:2]) + shp[2:] and np.allclose(h, 77 / 256.0, atol=1e-5), "images of another size are not brought to the size of the map")
            with rec.guard("memmap", "maps of arrays"):
                fn, h = M.open_memmap(shape=(n, 4, 3), dtype=np.float32, memmap_location=loc)
                names.append(fn)
                rec.check("memmap", h.shape == (n, 4, 3) and np.all(h == 0), "a new map is not empty")
                arr = rng.uniform(0, 1, (n, 3, 2))
                fn, h = M.convert_to_memmap(arr, loc)
                names.append(fn)
                rec.check("memmap", h.dtype == arr.dtype and np.array_equal(h, arr), "an array and its map differ")
            rec.seen("map", shp, n)
        rec.check("memmap", len(set(names)) == len(names), "two maps share a file")


def t_fit(rec, rng):
    from correct_images.tools.curve_fitting import curve_fitting

    for _ in range(40):
        rec.case()
        n = int(rng.integers(6, 40))
        a, b, c = float(rng.uniform(0.3, 2.5)), -float(rng.uniform(0.1, 0.8)), float(rng.uniform(0.0, 0.05))
        lo = float(rng.uniform(1, 5))
        d = np.linspace(lo, lo + rng.uniform(1.0, 5.0), n)
        clean = a * np.exp(b * d) + c
        noise = float(rng.choice([0.0, 0.0, 0.01, 0.03]))
        y = clean * (1 + noise * rng.standard_normal(n))
        if rng.random() < 0.3:
            o = rng.permutation(n)
            d, y, clean = d[o], y[o], clean[o]
        with rec.guard("fit-curve", "fit", a=a, b=b, c=c, n=n, noise=noise):
            p = np.asarray(curve_fitting(d.astype(np.float32), y.astype(np.float32), 0, 0, None), float)
            fit = p[0] * np.exp(p[1] * d) + p[2]
            err = np.max(np.abs(fit - clean) / clean)
            rec.check("fit-curve", p.shape == (3,) and err < (0.02 if noise == 0 else 0.02 + 4 * noise), "the fitted curve is %.1f %% off the curve of the data (noise %.0f %%)" % (100 * err, 100 * noise), a=a, b=b, c=c, n=n, fitted=p)
            rec.check("fit-bounds", p[0] > 0 and p[1] <= 0 and 0 <= p[2] <= y.min() * (1 + 1e-5) + 1e-12, "fitted curve does not decay to a level between zero and the darkest value: %s" % p)
            # values that are missing are left out, pairwise
            extra_d, extra_y = [], []
            for _e in range(int(rng.integers(1, 8))):
                extra_d.append(float(rng.choice([np.nan, 0.0, rng.uniform(lo, lo + 3)])))
                extra_y.append(float(rng.choice([np.nan, 0.0])) if not (extra_d[-1] != extra_d[-1] or extra_d[-1] == 0) else float(rng.uniform(0, 1)))
            # put them between the others, so that leaving one list's entry out shifts the pairs
            pos = np.sort(rng.integers(0, n, len(extra_d)))
            d2, y2 = np.insert(d, pos, extra_d), np.insert(y, pos, extra_y)
            q = np.asarray(curve_fitting(d2.astype(np.float32), y2.astype(np.float32), 0, 0, None), float)
            f2 = q[0] * np.exp(q[1] * d) + q[2]
            rec.check("fit-skips", np.allclose(f2, fit, rtol=1e-3), "missing values change the fitted curve by %.2f %%" % (100 * np.max(np.abs(f2 - fit) / fit)), missing=list(zip(extra_d, extra_y)))
            rec.seen("fit", n, noise, round(b, 1))
    for _ in range(30):
        # data that no decaying exponential fits: the curve still obeys its bounds
        n = int(rng.choice([1, 2, 3, 5, 10, 30]))
        d = np.sort(rng.uniform(1, 9, n))
        kind = str(rng.choice(["grow", "concave", "noise", "const", "linear", "spike", "same"]))
        y = {"grow": 0.1 + 0.05 * d, "concave": 1 - 0.01 * np.exp(0.4 * d), "noise": rng.uniform(0.01, 1, n), "const": np.full(n, 0.4), "linear": 1 - 0.09 * d,
             "spike": np.where(np.arange(n) == n // 2, 0.9, 0.1), "same": rng.uniform(0.1, 1, n)}[kind]
        if kind == "same":
            d[:] = 3.0
        with rec.guard("fit-bounds", "fit of " + kind, n=n):
            with quiet():
                p = np.asarray(curve_fitting(d.astype(np.float32), y.astype(np.float32), 0, 0, None), float)
            rec.check("fit-bounds", np.isfinite(p).all() and p[0] > 0 and p[1] <= 0 and 0 <= p[2] <= y.min() * (1 + 1e-5), "%s data (%d values): the fitted curve grows or has an offset outside zero and the darkest value: %s" % (kind, n, p))
            rec.seen("hostile", kind, n)
    for bad in (([np.nan, np.nan], [0.2, 0.3]), ([2.0, 3.0], [np.nan, np.nan]), ([0.0, 0.0], [0.2, 0.1]), ([2.0, 3.0], [0.0, 0.0]), ([], [])):
        with rec.guard("fit-empty", "nothing to fit"):
            with quiet():
                p = np.asarray(curve_fitting(np.array(bad[0], float), np.array(bad[1], float), 5, 7, None), float)
            rec.check("fit-empty", np.array_equal(p, [1, 0, 0]), "a pixel without data gets %s" % p)


def t_layout(rec, rng):
    from correct_images import corrections as C

    for _ in range(4):
        rec.case()
        h, w, c = int(rng.integers(2, 5)), int(rng.integers(6, 9)), int(rng.choice([1, 3]))
        n = 12
        d = np.sort(rng.uniform(2, 6, (n, h * w)), axis=0)
        prm = np.stack([rng.uniform(0.3, 2.5, (c, h, w)), -rng.uniform(0.1, 0.8, (c, h, w)), rng.uniform(0, 0.05, (c, h, w))], axis=-1)
        flat = prm.reshape(c, h * w, 3)
        img = np.stack([flat[k, :, 0] * np.exp(flat[k, :, 1] * d) + flat[k, :, 2] for k in range(c)], axis=-1)
        empty = rng.integers(0, n, 2)
        img[empty] = 0  # distance bins without enough images
        d2 = d.copy()
        d2[empty] = 0
        with scratch() as root, rec.guard("fit-layout", "fit of all pixels"):
            with quiet(), I.fast():
                got = C.calculate_attenuation_parameters(img.astype(np.float32), d2.astype(np.float32), h, w, c, Path(root))
            ok = got.shape == (c, h, w, 3)
            rec.check("fit-layout", ok, "parameters have shape %s" % (got.shape,))
            if ok:
                for z in (2.5, 4.0, 5.5):
                    e = np.abs((got[..., 0] * np.exp(got[..., 1] * z) + got[..., 2]) / (prm[..., 0] * np.exp(prm[..., 1] * z) + prm[..., 2]) - 1)
                    rec.check("fit-layout", e.max() < 0.05, "curve of pixel %s is %.1f %% off at %g m" % (np.unravel_index(e.argmax(), e.shape), 100 * e.max(), z))
            rec.seen("layout", h, w, c)
