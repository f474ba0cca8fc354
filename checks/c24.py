"""C24 the laser line is found where it is, and stored detections are the detections."""
import numpy as np

from lib.calsim import Rig, Sheet, draw_line, rect_rows, scene
from lib.engine import case_rng, quiet, scratch

PID = "C24"
RULE = ("synthetic laser lines (float32/64, 8, 16 and 32 bit images; straight, tilted, curved, broken, faint and saturated lines, background and noise, two lines with row limits) through the line detector, "
        "alone and through the image-pair step that rectifies, stores and reads back detections; non-trivial: distinct (type, shape of line, window, columns, limits, faults)")
REQUIRED = {"position": 300, "columns": 60, "absent": 60, "rows": 40, "stored": 10, "rectified": 10, "overwrite": 4, "no-line": 4}
CASE_TIMEOUT = 120


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "line"} for _ in range(100 if q else 1500)] + [{"kind": "limits"} for _ in range(50 if q else 700)]
    out += [{"kind": "pair", "n": k} for k in range(32 if q else 400)]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    globals()["t_" + case["kind"]](rec, case_rng(case), case)


DT = [(np.uint8, 255), (np.uint16, 65535), (np.uint32, 4294967295), (np.float32, 1.0), (np.float64, 1.0)]


def line(rng, h, w, lo=14, hi=None):
    """rows of a line for every column, nan where it is not seen; slopes stay below 0.35"""
    hi = h - 14 if hi is None else hi
    u = np.arange(w)
    for _ in range(1000):
        v = rng.uniform(lo, hi) + rng.uniform(-0.15, 0.15) * (u - w / 2) + rng.uniform(0, 5) * np.sin(u * rng.uniform(0.005, 0.03) + rng.uniform(0, 6))
        if v.min() > lo and v.max() < hi:
            break
    else:
        v = np.full(w, (lo + hi) / 2 + rng.uniform(-0.5, 0.5))
    for _ in range(int(rng.integers(0, 3))):
        a = int(rng.integers(0, w))
        v[a:a + int(rng.integers(5, 40))] = np.nan
    return v


def draw(v, h, amp, sigma):
    g = amp * np.exp(-0.5 * ((np.arange(h)[:, None] - v[None]) / sigma) ** 2)
    return np.nan_to_num(g)


def digital(x, dt, top):
    return x.astype(dt) if dt in (np.float32, np.float64) else np.clip(np.round(x), 0, top).astype(dt)


def t_line(rec, rng, case):
    from auv_cal.laser_calibrator import findLaserInImage

    dt, top = DT[int(rng.integers(len(DT)))]
    h, w = int(rng.integers(45, 80)), int(rng.integers(220, 330))
    k = int(rng.choice([5, 5, 7, 9]))
    sigma = rng.uniform(0.7, 0.2 * k)
    v = line(rng, h, w)
    amp = top * rng.uniform(0.25, 0.98)
    ratio = float(rng.choice([0.05, 0.1, 0.2]))
    img = digital(draw(v, h, amp, sigma) + top * rng.uniform(0, 0.004) * rng.random((h, w)), dt, top)
    ncol = int(rng.choice([0, 10, 25, 1024]))
    rec.case()
    rec.seen("line", dt.__name__, k, ncol, round(sigma, 1), bool(np.isnan(v).any()))
    with rec.guard("position", "finding the line in an image of %s" % dt.__name__):
        keep = img.copy()
        with quiet():
            p = np.asarray(findLaserInImage(img, ratio, k, ncol)).reshape(-1, 2)
        rec.check("columns", np.array_equal(img, keep), "the detector changed the image")
        c = p[:, 1].astype(int)
        rec.check("columns", len(set(c)) == len(c) and (np.diff(c) > 0).all() and np.array_equal(c, p[:, 1]), "columns are not whole, distinct and ascending", columns=c[:20])
        seen = ~np.isnan(v)
        inner = np.arange(w)[80:w - 80]
        if ncol == 0:
            want = [u for u in inner if seen[u]]
            rec.check("columns", list(c) == want, "the line is seen in columns %s and detected in %s" % (want[:5], list(c[:5])), missing=sorted(set(want) - set(c))[:10], extra=sorted(set(c) - set(want))[:10])
        else:
            rec.check("columns", set(c) <= set(inner[seen[inner]]), "a line is reported in columns where there is none", extra=sorted(set(c) - set(inner[seen[inner]]))[:10])
            gap = len(inner) / ncol
            runs = max(np.diff(np.r_[inner[0] - 1, c, inner[-1] + 1])) if len(c) and seen[inner].all() else 0
            rec.check("columns", runs <= max(gap, 1) + 2, "columns are %d apart, %d columns were asked for over %d" % (runs, ncol, len(inner)))
            if seen[inner].all():
                rec.check("columns", len(c) >= min(ncol, len(inner)), "%d columns asked for, %d examined" % (ncol, len(c)))
        for q, u in zip(p[:, 0], c):
            if 0 <= u < w and seen[u]:
                rec.check("position", abs(q - v[u]) < 0.3, "column %d: line at row %.2f, detected at %.2f" % (u, v[u], q), k=k, sigma=sigma)
        # an image in which nothing reaches the threshold has no line
        faint = digital(draw(v, h, top * ratio * 0.9 / k, sigma), dt, top)
        with quiet():
            r = np.asarray(findLaserInImage(faint, ratio, k, 8))
        rec.check("absent", r.size == 0, "a line is reported in an image without light above the threshold", found=r[:5])
        if top > 255:
            # the threshold is on the light in the window, its middle counting most (a triangle)
            tri = 1 - 2 * np.abs(np.arange(k) - (k - 1) / 2) / k
            one = draw(v, h, 1.0, sigma)
            sums = np.array([[np.dot(tri, one[r:r + k, u]) for r in range(h - k)] for u in inner[::9]]).max(1)
            sums = sums[sums > 0]
            if len(sums):
                for f, ok in ((0.93 / sums.max(), False), (1.07 / sums.min(), True)):
                    if f * ratio > 1:
                        continue
                    with quiet():
                        r = np.asarray(findLaserInImage(digital(draw(v, h, top * ratio * f, sigma), dt, top), ratio, k, 0)).reshape(-1, 2)
                    hits = np.isin(inner[::9][seen[inner[::9]]], r[:, 1])
                    rec.check("absent", bool(hits.all()) if ok else not hits.any(), "a line %s the threshold is found in %d of %d columns" % ("above" if ok else "below", hits.sum(), len(hits)), k=k, sigma=sigma)
        dark = np.zeros((h, w), dt)
        with quiet():
            r = np.asarray(findLaserInImage(dark, ratio, k, 8))
        rec.check("absent", r.size == 0, "a line is reported in a black image", found=r[:5])


def t_limits(rec, rng, case):
    """with row limits only the line between them is found; given columns are honoured"""
    from auv_cal.laser_calibrator import findLaserInImage

    dt, top = DT[int(rng.integers(2))]
    h, w = int(rng.integers(90, 130)), int(rng.integers(220, 300))
    k = 5
    mid = h // 2
    va, vb = line(rng, h, w, 12, mid - 14), line(rng, h, w, mid + 14, h - 12)
    bright = rng.random() < 0.5
    img = digital(np.maximum(draw(va, h, top * (0.9 if bright else 0.4), 1.0), draw(vb, h, top * (0.4 if bright else 0.9), 1.0)), dt, top)
    rec.case()
    rec.seen("limits", dt.__name__, bright, h, w)
    with rec.guard("rows", "finding the line between row limits"):
        with quiet():
            a = np.asarray(findLaserInImage(img, 0.1, k, 40, start_row=0, end_row=mid)).reshape(-1, 2)
            b = np.asarray(findLaserInImage(img, 0.1, k, 40, start_row=mid, end_row=-1)).reshape(-1, 2)
            c = np.asarray(findLaserInImage(img, 0.1, k, 40)).reshape(-1, 2)
        for name, p, v in (("upper", a, va), ("lower", b, vb)):
            ok = all(not np.isnan(v[int(u)]) and abs(q - v[int(u)]) < 0.3 for q, u in p)
            rec.check("rows", ok and len(p) > 0.5 * np.mean(~np.isnan(v[80:w - 80])) * 40 - 3, "between its row limits the %s line is not found where it is" % name, found=p[:6])
        first = va if bright else vb
        ok = all(abs(q - first[int(u)]) < 0.3 for q, u in c if not np.isnan(first[int(u)]))
        rec.check("rows", ok, "of two lines the fainter one is reported", found=c[:6])
        sel = sorted(int(x) for x in rng.choice(np.arange(0, w), 7, replace=False))
        with quiet():
            d = np.asarray(findLaserInImage(img, 0.1, k, 40, end_row=mid, prior=[[0, u] for u in sel])).reshape(-1, 2)
        rec.check("rows", [int(u) for u in d[:, 1]] == [u for u in sel if not np.isnan(va[u])], "the columns examined are not those asked for", asked=sel, got=d[:, 1])


def t_pair(rec, rng, case):
    """the image-pair step: rectified detections, stored, read back, redone on request"""
    import cv2

    from auv_cal.laser_calibrator import get_laser_pixels_in_image_pair

    n = case["n"]
    two = bool(n % 2)
    empty = n % 4  # 0 none; 1, 2: frames without one or all lines
    dt, top = DT[0] if n % 3 else DT[1]
    rig = Rig(rng, size=(360, 260), baseline=0.4, vertical=True)
    maps = []
    for cam, R, P in ((rig.left, rig.R1, rig.P1), (rig.right, rig.R2, rig.P2)):
        maps.append(cv2.initUndistortRectifyMap(cam.K, cam.d, R, P, cam.size, cv2.CV_32FC1))
    rec.case()
    rec.seen("pair", two, empty, dt.__name__)
    sgn = float(np.sign(rig.centre[1]))
    with scratch() as root:
        raw = [root / "raw/2020/c/p/dive/laser" / c for c in ("L", "R")]
        for d in raw:
            d.mkdir(parents=True)
        alt = rng.uniform(3, 4.5)
        sc = scene(rng, alt)
        mid = 130
        sheets = [Sheet(sgn * 0.2 - 0.42, rng.uniform(-0.03, 0.03), 0.0), Sheet(sgn * 0.2 + 0.42, rng.uniform(-0.03, 0.03), 0.0)]
        x = np.linspace(-0.9 * alt, 0.9 * alt, 900)
        lit = {0: (True, True), 1: (False, True), 2: (False, False), 3: (True, False)}[empty]
        true = {}
        files = []
        for j, (cam, R, P) in enumerate(((rig.left, rig.R1, rig.P1), (rig.right, rig.R2, rig.P2))):
            img = np.zeros((260, 360))
            for s, sh in enumerate(sheets):
                if lit[s] and (two or s == 0):
                    pts = sh.curve(sc, x)
                    draw_line(img, cam, pts, top * 0.8, 1.1)
                    true[j, s] = rect_rows(cam.K, cam.d, R, P, cam.project(pts), 360)
            f = raw[j] / "0000012.png"
            pic = digital(img, dt, top)
            # images of another size are padded to the shape, and scaled to the size, of the calibrated camera
            if j == n // 4 % 2 and n % 16 in (5, 7, 8):
                pic = pic[12:248]
            elif j == n // 4 % 2 and n % 16 in (9, 11, 12):
                pic = np.repeat(np.repeat(pic, 2, 0), 2, 1)
            elif j == n // 4 % 2 and n % 16 in (13, 15):
                pic = pic[:, 20:340]
            cv2.imwrite(str(f), pic)
            files.append(f)
        # row limits between the two lines of the rectified images
        lo = np.nanmax([np.nanmax(true[k2]) for k2 in true if k2[1] == 0] or [0])
        hi = np.nanmin([np.nanmin(true[k2]) for k2 in true if k2[1] == 1] or [259])
        if two and all(lit) and hi - lo < 14:
            two, lit = False, (lit[0], False)
        split = int((lo + hi) / 2) if all(lit) else (int(hi - 7) if lit[1] else int(lo + 9))
        args = dict(min_greenness_ratio=0.08, k=5, num_columns=30, start_row=0, end_row=split if two else -1, start_row_b=split, end_row_b=-1, two_lasers=two, remap=True, camera_name="L")

        def go(overwrite, maps=maps, **kw):
            with quiet():
                return [np.asarray(a, float).reshape(-1, 2) for a in get_laser_pixels_in_image_pair(files[0], maps[0], files[1], maps[1], overwrite=overwrite, **{**args, **kw})]

        with rec.guard("stored", "detecting the laser in a pair of images"):
            before = [f.read_bytes() for f in files]
            got = go(False)
            for j, s, p in ((0, 0, got[0]), (1, 0, got[1]), (0, 1, got[2]), (1, 1, got[3])):
                if s and not two:
                    rec.check("no-line", len(p) == 0, "a second line is reported though there is one laser")
                    continue
                if (j, s) not in true:
                    rec.check("no-line", len(p) == 0, "a line is reported in an image without it", found=p[:4])
                    continue
                v = true[j, s]
                vis = np.array([u for u in range(80, 280) if 10 < v[u] < 250])
                ok = all(abs(q - v[int(u)]) < 0.6 for q, u in p if not np.isnan(v[int(u)]))
                rec.check("rectified", ok, "the detections are not on the rectified line", found=p[:5], true=[v[int(u)] for _, u in p[:5]])
                rec.check("rectified", len(vis) < 40 or len(p) > 0.5 * len(vis) / 200 * 30, "the rectified line shows in %d columns, only %d detections" % (len(vis), len(p)))
            # a camera may be part of two pairs, and its images are rectified for each
            flat = [cv2.initUndistortRectifyMap(cam.K, cam.d, np.eye(3), cam.K, cam.size, cv2.CV_32FC1) for cam in (rig.left, rig.right)]
            other = go(False, flat, camera_name="M", end_row=-1, two_lasers=False)
            redone = go(True, flat, camera_name="M", end_row=-1, two_lasers=False)
            rec.check("stored", all(a.shape == b.shape and np.allclose(a, b, atol=1e-4) for a, b in zip(other, redone)), "the detections for one pair of cameras are taken for those of another pair")
            # read back what has been stored: same answer, whatever the image looks like now
            for f in files:
                cv2.imwrite(str(f), np.zeros((260, 360), dt))
            again = go(False)
            rec.check("stored", all(a.shape == b.shape and np.allclose(a, b, atol=1e-4) for a, b in zip(got, again)), "reading the stored detections gives other detections", first=[len(a) for a in got], again=[len(a) for a in again])
            fresh = go(True)
            rec.check("overwrite", all(len(a) == 0 for a in fresh), "asked to detect again, the stored detections are used", found=[len(a) for a in fresh])
            last = go(False)
            rec.check("overwrite", all(len(a) == 0 for a in last), "the stored detections are not those of the last detection", found=[len(a) for a in last])
            for f, b in zip(files, before):
                f.write_bytes(b)
            back = go(True)
            rec.check("overwrite", all(a.shape == b.shape and np.allclose(a, b, atol=1e-4) for a, b in zip(got, back)), "detecting again gives other detections")
            rec.check("stored", [f.read_bytes() for f in files] == before and sorted(p.name for d in raw for p in d.rglob("*")) == ["0000012.png"] * 2, "the raw images or their folder were changed")
