"""C22 laser calibration: triangulated points, fitted planes and their uncertainty are those of the laser sheet."""
import math
from pathlib import Path

import numpy as np

from lib.calsim import Rig, Sheet, draw_line, rect_rows, scene
from lib.caldive import CalDive, run
from lib.engine import case_rng, quiet, scratch

PID = "C22"
RULE = ("auv_cal laser as from the command line on image pairs of one or two simulated laser sheets on sloping and wavy seabeds, with frames missing in one camera or without laser, two naming styles; "
        "plus plane fits, RANSAC, plane algebra, angles, triangulation, stratified sampling and point clouds on generated geometry; the oracle is the simulated geometry; "
        "non-trivial: distinct (lasers, naming, faults, limits) and distinct geometric configurations")
REQUIRED = {"cloud": 100, "plane": 6, "uncertainty": 6, "own-planes": 2, "frames": 4, "fit": 60, "inliers": 60, "ransac": 60, "algebra": 200, "angles": 60, "triangulate": 200, "strata": 60, "peaks": 60, "kept": 2}
CASE_TIMEOUT = 200
BUDGET = {"quick": 420, "thorough": 2400}


def cases(rng, tier):
    q = tier == "quick"
    out = [{"kind": "laser", "n": k} for k in range(8 if q else 64)]
    out += [{"kind": k} for _ in range(16 if q else 200) for k in ("fit", "ransac", "algebra", "triangulate", "strata", "peaks")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    globals()["t_" + case["kind"]](rec, case_rng(case), case)


def laserlike(rng, far=1):
    """a plane that is not parallel to the x axis, as a laser sheet of a downward-looking mapper"""
    n = np.array([1.0, rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5)])
    return np.r_[n, rng.uniform(-3, 3) * far]


def on_plane(rng, c, n):
    y, z = rng.uniform(-2, 2, n), rng.uniform(1, 8, n)
    return np.c_[-(c[1] * y + c[2] * z + c[3]) / c[0], y, z]


def gap(c, P):
    c = np.asarray(c, float)
    return np.abs(P @ c[:3] + c[3]) / np.linalg.norm(c[:3])


def t_fit(rec, rng, case):
    from auv_cal.plane_fitting import Plane

    for _ in range(4):
        true = laserlike(rng)
        n = int(rng.integers(12, 120)) if rng.random() < 0.8 else int(rng.integers(400, 700))
        s = float(rng.choice([0.0, 1e-3, 5e-3]))
        P0 = on_plane(rng, true, n)
        P = P0 + rng.normal(0, 1, (n, 3)) * s
        far = int(rng.integers(0, 4)) if n > 40 else 0
        keep = P.copy()
        rec.case()
        rec.seen("fit", n, s, far)
        with rec.guard("fit", "fitting a plane to %d points" % n):
            mdt = float(rng.choice([2e-3, 1e-2]))
            p = Plane([1, 0, 0, 1.5])
            with quiet():
                c, inl = p.fit(P, mdt, verbose=bool(rng.random() < 0.3))
            c = np.array(c, float)
            lim = 1e-5 + 4 * s
            rec.check("fit", gap(c, P0).max() < lim, "points on a plane (noise %g m) are up to %.4g m from the plane fitted to them" % (s, gap(c, P0).max()), plane=c, true=true)
            d = gap(c, P)
            sure, never = d < mdt * (1 - 1e-9), d > mdt * (1 + 1e-9)
            got = {tuple(x) for x in np.asarray(inl, float).reshape(-1, 3)}
            rec.check("inliers", all(tuple(x) in got for x in P[sure]) and not any(tuple(x) in got for x in P[never]), "inliers are not the points within %g m of the plane: %d instead of %d" % (mdt, len(got), int(sure.sum())), plane=c)
            rec.check("inliers", np.array_equal(P, keep), "fitting changed the points")
            q = Plane()
            with quiet():
                m = np.array(q.fit_non_robust(P), float)
            rec.check("fit", gap(m, P0).max() < lim, "points on a plane (noise %g m) are up to %.4g m from the plane fitted by least squares" % (s, gap(m, P0).max()), plane=m, true=true)
            # a scaled set of coefficients is the same plane
            k = rng.uniform(0.1, 9) * rng.choice([-1, 1])
            r = Plane(true * k)
            X = rng.uniform(-5, 5, (6, 3))
            rec.check("algebra", np.allclose([r.distance(x) for x in X], gap(true, X), rtol=1e-9, atol=1e-9), "distance to the plane depends on how its coefficients are scaled", coeffs=true * k)
            rec.check("algebra", gap(true, np.array([r.point]))[0] < 1e-9 and abs(np.linalg.norm(r.normal) - 1) < 1e-9 and gap(r.coeffs, P0).max() < 1e-7, "point, normal or coefficients of the plane are not on the plane", coeffs=true * k, point=r.point, normal=r.normal)
            o, v = rng.uniform(-1, 1, 3), rng.uniform(-1, 1, 3) + np.array([3.0, 0, 0])
            x = np.array(r.ray_intersection(o.copy(), v.copy()), float)
            w = x - o
            rec.check("algebra", gap(true, x[None])[0] < 1e-7 and np.linalg.norm(np.cross(w, v)) < 1e-7 * (1 + np.linalg.norm(w)) * np.linalg.norm(v), "a ray meets the plane at a point that is not on both", ray=[o, v], point=x)


def t_ransac(rec, rng, case):
    from auv_cal.ransac import fit_plane, plane_fitting_ransac

    import random

    for _ in range(4):
        true = laserlike(rng, float(rng.choice([1, 30])))
        n = int(rng.integers(40, 90))
        share = rng.uniform(0, 0.4)
        s = float(rng.choice([0.0, 1e-3]))
        P0 = on_plane(rng, true, n)
        P = P0 + rng.normal(0, 1, (n, 3)) * s
        bad = np.zeros(n, bool)
        bad[rng.choice(n, int(share * n * 0.8), replace=False)] = True
        P[bad] += rng.choice([-1, 1], (bad.sum(), 1)) * rng.uniform(0.2, 2, (bad.sum(), 1)) * (true[:3] / np.linalg.norm(true[:3]))
        P0[bad] = P[bad]
        thr = 0.02
        rec.case()
        rec.seen("ransac", n, round(share, 1), s)
        with rec.guard("ransac", "RANSAC over %d points, %d off the plane" % (n, bad.sum())):
            with quiet():
                goal = float(rng.choice([0.5, 0.99, 2.0])) * n
                c, inl = plane_fitting_ransac(P, thr, 3, goal, 60)
            c = np.array(c, float)
            good = P0[~bad]
            inl = np.asarray(inl, float).reshape(-1, 3)
            # whatever set of inliers the search ends with, the best one explains most of the points
            e = float(gap(c, good).max())
            early = len(inl) < min(goal, 0.75 * len(good))
            rec.check("ransac", (e < 0.02 + 20 * s or goal < n / 2 + 1) and not early, "%d of %d points lie on a plane; RANSAC reports a plane up to %.3f m away, with %d inliers" % (len(good), n, e, len(inl)), plane=c, true=true)
            rec.check("ransac", {tuple(x) for x in inl} <= {tuple(x) for x in P}, "an inlier is not one of the points")
            m = np.array(fit_plane(good), float)
            rec.check("ransac", gap(m, good).max() < 1e-6 + 6 * s, "the plane fitted to all inliers does not contain them", plane=m)


def t_algebra(rec, rng, case):
    from auv_cal.laser_calibrator import build_plane, get_angle, get_angles, opencv_to_ned, plane_through_3_points

    for _ in range(8):
        rec.case()
        pts = [rng.uniform(-4, 4, 3) for _ in range(3)]
        rec.seen("algebra", [round(float(x), 2) for x in pts[0]])
        if np.linalg.norm(np.cross(pts[1] - pts[0], pts[2] - pts[0])) < 0.3:
            continue
        with rec.guard("algebra", "plane algebra"):
            p = plane_through_3_points([x.copy() for x in pts])
            scale = 1 + np.abs(p).max() / np.linalg.norm(p[:3])
            rec.check("algebra", gap(p, np.array(pts)).max() < 1e-8 * scale, "the plane through three points misses them by %g" % gap(p, np.array(pts)).max(), points=pts, plane=p)
            rec.check("algebra", abs(p[0] - 1) < 1e-12 or p[0] == 0, "the plane is not scaled to a = 1", plane=p)
            pitch, yaw = rng.uniform(-60, 60), rng.uniform(-88, 88)
            at = rng.uniform(-5, 5, 3)
            pl, nrm, off = build_plane(pitch, yaw, at)
            rec.check("algebra", gap(pl, at[None])[0] < 1e-9, "the plane built through a point misses it by %g" % gap(pl, at[None])[0], pitch=pitch, yaw=yaw, point=at, plane=pl)
            rec.check("algebra", np.allclose(nrm, pl[:3] / np.linalg.norm(pl[:3]), atol=1e-12) and abs(np.linalg.norm(nrm) - 1) < 1e-12, "the normal is not that of the plane", plane=pl, normal=nrm)
            a = get_angles(pl[:3] * rng.uniform(0.2, 5) * rng.choice([-1, 1]))
            rec.check("angles", abs(a[1] - pitch) < 1e-8 and abs(a[2] - yaw) < 1e-8, "a plane of pitch %.3f and yaw %.3f is said to have %.3f and %.3f" % (pitch, yaw, a[1], a[2]))
            u = nrm * (1 if nrm[0] >= 0 else -1)
            rec.check("angles", abs(a[0] - math.degrees(math.acos(min(1, abs(u[0]))))) < 1e-6, "angle to the x axis is wrong: %s" % a[0], normal=nrm)
            ref = rng.normal(size=3)
            rec.check("angles", abs(get_angle(list(u), list(ref)) - math.degrees(math.acos(np.clip(u @ ref / np.linalg.norm(ref), -1, 1)))) < 1e-5, "angle between two directions is wrong", a=u, b=ref)
            x = rng.uniform(-9, 9, 3)
            y = np.asarray(opencv_to_ned(x), float).ravel()
            rec.check("algebra", np.allclose(y, [-x[1], x[0], x[2]], atol=1e-5), "camera axes (right, down, away) become %s for %s" % (y, x))


def t_triangulate(rec, rng, case):
    import cv2

    from auv_cal.laser_calibrator import triangulate_dlt, triangulate_lst

    rig = Rig(rng, baseline=float(rng.uniform(0.1, 1)), vertical=bool(rng.random() < 0.5))
    for _ in range(12):
        z = rng.uniform(0.5, 12)
        X = np.array([rng.uniform(-0.4, 0.4) * z, rng.uniform(-0.3, 0.3) * z, z])
        a, b = [P @ np.r_[X, 1] for P in (rig.P1, rig.P2)]
        a, b = a[:2] / a[2], b[:2] / b[2]
        rec.case()
        rec.seen("tri", rig.vertical, round(z, 1))
        with rec.guard("triangulate", "triangulating a point"):
            for name, f in (("least squares", triangulate_lst), ("DLT", triangulate_dlt)):
                Y = np.asarray(f(a[::-1], b[::-1], rig.P1, rig.P2), float)
                rec.check("triangulate", np.linalg.norm(Y - X) < 1e-6 * z * (1 + z / np.linalg.norm(rig.centre)), "%s: the point %s is triangulated to %s" % (name, X, Y))
                n1, n2 = rng.normal(0, 0.3, (2, 2))
                Y = np.asarray(f((a + n1)[::-1], (b + n2)[::-1], rig.P1, rig.P2), float)
                q = [P @ np.r_[Y, 1] for P in (rig.P1, rig.P2)]
                e = max(np.linalg.norm(q[0][:2] / q[0][2] - a), np.linalg.norm(q[1][:2] / q[1][2] - b))
                rec.check("triangulate", e < 12 * (np.linalg.norm(n1) + np.linalg.norm(n2)) + 1e-6, "%s: with pixel errors of %.2f px the point projects %.2f px away from its images" % (name, np.linalg.norm(n1) + np.linalg.norm(n2), e))


def calibrator(rng, root, rig, config, n=10, overwrite=False):
    from auv_cal.laser_calibrator import LaserCalibrator
    from oplab import StereoCamera

    return LaserCalibrator(StereoCamera(rig.yaml(root / "stereo.yaml")), config, n, overwrite)


def t_strata(rec, rng, case):
    """between the depth limits no bin is over its limit, and a point is dropped only if its bin is full"""
    lo, hi = float(rng.uniform(0.5, 2)), float(rng.uniform(4, 12))
    bins = int(rng.integers(1, 12))
    cap = int(rng.integers(1, 30))
    rig = Rig(rng, size=(120, 90))
    with scratch() as root, quiet():
        key = str(rng.choice(["max_points_per_bin", "max_bin_elements"]))
        lc = calibrator(rng, root, rig, {"stratify": {"min_z_m": lo, "max_z_m": hi, "number_of_bins": bins, key: cap}})
        for _ in range(4):
            n = int(rng.integers(0, 300))
            z = rng.uniform(lo - 1, hi + 1, n)
            z[rng.random(n) < 0.03] = lo
            low = z == lo
            z[rng.random(n) < 0.03] = hi
            cloud = [np.array([[i], [0.0], [v]]) for i, v in enumerate(z)]
            rec.case()
            rec.seen("strata", bins, cap, n)
            with rec.guard("strata", "stratified sampling"):
                out = lc.z_stratified_sampling(list(cloud))
                ids = [int(p[0, 0]) for p in out]
                ok = len(set(ids)) == len(ids) and all(float(p[2, 0]) == z[int(p[0, 0])] for p in out)
                rec.check("strata", ok, "sampling repeats or changes points")
                w = (hi - lo) / bins
                b = np.floor((z - lo) / w).astype(int)
                b[(z < lo) | (z >= hi)] = -1
                edge = np.abs((z - lo) / w - np.round((z - lo) / w)) < 1e-9
                for k in range(bins):
                    avail = int((b == k).sum())
                    got = sum(1 for i in ids if b[i] == k)
                    # the limits belong to the first bin and to none; rounding may move a point over another edge
                    slack = int((edge & ~low & (np.abs(b - k) <= 1)).sum())
                    rec.check("strata", abs(got - min(avail, cap)) <= slack, "bin %d of %d holds %d points, limit %d: %d are kept" % (k, bins, avail, cap, got))
                rec.check("strata", not any(b[i] == -1 for i in ids), "a point outside the depth limits is kept")


def t_peaks(rec, rng, case):
    """detections of the same column are triangulated, once each, into the frame of the left camera"""
    rig = Rig(rng, size=(240, 180), baseline=0.4, vertical=True)
    with scratch() as root, quiet():
        remap = bool(rng.random() < 0.7)
        lc = calibrator(rng, root, rig, {"detection": {"remap": remap}})
    for _ in range(4):
        n = int(rng.integers(1, 60))
        cols = np.sort(rng.choice(np.arange(80, 160), n, replace=False)).astype(float)
        A, B, truth = [], [], []
        for u in cols:
            z = rng.uniform(2, 6)
            v = rng.uniform(40, 140)
            Xr = np.linalg.solve(rig.P1[:, :3], np.array([u, v, 1.0]) * z)  # frame of the rectified left camera
            q = rig.P2 @ np.r_[Xr, 1]
            A.append((v, u))
            B.append((q[1] / q[2], u))
            truth.append(rig.R1.T @ Xr if remap else Xr)
        ka, kb = rng.random(n) < 0.85, rng.random(n) < 0.85
        behind = rng.random(n) < 0.1
        for i in np.nonzero(behind)[0]:
            # a mismatch whose rays meet behind the cameras
            q = rig.P2 @ np.r_[-np.linalg.solve(rig.P1[:, :3], np.array([A[i][1], A[i][0], 1.0]) * 3.0), 1]
            B[i] = (q[1] / q[2], A[i][1])
        rec.case()
        rec.seen("peaks", n, remap, int(ka.sum()), int(kb.sum()))
        with rec.guard("peaks", "point cloud of a pair of frames"):
            with quiet():
                cloud, good, inv = lc.pointcloud_from_peaks(np.array([a for a, k in zip(A, ka) if k], dtype=np.float64).reshape(-1, 2), np.array([b for b, k in zip(B, kb) if k], dtype=np.float64).reshape(-1, 2))
            exp = [t for t, a, b, h in zip(truth, ka, kb, behind) if a and b and not h]
            ok = len(cloud) == len(exp) and all(np.linalg.norm(np.ravel(c) - t) < 1e-3 for c, t in zip(cloud, exp))
            rec.check("peaks", ok, "%d of %d columns are seen in both images in front of the cameras, the cloud has %d points, or they are elsewhere" % (len(exp), n, len(cloud)), first=[cloud[:2], exp[:2]])
            rec.check("peaks", good == len(cloud) and inv == int((behind & ka & kb).sum()), "counts of points %s/%s are wrong" % (good, inv))


def ply(path):
    t = Path(path).read_text().split("end_header")
    n = int([x for x in t[0].splitlines() if "element vertex" in x][0].split()[-1])
    a = np.array([[float(v) for v in x.split()] for x in t[1].split("\n") if x.strip()]).reshape(-1, 3)
    if len(a) != n:
        raise ValueError("the header announces %d points, there are %d" % (n, len(a)))
    return a


def geometry(rng, W, H, n, two):
    """a rig, laser sheets that stay inside both images on all the scenes, and the rectified row between the two lines"""
    while True:
        rig = Rig(rng, size=(W, H), baseline=0.45, vertical=True)
        mid = rig.centre[1] / 2
        off = rng.uniform(0.25, 0.42)
        sheets = [Sheet(mid - off + rng.uniform(-0.03, 0.03), rng.uniform(-0.03, 0.03), rng.uniform(-0.03, 0.01)), Sheet(mid + off + rng.uniform(-0.03, 0.03), rng.uniform(-0.03, 0.03), rng.uniform(-0.01, 0.03))]
        if not two:
            sheets = [sheets[int(rng.integers(2))]]
        scenes = [scene(rng, 2.5 + 2.5 * i / (n - 1)) for i in range(n)]
        rows = [[], []]
        inside = True
        for sc in scenes:
            x = np.linspace(-0.9, 0.9, 500) * sc[0]
            for cam, R, P in ((rig.left, rig.R1, rig.P1), (rig.right, rig.R2, rig.P2)):
                for s, sh in enumerate(sheets):
                    v = draw_line(np.zeros((H, W)), cam, sh.curve(sc, x), 1, 1)
                    inside &= bool(np.isfinite(v).all() and v.min() > 12 and v.max() < H - 13)
                    if inside:
                        r = rect_rows(cam.K, cam.d, R, P, np.c_[np.arange(W), v].astype(float), W)
                        r = r[~np.isnan(r)]
                        inside &= bool(r.min() > 8 and r.max() < H - 9)
                        rows[s] += [r.min(), r.max()]
        if not inside:
            continue
        if not two:
            return rig, sheets, scenes, -1
        if min(rows[1]) - max(rows[0]) >= 12:
            return rig, sheets, scenes, int((min(rows[1]) + max(rows[0])) / 2)


def t_laser(rec, rng, case):
    import cv2
    import yaml

    k = case["n"]
    two = bool(k % 2)
    style = ("serial", "biocam", "image")[k % 3]
    drop = k % 4 != 0
    none = k % 4 in (1, 2)
    again = k % 4 in (0, 3)
    rec.case()
    rec.seen("laser", two, style, drop, none)
    W, H = 400, 300
    n = 14
    rig, sheets, scenes, split = geometry(rng, W, H, n, two)
    if k % 4 > 1:
        # the order of the cameras is that of the configuration, not of their names
        rig.left.name, rig.right.name = rig.right.name, rig.left.name
    npl = 26 if k % 5 == 2 else 6
    mdt = 0.02
    from checks.c23 import names

    # pictures of one second to the next, or numbers with the same last digits
    nm = names(rng, style, n, (10000 if style != "biocam" else 1) if k % 4 < 3 else None)
    gone = {(int(i), (int(j) + k) % 2) for j, i in enumerate(rng.choice(np.arange(2, n), 2, replace=False))} if drop else set()
    blank = int(rng.integers(2, n)) if none else -1
    # one pair shows something else, as a reflection of the laser: its points are off the plane, and (the fit being one of
    # least squares over a metre) may pull on it
    odd = 0 if not two and k % 4 == 2 else -1
    with scratch() as root:
        d = CalDive(root, (rig.left.name, rig.right.name), laser={})
        for x in d.laser_dir:
            x.mkdir(parents=True)
        d.out.mkdir(parents=True)
        rig.yaml(d.out / ("stereo_%s_%s.yaml" % d.names))
        curves = {}
        lines = []
        for i in range(n):
            sc = scenes[i]
            x = np.linspace(-0.9, 0.9, 500) * sc[0]
            for j, cam in enumerate((rig.left, rig.right)):
                img = rng.random((H, W)) * 2
                for s, sh in enumerate(sheets):
                    if i != blank:
                        pts = (sh if i != odd else Sheet(sh.y0 + (0.035 if sh.y0 < rig.centre[1] / 2 else -0.035), sh.tx, sh.tz)).curve(sc, x)
                        v = draw_line(img, cam, pts, 200, 1.1)
                        curves[i, j, s] = v
                if (i, j) not in gone:
                    cv2.imwrite(str(d.laser_dir[j] / (nm[i][j] + ".png")), np.clip(np.round(img), 0, 255).astype(np.uint8))
        d.cfg["laser_calibration"] = {"detection": {"window_size": 5, "min_greenness_ratio": 0.05, "num_columns": 24, "remap": True, "start_row": 0, "end_row": split, "start_row_b": max(split, 0), "end_row_b": -1, "two_lasers": two},
                                      "stratify": {"min_z_m": 1, "max_z_m": 20, "number_of_bins": 20, "max_points_per_bin": 1000}, "ransac": {"min_distance_threshold": mdt}}
        d.save()
        frames = [i for i in range(n) if (i, 0) not in gone and (i, 1) not in gone and i != blank]
        with rec.guard("plane", "auv_cal laser"):
            run("laser", "-u", npl, d.dive)
            outs = [d.out / ("laser_calibration_%s_%s.yaml" % (s, d.names[0])) for s in ("top", "bottom")][: len(sheets)]
            res = [yaml.safe_load(o.read_text()) for o in outs]
            for s, (sh, r) in enumerate(zip(sheets, res)):
                what = ("upper", "lower")[s]
                cloud = ply(d.out / ("points%s_%s.ply" % ("_b" if s else "", d.names[0])))
                cv = np.c_[cloud[:, 1], -cloud[:, 0], cloud[:, 2]]
                hit = [0] * n
                strays = 0
                for c in cv:
                    p = [rig.left.project(c)[0], rig.right.project(c)[0]]
                    best = (9e9, -1)
                    for i in frames:
                        e = 0
                        for j in (0, 1):
                            v = curves[i, j, s]
                            u = int(round(p[j][0]))
                            e = max(e, abs(p[j][1] - v[u]) if 0 <= u < W and not np.isnan(v[u]) else 9e9)
                        best = min(best, (e, i))
                    if rec.check("cloud", best[0] < 1.2, "%s line: a point of the cloud shows %.1f px away from the line of every pair of images" % (what, min(best[0], 9999)), point=c):
                        hit[best[1]] += 1
                    else:
                        strays += 1
                    if strays > 2:
                        break
                rec.check("frames", all(hit[i] >= 5 for i in frames) and not any(hit[i] for i in range(n) if i not in frames), "%s line: points per pair of images %s, pairs %s" % (what, hit, frames))
                mp = np.array(r["mean_plane"], float)
                dense = np.concatenate([Sheet.curve(sh, (a, 0, 0, 0, 1), np.linspace(-0.5, 0.5, 5) * a) for a in (2.5, 3.5, 5.0)])
                ned = np.c_[-dense[:, 1], dense[:, 0], dense[:, 2]]
                e = gap(mp, ned) / ned[:, 2] * rig.left.K[0, 0]
                rec.check("plane", e.max() < (1.2 if odd < 0 else 8), "%s sheet: the plane reported is up to %.2f px away from the sheet" % (what, e.max()), plane=mp, true=sh.ned)
                rec.check("plane", abs(mp[0] - 1) < 1e-9, "the plane is not scaled to a = 1", plane=mp)
                inl = cloud[gap(mp, cloud) < mdt * 0.999]
                more = cloud[gap(mp, cloud) < mdt * 1.001]
                m = np.array(r["mean_xyz_m"], float)
                tol = 2e-5 + np.abs(more - inl.mean(0)).max() * (len(more) - len(inl)) / max(1, len(inl))
                rec.check("plane", np.abs(m - inl.mean(0)).max() < tol, "%s sheet: the reported centre is not the mean of the points near the plane" % what, centre=m, mean=inl.mean(0))
                up = r["uncertainty_planes"]
                rec.check("uncertainty", len(up) == npl and len({tuple(np.round(x, 9)) for x in up}) >= min(npl, 6), "%d uncertainty planes asked for, %d distinct ones given" % (npl, len({tuple(np.round(x, 9)) for x in up})))
                for c in up:
                    g = np.sort(gap(c, inl))
                    rec.check("uncertainty", g[2] < 3e-5, "%s sheet: an uncertainty plane does not go through three points of the cloud (third closest at %.4f m)" % (what, g[2]), plane=c)
                    # the three points are within mdt of the sheet and far apart: so is everything between them
                    rec.check("own-planes", np.median(gap(c, inl)) < 6 * mdt, "%s sheet: an uncertainty plane is %.2f m away from the points of this laser" % (what, np.median(gap(c, inl))), plane=c, mean=mp)
        if not again or rec.violations:
            return
        text = [o.read_text() for o in outs]
        try:
            run("laser", "-u", npl, d.dive)
        except SystemExit:
            pass
        rec.check("kept", [o.read_text() for o in outs] == text, "a second run without -F changed the calibration")
        with rec.guard("kept", "auv_cal laser -F"):
            run("laser", "-F", "-u", npl, d.dive)
            for o, r in zip(outs, res):
                r2 = yaml.safe_load(o.read_text())
                rec.check("kept", np.allclose(r2["mean_plane"], r["mean_plane"], atol=2e-3) and len(r2["uncertainty_planes"]) == npl, "calibrating again from the stored detections gives another plane", before=r["mean_plane"], after=r2["mean_plane"])
        # a pair of images is replaced: only -FF looks at the images again
        gone_i = frames[-1]
        for j in (0, 1):
            cv2.imwrite(str(d.laser_dir[j] / (nm[gone_i][j] + ".png")), np.zeros((H, W), np.uint8))
        with rec.guard("kept", "auv_cal laser -F and -FF"):
            count = []
            for flag in ("-F", "-FF"):
                run("laser", flag, "-u", npl, d.dive)
                c = ply(d.out / ("points_%s.ply" % d.names[0]))
                count.append(len(c))
            rec.check("kept", count[1] < count[0], "-FF calibrates again from the stored detections")
