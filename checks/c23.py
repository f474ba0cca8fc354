"""C23 camera and stereo calibrations describe the cameras that took the images."""
import contextlib
import math
from pathlib import Path

import numpy as np

from lib.calsim import Rig, board_pose, render_board, rot
from lib.caldive import CalDive, read_mat, run
from lib.engine import Inconclusive, case_rng, quiet, scratch

PID = "C23"
RULE = ("auv_cal mono and stereo as from the command line on boards (chessboards, square, oblong and asymmetric circle grids) rendered through simulated distorting lenses, with frames missing in one camera, "
        "frames without board, unreadable files, mismatched pairs, cameras of different resolution, three file naming styles; the written calibrations are judged by how they project, rectify and "
        "triangulate true points; non-trivial: distinct (pattern, layout, naming, faults, resolution)")
REQUIRED = {"mono-lens": 10, "mono-size": 10, "stereo-rectify": 8, "stereo-triangulate": 8, "stereo-extrinsics": 8, "stereo-epipolar": 8, "kept": 4, "outliers": 2, "best": 1, "repeat": 4, "pairs": 60, "resize": 60, "three": 10}
CASE_TIMEOUT = 150
BUDGET = {"quick": 420, "thorough": 2400}


def cases(rng, tier):
    out = [{"kind": "rig", "n": k} for k in range(16 if tier == "quick" else 120)]
    out += [{"kind": "three", "n": k} for k in range(4 if tier == "quick" else 40)]
    out += [{"kind": k} for _ in range(8 if tier == "quick" else 80) for k in ("pairs", "resize")]
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run_case(case, rec):
    rng = case_rng(case)
    globals()["t_" + case["kind"]](rec, rng, case)


def names(rng, style, n, step=None):
    """n stereo pairs of file names (without extension); the instants are 1 s or more apart, pairs within 40 ms"""
    out = []
    t = int(rng.integers(0, 3000))
    for i in range(n):
        t += step or int(rng.integers(1, 20))
        h, m, s = 10 + t // 3600, t // 60 % 60, t % 60
        if style == "serial":
            out.append(("%07d" % t,) * 2)
        elif style == "image":
            out.append(("image%07d" % t, "%07d" % t))
        elif style == "biocam":
            u = rng.integers(0, 1000000, 2)
            u = (int(u[0] * 0.96), int(u[0] * 0.96 + rng.uniform(0, 38000)))
            cam = [int(x) for x in rng.integers(0, 59, 2)]
            out.append(tuple("20200101_%02d%02d%02d_%06d_20200101_%02d%02d%02d_%06d_pcn" % (h, m, s, u[k], h, m, cam[k], u[k]) for k in (0, 1)))
        else:
            u = int(rng.integers(0, 955))
            v = u + int(rng.integers(0, 40))
            out.append(("PR_20200101_%02d%02d%02d_%03d_LC16" % (h, m, s, u), "PR_20200101_%02d%02d%02d_%03d_RC16" % (h, m, s, v)))
    return out


def t_pairs(rec, rng, case):
    """exactly the images taken together are paired, whatever is missing in either list"""
    from auv_cal.camera_calibrator import find_common_filenames

    for _ in range(8):
        style = str(rng.choice(["serial", "image", "biocam", "acfr"]))
        n = int(rng.integers(2, 25))
        prs = names(rng, style, n)
        L = [i for i in range(n) if rng.random() < 0.8] or [0]
        R = [i for i in range(n) if rng.random() < 0.8] or [0]
        if rng.random() < 0.3:
            rng.shuffle(R)
        rec.case()
        rec.seen("pairs", style, len(L), len(R))
        with rec.guard("pairs", "pairing the images"):
            with quiet():
                got = find_common_filenames([{"file": "/a/%s.png" % prs[i][0], "k": i} for i in L], [{"file": "/b/%s.png" % prs[i][1], "k": i} for i in R])
            got = [(a["k"], b["k"]) for a, b in got]
            exp = [(i, i) for i in L if i in set(R)]
            rec.check("pairs", sorted(got) == sorted(exp), "%s: images paired %s, expected %s" % (style, sorted(got)[:20], exp[:20]), names=[prs[i] for i in L[:3]])


def t_resize(rec, rng, case):
    """an image brought to another size keeps its aspect ratio and is centred"""
    import cv2

    from auv_cal.camera_calibrator import resize_with_padding

    for _ in range(10):
        w, h, tw, th = [int(x) for x in rng.integers(20, 200, 4)]
        if rng.random() < 0.3:
            th = h
        if rng.random() < 0.2:
            tw = w
        img = np.full((h, w), 200, np.uint8)
        rec.case()
        rec.seen("resize", w / h > tw / th, th == h, tw == w)
        with rec.guard("resize", "resizing %dx%d to %dx%d" % (w, h, tw, th)):
            out = resize_with_padding(img, (tw, th))
            ok = out.shape[:2] == (th, tw)
            rec.check("resize", ok, "image of %dx%d asked to be %dx%d comes out as %s" % (w, h, tw, th, out.shape))
            if ok:
                s = min(tw / w, th / h)
                ys, xs = np.nonzero(out > 100)
                cw, ch = xs.max() - xs.min() + 1, ys.max() - ys.min() + 1
                rec.check("resize", abs(cw - s * w) <= 2.5 + 2 * s and abs(ch - s * h) <= 2.5 + 2 * s, "%dx%d in %dx%d: the picture takes %dx%d, expected %.1fx%.1f" % (w, h, tw, th, cw, ch, s * w, s * h))
                rec.check("resize", abs((xs.min() + xs.max()) / 2 - (tw - 1) / 2) <= 1.5 + s and abs((ys.min() + ys.max()) / 2 - (th - 1) / 2) <= 1.5 + s, "the picture is not centred")


def lens(rec, f, side, cam, boards, what):
    """the calibrated lens explains what the true lens shows of the boards, up to the pose of the board"""
    import cv2

    K, d = read_mat(f, *side, "camera_matrix"), read_mat(f, *side, "distortion_coefficients")
    worst = 0.0
    for X in boards:
        p = cam.project(X)
        obj = (cam.R @ X.T + cam.T).T
        ok, rv, tv = cv2.solvePnP(obj, p, K, d, np.zeros((3, 1)), np.zeros((3, 1)), True)
        q = cv2.projectPoints(obj, rv, tv, K, d)[0][:, 0]
        worst = max(worst, float(np.sqrt(((q - p) ** 2).sum(1).mean())))
    rec.check("mono-lens", worst < 0.4, "%s: the calibrated lens misses the boards it was calibrated on by %.3f px" % (what, worst), K=K, d=d, true_K=cam.K, true_d=cam.d)
    dk = np.abs(K - cam.K)
    rec.check("mono-lens", dk[0, 0] < 0.02 * cam.K[0, 0] and dk[1, 1] < 0.02 * cam.K[1, 1] and dk[0, 2] < 0.02 * cam.size[0] and dk[1, 2] < 0.02 * cam.size[0] and K[2, 2] == 1,
              "%s: camera matrix %s instead of %s" % (what, np.round(K, 2).tolist(), np.round(cam.K, 2).tolist()))


@contextlib.contextmanager
def diverging(on):
    """every stereo refinement but the first ends away from the optimum"""
    import cv2

    real = cv2.stereoCalibrate
    calls = []

    def fake(*a, **k):
        r = list(real(*a, **k))
        if calls:
            r[0] = max(r[0], calls[0][0]) * 1.5
            r[5] = rot([0.02, -0.03, 0.01]) @ r[5]
            r[6] = r[6] * 1.1
        calls.append((r[0], r[5].copy(), r[6].copy()))
        return tuple(r)

    if on:
        cv2.stereoCalibrate = fake
    try:
        yield calls
    finally:
        cv2.stereoCalibrate = real


def stereo(rec, f, rig, right, boards, accurate=True):
    import cv2

    L, Rr = rig.left, right
    K1, d1, R1, P1 = [read_mat(f, "left", k) for k in ("camera_matrix", "distortion_coefficients", "rectification_matrix", "projection_matrix")]
    K2, d2, R2, P2 = [read_mat(f, "right", k) for k in ("camera_matrix", "distortion_coefficients", "rectification_matrix", "projection_matrix")]
    R, T, F, E = [read_mat(f, "extrinsics", k) for k in ("rotation_matrix", "translation_vector", "fundamental_matrix", "essential_matrix")]
    X = np.concatenate(boards)
    pl, pr = L.project(X), Rr.project(X)
    crit = (3, 40, 1e-9)
    ql = cv2.undistortPointsIter(pl.reshape(-1, 1, 2), K1, d1, R1, P1, crit)[:, 0]
    qr = cv2.undistortPointsIter(pr.reshape(-1, 1, 2), K2, d2, R2, P2, crit)[:, 0]
    ax = 0 if rig.vertical else 1
    e = float(np.abs(ql - qr)[:, ax].max())
    rec.check("stereo-rectify", e < 1.5 or not accurate, "after rectification the two images of a point differ by %.2f px across the baseline" % e, P1=P1, P2=P2, R1=R1, R2=R2)
    Y = cv2.triangulatePoints(P1, P2, ql.T.copy(), qr.T.copy())
    Y = (Y[:3] / Y[3]).T @ R1
    rel = float((np.linalg.norm(Y - X, axis=1) / np.linalg.norm(X, axis=1)).max())
    b = np.linalg.norm(Rr.T)
    # a rotation of a mrad or two in the extrinsics turns into depth / baseline times that
    lim = 0.03 + 0.004 * float(X[:, 2].max()) / b
    rec.check("stereo-triangulate", rel < lim or not accurate, "points triangulated from the rectified images are %.1f %% of their distance away from where they are" % (100 * rel), P1=P1, P2=P2)
    dT = np.linalg.norm(T - Rr.T)
    dR = np.linalg.norm(cv2.Rodrigues(R @ Rr.R.T)[0])
    rec.check("stereo-extrinsics", dT < 0.05 * b + 0.002 and dR < 0.012 or not accurate, "the second camera is placed %.4f m and %.4f rad from where it is" % (dT, dR), T=T, R=R, true_T=Rr.T, true_R=Rr.R)
    rec.check("stereo-extrinsics", abs(np.linalg.det(R) - 1) < 1e-4 and np.abs(R1 @ R1.T - np.eye(3)).max() < 1e-4 and np.abs(R2 @ R2.T - np.eye(3)).max() < 1e-4, "a rotation is not a rotation")
    # after rectification the two cameras look the same way: R2 R = R1
    rec.check("stereo-rectify", np.abs(R2 @ R - R1).max() < 1e-4, "the rectifying rotations do not go with the extrinsics of the file", R=R, R1=R1, R2=R2)
    base = P2[:, 3] / P2[0, 0]
    rec.check("stereo-rectify", abs(np.linalg.norm(base) - np.linalg.norm(T)) < 1e-3 * np.linalg.norm(T) + 2e-6, "the baseline of the projection matrices is not that of the extrinsics", base=base, T=T)
    tx = np.array([[0, -T[2, 0], T[1, 0]], [T[2, 0], 0, -T[0, 0]], [-T[1, 0], T[0, 0], 0]])
    rec.check("stereo-epipolar", np.abs(E - tx @ R).max() < 1e-5, "the essential matrix is not [T]x R", E=E)
    ul = cv2.undistortPointsIter(pl.reshape(-1, 1, 2), K1, d1, np.eye(3), K1, crit)[:, 0]
    ur = cv2.undistortPointsIter(pr.reshape(-1, 1, 2), K2, d2, np.eye(3), K2, crit)[:, 0]
    hl, hr = np.c_[ul, np.ones(len(ul))], np.c_[ur, np.ones(len(ur))]
    ln = hl @ F.T
    dist = np.abs((hr * ln).sum(1)) / np.maximum(np.hypot(ln[:, 0], ln[:, 1]), 1e-30)
    rec.check("stereo-epipolar", float(dist.max()) < 2.0 or not accurate, "points are up to %.2f px off the epipolar lines of the fundamental matrix" % dist.max(), F=F)


def t_rig(rec, rng, case):
    import cv2

    k = case["n"]
    pattern = ("Chessboard", "Circles", "Chessboard", "Circles")[k % 4]
    kind = "chessboard" if pattern == "Chessboard" else "circles"
    cols, rows = ((8, 6), (7, 7), (7, 5), (8, 5))[k % 4]
    nc, nr = cols, rows  # as in the configuration
    if k % 8 == 7:
        pattern, kind, (nc, nr), (cols, rows) = "ACircles", "acircles", (4, 11), (8, 11)
    vertical = bool((k // 2) % 2)
    style = ("serial", "biocam", "image", "acfr")[(k // 4 + k) % 4]
    odd = k % 8 == 5  # cameras of different resolution
    bad = (k // 2) % 4 == 1 and not odd  # pairs of images of different moments with matching names
    worse = bad and k % 16 == 3  # refinements after the first come out worse than it
    where = "raw" if rng.random() < 0.5 else "processed"
    size = (480, 360)
    rig = Rig(rng, size=size, baseline=0.22, vertical=vertical)
    right = rig.right
    n = 16
    rec.case()
    rec.seen("rig", pattern, cols, rows, vertical, style, odd, bad, worse, where)
    inv = kind != "chessboard" and rng.random() < 0.5
    sq = float(rng.choice([0.05, 0.1, 0.12]))
    rig_scale = sq / 0.1  # the same picture for a board of another size needs a rig of that size
    rig.centre = rig.centre * rig_scale
    right.T = right.T * rig_scale
    big = right
    if odd:
        # the right camera really has another format; its calibration is for its images brought to the format of the left one
        s = 0.75
        w2, h2 = 360, 300
        K = right.K.copy()
        K[:2] *= s
        K[0, 2] += (w2 - 480 * s) / 2
        K[1, 2] += (h2 - 360 * s) / 2
        from lib.calsim import Cam

        big = Cam(right.name, K, right.d, (w2, h2), right.R, right.T)
    with scratch() as root:
        d = CalDive(root, (rig.left.name, right.name), pattern=pattern, cols=nc, rows=nr, size=sq, invert=bool(inv), where=where)
        rl, rr = rig.left.rays(3), big.rays(3)
        nm = names(rng, style, n)
        boards = []
        g = np.array([[x, y, 0] for y in range(rows) for x in range(cols) if kind != "acircles" or (x - y) % 2 == 0], float) * sq - np.array([(cols - 1) / 2, (rows - 1) / 2, 0]) * sq
        gone = set() if bad else {(int(rng.integers(2, n)), int(rng.integers(2))), (int(rng.integers(2, n)), int(rng.integers(2)))}
        # the board was not held still: in these frames the second camera saw it elsewhere, across the baseline
        wrong = dict(zip([int(x) for x in rng.choice(np.arange(2, n), 2, replace=False)], (0.06, 0.02) if k % 16 >= 8 else (0.06,))) if bad else {}
        for i in range(n):
            p = board_pose(rng, [rig.left, big], cols, rows, sq)
            if p is None:
                raise Inconclusive("no pose of the board is seen by both cameras")
            boards.append(g @ p[0].T + p[1])
            for j, (c, ra) in enumerate(((rig.left, rl), (big, rr))):
                if (i, j) in gone:
                    continue
                R, t = p
                if i in wrong and j == 1:
                    ax = 0 if vertical else 1
                    t = t.copy()
                    t[ax] -= math.copysign(wrong[i] * t[2], t[ax])
                im = cv2.GaussianBlur(render_board(c, R, t, cols, rows, sq, kind=kind, sub=3, rays=ra, invert=bool(inv)), (0, 0), 0.7)
                im += rng.normal(0, 1.0, im.shape)
                cv2.imwrite(str(d.cam_dir[j] / (nm[i][j] + ".png")), np.clip(np.round(im), 0, 255).astype(np.uint8))
        # a frame without board and a file that is no image, later than the others
        late = names(rng, style, 3)
        blank = [x.replace("20200101", "20200102") if "2020" in x else x[:-7] + "%07d" % (9000000 + q) for q, x in enumerate([late[0][0], late[0][1], late[1][0]])]
        cv2.imwrite(str(d.cam_dir[0] / (blank[0] + ".png")), np.full((size[1], size[0]), 90, np.uint8))
        if rng.random() < 0.5:
            (d.cam_dir[0] / (blank[2] + ".png")).write_bytes(b"not an image")
        try:
            with rec.guard("mono-lens", "auv_cal mono, %s" % pattern):
                run("mono", d.dive)
                used = [[b for i, b in enumerate(boards) if (i, j) not in gone] for j in (0, 1)]
                for j, c in enumerate((rig.left, big)):
                    f = d.out / ("mono_%s.yaml" % c.name)
                    bs = used[j] if j == 0 else [b for i, b in enumerate(boards) if (i, 1) not in gone and i not in wrong]
                    lens(rec, f, (), c, bs, "mono " + ("left", "right")[j])
                    w, h = int(read_mat(f, "image_width")), int(read_mat(f, "image_height"))
                    rec.check("mono-size", (w, h) == c.size, "calibration is for images of %dx%d, they are %dx%d" % (w, h, *c.size))
                    err = read_mat(f, "avg_reprojection_error")
                    ni = read_mat(f, "number_of_images")
                    rec.check("mono-size", 0 < err < 0.4 and 8 <= ni <= len(used[j]), "reports %s images with %s px" % (ni, err))
                    rec.check("mono-size", read_mat(f, "camera_name") == c.name, "the calibration names another camera")
            if rec.violations:
                return
            mono = {c.name: (d.out / ("mono_%s.yaml" % c.name)).read_text() for c in (rig.left, big)}
            with rec.guard("stereo-rectify", "auv_cal stereo, %s" % pattern):
                with diverging(worse) as calls:
                    run("stereo", d.dive)
                f = d.out / ("stereo_%s_%s.yaml" % d.names)
                good = [b for i, b in enumerate(boards) if i not in wrong]
                if odd:
                    # pixels of the right camera are those of its images brought to the format of the left one
                    s2 = min(size[0] / big.size[0], size[1] / big.size[1])
                    K = big.K.copy()
                    K[:2] *= s2
                    K[0, 2] += (size[0] - big.size[0] * s2) / 2
                    K[1, 2] += (size[1] - big.size[1] * s2) / 2
                    from lib.calsim import Cam

                    stereo(rec, f, rig, Cam(right.name, K, big.d, size, right.R, right.T), good)
                elif worse:
                    rec.event("stereo refinements forced to diverge", len(calls) - 1)
                    stereo(rec, f, rig, right, good, accurate=False)
                    if len(calls) > 1:
                        rec.check("best", np.allclose(read_mat(f, "extrinsics", "rotation_matrix"), calls[0][1], atol=2e-6) and np.allclose(read_mat(f, "extrinsics", "translation_vector"), calls[0][2], atol=2e-6)
                                  and abs(read_mat(f, "avg_reprojection_error") - calls[0][0]) < 1e-6, "the calibration written is not the one with the lowest reprojection error", errors=[c[0] for c in calls])
                    return
                else:
                    stereo(rec, f, rig, right, good)
                if bad:
                    e, m = read_mat(f, "avg_reprojection_error"), read_mat(f, "number_of_images")
                    rec.check("outliers", e < 0.6 and n - len(wrong) - 3 <= m <= n - len(wrong), "of %d pairs %d had a board that moved: %d are kept, with %.2f px" % (n, len(wrong), m, e))
                rec.check("stereo-extrinsics", read_mat(f, "left", "camera_name") == rig.left.name and read_mat(f, "right", "camera_name") == right.name, "left and right are exchanged")
                rec.check("kept", all((d.out / ("mono_%s.yaml" % c)).read_text() == t for c, t in mono.items()), "stereo calibration changed an existing mono calibration")
            if rec.violations or k % 2:
                return
            # without -F nothing is redone; with -F it is, from the stored corners, with the same outcome
            text = f.read_text()
            for what in ("mono", "stereo"):
                try:
                    run(what, d.dive)
                except SystemExit:
                    pass
            rec.check("kept", f.read_text() == text and all((d.out / ("mono_%s.yaml" % c)).read_text() == t for c, t in mono.items()), "a second run without -F changed a calibration")
            with rec.guard("repeat", "auv_cal mono -F"):
                run("mono", "-F", d.dive)
                for c in (rig.left, big):
                    g2 = d.out / ("mono_%s.yaml" % c.name)
                    old = root / "old.yaml"
                    old.write_text(mono[c.name])
                    same = all(np.allclose(read_mat(g2, m), read_mat(old, m), rtol=1e-4, atol=1e-4) for m in ("camera_matrix", "projection_matrix")) and np.allclose(
                        read_mat(g2, "distortion_coefficients"), read_mat(old, "distortion_coefficients"), atol=2e-3)
                    rec.check("repeat", same, "calibrating again from the stored corners gives another calibration", before=mono[c.name][:600], after=g2.read_text()[:600])
        finally:
            d.clean()


def t_three(rec, rng, case):
    """three cameras: the first with the second, the first with the third and the third with the first"""
    import cv2

    from lib.calsim import Cam

    k = case["n"]
    where = ("processed", "raw")[k % 2]
    split = bool((k // 2) % 2)  # the images of the target are in several folders
    size, cols, rows, sq, n = (480, 360), 8, 6, 0.1, 19
    vertical = bool(rng.random() < 0.5)
    rig = Rig(rng, size=size, baseline=0.22, vertical=vertical)
    more = Rig(rng, size=size, baseline=0.2, vertical=vertical)
    third = Cam(more.right.name + "x", more.right.K, more.right.d, size, more.right.R, more.right.T)
    cams = [rig.left, rig.right, third]
    rec.case()
    rec.seen("three", where, split, vertical)
    with scratch() as root:
        d = CalDive(root, tuple(c.name for c in cams), cols=cols, rows=rows, size=sq, where=where)
        dirs = [[p] for p in d.cam_dir]
        if split:
            for j, c in enumerate(cams):
                dirs[j] = [p for p in (d.cam_dir[j], d.cam_dir[j].parent / ("more_" + c.name))]
                dirs[j][1].mkdir()
                d.cfg["cameras"][j]["camera_calibration"]["path"] = ["cal/" + c.name, "cal/more_" + c.name]
            d.save()
        g = np.array([[x, y, 0] for y in range(rows) for x in range(cols)], float) * sq - np.array([(cols - 1) / 2, (rows - 1) / 2, 0]) * sq
        boards, rays = [], [c.rays(2) for c in cams]
        for i in range(n):
            p = board_pose(rng, cams, cols, rows, sq)
            if p is None:
                rec.event("no pose of the board is seen by all cameras")
                return
            boards.append(g @ p[0].T + p[1])
            for j, c in enumerate(cams):
                if (i, j) in ((4, 1), (7, 2), (9, 0)):
                    continue
                im = cv2.GaussianBlur(render_board(c, *p, cols, rows, sq, sub=2, rays=rays[j]), (0, 0), 0.7) + rng.normal(0, 1.0, (size[1], size[0]))
                cv2.imwrite(str(dirs[j][i % len(dirs[j])] / ("%07d.png" % (100 + 3 * i))), np.clip(np.round(im), 0, 255).astype(np.uint8))
        try:
            with rec.guard("three", "auv_cal stereo with three cameras, images in %s" % where):
                run("stereo", d.dive)
                names = sorted(p.name for p in d.out.glob("*.yaml"))
                exp = sorted(["mono_%s.yaml" % c.name for c in cams] + ["stereo_%s_%s.yaml" % (cams[a].name, cams[b].name) for a, b in ((0, 1), (0, 2), (2, 0))])
                rec.check("three", names == exp, "calibrations written: %s, expected %s" % (names, exp))
                if names != exp:
                    return
                for a, b in ((0, 1), (0, 2), (2, 0)):
                    A, B = cams[a], cams[b]

                    class pair:
                        left = Cam(A.name, A.K, A.d, size)

                    pair.vertical = vertical
                    R = B.R @ A.R.T
                    right = Cam(B.name, B.K, B.d, size, R, B.T - R @ A.T)
                    f = d.out / ("stereo_%s_%s.yaml" % (A.name, B.name))
                    before = len(rec.violations)
                    stereo(rec, f, pair, right, [X @ A.R.T + A.T[:, 0] for X in boards])
                    rec.check("three", len(rec.violations) == before and read_mat(f, "left", "camera_name") == A.name and read_mat(f, "right", "camera_name") == B.name, "the calibration of %d with %d is wrong" % (a, b))
                    m = int(read_mat(f, "number_of_images"))
                    rec.check("three", 8 <= m <= n - 2, "%d of %d pairs used" % (m, n - 2))
        finally:
            d.clean()
