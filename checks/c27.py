"""C27 camera models: what a calibration file describes is what the point functions, files and scaled models give."""
import numpy as np

from lib.calsim import Rig
from lib.engine import case_rng, quiet, scratch

PID = "C27"
RULE = ("the camera models of oplab read from files of simulated stereo rigs (vertical and horizontal, different image sizes, lens strengths, downsizing), asked to project, undistort, rectify, triangulate and write themselves; "
        "the oracle is the projection of the simulated lenses; non-trivial: distinct (rig orientation, sizes, ratio, function) combinations")
REQUIRED = {"project": 300, "triangulate": 300, "undistort": 300, "rectify": 300, "outside": 40, "file": 20, "scaled": 100, "maps": 16}
CASE_TIMEOUT = 120
BUDGET = {"quick": 300, "thorough": 1800}


def cases(rng, tier):
    n = 96 if tier == "quick" else 600
    return [{"kind": k, "n": j} for j in range(n) for k in ("stereo", "mono", "file")]


def run_case(case, rec):
    globals()["t_" + case["kind"]](rec, case_rng(case), case)


def rigs(rng, case):
    size = [(640, 480), (400, 300), (321, 243), (1280, 960)][case["n"] // 2 % 4]
    return Rig(rng, size=size, baseline=float(rng.uniform(0.1, 1.0)), vertical=bool(case["n"] % 2), strength=float(rng.choice([0.3, 1.0])))


def mono_yaml(rig, path, c, R, P):
    from pathlib import Path

    rig.yaml(path)
    t = Path(path).read_text().split("right:\n")[0].split("left:\n")
    Path(path).write_text(t[0] + "\n".join(x[2:] for x in t[1].split("\n")))
    return path


def points(rng, n, wide=0.34):
    z = rng.uniform(1.0, 10, n)
    return np.c_[rng.uniform(-wide, wide, n) * z, rng.uniform(-wide, wide, n) * z, z]


def inside(p, size, m=2.0):
    return m < p[0] < size[0] - m and m < p[1] < size[1] - m


def outside(p, size, m=2.0):
    return p[0] < -m or p[1] < -m or p[0] > size[0] + m or p[1] > size[1] + m


def rect(R, P, X):
    """pixel in the rectified image of points in the frame of the (unrectified) left camera; P holds the baseline"""
    Y = np.asarray(R) @ X
    q = P @ np.r_[Y, 1]
    return q[:2] / q[2], Y


def t_stereo(rec, rng, case):
    from oplab import StereoCamera

    rig = rigs(rng, case)
    ratio = [None, 0.5, 0.25, None, 2.0, 0.4][case["n"] // 2 % 6]
    k = ratio or 1.0
    rec.case()
    rec.seen("stereo", rig.vertical, rig.size, ratio)
    with scratch() as root:
        path = rig.yaml(root / "stereo.yaml")
        mons = ("project", "triangulate") if ratio is None else ("scaled", "scaled")
        with rec.guard(mons[0], "stereo model, scaled by %s" % ratio):
            with quiet():
                cam = StereoCamera(path) if ratio is None else StereoCamera(path, downsize_ratio=ratio)
            size = (int(rig.size[0] * k), int(rig.size[1] * k))
            rec.check(mons[0], tuple(cam.left.size) == size and tuple(cam.right.size) == size, "size of the images is %s instead of %s" % (cam.left.size, size))
            rec.check(mons[0], np.allclose(cam.R, rig.right.R) and np.allclose(np.ravel(cam.t), np.ravel(rig.right.T)) and np.allclose(cam.E, rig.E) and np.allclose(cam.F, rig.F), "the geometry of the pair changed", scaled=ratio)
            # after scaling, one pixel of the small image is 1/k of a pixel of the large one
            for X in points(rng, 40):
                a, Y = rect(rig.R1, rig.P1, X)
                q = rig.P2 @ np.r_[Y, 1]
                b = q[:2] / q[2]
                raw = [c.project(X)[0] * k for c in (rig.left, rig.right)]
                a, b = a * k, b * k
                with quiet():
                    got = cam.project_point(list(Y))
                for g, t in zip(got, (a, b)):
                    if inside(t, size):
                        rec.check(mons[0], g is not None and np.abs(np.asarray(g) - t).max() < 1e-4, "a point shows at %s in the rectified image, the model says %s" % (np.round(t, 2), g), point=X)
                    elif outside(t, size):
                        rec.check("outside", g is None, "a point outside the rectified image is given the pixel %s" % (g,), point=X)
                if (outside(a, size) and inside(b, size)) or (inside(a, size) and outside(b, size)):
                    with quiet():
                        g1, g2 = cam.project_point_undistorted(list(Y))
                    e = [np.abs(np.asarray(g) - t).max() for g, t in zip((g1, g2), raw) if g is not None]
                    rec.check("outside", all(x < 0.02 for x in e) and (g1 is None or g2 is None), "a point in only one of the rectified images shows at %s and %s" % (g1, g2), point=X)
                for u, v in ((raw[0], [-3.0 * size[0], 20.0]), ([20.0, -3.0 * size[1]], raw[1])):
                    if case["n"] % 4 < 2:
                        with quiet():
                            q1, q2 = cam.left.undistort_and_rectify_point(list(u)), cam.right.undistort_and_rectify_point(list(v))
                            g = cam.triangulate_point_undistorted(list(u), list(v))
                        if q1 is None or q2 is None:
                            rec.check("outside", g is None, "a pixel outside the rectified image is triangulated to %s" % (g,))
                if inside(a, size) and inside(b, size):
                    got = np.asarray(cam.triangulate_point(list(a), list(b)), float)
                    rec.check(mons[1], np.linalg.norm(got - Y) < 1e-5 * np.linalg.norm(Y) ** 2, "triangulating the rectified pixels of %s gives %s" % (Y, got))
                    if inside(raw[0], size, 4) and inside(raw[1], size, 4):
                        with quiet():
                            g1, g2 = cam.project_point_undistorted(list(Y))
                        e = [9e9 if g is None else np.abs(np.asarray(g) - t).max() for g, t in zip((g1, g2), raw)]
                        rec.check(mons[0], max(e) < 0.02, "a point shows at %s and %s in the images of the cameras, the model says %s and %s" % (np.round(raw[0], 2), np.round(raw[1], 2), g1, g2), point=X)
                        got = cam.triangulate_point_undistorted(list(raw[0]), list(raw[1]))
                        e = [9e9] if got is None else [np.abs(rp(P, got) * k - t).max() for P, t in ((rig.P1, a), (rig.P2, b))]
                        rec.check(mons[1], max(e) < 0.25, "triangulating the pixels of %s in the images gives %s, %.2f px off" % (Y, got, max(e)), point=X)


def rp(P, Y):
    q = P @ np.r_[np.ravel(Y), 1]
    return q[:2] / q[2]


def t_mono(rec, rng, case):
    import cv2

    from oplab import MonoCamera

    rig = rigs(rng, case)
    c = rig.left
    ratio = [None, None, 0.5][case["n"] // 2 % 3]
    k = ratio or 1.0
    rec.case()
    rec.seen("mono", rig.vertical, rig.size, ratio)
    with scratch() as root:
        path = mono_yaml(rig, root / "mono.yaml", c, rig.R1, rig.P1)
        with rec.guard("undistort", "camera model, scaled by %s" % ratio):
            with quiet():
                cam = MonoCamera(path) if ratio is None else MonoCamera(path, ratio)
            size = (int(c.size[0] * k), int(c.size[1] * k))
            rec.check("undistort", cam.name == c.name and tuple(cam.size) == size and abs(cam.aspect_ratio - size[0] / size[1]) < 1e-9, "name or size of the camera is wrong: %s %s" % (cam.name, cam.size))
            K = c.K.copy()
            K[:2] *= k
            for X in points(rng, 40):
                raw = c.project(X)[0] * k
                und = (K @ X / X[2])[:2]
                rct = rect(rig.R1, rig.P1, X)[0] * k
                if not inside(raw, size, 4):
                    continue
                with quiet():
                    g = cam.undistort_point(list(raw))
                    h = cam.undistort_and_rectify_point(list(raw))
                for name, x, t, mon in (("undistorted", g, und, "undistort"), ("rectified", h, rct, "rectify")):
                    if inside(t, size):
                        rec.check(mon, x is not None and np.abs(np.asarray(x) - t).max() < 0.15, "pixel %s belongs at %s of the %s image, the model says %s" % (np.round(raw, 2), np.round(t, 2), name, x), scaled=ratio)
                    elif outside(t, size):
                        rec.check("outside", x is None, "a point outside the %s image is given the pixel %s" % (name, x))
                with quiet():
                    g = cam.distort_point(list(und))
                    h = cam.unrectify_and_distort_point(list(rct))
                for name, x, mon in (("undistorted", g, "undistort"), ("rectified", h, "rectify")):
                    rec.check(mon, x is not None and np.abs(np.asarray(x) - raw).max() < 0.01, "a %s pixel belongs at %s of the image, the model says %s" % (name, np.round(raw, 2), x), scaled=ratio)
            for p in ((-5.0, 10.0), (10.0, -5.0), (size[0] + 5.0, 10.0), (10.0, size[1] + 5.0)):
                rec.check("outside", cam.return_valid(list(p)) is None, "a pixel outside the image is accepted", pixel=p)
            rec.check("outside", cam.return_valid([size[0] / 2, size[1] / 2]) is not None, "the middle of the image is refused")
            mx, my = cam.rectification_maps
            newK = np.asarray(cam.new_K, float)
            ok = mx.shape == my.shape == (size[1], size[0])
            worst = 0
            if ok:
                for _ in range(30):
                    u, v = int(rng.integers(0, size[0])), int(rng.integers(0, size[1]))
                    X = rig.R1.T @ np.linalg.solve(newK, np.array([u, v, 1.0]))
                    if X[2] > 0:
                        worst = max(worst, np.abs(c.project(X / X[2])[0] * k - [mx[v, u], my[v, u]]).max())
            rec.check("maps", ok and worst < 0.05, "the maps of the rectified image point up to %.2f px beside the pixel seen there" % worst, shape=mx.shape)


def t_file(rec, rng, case):
    from oplab import MonoCamera, StereoCamera

    rig = rigs(rng, case)
    rec.case()
    rec.seen("file", rig.vertical, rig.size)
    with scratch() as root:
        with rec.guard("file", "camera models written and read back"):
            with quiet():
                a = StereoCamera(rig.yaml(root / "a.yaml"))
                (root / "b.yaml").write_text(a.to_str())
                b = StereoCamera(root / "b.yaml")
                n, err = int(rng.integers(1, 90)), float(rng.uniform(0, 2))
                extra = dict(num_images=n, error=err) if rng.random() < 0.5 else {}
                (root / "c.yaml").write_text(a.left.to_str(**extra))
                c = MonoCamera(root / "c.yaml")
            for x, t, R, P in ((b.left, rig.left, rig.R1, rig.P1), (b.right, rig.right, rig.R2, rig.P2), (c, rig.left, rig.R1, rig.P1)):
                rec.check("file", x.name == t.name and tuple(x.size) == t.size, "name and size become %s %s" % (x.name, x.size))
                rec.check("file", np.allclose(x.K, t.K, atol=1e-5) and np.allclose(np.ravel(x.d), t.d, atol=1e-5) and np.allclose(x.R, R, atol=1e-5) and np.allclose(x.P, P, atol=1e-5), "the matrices of a camera change when written and read back", camera=t.name, K=x.K, d=x.d)
            rec.check("file", np.allclose(b.R, rig.right.R, atol=1e-5) and np.allclose(b.t, rig.right.T, atol=1e-5) and np.allclose(b.E, rig.E, atol=1e-5) and np.allclose(b.F, rig.F, rtol=1e-6, atol=1e-12), "the geometry of the pair changes when written and read back", R=b.R, t=b.t, F=b.F)
            rec.check("file", not b.different_resolution and not b.different_aspect_ratio, "equal cameras are said to differ")
            if case["n"] % 2:
                other = Rig(rng, size=(500, 500), vertical=True)
                with quiet():
                    p, q = root / "l.yaml", root / "r.yaml"
                    mono_yaml(rig, p, rig.left, rig.R1, rig.P1)
                    mono_yaml(other, q, other.left, other.R1, other.P1)
                    s = StereoCamera(left=p, right=q)
                    o = StereoCamera(left=q, right=p)
                rec.check("file", o.different_resolution and o.different_aspect_ratio and o.left.name == other.left.name, "different cameras are said to be equal")
                rec.check("file", s.different_resolution and s.different_aspect_ratio and s.left.name == rig.left.name and s.right.name == other.left.name, "different cameras are said to be equal")
