"""A simulated pair of cameras: calibration targets and laser sheets rendered through its lenses."""
import os
from pathlib import Path

import numpy as np


def rot(rvec):
    import cv2

    return cv2.Rodrigues(np.array(rvec, float))[0]


class Cam:
    """pinhole camera with plumb-bob distortion; X_cam = R X_left + T"""

    def __init__(self, name, K, d, size, R=None, T=None):
        self.name, self.K, self.d, self.size = name, np.array(K, float), np.array(d, float), tuple(size)
        self.R = np.eye(3) if R is None else np.array(R, float)
        self.T = np.zeros((3, 1)) if T is None else np.array(T, float).reshape(3, 1)

    def project(self, X):
        """pixels in the raw image of points given in the frame of the left camera"""
        import cv2

        X = np.asarray(X, float).reshape(-1, 3)
        return cv2.projectPoints(X.reshape(-1, 1, 3), cv2.Rodrigues(self.R)[0], self.T, self.K, self.d)[0].reshape(-1, 2)

    def rays(self, sub=1):
        """directions (camera frame, z=1) of all pixels, sub x sub samples each"""
        import cv2

        w, h = self.size
        o = (np.arange(sub) + 0.5) / sub - 0.5
        u = (np.arange(w)[:, None] + o[None]).ravel()
        v = (np.arange(h)[:, None] + o[None]).ravel()
        uu, vv = np.meshgrid(u, v)
        pts = np.stack([uu.ravel(), vv.ravel()], 1).reshape(-1, 1, 2)
        crit = (cv2.TERM_CRITERIA_COUNT | cv2.TERM_CRITERIA_EPS, 20, 1e-9)
        n = cv2.undistortPointsIter(pts, self.K, self.d, np.eye(3), np.eye(3), crit).reshape(len(v), len(u), 2)
        return n


class Rig:
    def __init__(self, rng, size=(640, 480), baseline=0.45, vertical=True, strength=1.0, names=None):
        import cv2

        w, h = size
        tag = "v%dq%d" % (os.getpid(), int(rng.integers(1e9)))
        names = names or ("L" + tag, "R" + tag)

        def intr():
            f = rng.uniform(0.95, 1.2) * w
            return np.array([[f, 0, w / 2 + rng.uniform(-12, 12)], [0, f * rng.uniform(0.99, 1.01), h / 2 + rng.uniform(-12, 12)], [0, 0, 1]])

        def dist():
            return np.array([rng.uniform(-0.22, 0.08), rng.uniform(-0.03, 0.08), rng.uniform(-1.5e-3, 1.5e-3), rng.uniform(-1.5e-3, 1.5e-3), rng.uniform(-0.02, 0.02)]) * strength

        self.vertical = vertical
        R = rot(rng.uniform(-0.05, 0.05, 3))
        c = np.array([rng.uniform(-0.03, 0.03), baseline, rng.uniform(-0.03, 0.03)])
        if not vertical:
            c = c[[1, 0, 2]]
        self.centre = c * (1 if rng.random() < 0.5 else -1) if vertical else c
        self.left = Cam(names[0], intr(), dist(), size)
        self.right = Cam(names[1], intr(), dist(), size, R, -R @ self.centre.reshape(3, 1))
        self.size = size
        self.R1, self.R2, self.P1, self.P2 = cv2.stereoRectify(
            self.left.K, self.left.d, self.right.K, self.right.d, size, R, self.right.T, flags=cv2.CALIB_ZERO_DISPARITY, alpha=1.0)[:4]
        Tx = np.array([[0, -self.right.T[2, 0], self.right.T[1, 0]], [self.right.T[2, 0], 0, -self.right.T[0, 0]], [-self.right.T[1, 0], self.right.T[0, 0], 0]])
        self.E = Tx @ R
        F = np.linalg.inv(self.right.K).T @ self.E @ np.linalg.inv(self.left.K)
        self.F = F / F[2, 2]

    def yaml(self, path):
        def m(name, a, ind="  "):
            a = np.atleast_2d(a)
            return "%s%s: !!opencv-matrix\n%s  rows: %d\n%s  cols: %d\n%s  dt: d\n%s  data: [%s]\n" % (
                ind, name, ind, a.shape[0], ind, a.shape[1], ind, ind, ", ".join("%.12e" % x for x in a.ravel()))

        def cam(c, R, P):
            return ("  image_width: %d\n  image_height: %d\n  camera_name: %s\n" % (*c.size, c.name) + m("camera_matrix", c.K)
                    + "  distortion_model: plumb_bob\n" + m("distortion_coefficients", c.d.reshape(1, -1)) + m("rectification_matrix", R) + m("projection_matrix", P))

        s = "%YAML:1.0\nleft:\n" + cam(self.left, self.R1, self.P1) + "right:\n" + cam(self.right, self.R2, self.P2)
        s += "extrinsics:\n" + m("rotation_matrix", self.right.R) + m("translation_vector", self.right.T) + m("fundamental_matrix", self.F) + m("essential_matrix", self.E)
        Path(path).write_text(s)
        return path


def board_pose(rng, cam_rig, cols, rows, size, near=None):
    """a pose in which the whole board is seen by both cameras (R, t of the board in the left frame)"""
    for _ in range(4000):
        R = rot([rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5), rng.uniform(-0.25, 0.25)])
        z = rng.uniform(*(near or (1.4, 3.2))) * size * max(cols, rows) / 1.0
        t = np.array([rng.uniform(-0.45, 0.45) * z, rng.uniform(-0.4, 0.4) * z, z])
        g = np.array([[x, y, 0] for x in (-1.3, cols + 0.3) for y in (-1.3, rows + 0.3)]) * size - np.array([(cols - 1) / 2, (rows - 1) / 2, 0]) * size
        X = g @ R.T + t
        ok = True
        for c in cam_rig:
            p = c.project(X)
            w, h = c.size
            ok &= bool((p > 8).all() and (p[:, 0] < w - 8).all() and (p[:, 1] < h - 8).all())
            # the whole board in the part of the lens where the distortion is monotonic
        if ok:
            return R, t
    return None


def render_board(cam, R, t, cols, rows, size, kind="chessboard", sub=2, invert=False, rays=None):
    """8 bit image of a board with cols x rows inner corners (or dots) in that pose"""
    n = cam.rays(sub) if rays is None else rays
    d = np.concatenate([n, np.ones(n.shape[:2] + (1,))], 2)
    Rc, tc = cam.R @ R, cam.R @ np.asarray(t).reshape(3, 1) + cam.T
    nz = Rc[:, 2]
    lam = (nz @ tc)[0] / (d @ nz)
    P = d * lam[..., None] - tc[:, 0]
    bx = P @ Rc[:, 0] / size + (cols - 1) / 2
    by = P @ Rc[:, 1] / size + (rows - 1) / 2
    white, black, back = 230.0, 25.0, 110.0
    inside = (bx > -1.25) & (bx < cols + 0.25) & (by > -1.25) & (by < rows + 0.25)
    img = np.full(bx.shape, back)
    if kind == "chessboard":
        sq = (bx > -1) & (bx < cols) & (by > -1) & (by < rows)
        dark = (np.floor(bx).astype(int) + np.floor(by).astype(int)) % 2 == 0
        img = np.where(inside, white, img)
        img = np.where(sq & dark, black, img)
    else:
        fx, fy = bx - np.round(bx), by - np.round(by)
        if kind == "acircles":  # every other place, alternating from row to row
            ix, iy = np.round(bx), np.round(by)
            fx = np.where((ix - iy) % 2 == 0, fx, 9.0)
        dot = (fx**2 + fy**2 < (0.28 if kind == "circles" else 0.4)**2) & (np.round(bx) >= 0) & (np.round(bx) < cols) & (np.round(by) >= 0) & (np.round(by) < rows)
        a, b = (black, white) if invert else (white, black)
        img = np.where(inside, a, a if not invert else back * 0.4)
        img = np.where(dot, b, img)
    img = np.where(lam > 0, img, back)
    h, w = cam.size[1], cam.size[0]
    return np.clip(img.reshape(h, sub, w, sub).mean((1, 3)), 0, 255)


class Sheet:
    """a laser sheet y = y0 + tx x + tz z in the frame of the left camera"""

    def __init__(self, y0, tx, tz):
        self.y0, self.tx, self.tz = y0, tx, tz

    @property
    def ned(self):
        """a=1, b, c, d of the sheet in the axes the calibration reports (x up the image, y to the right, z away)"""
        return np.array([1.0, self.tx, self.tz, self.y0])

    def curve(self, scene, x):
        z = np.full_like(x, scene[0])
        for _ in range(60):
            y = self.y0 + self.tx * x + self.tz * z
            z = scene[0] + scene[1] * x + scene[2] * y + scene[3] * np.sin(scene[4] * x)
        return np.stack([x, self.y0 + self.tx * x + self.tz * z, z], 1)


def scene(rng, alt):
    return (alt, rng.uniform(-0.15, 0.15), rng.uniform(-0.15, 0.15), rng.uniform(0, 0.02) * alt, rng.uniform(1, 4) / alt)


def draw_line(img, cam, pts, amp, sigma):
    """adds the laser line through the 3D points pts; -> rows of the line for every column (nan outside)"""
    p = cam.project(pts)
    o = np.argsort(p[:, 0])
    w, h = cam.size
    u = np.arange(w)
    v = np.interp(u, p[o, 0], p[o, 1], left=np.nan, right=np.nan)
    rows = np.arange(h)[:, None]
    g = amp * np.exp(-0.5 * ((rows - v[None]) / sigma) ** 2)
    np.maximum(img, np.nan_to_num(g), out=img)
    return v


def rect_rows(K, d, R, P, raw_uv, width):
    """rows of a curve for every column of the rectified image"""
    import cv2

    q = cv2.undistortPointsIter(raw_uv.reshape(-1, 1, 2), K, d, R, P, (3, 40, 1e-9)).reshape(-1, 2)
    o = np.argsort(q[:, 0])
    return np.interp(np.arange(width), q[o, 0], q[o, 1], left=np.nan, right=np.nan)
