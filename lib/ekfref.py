"""Independent extended Kalman filter / RTS smoother for the documented 12-state motion model.

State: N, E, D, roll, pitch, yaw [rad], body velocities, body angular rates.
Derivatives are taken by complex-step differentiation of the kinematics, not from formulas.
"""
import math

import numpy as np


def kin(x, dt):
    r, p, y = x[3], x[4], x[5]
    cr, sr, cp, sp, cy, sy = np.cos(r), np.sin(r), np.cos(p), np.sin(p), np.cos(y), np.sin(y)
    v, w = x[6:9], x[9:12]
    n = cy * cp * v[0] + (cy * sp * sr - sy * cr) * v[1] + (cy * sp * cr + sy * sr) * v[2]
    e = sy * cp * v[0] + (sy * sp * sr + cy * cr) * v[1] + (sy * sp * cr - cy * sr) * v[2]
    d = -sp * v[0] + cp * sr * v[1] + cp * cr * v[2]
    rd = w[0] + sr * sp / cp * w[1] + cr * sp / cp * w[2]
    pd = cr * w[1] - sr * w[2]
    yd = sr / cp * w[1] + cr / cp * w[2]
    out = np.array(x, dtype=x.dtype)
    out[:6] = x[:6] + dt * np.array([n, e, d, rd, pd, yd])
    return out


def jac(x, dt):
    J = np.empty((12, 12))
    for k in range(12):
        z = x.astype(complex)
        z[k] += 1e-30j
        J[:, k] = kin(z, dt).imag / 1e-30
    return J


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


def wrapx(x):
    x = x.copy()
    x[3:6] = wrap(x[3:6])
    return x


def rot_rad(r, p, y):
    from lib.dive import rot

    return rot(math.degrees(r), math.degrees(p), math.degrees(y))


class Ref:
    def __init__(self, t0, x0, P0, Q, gate, usbl_arm=(0, 0, 0), depth_arm=(0, 0, 0)):
        self.t, self.x, self.P, self.Q, self.gate = t0, np.array(x0, float), np.array(P0, float), np.array(Q, float), gate
        self.ua, self.da = np.array(usbl_arm, float), np.array(depth_arm, float)
        self.states = [(t0, self.x.copy(), self.P.copy())]
        self.rejected = {}
        self.margin = np.inf  # distance of any d2 to the gate (relative)
        self.accepted = 0

    def predict(self, t):
        dt = t - self.t
        A = jac(self.x, dt)
        self.x = wrapx(kin(self.x, dt))
        self.P = A @ self.P @ A.T + dt * self.Q
        self.t = t

    def correct(self, kind, idx, z, R):
        H = np.zeros((len(idx), 12))
        for i, k in enumerate(idx):
            H[i, k] = 1
        S = H @ self.P @ H.T + np.diag(np.maximum(R, 1e-9))
        nu = np.array(z) - self.x[idx]
        for i, k in enumerate(idx):
            if k in (3, 4, 5):
                nu[i] = wrap(nu[i])
        d2 = float(nu @ np.linalg.solve(S, nu))
        self.margin = min(self.margin, abs(d2 / self.gate ** 2 - 1))
        if d2 >= self.gate ** 2:
            self.rejected.setdefault(kind, []).append(self.t)
            return
        self.accepted += 1
        K = np.linalg.solve(S, H @ self.P).T
        self.x = wrapx(self.x + K @ nu)
        IKH = np.eye(12) - K @ H
        self.P = IKH @ self.P @ IKH.T + K @ np.diag(np.maximum(R, 1e-9)) @ K.T

    def run(self, meas, stamps, end):
        """meas: list of (t, kind, values, variances), values in SI/radians. kind order per instant as given."""
        rank = {"orientation": 0, "USBL": 1, "depth": 2, "DVL": 3}
        events = {}
        for m in meas:
            if m[0] > self.t:
                events.setdefault(m[0], []).append(m)
        for s in stamps:
            if s > self.t:
                events.setdefault(s, [])
        for t in sorted(events):
            self.predict(t)
            for _, kind, z, R in sorted(events[t], key=lambda m: rank[m[1]]):
                rot = rot_rad(*self.x[3:6])
                if kind == "orientation":
                    self.correct(kind, [3, 4, 5], z, R)
                elif kind == "USBL":
                    o = rot @ self.ua
                    self.correct(kind, [0, 1], [z[0] + o[0], z[1] + o[1]], R)
                elif kind == "depth":
                    self.correct(kind, [2], [z[0] + (rot @ self.da)[2]], R)
                else:
                    self.correct(kind, [6, 7, 8], z, R)
            self.states.append((t, self.x.copy(), self.P.copy()))
            if t >= end:
                break

    def smooth(self):
        out = [self.states[-1]]
        for t, x, P in reversed(self.states[:-1]):
            tn, xs, Ps = out[-1]
            dt = tn - t
            A = jac(x, dt)
            Pp = A @ P @ A.T + dt * self.Q
            J = np.linalg.solve(Pp.T, (P @ A.T).T).T
            nu = xs - kin(x, dt)
            nu[3:6] = wrap(nu[3:6])
            out.append((t, x + J @ nu, P + J @ (Ps - Pp) @ J.T))
        return out[::-1]
