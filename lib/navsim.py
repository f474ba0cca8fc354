"""Random but physically plausible navigation data for auv_nav process."""

import math

import numpy as np

from lib import dive as D


def times(rng, t0, t1, dt, jitter=0.3):
    n = max(3, int((t1 - t0) / dt))
    t = t0 + dt * np.arange(n) + rng.uniform(-jitter, jitter, n) * dt
    t.sort()
    return np.round(t, 3)


class Nav:
    """Measured series (what the sensors reported), plus the configuration."""

    def __init__(self, rng, dur=40.0, turning=True, usbl=True, cams=1, laser=False, offsets=True,
                 attitude=True, ori_dt=0.5, vel_dt=0.8, cam_dt=1.3, cam_before=0, cam_after=0,
                 wrap=True, dvl_offset=None, epoch=None, usbl_bias=True, cam_exact=False, usbl_dt=4.0, cam2_skew=0.0, dup_images=False):
        self.cam2_skew = cam2_skew
        self.rng = rng
        T = D.EPOCH0 + float(rng.integers(0, 10**6)) if epoch is None else epoch
        self.t0, self.t1 = T, T + dur
        self.lat0 = float(rng.uniform(-65, 65))
        self.lon0 = float(rng.uniform(-175, 175))
        # attitude: continuous functions
        self.psi0 = float(rng.uniform(0, 360)) if not wrap else float(rng.choice([355, 2, 180, 350, 8]) + rng.uniform(-4, 4))
        self.rate = float(rng.uniform(-6, 6)) if turning else 0.0
        self.ra, self.pa = (rng.uniform(-15, 15, 2) if attitude else (0.0, 0.0))
        self.wob = 1.0 if turning else 0.0
        self.om = rng.uniform(0.05, 0.3, 6)
        self.ph = rng.uniform(0, 6, 6)
        self.u0, self.v0, self.w0 = float(rng.uniform(0.3, 1.2)), float(rng.uniform(-0.4, 0.4)), float(rng.uniform(-0.2, 0.2))
        self.ori_t = times(rng, T, self.t1, ori_dt)
        self.vel_t = times(rng, T + rng.uniform(0.6, 2.0), self.t1 - rng.uniform(0.5, 2), vel_dt)
        self.dep_t = times(rng, T - 3, self.t1 + 3, 0.9)
        self.alt_t = times(rng, T - 3, self.t1 + 3, 0.7)
        o = (lambda s: [round(float(x), 3) for x in rng.uniform(-s, s, 3)]) if offsets else (lambda s: [0.0, 0.0, 0.0])
        self.origin, self.depth_off, self.usbl_off = o(0.3), o(0.6), o(0.5)
        if dvl_offset is None:
            self.dvl_off = [0.0, 0.0, 0.0] if turning else o(0.6)
        else:
            self.dvl_off = list(dvl_offset)
        self.cam_names = ["CamA", "CamB", "CamC"][:cams]
        self.cam_off = {c: o(1.0) for c in self.cam_names}
        a, b = self.vel_t[0] - cam_before, self.vel_t[-1] + cam_after
        self.cam_t = times(rng, a + (0.01 if not cam_before else 0), b, cam_dt)
        if not cam_before:
            self.cam_t = self.cam_t[self.cam_t > self.ori_t[self.ori_t >= self.vel_t[0]][0]]
        if cam_exact:  # some images share the timestamp of an attitude sample
            inside = self.ori_t[(self.ori_t >= self.vel_t[0]) & (self.ori_t <= self.vel_t[-1])]
            self.cam_t = np.unique(np.concatenate([self.cam_t, rng.choice(inside, 3), inside[-1:]]))
        if dup_images:  # two images of the same instant
            self.cam_t = np.sort(np.concatenate([self.cam_t, self.cam_t[2:4]]))
        self.has_usbl = usbl
        self.laser = laser
        self.laser_t = times(rng, self.vel_t[0] + 1, self.vel_t[-1] - 1, 0.9) if laser else np.array([])
        self.usbl_t = times(rng, T + 1, self.t1, usbl_dt) if usbl else np.array([])
        self.usbl_bias = rng.uniform(-300, 300, 2) if usbl_bias else np.zeros(2)
        self.measure()

    # measured functions
    def rpy(self, t):
        r = self.ra + self.wob * 5 * math.sin(self.om[0] * (t - self.t0) + self.ph[0])
        p = self.pa + self.wob * 4 * math.sin(self.om[1] * (t - self.t0) + self.ph[1])
        y = (self.psi0 + self.rate * (t - self.t0) + self.wob * 6 * math.sin(self.om[2] * (t - self.t0))) % 360
        return r, p, y

    def vel(self, t):
        return (self.u0 + 0.2 * math.sin(self.om[3] * (t - self.t0) + self.ph[3]),
                self.v0 + 0.1 * math.sin(self.om[4] * (t - self.t0) + self.ph[4]),
                self.w0 + 0.05 * math.sin(self.om[5] * (t - self.t0) + self.ph[5]))

    def measure(self):
        rng = self.rng
        self.ori = np.array([self.rpy(t) for t in self.ori_t])
        self.velo = np.array([self.vel(t) for t in self.vel_t])
        self.vstd = rng.uniform(0.005, 0.05, self.velo.shape)
        self.ostd = rng.uniform(0.05, 0.5, self.ori.shape)
        self.dep = 50 + 0.1 * (self.dep_t - self.t0) + 0.5 * np.sin(0.3 * (self.dep_t - self.t0))
        self.dstd = rng.uniform(0.01, 0.1, self.dep.shape)
        self.alt = 6 + 1.5 * np.sin(0.21 * (self.alt_t - self.t0)) + rng.normal(0, 0.05, self.alt_t.shape)
        # crude truth for USBL: integrate finely
        if self.has_usbl:
            tt = np.arange(self.t0, self.t1 + 0.2, 0.1)
            v = np.array([D.rot(*self.rpy(t)) @ np.array(self.vel(t)) for t in tt])
            pos = np.vstack([np.zeros(3), np.cumsum((v[1:] + v[:-1]) / 2 * 0.1, axis=0)])
            n = np.interp(self.usbl_t, tt, pos[:, 0]) + self.usbl_bias[0] + rng.normal(0, 0.7, self.usbl_t.shape)
            e = np.interp(self.usbl_t, tt, pos[:, 1]) + self.usbl_bias[1] + rng.normal(0, 0.7, self.usbl_t.shape)
            self.usbl = np.c_[n, e, np.interp(self.usbl_t, self.dep_t, self.dep)]

    def vehicle(self):
        return D.vehicle_dict(origin=self.origin, dvl=self.dvl_off, depth=self.depth_off, usbl=self.usbl_off,
                              cams=self.cam_off)

    def mission(self, **kw):
        cams = [{"name": c, "path": "image/" + c} for c in self.cam_names]
        if self.laser:
            cams[-1]["records_laser"] = True
        return D.mission_dict(self.lat0, self.lon0, cams=cams, **kw)

    def records(self):
        from geographiclib.geodesic import Geodesic

        R = [D.r_origin(self.lat0, self.lon0)]
        for t, o, s in zip(self.ori_t, self.ori, self.ostd):
            R.append(D.r_ori(float(t), [float(x) for x in o], [float(x) for x in s]))
        for t, v, s in zip(self.vel_t, self.velo, self.vstd):
            R.append(D.r_vel(float(t), [float(x) for x in v], [float(x) for x in s]))
        for t, d, s in zip(self.dep_t, self.dep, self.dstd):
            R.append(D.r_depth(float(t), float(d), float(s)))
        for t, a in zip(self.alt_t, self.alt):
            R.append(D.r_alt(float(t), float(a)))
        for t, (n, e, d) in zip(self.usbl_t, self.usbl if self.has_usbl else []):
            g = Geodesic.WGS84.Direct(self.lat0, self.lon0, math.degrees(math.atan2(e, n)), math.hypot(n, e))
            R.append(D.r_usbl(float(t), g["lat2"], g["lon2"], float(n), float(e), float(d)))
        stereo = len(self.cam_names) > 1
        for i, t in enumerate(self.cam_t):
            f1 = "image/%s/%07d.png" % (self.cam_names[0], i)
            if stereo:
                R.append(D.r_img(float(t), f1, float(t) + self.cam2_skew, "image/%s/%07d.png" % (self.cam_names[1], i)))
            else:
                R.append(D.r_img(float(t), f1))
        for i, t in enumerate(self.laser_t):
            R.append(D.r_laser(float(t), "image/%s_laser/%07d.tif" % (self.cam_names[-1], i)))
        return R

    # ---------------------------------------------------------------- reference dead reckoning
    def reference_dr(self):
        """Independent model of the dead-reckoned DVL/centre tracks (no USBL offset, starts at 0)."""
        m = (self.ori_t >= self.vel_t[0]) & (self.ori_t <= self.vel_t[-1])
        t = self.ori_t[m]
        o = self.ori[m]
        v = np.c_[[np.interp(t, self.vel_t, self.velo[:, k]) for k in range(3)]].T
        vn = np.array([D.rot(*a) @ b for a, b in zip(o, v)])
        dt = np.diff(t)
        ne = np.vstack([[0, 0], np.cumsum((vn[1:, :2] + vn[:-1, :2]) / 2 * dt[:, None], axis=0)])
        og, dv, dp = map(np.array, (self.origin, self.dvl_off, self.depth_off))
        c = np.array([D.rot(*a) @ (og - dv) for a in o])
        z = np.array([(D.rot(*a) @ (og - dp))[2] for a in o])
        depth = np.interp(t, self.dep_t, self.dep)
        alt = np.interp(t, self.alt_t, self.alt)
        return {"t": t, "rpy": o, "dvl_ne": ne, "centre_ne": ne + c[:, :2], "centre_depth": depth + z,
                "centre_alt": alt - c[:, 2], "dvl_depth": depth, "dvl_alt": alt, "v_body": v}
