"""Small image dives for the correct_images checks: configuration, images of a known scene, navigation tables, drivers."""
import contextlib
import sys

import numpy as np
import yaml

from lib import dive as D
from lib.engine import quiet

BAYER = {"rggb": "RGGB", "grbg": "GRBG", "bggr": "BGGR", "gbrg": "GBRG"}


def mosaic(pattern, h, w):
    """channel index (0 red, 1 green, 2 blue) of every pixel of a mosaic"""
    p = [{"r": 0, "g": 1, "b": 2}[c] for c in pattern]
    m = np.zeros((h, w), int)
    m[0::2, 0::2], m[0::2, 1::2], m[1::2, 0::2], m[1::2, 1::2] = p
    return m


class Cam:
    def __init__(self, name="CAM1", type_="grayscale", h=10, w=12, ext="png", bits=8):
        self.name, self.type, self.h, self.w, self.ext, self.bits = name, type_, h, w, ext, bits
        self.c = 3 if type_ in ("rgb", "bgr") else 1
        self.rows, self.images = [], []

    def shape(self):
        return (self.h, self.w, 3) if self.c == 3 else (self.h, self.w)

    def store(self, x):
        """unitary image -> file content"""
        q = np.clip(np.floor(x * 2 ** self.bits), 0, 2 ** self.bits - 1)
        return q.astype(np.uint8) if self.bits == 8 else (q.astype(np.uint16) << (16 - self.bits)).astype(np.uint16)

    def load(self, stored):
        """what a correct loader must deliver for that content"""
        return stored.astype(np.float64) / 256 if self.bits == 8 else (stored >> (16 - self.bits)).astype(np.float64) / 2 ** self.bits


class ImgDive:
    def __init__(self, root, rng, cams, n=40, alt=(2.0, 3.0), name="20180626_080000_sim", missing=0, none_alt=0, ekf=True, extra_json=False, scene=None, t0=None,
                 prefix="", noise=0.05, alts=None, dark=0):
        self.dive = d = D.Dive(root, name=name)
        self.cams, self.rng = cams, rng
        d.processed.mkdir(parents=True, exist_ok=True)
        self.t0 = D.EPOCH0 if t0 is None else t0
        # padded names, or names that are part of each other
        fmt = str(rng.choice(["{p}IM_{k:05d}_{c}.{e}", "{p}{c}_IM_{k}.{e}", "{p}{k}.{e}"]))
        from imageio.v2 import imwrite

        for cam in cams:
            (d.raw / "image" / cam.name).mkdir(parents=True, exist_ok=True)
            shp = cam.shape()
            s = scene(cam) if scene else {"a": rng.uniform(0.6, 1.6, shp), "b": -rng.uniform(0.25, 0.7, shp), "c": rng.uniform(0.0, 0.05, shp)}
            cam.scene = s
            aa = np.asarray(alts, float) if alts is not None else rng.uniform(alt[0], alt[1], n)
            for k in range(len(aa)):
                a = float(aa[k])
                x = (s["a"] * np.exp(s["b"] * a) + s["c"]) * (1 + noise * rng.standard_normal(shp))
                st = cam.store(x)
                if dark:
                    st.reshape(-1)[:dark] = 0
                fn = fmt.format(p=prefix, k=k, c=cam.name[-3:], e=cam.ext)
                rel = "image/%s/%s" % (cam.name, fn)
                gone = k < missing
                if not gone:
                    imwrite(d.raw / rel, st)
                cam.rows.append({"relative_path": rel, "altitude": None if missing <= k < missing + none_alt else a, "t": self.t0 + 2.0 * k, "gone": gone})
                cam.images.append(st)
            sub, pre = ("ekf", "auv_ekf_") if ekf else ("dead_reckoning", "auv_dr_")
            p = d.processed / "json_renav_20180626_080000_20180626_090000" / "csv" / sub / (pre + cam.name + ".csv")
            p.parent.mkdir(parents=True, exist_ok=True)
            with p.open("w") as f:
                f.write("relative_path,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],timestamp [s],latitude [deg],longitude [deg]\n")
                for r in cam.rows:
                    f.write("%s,%.3f,%.3f,%.3f,0,0,0,%s,%.3f,50.0,-1.0\n" % (r["relative_path"], rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(9, 19), r["altitude"], r["t"]))
            self.nav_path = p
        mission = D.mission_dict(50.0, -1.0, cams=[{"name": c.name, "type": c.type, "path": "image/" + c.name} for c in cams], image_format="sim")
        camera = {"camera_system": "sim",
                  "cameras": [{"name": c.name, "type": c.type, "bit_depth": c.bits, "path": "image/" + c.name, "extension": c.ext,
                               "filename_to_date": "xxxiiiiixxxx"[: 3 + 5 + 4], "timestamp_file": None} for c in cams]}
        d.write_config(mission, D.vehicle_dict(cams={c.name: (0, 0, 0) for c in cams}), camera)
        where = str(rng.choice(["raw", "raw", "configuration", "both"]))
        if where != "raw":
            # the file in the configuration folder is the one that counts
            d.config.mkdir(parents=True, exist_ok=True)
            (d.config / "camera.yaml").write_text((d.raw / "camera.yaml").read_text())
            if where == "both":
                for c in camera["cameras"]:
                    c["bit_depth"] = 7
                (d.raw / "camera.yaml").write_text(yaml.safe_dump(camera))
            else:
                (d.raw / "camera.yaml").unlink()

    def config(self, method="colour_correction", metric="altitude", smoothing="mean", parse=(2.0, 3.0), process=None, brightness=30, contrast=3, fmt="png",
               undistort=False, lists=None, subtract=(0, 0, 0), gains=((1, 0, 0), (0, 1, 0), (0, 0, 1)), metric_path="json_renav_*", suffix="", legacy=False, cams=None,
               per_cam=None):
        process = process or parse
        filt = ({"min_m": parse[0], "max_m": parse[1]} if legacy else
                {"parse": {"min_m": parse[0], "max_m": parse[1]}, "process": {"min_m": process[0], "max_m": process[1]}})
        self.cfg = {"version": 2, "method": method,
                    "colour_correction": {"distance_metric": metric, "metric_path": metric_path, "altitude_filter": filt, "smoothing": smoothing, "window_size": 3},
                    "cameras": [{"camera_name": c.name, "image_file_list": (lists or {}).get(c.name, {"parse": "none", "process": "none"}),
                                 "colour_correction": {"brightness": (per_cam or {}).get(c.name, (brightness, contrast))[0],
                                                       "contrast": (per_cam or {}).get(c.name, (brightness, contrast))[1]},
                                 "manual_balance": {"subtractors_rgb": [float(x) for x in subtract], "colour_gain_matrix_rgb": [[float(x) for x in r] for r in gains]}}
                                for c in (cams or self.cams)],
                    "output_settings": {"undistort": bool(undistort), "compression_parameter": fmt}}
        fn = "correct_images%s.yaml" % ("_" + suffix if suffix else "")
        (self.dive.config / fn).write_text(yaml.safe_dump(self.cfg))

    def depth_maps(self, skip=()):
        """one depth map per image (beside the altitude), for the cameras' images"""
        base = self.dive.processed / "3d_reconstruction/depth_maps/gp_smoothed"
        for cam in self.cams:
            cam.maps = []
            for k, r in enumerate(cam.rows):
                m = (r["altitude"] or 2.5) + self.rng.uniform(-0.1, 0.1, (cam.h, cam.w))
                p = base / r["relative_path"]
                p = p.with_name(p.stem + "_depthmap.npy")
                p.parent.mkdir(parents=True, exist_ok=True)
                r["map"] = p
                if k not in skip:
                    np.save(p, m)
                cam.maps.append(m)


@contextlib.contextmanager
def fast(sequential=True):
    """no figures rendered; joblib in this process (one worker process per core otherwise)"""
    import joblib
    import matplotlib.pyplot as plt

    old = plt.savefig
    plt.savefig = lambda *a, **k: None
    try:
        if sequential:
            with joblib.parallel_config(backend="sequential"):
                yield
        else:
            yield
    finally:
        plt.savefig = old
        plt.close("all")


def run(*argv, sequential=True, memmap=None):
    """correct_images as from the command line"""
    from correct_images.correct_images import main

    argv = [str(a) for a in argv]
    if argv[0] == "parse" and memmap:
        argv += ["--memmap-location", str(memmap)]
    old = sys.argv
    sys.argv = ["correct_images"] + argv
    try:
        with quiet(), fast(sequential):
            main(argv)
    finally:
        sys.argv = old


def reference(cam, rows_imgs, attn, gains, mean, std, brightness, contrast):
    pass
