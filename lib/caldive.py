"""Calibration dives on disk, and auv_cal run as from the command line."""
import glob
import os
import shutil
import sys
from pathlib import Path

import numpy as np

from lib.engine import quiet

REL = "2020/cruise/platform"


class CalDive:
    def __init__(self, root, names, pattern="Chessboard", cols=8, rows=6, size=0.1, invert=False, laser=None, where="raw", ext="png"):
        self.root = Path(root)
        self.names = names
        self.dive = self.root / "raw" / REL / "20200101_000000_platform_calib"
        self.dive.mkdir(parents=True)
        self.cal = self.root / "configuration" / REL / "calibration"
        self.cal.mkdir(parents=True)
        self.out = self.root / "processed" / REL / "calibration"
        self.cam_dir = [(self.root / where / REL / "20200101_000000_platform_calib" / "cal" / n) for n in names]
        self.laser_dir = [(self.dive / "laser" / n) for n in names]
        for d in self.cam_dir:
            d.mkdir(parents=True)
        import yaml

        cfg = {"cameras": [], "camera_calibration": {"pattern": pattern, "cols": cols, "rows": rows, "size": size, "invert": invert}}
        for n in names:
            cfg["cameras"].append({"name": n, "camera_calibration": {"path": "cal/" + n, "glob_pattern": "*." + ext},
                                   "laser_calibration": {"path": "laser/" + n, "glob_pattern": "*." + ext}})
        cfg["laser_calibration"] = laser or {}
        self.cfg = cfg
        self.save()

    def save(self):
        import yaml

        (self.cal / "calibration.yaml").write_text(yaml.safe_dump(self.cfg, sort_keys=False))

    def clean(self):
        """auv_cal leaves images of the detected boards in /tmp, named after the camera"""
        for n in self.names:
            for p in glob.glob("/tmp/*%s*" % n):
                shutil.rmtree(p, ignore_errors=True) if os.path.isdir(p) else os.unlink(p)


def run(*argv):
    import joblib

    from auv_cal.auv_cal import main

    with quiet(), joblib.parallel_config(backend="sequential"):
        main([str(a) for a in argv])


def read_mat(path, *keys):
    """matrix or number of an OpenCV yaml"""
    import cv2

    fs = cv2.FileStorage(str(path), cv2.FILE_STORAGE_READ)
    n = fs
    for k in keys:
        n = n.getNode(k)
    return n.mat() if n.isMap() else (n.real() if n.isReal() or n.isInt() else n.string())
