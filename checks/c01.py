"""C01 frame rotations and geographic conversions."""
import math

import numpy as np
from geographiclib.geodesic import Geodesic

from auv_nav.tools.body_to_inertial import body_to_inertial
from auv_nav.tools.inertial_to_body import inertial_to_body
from auv_nav.tools.latlon_wgs84 import latlon_to_metres, metres_to_latlon
from lib import dive as D
from lib.engine import case_rng

PID = "C01"
RULE = ("random and special attitudes (multiples of 90 deg, beyond one turn, gimbal lock) x random/axis vectors; "
        "random and special reference points (equator, antimeridian, high latitude) x offsets from 1 mm to 100 km; "
        "non-trivial: attitude or offset not all zero")
REQUIRED = {"rotation-convention": 500, "rotation-inverse": 500, "geo-roundtrip": 300, "geo-geodesic": 300}


def cases(rng, tier):
    n = 80 if tier == "quick" else 160
    return [{"kind": "rot", "i": i, "n": 400} for i in range(n)] + [
        {"kind": "geo", "i": i, "n": 150} for i in range(n)]


def run_case(case, rec):
    rng = case_rng(case)
    (rot_case if case["kind"] == "rot" else geo_case)(case, rec, rng)


def pick_angle(rng):
    k = rng.integers(0, 5)
    if k == 0:
        return float(rng.integers(-8, 9) * 90)
    if k == 1:
        return float(rng.choice([0, 1e-9, -1e-9, 359.999999, 360, 180, -180, 45]))
    if k == 2:
        return float(rng.uniform(-1080, 1080))
    return float(rng.uniform(-180, 360))


def rot_case(case, rec, rng):
    for _ in range(case["n"]):
        r, p, y = pick_angle(rng), pick_angle(rng), pick_angle(rng)
        scale = 10.0 ** rng.uniform(-3, 4)
        v = rng.normal(size=3) * scale
        if rng.random() < 0.2:
            v = np.eye(3)[rng.integers(0, 3)] * scale * rng.choice([-1, 1])
        v = [float(x) for x in v]
        tol = 1e-9 * (1 + float(np.linalg.norm(v)))
        rec.case()
        rec.seen("rot", r, p, y, v)
        with rec.guard("rotation-convention", "body to inertial", rpy=[r, p, y], v=v):
            w = np.array(body_to_inertial(r, p, y, *v), float)
            ref = D.rot(r, p, y) @ np.array(v)
            rec.check("rotation-convention", w.shape == (3,) and np.all(np.abs(w - ref) <= tol),
                      "body->inertial %s of %s gave %s, rigid rotation gives %s" % ((r, p, y), v, w, ref),
                      rpy=[r, p, y], v=v, got=w, want=ref)
            rec.check("rotation-length", abs(np.linalg.norm(w) - np.linalg.norm(v)) <= tol,
                      "length not preserved", rpy=[r, p, y], v=v)
        with rec.guard("rotation-inverse", "inertial to body", rpy=[r, p, y], v=v):
            b = np.array(inertial_to_body(r, p, y, *w), float)
            rec.check("rotation-inverse", np.all(np.abs(b - np.array(v)) <= 3 * tol),
                      "inertial->body(body->inertial(v)) = %s, v = %s at rpy %s" % (b, v, (r, p, y)),
                      rpy=[r, p, y], v=v, got=b)
            b2 = np.array(inertial_to_body(r, p, y, *v), float)
            rec.check("rotation-inverse", np.all(np.abs(b2 - D.rot(r, p, y).T @ np.array(v)) <= tol),
                      "inertial->body is not the transpose rotation at rpy %s" % ((r, p, y),),
                      rpy=[r, p, y], v=v, got=b2)
    rec.sample({"rpy": [r, p, y], "v": v, "inertial": w})


def geo_case(case, rec, rng):
    for _ in range(case["n"]):
        k = rng.integers(0, 6)
        lat0 = float(rng.uniform(-89.5, 89.5)) if rng.random() < 0.3 else float(rng.uniform(-84, 84))
        lon0 = float(rng.uniform(-180, 180))
        if k == 0:
            lat0 = float(rng.choice([0.0, 1e-7, -1e-7]))
        elif k == 1:
            lon0 = float(rng.choice([179.99999, -179.99999, 180.0, 0.0, -1e-6]))
        d = 10.0 ** rng.uniform(-4, 4.3)
        if rng.random() < 0.05:
            d = 0.0
        az = float(rng.choice([0, 90, 180, 270, 45])) if rng.random() < 0.3 else float(rng.uniform(0, 360))
        e, n = d * math.sin(math.radians(az)), d * math.cos(math.radians(az))
        rec.case()
        rec.seen("geo", lat0, lon0, e, n)
        wit = dict(lat0=lat0, lon0=lon0, e=e, n=n)
        with rec.guard("geo-geodesic", "metres to lat/lon", **wit):
            la, lo = metres_to_latlon(lat0, lon0, e, n)
            g = Geodesic.WGS84.Direct(lat0, lon0, math.degrees(math.atan2(e, n)), math.hypot(e, n))
            dl = (lo - g["lon2"] + 180) % 360 - 180
            rec.check("geo-geodesic", abs(la - g["lat2"]) < 1e-11 and abs(dl) * math.cos(math.radians(la)) < 1e-11 and -180 <= lo <= 180,
                      "offset (E %.3f, N %.3f) from (%.6f, %.6f) gave (%.9f, %.9f), geodesic (%.9f, %.9f)"
                      % (e, n, lat0, lon0, la, lo, g["lat2"], g["lon2"]), **wit)
        with rec.guard("geo-roundtrip", "lat/lon to metres", **wit):
            dist, brg = latlon_to_metres(la, lo, lat0, lon0)
            e2, n2 = dist * math.sin(math.radians(brg)), dist * math.cos(math.radians(brg))
            rec.check("geo-roundtrip", abs(e2 - e) < 1e-6 + 1e-9 * d and abs(n2 - n) < 1e-6 + 1e-9 * d,
                      "round trip (E %.4f, N %.4f) -> (E %.4f, N %.4f) at (%.5f, %.5f)" % (e, n, e2, n2, lat0, lon0),
                      **wit)
            d0, _ = latlon_to_metres(lat0, lon0, lat0, lon0)
            rec.check("geo-zero", abs(d0) < 1e-6, "distance of a point to itself is %r" % d0, **wit)
    rec.sample({"ref": [lat0, lon0], "offset_en": [e, n], "latlon": [la, lo]})
