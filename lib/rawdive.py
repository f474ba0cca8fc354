"""Raw sensor logs in the formats the parser supports, with the records they must become.

Every writer puts the files of one instrument under `raw` and returns
(mission entries, expected records, extra). An expected record is
{"cat", "t", "v": {name: value}, "std": {name: value}, "fmt"}; time written in the
file is local time: t + tz hours - timeoffset.
"""

import calendar
import datetime as dt
import math

import numpy as np

from lib.dive import rot

UTC = dt.timezone.utc


class Clock:
    """Local wall-clock text for an instant, and the epoch that text must be read as."""

    def __init__(self, tz, timeoffset):
        self.tz, self.off = tz, timeoffset

    def local(self, t_ms):
        """t_ms: integer milliseconds of the *file's* wall clock."""
        return dt.datetime(1970, 1, 1) + dt.timedelta(milliseconds=int(t_ms))

    def epoch(self, t_ms):
        return int(t_ms) / 1000.0 - self.tz * 3600.0 + self.off


def cs(body):
    x = 0
    for c in body:
        x ^= ord(c)
    return "%02X" % x


def times(rng, day, n, dt_s=1.0, h0=None, jitter=True):
    """n increasing wall-clock times (integer ms) from an hour of a day on; they may run past midnight."""
    base = calendar.timegm(day.timetuple()) * 1000
    h = float(rng.uniform(0, 22)) if h0 is None else h0
    t = base + int(h * 3600_000) + np.arange(n) * int(dt_s * 1000)
    if jitter:
        t = t + rng.integers(0, max(1, int(dt_s * 800)), n)
    return [int(x) for x in t]


def rday(rng):
    k = int(rng.integers(0, 6))
    if k == 0:
        return dt.datetime(2020, 2, 29)
    if k == 1:
        return dt.datetime(2019, 12, 31)
    if k == 2:
        return dt.datetime(2019, 3, 31)  # daylight saving switch in Europe
    if k == 3:  # epochs of 1600000000 to 1659999999: their first digits may look like a time of day
        return dt.datetime(2020, 9, 14) + dt.timedelta(days=int(rng.integers(0, 685)))
    return dt.datetime(2015, 1, 1) + dt.timedelta(days=int(rng.integers(0, 3500)))


def entry(fmt, path, fn, clk, fac=0.0, offs=0.0, **kw):
    d = {"format": fmt, "filepath": path, "filename": fn, "timezone": clk.tz, "timeoffset": clk.off,
         "std_factor": fac, "std_offset": offs}
    d.update(kw)
    return d


def corrupt(rng, line):
    """A damaged copy of '$BODY*CS' whose checksum does not fit, or None lines that are no packets at all."""
    body, c = line[1:].split("*")
    k = int(rng.integers(0, 5))
    if k == 0:  # a digit changed
        idx = [i for i, ch in enumerate(body) if ch.isdigit()]
        i = int(rng.choice(idx))
        new = str((int(body[i]) + int(rng.integers(1, 10))) % 10)
        return "$" + body[:i] + new + body[i + 1:] + "*" + c
    if k == 1:  # wrong checksum
        return "$" + body + "*%02X" % ((int(c, 16) + int(rng.integers(1, 255))) % 256)
    if k == 2:  # cut short
        return ("$" + body)[: int(rng.integers(3, len(body)))]
    if k == 3:  # a digit lost
        idx = [i for i, ch in enumerate(body) if ch.isdigit() and ch != "0"]
        i = int(rng.choice(idx)) if idx else len(body) // 2
        return "$" + body[:i] + body[i + 1:] + "*" + c
    return "$" + body + "," + "*" + c


def rdepth(rng, top):
    """A depth; sometimes of a vehicle at the surface, where sensors report a little above it."""
    if rng.random() < 0.12:
        return round(float(rng.uniform(-1.5, 0.0)), 2)
    return round(float(rng.uniform(1, top)), 2)


def phins(rng, raw, clk, cats=("velocity", "orientation", "depth", "altitude"), n=20, bad=0.0, dvl_yaw=0.0,
          day=None, h0=None):
    day = day or rday(rng)
    ts = times(rng, day, n, h0=h0)
    fac = {c: float(rng.uniform(0, 0.05)) for c in ("velocity", "orientation", "depth", "altitude")}
    offs = {c: float(rng.uniform(0, 0.3)) for c in ("velocity", "orientation", "depth", "altitude")}
    lines, exp, dropped = [], [], 0
    tstr = lambda t: clk.local(t).strftime("%H%M%S.") + "%03d" % (t % 1000)
    R = rot(0, 0, dvl_yaw)
    stds, pend = [], None
    have_std = False
    for k, t in enumerate(ts):
        e = clk.epoch(t)
        badtime = bad > 0 and rng.random() < bad / 3
        tt = tstr(t)
        if badtime:
            tt = tt[:4] + "60" + tt[6:]

        def put(body):
            nonlocal dropped
            line = "$" + body + "*" + cs(body)
            if bad and rng.random() < bad:
                lines.append(corrupt(rng, line))
                dropped += 1
                return False
            lines.append(line)
            return True

        lines.append("$PIXSE,TIME__,%s*%s" % (tt, cs("PIXSE,TIME__,%s" % tt)))
        std = [round(float(x), 3) for x in rng.uniform(0.01, 0.9, 3)]
        r, p, y = round(float(rng.uniform(-8, 8)), 3), round(float(rng.uniform(-8, 8)), 3), round(float(rng.uniform(0, 359.9)), 3)
        b = "PIXSE,STDHRP,%.3f,%.3f,%.3f" % tuple(std)
        ok = put(b)
        if ok:
            stds.append(std)
            have_std = True
        ok_h = put("HEHDT,%.3f,T" % y)
        ok_a = put("PIXSE,ATITUD,%.3f,%.3f" % (r, p))
        if ok_h and ok_a and have_std and not badtime and "orientation" in cats:
            rp = R @ np.array([-r, -p, y])
            exp.append({"cat": "orientation", "t": e, "fmt": "phins", "v": {"heading": y, "roll": rp[0], "pitch": rp[1]},
                        "std_any": [{"heading_std": s[0], "roll_std": math.hypot(R[0, 0] * s[1], R[0, 1] * s[2]),
                                     "pitch_std": math.hypot(R[1, 0] * s[1], R[1, 1] * s[2])} for s in stds[-2:]]})
        v = [round(float(x), 2) for x in rng.uniform(-2, 2, 3)]
        speed = None
        if put("PIXSE,SPEED_,%.2f,%.2f,%.2f" % tuple(v)) and not badtime and "velocity" in cats:
            speed = {"cat": "velocity", "frame": "inertial", "t": e, "fmt": "phins",
                     "v": {"east_velocity": v[0], "north_velocity": v[1], "down_velocity": -v[2]}}
            if pend:  # the report before the speed belongs to it
                speed["std"] = dict(zip(("east_velocity_std", "north_velocity_std", "down_velocity_std"), pend))
            pend = None
            exp.append(speed)
        v = [round(float(x), 2) for x in rng.uniform(0.01, 1, 3)]
        if put("PIXSE,STDSPD,%.2f,%.2f,%.2f" % tuple(v)):
            pend = v
        v = [round(float(x), 2) for x in rng.uniform(-2, 2, 3)]
        td = t - int(rng.integers(0, 300)) if k else t
        bad_d = bad > 0 and rng.random() < bad / 3
        dstr = tstr(td)
        if bad_d:
            dstr = dstr[:4] + "60" + dstr[6:]
        okd = put("PIXSE,LOGIN_,%.2f,%.2f,%.2f,0.0,%s" % (v[0], v[1], v[2], dstr))
        if okd and not badtime and not bad_d and "velocity" in cats:
            w = R @ np.array(v)
            w = np.array([w[0], -w[1], -w[2]])
            exp.append({"cat": "velocity", "frame": "body", "t": e, "t_dvl": clk.epoch(td), "fmt": "phins",
                        "v": {"x_velocity": w[0], "y_velocity": w[1], "z_velocity": w[2]},
                        "std": {a + "_velocity_std": abs(x) * fac["velocity"] + offs["velocity"] for a, x in zip("xyz", w)}})
        if okd and not bad_d:  # an altitude is exported only with the time of its DVL packet
            a = round(float(rng.uniform(0.5, 30)), 2)
            sv = round(float(rng.uniform(1450, 1540)), 1)
            if put("PIXSE,LOGDVL,%.1f,%.2f,%.2f" % (sv, 1.0, a)) and "altitude" in cats and not badtime:
                exp.append({"cat": "altitude", "t": e, "fmt": "phins", "v": {"altitude": a, "sound_velocity": sv},
                            "std": {"altitude_std": a * fac["altitude"]}})
        d = rdepth(rng, 4000)
        bad_p = bad > 0 and rng.random() < bad / 3
        pstr = tstr(t)
        if bad_p:
            pstr = pstr[:4] + "60" + pstr[6:]
        if put("PIXSE,DEPIN_,%.3f,%s" % (d, pstr)) and not badtime and not bad_p and "depth" in cats:
            exp.append({"cat": "depth", "t": e, "fmt": "phins", "v": {"depth": d}, "std": {"depth_std": abs(d) * fac["depth"]}})
        if bad and rng.random() < bad:
            lines.append(str(rng.choice(["", "garbage", "$GPZDA,1,2,3*00", "$PIXSE", "*", "$PIXSE,ATITUD,1,2*", "\x00\x01,,,"])))
    fn = day.strftime("%Y%m%d") + "_phins.txt"
    (raw / "nav" / "phins").mkdir(parents=True, exist_ok=True)
    data = "\n".join(lines).encode()
    if bad:
        data += b"\n\xff\xfe\x80$PIXSE,ATITUD,1.0,2.0*11\n"
    (raw / "nav" / "phins" / fn).write_bytes(data + b"\n")
    ents = {c: entry("phins", "nav/phins/", fn, clk, fac[c], offs[c]) for c in cats}
    if "velocity" not in ents:
        raise ValueError("phins needs velocity")
    return ents, exp, {"dropped": dropped}


def ae2000(rng, raw, clk, cats=("velocity", "orientation", "depth", "altitude"), n=25, dvl_rpy=(0, 0, 0), ins_yaw=0.0,
           day=None, h0=None, bad=0.0):
    """Already in UTC: the configured time zone must not shift it."""
    day = day or rday(rng)
    (raw / "nav" / "ae2000").mkdir(parents=True, exist_ok=True)
    ents, exp = {}, []
    utc = Clock(0, clk.off)
    st = day.strftime("%y%m%d") + "010203"
    tm = lambda t: utc.local(t).strftime("%Y/%m/%d %H:%M:%S.") + "%03d" % (t % 1000)
    if "velocity" in cats or "altitude" in cats:
        fn = "dvl%s.csv" % st
        fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0, 0.3))
        rows = ["idx,time,dvl_validBottom,dvl_surgeVelBottom,dvl_swayVelBottom,dvl_heaveVelBottom,dvl_rangeBottom"]
        R = rot(*dvl_rpy)
        for i, t in enumerate(times(rng, day, n, h0=h0)):
            v = [round(float(x), 1) for x in rng.uniform(-2000, 2000, 3)]
            a = round(float(rng.uniform(0.5, 40)), 2)
            valid = str(rng.choice(["1", "1", "1", "0", "" if bad else "0"]))
            rows.append("%d,%s,%s,%.1f,%.1f,%.1f,%.2f" % (i, tm(t), valid, *v, a))
            if valid != "1":
                continue
            w = R @ (np.array(v) / 1000)
            if "velocity" in cats:
                exp.append({"cat": "velocity", "frame": "body", "t": utc.epoch(t), "fmt": "ae2000",
                            "v": dict(zip(("x_velocity", "y_velocity", "z_velocity"), w)),
                            "std": {k + "_velocity_std": abs(x) * fac + offs for k, x in zip("xyz", w)}})
            if "altitude" in cats:
                exp.append({"cat": "altitude", "t": utc.epoch(t), "fmt": "ae2000", "v": {"altitude": a},
                            "std": {"altitude_std": a * fac + offs}})
        if bad:
            rows.append("9999")
        (raw / "nav" / "ae2000" / fn).write_text("\n".join(rows) + "\n")
        for c in ("velocity", "altitude"):
            if c in cats:
                ents[c] = entry("ae2000", "nav/ae2000/", fn, clk, fac, offs)
    if "orientation" in cats:
        fn = "quadrans%s.csv" % st
        fac, offs = float(rng.uniform(0, 0.01)), float(rng.uniform(0, 0.3))
        rows = ["idx,time,roll,pitch,yaw"]
        for i, t in enumerate(times(rng, day, n, h0=h0)):
            r, p, y = (round(float(x), 3) for x in (rng.uniform(-9, 9), rng.uniform(-9, 9), rng.uniform(0, 359.9)))
            rows.append("%d,%s,%.3f,%.3f,%.3f" % (i, tm(t), r, p, y))
            exp.append({"cat": "orientation", "t": utc.epoch(t), "fmt": "ae2000",
                        "v": {"heading": (y + ins_yaw) % 360, "roll": r, "pitch": p},
                        "std": {"heading_std": y * fac + offs, "roll_std": abs(r) * fac + offs, "pitch_std": abs(p) * fac + offs}})
        (raw / "nav" / "ae2000" / fn).write_text("\n".join(rows) + "\n")
        ents["orientation"] = entry("ae2000", "nav/ae2000/", fn, clk, fac, offs)
    if "depth" in cats:
        fn = "pos%s.csv" % st
        fac, offs = float(rng.uniform(0, 0.01)), float(rng.uniform(0, 0.3))
        rows = ["idx,time,Depth"]
        prev = 0.0
        for i, t in enumerate(times(rng, day, n, h0=h0)):
            d = round(float(rng.uniform(0.5, 3000)), 3)
            k = rng.random()
            if k < 0.1:
                d = -abs(d)
            elif k < 0.2:
                d = prev if prev > 0 else d
            elif k < 0.35 and prev > 0:
                d = round(prev + float(rng.choice([0.001, -0.002, 0.05, 0.3])), 3)
            rows.append("%d,%s,%.3f" % (i, tm(t), d))
            if d <= 0 or d == prev:
                continue
            prev = d
            exp.append({"cat": "depth", "t": utc.epoch(t), "fmt": "ae2000", "v": {"depth": d}, "std": {"depth_std": d * fac + offs}})
        (raw / "nav" / "ae2000" / fn).write_text("\n".join(rows) + "\n")
        ents["depth"] = entry("ae2000", "nav/ae2000/", fn, clk, fac, offs)
    return ents, exp, {}


def _series(rng, n, day, h0):
    ts = times(rng, day, n, h0=h0)
    return [t / 1000.0 for t in ts]


def alr(rng, raw, clk, cats=("velocity", "orientation", "depth", "altitude"), n=25, day=None, h0=None, usbl=False,
        origin=(0, 0), bad=0.0):
    """CSV log with UTC epochs (no time zone support)."""
    day = day or rday(rng)
    (raw / "nav" / "alr").mkdir(parents=True, exist_ok=True)
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0, 0.3))
    tcol = str(rng.choice(["corrected_timestamp", "timestamp", "epoch_timestamp"]))
    rows = [tcol + ",DVL_down_BT_valid,DVL_down_BT_x,DVL_down_BT_y,DVL_down_BT_z,AUV_roll,AUV_pitch,AUV_heading,AUV_depth,"
            "AUV_altitude,GPS_latitude,GPS_longitude"]
    exp = []
    for t in _series(rng, n, day, h0):
        v = [round(float(x), 3) for x in rng.uniform(-2, 2, 3)]
        rpy = [round(float(x), 5) for x in (rng.uniform(-.2, .2), rng.uniform(-.2, .2), rng.uniform(0, 6.28))]
        d, a = rdepth(rng, 2000), round(float(rng.uniform(1, 40)), 2)
        la, lo = round(origin[0] + float(rng.uniform(-.02, .02)), 7), round(origin[1] + float(rng.uniform(-.02, .02)), 7)
        bt = int(rng.random() < 0.8)
        gps = rng.random() < 0.3
        miss = {k for k in ("v", "rpy", "d", "a") if rng.random() < 0.12}
        f = lambda k, x: "" if k in miss else repr(x)
        rows.append(",".join([repr(t), str(bt)] + [f("v", x) for x in v] + [f("rpy", x) for x in rpy] + [f("d", d), f("a", a)] +
                             ([repr(la), repr(lo)] if gps else ["", ""])))
        if bt and "v" not in miss and "velocity" in cats:
            exp.append({"cat": "velocity", "frame": "body", "t": t, "fmt": "alr", "v": dict(zip(("x_velocity", "y_velocity", "z_velocity"), v)),
                        "std": {k + "_velocity_std": abs(x) * fac + offs for k, x in zip("xyz", v)}})
        if "rpy" not in miss and "orientation" in cats:
            g = [math.degrees(x) for x in rpy]
            exp.append({"cat": "orientation", "t": t, "fmt": "alr", "v": {"roll": g[0], "pitch": g[1], "heading": g[2]},
                        "std": {"roll_std": offs, "pitch_std": offs, "heading_std": offs}})
        if "d" not in miss and "depth" in cats:
            exp.append({"cat": "depth", "t": t, "fmt": "alr", "v": {"depth": d}, "std": {"depth_std": abs(d) * fac}})
        if bt and "a" not in miss and "altitude" in cats:
            exp.append({"cat": "altitude", "t": t, "fmt": "alr", "v": {"altitude": a}, "std": {"altitude_std": a * fac}})
        if gps and usbl:
            if "d" in miss:
                rows.pop()  # a GPS fix without a depth has no uncertainty; not generated
                for _ in range(8):
                    if exp and exp[-1]["t"] == t:
                        exp.pop()
                continue
            exp.append({"cat": "usbl", "t": t, "fmt": "alr", "v": {"latitude": la, "longitude": lo, "depth": d}, "origin": origin,
                        "std": {"northings_std": abs(d) * fac + offs, "eastings_std": abs(d) * fac + offs}})
    (raw / "nav" / "alr" / "log.csv").write_text("\n".join(rows) + "\n")
    ents = {c: entry("alr", "nav/alr/", "log.csv", clk, fac, offs) for c in cats}
    if usbl:
        ents["usbl"] = entry("alr", "nav/alr/", "log.csv", clk, fac, offs)
    return ents, exp, {}


def autosub(rng, raw, clk, cats=("velocity", "orientation", "depth", "altitude"), n=25, day=None, h0=None, bad=0.0):
    import scipy.io as sio

    day = day or rday(rng)
    (raw / "nav" / "autosub").mkdir(parents=True, exist_ok=True)
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0, 0.3))
    exp = []
    T = [np.array(_series(rng, n, day, h0)) for _ in range(4)]
    for x in T:  # a reading repeated at its instant replaces the first
        for i in range(1, n):
            if rng.random() < 0.08:
                x[i] = x[i - 1]
    last = lambda k, i: i + 1 == n or T[k][i + 1] > T[k][i]
    v = rng.uniform(-2000, 2000, (4, n))
    ang = np.array([rng.uniform(-.2, .2, n), rng.uniform(-.2, .2, n), rng.uniform(0, 6.28, n)])
    d, a = np.array([rdepth(rng, 3000) for _ in range(n)]), rng.uniform(1, 50, n)
    sio.savemat(str(raw / "nav" / "autosub" / "M1.mat"), {"missionData": {
        "ADCPbin00": {"eTime": T[0], "Vnorth0": v[0], "Veast0": v[1], "Vdown0": v[2], "Verr0": np.abs(v[3])},
        "INSAttitude": {"eTime": T[1], "Roll": ang[0], "Pitch": ang[1], "Heading": ang[2]},
        "DepCtlNode": {"eTime": T[2], "DepCtldepth": d},
        "ADCPLog_1": {"eTime": T[3], "ADCPAvAlt": a}}})
    for i in range(n):
        if "velocity" in cats and last(0, i):
            exp.append({"cat": "velocity", "frame": "body", "t": T[0][i], "fmt": "autosub",
                        "v": {"x_velocity": -v[0][i] / 1e3, "y_velocity": -v[1][i] / 1e3, "z_velocity": -v[2][i] / 1e3},
                        "std": {k + "_velocity_std": abs(v[3][i]) / 1e3 for k in "xyz"}})
        if "orientation" in cats and last(1, i):
            g = np.degrees(ang[:, i])
            exp.append({"cat": "orientation", "t": T[1][i], "fmt": "autosub", "v": {"roll": g[0], "pitch": g[1], "heading": g[2]},
                        "std": {"roll_std": offs, "pitch_std": offs, "heading_std": offs}})
        if "depth" in cats and last(2, i):
            exp.append({"cat": "depth", "t": T[2][i], "fmt": "autosub", "v": {"depth": d[i]}, "std": {"depth_std": abs(d[i]) * fac}})
        if "altitude" in cats and last(3, i):
            exp.append({"cat": "altitude", "t": T[3][i], "fmt": "autosub", "v": {"altitude": a[i]}, "std": {"altitude_std": a[i] * fac}})
    return {c: entry("autosub", "nav/autosub/", "M1.mat", clk, fac, offs) for c in cats}, exp, {}


def _dm(x, wdeg, dec=4):
    x = abs(x)
    d = int(x)
    m = round((x - d) * 60, dec)
    if m >= 60:
        d, m = d + 1, 0.0
    return "%0*d%0*.*f" % (wdeg, d, dec + 3, dec, m), d + m / 60


def gaps(rng, raw, clk, origin, n=12, bad=0.0, day=None, h0=None, as_depth=False, files=1):
    day = day or rday(rng)
    (raw / "nav" / "gaps").mkdir(parents=True, exist_ok=True)
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0.1, 3))
    label = int(rng.integers(1, 9))
    exp = []
    h = 1.0 if h0 is None else h0
    for fno in range(files):
        lines = []
        t = times(rng, day, 1, h0=h + fno * 0.5)[0]
        for _ in range(n):
            tl = lambda t: clk.local(t).strftime("%H%M%S.") + "%03d" % (t % 1000)
            pkt = lambda body: "$" + body + "*" + cs(body)

            def noise():
                """A damaged copy of the last packet is no packet."""
                if bad and rng.random() < bad:
                    lines.append(corrupt(rng, lines[-1]) if rng.random() < 0.8 else
                                 str(rng.choice(["", "$PTSAG", "$HEHDT", "garbage", "$PTSAG,#1,,,*", "*00"])))

            def ship(t):
                la, lo = origin[0] + float(rng.uniform(-.01, .01)), origin[1] + float(rng.uniform(-.01, .01))
                ls, la = _dm(la, 2)[0], math.copysign(_dm(la, 2)[1], la)
                os_, lo = _dm(lo, 3)[0], math.copysign(_dm(lo, 3)[1], lo)
                d = clk.local(t)
                lines.append(pkt("PTSAG,#00001,%s,%02d,%02d,%04d,0,%s,%s,%s,%s,F,0000,0,0000" % (
                    tl(t), d.day, d.month, d.year, ls, "N" if la >= 0 else "S", os_, "E" if lo >= 0 else "W")))
                noise()
                return la, lo

            def head():
                hd = round(float(rng.uniform(0, 359.9)), 2)
                lines.append(pkt("HEHDT,%.2f,T" % hd))
                noise()
                return hd

            pre = [0, 1]
            rng.shuffle(pre)
            for _k in range(int(rng.integers(1, 3))):
                for k in pre:
                    if k:
                        h1 = head()
                    else:
                        t += int(rng.integers(200, 1500))
                        t1, s1 = t, ship(t)
            if rng.random() < 0.4:
                h1 = head()
            t += int(rng.integers(200, 1500))
            tt = t
            la, lo = origin[0] + float(rng.uniform(-.02, .02)), origin[1] + float(rng.uniform(-.02, .02))
            ls, la = _dm(la, 2)[0], math.copysign(_dm(la, 2)[1], la)
            os_, lo = _dm(lo, 3)[0], math.copysign(_dm(lo, 3)[1], lo)
            dep = round(float(rng.uniform(0.1, 3.5) if rng.random() < 0.15 else rng.uniform(1, 2500)), 1)
            d = clk.local(tt)
            good = not (bad and rng.random() < bad)
            flag, third, who, ts = "F", "1", label, tl(tt)
            if not good:
                k = int(rng.integers(0, 4))
                if k == 0:
                    flag = "0"
                elif k == 1:
                    third = "0"
                elif k == 2:
                    who = label + 1
                else:
                    ts = ts[:4] + str(rng.choice(["60", "6x"])) + ts[6:]
            lines.append(pkt("PTSAG,#00002,%s,%02d,%02d,%04d,%d,%s,%s,%s,%s,%s,%.1f,%s,%.1f" % (
                ts, d.day, d.month, d.year, who, ls, "N" if la >= 0 else "S", os_, "E" if lo >= 0 else "W", flag, dep, third, dep)))
            if good and bad and rng.random() < bad:
                lines[-1], good = corrupt(rng, lines[-1]), False
            post = [0, 1]
            rng.shuffle(post)
            h2 = s2 = None
            for k in post:
                if k:
                    h2 = head()
                    if rng.random() < 0.4:
                        h2 = head() if post[0] == 1 else h2
                else:
                    t += int(rng.integers(200, 1500))
                    t2, s2 = t, ship(t)
            if good:
                f = (tt - t1) / (t2 - t1)
                ss = (s1[0] + f * (s2[0] - s1[0]), s1[1] + f * (s2[1] - s1[1]))
                exp.append({"cat": "depth" if as_depth else "usbl", "t": clk.epoch(tt), "fmt": "gaps", "origin": origin,
                            "v": {"depth": dep} if as_depth else {"latitude": la, "longitude": lo, "depth": dep},
                            "ship": ss, "ship_heads": (h1, h2), "fac": (fac, offs)})
        (raw / "nav" / "gaps" / ("log%d.dat" % fno)).write_text("\n".join(lines) + "\n")
    e = entry("gaps", "nav/gaps/", "", clk, fac, offs, label=label)
    return {"usbl": e, **({"depth": dict(e)} if as_depth else {})}, exp, {"t_last": t}


def usbl_dump(rng, raw, clk, origin, n=15, day=None, h0=None, bad=0.0):
    day = day or rday(rng)
    (raw / "nav" / "usbl").mkdir(parents=True, exist_ok=True)
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0.1, 3))
    lines, exp = [], []
    for t in times(rng, day, n, dt_s=3, h0=h0):
        t = t // 1000 * 1000
        la, lo = origin[0] + float(rng.uniform(-.02, .02)), origin[1] + float(rng.uniform(-.02, .02))
        ad, am = int(abs(la)), round((abs(la) - int(abs(la))) * 60, 4)
        od, om = int(abs(lo)), round((abs(lo) - int(abs(lo))) * 60, 4)
        dep, lat_d, dist = round(float(rng.uniform(0.1, 3.5) if rng.random() < 0.15 else rng.uniform(1, 2000)), 2), round(float(rng.uniform(0, 500)), 2), round(float(rng.uniform(1, 2500)), 2)
        good = rng.random() < 0.8
        d = clk.local(t)
        name = "AUV1" if good else "SHIP"
        empty = good and rng.random() < 0.15
        pos = ("%d-%.4f %s" % (ad, am, "N" if la >= 0 else "S"), "%d-%.4f %s" % (od, om, "E" if lo >= 0 else "W"))
        lines.append("%s,%s,%s,a,b,c,%s,%s,D=%.2f,L=%.2f,B=%.2f,S=%.2f" % (
            d.strftime("%Y-%m-%d"), d.strftime("%H:%M:%S"), name, "" if empty else pos[0], "" if empty else pos[1], dep, lat_d, 10.0, dist))
        if bad and rng.random() < bad:
            w = lines[-1].split(",")
            k = int(rng.integers(0, 4))
            lines[-1] = ["", ",".join(w[:int(rng.integers(1, 11))]), "garbage", ",".join(w[:1] + ["12:xx:10"] + w[2:])][k]
            continue
        if good and not empty:
            s = dist * fac + offs
            exp.append({"cat": "usbl", "t": clk.epoch(t), "fmt": "usbl_dump", "origin": origin,
                        "v": {"latitude": math.copysign(ad + am / 60, la), "longitude": math.copysign(od + om / 60, lo), "depth": dep,
                              "distance_to_ship": dist},
                        "std": {"northings_std": s, "eastings_std": s, "depth_std": s}})
    (raw / "nav" / "usbl" / "dump.txt").write_text("\n".join(lines) + "\n")
    return {"usbl": entry("usbl_dump", "nav/usbl/", "dump.txt", clk, fac, offs, label="AUV1")}, exp, {}


def noc_nmea(rng, raw, clk, origin, n=15, day=None, h0=None, bad=0.0):
    day = day or rday(rng)
    (raw / "nav" / "nmea").mkdir(parents=True, exist_ok=True)
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0.1, 3))
    label = int(rng.integers(1, 9))
    exp, lines = [], []
    for t in times(rng, day, n, dt_s=2, h0=h0):
        la, lo = origin[0] + float(rng.uniform(-.02, .02)), origin[1] + float(rng.uniform(-.02, .02))
        ls, la2 = _dm(la, 2)
        os_, lo2 = _dm(lo, 3)
        dep = round(float(rng.uniform(1, 2000)), 2)
        good = rng.random() < 0.75
        d = clk.local(t)
        body = "GPGGA,%s%03d,%s,%s,%s,%s,1,08,0.9,%.2f,M,0.0,M,0,%04d" % (
            d.strftime("%H%M%S."), t % 1000, ls, "N" if la >= 0 else "S", os_, "E" if lo >= 0 else "W", -dep, label if good else label + 1)
        pk = "$%s*%s" % (body, cs(body))
        if bad and rng.random() < bad:
            w = body.split(",")
            none = ",".join(w[:2] + ["", "", "", ""] + w[6:])
            pk, good = [corrupt(rng, pk), "$%s*%s" % (none, cs(none))][int(rng.random() < 0.3)], False
        lines.append("%s %s\t%s" % (d.strftime("%d/%m/%Y"), d.strftime("%H:%M:%S"), pk))
        if rng.random() < 0.1:
            lines.append("no tab here")
        if good:
            s = dep * fac + offs
            exp.append({"cat": "usbl", "t": clk.epoch(t), "fmt": "NOC_nmea", "origin": origin,
                        "v": {"latitude": math.copysign(la2, la), "longitude": math.copysign(lo2, lo), "depth": dep},
                        "std": {"northings_std": s, "eastings_std": s, "depth_std": s}})
    (raw / "nav" / "nmea" / "a.nmea").write_text("\n".join(lines) + "\n")
    return {"usbl": entry("NOC_nmea", "nav/nmea/", "", clk, fac, offs, label=label)}, exp, {}


def koyo(rng, raw, clk, origin, n=25, day=None, h0=None, bad=0.0):
    """koyo21rov CSV logs; whole seconds."""
    day = day or rday(rng)
    p = raw / "nav" / "koyo"
    p.mkdir(parents=True, exist_ok=True)
    facs = {c: float(rng.uniform(0, 0.05)) for c in ("velocity", "depth", "altitude", "usbl")}
    offs = {c: float(rng.uniform(0.01, 0.3)) for c in ("velocity", "orientation", "usbl")}
    exp = []
    a = ["Date,Time,Roll,Pich,Hedding,Depth(ROV),ALT"]
    b = ["timestamp,Lat_flt,Lon_flt,Depth(ROV),surge,heave"]
    for t in times(rng, day, n, h0=h0, dt_s=2, jitter=False):
        t = t // 1000 * 1000
        d, e = clk.local(t), clk.epoch(t)
        r, pi_, y = round(float(rng.uniform(-9, 9)), 1), round(float(rng.uniform(-9, 9)), 1), round(float(rng.uniform(0, 359.9)), 1)
        de, al = round(rdepth(rng, 3000), 1), round(float(rng.uniform(0.5, 30)), 1)
        miss = {k for k in ("o", "d", "a", "v") if bad and rng.random() < bad}
        f = lambda k, x: "" if k in miss else repr(x)
        a.append(",".join([d.strftime("%Y/%m/%d"), d.strftime("%H:%M:%S"), f("o", r), repr(pi_), repr(y), f("d", de), f("a", al)]))
        if "o" not in miss:
            exp.append({"cat": "orientation", "t": e, "fmt": "koyo21rov", "v": {"roll": r, "pitch": pi_, "heading": y},
                        "std": {k + "_std": offs["orientation"] for k in ("roll", "pitch", "heading")}})
        if "d" not in miss:
            exp.append({"cat": "depth", "t": e, "fmt": "koyo21rov", "v": {"depth": de}, "std": {"depth_std": abs(de) * facs["depth"]}})
        if "a" not in miss:
            exp.append({"cat": "altitude", "t": e, "fmt": "koyo21rov", "v": {"altitude": al}, "std": {"altitude_std": al * facs["altitude"]}})
        la, lo = round(origin[0] + float(rng.uniform(-.02, .02)), 8), round(origin[1] + float(rng.uniform(-.02, .02)), 8)
        su, he = round(float(rng.uniform(-1, 1)), 4), round(float(rng.uniform(-1, 1)), 4)
        b.append(",".join([d.strftime("%Y-%m-%d %H:%M:%S"), repr(la), repr(lo), repr(de), f("v", su), repr(he)]))
        if "v" not in miss:
            exp.append({"cat": "velocity", "frame": "body", "t": e, "fmt": "koyo21rov",
                        "v": {"x_velocity": su, "y_velocity": 0.0, "z_velocity": he},
                        "std": {k + "_velocity_std": abs(x) * facs["velocity"] + offs["velocity"] for k, x in zip("xyz", (su, 0, he))}})
        s = abs(de) * facs["usbl"] + offs["usbl"]
        exp.append({"cat": "usbl", "t": e, "fmt": "koyo21rov", "origin": origin, "v": {"latitude": la, "longitude": lo, "depth": de},
                    "std": {"northings_std": s, "eastings_std": s, "depth_std": s}})
    (p / "raw.csv").write_text("\n".join(a) + "\n")
    (p / "pos.csv").write_text("\n".join(b) + "\n")
    ents = {"orientation": entry("koyo21rov", "nav/koyo/", "raw.csv", clk, 0.0, offs["orientation"]),
            "depth": entry("koyo21rov", "nav/koyo/", "raw.csv", clk, facs["depth"], 0.0),
            "altitude": entry("koyo21rov", "nav/koyo/", "raw.csv", clk, facs["altitude"], 0.0),
            "velocity": entry("koyo21rov", "nav/koyo/", "pos.csv", clk, facs["velocity"], offs["velocity"]),
            "usbl": entry("koyo21rov", "nav/koyo/", "pos.csv", clk, facs["usbl"], offs["usbl"], label=1)}
    return ents, exp, {}


def ntnu_dvl(rng, raw, clk, n=25, day=None, h0=None, bad=0.0, dvl_yaw=0.0):
    day = day or rday(rng)
    p = raw / "nav" / "ntnu_dvl"
    p.mkdir(parents=True, exist_ok=True)
    fv, ov, fa = float(rng.uniform(0, 0.05)), float(rng.uniform(0, 0.3)), float(rng.uniform(0, 0.05))
    exp, R = [], rot(0, 0, dvl_yaw)
    for fno in range(2):
        lines = ["head", "head2"]
        first = None
        for t in times(rng, day, n, h0=(1.0 if h0 is None else h0) + fno):
            first = first or clk.local(t)
            v = [round(float(x), 3) for x in rng.uniform(-2, 2, 3)]
            lock = rng.random() > (bad or 0.1)
            if not lock:
                v[int(rng.integers(0, 3))] = float(rng.choice([-32.768, 33.0]))
            alt = [round(float(x), 2) for x in rng.uniform(1, 20, 4)]
            d = clk.local(t)
            row = ["0"] * 67
            row[0] = d.strftime("%H:%M:%S.") + "%03d" % (t % 1000)
            row[7:10] = [repr(x) for x in v]
            row[56:60] = [repr(x) for x in alt]
            lines.append("\t".join(row))
            w = R @ np.array(v)
            if not np.any(np.abs(w) > 32) if not lock else True:
                exp.append({"cat": "velocity", "frame": "body", "t": clk.epoch(t), "fmt": "ntnu_dvl",
                            "v": dict(zip(("x_velocity", "y_velocity", "z_velocity"), w)),
                            "std": {k + "_velocity_std": abs(x) * fv + ov for k, x in zip("xyz", w)}})
            a = (alt[1] + alt[3]) / 2
            exp.append({"cat": "altitude", "t": clk.epoch(t), "fmt": "ntnu_dvl", "v": {"altitude": a}, "std": {"altitude_std": a * fa}})
        (p / (first.strftime("%Y%m%d") + "_%d.log" % fno)).write_text("\n".join(lines) + "\n")
    return {"velocity": entry("ntnu_dvl", "nav/ntnu_dvl/", "", clk, fv, ov),
            "altitude": entry("ntnu_dvl", "nav/ntnu_dvl/", "", clk, fa, 0.0)}, exp, {}


def eiva(rng, raw, clk, origin, n=25, day=None, h0=None, bad=0.0):
    day = day or rday(rng)
    p = raw / "nav" / "eiva"
    p.mkdir(parents=True, exist_ok=True)
    fd, oo, fu, ou = float(rng.uniform(0, 0.05)), float(rng.uniform(0.01, 0.3)), float(rng.uniform(0, 0.05)), float(rng.uniform(0.1, 2))
    uid = int(rng.integers(1, 10))
    exp, lines = [], []
    for t in times(rng, day, n, h0=h0):
        d, e = clk.local(t), clk.epoch(t)
        st = d.strftime("%Y:%m:%d:%H:%M:%S.") + "%03d" % (t % 1000)
        r, pi_, y = round(float(rng.uniform(-9, 9)), 2), round(float(rng.uniform(-9, 9)), 2), round(float(rng.uniform(0, 359.9)), 2)
        good = not (bad and rng.random() < bad)
        body = "PRDID,%+07.2f,%+07.2f,%06.2f" % (pi_, r, y)
        if not good:
            body = "PRDID,%+07.2f,,%06.2f" % (pi_, y)
        lines.append("R132  4 %s $%s" % (st, body))
        if good:
            exp.append({"cat": "orientation", "t": e, "fmt": "eiva_navipac", "v": {"roll": r, "pitch": pi_, "heading": y},
                        "std": {k + "_std": oo for k in ("roll", "pitch", "heading")}})
        de = rdepth(rng, 2000)
        who = uid if rng.random() < 0.8 else (uid % 9) + 1
        lines.append("D     %d  19  1 %s %.2f" % (who, st, de))
        if who == uid:
            exp.append({"cat": "depth", "t": e, "fmt": "eiva_navipac", "v": {"depth": de}, "std": {"depth_std": abs(de) * fd}})
        la, lo = round(origin[0] + float(rng.uniform(-.02, .02)), 8), round(origin[1] + float(rng.uniform(-.02, .02)), 8)
        who = uid if rng.random() < 0.8 else uid + 1
        lines.append("P  D  %4d %s 5000.0 6000.0 %.2f %.8f %.8f" % (who, st, -de, la, lo))
        if who == uid:
            s = abs(de) * fu + ou
            exp.append({"cat": "usbl", "t": e, "fmt": "eiva_navipac", "origin": origin, "v": {"latitude": la, "longitude": lo, "depth": de},
                        "std": {"northings_std": s, "eastings_std": s, "depth_std": s}})
        if rng.random() < 0.1:
            lines.append(str(rng.choice(["", "P  X", "R133  4 garbage", "D     x"])))
    (p / "log_G.NPD").write_text("\n".join(lines) + "\n")
    return {"orientation": entry("eiva_navipac", "nav/eiva/", "", clk, 0.0, oo), "depth": entry("eiva_navipac", "nav/eiva/", "", clk, fd, 0.0),
            "usbl": entry("eiva_navipac", "nav/eiva/", "", clk, fu, ou, label=uid)}, exp, {}


def sonardyne(rng, raw, clk, origin, n=25, day=None, h0=None, bad=0.0, variant=None):
    """The Sonardyne position logs: GGA text of four layouts, and the MRT observation log."""
    day = day or rday(rng)
    p = raw / "nav" / "sonardyne"
    p.mkdir(parents=True, exist_ok=True)
    variant = variant or str(rng.choice(["gga", "gga2", "gga3", "gga4", "mrt"]))
    fac, offs = float(rng.uniform(0, 0.05)), float(rng.uniform(0.1, 3))
    label = int(rng.integers(1, 90))
    exp, parts = [], [[], []]
    ts = times(rng, day, n, dt_s=2, h0=h0)
    if variant == "mrt":
        return _mrt(rng, p, clk, origin, ts, fac, offs)
    for k, t in enumerate(ts):
        la, lo = origin[0] + float(rng.uniform(-.02, .02)), origin[1] + float(rng.uniform(-.02, .02))
        ls, la2 = _dm(la, 2)
        os_, lo2 = _dm(lo, 3)
        good = rng.random() < 0.75
        d = clk.local(t)
        hms = d.strftime("%H:%M:%S.") + "%03d" % (t % 1000)
        lab = label if good else label + int(rng.integers(1, 5))
        gga = "$GPGGA,%s,%s,%s,%s,%s,1,08,0.9,12.0,M,0.0,M,0,%04d" % (hms.replace(":", ""), ls, "N" if la >= 0 else "S", os_,
                                                                      "E" if lo >= 0 else "W", lab)
        w = gga.split(",")
        if variant in ("gga", "gga4"):  # the day is in the name of the file
            f = ["x", hms, "RX", "a", "b", w[2], w[3], w[4], w[5]]
            f += ["%d" % lab] if variant == "gga" else ["q"] * 8 + ["%d" % lab]
        else:
            f = [d.strftime("%Y/%m/%d"), hms, "a", "b", "c", "d", "e", "f", w[2], w[3], w[4], w[5]]
            f += ["q"] * ((19 if variant == "gga2" else 20) - len(f)) + ["%d" % lab]
        line = ",".join(f) + "*5C"
        broken = bad and rng.random() < bad
        if broken:
            line = [",".join(f[:6]), "", "garbage,%d" % lab, ",".join(f).replace(w[2], "12x4.5")][int(rng.integers(0, 4))]
        parts[k * 2 // n].append(line)
        if good and not broken:
            exp.append({"cat": "usbl", "t": clk.epoch(t), "fmt": "sonardyne_" + variant, "origin": origin,
                        "v": {"latitude": math.copysign(la2, la), "longitude": math.copysign(lo2, lo)}})
    dn, dn2 = (clk.local(next(t for k, t in enumerate(ts) if k * 2 // n == q)).strftime("%Y%m%d") for q in (0, 1))
    names = {"gga": [dn + "_GGAlsq_0.txt", dn2 + "_GGAlsq_1.txt"], "gga2": ["CommsLog_GNSS_0.txt", "CommsLog_GNSS_1.txt"],
             "gga3": ["GGAPosition.txt"], "gga4": [dn + "_GGA_0.txt", dn2 + "_GGA_1.txt"]}[variant]
    if len(names) == 1:
        parts = [parts[0] + parts[1]]
    for nm, ls in zip(names, parts):
        (p / nm).write_text("\n".join(ls) + "\n")
    return {"usbl": entry("sonardyne_" + variant, "nav/", "sonardyne", clk, fac, offs, field_id=label)}, exp, {}


def _mrt(rng, p, clk, origin, ts, fac, offs):
    files, exp = [["Time,a,b,c,d"] + ["header"] * 35, ["Time,a,b,c,d"] + ["header"] * 35], []
    ships, heads, auvs, lines = [], [], [], []

    def obs(kind, t, src, vals):
        d = clk.local(t)
        lines.append((t, ",".join([kind, "u1", "s1", src, "p", "pn", "a", d.strftime("%Y-%m-%d %H:%M:%S.") + "%03d" % (t % 1000), "f", "1"] +
                                  [str(v) for v in vals])))
    for t in ts:
        la, lo = round(origin[0] + float(rng.uniform(-.02, .02)), 8), round(origin[1] + float(rng.uniform(-.02, .02)), 8)
        dep = rdepth(rng, 2000)
        obs("LatLongObs", t, "AUV 1", [la, lo, -dep, True, True, True])
        auvs.append((t, la, lo, dep))
        u = t + int(rng.integers(-900, 900))
        sla, slo = round(origin[0] + float(rng.uniform(-.01, .01)), 8), round(origin[1] + float(rng.uniform(-.01, .01)), 8)
        obs("LatLongObs", u, "GNSS 1", [sla, slo, 5.0, True, True, True])
        ships.append((u, sla, slo))
        u = t + int(rng.integers(-900, 900))
        h = round(float(rng.uniform(0, 359.9)), 2)
        obs("PitchRollHeadingObs", u, "MRT-USBL", [0.1, 0.2, h, True, True, True])
        heads.append((u, h))
        if rng.random() < 0.4:
            obs("LatLongObs", t, "BEACON 2", [la + 1, lo, -3.0, True, True, True])
        if rng.random() < 0.3:
            obs("DepthObs", t, "AUV 1", [dep, True])
    lines.sort(key=lambda x: x[0])
    cut = int(rng.integers(1, len(lines)))
    for k, (_, l) in enumerate(lines):
        files[0 if k < cut else 1].append(l)
    (p / "mrt").write_text("")
    for k in (0, 1):
        (p / ("mrt_%d" % k)).write_text("\n".join(files[k]) + "\n")
    def near(obs, t):
        d = min(abs(o[0] - t) for o in obs)
        return [o for o in obs if abs(o[0] - t) <= d + 1]
    for t, la, lo, dep in auvs:
        exp.append({"cat": "usbl", "t": clk.epoch(t), "fmt": "sonardyne_mrt", "origin": origin,
                    "v": {"latitude": la, "longitude": lo, "depth": dep}, "ship_any": [s[1:] for s in near(ships, t)],
                    "head_any": [h[1] for h in near(heads, t)], "fac": (fac, offs)})
    return {"usbl": entry("sonardyne_mrt", "nav/sonardyne/", "mrt", clk, fac, offs)}, exp, {}


def tide(rng, raw, clk, t_ms0, t_ms1, step_min=10, fmt="NOC_polpred"):
    """Heights every step_min minutes of the tide file's own wall clock between the two instants (ms, UTC)."""
    (raw / "tide").mkdir(parents=True, exist_ok=True)
    step = step_min * 60_000
    shift = int((clk.tz * 3600.0 - clk.off) * 1000)
    a, b = (t_ms0 + shift) // step * step, -(-(t_ms1 + shift) // step) * step
    if fmt == "NOC_polpred":
        a, b = a // 60000 * 60000, b // 60000 * 60000
    hs, lines = [], ["header"] * 6
    t = a
    while t <= b:
        h = round(float(rng.uniform(-4, 4)), 2)
        d = clk.local(t)
        if fmt == "NOC_polpred":
            lines.append("%2d/%2d/%4d  %02d:%02d     %6.2f      0.14       51" % (d.day, d.month, d.year, d.hour, d.minute, h))
        else:
            lines.append("%s,%.2f,0.17,74" % (d.strftime("%Y-%m-%dT%H:%M:%SZ"), h))
        hs.append((clk.epoch(t), h))
        t += step
    cuts = sorted(int(x) for x in rng.integers(6, len(lines) + 1, int(rng.integers(0, 3))))
    for k, (a, b) in enumerate(zip([6] + cuts, cuts + [len(lines)])):  # one to three files, in any order of names
        (raw / "tide" / ("%s%d.txt" % (str(rng.choice(list("abc"))), k))).write_text(
            "\n".join(lines[:6] + lines[a:b]) + "\n" * int(rng.integers(1, 3)))
    return {"tide": entry(fmt, "tide/", "", clk, 0.0, 0.1)}, hs


# --------------------------------------------------------------------------- images
def img_acfr(rng, raw, clk, n=10, day=None, h0=None):
    day = day or rday(rng)
    p = raw / "image" / "acfr"
    p.mkdir(parents=True, exist_ok=True)
    exp = []
    for t in times(rng, day, n, dt_s=3, h0=h0):
        dtm = int(rng.integers(-30, 31)) if rng.random() < 0.8 else 400
        d1, d2 = clk.local(t), clk.local(t + dtm)
        f1 = "PR_%s_%03d_LC16.tif" % (d1.strftime("%Y%m%d_%H%M%S"), t % 1000)
        f2 = "PR_%s_%03d_RM16.tif" % (d2.strftime("%Y%m%d_%H%M%S"), (t + dtm) % 1000)
        (p / f1).write_bytes(b"")
        (p / f2).write_bytes(b"")
        if abs(dtm) <= 50:
            exp.append({"cat": "image", "t": clk.epoch(t), "fmt": "acfr", "files": {"camera1": (f1, clk.epoch(t)), "camera2": (f2, clk.epoch(t + dtm))}})
    ent = {"image": {"format": "acfr_standard", "timezone": clk.tz, "timeoffset": clk.off,
                     "cameras": [{"name": "LC", "path": "image/acfr"}, {"name": "RM", "path": "image/acfr"}]}}
    return ent, exp, {"cams": {"LC": (0, 0, 0), "RM": (0, 0, 0)}}


def img_seaxerocks(rng, raw, clk, n=10, day=None, h0=None):
    day = day or rday(rng)
    base = raw / "image" / "sx3"
    (base / "Xviii" / "Cam1").mkdir(parents=True, exist_ok=True)
    (base / "Xviii" / "Cam2").mkdir(parents=True, exist_ok=True)
    lm = base / "LM165"
    lm.mkdir(parents=True, exist_ok=True)
    offs = [round(float(x), 3) for x in rng.uniform(-.5, .5, 3)] if rng.random() < 0.6 else [0.0, 0.0, 0.0]
    rows, exp = ["index,date,time,ms"], []
    for i, t in enumerate(times(rng, day, n, dt_s=2, h0=h0)):
        d = clk.local(t)
        rows.append("%07d,%s,%s,%03d" % (i + 1, d.strftime("%Y%m%d"), d.strftime("%H%M%S"), t % 1000))
        f = "%07d.raw" % (i + 1)
        exp.append({"cat": "image", "t": clk.epoch(t) + offs[0], "fmt": "seaxerocks_3",
                    "files": {"camera1": ("Cam1/" + f, clk.epoch(t) + offs[0]), "camera2": ("Cam2/" + f, clk.epoch(t) + offs[1])}})
    (base / "Xviii" / "FileTime.csv").write_text("\n".join(rows) + "\n")
    rows = ["index,date,time,ms"]
    ext, s = str(rng.choice(["jpg", "tif"])), int(rng.integers(0, 2))
    start = int(rng.integers(1, 1200))
    for i, t in enumerate(times(rng, day, n * 2, dt_s=1, h0=h0)):
        d = clk.local(t)
        idx = "%07d" % (start + i)
        rows.append("%s,%s,%s,%03d" % (idx, d.strftime("%Y%m%d"), d.strftime("%H%M%S"), t % 1000))
        rel = "%s/image%s.%s" % (idx[s:s + 3], idx, ext)
        (lm / idx[s:s + 3]).mkdir(exist_ok=True)
        (lm / rel).write_bytes(b"")
        exp.append({"cat": "laser", "t": clk.epoch(t) + offs[2], "fmt": "seaxerocks_3", "files": {"laser": ("LM165/" + rel, None)}})
    (lm / "FileTime.csv").write_text("\n".join(rows) + "\n")
    cams = []
    for k, (nm, pth) in enumerate((("Cam1", "image/sx3/Xviii/Cam1"), ("Cam2", "image/sx3/Xviii/Cam2"), ("LM165", "image/sx3/LM165"))):
        c = {"name": nm, "path": pth, "records_laser": k == 2}
        if any(offs):
            c["timeoffset_s"] = offs[k]
        cams.append(c)
    ent = {"image": {"format": "seaxerocks_3", "timezone": clk.tz, "timeoffset": clk.off, "cameras": cams}}
    return ent, exp, {"cams": {"Cam1": (0, 0, 0), "Cam2": (0, 0, 0), "LM165": (0, 0, 0)}}


def img_biocam(rng, raw, clk, n=10, day=None, h0=None, fmt="biocam4000_15c"):
    day = day or rday(rng)
    base = raw / "image" / "bc"
    for s in ("c1_strobe", "c2_strobe", "c1_laser", "c2_laser"):
        (base / s / ("sub" if s.endswith("laser") else "")).mkdir(parents=True, exist_ok=True)
    exp = []
    us = lambda t, u: clk.local(t).strftime("%Y%m%d_%H%M%S_") + "%03d%03d" % (t % 1000, u)
    drift, c0 = float(rng.uniform(-1e-4, 1e-4)), int(rng.integers(-5000, 5000))
    first = None
    for t in times(rng, day, n, dt_s=3, h0=h0):
        first = t if first is None else first
        cam = int(t + c0 + drift * (t - first))
        dtm = int(rng.integers(-20, 21))
        u1, u2 = int(rng.integers(0, 1000)), int(rng.integers(0, 1000))
        f1 = "%s_%s_xxx.tif" % (us(t, u1), us(cam, 0))
        f2 = "%s_%s_xxx.tif" % (us(t + dtm, u2), us(cam, 0))
        (base / "c1_strobe" / f1).write_bytes(b"")
        (base / "c2_strobe" / f2).write_bytes(b"")
        e1, e2 = clk.epoch(t) + u1 * 1e-6, clk.epoch(t + dtm) + u2 * 1e-6
        exp.append({"cat": "image", "t": e1, "fmt": "biocam", "files": {"camera1": ("c1_strobe/" + f1, e1), "camera2": ("c2_strobe/" + f2, e2)},
                    "cam": (clk.epoch(cam), clk.epoch(cam))})
        f3 = "%s_%s_xxx.jpg" % (us(t + 700, u1), us(cam + 700, 0))
        (base / "c2_laser" / "sub" / f3).write_bytes(b"")
        e3 = clk.epoch(t + 700) + u1 * 1e-6
        exp.append({"cat": "laser", "t": e3, "fmt": "biocam", "files": {"camera3": ("c2_laser/sub/" + f3, e3)}, "cam": (clk.epoch(cam + 700),)})
    ent = {"image": {"format": fmt, "timezone": clk.tz, "timeoffset": clk.off,
                     "cameras": [{"name": "c1", "path": "image/bc"}, {"name": "c2", "path": "image/bc"}]}}
    return ent, exp, {"cams": {"c1": (0, 0, 0), "c2": (0, 0, 0)}}


def img_ntnu(rng, raw, clk, n=10, day=None, h0=None):
    day = day or rday(rng)
    p = raw / "image" / "ntnu" / "s1"
    p.mkdir(parents=True, exist_ok=True)
    exp = []
    for t in times(rng, day, n, dt_s=2, h0=h0):
        u = int(rng.integers(0, 10))
        st = clk.local(t).strftime("%y%m%d-%H%M%S.") + "%03d%d" % (t % 1000, u)
        for s in "LR":
            (p / (st + s + ".jpg")).write_bytes(b"")
        e = clk.epoch(t) + u * 1e-4
        exp.append({"cat": "image", "t": e, "fmt": "ntnu_stereo", "files": {"camera1": (st + "L.jpg", e), "camera2": (st + "R.jpg", e)}})
    ent = {"image": {"format": "ntnu_stereo", "timezone": clk.tz, "timeoffset": clk.off,
                     "cameras": [{"name": "left", "path": "image/ntnu"}, {"name": "right", "path": "image/ntnu"}]}}
    return ent, exp, {"cams": {"left": (0, 0, 0), "right": (0, 0, 0)}}


def img_voyis(rng, raw, clk, n=10, day=None, h0=None):
    day = day or rday(rng)
    exp = []
    for kind, pre in (("stills", "raw_stills_raw_"), ("laser", "laser_laser_raw_")):
        p = raw / "image" / kind / "sub"
        p.mkdir(parents=True, exist_ok=True)
        for i, t in enumerate(times(rng, day, n, dt_s=2, h0=h0)):
            src = "PPS" if rng.random() < 0.6 else "SYSTEM"
            u = int(rng.integers(0, 1000))
            f = "%s%s_%s%03d%03d_%d.tif" % (pre, src, clk.local(t).strftime("%Y-%m-%dT%H%M%S."), t % 1000, u, i % 10)
            (p / f).write_bytes(b"")
            e = clk.epoch(t) + u * 1e-6
            exp.append({"cat": "image", "t": e, "fmt": "voyis", "files": {"camera1": ("image/%s/sub/%s" % (kind, f), e)}})
    fm = "YYYYxMMxDDxhhmmssxfffuuuxx.xxx"
    cam = {"camera_system": "voyis", "cameras": [
        {"name": k, "type": "grayscale", "bit_depth": 16, "path": "image/" + k, "extension": "tif",
         "filename_to_date_pps": "x" * (len(pre) + 4) + fm, "filename_to_date_system": "x" * (len(pre) + 7) + fm}
        for k, pre in (("stills", "raw_stills_raw_"), ("laser", "laser_laser_raw_"))]}
    ent = {"image": {"format": "voyis", "timezone": clk.tz, "timeoffset": clk.off,
                     "cameras": [{"name": "stills", "path": "image/stills", "type": "grayscale"}, {"name": "laser", "path": "image/laser", "type": "grayscale"}]}}
    return ent, exp, {"cams": {"stills": (0, 0, 0), "laser": (0, 0, 0)}, "camera_yaml": cam}


# --------------------------------------------------------------------------- comparison
def flat(rec):
    """All scalar fields of a nav_standard record in one dict."""
    out = {}
    for k in ("data", "data_target"):
        for d in rec.get(k, []):
            out.update(d)
    return out


def rec_files(rec):
    out = {}
    for c in ("camera1", "camera2", "camera3"):
        if c in rec:
            out[c] = (rec[c][0]["filename"], rec[c][0]["epoch_timestamp"])
    if rec["category"] == "laser" and "filename" in rec:
        out["laser"] = (rec["filename"], None)
    return out


def key(r):
    """Sort key shared by expected and observed records."""
    return (r.get("cat") or r["category"], r.get("frame") or "", round(r.get("t", r.get("epoch_timestamp")), 6))
