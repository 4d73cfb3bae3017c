"""C21: interpolating tracks keeps the observations.

All tracks up to a number of points over intervals, moves and pressures (including missing
ones) are written to netCDF track files and to text files, many to a file, and go through
the real parseTracks with every method and time step.  Times, positions, pressures and
the saved file are compared with a direct evaluation."""
import datetime
import itertools
import logging
import math
import os
import sys
import warnings

import numpy as np

from .. import common, ext, mpi, world

PRES = (980., 895.5, None)
MOVES = ((0.5, -0.25), (-0.375, -0.5), (0., 0.))
START = datetime.datetime(2003, 12, 30, 21, 0)


def tracks(quick):
    """All tracks: (gaps in hours, moves, pressures)."""
    out = []
    for n in range(1, 6 if quick else 7):
        gaps = (1, 3, 6) if n < (4 if quick else 5) else (3, 6) if n < (5 if quick else 6) else (6,)
        for g in itertools.product(gaps, repeat=n - 1):
            for p in itertools.product(PRES, repeat=n):
                out.append((g, tuple(MOVES[(i + n) % 2] for i in range(n - 1)), p))
    for n in range(2, 6 if quick else 7):
        for m in itertools.product(MOVES, repeat=n - 1):
            for g in ((6,) * (n - 1), tuple((2, 3, 7)[i % 3] for i in range(n - 1))):
                out.append((g, m, (980., 955.5, 970., 990., 965., 975.)[:n]))
    # whole minutes
    for n in (2, 3, 4):
        for g in itertools.product((0.5, 1.25, 3 + 7 / 60.), repeat=n - 1):
            out.append((g, MOVES[:2] * 3, (970., 960., 950., 955.)[:n]))
    return [(g, m[:len(g)], p) for g, m, p in out]


def observed(t, k):
    """The observations of the k-th track of a file."""
    g, m, p = t
    h = np.concatenate([[0.], np.cumsum(g)]) if g else np.array([0.])
    x, y = [120. + (k % 7)], [-14. - 0.5 * (k % 5)]
    for dx, dy in m:
        x.append(x[-1] + dx)
        y.append(y[-1] + dy)
    start = START + datetime.timedelta(hours=k % 6)
    return dict(h=h, lon=np.array(x), lat=np.array(y), p=list(p), start=start,
                pe=np.array([1008. + ((k + i) % 3) for i in range(len(x))]),
                rm=np.array([30. + 2 * ((k + i) % 4) for i in range(len(x))]))


def write_nc(path, obs, missing):
    ts = []
    for k, o in enumerate(obs):
        t = world.track(k + 1, (k + 1, 1), list(zip(o["lon"], o["lat"])), start=o["start"])
        t["time"] = [o["start"] + datetime.timedelta(seconds=round(3600 * h)) for h in o["h"]]
        t["elapsed"] = list(o["h"])
        t["pc"] = [missing if p is None else p for p in o["p"]]
        t["pe"], t["rmax"] = list(o["pe"]), list(o["rm"])
        ts.append(t)
    world.tracks_nc(path, ts)


def write_csv(path, obs):
    with open(path, "w") as f:
        f.write("num,date,lat,lon,pressure,penv,poci,rmax\n")
        for k, o in enumerate(obs):
            for i in range(len(o["h"])):
                d = o["start"] + datetime.timedelta(seconds=round(3600 * o["h"][i]))
                f.write("%d,%s,%.4f,%.4f,%s,%.1f,%.1f,%.1f\n" % (
                    k + 1, d.strftime("%Y-%m-%d %H:%M:%S"), o["lat"][i], o["lon"][i],
                    ("", "0", "-9999")[k % 3] if o["p"][i] is None else "%.2f" % o["p"][i], o["pe"][i], o["pe"][i], o["rm"][i]))


def config(d):
    return world.write_config(os.path.join(d, "c.ini"), {
        "DataProcess": {"InputFile": "t.csv", "Source": "SRC", "StartSeason": "1900", "FilterSeasons": "False"},
        "SRC": {"Columns": "num,date,lat,lon,pressure,penv,poci,rmax", "FieldDelimiter": ",",
                "NumberOfHeadingLines": "1", "PressureUnits": "hPa", "LengthUnits": "km",
                "SpeedUnits": "mps", "DateFormat": "%Y-%m-%d %H:%M:%S"}})


def arc(x0, y0, x1, y1):
    x0, y0, x1, y1 = [math.radians(v) for v in (x0, y0, x1, y1)]
    a = math.sin((y1 - y0) / 2) ** 2 + math.cos(y0) * math.cos(y1) * math.sin((x1 - x0) / 2) ** 2
    return 2 * 6371. * math.asin(math.sqrt(a))


def missing(v):
    return not np.isfinite(v) or v > 1e6 or v < 700


def dates(t):
    return [datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second) +
            datetime.timedelta(microseconds=getattr(d, "microsecond", 0)) for d in t.Datetime]


def judge(o, t, delta, method, kind):
    """Text of the first difference, or None."""
    n = len(o["h"])
    T = o["h"][-1]
    te = np.array(t.TimeElapsed, float)
    if n == 1:
        if len(te) != 1:
            return "a track of one record came back with %d" % len(te)
        if abs(t.Longitude[0] - o["lon"][0]) > 1e-4 or abs(t.Latitude[0] - o["lat"][0]) > 1e-4 or \
                (o["p"][0] is not None and abs(t.CentralPressure[0] - o["p"][0]) > 1e-3):
            return "a track of one record was altered"
        return None
    # times
    whole = abs(T / delta - round(T / delta)) < 1e-6
    if abs(te[0]) > 1e-5 or abs(te[-1] - T) > 1e-4:
        return "times run from %g to %g h; the observations from 0 to %g h" % (te[0], te[-1], T)
    steps = np.diff(te)
    tol = 2e-5 + 4e-7 * T
    if T > delta:
        if len(steps) > 1 and np.abs(steps[:-1] - delta).max() > tol:
            return "time steps of %g to %g h instead of %g h" % (steps[:-1].min(), steps[:-1].max(), delta)
        if whole and abs(steps[-1] - delta) > tol or not 0 < steps[-1] < 2 * delta - 1e-6:
            return "a last time step of %g h instead of %g h" % (steps[-1], delta)
    elif len(te) != 2:
        return "%d records for a track shorter than a time step" % len(te)
    for i, d in enumerate(dates(t)):
        want = o["start"] + datetime.timedelta(seconds=round(3600 * te[i]))
        if abs((d - want).total_seconds()) > 1.5:
            return "the record %g h after %s is dated %s" % (te[i], o["start"], d)
        # hours and minutes of the record
        if t.has_key("Minute"):
            f = datetime.datetime(*[int(getattr(t, c)[i]) for c in ("Year", "Month", "Day", "Hour", "Minute")])
            if not -1.5 <= (want - f).total_seconds() < 61.5 or (want.second == 0 and f != want):
                return "the record %g h after %s has year to minute of %s" % (te[i], o["start"], f)
    # positions
    lon, lat = np.array(t.Longitude, float), np.array(t.Latitude, float)
    straight = n <= 3 or method == "linear"
    wx, wy = np.interp(te, o["h"], o["lon"]), np.interp(te, o["h"], o["lat"])
    err = np.maximum(np.abs(lon - wx), np.abs(lat - wy))
    at = np.array([np.abs(o["h"] - v).min() < 1e-4 for v in te])
    where = np.ones(len(te), bool) if straight else at
    if err[where].max() > 2e-4:
        i = np.flatnonzero(where)[err[where].argmax()]
        return "after %g h the storm is at (%.4f, %.4f) instead of (%.4f, %.4f)" % (te[i], lon[i], lat[i], wx[i], wy[i])
    if not np.isfinite(lon).all() or not np.isfinite(lat).all():
        return "positions that are not numbers"
    # pressures
    pc = np.array(t.CentralPressure, float)
    ok = [i for i in range(n) if o["p"][i] is not None]
    hv, pv = o["h"][ok], np.array([o["p"][i] for i in ok])
    for i, v in enumerate(te):
        if len(ok) == 1:
            want = pv[0]
        elif not ok or v < hv[0] - 1e-4 or v > hv[-1] + 1e-4:
            want = None
        else:
            want = np.interp(v, hv, pv)
        if want is None and not missing(pc[i]):
            return "after %g h a pressure of %.2f without observations on both sides" % (v, pc[i])
        if want is not None and (missing(pc[i]) or abs(pc[i] - want) > 2e-2):
            return "after %g h a pressure of %.2f instead of %.2f" % (v, pc[i], want)
    for c, w in (("EnvPressure", o["pe"]), ("rMax", o["rm"])):
        e = np.abs(np.array(getattr(t, c), float) - np.interp(te, o["h"], w))
        if not e.max() < 2e-2:
            return "%s is off by %g after %g h" % (c, e.max(), te[e.argmax()])
    # motion
    sp, be = np.array(t.Speed, float), np.array(t.Bearing, float)
    for i in range(len(steps)):
        a = arc(lon[i], lat[i], lon[i + 1], lat[i + 1])
        if abs(sp[i] * steps[i] - a) > 0.02 + 0.01 * a:
            return "after %g h a speed of %.3f km/h; the storm moves %.3f km in %g h" % (te[i], sp[i], a, steps[i])
        if a > 2:
            b = math.degrees(math.atan2((lon[i + 1] - lon[i]) * math.cos(math.radians((lat[i] + lat[i + 1]) / 2)),
                                        lat[i + 1] - lat[i])) % 360
            if abs((be[i] - b + 180) % 360 - 180) > 1.5:
                return "after %g h a bearing of %.2f instead of %.2f" % (te[i], be[i], b)
    return None


def run_file(c, d):
    """One file of tracks, one step and method: (text, index, number of records)."""
    from Evaluate import interpolateTracks
    from Utilities import config as cfg
    from Utilities.track import ncReadTrackData
    obs = [observed((tuple(g), tuple(map(tuple, m)), tuple(p)), k) for k, (g, m, p) in enumerate(c["tracks"])]
    ini = config(d)
    path = os.path.join(d, "t." + ("csv" if c["kind"] == "csv" else "nc"))
    if c["kind"] == "csv":
        write_csv(path, obs)
    else:
        write_nc(path, obs, 0. if c["kind"] == "nc0" else float(sys.maxsize))
    out = os.path.join(d, "out.nc")
    if os.path.exists(out):
        os.remove(out)
    cfg.reset()
    mpi.install()
    mpi.solo()
    try:
        res = interpolateTracks.parseTracks(ini, path, "SRC", c["delta"], out if c.get("save") else None, c["method"])
        back = ncReadTrackData(out) if c.get("save") else None
    except Exception as e:
        return "interpolation failed: %s: %s" % (type(e).__name__, str(e)[:200]), None, 0
    if len(res) != len(obs):
        return "%d tracks in, %d out" % (len(obs), len(res)), None, 0
    total = 0
    for k, (o, t) in enumerate(zip(obs, res)):
        total += len(t.Longitude)
        try:
            if set(int(v) for v in t.CycloneNumber) != {k + 1}:
                return "track number %d has cyclone numbers %s" % (k + 1, sorted(set(t.CycloneNumber.tolist()))), k, total
            text = judge(o, t, c["delta"], c["method"], c["kind"])
        except Exception as e:
            text = "%s: %s" % (type(e).__name__, str(e)[:200])
        if text:
            return text, k, total
    if back is not None:
        if len(back) != len(res):
            return "%d tracks in the saved file instead of %d" % (len(back), len(res)), None, total
        for k, (a, b) in enumerate(zip(res, back)):
            for f in ("TimeElapsed", "Longitude", "Latitude", "CentralPressure", "EnvPressure", "rMax", "Speed", "Bearing"):
                u, v = np.array(getattr(a, f), float), np.array(getattr(b, f), float)
                if u.shape != v.shape or not np.allclose(u, v, rtol=1e-6, atol=1e-6, equal_nan=True):
                    return "the saved file has another %s" % f, k, total
            if max(abs((p - q).total_seconds()) for p, q in zip(dates(a), dates(b))) > 1.5:
                return "the saved file has other dates", k, total
    return None, None, total


def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    c = job["case"]
    text, k, total = run_file(c, d)
    bad = []
    if text:
        small = dict(c)
        if k is not None:
            # alone in a file
            one = dict(c, tracks=[c["tracks"][k]])
            t1, _, _ = run_file(one, d)
            if t1 and "starting positions" not in t1:
                small, text = one, t1
        bad.append((text, small))
    return bad, dict(n=len(c["tracks"]), records=total, key="%s|%g|%s" % (c["kind"], c["delta"], c["method"]))


def main(ctx):
    logging.disable(logging.CRITICAL)
    mpi.install()
    ext.install(ext.build_all())
    import Evaluate.interpolateTracks  # noqa: before the forks
    import inspect
    inspect.stack()
    d = ctx.mkdir("c21")
    if ctx.replay:
        bad, _ = work(dict(case=ctx.replay["case"], dir=d))
        for text, c in bad:
            ctx.violation(text, dict(case=c))
        return
    quick = not ctx.thorough
    ts = tracks(quick)
    small = [t for t in ts if len(t[0]) < 4]
    jobs = []
    for delta in (1., 5., 1 / 12.) if quick else (1., 2., 3., 5., 6., 0.25, 1 / 12.):
        for method in (None, "linear", "akima"):
            for kind in ("nc0", "ncmax", "csv"):
                if delta < 0.2:
                    use = [t for t in small if len(t[0]) < 3] + [t for t in small if len(t[0]) == 3][::1 if ctx.thorough else 9]
                    if kind != "csv" and quick:
                        continue
                elif quick and kind == "ncmax":
                    use = small
                else:
                    use = ts
                for part in common.chunks(use, max(1, len(use) // 300)):
                    jobs.append(dict(case=dict(tracks=part, delta=delta, method=method, kind=kind, save=True), dir=d))
    from collections import Counter
    seen = Counter()
    nfiles = 0
    for res in common.pmap(work, jobs, stop=lambda r: bool(r[0])):
        if res is None:
            continue
        bad, r = res
        nfiles += 1
        seen[r["key"]] += r["n"]
        for text, c in bad:
            ctx.violation("%s (source %s, step %g h, method %s; %s)" % (
                text, c["kind"], c["delta"], c["method"], describe(c)), dict(case=c))
        ctx.add(records_compared=r["records"], files=1)
    ctx.explored(sum(seen.values()), seen,
                 "a track interpolated with one source, step and method; classes are the combinations of these")
    ctx.sample("3 points 3 h and 6 h apart, pressures 980, missing, 895.5, step 5 h: times 0, 9 h (5 h stretched to the end), pressure linear over the gap")
    ctx.sample("4 points, pressures missing, 980, 895.5, missing: no pressure before the second and after the third")
    ctx.assumptions += ["longitudes do not pass 0/360 within a track; observations on whole minutes"]


def describe(c):
    if len(c["tracks"]) == 1:
        g, m, p = c["tracks"][0]
        return "intervals %s h, moves %s, pressures %s" % (list(g), list(m), list(p))
    return "%d tracks in the file" % len(c["tracks"])
