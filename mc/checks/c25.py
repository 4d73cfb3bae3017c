"""C25: export of tracks to shape files.

All sequences of crossings of the prime meridian in tracks of up to five points, all pairs
of short tracks, and all pressures around the category limits go through the real program,
from a table of best tracks and from a file of generated tracks; every feature and every
attribute of the three shape files is compared with the input.
"""
import datetime
import itertools
import logging
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from .. import common, world

EMPTY = np.empty

EAST, WEST = (1.5, 3.25, 4.75, 2.5, .75), (358.25, 356.5, 359.75, 357.5, 355.75)
PRESS = (929.5, 930., 930.5, 954.5, 955., 955.5, 969.5, 970., 970.5, 984.5, 985., 985.5, 998.5, 999., 1002.)
OBS = ("Indicator", "TCID", "Year", "Month", "Day", "Hour", "Minute", "TElapsed", "Longitude", "Latitude",
       "Speed", "Bearing", "Pcentre", "MaxWind", "rMax", "Penv", "Category")
SYN = ("CycloneNum", "TimeElapse", "Longitude", "Latitude", "Speed", "Bearing", "CentralPre", "EnvPressur",
       "rMax", "Category")
EVENT = ("TCID", "Year", "Month", "Day", "Hour", "Minute", "Age", "MinCP", "MaxWind")
HEAD = "num,season,date,lat,lon,pressure,rmax,penv,poci"
MSLP = None


def points(k, sides, start):
    """Points of track k on the given sides of the meridian, everything different."""
    return [((EAST, WEST)[s][(j + k) % 5], -11.25 - 1.5 * j - .5 * k, PRESS[(start + 4 * j + 7 * k) % len(PRESS)])
            for j, s in enumerate(sides)]


def cases(quick):
    n = 5 if quick else 7
    small = [s for m in (1, 2, 3) for s in itertools.product((0, 1), repeat=m)]
    sets = [(s,) for m in range(1, n + 1) for s in itertools.product((0, 1), repeat=m)]
    sets += [p for p in itertools.product(small, repeat=2)]
    if not quick:
        sets += [p for p in itertools.product(small[:6], repeat=3)]
    out = []
    for j, tracks in enumerate(sets):
        out.append(dict(tracks=tracks, start=j % len(PRESS), default=j % 2))
    out += [dict(tracks=(s,), start=p, default=0) for p in range(len(PRESS)) for s in ((0,), (0, 0, 0, 0))]
    for c in out:
        c["tracks"] = [points(k, s, c["start"]) for k, s in enumerate(c["tracks"])]
    out = [dict(c, fmt=f) for c in out for f in ("csv", "nc")]
    # best tracks with missing central pressures
    for m in (1, 2, 3, 4):
        for gone in itertools.product((0, 1), repeat=m):
            if any(gone):
                pts = [(x, y, 0. if g else p) for g, (x, y, p) in zip(gone, points(0, (0,) * m, 3 * m))]
                out.append(dict(tracks=[pts, points(1, (0, 0), 2)], start=0, default=0, fmt="csv"))
    # storms that stand still, tracks that begin just after midnight
    for m in (2, 3, 4):
        for still in itertools.product((0, 1), repeat=m - 1):
            pts = points(0, (0,) * m, m)
            for j, q in enumerate(still):
                if q:
                    pts[j + 1] = pts[j][:2] + pts[j + 1][2:]
            out += [dict(tracks=[pts, points(1, (1, 0), 2)], start=0, default=0, fmt=f, shift=3) for f in ("csv", "nc")]
    return out


def build(d, c):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    best = os.path.join(d, "best." + c["fmt"])
    if c["fmt"] == "csv":
        with open(best, "w") as fh:
            fh.write(HEAD + "\n")
            for k, pts in enumerate(c["tracks"]):
                for t, (x, y, p) in zip(times(k, len(pts), c.get("shift", 0)), pts):
                    fh.write("%d,%d,%s,%r,%r,%s,%d,1012,%r\n" % (
                        k + 3, t.year, t.strftime("%Y-%m-%d %H:%M:%S"), y, x, p or "", 30 + k, 1007.5 + k))
    else:
        tr = []
        for k, pts in enumerate(c["tracks"]):
            t = world.track(k + 3, (k, 0), pts)
            n = len(pts)
            t["speed"] = [10.5 + k + 2. * j for j in range(n)]
            t["bearing"] = [200.25 + 9 * k + 3.5 * j for j in range(n)]
            t["pe"] = [1008.5 + k + .25 * j for j in range(n)]
            t["rmax"] = [30.5 + 5 * k + .75 * j for j in range(n)]
            tr.append(t)
        world.tracks_nc(best, tr)
    cfg = world.write_config(os.path.join(d, "c.ini"), {
        "DataProcess": {"InputFile": best if c["default"] else os.path.join(d, "none.csv"),
                        "Source": "TEST" if c["default"] else "OTHER",
                        "StartSeason": 1900, "FilterSeasons": False},
        "Region": {"gridLimit": world.limit(0, 360, -40, 0)},
        "Input": {"MSLPFile": MSLP, "MSLPVariableName": "slp"},
        "Output": {"Path": d},
        "Logging": {"LogFile": os.path.join(d, "log", "log.txt"), "LogLevel": "CRITICAL",
                    "Verbose": False, "ProgressBar": False, "Datestamp": False},
        "TEST": {"Columns": HEAD, "FieldDelimiter": ",", "NumberOfHeadingLines": 1, "PressureUnits": "hPa",
                 "LengthUnits": "km", "SpeedUnits": "kph", "DateFormat": "%Y-%m-%d %H:%M:%S"}})
    return cfg, best


def times(k, n, shift=0):
    t = datetime.datetime(1990 + k, 1 + k % 9, 3 + k, (21 + shift) % 24, 30)
    return [t + datetime.timedelta(hours=6 * j) for j in range(n)]


def category(p):
    return sum(0 < p < lim for lim in (999, 985, 970, 955, 930))


def reference(c, cfg, best):
    """Per track: points and a record per point, then the record of the whole track."""
    import Utilities.config
    Utilities.config.reset()
    if c["fmt"] == "csv":
        from Utilities.loadData import loadTrackFile
        loaded = loadTrackFile(cfg, best, "TEST", calculateWindSpeed=True)
        if len(loaded) != len(c["tracks"]):
            raise common.CodeError("%d tracks loaded from %d" % (len(loaded), len(c["tracks"])))
    out = []
    for k, pts in enumerate(c["tracks"]):
        recs = []
        for j, (t, (x, y, p)) in enumerate(zip(times(k, len(pts), c.get("shift", 0)), pts)):
            if c["fmt"] == "csv":
                r = loaded[k].data[j]
                recs.append(dict(Indicator=int(j == 0), TCID=r["CycloneNumber"], Year=t.year,
                                 Month=t.month, Day=t.day, Hour=t.hour, Minute=t.minute, TElapsed=6. * j,
                                 Longitude=x, Latitude=y, Speed=r["Speed"], Bearing=r["Bearing"], Pcentre=p,
                                 MaxWind=r["WindSpeed"], rMax=30 + k, Penv=1007.5 + k,
                                 Category=category(p)))
            else:
                recs.append(dict(CycloneNum=k + 3, TimeElapse=1. * j, Longitude=x, Latitude=y,
                                 Speed=10.5 + k + 2. * j, Bearing=200.25 + 9 * k + 3.5 * j, CentralPre=p,
                                 EnvPressur=1008.5 + k + .25 * j, rMax=30.5 + 5 * k + .75 * j,
                                 Category=category(p)))
        if c["fmt"] == "csv":
            whole = {n: recs[0][n] for n in EVENT[:6]}
            whole.update(Age=recs[-1]["TElapsed"], MinCP=min([p for _, _, p in pts if p] or [0.]),
                         MaxWind=max(r["MaxWind"] for r in recs))
        else:
            whole = recs[0]
        out.append(([(x, y) for x, y, _ in pts], recs, whole))
    return out


def features(path, names):
    import shapefile
    with shapefile.Reader(path) as r:
        fields = [f for f in r.fields if f[0] != "DeletionFlag"]
        if sorted(f[0] for f in fields) != sorted(names):
            raise ValueError("attributes %s" % ", ".join(f[0] for f in fields))
        prec = {f[0]: f[3] for f in fields}
        out = []
        for s in r.shapeRecords():
            pts = [(float(x), float(y)) for x, y in s.shape.points]
            parts = [pts]
            if s.shape.shapeType != shapefile.POINT:
                at = list(s.shape.parts) + [len(pts)]
                parts = [pts[a:b] for a, b in zip(at, at[1:])]
            out.append((parts, s.record.as_dict()))
    return out, prec


def differ(parts, rec, prec, want, wrec, what):
    if parts not in want:
        return "%s is %s instead of %s" % (what, parts, want[0])
    for n, v in wrec.items():
        if rec[n] is None or abs(float(rec[n]) - float(v)) > .5000001 * 10 ** -prec[n]:
            return "%s has %s %r instead of %r" % (what, n, rec[n], float(v))


def judge(c, best, ref):
    stem = os.path.splitext(best)[0]
    per = OBS if c["fmt"] == "csv" else SYN
    whole = EVENT if c["fmt"] == "csv" else SYN
    want = {"_pt": [], "_line": [], "_dissolve": []}
    for pts, recs, tot in ref:
        runs = [[pts[0]]]
        for a, b in zip(pts, pts[1:]):
            if abs(a[0] - b[0]) > 180:
                runs.append([])
            runs[-1].append(b)
        for j, (p, r) in enumerate(zip(pts, recs)):
            q = pts[j + 1] if j + 1 < len(pts) and abs(pts[j + 1][0] - p[0]) < 180 else p
            want["_pt"].append(([[[p]]], r))
            want["_line"].append(([[[p, q]]], r))
        # a part of one point may be drawn as a line of no length
        alt = [[r, r * 2] if len(r) == 1 else [r] for r in runs]
        want["_dissolve"].append(([list(x) for x in itertools.product(*alt)], tot))
    for kind, names in (("_pt", per), ("_line", per), ("_dissolve", whole)):
        got, prec = features(stem + kind + ".shp", names)
        if len(got) != len(want[kind]):
            return "best%s: %d features instead of %d" % (kind, len(got), len(want[kind]))
        for k, ((parts, rec), (wp, wr)) in enumerate(zip(got, want[kind])):
            bad = differ(parts, rec, prec, wp, wr, "best%s: feature %d" % (kind, k + 1))
            if bad:
                return bad
    return None


def garbage(*a, **k):
    """An array that was not set holds anything."""
    out = EMPTY(*a, **k)
    for v in [out] if out.dtype.names is None else [out[n] for n in out.dtype.names]:
        if v.dtype.kind in "iuf":
            v[...] = 77
    return out


def run(cfg, best, c):
    import Utilities.config
    Utilities.config.reset()
    argv = sys.argv
    sys.argv = ["tracks2shp.py", "-c", cfg] + ([] if c["default"] else ["-f", best, "-s", "TEST"])
    np.empty = garbage
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            runpy.run_path(os.path.join(common.REPO, "Utilities", "tracks2shp.py"), run_name="__main__")
    finally:
        np.empty = EMPTY
        sys.argv = argv
        Utilities.config.reset()


def one(c, d):
    try:
        cfg, best = build(d, c)
        ref = reference(c, cfg, best)
        try:
            run(cfg, best, c)
        except BaseException as e:
            return "the export failed: %s: %s" % (type(e).__name__, str(e)[:200])
        return common.judge(judge, c, best, ref)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def job(j):
    d, part = j
    n = feats = wraps = 0
    seen = set()
    for c in part:
        n += 1
        feats += sum(len(t) for t in c["tracks"])
        wraps += any(abs(a[0] - b[0]) > 180 for t in c["tracks"] for a, b in zip(t, t[1:]))
        seen.add(str((c["fmt"], c["default"], c["tracks"])))
        bad = one(c, d)
        if bad:
            return n, feats, wraps, seen, (bad, c)
    return n, feats, wraps, seen, None


def main(ctx):
    global MSLP
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import Utilities.loadData                               # noqa: F401
    import Utilities.track                                  # noqa: F401
    base = ctx.mkdir("w")
    MSLP = world.mslp_nc(os.path.join(base, "mslp.nc"))
    if ctx.replay is not None:
        c = ctx.replay
        c["tracks"] = [[tuple(p) for p in t] for t in c["tracks"]]
        t = one(c, os.path.join(base, "r"))
        if t:
            ctx.violation(t, c)
        return
    cs = cases(not ctx.thorough)
    ctx.sample(cs[0])
    ctx.sample(cs[-1])
    jobs = [(os.path.join(base, "j%d" % k), p) for k, p in enumerate(common.chunks(cs, 64))]
    for r in common.pmap(job, jobs, stop=lambda r: r[4] is not None):
        if r is None:
            continue
        n, feats, wraps, seen, bad = r
        ctx.add(points_exported=feats, sets_with_crossings=wraps)
        ctx.explored(n, seen, "runs of the export program; distinct = by tracks, kind of file and way of naming it")
        if bad:
            ctx.violation("%s: %s" % (bad[1]["fmt"], bad[0]), bad[1])
    ctx.assumptions = ["a best track file is read as property C07 says; the shape files are read with pyshp"]
