"""C26: a scenario run makes what its options say, from the right data.

All combinations of the options of a scenario (map, time series, evolution, region,
impact) for several track files go through the real program from its command line.  All
files below the output folder, what reaches the figures and the calls of the impact
program are compared with the input track and with a plain calculation of the wind fields.
All names of stations over an alphabet go through the time series plots."""
import csv
import datetime
import glob
import itertools
import logging
import os
import shutil
import sys
import warnings

import netCDF4
import numpy as np

from .. import common, figs, mpi, world

START = datetime.datetime(2003, 12, 31, 21, 0)
OPTIONS = ("map", "series", "evolution", "impact", "region", "debug")
STATIONS = (("s1c", 114.5, -18.5), ("t2", 114.0, -18.1), ("s1", 114.3, -18.7), ("csv", 114.7, -18.3))
# storms: (positions and pressures), one hour apart
A = ((115., -18., 970.), (114.6, -18.4, 960.), (114., -19., 965.))
B = ((114.2, -18.9, 985.), (114.7, -18.2, 975.))
ONE = ((114.4, -18.4, 955.),)
SOURCES = {"csv": ("csv", (A,)), "csv2": ("csv", (A, B)), "csv1": ("csv", (ONE,)),
           "nc": ("nc", (A,)), "nc2": ("nc", (B, A)), "ncname": ("nc", (A,))}
REGIONS = {None: None, "whole": (113., 116., -20., -17.), "part": (114.2, 115.2, -18.8, -17.8)}
HAZIMP = """#!/bin/sh
# stand-in for the impact program: keeps the settings
cp "$2" "$HAZIMP_NOTES/$$.yaml"
"""


def cases(quick):
    out = []
    for src in SOURCES:
        for m, s, e, i in itertools.product((0, 1), repeat=4):
            for r in REGIONS if not quick or src in ("csv", "nc2") else (None, "whole"):
                out.append(dict(src=src, map=m, series=s, evolution=e, impact=i, region=r, debug=(m + s + e + i) % 2))
    return out


def times(k, n):
    return [START + datetime.timedelta(days=3 * k, hours=j) for j in range(n)]


def write_tracks(d, src):
    fmt, storms = SOURCES[src]
    if fmt == "nc":
        path = os.path.join(d, "scenario.nc" if src == "ncname" else "tracks.00007.nc")
        if src == "ncname":
            path = os.path.join(d, "tracks.001-00001.nc")
        world.tracks_nc(path, [world.track(k + 1, (k + 1, 1 if src == "ncname" else 7), list(pts), start=times(k, 1)[0], pe=1008.)
                               for k, pts in enumerate(storms)])
        return path, storms
    path = os.path.join(d, "scenario.csv")
    with open(path, "w") as fh:
        for k, pts in enumerate(storms):
            for j, (t, (x, y, p)) in enumerate(zip(times(k, len(pts)), pts)):
                fh.write("%d,%s,%r,%r,%r,40,1010,1008\n" % (j == 0, t.strftime("%Y%m%d %H:%M"), y, x, p))
    return path, storms


def sections(c, d, best, out):
    s = {"DataProcess": {"InputFile": best, "Source": "NRL", "FilterSeasons": False},
         "WindfieldInterface": {"Margin": 0.6, "Resolution": 0.2, "profileType": "powell", "windFieldType": "kepert",
                                "PlotOutput": bool(c["map"])},
         "Timeseries": {"Extract": bool(c["series"]), "LocationFile": os.path.join(d, "stn.shp"), "StationID": "WMO",
                        "Windfields": bool(c["evolution"])},
         "Actions": {"ExecuteImpact": bool(c["impact"])},
         "Impact": {"Exposure": os.path.join(d, "exposure.csv")},
         "Input": {"landmask": LAND, "mslpfile": MSLP},
         "Output": {"Path": out},
         "NRL": {"Columns": "index,date,lat,lon,pressure,rmax,penv,poci", "FieldDelimiter": ",", "NumberOfHeadingLines": 0,
                 "PressureUnits": "hPa", "SpeedUnits": "kts", "LengthUnits": "km", "DateFormat": "%Y%m%d %H:%M"},
         "Logging": {"LogFile": os.path.join(d, "log", "l.log"), "LogLevel": "CRITICAL", "Verbose": False,
                     "NewLog": True, "DateStamp": False, "ProgressBar": False}}
    if c["region"]:
        s["Region"] = {"gridLimit": world.limit(*REGIONS[c["region"]])}
    return s


def build(d, c):
    import shapefile
    shutil.rmtree(d, ignore_errors=True)
    for n in ("bin", "notes", "plain/tracks", "plain/windfield"):
        os.makedirs(os.path.join(d, n))
    hz = os.path.join(d, "bin", "hazimp")
    with open(hz, "w") as fh:
        fh.write(HAZIMP)
    os.chmod(hz, 0o755)
    w = shapefile.Writer(os.path.join(d, "stn.shp"), shapefile.POINT)
    w.field("WMO", "C", 10)
    for n, x, y in STATIONS:
        w.point(x, y)
        w.record(n)
    w.close()
    best, storms = write_tracks(d, c["src"])
    out = os.path.join(d, "out")
    cfg = world.write_config(os.path.join(d, "c.ini"), sections(c, d, best, out))
    plain = dict(c, map=0, series=0, evolution=0, impact=0)
    pcfg = world.write_config(os.path.join(d, "p.ini"), sections(plain, d, best, os.path.join(d, "plain")))
    return cfg, pcfg, out, storms


def program(cfg, d, debug):
    """What the figures of a run show."""
    import Utilities.config
    Utilities.config.reset()
    logging.disable(logging.CRITICAL)
    figs.install()
    os.environ["PATH"] = os.path.join(d, "bin") + os.pathsep + os.environ.get("PATH", "")
    os.environ["HAZIMP_NOTES"] = os.path.join(d, "notes")
    import tcevent
    sys.argv = ["tcevent.py", "-c", cfg] + (["-d"] if debug else [])
    warnings.simplefilter("ignore")
    tcevent.startup()
    return figs.FIGURES


def plain_run(cfg):
    import Utilities.config
    Utilities.config.reset()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import wind
    wind.run(cfg)


def read_fields(path):
    with netCDF4.Dataset(path) as ds:
        return {n: np.ma.filled(np.ma.masked_invalid(ds.variables[n][:]).astype(float), np.nan)
                for n in ("lon", "lat", "vmax", "ua", "va", "slp")}


def series(path):
    with open(path) as fh:
        rows = list(csv.reader(fh))
    i = {n.strip(): k for k, n in enumerate(rows[0])}
    return [(datetime.datetime.strptime(r[i["Time"]].strip(), "%Y-%m-%d %H:%M"), float(r[i["Longitude"]]),
             float(r[i["Latitude"]]), float(r[i["Pressure"]]), float(r[i["Speed"]]), float(r[i["Bearing"]]))
            for r in rows[1:]]


def judge_track(path, storms):
    from Utilities.track import ncReadTrackData
    got = ncReadTrackData(path)
    if len(got) != len(storms):
        return "the interpolated file has %d tracks instead of %d" % (len(got), len(storms))
    for k, (g, pts) in enumerate(zip(got, storms)):
        n = 12 * (len(pts) - 1) + 1
        if len(g.data) != n:
            return "track %d has %d records instead of %d" % (k + 1, len(g.data), n)
        for j, (t, (x, y, p)) in enumerate(zip(times(k, len(pts)), pts)):
            r = g.data[12 * j]
            if abs(r["Longitude"] - x) > 1e-3 or abs(r["Latitude"] - y) > 1e-3 or abs(r["CentralPressure"] - p) > 0.02 or \
                    abs((r["Datetime"] - t).total_seconds()) > 60:
                return "track %d is at %r, %r, %r hPa at %s, but was observed at %r, %r, %r hPa at %s" % (
                    k + 1, r["Longitude"], r["Latitude"], r["CentralPressure"], r["Datetime"], x, y, p, t)
    return None


def judge_series(name, path, x, y, figures, steps):
    rec = series(path)
    if abs(rec[0][1] - x) > 1e-3 or abs(rec[0][2] - y) > 1e-3:
        return "the series of station %s is for %r, %r" % (name, rec[0][1], rec[0][2])
    if steps is not None and [r[0] for r in rec] != steps:
        return "the series of station %s has records at %s" % (name, ", ".join(str(r[0]) for r in rec[:4]))
    return judge_figure(name, rec, figures)


def judge_figure(name, rec, figures):
    from matplotlib.dates import date2num
    mine = [f for f in figures if os.path.basename(f["file"]) == "ts.%s.png" % name]
    if len(mine) != 1:
        return "station %s has %d figures of its time series" % (name, len(mine))
    want = "Station ID: %s (%6.2f, %6.2f)" % (name, rec[0][1], rec[0][2])
    texts = [mine[0]["title"]] + [a["title"] for a in mine[0]["axes"]]
    if want not in texts:
        return "the figure of station %s has the title %r" % (name, mine[0]["title"])
    t = date2num([r[0] for r in rec])
    lines = [(a["ylabel"], l) for a in mine[0]["axes"] for l in a["lines"]]
    for what, col, f in (("Pressure", 3, .01), ("speed", 4, 1.), ("Direction", 5, 1.)):
        ls = [l for y, l in lines if what.lower() in y.lower()]
        if len(ls) != 1:
            return "the figure of station %s has %d lines for %s" % (name, len(ls), what)
        x, y = np.asarray(date2num(ls[0][1]) if ls[0][1].dtype == object else ls[0][1], float), np.asarray(ls[0][2], float)
        if len(x) != len(t) or not np.allclose(x, t, atol=1e-5) or not np.allclose(y, [r[col] * f for r in rec], atol=1e-6):
            return "the figure of station %s shows %s %s instead of %s" % (
                name, what, y[:3].tolist(), [r[col] * f for r in rec[:3]])
    return None


def judge_map(figures, plots, gust, region):
    mine = [f for f in figures if f["file"] == os.path.join(plots, "maxwind.png")]
    if len(mine) != 1:
        return "%d wind field maps" % len(mine)
    dr = [x + (a["extent"],) for a in mine[0]["axes"] for x in a["drawn"] if x[0] in ("contourf", "pcolormesh") and x[1][-1].ndim == 2 and
          a["title"]]
    if len(dr) != 1:
        return "the map shows %d fields" % len(dr)
    x, y, z = [np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in dr[0][1][:3]]
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    lon, lat, v = gust["lon"], gust["lat"], gust["vmax"]
    if region:
        ii = (lon >= region[0]) & (lon <= region[1])
        jj = (lat >= region[2]) & (lat <= region[3])
        lon, lat, v = lon[ii], lat[jj], v[jj][:, ii]
    frame = [lon.min(), lon.max(), lat.min(), lat.max()]
    if not np.allclose(dr[0][3], frame, atol=1e-3):
        return "the map is drawn for %s, the wind field covers %s" % (dr[0][3], frame)
    want = {(round(a, 3), round(b, 3)): v[j, i] for j, b in enumerate(lat) for i, a in enumerate(lon)}
    got = {(round(float(a), 3), round(float(b), 3)): c for a, b, c in zip(x.ravel(), y.ravel(), z.ravel())}
    if sorted(want) != sorted(got):
        return "the map covers %s..%s, the wind field %s..%s" % (min(got), max(got), min(want), max(want))
    for k in sorted(want):
        if not np.isclose(want[k], got[k], rtol=1e-5, atol=1e-5, equal_nan=True):
            return "the map has %r at %s, the wind field %r" % (got[k], k, want[k])
    return None


def judge(c, d, out, storms, figures):
    import yaml
    plain = os.path.join(d, "plain")
    gusts = sorted(os.path.basename(p) for p in glob.glob(os.path.join(plain, "windfield", "gust.*.nc")))
    if len(gusts) != len(storms):
        return "%d wind fields for %d storms" % (len(gusts), len(storms))
    ts = ["ts.%s" % n for n, _, _ in STATIONS] if c["series"] else []
    want = {"tracks/tracks.interp.nc"} | {"windfield/" + g for g in gusts}
    want |= {"windfield/" + g.replace("gust.", "evolution.") for g in gusts} if c["evolution"] else set()
    want |= {"plots/maxwind.png"} if c["map"] else set()
    want |= {"process/timeseries/%s.csv" % t for t in ts} | {"plots/timeseries/%s.png" % t for t in ts}
    want |= {"process/maxima.csv", "process/minima.csv"} if ts else set()
    got = {os.path.relpath(os.path.join(a, f), out) for a, _, fs in os.walk(out) for f in fs}
    if got != want:
        return "files missing: %s; files not asked for: %s" % (sorted(want - got) or "none", sorted(got - want) or "none")
    bad = judge_track(os.path.join(out, "tracks", "tracks.interp.nc"), storms)
    if bad:
        return bad
    for g in gusts:
        a, b = read_fields(os.path.join(out, "windfield", g)), read_fields(os.path.join(plain, "windfield", g))
        for n in a:
            if a[n].shape != b[n].shape or not np.allclose(a[n], b[n], rtol=1e-6, atol=1e-6, equal_nan=True):
                return "%s of %s is not that of the interpolated track" % (n, g)
    steps = None
    if c["region"] != "part":
        steps = [t0 + datetime.timedelta(minutes=5 * j) for k, p in enumerate(storms)
                 for t0 in times(k, 1) for j in range(12 * (len(p) - 1) + 1)]
    for n, x, y in STATIONS if c["series"] else ():
        bad = judge_series(n, os.path.join(out, "process", "timeseries", "ts.%s.csv" % n), x, y, figures, steps)
        if bad:
            return bad
    if c["map"]:
        bad = judge_map(figures, os.path.join(out, "plots"), read_fields(os.path.join(out, "windfield", gusts[0])),
                        REGIONS[c["region"]])
        if bad:
            return bad
    calls = []
    for p in glob.glob(os.path.join(d, "notes", "*.yaml")):
        with open(p) as fh:
            s = {}
            for part in yaml.safe_load(fh):
                s.update(part)
        calls.append((s["load_exposure"]["file_name"], s["load_wind_ascii"], s["save"]))
    asked = [(os.path.join(d, "exposure.csv"), "NetCDF:%s:vmax" % os.path.join(out, "windfield", g),
              os.path.join(out, "impact", g[:-3] + ".csv")) for g in gusts] if c["impact"] else []
    if sorted(calls) != sorted(asked):
        return "the impact program was called for %s instead of %s" % (sorted(calls), sorted(asked))
    return None


def one(d, c):
    try:
        cfg, pcfg, out, storms = build(d, c)
        r = common.call_forked(program, cfg, d, c["debug"], timeout=300)
        if r[0] != "ok":
            return "the program failed: %s" % " ".join(map(str, r[1:3]))[:300]
        if not os.path.exists(os.path.join(out, "tracks", "tracks.interp.nc")):
            return "no interpolated track file"
        shutil.copy(os.path.join(out, "tracks", "tracks.interp.nc"), os.path.join(d, "plain", "tracks"))
        p = common.call_forked(plain_run, pcfg, timeout=300)
        if p[0] != "ok":
            return "the wind fields failed: %s" % " ".join(map(str, p[1:3]))[:300]
        return common.judge(judge, c, d, out, storms, r[1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- names of stations ------------------------------------------------------------------------
ALPHABET = "tsvc.1"


def names(n):
    """All names, and for each length of series."""
    return ["".join(p) for m in range(1, n + 1) for p in itertools.product(ALPHABET, repeat=m)]


def plots(d, group):
    figs.install()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from PlotInterface.plotTimeseries import plotTimeseries
    src, dst = os.path.join(d, "in"), os.path.join(d, "png")
    os.makedirs(src)
    os.makedirs(dst)
    want = {}
    for k, n in enumerate(group):
        t0 = START + datetime.timedelta(hours=k)
        rec = [(t0 + datetime.timedelta(minutes=5 * j), 100. + k, -20. - .25 * j, 98000. + 100 * k + 25 * j, 10. + k + j,
                (30 * k + 7 * j) % 360) for j in range(1 + k % 3)]
        want[n] = rec
        with open(os.path.join(src, "ts.%s.csv" % n), "w") as fh:
            fh.write("Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure\n")
            for t, x, y, p, v, b in rec:
                fh.write("%s,%s,%9.5f,%9.5f,%6.2f,%6.2f,%6.2f,%6.2f,%7.2f\n" % (n, t.strftime("%Y-%m-%d %H:%M"), x, y, v, 1, 2, b, p))
    plotTimeseries(src, dst)
    if len(figs.FIGURES) != len(group):
        return "%d figures for %d series" % (len(figs.FIGURES), len(group))
    for n in group:
        bad = judge_figure(n, want[n], figs.FIGURES)
        if bad:
            return bad
    return None


def plot_case(d, group):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        r = common.call_forked(plots, d, group, timeout=300)
        return r[1] if r[0] == "ok" else "plotting the time series failed: %s" % " ".join(map(str, r[1:3]))[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -----------------------------------------------------------------------------------------------
def job(j):
    d, kind, x = j
    return (plot_case(d, x) if kind == "names" else one(d, x)) or ""


def main(ctx):
    global MSLP, LAND
    mpi.install()
    mpi.solo()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import tcevent                                          # noqa: F401
    import wind                                             # noqa: F401
    import PlotInterface.maps                               # noqa: F401
    import PlotInterface.plotTimeseries                     # noqa: F401
    base = ctx.mkdir("w")
    MSLP = world.mslp_nc(os.path.join(base, "mslp.nc"))
    LAND = world.landmask_nc(os.path.join(base, "land.nc"), lambda x, y: x * 0)
    if ctx.replay is not None:
        k, x = ctx.replay
        t = job((os.path.join(base, "r"), k, x))
        if t:
            ctx.violation(t, ctx.replay)
        return
    cs = cases(not ctx.thorough)
    ctx.sample(cs[0])
    ctx.sample(cs[-1])
    group = names(3 if ctx.thorough else 2)
    jobs = [("run", c) for c in cs] + [("names", g) for g in common.chunks(group, 8)] + \
        [("names", list(p)) for p in itertools.combinations(group[:12], 2)]
    jobs = [(os.path.join(base, "j%d" % k),) + j for k, j in enumerate(jobs)]
    for j, bad in zip(jobs, common.pmap(job, jobs, stop=lambda r: r != "")):
        if bad is None:
            continue
        if j[1] == "run":
            ctx.add(scenario_runs=1)
        else:
            ctx.add(series_plotted=len(j[2]))
        ctx.explored(1, [str(j[1:])], "scenario runs and sets of series plotted; distinct = by source, options or names")
        if bad:
            ctx.violation("%s: %s" % (j[2] if j[1] == "run" else "stations", bad), list(j[1:]))
    ctx.assumptions = ["map data comes from the network and is left out; images are noted where they reach matplotlib",
                       "the impact program is replaced by one that keeps its settings"]
