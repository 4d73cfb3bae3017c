"""C27: hazard maps and hazard curves show the hazard data.

All combinations of units, smoothing, confidence range, longitudes of the domain and
patterns of missing cells of a small hazard file, with locations all around its cells and
different numbers of recorded events, go through the real plotting stage; what reaches the
figures is compared with the file and the database."""
import itertools
import logging
import os
import shutil
import sqlite3
import warnings

import netCDF4
import numpy as np

from .. import common, figs, mpi, world

UNITS = {"mps": (1., "m/s"), "mph": (2.23694, "mi/h"), "kts": (1.944, "kts"), "kph": (3.6, "km/h"), "kmh": (3.6, "km/h")}
YEARS = (2., 5., 10., 100.)
FILL = -9999.
NX, NY, RES = 7, 6, 0.5
PLACES = {"east": 110., "west": 200., "greenwich": 0.}
# missing cells
GAPS = {"none": lambda j, i, k: j < 0, "first": lambda j, i, k: (k == 0) & (j == 1) & (i == 2), "one": lambda j, i, k: (j == 2) & (i == 3), "corner": lambda j, i, k: (j < 2) & (i < 2),
        "column": lambda j, i, k: i == 4, "most": lambda j, i, k: (j + i) % 3 > 0}
TABLES = ("CREATE TABLE tblLocations (locId integer PRIMARY KEY, locCode text, locName text, "
          "locType text, locLon real, locLat real, locElev real, locCountry text, locSource text, "
          "Comments text, dtCreated timestamp)",
          "CREATE TABLE tblEvents (eventNumber integer PRIMARY KEY, eventId text, eventFile text, "
          "eventTrackFile text, eventMaxWind real, eventMinPressure real, dtTrackFile timestamp, "
          "dtWindfieldFile timestamp, tcrmVersion text, Comments text, dtCreated timestamp)",
          "CREATE TABLE tblWindSpeed (locId integer, eventId text, wspd real, umax real, vmax real, "
          "pmin real, Comments text, dtCreated timestamp)",
          "CREATE TABLE tblHazard (locId integer, returnPeriod real, wspd real, wspdUpper real, "
          "wspdLower real, loc real, scale real, shape real, tcrmVersion text, dtHazardFile timestamp, "
          "Comments text, dtCreated timestamp)",
          "CREATE TABLE tblTracks (locId integer, eventId text, distClosest real, prsClosest real, "
          "dtClosest timestamp, Comments text, dtCreated timestamp)")


def axes_of(c):
    lon = PLACES[c["place"]] + RES * np.arange(NX)
    lat = -20. + RES * np.arange(NY)
    return lon, lat


def value(c, name, k, j, i):
    """Return levels: everything different."""
    v = 20. + 8. * k + 1.25 * j + .4 * i + ((3 * j + 5 * i) % 4) * .3
    return c.get("add", 0.) + v + {"wspd": 0., "wspdupper": 5., "wspdlower": -4.}[name]


def field(c, name, k, j, i):
    if c["flat"]:
        return 42.5 + (c["flat"] == 2) * 30. * ((j == 2) & (i == 3))
    return value(c, name, k, j, i)


def places(c):
    """(id, name, lon, lat, cell row, cell column, winds of its events)"""
    lon, lat = axes_of(c)
    out = []
    spots = [(0, 0, 0., 0.), (1, 2, .2, -.2), (2, 3, -.2, .1), (3, 3, .15, .15), (5, 6, -.1, 0.), (4, 4, .24, .24), (0, 6, .2, .1),
             (2, 0, -.2, -.2), (4, 1, 0., .2)]
    for n, (j, i, dx, dy) in enumerate(spots):
        winds = [15. + 3. * ((7 * m + n) % 11) + .5 * n for m in range((0, 1, 5)[n % 3])]
        out.append((n * n + 3, "Place %d, North" % n, float(lon[i] + dx), float(lat[j] + dy), j, i, winds))
    return out


def cases(quick):
    out = []
    for u, s, ci, p, g in itertools.product(UNITS, (0, 1), (0, 1), PLACES, GAPS):
        if quick and u != "mps" and (p != "east" or g not in ("none", "corner")):
            continue
        out.append(dict(units=u, smooth=s, ci=ci, place=p, gaps=g, sims=40, years=YEARS, flat=0))
    for g in GAPS:
        out.append(dict(units="kph", smooth=1, ci=0, place="east", gaps=g, sims=40, years=YEARS[:1], flat=1))
    out.append(dict(units="kph", smooth=1, ci=0, place="east", gaps="none", sims=40, years=YEARS[:2], flat=2))
    # long return periods and extreme winds
    for u in ("mps", "kph"):
        out.append(dict(units=u, smooth=0, ci=1, place="east", gaps="one", sims=40, years=(500., 2500., 10000.), flat=0, add=70.))
    for y in [ys for n in (1, 2, 3) for ys in itertools.combinations(YEARS, n)]:
        out.append(dict(units="mps", smooth=0, ci=1, place="east", gaps="one", sims=2 + len(y), years=y, flat=0))
    return out


def build(d, c):
    shutil.rmtree(d, ignore_errors=True)
    out = os.path.join(d, "out")
    for n in ("hazard", "plots/hazard", "process"):
        os.makedirs(os.path.join(out, n))
    lon, lat = axes_of(c)
    jj, ii = np.meshgrid(np.arange(NY), np.arange(NX), indexing="ij")
    with netCDF4.Dataset(os.path.join(out, "hazard", "hazard.nc"), "w") as ds:
        for n, a in (("ari", c["years"]), ("lat", lat), ("lon", lon)):
            ds.createDimension(n, len(a))
            ds.createVariable(n, "f8", (n,))[:] = a
        for n in ("wspd", "wspdupper", "wspdlower"):
            v = ds.createVariable(n, "f4", ("ari", "lat", "lon"), fill_value=FILL)
            for k in range(len(c["years"])):
                a = field(c, n, k, jj, ii)
                v[k] = np.where(GAPS[c["gaps"]](jj, ii, k), FILL, a)
    con = sqlite3.connect(os.path.join(out, "hazard.db"))
    for t in TABLES:
        con.execute(t)
    ev = 0
    for lid, name, x, y, _, _, winds in places(c):
        con.execute("INSERT INTO tblLocations VALUES (?,?,?,?,?,?,?,?,?,?,?)", (lid, "c", name, "AWS", x, y, 0., "XX", "s", "", None))
        for w in winds:
            ev += 1
            con.execute("INSERT INTO tblEvents VALUES (?,?,?,?,?,?,?,?,?,?,?)",
                        (ev, "%03d-00001" % ev, "gust.nc", "t", 60., 95000., None, None, "v", "", None))
            con.execute("INSERT INTO tblWindSpeed VALUES (?,?,?,?,?,?,?,?)", (lid, "%03d-00001" % ev, w, 1., 2., 99000., "", None))
    con.commit()
    con.close()
    lim = (float(min(lon)), float(max(lon)), float(min(lat)), float(max(lat)))
    return out, world.write_config(os.path.join(d, "c.ini"), {
        "Region": {"gridLimit": world.limit(*lim)},
        "Hazard": {"PlotSpeedUnits": c["units"], "CalculateCI": bool(c["ci"]), "SmoothPlots": bool(c["smooth"]),
                   "ExtremeValueDistribution": "GPD"},
        "TrackGenerator": {"NumSimulations": c["sims"], "YearsPerSimulation": 1},
        "Output": {"Path": out}, "Process": {"DatFile": os.path.join(out, "process", "p.dat"), "ExcludePastProcessed": False},
        "Logging": {"LogFile": os.path.join(d, "l.log"), "LogLevel": "CRITICAL", "Verbose": False, "ProgressBar": False}})


def stage(cfg):
    import Utilities.config
    Utilities.config.reset()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    figs.install()
    import Utilities.parallel
    Utilities.parallel.attemptParallel()
    import tcrm
    tcrm.doHazardPlotting(cfg)
    return figs.FIGURES


def kernel_reach(c, vals, gap, j, i):
    """Least and largest valid value within a degree."""
    r = int(round(1 / RES))
    a = vals[max(0, j - r):j + r + 1, max(0, i - r):i + r + 1][~gap[max(0, j - r):j + r + 1, max(0, i - r):i + r + 1]]
    return a.min(), a.max()


def judge_map(c, fig, k, year):
    f, label = UNITS[c["units"]]
    ax = [a for a in fig["axes"] if any(x[0] in ("contourf", "pcolormesh") and x[1][-1].ndim == 2 for x in a["drawn"]) and a["title"]]
    if len(ax) != 1:
        return "%d maps in one figure" % len(ax)
    if "%d" % year not in ax[0]["title"].replace("-", " ").split():
        return "the map for %d years has the title %r" % (year, ax[0]["title"])
    dr = [x for x in ax[0]["drawn"] if x[0] in ("contourf", "pcolormesh")]
    x, y, z = dr[0][1][0].astype(float), dr[0][1][1].astype(float), dr[0][1][2]
    lon, lat = axes_of(c)
    jj, ii = np.meshgrid(np.arange(NY), np.arange(NX), indexing="ij")
    gap = GAPS[c["gaps"]](jj, ii, k)
    want = field(c, "wspd", k, jj, ii).astype("f4").astype(float) * f
    z = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(z, dtype=float)), np.nan)
    if x.ndim == 1:
        x, y = np.meshgrid(x, y)
    if z.shape != (NY, NX):
        return "the map has the shape %s" % (z.shape,)
    got = {(round(float(a) % 360, 3), round(float(b), 3)): v for a, b, v in zip(x.ravel(), y.ravel(), z.ravel())}
    ext = ax[0]["extent"]
    for j, i in np.ndindex(NY, NX):
        p = (round(lon[i] % 360, 3), round(lat[j], 3))
        if p not in got:
            return "the map has no value at %s" % (p,)
        v = got[p]
        if gap[j, i]:
            if v == v:
                return "the map shows %r at %s, where the data is missing" % (v, p)
            continue
        if c["smooth"]:
            lo, hi = kernel_reach(c, want, gap, j, i)
            if not lo * .9995 <= v <= hi * 1.0005:
                return "the map for %d years shows %r at %s, the values within a degree are from %r to %r" % (year, v, p, lo, hi)
        elif not abs(v - want[j, i]) <= 5e-4 * want[j, i]:
            return "the map for %d years shows %r at %s instead of %r" % (year, v, p, want[j, i])
    z = np.array([[got[round(a % 360, 3), round(b, 3)] for a in lon] for b in lat])
    if c["flat"] == 2:
        near = z[0:5, 1:6]
        if not np.allclose(near, near[::-1, ::-1], rtol=1e-6) or near.argmax() != 12:
            return "smoothing moves values"
    if c["smooth"] and not c["flat"] and not gap.any():
        rough = [abs(np.diff(a, axis=0)).sum() + abs(np.diff(a, axis=1)).sum() for a in (z, want)]
        if not rough[0] < .9 * rough[1]:
            return "the map for %d years is not smoothed" % year
    if not (abs(ext[1] - ext[0] - (NX - 1) * RES) < 1e-3 and abs((ext[0] - lon.min() + 180) % 360 - 180) < 1e-3 and
            abs(ext[2] - lat.min()) < 1e-3 and abs(ext[3] - lat.max()) < 1e-3):
        return "the map is drawn for %s" % ext
    return None


def judge_curve(c, fig, place):
    lid, name, plon, plat, j, i, winds = place
    f, label = UNITS[c["units"]]
    ax = fig["axes"][0]
    if name not in ax["title"]:
        return "the curve of %s has the title %r" % (name, ax["title"])
    if label not in ax["ylabel"]:
        return "the curve of %s has the unit %r" % (name, ax["ylabel"])
    if len(ax["lines"]) != 1:
        return "the figure of %s has %d curves" % (name, len(ax["lines"]))
    _, x, y = ax["lines"][0]
    ks = [k for k in range(len(c["years"])) if not GAPS[c["gaps"]](j, i, k)]
    want = [field(c, "wspd", k, j, i) * f for k in ks]
    y = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(y, dtype=float)), np.nan)
    got = [(a, b) for a, b in zip(np.asarray(x, float), y) if b == b]
    if [g[0] for g in got] != [c["years"][k] for k in ks] or not np.allclose([g[1] for g in got], want, rtol=5e-4):
        return "the curve of %s is %s instead of %s" % (name, got, want)
    band = [d for d in ax["drawn"] if d[0] == "fill_between"]
    if len(band) != c["ci"] and not (ks[0] and not band):
        return "the figure of %s has %d confidence ranges" % (name, len(band))
    if c["ci"] and band and not c["flat"]:
        a, b = [np.ma.filled(np.ma.asarray(v, dtype=float), np.nan)[ks] for v in band[0][1][1:3]]
        lo, hi = np.minimum(a, b), np.maximum(a, b)
        wl = [value(c, "wspdlower", k, j, i) * f for k in ks]
        wh = [value(c, "wspdupper", k, j, i) * f for k in ks]
        if not np.allclose(lo, wl, rtol=5e-4) or not np.allclose(hi, wh, rtol=5e-4):
            return "the range of %s is from %s to %s instead of from %s to %s" % (name, lo.tolist(), hi.tolist(), wl, wh)
    sc = [d for d in ax["drawn"] if d[0] == "scatter"]
    if len(sc) != 1:
        return "the figure of %s has %d sets of events" % (name, len(sc))
    n = int(c["sims"] * 365.25)
    want = {}
    for r, w in enumerate(sorted(winds, reverse=True)):
        rp = (n + 1) / (r + 1) / 365.25
        if rp > 1.0000001:
            want[round(rp, 4)] = w * f
    got = {round(float(a), 4): float(b) for a, b in zip(*sc[0][1][:2]) if b > 0}
    if sorted(got) != sorted(want) or any(abs(got[k] - want[k]) > 5e-4 * want[k] for k in want):
        return "the events of %s are at %s instead of %s" % (name, sorted(got.items()), sorted(want.items()))
    return None


def judge(c, out, figures):
    shown = [p for p in places(c) if not all(GAPS[c["gaps"]](p[4], p[5], k) for k in range(len(c["years"])))]
    want = {"%d_yrRP_hazard_map.png" % y for y in c["years"]} | {"ARI_curve_%d.png" % p[0] for p in shown}
    base = os.path.join(out, "plots", "hazard")
    got = [os.path.relpath(f["file"], base) for f in figures]
    if sorted(got) != sorted(want):
        return "figures missing: %s; figures not asked for: %s" % (sorted(want - set(got)), sorted(set(got) - want) or "repeated ones")
    by = dict(zip(got, figures))
    for k, y in enumerate(c["years"]):
        bad = judge_map(c, by["%d_yrRP_hazard_map.png" % y], k, y)
        if bad:
            return bad
    for p in shown:
        bad = judge_curve(c, by["ARI_curve_%d.png" % p[0]], p)
        if bad:
            return bad
    return None


def one(d, c):
    try:
        out, cfg = build(d, c)
        r = common.call_forked(stage, cfg, timeout=300)
        if r[0] != "ok":
            return "plotting failed: %s" % " ".join(map(str, r[1:3]))[:300]
        return common.judge(judge, c, out, r[1]) or ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def job(j):
    return one(*j)


def main(ctx):
    mpi.install()
    mpi.solo()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import tcrm                                             # noqa: F401
    import PlotInterface.AutoPlotHazard                     # noqa: F401
    base = ctx.mkdir("w")
    if ctx.replay is not None:
        t = one(os.path.join(base, "r"), ctx.replay)
        if t:
            ctx.violation(t, ctx.replay)
        return
    cs = cases(not ctx.thorough)
    ctx.sample(cs[0])
    ctx.sample(cs[-1])
    jobs = [(os.path.join(base, "j%d" % k), c) for k, c in enumerate(cs)]
    for c, bad in zip(cs, common.pmap(job, jobs, stop=lambda r: r != "")):
        if bad is None:
            continue
        ctx.explored(1, [str(c)], "runs of the hazard plotting stage; distinct = by options, domain and missing cells")
        ctx.add(maps=len(c["years"]))
        if bad:
            ctx.violation("%s: %s" % ({k: c[k] for k in ("units", "smooth", "ci", "place", "gaps", "flat")}, bad), c)
    ctx.assumptions = ["map data comes from the network and is left out; images are noted where they reach matplotlib",
                       "one year per simulation"]
