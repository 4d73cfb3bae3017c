"""C30: the surrounding pressure of a storm is the climatological one of its place and day.

Climatologies given by formulas are written in all ways of storing them (order of the
latitudes, packing, units, grids) and sampled on a lattice of days, hours, latitudes and
longitudes by both samplers of the real code; then best-track tables with all patterns of
missing pressures, and generated tracks under scripted deviates, are compared with the
regression on the formula's value."""
import datetime
import itertools
import logging
import math
import os
import shutil
import warnings
from collections import Counter

import netCDF4
import numpy as np

from .. import common, ext, mpi, pipe, rng, world

NORTH, DAYS, EAST = 8., 5., 4.
COEF = (2324.1564738613392, -0.6539853183796136, -1.3984456535888878, 0.00074072928008818927,
        0.0044469231429346088, -1.4337623534206905)
FACTOR = {"hPa": 1., "Pa": 100., "Pascals": 100., "kPa": 0.1}


# ---- climatologies --------------------------------------------------------------------------
def parts(day, lat, lon):
    day, lat, lon = (np.asarray(v, float) for v in (day, lat, lon))
    return {"day": DAYS * np.cos(2 * np.pi * (day - 90.) / 365.), "lat": NORTH * np.sin(np.radians(lat)),
            "lon": EAST * np.cos(np.radians(lon) - 1.)}


KINDS = {"day": dict(day=1, lat=0, lon=0), "lat": dict(day=0, lat=1, lon=0), "lon": dict(day=0, lat=0, lon=1),
         "all": dict(day=1, lat=1, lon=1), "place": dict(day=0, lat=5, lon=5), "placenorth": dict(day=0, lat=-5, lon=5), "season": dict(day=5, lat=0, lon=0)}


def clim(kind, day, lat, lon):
    p = parts(day, lat, lon)
    return 1010. + sum(w * p[k] for k, w in KINDS[kind].items())


def tolerance(kind, grid):
    """The value may be that of the next grid point, and of two days earlier or later."""
    nt, ny, nx = grid
    t = {"day": DAYS * 2 * math.pi / 365. * (2. + (365. / nt if nt < 365 else 0.) * 1.2),
         "lat": NORTH * math.pi / 180. * 1.2 * 180. / ny, "lon": EAST * math.pi / 180. * 1.2 * 360. / nx}
    return 0.03 + sum(abs(w) * t[k] for k, w in KINDS[kind].items())


def write(path, c):
    nt, ny, nx = c["grid"]
    day = 1. + np.arange(nt) * 365. / nt
    # grids with and without the poles
    lat = np.linspace(-90, 90, ny) if ny % 2 else -90. + (np.arange(ny) + 0.5) * 180. / ny
    lon = np.arange(nx) * 360. / nx
    if c["down"]:
        lat = lat[::-1]
    if c["kind"] == "rough":
        i, j, k = np.meshgrid(np.arange(nt), np.arange(ny), np.arange(nx), indexing="ij")
        if c["down"]:
            j = ny - 1 - j
        v = 1010. + (2. + 1.5 * np.cos(0.7 * i + 0.3 * j + 0.2 * k)) * (-1.) ** (i + j + k)
    else:
        v = clim(c["kind"], *np.meshgrid(day, lat, lon, indexing="ij"))
    v = v * FACTOR[c["units"]]
    with netCDF4.Dataset(path, "w") as ds:
        for n, a in (("time", day), (c.get("latname", "lat"), lat), ("lon", lon)):
            ds.createDimension(n, len(a))
            x = ds.createVariable(n, "f8", (n,))
            x[:] = a
        kw = dict(fill_value=np.int16(32767)) if c["store"] == "i2" else {}
        s = ds.createVariable(c.get("var", "slp"), c["store"], ("time", c.get("latname", "lat"), "lon"), **kw)
        s.units = c["units"]
        if c["store"] == "i2":
            s.scale_factor = 0.01 * FACTOR[c["units"]]
            s.add_offset = 1000. * FACTOR[c["units"]]
        s[:] = v
    return path


# ---- the two samplers -----------------------------------------------------------------------
LATS = (-60., -35., -22.5, -20.1, -12., -3., 0., 3., 12., 20., 35., 60.)
LONS = (0., 0.7, 2.5, 77.3, 112., 150., 179.9, 180., 181.3, 250., 300., 357.5, 359.9, 360.)
DAYS_AT = (1., 2., 32., 59., 60., 120., 182., 240., 300., 364., 365., 366.)
HOURS = (0., 0.5)


def sampler_text(c, path):
    from TrackGenerator.TrackGenerator import SamplePressure
    from Utilities.loadData import ltmPressure
    pts = np.array(list(itertools.product(DAYS_AT, HOURS, LATS, LONS)))
    day, hour, lat, lon = pts.T
    try:
        a = np.asarray(ltmPressure(day.astype(int), 730000. + hour, lon, lat, path, c.get("var", "slp")), float)
        sp = SamplePressure(path, c.get("var", "slp"))
        b = np.asarray(sp.get_pressure(np.array([day + hour, lat, lon])), float)
    except Exception as e:
        return "sampling failed: %s: %s" % (type(e).__name__, str(e)[:150]), 0
    if c["kind"] == "rough":
        # from one grid point to the next: both must tell the same, away from the edges
        mid = (day > 30) & (day < 330) & (lon > 40) & (lon < 320)
        off = ~(np.abs(a - b) <= 0.05) & mid
        if off.any():
            i = int(np.argmax(off))
            return "the pressure of day %g at (%g, %g) is %.3f hPa for observed and %.3f for simulated storms, if pressures vary from point to point" % (
                day[i] + hour[i], lon[i], lat[i], a[i], b[i]), 0
        return None, 2 * len(pts)
    want = clim(c["kind"], day + hour, lat, lon)
    tol = tolerance(c["kind"], c["grid"])
    for name, v in (("loadData.ltmPressure", a), ("SamplePressure", b)):
        if v.shape != want.shape:
            return "%s: %s values for %s points" % (name, v.shape, want.shape), 0
        off = ~(np.abs(v - want) <= tol)
        if off.any():
            i = int(np.argmax(off))
            return "%s: the pressure of day %g at (%g, %g) is %.3f hPa, in the climatology it is %.3f" % (
                name, day[i] + hour[i], lon[i], lat[i], v[i], want[i]), 0
    off = ~(np.abs(a - b) <= 0.25 * tol)
    if off.any():
        i = int(np.argmax(off))
        return "the pressure of day %g at (%g, %g) is %.3f hPa for observed and %.3f for simulated storms" % (
            day[i] + hour[i], lon[i], lat[i], a[i], b[i]), 0
    # each record alone
    some = range(5, len(pts), 131 if c["grid"][1] < 40 else 997)
    for i in some:
        v = sp.get_pressure(np.array([[day[i] + hour[i]], [lat[i]], [lon[i]]]))
        if not abs(float(v) - b[i]) <= 1e-3:
            return "SamplePressure: day %g at (%g, %g) is %.3f alone and %.3f among others" % (day[i], lon[i], lat[i], float(v), b[i]), 0
    for i in list(some)[::9][:3]:
        v = ltmPressure(day[i:i + 1].astype(int), 730000. + hour[i:i + 1], lon[i:i + 1], lat[i:i + 1], path, c.get("var", "slp"))
        if not abs(float(np.asarray(v)[0]) - a[i]) <= 1e-3:
            return "ltmPressure: day %g at (%g, %g) is %.3f alone and %.3f among others" % (day[i], lon[i], lat[i], float(np.asarray(v)[0]), a[i]), 0
    return None, 2 * len(pts)


def sampler_cases(quick):
    out = []
    small = [(365, 37, 72), (365, 36, 72), (73, 19, 36), (12, 18, 36)]
    for kind in ("day", "lat", "lon", "all"):
        for grid in small:
            for down, store, units in itertools.product((False, True), ("f8", "f4", "i2"), ("hPa", "Pa", "Pascals", "kPa")):
                if quick and grid[0] == 365 and units in ("Pascals", "kPa") and store != "f8":
                    continue
                c = dict(kind=kind, grid=grid, down=down, store=store, units=units)
                if units == "Pa" and store == "f4":
                    c["var"], c["latname"] = "mslp", "latitude"
                out.append(c)
    for grid, down, store in itertools.product(small[:3], (False, True), ("f8", "f4")):
        out.append(dict(kind="rough", grid=grid, down=down, store=store, units="hPa"))
    # the size of the usual data set
    for down, store in itertools.product((False, True), ("f8", "i2")):
        out.append(dict(kind="all", grid=(365, 73, 144), down=down, store=store, units="Pascals"))
    return out


# ---- the regression -------------------------------------------------------------------------
def regression(penv, pc, lat, day):
    return COEF[0] + COEF[1] * penv + COEF[2] * pc + COEF[3] * pc * pc + COEF[4] * lat * lat + \
        COEF[5] * math.cos(2 * math.pi * day / 365.)


MISS = -9999.


def poci_text():
    from Utilities.loadData import getPoci
    rows = list(itertools.product((1000., 1005., 1010., 1014.5), (900., 950., 985., 1005., 1012., MISS),
                                  (-30., -12., 5., 21.), (1., 32., 182.5, 365.), (0., 2.5, -4.)))
    n = 0
    for eps in (0., 2.5, -4.):
        sub = np.array([r for r in rows if r[4] == eps])
        try:
            got = np.asarray(getPoci(sub[:, 0].copy(), sub[:, 1].copy(), sub[:, 2].copy(), sub[:, 3].copy(), eps, missingValue=MISS), float)
        except Exception as e:
            return "getPoci failed: %s: %s" % (type(e).__name__, str(e)[:150]), n
        for r, g in zip(sub, got):
            n += 1
            none = r[1] == MISS or r[0] < r[1]
            try:
                one = float(getPoci(r[0], r[1], r[2], r[3], eps, missingValue=MISS))
            except Exception as e:
                return "getPoci of one record failed: %s: %s" % (type(e).__name__, str(e)[:150]), n
            for name, v in (("among others", g), ("alone", one)):
                want = float("nan") if none else regression(*r[:4]) + eps
                if math.isnan(want) != math.isnan(v) or abs(v - want) > 1e-6 * abs(want):
                    return "the outer pressure of %s is %s %s instead of %s" % (
                        dict(zip(("mean", "central", "lat", "day", "eps"), r.tolist())), v, name, want), n
    return None, n


# ---- best-track tables ----------------------------------------------------------------------
def track_cases(quick):
    codes = (950., 985., "", 1040.)
    out = []
    for n in (1, 2, 3):
        for ps in itertools.product(codes, repeat=n):
            for src in ("sampled", "penv", "poci"):
                for south in (True, False):
                    for k, (start, hours) in enumerate(((datetime.datetime(1985, 1, 20, 6), 6.), (datetime.datetime(1984, 12, 31, 0), 12.),
                                                        (datetime.datetime(1988, 2, 28, 18), 3.), (datetime.datetime(1990, 8, 5, 12), 30.))):
                        if quick and n == 3 and k % 2 != (south + len([p for p in ps if p == ""])) % 2:
                            continue
                        out.append(dict(ps=ps, src=src, south=south, start=start, hours=hours, eps=(0., 3.25, -2.)[k % 3]))
    return out


def rows_of(c):
    """Two storms: the second always has the same known pressures."""
    out = []
    for k in range(2):
        ps = c["ps"] if k == 0 else (990., 962.)
        t, x, y = c["start"] + datetime.timedelta(days=4 * k), 112.4 + 40 * k, 12.2 + 3 * k
        for i, p in enumerate(ps):
            out.append(dict(num=k + 1, t=t, lon=x, lat=-y if c["south"] else y, p=p, penv=1009.5 + k - 0.75 * i, poci=1004. + 2 * k - i))
            t, x, y = t + datetime.timedelta(hours=c["hours"]), x + 0.6, y + 0.35
    return out


def track_text(c, d, mslp, grid):
    from Evaluate.interpolateTracks import parseTracks
    from Utilities import config as cfg
    from Utilities.loadData import loadTrackFile
    rows = rows_of(c)
    cols = ["num", "season", "date", "lat", "lon", "pressure"] + ([c["src"]] if c["src"] != "sampled" else [])
    path, ini = os.path.join(d, "t.csv"), os.path.join(d, "t.ini")
    with open(path, "w") as fh:
        fh.write("heading\n")
        for r in rows:
            v = [r["num"], c["start"].year, r["t"].strftime("%Y-%m-%d %H:%M:%S"), "%.3f" % r["lat"], "%.3f" % r["lon"], r["p"]]
            if c["src"] != "sampled":
                v.append(r[c["src"]])
            fh.write(",".join("%s" % x for x in v) + "\n")
    world.write_config(ini, {"SRC": {"Columns": ",".join(cols), "FieldDelimiter": ",", "NumberOfHeadingLines": 1, "PressureUnits": "hPa",
                                     "LengthUnits": "km", "SpeedUnits": "mps", "DateFormat": "%Y-%m-%d %H:%M:%S"},
                             "Input": {"MSLPFile": mslp, "MSLPVariableName": "slp"},
                             "Output": {"Path": d}})
    old = np.random.normal
    np.random.normal = lambda loc=0., scale=1., size=None: c["eps"] if size is None else np.full(size, c["eps"])
    try:
        cfg.reset()
        tracks = loadTrackFile(ini, path, "SRC")
        cfg.reset()
        fine = parseTracks(ini, path, "SRC", 1.0)
    except Exception as e:
        return "loading failed: %s: %s" % (type(e).__name__, str(e)[:150]), None
    finally:
        np.random.normal = old
        cfg.reset()
    groups = [[r for r in rows if r["num"] == k] for k in (1, 2)]
    if [len(t.data) for t in tracks] != [len(g) for g in groups]:
        return "tracks of %s records instead of %s" % ([len(t.data) for t in tracks], [len(g) for g in groups]), None
    kinds = set()
    tol = 0.66 * tolerance("all", grid)
    for t, g, f in zip(tracks, groups, fine):
        e = np.asarray(t.EnvPressure, float)
        known = []
        for i, r in enumerate(g):
            day = float(r["t"].strftime("%j"))
            hour = r["t"].hour / 24.
            if c["src"] == "poci":
                want, w = r["poci"], 1e-3
            else:
                penv = r["penv"] if c["src"] == "penv" else float(clim("all", day + hour, r["lat"], r["lon"]))
                none = r["p"] == "" or r["p"] > penv
                want = float("nan") if none else regression(penv, r["p"], r["lat"], day) + c["eps"]
                # the day may be counted with or without its hours
                w = (0.02 if c["src"] == "penv" else tol) + abs(COEF[5]) * 2 * math.pi / 365.
            if math.isnan(want):
                kinds.add("unknown")
                if not math.isnan(e[i]):
                    return "record %d has a surrounding pressure of %.3f, but its central pressure is %s" % (i + 1, e[i], r["p"] or "missing"), None
            else:
                known.append((r["t"], e[i]))
                kinds.add("known")
                if not abs(e[i] - want) <= w:
                    return "record %d has a surrounding pressure of %.3f instead of %.3f" % (i + 1, e[i], want), None
        v = np.asarray(f.EnvPressure, float)
        if len(g) < 2:
            continue
        if not known:
            kinds.add("none known")
            continue
        if np.isnan(v).any():
            return "the interpolated track has no surrounding pressure at %d of %d times" % (np.isnan(v).sum(), len(v)), None
        at = list(f.Datetime)
        for tm, p in known:
            if tm in at and not abs(v[at.index(tm)] - p) <= 0.02:
                return "the interpolated surrounding pressure at %s is %.3f instead of %.3f" % (tm, v[at.index(tm)], p), None
        for (ta, pa), (tb, pb) in zip(known, known[1:]):
            for tm, x in zip(at, v):
                if ta < tm < tb and not min(pa, pb) - 0.02 <= x <= max(pa, pb) + 0.02:
                    return "the interpolated surrounding pressure at %s is %.3f, between %.3f and %.3f" % (tm, x, pa, pb), None
        kinds.add("interpolated" + (" over a gap" if len(known) < len(g) else ""))
    return None, sorted(kinds)


# ---- simulated tracks -----------------------------------------------------------------------
SIM = {"all": ((365, 73, 144), {"TimeStep": 1.0, "NumTimeSteps": 60}), "place": ((2, 360, 720), {"TimeStep": 1.0, "NumTimeSteps": 60}),
       "placenorth": ((2, 360, 720), {"TimeStep": 1.0, "NumTimeSteps": 60}),
       "season": ((365, 18, 36), {"TimeStep": 6.0, "NumTimeSteps": 60})}


def sim_world(base, kind, south, down):
    from . import c19
    d = os.path.join(base, "s%s%d%d" % (kind, south, down))
    os.makedirs(d)
    y = (-30., -5.) if south else (5., 30.)
    inp, proc = pipe.model(d, south=south, land=c19.stripes, mask=dict(step=c19.STEP, x0=105., x1=126., y0=y[0], y1=y[1]))
    write(os.path.join(inp, "mslp.nc"), dict(kind=kind, grid=SIM[kind][0], down=down, store="i2" if down else "f8", units="Pa" if down else "hPa"))
    return dict(kind=kind, inp=inp, proc=proc, south=south, down=down, over=SIM[kind][1])


def sim_scripts(kind, quick):
    out = []
    levels = (0.02, 0.25, 0.75, 0.95, 0.98, 0.985, 0.99, 0.995, 0.999) if kind == "season" else (0.02, 0.98)
    for a, b in itertools.product((0.1, 0.5, 0.9), repeat=2):
        base = [0.5, a, b] + [0.5] * 40
        for k in range(0, 14 if quick else 40):
            for v in levels:
                s = list(base)
                s[k] = v
                out.append(s[:max(k + 1, 3)])
    return out


def sim_job(j):
    from . import c19
    w, scripts, out = j
    r = c19.run_batch(w, scripts, 1, out)
    if r[0] == "failed":
        return "track generation failed: %s" % (r[2],), scripts[r[1]] if r[1] is not None else scripts[0], 0, Counter()
    tol = 0.66 * tolerance(w["kind"], SIM[w["kind"]][0])
    seen = Counter()
    n = 0
    for s, (tracks, used) in zip(scripts, r[1]):
        for tid, times, t in tracks:
            res = []
            for i, tm in enumerate(times):
                day = float(tm.strftime("%j")) + tm.hour / 24.
                penv = float(clim(w["kind"], day, t["Latitude"][i], t["Longitude"][i]))
                res.append(t["EnvPressure"][i] - regression(penv, t["CentralPressure"][i], t["Latitude"][i], day))
                n += 1
            if max(res) - min(res) > 2 * tol + 0.05:
                i = int(np.argmax(np.abs(np.array(res) - res[0])))
                return "the surrounding pressure is %.2f hPa off the climatology at point 1 and %.2f at point %d (%s)" % (
                    res[0], res[i], i + 1, tid), s, n, seen
            mid = (max(res) + min(res)) / 2.
            if len(used) < rng.Scripts.patience:
                from scipy.special import ndtri
                eps = {round(2.5717 * float(ndtri(q)), 6) for q in set(used) if 0 < q < 1}
                near = [e for e in eps if abs(mid - e) <= tol + 0.1]
                if not near:
                    return "the surrounding pressure is %.2f hPa off the climatology all along the track, the deviates give %s" % (mid, sorted(eps)), s, n, seen
                seen["%s, offset %.1f" % (w["kind"], near[0])] += 1
                year = [float(tm.strftime("%j")) for tm in times]
                if max(year) - min(year) > 180:
                    seen["%s, over the new year" % w["kind"]] += 1
            else:
                seen["other deviates"] += 1
    return None, None, n, seen


# ---- running --------------------------------------------------------------------------------
def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, seen, n = [], Counter(), 0
    if job["what"] == "sim":
        text, script, n, seen = sim_job(job["sim"])
        if text:
            bad.append((text, dict(what="sim", kind=job["sim"][0]["kind"], south=job["sim"][0]["south"], down=job["sim"][0]["down"], script=script)))
        return bad, Counter({"simulated tracks: %s" % k: v for k, v in seen.items()}), n
    for c in job["cases"]:
        if job["what"] == "sampler":
            path = write(os.path.join(d, "m.nc"), c)
            text, k = sampler_text(c, path)
            os.remove(path)
            n += k
            seen["sampled: %s" % c["kind"]] += 1
        elif job["what"] == "poci":
            text, k = poci_text()
            n += k
            seen["regression"] += k
        else:
            text, k = track_text(c, d, job["mslp"], job["grid"])
            n += 1
            seen["tables, %s: %s" % (c["src"], ", ".join(k or ()))] += 1
        if text:
            bad.append((text, dict(what=job["what"], case=dict(c, start=c["start"].isoformat()) if "start" in c else c)))
            break
    shutil.rmtree(d, ignore_errors=True)
    return bad, seen, n


GRID = (365, 37, 72)


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mpi.install()
    ext.install(ext.build_all())
    import scipy.stats, statsmodels.api                              # noqa: F401,E401
    rng.install()
    import TrackGenerator.TrackGenerator                              # noqa: F401
    import Evaluate.interpolateTracks                                 # noqa: F401
    from Utilities.parallel import attemptParallel
    mpi.solo()
    attemptParallel()
    d = ctx.mkdir("c30")
    mslp = write(os.path.join(d, "mslp.nc"), dict(kind="all", grid=GRID, down=True, store="i2", units="Pascals"))
    if ctx.replay is not None:
        r = ctx.replay
        if r["what"] == "sim":
            w = sim_world(d, r["kind"], r["south"], r["down"])
            job = dict(what="sim", dir=d, sim=(w, [r["script"]], os.path.join(d, "o")))
        else:
            c = dict(r["case"])
            if "start" in c:
                c.update(start=datetime.datetime.fromisoformat(c["start"]), ps=tuple(c["ps"]))
            if "grid" in c:
                c["grid"] = tuple(c["grid"])
            job = dict(what=r["what"], dir=d, cases=[c], mslp=mslp, grid=GRID)
        for text, case in work(job)[0]:
            ctx.violation(text, case)
        return
    quick = not ctx.thorough
    sc, tc = sampler_cases(quick), track_cases(quick)
    worlds = common.pmap(lambda a: sim_world(d, *a), [
        ("all", True, True), ("place", True, False), ("placenorth", False, True), ("season", True, False), ("season", False, True)])
    jobs = [dict(what="poci", dir=d, cases=[{}])]
    jobs += [dict(what="sampler", dir=d, cases=p) for p in common.chunks(sc, 64)]
    jobs += [dict(what="tracks", dir=d, cases=p, mslp=mslp, grid=GRID) for p in common.chunks(tc, 48)]
    for w in worlds:
        for k, p in enumerate(common.chunks(sim_scripts(w["kind"], quick), 8)):
            jobs.append(dict(what="sim", dir=d, sim=(w, p, os.path.join(d, "o%s%d%d" % (w["kind"], w["south"], k)))))
    seen = Counter()
    for job, res in zip(jobs, common.pmap(work, jobs, stop=lambda r: bool(r[0]))):
        if res is None:
            continue
        bad, s, n = res
        seen.update(s)
        ctx.add(**{{"sampler": "points_sampled", "poci": "regressions", "tracks": "tables", "sim": "track_points"}[job["what"]]: n})
        for text, case in bad:
            ctx.violation(text, case)
    ctx.explored(sum(seen.values()), seen, "climatology files, best-track tables, simulated tracks and regressions; distinct = kinds of these")
    ctx.cov["by_kind"] = dict(sorted(seen.items()))
    if not ctx.violations and (len([k for k in seen if "offset" in k]) < 3 or not any("new year" in k for k in seen)):
        raise common.CheckError("the simulated storms have too few different offsets or days: %s" % (dict(seen),))
    ctx.sample("climatology %s" % (sc[-1],))
    ctx.sample("table %s" % ({k: str(v) for k, v in tc[-1].items()},))
    ctx.sample("script %s" % (sim_scripts("all", quick)[-1],))
    ctx.assumptions = ["files whose longitudes do not run from 0 to 360 degrees are left out",
                       "a sampled pressure may be that of the next grid point and of two days earlier or later"]
