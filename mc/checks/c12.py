"""C12: the wind field evolution file holds every step at its place and time.

Every sequence of steps up to a length, over an alphabet of windows (whole grid, parts,
edges, single cells) and time increments, is given to the real writer; after every step
the bytes on disk are copied and read.  Sequences of storm states are also run through
wind.run with the evolution switched on and compared with the event's gust file."""
import datetime
import itertools
import logging
import os
import shutil

import netCDF4
import numpy as np

from .. import common, mpi, world
from . import c10

NAMES = ("gust_speed", "velocity_east", "velocity_north", "pressure")
T0 = datetime.datetime(2003, 2, 27, 22, 30, 15)
DT = (datetime.timedelta(hours=1), datetime.timedelta(minutes=7, seconds=30), datetime.timedelta(days=2, hours=5))


class Grid:
    def __init__(self, x0, x1, y0, y1, res, margin, maxchunk=256):
        self.lim = dict(xMin=x0, xMax=x1, yMin=y0, yMax=y1)
        self.res, self.margin, self.maxchunk = res, margin, maxchunk
        nx = int(np.ceil((x1 - x0 + 2 * margin) / res - 1e-6)) + 1
        ny = int(np.ceil((y1 - y0 + 2 * margin) / res - 1e-6)) + 1
        self.lon = x0 - margin + res * np.arange(nx)
        self.lat = y0 - margin + res * np.arange(ny)
        # (first row, last row + 1, first column, last column + 1)
        self.windows = {"A": (0, ny, 0, nx), "b": (0, 1, 0, 1), "c": (ny - 1, ny, nx - 1, nx), "d": (1, 3, 0, 2),
                        "e": (ny - 2, ny, 1, 3), "f": (1, 2, 1, nx)}


GRIDS = [Grid(112., 113., -20., -19., 0.5, 0.5), Grid(150.3, 151.1, 9.7, 10.3, 0.2, 0.0, 2),
         Grid(-1., 0.5, -1., 0.5, 0.25, 0.25, 3), Grid(0., 1., -2., 0., 0.3, 0.0),
         Grid(359., 361., 0., 1., 0.5, 1.0)]


def layer(k, shape, n):
    """Distinct values for step k, variable n."""
    j, i = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    v = 100. * (k + 1) + 10. * j + i + 0.25 * n
    return -v if n == 1 else v


def read_copy(path, tmp):
    shutil.copyfile(path, tmp)
    with netCDF4.Dataset(tmp) as ds:
        ds.set_auto_mask(False)
        t = ds.variables["time"]
        out = {n: np.array(ds.variables[n][:]) for n in NAMES + ("lat", "lon")}
        out["times"] = [d for d in netCDF4.num2date(t[:], t.units, getattr(t, "calendar", "standard"))] if len(t) else []
        out["fill"] = {n: getattr(ds.variables[n], "_FillValue", None) for n in NAMES}
    return out


def check_content(got, grid, steps, what):
    """steps: [(time, window, arrays)]"""
    if got["lon"].shape != grid.lon.shape or not np.allclose(got["lon"], grid.lon, atol=1e-4):
        return "%s: longitudes %s instead of %s" % (what, got["lon"].tolist(), grid.lon.tolist())
    if got["lat"].shape != grid.lat.shape or not np.allclose(got["lat"], grid.lat, atol=1e-4):
        return "%s: latitudes %s instead of %s" % (what, got["lat"].tolist(), grid.lat.tolist())
    if len(got["times"]) != len(steps):
        return "%s: %d layers" % (what, len(got["times"]))
    for k, (t, w, arrs) in enumerate(steps):
        g = got["times"][k]
        g = datetime.datetime(g.year, g.month, g.day, g.hour, g.minute, g.second, g.microsecond)
        if abs((g - t).total_seconds()) > 0.5:
            return "%s: layer %d is at time %s instead of %s" % (what, k, g, t)
        for n, a in zip(NAMES, arrs):
            fill = got["fill"][n]
            want = np.full((len(grid.lat), len(grid.lon)), np.nan if fill is None else fill, dtype="f4")
            want[w[0]:w[1], w[2]:w[3]] = a
            if got[n][k].shape != want.shape or not np.array_equal(got[n][k], want, equal_nan=True):
                return "%s: %s of layer %d (window %s) is %s instead of %s" % (
                    what, n, k, w, got[n][k].tolist(), want.tolist())
    return None


def run_seq(d, gi, seq):
    """seq: [(window, time increment)].  A text or None, and the number of states seen."""
    from wind.writer import WriteFoliationCallback
    grid = GRIDS[gi]
    path, tmp = os.path.join(d, "e.nc"), os.path.join(d, "copy.nc")
    seen = []

    def inner(*a, **k):
        seen.append((a, k))
    cb = WriteFoliationCallback(path, grid.lim, grid.res, margin=grid.margin, maxchunk=grid.maxchunk, wraps=inner)
    t = T0
    steps = []
    text = None
    try:
        for k, (w, dt) in enumerate(seq):
            win = grid.windows[w]
            arrs = [layer(k, (win[1] - win[0], win[3] - win[2]), n) for n in range(4)]
            lon, lat = grid.lon[win[2]:win[3]], grid.lat[win[0]:win[1]]
            keep = [a.copy() for a in arrs]
            cb(t, *arrs, lon, lat)
            steps.append((t, win, keep))
            if len(seen) != k + 1:
                return "the inner callback was called %d times for %d steps" % (len(seen), k + 1), k
            a = seen[-1][0] + tuple(seen[-1][1].values())
            if a[0] != t or not all(np.array_equal(x, y) for x, y in zip(a[1:], keep + [lon, lat])):
                return "the inner callback got other values than the step's", k
            text = check_content(read_copy(path, tmp), grid, steps, "after step %d" % (k + 1))
            if text:
                return text, k
            t = t + DT[dt]
    finally:
        ds = getattr(cb, "ds", None)
        if ds is not None:
            ds.close()
    return check_content(read_copy(path, tmp), grid, steps, "after closing"), len(seq)


def job(j):
    d, gi, seqs = j
    os.makedirs(d, exist_ok=True)
    st = dict(n=0, layers=0, outcomes=set(), bad=[])
    for s in seqs:
        try:
            text, n = run_seq(d, gi, s)
        except Exception as e:
            text, n = "failed: %s: %s" % (type(e).__name__, e), 0
        st["n"] += 1
        st["layers"] += n
        st["outcomes"].add((gi, s))
        if text:
            st["bad"].append((text, {"grid": gi, "seq": s}))
            break
    shutil.rmtree(d, ignore_errors=True)
    return st


# -- through wind.run ---------------------------------------------------------

def read_full(path):
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        t = ds.variables["time"]
        out = {n: np.array(ds.variables[n][:]) for n in NAMES + ("lat", "lon")}
        out["times"] = [str(d)[:16] for d in netCDF4.num2date(t[:], t.units, getattr(t, "calendar", "standard"))] \
            if len(t) else []
    return out


def e2e_run(out, setup, seqs, extra=None):
    shutil.rmtree(out, ignore_errors=True)
    for s in ("tracks", "windfield", "process/timeseries"):
        os.makedirs(os.path.join(out, s))
    tracks = [setup.track(k + 1, s) for k, s in enumerate(seqs)]
    world.tracks_nc(os.path.join(out, "tracks", "tracks.00001.nc"), tracks)
    cfg = setup.config(out)
    with open(cfg, "a") as fh:
        fh.write("[Timeseries]\nWindfields=True\n%s\n" % (extra or ""))
    r = common.call_forked(c10.wind_run, cfg, timeout=600)
    if r[0] != "ok":
        return "wind.run failed: %s" % " ".join(map(str, r[1:3])), tracks
    return None, tracks


def e2e_job(j):
    out, name, seqs = j
    setup = c10.SETUP[name]
    st = dict(n=0, layers=0, outcomes=set(), bad=[])
    text, tracks = e2e_run(out, setup, seqs)
    if text:
        st["bad"].append((text, {"setup": name, "seq": seqs[0]}))
        return st
    for k, s in enumerate(seqs):
        gf = os.path.join(out, "windfield", "gust.%03d-00001.nc" % (k + 1))
        ef = os.path.join(out, "windfield", "evolution.%03d-00001.nc" % (k + 1))
        st["n"] += 1
        st["outcomes"].add((name, s))
        inside = [i for i, x in enumerate(s) if setup.inside(x)]
        if not os.path.exists(ef):
            if inside:
                st["bad"].append(("no evolution file", {"setup": name, "seq": s}))
                break
            continue
        text = common.judge(lambda: compare(setup, tracks[k], inside, world.read_nc(gf), read_full(ef)))
        st["layers"] += len(inside)
        if text:
            st["bad"].append((text, {"setup": name, "seq": s}))
            break
    shutil.rmtree(out, ignore_errors=True)
    return st


def compare(setup, track, inside, gust, evo):
    want = [str(track["time"][i])[:16] for i in inside]
    if evo["times"] != want:
        return "times of the evolution file are %s, the storm is in the region at %s" % (evo["times"], want)
    if not inside:
        return None
    if evo["lon"].shape != gust["lon"].shape or evo["lat"].shape != gust["lat"].shape or \
            not np.allclose(evo["lon"], gust["lon"], atol=0.01) or \
            not np.allclose(evo["lat"], gust["lat"][::-1], atol=0.01):
        return "the grid of the evolution file is not that of the event"
    g = np.where(np.isnan(evo["gust_speed"]), 0, evo["gust_speed"])
    if not np.allclose(g.max(0), gust["vmax"][::-1], rtol=1e-5, atol=1e-5):
        return "the largest gusts of the evolution file are not the gusts of the event"
    p = np.where(np.isnan(evo["pressure"]), 9e9, evo["pressure"]).min(0)
    p = np.minimum(p, c10.ENV * 100.)
    if not np.allclose(p, gust["slp"][::-1], rtol=1e-5):
        return "the lowest pressures of the evolution file are not those of the event"
    k = g.argmax(0)
    gs = np.sort(g, axis=0)
    clear = (gs[-1] > 0) & ((len(g) == 1) | (gs[-1] - gs[max(-2, -len(g))] > 1e-3))
    for a, b in (("velocity_east", "ua"), ("velocity_north", "va")):
        v = np.take_along_axis(evo[a], k[None], 0)[0]
        if not np.allclose(v[clear], gust[b][::-1][clear], rtol=1e-5, atol=1e-4):
            return "wind components of the evolution file and of the event differ"
    return None


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import inspect
    inspect.stack()
    import wind  # noqa
    rule = "different sequences of windows and times"
    if ctx.replay:
        r = ctx.replay
        if "grid" in r:
            st = job((ctx.mkdir("r"), r["grid"], [tuple(map(tuple, r["seq"]))]))
        else:
            st = e2e_job((os.path.join(ctx.scratch, "r"), r["setup"], [r["seq"]]))
        for text, case in st["bad"]:
            ctx.violation(text, r)
        return
    jobs = []
    for gi, g in enumerate(GRIDS):
        sym = [(w, d) for w in sorted(g.windows) for d in range(3)]
        seqs = [p for k in (1, 2) for p in itertools.product(sym, repeat=k)]
        few = [(w, 0) for w in (sorted(g.windows) if gi == 0 or ctx.thorough else "Abe")]
        seqs += list(itertools.product(few, repeat=3))
        seqs += list(itertools.product([("A", 0), ("d", 2), ("c", 1)], repeat=ctx.pick(4, 6)))
        # longer runs, with two windows in turn
        for n in ctx.pick((9, 17), (8, 9, 10, 16, 17, 18, 33, 65)):
            for per in itertools.product([("A", 0), ("d", 2), ("c", 1)], repeat=2):
                seqs.append(tuple(per[i % 2] for i in range(n)))
        for c in common.chunks(seqs, 8):
            jobs.append((os.path.join(ctx.scratch, "d%d" % len(jobs)), gi, c))
    layers = 0
    for j, r in zip(jobs, common.pmap(job, jobs, stop=lambda r: bool(r["bad"]))):
        if r is None:
            continue
        ctx.explored(r["n"], r["outcomes"], rule)
        layers += r["layers"]
        for text, case in r["bad"]:
            ctx.violation("grid %d, steps %s: %s" % (case["grid"], case["seq"], text[:600]), case)
        ctx.sample({"grid": j[1], "sequence": j[2][-1]}, limit=4)
    jobs = []
    for s in c10.SETUPS:
        if s.name == "finest":
            continue
        a = "smebx" if not ctx.thorough else sorted(s.steps)
        seqs = ["".join(p) for k in (1, 2) for p in itertools.product(a, repeat=k)] + \
               ["".join(p) for p in itertools.product("sme", repeat=3)]
        jobs += [(os.path.join(ctx.scratch, "w%d-%s" % (i, s.name)), s.name, c)
                 for i, c in enumerate(common.chunks(seqs, 3))]
    for j, r in zip(jobs, common.pmap(e2e_job, jobs)):
        ctx.explored(r["n"], r["outcomes"], rule)
        layers += r["layers"]
        for text, case in r["bad"]:
            ctx.violation("wind.run %s, time steps %s: %s" % (case["setup"], case["seq"], text[:600]), case)
        ctx.sample({"setup": j[1], "sequence": j[2][-1]}, limit=8)
    ctx.cov["layers_compared"] = layers
    ctx.assumptions += ["what is on disk after a step is what a reader sees: the bytes are copied and read"]
