"""C29: multipliers prepared from raw tiles.

The command line program makes the multiplier maps of the eight directions from the tiles
asked for and applies them.  All sets of tiles of a small block, overlapping tiles, all
patterns of missing values in one cell, all pairs of successive runs in one working folder
and every interruption of a run followed by another one go through the real program; maps
and local winds are compared with products computed here."""
import itertools
import logging
import os
import shutil
import sys

import numpy as np

from .. import common
from .c06 import COMPASS, DIRNS, components, nearest

KINDS = (("shielding", "Ms"), ("terrain", "Mz"), ("topographic", "Mt"))
DL, X0, YTOP, N = 0.25, 150.0, -20.0, 2
ROWS = COLS = 3 * N
# name: (first row, first column, rows, columns) on the block
TILES = {"e150.0s20.0": (0, 0, N, N), "e150.5s20.0": (0, N, N, N), "e150.0s20.5": (N, 0, N, N),
         "e150.5s20.5": (N, N, N, N), "e151.0s20.5": (N, 2 * N, N, N),
         "wide150.0": (0, 0, N, N + 1), "tall150.0": (0, 0, 2 * N, N)}
A, B, C, D, E, WIDE, TALL = TILES
FILL = -9999.0


def factor(kind, dirn, row, col):
    """Multiplier of a kind and direction at a cell of the block."""
    return 1.0 + (COMPASS.index(dirn) + 1) / 16.0 * (1, 2, 4)[kind] + (row * COLS + col) / 64.0 * (kind + 1)


def raw(base, holes, up):
    """The raw tiles; holes: (tile, kind, row, column) of missing cells, up: rows from the south."""
    import netCDF4
    for k, (folder, var) in enumerate(KINDS):
        os.makedirs(os.path.join(base, folder))
        for tile, (r0, c0, nr, nc) in TILES.items():
            for dirn in DIRNS:
                a = np.array([[factor(k, dirn, r, c) for c in range(c0, c0 + nc)] for r in range(r0, r0 + nr)])
                for t, kind, r, c in holes:
                    if t == tile and kind == k:
                        a[r - r0, c - c0] = FILL
                lat = YTOP - DL * (r0 + 0.5 + np.arange(nr))
                if up:
                    a, lat = a[::-1], lat[::-1]
                with netCDF4.Dataset(os.path.join(base, folder, "%s_%s_%s.nc" % (tile, var.lower(), dirn)), "w") as ds:
                    ds.createDimension("lat", nr)
                    ds.createDimension("lon", nc)
                    for name, v, unit in (("lat", lat, "degrees_north"),
                                          ("lon", X0 + DL * (c0 + 0.5 + np.arange(nc)), "degrees_east")):
                        x = ds.createVariable(name, "f8", (name,))
                        x[:] = v
                        x.units = unit
                    ds.createVariable(var, "f4", ("lat", "lon"), fill_value=FILL)[:] = a


def wind():
    """Regional winds on the block: speed and direction of each cell."""
    speed = np.array([[20.0 + r + 0.125 * c for c in range(COLS)] for r in range(ROWS)])
    deg = np.array([[(45.0 * (r * 3 + c) + 10.0) % 360 for c in range(COLS)] for r in range(ROWS)])
    return speed, deg


def gust(path):
    import netCDF4
    speed, deg = wind()
    u, v = np.zeros_like(speed), np.zeros_like(speed)
    for k in range(speed.size):
        u.flat[k], v.flat[k] = components(deg.flat[k], speed.flat[k])
    with netCDF4.Dataset(path, "w") as ds:
        ds.createDimension("lat", ROWS)
        ds.createDimension("lon", COLS)
        ds.createVariable("lat", "f8", ("lat",))[:] = YTOP - DL * (0.5 + np.arange(ROWS))
        ds.createVariable("lon", "f8", ("lon",))[:] = X0 + DL * (0.5 + np.arange(COLS))
        for name, a in (("vmax", speed), ("ua", u), ("va", v)):
            ds.createVariable(name, "f8", ("lat", "lon"))[:] = a


def program(w, run, stop=None):
    """Run the program; with `stop`, the process ends before that event.  Returns the number of events."""
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
    ini = os.path.join(w, "c.ini")
    with open(ini, "w") as fh:
        fh.write("[Input]\nGust_file = %s\nRawMultipliers = %s/\nTiles = %s\n" % (
            os.path.join(w, "gust.nc"), os.path.join(w, "raw"), ", ".join(run["tiles"])))
        fh.write("[Output]\nWorking_dir = %s/\n" % os.path.join(w, "out"))
        fh.write("[Logging]\nLogFile = %s\nLogLevel = ERROR\nVerbose = False\nDatestamp = False\n" %
                 os.path.join(w, "log.txt"))
        fh.write("[ProcessMultipliers]\nProcessMultiVersion = %d\nMaxWorkingThreads = 2\n" % run["version"])
    from Utilities import config
    config.reset()
    from ProcessMultipliers import processMultipliers as pM
    real = os.path.realpath(w)
    state = dict(n=0, on=False)

    def hook(name, args):
        # what changes the working folder: commands, folders, files made and removed
        if not state["on"] or name not in ("os.system", "subprocess.Popen", "os.posix_spawn", "os.mkdir", "os.remove",
                                           "os.rmdir", "os.rename", "shutil.copyfile", "shutil.rmtree"):
            return
        if name in ("os.remove", "os.rmdir", "os.rename", "shutil.rmtree") and \
                not os.path.realpath(os.fsdecode(args[0])).startswith(real + os.sep):
            raise PermissionError("%s of %r outside the working folder" % (name, args[0]))
        if state["n"] == stop:
            os._exit(77)
        state["n"] += 1

    sys.addaudithook(hook)
    sys.argv = ["processMultipliers", "-c", ini]
    state["on"] = True
    pM.run()
    state["on"] = False
    return state["n"]


def read(path):
    from osgeo import gdal
    gdal.UseExceptions()
    ds = gdal.Open(path)
    band = ds.GetRasterBand(1)
    a, nodata, gt = band.ReadAsArray(), band.GetNoDataValue(), ds.GetGeoTransform()
    ds = None
    return a, nodata, gt


def expect(tiles, holes):
    """Box of the tiles and, per direction, the products (nan: missing)."""
    r0, c0 = min(TILES[t][0] for t in tiles), min(TILES[t][1] for t in tiles)
    r1, c1 = max(TILES[t][0] + TILES[t][2] for t in tiles), max(TILES[t][1] + TILES[t][3] for t in tiles)
    out = {}
    for dirn in DIRNS:
        m = np.ones((r1 - r0, c1 - c0))
        for k in range(3):
            for r, c in itertools.product(range(r0, r1), range(c0, c1)):
                have = [t for t in tiles if TILES[t][0] <= r < TILES[t][0] + TILES[t][2]
                        and TILES[t][1] <= c < TILES[t][1] + TILES[t][3] and (t, k, r, c) not in holes]
                m[r - r0, c - c0] *= factor(k, dirn, r, c) if have else float("nan")
        out[dirn] = m
    return (r0, c0), out


def judge(w, tiles, holes):
    (r0, c0), want = expect(tiles, holes)
    maps = {}
    for name in ["m4_%s" % d for d in DIRNS] + ["local_wind"]:
        path = os.path.join(w, "out", name + ".tif")
        if not os.path.exists(path):
            return "%s.tif was not written" % name
        a, nodata, gt = read(path)
        if a.shape != want["n"].shape:
            return "%s has %d x %d cells, the tiles %d x %d" % ((name,) + a.shape + want["n"].shape)
        if abs(gt[0] - (X0 + c0 * DL)) > 1e-6 or abs(gt[3] - (YTOP - r0 * DL)) > 1e-6 or abs(gt[1] - DL) > 1e-6:
            return "%s lies at (%s, %s)" % (name, gt[0], gt[3])
        maps[name] = np.where(a == nodata, np.nan, a) if nodata is not None else a
    for d in DIRNS:
        for (j, i), x in np.ndenumerate(want[d]):
            y = maps["m4_%s" % d][j, i]
            if not (np.isnan(x) and np.isnan(y) or abs(x - y) <= 1e-5 * x):
                return "multiplier for wind from %s at row %d, column %d of the block is %s, not %s" % (
                    d, j + r0, i + c0, y, x)
    speed, deg = wind()
    for (j, i), y in np.ndenumerate(maps["local_wind"]):
        s = speed[j + r0, i + c0]
        ok = [s if np.isnan(want[d][j, i]) else s * want[d][j, i] for d in nearest(deg[j + r0, i + c0])]
        if not any(abs(y - x) <= 1e-4 * x for x in ok):
            return "local wind at row %d, column %d of the block is %s, not %s" % (j + r0, i + c0, y, ok[0])
    return None


def snapshot(d):
    return {os.path.relpath(os.path.join(p, f), d): open(os.path.join(p, f), "rb").read()
            for p, _, fs in os.walk(d) for f in fs}


def forked(what, *args):
    r = common.call_forked(*args, timeout=240)
    if r[0] == "timeout":
        return None, "%s does not end" % what
    if r[0] == "exc":
        return None, "%s fails: %s: %s" % (what, r[1], r[2][:200])
    return r, None


def one(c, w):
    """All runs of a case in one working folder; returns (complaint, events of the first run)."""
    os.makedirs(w)
    os.environ["TMPDIR"] = w
    holes = [tuple(h) for h in c.get("holes", ())]
    raw(os.path.join(w, "raw"), holes, c.get("up", False))
    gust(os.path.join(w, "gust.nc"))
    before = snapshot(os.path.join(w, "raw"))
    events = 0
    for k, run in enumerate(c["runs"]):
        stop = run.get("stop")
        what = "a run for %s%s" % ("+".join(run["tiles"]), "".join(
            " after one for %s%s" % ("+".join(q["tiles"]), " ended before event %d" % q["stop"] if "stop" in q else "")
            for q in c["runs"][:k]))
        r, text = forked(what, program, w, run, stop)
        if text:
            return text, events
        if r[0] == "died":
            if stop is not None and os.WIFEXITED(r[1]) and os.WEXITSTATUS(r[1]) == 77:
                continue
            return "%s dies" % what, events
        events = r[1]
        if stop is not None:
            continue
        r, text = forked("reading the result of " + what, common.judge, judge, w, run["tiles"], holes)
        if text is None and r[0] != "ok":
            text = "the result cannot be read"
        text = text or r[1]
        if text:
            return "%s (version %d%s%s): %s" % (what, run["version"], ", tiles stored from the south" if c.get("up") else "",
                                                ", missing: %s" % holes if holes else "", text), events
    if snapshot(os.path.join(w, "raw")) != before:
        return "the raw tiles were changed", events
    return None, events


def job(j):
    c, w = j
    try:
        text, events = one(c, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return text, events, c


def run(*tiles, **kw):
    return dict(dict(tiles=list(tiles), version=2), **kw)


def cases(ctx):
    block = (A, B, C, D)
    # all sets of tiles of the block, and one beside it
    for n in range(1, 5):
        for s in itertools.combinations(block, n):
            yield dict(runs=[run(*s[::-1 if n % 2 else 1], version=1 + n % 2)])
    yield dict(runs=[run(A, E)])
    yield dict(runs=[run(D, A)], up=True)
    # overlapping tiles, one missing a value that the other has, in both orders
    for s in ((WIDE, B), (B, WIDE), (TALL, C), (C, TALL, A)):
        yield dict(runs=[run(*s)], holes=[(s[0], k, TILES[B if B in s else C][0], TILES[B if B in s else C][1])
                                          for k in range(3)])
    # missing in any of the three multipliers
    cells = [(0, 0), (0, 1), (1, 0), (1, 1), (0, N), (0, N + 1), (1, N)]
    kinds = [ks for n in (1, 2, 3) for ks in itertools.combinations(range(3), n)]
    holes = [(A if c < N else B, k, r, c) for (r, c), ks in zip(cells, kinds) for k in ks]
    for v in (1, 2):
        yield dict(runs=[run(A, B, version=v)], holes=holes)
    # successive runs in one folder
    sets = [(A,), (B, D), (A, B, C, D)]
    for p, q in itertools.product(sets, sets):
        yield dict(runs=[run(*p), run(*q, version=2 - (len(p) + len(q)) % 2)])


def main(ctx):
    logging.disable(logging.CRITICAL)
    if ctx.replay is not None:
        text, _ = one(ctx.replay, os.path.join(ctx.scratch, "r"))
        if text:
            ctx.violation(text, ctx.replay)
        return
    base = ctx.mkdir("w")
    todo = list(cases(ctx))
    whole = run(A)
    _, events, _ = job((dict(runs=[whole]), os.path.join(base, "n")))
    if not events:
        raise common.CheckError("no event was counted")
    # a run ended before any of its events, and then another run
    for k in range(events):
        todo.append(dict(runs=[run(A, stop=k), run(*((A,) if k % 2 else (D,)))]))
    runs, seen = 0, set()
    for res in common.pmap(job, [(c, os.path.join(base, str(k))) for k, c in enumerate(todo)], stop=lambda v: bool(v[0])):
        if res is None:
            continue
        text, n, c = res
        runs += len(c["runs"])
        seen.add(repr(c))
        ctx.sample(dict(case=c, events=n))
        if text:
            ctx.violation(text, c)
    ctx.explored(runs, seen, "sets of tiles, missing values, pairs of runs and interrupted runs that differ")
    ctx.level = "fault_enumeration"
    ctx.cov["interruptions"] = events
    ctx.assumptions = ["an interruption ends the program between two commands, folders made, files copied or removed",
                       "multipliers and wind field have cells of the same size"]
