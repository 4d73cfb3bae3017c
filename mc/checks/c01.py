"""C01: parallel hazard calculation.

Real `hazard.run` on 1..n ranks under the MPI explorer.  The wind field files give
every cell one of a few record profiles; the expected result of a profile comes
from a separate one-tile run in which that profile is the only non-zero cell, so
the oracle does not depend on the tiling."""
import itertools
import logging
import os
import shutil

import numpy as np

from .. import common, mpi, world

NPROF = 4
NODATA = -9999.
YEARS = "2,3,5"
VARS2 = ("loc", "scale", "shp")
VARS3 = ("wspd", "wspdupper", "wspdlower")


def profile(p, nev):
    """Wind speed records of profile p (0 = calm)."""
    if p == 0:
        return np.zeros(nev)
    k = np.arange(nev)
    return np.round(20. + 7. * p + ((k * (3 + p)) % nev) * (1.3 + 0.4 * p) +
                    0.1 * (k % 3), 3)


def pattern(ny, nx):
    """Profile of every cell: all edges of 100-cell blocks and a sprinkling
    elsewhere carry wind."""
    p = np.zeros((ny, nx), int)
    n = 1
    for j in range(ny):
        for i in range(nx):
            edge = i % 100 in (0, 99) and (j % 100 in (0, 99) or j % 7 == 3)
            if edge or (i * 7 + j * 13) % 41 == 0 or i in (0, nx - 1) and j % 5 == 0:
                p[j, i] = 1 + (n * 5 + n // 3) % (NPROF - 1)
                n += 1
    return p


def make_fields(d, lon, lat, pat, nev, nsim):
    os.makedirs(d, exist_ok=True)
    recs = np.array([profile(p, nev) for p in range(NPROF)])
    for k in range(nev):
        world.grid_nc(os.path.join(d, "gust.%03d-%05d.nc" % (k // nsim, k % nsim)),
                      lon, lat, {"vmax": recs[pat, k]})


def config(path, out, lim, evd, ci, nev, nsim):
    return world.write_config(path, {
        "Region": {"gridLimit": world.limit(*lim)},
        "TrackGenerator": {"NumSimulations": nsim, "YearsPerSimulation": 1},
        "Hazard": {"MinimumRecords": 3, "CalculateCI": bool(ci), "Years": YEARS,
                   "ExtremeValueDistribution": evd,
                   "SampleSize": (nev if evd != "GEV" else nsim) // (2 if ci == "halves" else 1),
                   "PercentileRange": 90},
        "Output": {"Path": out}})


def serial(cfg):
    mpi.solo()
    import hazard
    hazard.run(cfg)


def prog(cfg):
    def f(rank):
        import hazard
        hazard.run(cfg)
    return f


class World:
    """A set of wind field files and the expected maps."""

    def __init__(self, base, name, nx, ny, evd, ci, nev=12, nsim=8, dx=0.02,
                 margin=2, lon0=110., lat0=-20.):
        self.dir = os.path.join(base, name)
        self.nx, self.ny, self.evd, self.ci = nx, ny, evd, ci
        self.nev, self.nsim = nev, nsim
        self.lon = np.round(lon0 + dx * np.arange(-margin, nx + margin), 3)
        self.lat = np.round(lat0 + dx * np.arange(-margin, ny + margin), 3)
        self.lim = (float(self.lon[margin]), float(self.lon[nx + margin - 1]),
                    float(self.lat[margin]), float(self.lat[ny + margin - 1]))
        self.pat = pattern(ny, nx)
        full = np.full((ny + 2 * margin, nx + 2 * margin), 3)
        full[margin:ny + margin, margin:nx + margin] = self.pat
        make_fields(os.path.join(self.dir, "windfield"), self.lon, self.lat, full,
                    nev, nsim)
        self.in_lon = self.lon[margin:nx + margin]
        self.in_lat = self.lat[margin:ny + margin]

    def prepare(self, out, lim=None):
        """An output directory that shares the wind fields."""
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(os.path.join(out, "hazard"))
        os.symlink(os.path.join(self.dir, "windfield"), os.path.join(out, "windfield"))
        return config(os.path.join(out, "c.ini"), out, lim or self.lim, self.evd,
                      self.ci, self.nev, self.nsim)


def profiles_expected(base, evd, ci, nev, nsim):
    """{variable: values per profile}, each from its own one-cell run."""
    exp = {}
    for p in range(NPROF):
        d = os.path.join(base, "prof-%s-%s-%d" % (evd, ci, p))
        lon, lat = np.array([110., 110.1]), np.array([-20., -19.9])
        pat = np.array([[p, 0], [0, 0]])
        make_fields(os.path.join(d, "windfield"), lon, lat, pat, nev, nsim)
        os.makedirs(os.path.join(d, "hazard"), exist_ok=True)
        cfg = config(os.path.join(d, "c.ini"), d, (110., 110.1, -20., -19.9), evd,
                     ci, nev, nsim)
        r = common.call_forked(serial, cfg)
        if r[0] != "ok":
            return None, "single-process hazard run fails: %s" % (r,)
        out = world.read_nc(os.path.join(d, "hazard", "hazard.nc"))
        for v in VARS2:
            exp.setdefault(v, []).append(out[v][0, 0])
        for v in VARS3:
            exp.setdefault(v, []).append(out[v][:, 0, 0])
    exp = {k: np.array(v) for k, v in exp.items()}
    if ci == "halves":
        exp["limits"], err = limits_expected(os.path.join(base, "halves-%s" % evd), nev)
        if err:
            return None, err
    return exp, None


def limits_expected(d, nev):
    """{profile: (upper, lower) of every way to part its records in two samples},
    from a run in which every half of the records has a cell of its own."""
    halves = [h for h in itertools.combinations(range(nev), nev // 2)]
    lon = np.round(110. + 0.1 * np.arange(NPROF - 1), 3)
    lat = np.round(-20. + 0.1 * np.arange(len(halves)), 3)
    recs = np.array([[profile(p, nev)[list(h)] for p in range(1, NPROF)] for h in halves])
    os.makedirs(os.path.join(d, "windfield"))
    os.makedirs(os.path.join(d, "hazard"))
    for k in range(nev // 2):
        world.grid_nc(os.path.join(d, "windfield", "gust.000-%05d.nc" % k), lon, lat, {"vmax": recs[:, :, k]})
    cfg = config(os.path.join(d, "c.ini"), d, (float(lon[0]), float(lon[-1]), float(lat[0]), float(lat[-1])),
                 "GEV", False, nev // 2, nev // 2)
    r = common.call_forked(serial, cfg)
    if r[0] != "ok":
        return None, "single-process hazard run fails: %s" % (r,)
    level = world.read_nc(os.path.join(d, "hazard", "hazard.nc"))["wspd"]
    at = {h: n for n, h in enumerate(halves)}
    out = {}
    for p in range(1, NPROF):
        rows = set()
        for h in halves:
            rest = tuple(k for k in range(nev) if k not in h)
            up, lo = [], []
            for y in range(level.shape[0]):
                v = [x for x in (level[y, at[h], p - 1], level[y, at[rest], p - 1]) if x != NODATA]
                up.append(np.percentile(v, 95) if v else NODATA)
                lo.append(np.percentile(v, 5) if v else NODATA)
            rows.add((tuple(up), tuple(lo)))
        out[p] = np.array(sorted(rows))
    return out, None


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5,
                                              equal_nan=True)


def compare(out, lon, lat, pat, exp, ci=False):
    path = os.path.join(out, "hazard", "hazard.nc")
    if not os.path.exists(path):
        return "no hazard file was written"
    got = world.read_nc(path)
    if got["lon"].shape != lon.shape or not np.allclose(got["lon"], lon, atol=1e-4):
        return "longitudes of the map differ from the region: %s..%s (%d), expected %s..%s (%d)" % (
            got["lon"][:1], got["lon"][-1:], len(got["lon"]), lon[0], lon[-1], len(lon))
    if got["lat"].shape != lat.shape or not np.allclose(got["lat"], lat, atol=1e-4):
        return "latitudes of the map differ from the region: %s..%s (%d), expected %s..%s (%d)" % (
            got["lat"][:1], got["lat"][-1:], len(got["lat"]), lat[0], lat[-1], len(lat))
    if not np.allclose(got["ari"], [float(y) for y in YEARS.split(",")]):
        return "recurrence intervals differ"
    for v in VARS2:
        want = exp[v][pat]
        if not same(got[v], want):
            j, i = np.argwhere(~np.isclose(got[v], want, rtol=1e-5, atol=1e-5))[0]
            return "%s at row %d column %d is %r, expected %r" % (
                v, j, i, got[v][j, i], want[j, i])
    if ci == "halves":
        # the samples are drawn at random: the limits are those of one way to draw them
        up, lo = got["wspdupper"], got["wspdlower"]
        if up.shape != got["wspd"].shape or lo.shape != up.shape:
            return "the confidence limits have shapes %s and %s" % (up.shape, lo.shape)
        calm = (pat == 0)[None] & np.ones(up.shape, bool)
        if not (same(up[calm], np.full(calm.sum(), exp["wspdupper"][0][0])) and
                same(lo[calm], np.full(calm.sum(), exp["wspdlower"][0][0]))):
            return "confidence limits of cells without wind differ from %r and %r" % (
                exp["wspdupper"][0][0], exp["wspdlower"][0][0])
        for j, i in np.argwhere(pat > 0):
            known = exp["limits"][pat[j, i]]
            if not np.any(np.all(np.isclose(known, np.array([up[:, j, i], lo[:, j, i]]), rtol=1e-4, atol=1e-4), axis=(1, 2))):
                return "confidence limits %s, %s at row %d column %d belong to no parting of the records" % (
                    up[:, j, i], lo[:, j, i], j, i)
    for v in VARS3[:1 if ci == "halves" else None]:
        want = np.moveaxis(exp[v][pat], -1, 0)
        if got[v].shape != want.shape:
            return "%s has shape %s, expected %s" % (v, got[v].shape, want.shape)
        if not same(got[v], want):
            k, j, i = np.argwhere(~np.isclose(got[v], want, rtol=1e-5, atol=1e-5))[0]
            return "%s[%d] at row %d column %d is %r, expected %r" % (
                v, k, j, i, got[v][k, j, i], want[k, j, i])
    return None


def job_sched(job):
    w, exp, size, mode, order, out, choices = job
    cfgbox = []

    def prepare():
        cfgbox[:] = [w.prepare(out)]

    def run(rank):
        return prog(cfgbox[0])(rank)

    def examine(res):
        return compare(out, w.in_lon, w.in_lat, w.pat, exp, w.ci)

    if choices is not None:
        prepare()
        res = mpi.run_once(run, size, mode, order, choices)
        text = "%s: %s" % (res.outcome, res.detail) if res.outcome != "ok" else examine(res)
        shutil.rmtree(out, ignore_errors=True)
        return dict(bad=[(text, choices)] if text else [], runs=1,
                    transitions=res.nops, states=res.states, outcomes=set(),
                    complete=True)
    st = mpi.explore(run, size, mode, order, prepare, examine)
    if not st["bad"]:
        # determinism: the last schedule replayed gives the same control trace
        prepare()
        res = mpi.run_once(run, size, mode, order, st["last_choices"])
        if res.trace != st["last_trace"]:
            raise common.CheckError("replay of a schedule differs")
    shutil.rmtree(out, ignore_errors=True)
    st.pop("last_trace", None)
    return st


def job_limits(job):
    w, lims, out = job
    bad = []
    for lim in lims:
        cfg = w.prepare(out, lim)
        ii = np.nonzero((w.lon >= lim[0] - 1e-6) & (w.lon <= lim[1] + 1e-6))[0]
        jj = np.nonzero((w.lat >= lim[2] - 1e-6) & (w.lat <= lim[3] + 1e-6))[0]
        r = common.call_forked(serial, cfg, timeout=120)
        if r[0] != "ok":
            bad.append((lim, "single-process hazard run fails: %s" % (r[1:3],)))
            break
        t = compare(out, w.lon[ii], w.lat[jj], w.fullpat[np.ix_(jj, ii)], w.exp)
        if t:
            bad.append((lim, t))
            break
    shutil.rmtree(out, ignore_errors=True)
    return len(lims), bad


def lattice_limits(ctx, lon, lat):
    """Region edges over the grid points of a decimal lattice, which includes
    values whose binary form lies just below or above the decimal one, and
    over points between grid points."""
    x, y = [float(v) for v in lon], [float(v) for v in lat]
    m = [round((a + b) / 2, 4) for a, b in zip(x, x[1:])]
    my = [round((a + b) / 2, 4) for a, b in zip(y, y[1:])]
    lims = [(v, x[-2], y[1], y[3]) for v in x[1:-3] + m[1:-3]] + \
           [(x[1], v, y[1], y[3]) for v in x[3:] + m[3:]] + \
           [(x[1], x[3], v, y[-2]) for v in y[1:-3] + my[1:-3]] + \
           [(x[1], x[3], y[1], v) for v in y[3:] + my[3:]]
    if ctx.thorough:
        lims += [(a, b, c, d) for a in x[1:8:2] for b in x[10:18:2]
                 for c in y[1:8:2] for d in y[10:18:2]]
    return lims


LIM_WORLDS = {"a": (127.9, 0.1, 24, -16.42, 0.02, 20), "b": (63.8, 0.1, 20, 16.0, 0.02, 22),
              "c": (-2.1, 0.05, 20, -2.09, 0.05, 30)}


def limits_world(base, name, exp):
    w = World.__new__(World)
    x0, dx, nx, y0, dy, ny = LIM_WORLDS[name]
    w.dir = os.path.join(base, "lims" + name)
    w.evd, w.ci, w.nev, w.nsim = "emp", False, 12, 8
    w.lon = np.round(x0 + dx * np.arange(nx), 3)
    w.lat = np.round(y0 + dy * np.arange(ny), 3)
    jj, ii = np.meshgrid(np.arange(len(w.lat)), np.arange(len(w.lon)), indexing="ij")
    w.fullpat = np.where((ii * 3 + jj * 5) % 7 == 0, 1 + (ii + 2 * jj) % (NPROF - 1), 0)
    make_fields(os.path.join(w.dir, "windfield"), w.lon, w.lat, w.fullpat, w.nev, w.nsim)
    w.exp = exp
    return w


def worlds(ctx):
    """name -> (nx, ny, evd, ci)"""
    w = {"t1": (60, 3, "emp", False), "t2": (101, 2, "emp", False),
         "t3": (250, 1, "GEV", False), "t4": (120, 110, "emp", False),
         "t3ci": (201, 1, "emp", True), "t5": (401, 1, "emp", False),
         "t2ch": (110, 1, "emp", "halves")}
    if ctx.thorough:
        w.update({"t6": (201, 101, "emp", False), "p3": (201, 1, "power", False),
                  "t7": (650, 1, "emp", False), "t4ci": (120, 101, "GEV", True),
                  "g2": (101, 1, "GPD", False)})
    return w


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import inspect
    import hazard                                     # noqa: F401
    inspect.stack()
    base = ctx.mkdir("w")
    exps = {}
    ws = {}
    for name, (nx, ny, evd, ci) in worlds(ctx).items():
        nev = 12
        k = (evd, ci)
        if k not in exps:
            exps[k], err = profiles_expected(base, evd, ci, nev, 8)
            if err:
                ctx.violation(err, {"kind": "profile", "evd": evd, "ci": ci})
                return
            e = exps[k]["wspd"]
            if not (np.all(e[0] == 0) and len(set(map(tuple, e))) == NPROF):
                ctx.violation("wind speed profiles are not told apart: %s" % e,
                              {"kind": "profile", "evd": evd, "ci": ci})
                return
        ws[name] = (World(base, name, nx, ny, evd, ci, nev=nev), exps[k])
    jobs = []
    meta = []
    sizes = ctx.pick((1, 2, 3, 4), (1, 2, 3, 4, 5))
    for name, (w, exp) in ws.items():
        for size in sizes:
            if size == 5 and name in ("t7", "t6"):
                continue
            for mode in ("eager", "sync"):
                ords = mpi.orders(size) if size <= 3 else \
                    [tuple(range(size)), tuple(reversed(range(size)))]
                if size == 1 and mode == "sync":
                    continue
                if not ctx.thorough and name not in ("t2", "t3"):
                    ords = [ords[0], ords[-1]][:len(ords)]
                if w.ny > 50 and not ctx.thorough and size > 3:
                    continue
                for o in ords:
                    case = {"kind": "schedule", "world": name, "size": size,
                            "mode": mode, "order": list(o)}
                    if ctx.replay is not None:
                        if {k: ctx.replay.get(k) for k in case} != case:
                            continue
                        jobs.append((w, exp, size, mode, o,
                                     os.path.join(base, "out%d" % len(jobs)),
                                     ctx.replay["choices"]))
                    else:
                        jobs.append((w, exp, size, mode, o,
                                     os.path.join(base, "out%d" % len(jobs)), None))
                    meta.append(case)
    idx = sorted(range(len(jobs)), key=lambda i: -(jobs[i][2] * 10 + jobs[i][0].nx // 100))
    res = common.pmap(job_sched, [jobs[i] for i in idx],
                      stop=lambda r: bool(r["bad"]))
    allstates = set()
    for i, st in zip(idx, res):
        if st is None:
            continue
        ctx.add(transitions=st["transitions"], traces_validated_against_impl=st["runs"])
        allstates |= {hash((meta[i]["world"], s)) for s in st["states"]}
        for text, ch in st["bad"]:
            ctx.violation("%(world)s, %(size)d processes, %(mode)s sends: " % meta[i] + text,
                          dict(meta[i], choices=ch))
        if st["runs"] > 3:
            ctx.sample(dict(meta[i], choices=list(st.get("last_choices", ()))))
    ctx.cov["states"] = len(allstates)
    # region limits
    if ctx.replay is None or ctx.replay.get("kind") == "limits":
        for name in LIM_WORLDS:
            w = limits_world(base, name, exps[("emp", False)])
            lims = lattice_limits(ctx, w.lon, w.lat)
            if ctx.replay is not None:
                if ctx.replay["world"] != name:
                    continue
                lims = [tuple(ctx.replay["limits"])]
            parts = [(w, c, os.path.join(base, "lim%d" % k))
                     for k, c in enumerate(common.chunks(lims, 16))]
            for n, bad in common.pmap(job_limits, parts):
                ctx.add(region_limits=n)
                for lim, t in bad:
                    ctx.violation("region limits %s: %s" % (lim, t),
                                  {"kind": "limits", "world": name, "limits": lim})
    ctx.assumptions = [
        "MPI semantics: reliable, non-overtaking, eager or synchronous standard sends",
        "tile size 100x100 cells as used by hazard.run",
        "confidence bounds compared with those of every way to part the records in two samples, "
        "and with a sample size equal to the number of records"]
