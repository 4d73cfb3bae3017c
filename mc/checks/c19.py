"""C19: every track the generator saves is physical, for every sequence of random
deviates of a bounded set.

TrackGenerator.run is executed with scripted deviates (mc.rng): one simulation
per script, the number of storms per simulation being fixed too.  The files are
then judged with formulas written here."""
import datetime
import itertools
import logging
import os
import shutil

import netCDF4
import numpy as np
from scipy.special import ndtri

from .. import common, mpi, pipe, rng, world
from . import c03

TINY = 2.0 ** -53
LEVELS = (0.02, 0.98, TINY, 1 - TINY)
STEP = 0.025


def stripes(xx, yy):
    return np.floor((xx + 1.3 * np.abs(yy)) / 0.8).astype(int) % 2 == 0


def nowhere(xx, yy):
    return np.zeros(np.shape(xx), bool)


def half(xx, yy):
    return np.abs(yy) > 16.6


WORLDS = {"stripes": (stripes, True, {}), "north": (stripes, False, {}),
          "half": (half, True, {"TimeStep": 1.5, "NumTimeSteps": 50}),
          "sea": (nowhere, True, {"TimeStep": 0.5, "NumTimeSteps": 90})}


def build(base, name):
    land, south, over = WORLDS[name]
    d = os.path.join(base, name)
    os.makedirs(d)
    y = (-30., -5.) if south else (5., 30.)
    inp, proc = pipe.model(d, south=south, land=land,
                           mask=dict(step=STEP, x0=105., x1=126., y0=y[0], y1=y[1]))
    ov = {"TimeStep": 1.0, "NumTimeSteps": 60}
    ov.update(over)
    return dict(name=name, inp=inp, proc=proc, south=south, over=ov)


def land_state(w, x, y):
    """True/False, or None next to a coast (the mask has cells)."""
    land = WORLDS[w["name"]][0]
    m = 1.6 * STEP
    v = {bool(land(np.array(x + a), np.array(y + b))) for a in (-m, 0, m) for b in (-m, 0, m)}
    return v.pop() if len(v) == 1 else None


def read(path):
    out = []
    with netCDF4.Dataset(path) as ds:
        for n, g in ds.groups["tracks"].groups.items():
            v = g.variables["track"]
            rec = np.array(v[:])
            t = [datetime.datetime(d.year, d.month, d.day, d.hour, d.minute, d.second)
                 for d in netCDF4.num2date(rec["Datetime"], g.variables["time"].units,
                                           g.variables["time"].calendar)]
            out.append((str(v.trackId), t, {c: rec[c].astype(float) for c in rec.dtype.names}))
    return out


def run_batch(w, scripts, nper, out):
    """[(tracks, quantiles used)] per script, or the failing script."""
    def go():
        cfg = c03.prepare(out, w["inp"], w["proc"], len(scripts), 40, 60, w["over"], w["south"])
        rng.Scripts.seed = 60
        rng.Scripts.scripts = dict(enumerate(scripts))
        rng.Scripts.used = {}
        np.random.poisson = lambda lam=1.0, size=None: (
            nper if size is None else np.full(size, nper, int))
        mpi.solo()
        try:
            c03.generate(cfg)
        except BaseException as e:
            return ("failed", rng.Scripts.current, "%s: %s" % (type(e).__name__, e))
        res = []
        for k in range(len(scripts)):
            f = os.path.join(out, "tracks", "tracks.%05d.nc" % k)
            res.append((read(f) if os.path.exists(f) else [], list(rng.Scripts.used.get(k, ()))))
        return ("ok", res)
    r = common.call_forked(go, timeout=600)
    shutil.rmtree(out, ignore_errors=True)
    if r[0] != "ok":
        raise common.CheckError(str(r))
    return r[1]


def dest(lon, lat, bearing, km):
    """Spherical destination point, earth radius 6371 km."""
    d = np.radians(km / 111.19)
    b, la = np.radians(bearing), np.radians(lat)
    la2 = np.arcsin(np.sin(la) * np.cos(d) + np.cos(la) * np.sin(d) * np.cos(b))
    lo2 = np.radians(lon) + np.arctan2(np.sin(b) * np.sin(d) * np.cos(la),
                                       np.cos(d) - np.sin(la) * np.sin(la2))
    return np.degrees(lo2), np.degrees(la2)


def judge(w, sim, n, tracks, used):
    """Violation text or None; counts landfalls for the evidence."""
    nland = 0
    # the deviates of the decay that the script gives
    eps = None
    if len(used) < rng.Scripts.patience:
        eps = [-0.06146 + 0.0471 * np.exp(0.69527 * ndtri(q)) for q in sorted(set(used)) if 0 < q < 1]
    if len(tracks) != n:
        return "%d tracks saved, %d cyclones were asked for" % (len(tracks), n), 0
    dt, nmax = w["over"]["TimeStep"], w["over"]["NumTimeSteps"]
    lim = pipe.TRACKLIM if w["south"] else pipe.flip(pipe.TRACKLIM)
    e = 1e-4
    for k, (tid, times, t) in enumerate(tracks):
        if tuple(eval(tid, {"__builtins__": {}})) != (k, sim):
            return "track %d of simulation %d is labelled %s" % (k, sim, tid), 0
        m = len(times)
        x, y = t["Longitude"], t["Latitude"]
        p, pe = t["CentralPressure"], t["EnvPressure"]
        for c, v in t.items():
            if not np.all(np.isfinite(v)):
                return "%s is not finite" % c, 0
        if not 1 <= m <= nmax:
            return "%d points, the maximum is %d" % (m, nmax), 0
        if not np.all(t["CycloneNumber"] == t["CycloneNumber"][0]):
            return "cyclone number varies along the track", 0
        step = datetime.timedelta(hours=dt)
        if any(b - a != step for a, b in zip(times, times[1:])):
            return "times are not %s h apart" % dt, 0
        if np.abs(t["TimeElapsed"] - dt * np.arange(m)).max() > 1e-3:
            return "elapsed times are not multiples of the step", 0
        if t["TimeElapsed"][-1] < 12 - e:
            return "lasts %.1f h, less than 12" % t["TimeElapsed"][-1], 0
        if x.min() < lim[0] - e or x.max() > lim[1] + e or y.min() < lim[2] - e or y.max() > lim[3] + e:
            return "has points outside the track domain", 0
        if (t["Speed"] < 0).any():
            return "negative speed", 0
        if (t["Bearing"] < 0).any() or (t["Bearing"] > 360).any():
            return "bearing outside [0, 360]", 0
        if (t["rMax"] < 5).any() or (t["rMax"] > 500).any():
            return "radius outside 5..500 km", 0
        if t["rMax"][0] > 100:
            return "initial radius %.1f km" % t["rMax"][0], 0
        if (p > pe - 0.005).any():
            return "central pressure reaches the surrounding pressure", 0
        if pe[0] - p[0] < 1.0 - 1e-3:
            return "initial pressure deficit %.2f hPa" % (pe[0] - p[0]), 0
        d = pe - p
        if (d[1:] < np.where(t["TimeElapsed"][1:] > 12 + e, 5.0, 2.0) - 1e-3).any():
            return "continues with a pressure deficit of %.2f hPa" % d.min(), 0
        if m > 1:
            x2, y2 = dest(x[:-1], y[:-1], t["Bearing"][:-1], t["Speed"][:-1] * dt)
            km = t["Speed"][:-1] * dt
            err = np.hypot((x2 - x[1:]) * np.cos(np.radians(y2)), y2 - y[1:]) * 111.2
            if (err > 0.01 * km + 0.02).any():
                i = int(np.argmax(err - 0.01 * km))
                return "point %d is %.2f km off the position given by speed and bearing" % (i + 1, err[i]), 0
            off = np.log(t["rMax"]) - (4.22 - 0.0198 * d + 0.0023 * np.abs(y))
            if np.ptp(off[1:]) > 2e-3:
                return "the radius varies by %.1f%% beside its dependence on the deficit and latitude" % (100 * np.ptp(off[1:])), 0
        # decay over land
        st = [land_state(w, a, b) for a, b in zip(x, y)]
        i = 1
        while i < m:
            if st[i] is True and st[i - 1] is False:
                k0, d0 = i - 1, d[i - 1]
                rate = None
                while i < m and st[i] is True:
                    di = pe[i - 1] - p[i]
                    if di <= 0 or d0 <= 0:
                        return "no pressure deficit over land", nland
                    if rate is None:
                        rate = np.log(d0 / di)
                        nland += 1
                        own = rate / dt - (0.03515 + 0.000435 * d0 + 0.002865 * t["Speed"][k0])
                        if eps is not None and min(abs(own - v) for v in eps) > 2e-4 + 4e-3 / (di * dt):
                            return ("deficit decays by %.4f per hour after landfall; the landfall deficit and speed and the "
                                    "deviates give %s" % (rate / dt, ", ".join("%.4f" % (rate / dt - own + v) for v in eps[:6]))), nland
                    want = d0 * np.exp(-rate * (i - k0))
                    if abs(di - want) > 2e-3 + 2e-4 * (i - k0):
                        return ("deficit %d steps after landfall is %.3f hPa; decaying from %.3f hPa at the "
                                "rate of the first step gives %.3f" % (i - k0, di, d0, want)), nland
                    i += 1
            else:
                i += 1
    return None, nland


def scripts_for(ctx, name):
    """Bounded deviations from base scripts, and periodic scripts."""
    out = []
    pos = (0.1, 0.5, 0.9)
    full = name in ("stripes", "north")
    depth1 = ctx.pick(30, 60)
    for a, b in itertools.product(pos, pos):
        base = [0.5, a, b] + [0.5] * 80
        out.append(base[:3])
        for k in range(depth1 if full else 14):
            for v in LEVELS:
                s = list(base)
                s[k] = v
                out.append(s[:max(k + 1, 3)])
    depth2 = ctx.pick(16, 28) if full else 12
    for k, l in itertools.combinations(range(depth2), 2):
        for v, u in itertools.product(ctx.pick(LEVELS[:2], LEVELS), repeat=2):
            s = [0.5] * (l + 1)
            s[k], s[l] = v, u
            out.append(s)
    lv = ctx.pick((0.05, 0.5, 0.95), (0.02, 0.2, 0.5, 0.8, 0.98))
    for a, b in itertools.product(ctx.pick((0.2, 0.8), pos), repeat=2):
        for c in itertools.product(lv, repeat=3):
            head = [0.5, a, b] + [0.5] * 8
            out.append(head + list(c) * 100)
            if ctx.thorough:
                for v in (0.02, 0.98):
                    for k in range(3, 11):
                        h = list(head)
                        h[k] = v
                        out.append(h + list(c) * 100)
    return out


def job(j):
    w, scripts, nper, out = j
    r = run_batch(w, scripts, nper, out)
    if r[0] == "failed":
        k = r[1]
        return dict(n=0, bad=(scripts[k] if k is not None else [], r[2], nper), seen=set(), land=0, pts=0)
    seen, nland, pts = set(), 0, 0
    for k, (tracks, used) in enumerate(r[1]):
        text, nl = judge(w, k, nper, tracks, used)
        nland += nl
        pts += sum(len(t[1]) for t in tracks)
        if text:
            return dict(n=k + 1, bad=(scripts[k], text, nper), seen=seen, land=nland, pts=pts)
        seen.add(hash((tuple(tracks[0][2]["Longitude"]), tuple(tracks[0][2]["CentralPressure"]))) if tracks else 0)
    return dict(n=len(scripts), bad=None, seen=seen, land=nland, pts=pts)


def same(a, b):
    """Two tracks, apart from their number."""
    if len(a[1]) != len(b[1]) or a[1] != b[1]:
        return "times"
    for c in a[2]:
        if c != "CycloneNumber" and not np.array_equal(a[2][c], b[2][c]):
            return c
    return None


def indep(j):
    """The second storm of a simulation must not depend on the first."""
    w, scripts, out = j
    none = run_batch(w, scripts, 0, out)
    one = run_batch(w, scripts, 1, out)
    two = run_batch(w, scripts, 2, out)
    for r in (none, one, two):
        if r[0] == "failed":
            return 0, (scripts[r[1]] if r[1] is not None else [], r[2])
    alone = []
    for k in range(len(scripts)):
        m0, m1 = len(none[1][k][1]), len(one[1][k][1])
        u2 = two[1][k][1]
        if u2[:m1] != one[1][k][1]:
            raise common.CheckError("scripted deviates are not reproduced")
        alone.append(u2[:m0] + u2[m1:])
    solo = run_batch(w, alone, 1, out)
    if solo[0] == "failed":
        return 0, (alone[solo[1]], solo[2])
    for k in range(len(scripts)):
        c = same(two[1][k][0][0], one[1][k][0][0])
        if c:
            return k, (scripts[k], "the first storm of a simulation depends on whether a second follows (%s)" % c)
        c = same(two[1][k][0][1], solo[1][k][0][0])
        if c:
            return k, (scripts[k], "a storm's %s depends on the storm generated before it in the simulation" % c)
    return len(scripts), None


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import scipy.stats, statsmodels.api                              # noqa: F401,E401
    rng.install()
    import TrackGenerator.TrackGenerator                              # noqa: F401
    base = ctx.mkdir("w")
    names = list(WORLDS)
    if ctx.replay is not None:
        names = [ctx.replay["world"]]
    ws = dict(zip(names, common.pmap(lambda n: build(base, n), names)))
    if ctx.replay is not None:
        w, s = ws[names[0]], ctx.replay["script"]
        if ctx.replay["kind"] == "indep":
            n, bad = indep((w, [s], os.path.join(base, "o")))
            bad = bad and bad[1]
        else:
            bad = job((w, [s], ctx.replay["cyclones"], os.path.join(base, "o")))["bad"]
            bad = bad and bad[1]
        if bad:
            ctx.violation(bad, ctx.replay)
        return
    jobs, ij = [], []
    for name, w in ws.items():
        sc = scripts_for(ctx, name)
        for c in common.chunks(sc, max(8, len(sc) // 60)):
            jobs.append((w, c, 1, os.path.join(base, "o%d" % len(jobs))))
        sub = sc[::ctx.pick(23, 7)]
        for c in common.chunks(sub, 8):
            ij.append((w, c, os.path.join(base, "i%d" % len(ij))))
    nland = 0
    for (w, c, nper, _), r in zip(jobs, common.pmap(job, jobs)):
        ctx.explored(r["n"], r["seen"], "random-deviate scripts; distinct = different tracks")
        ctx.add(track_points=r["pts"])
        nland += r["land"]
        if r["bad"]:
            ctx.violation("%s coast: %s" % (w["name"], r["bad"][1]),
                          dict(kind="script", world=w["name"], script=r["bad"][0], cyclones=r["bad"][2]))
    for (w, c, _), (n, bad) in zip(ij, common.pmap(indep, ij)):
        ctx.add(storm_pairs=n)
        if bad:
            ctx.violation("%s coast: %s" % (w["name"], bad[1]),
                          dict(kind="indep", world=w["name"], script=bad[0]))
    ctx.cov["landfalls"] = nland
    if not ctx.violations and nland < 100:
        raise common.CheckError("only %d landfalls were reached" % nland)
    ctx.sample(jobs[0][1][-1])
    ctx.sample(jobs[-1][1][-1][:20])
    ctx.assumptions = ["deviates outside the scripted levels are not explored",
                       "rejection loops longer than %d draws fall back on a fixed numpy stream" % rng.Scripts.patience]
