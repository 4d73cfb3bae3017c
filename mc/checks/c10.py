"""C10: an event's wind field is the pointwise extreme over its time steps.

Every sequence of time steps up to a length, over an alphabet of storm states (inside,
on the edge of, beside and far from the region; strong, weak, filled), is written as a
track and run through wind.run.  The file must be the pointwise combination of the
files of the single time steps; those in turn must lie where the storm is."""
import itertools
import logging
import os
import shutil

import netCDF4
import numpy as np

from .. import common, mpi, world

ENV = 1010.0


class Setup:
    """A configuration and its alphabet: (lon, lat, central pressure, rmax, speed, bearing)."""

    def __init__(self, name, region, margin, res, domain="bounded", profile="holland", field="kepert", grid="region"):
        self.name, self.region, self.margin, self.res = name, region, margin, res
        self.domain, self.profile, self.field, self.grid = domain, profile, field, grid
        x0, x1, y0, y1 = region
        xm, ym = (x0 + x1) / 2, (y0 + y1) / 2
        self.steps = {
            "s": (xm, ym, 940., 40., 20., 250.),                  # strong, in the middle
            "w": (xm, ym, 985., 60., 5., 80.),                    # weak, same place
            "o": (xm + 1.3 * res, ym - 0.7 * res, 955., 30., 30., 200.),
            "m": (x0 + 0.37, y1 - 0.41, 950., 35., 12., 330.),
            "e": (x1, y0, 945., 45., 15., 120.),                  # on the corner of the region
            "c": (x0, y1, 965., 45., 15., 300.),                  # on the opposite corner
            "b": (x1 + 0.2, ym, 930., 50., 25., 270.),            # beside the region, within the margin
            "f": (xm, ENV, ENV, 40., 10., 10.),                   # filled: no wind
            "x": (x1 + 40., ym, 920., 60., 20., 90.),             # far away
        }
        self.steps["f"] = (xm, ym + 0.1, ENV, 40., 10., 10.)

    def inside(self, s):
        lon, lat = self.steps[s][:2]
        x0, x1, y0, y1 = self.region
        return x0 <= lon <= x1 and y0 <= lat <= y1

    def track(self, num, seq):
        t = world.track(num, (num, 1), [self.steps[s][:2] for s in seq], pe=ENV)
        for k, i in (("pc", 2), ("rmax", 3), ("speed", 4), ("bearing", 5)):
            t[k] = [self.steps[s][i] for s in seq]
        return t

    def config(self, out):
        s = {"WindfieldInterface": {"Margin": self.margin, "Resolution": self.res, "profileType": self.profile,
                                    "windFieldType": self.field, "Domain": self.domain, "thetaMax": 70.0,
                                    "beta": 1.3, "beta1": 1.5, "beta2": 1.4},
             "Output": {"Path": out}, "Region": {"LocalityName": "x", "gridLimit": world.limit(*self.region)},
             "Logging": {"LogFile": os.path.join(out, "log"), "LogLevel": "CRITICAL", "ProgressBar": False}}
        return world.write_config(os.path.join(out, "c.ini"), s)


SETUPS = [
    Setup("plain", (112.0, 114.0, -20.0, -18.0), 1.0, 0.5),
    Setup("north", (150.0, 152.0, 10.0, 12.5), 1.0, 0.25, field="hubbert"),
    Setup("full", (112.0, 114.0, -20.0, -18.0), 1.0, 0.5, domain="full"),
    Setup("equator", (112.0, 114.0, -3.0, 0.0), 1.0, 0.5, domain="full"),
    Setup("greenwich", (0.0, 3.0, -15.0, -13.0), 1.0, 0.5, domain="full", field="mcconochie"),
    Setup("fine", (113.15, 114.3, -20.3, -19.15), 2.3, 0.1, profile="powell"),
    Setup("odd", (113.1, 114.3, -20.3, -19.1), 1.16, 0.29, profile="willoughby"),
    Setup("schloemer", (112.0, 114.0, -20.0, -18.0), 1.5, 0.3, profile="schloemer", field="mcconochie"),
    Setup("uneven", (112.0, 114.0, -20.0, -18.0), 1.0, 0.3),
    Setup("uneven-full", (112.0, 114.0, -20.0, -18.0), 1.0, 0.3, domain="full"),
    Setup("finest", (113.15, 113.3, 1.13, 1.29), 0.2, 0.01),
]
SETUP = {s.name: s for s in SETUPS}


def wind_run(cfg):
    import wind
    from Utilities.config import reset
    reset()
    mpi.solo()
    wind.run(cfg)


def footprints(out, setup, seqs):
    """{seq: (lon, lat, vmax, ua, va, slp)} of the real code; a missing file gives None."""
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "tracks"))
    os.makedirs(os.path.join(out, "windfield"))
    world.tracks_nc(os.path.join(out, "tracks", "tracks.00001.nc"),
                    [setup.track(k + 1, s) for k, s in enumerate(seqs)])
    cfg = setup.config(out)
    r = common.call_forked(wind_run, cfg, timeout=600)
    if r[0] != "ok":
        return "wind.run failed: %s" % " ".join(map(str, r[1:3]))
    res = {}
    for k, s in enumerate(seqs):
        f = os.path.join(out, "windfield", "gust.%03d-%05d.nc" % (k + 1, 1))
        if not os.path.exists(f):
            res[s] = None
            continue
        d = world.read_nc(f)
        res[s] = tuple(d[n] for n in ("lon", "lat", "vmax", "ua", "va", "slp"))
    shutil.rmtree(out, ignore_errors=True)
    return res


def holland(p, r):
    """Bounds for the pressure of any of the profiles are not needed: only holland is used."""
    dp = (ENV - p[2]) * 100.
    return p[2] * 100. + dp * np.exp(-(p[3] / np.maximum(r, 1e-9)) ** 1.3)


def check_single(setup, s, fp):
    """A single time step lies where the storm is."""
    p = setup.steps[s]
    if not setup.inside(s):
        if fp is None:
            return None
        lon, lat, vmax, ua, va, slp = fp
        if vmax.any() or ua.any() or va.any() or not np.allclose(slp, ENV * 100., rtol=1e-6):
            return "a time step outside the region left winds or low pressure"
        return None
    if fp is None:
        return "no wind field"
    lon, lat, vmax, ua, va, slp = fp
    x0, x1, y0, y1 = setup.region
    m, r = setup.margin, setup.res
    if lon.min() > x0 - m + 1e-6 or lon.max() < x1 + m - 1e-6 or lat.min() > y0 - m + 1e-6 or lat.max() < y1 + m - 1e-6:
        return "the grid (%g..%g, %g..%g) does not cover the region and its margin" % (
            lon.min(), lon.max(), lat.min(), lat.max())
    if not np.allclose(np.diff(lon), r, atol=1e-6) or not np.allclose(np.abs(np.diff(lat)), r, atol=1e-6):
        return "the grid spacing is not %g" % r
    xx, yy = np.meshgrid(lon, lat)
    if not np.isfinite(vmax).all() or not np.isfinite(slp).all():
        return "values are not finite"
    if not np.allclose(np.hypot(ua, va), vmax, rtol=1e-4, atol=1e-4):
        return "wind components and gust speed do not match"
    far = (np.abs(xx - p[0]) > m + 1.01 * r) | (np.abs(yy - p[1]) > m + 1.01 * r)
    near = (np.abs(xx - p[0]) < m - 1.01 * r) & (np.abs(yy - p[1]) < m - 1.01 * r)
    if setup.domain == "bounded":
        if vmax[far].any():
            return "wind further than the margin from the storm"
        if not np.allclose(slp[far], ENV * 100., rtol=1e-6):
            return "low pressure further than the margin from the storm"
    else:
        near = (xx <= x1 + m + 1e-6) & (yy <= y1 + m + 1e-6)
    if p[2] >= ENV:
        if vmax.any():
            return "wind without a pressure deficit"
        return None
    if not (vmax[near] > 0).all():
        return "no wind close to the storm"
    if setup.profile == "holland":
        # a value belongs to a point at most one cell away from its own
        d = 6367. * np.pi / 180. * np.hypot((xx - p[0]) * np.cos(np.radians(yy)), yy - p[1])
        tol = 6367. * np.pi / 180. * 1.05 * r * np.sqrt(2) + 0.02 * d + 1.
        lo, hi = holland(p, np.maximum(d - tol, 1e-6)) - 1., holland(p, d + tol) + 1.
        bad = near & ((slp < lo) | (slp > hi))
        if bad.any():
            j, i = np.argwhere(bad)[0]
            return "pressure at %g, %g is %.0f Pa, the storm at %g, %g gives %.0f..%.0f" % (
                lon[i], lat[j], slp[j, i], p[0], p[1], lo[j, i], hi[j, i])
    return None


def check_seq(setup, seq, fp, singles):
    inside = [s for s in seq if setup.inside(s)]
    if not inside:
        if fp is not None and (fp[2].any() or fp[3].any() or fp[4].any()):
            return "a track that is never inside the region has winds"
        return None
    if fp is None:
        return "no wind field"
    lon, lat, vmax, ua, va, slp = fp
    parts = [singles[s] for s in inside]
    for q in parts:
        if q[2].shape != vmax.shape or not np.array_equal(q[0], lon) or not np.array_equal(q[1], lat):
            return "the grid differs from that of a single time step"
    g = np.stack([q[2] for q in parts])
    want = g.max(0)
    if not np.array_equal(want, vmax):
        j, i = np.argwhere(want != vmax)[0]
        return "gust at %g, %g is %.4f, the largest of the time steps is %.4f" % (lon[i], lat[j], vmax[j, i], want[j, i])
    ok = np.zeros(vmax.shape, bool)
    for q in parts:
        ok |= (q[2] == want) & (q[3] == ua) & (q[4] == va)
    ok |= (want == 0) & (ua == 0) & (va == 0)
    if not ok.all():
        j, i = np.argwhere(~ok)[0]
        return "components at %g, %g are not those of the time step with the largest gust" % (lon[i], lat[j])
    low = np.minimum.reduce([q[5] for q in parts])
    if not np.array_equal(low, slp):
        j, i = np.argwhere(low != slp)[0]
        return "pressure at %g, %g is %.2f, the lowest of the time steps is %.2f" % (lon[i], lat[j], slp[j, i], low[j, i])
    return None


def job(j):
    out, name, seqs, singles = j
    setup = SETUP[name]
    fps = footprints(out, setup, seqs)
    st = dict(n=0, outcomes=set(), bad=[], singles={})
    if isinstance(fps, str):
        st["bad"].append((fps, {"setup": name, "seq": seqs[0]}))
        return st
    for s in seqs:
        if singles is None:
            text = check_single(setup, s, fps[s])
            st["singles"][s] = fps[s]
        else:
            text = check_seq(setup, s, fps[s], singles)
        st["n"] += 1
        st["outcomes"].add((name, hash(b"" if fps[s] is None else fps[s][2].tobytes() + fps[s][5].tobytes())))
        if text:
            st["bad"].append((text, {"setup": name, "seq": s}))
            break
    return st


# -- several tracks of one file combined -------------------------------------

def combine(cfg, f, setup):
    import wind
    from Utilities.config import reset, ConfigParser
    reset()
    mpi.solo()
    c = ConfigParser()
    c.read(cfg)
    x0, x1, y0, y1 = setup.region
    g = wind.WindfieldGenerator(c, margin=setup.margin, resolution=setup.res, profileType=setup.profile,
                                windFieldType=setup.field, beta=1.3, beta1=1.5, beta2=1.4, thetaMax=np.radians(70.0),
                                gridLimit=dict(xMin=x0, xMax=x1, yMin=y0, yMax=y1), domain=setup.domain)
    return g.calculateExtremesFromTrackfile(f)


def many_job(j):
    out, name, groups, singles = j
    setup = SETUP[name]
    st = dict(n=0, outcomes=set(), bad=[])
    os.makedirs(out, exist_ok=True)
    cfg = setup.config(out)
    f = os.path.join(out, "tracks.nc")
    for g in groups:
        world.tracks_nc(f, [setup.track(k + 1, s) for k, s in enumerate(g)])
        r = common.call_forked(combine, cfg, f, setup, timeout=300)
        if r[0] != "ok":
            text = "failed: %s" % " ".join(map(str, r[1:3]))
        else:
            gust, bearing, vx, vy, p, lon, lat = map(np.asarray, r[1])
            fp = lon, lat[::-1], gust[::-1], vx[::-1], vy[::-1], p[::-1]
            text = check_seq(setup, "".join(g), fp, singles)
            if text is None:
                d = np.cos(np.radians(bearing)) * -vy - gust
                e = np.sin(np.radians(bearing)) * -vx
                if not np.allclose((d + e)[gust > 0], 0, atol=1e-3):
                    text = "the bearing does not match the wind components"
            st["outcomes"].add((name, hash(gust.tobytes())))
        st["n"] += 1
        if text:
            st["bad"].append(("tracks combined: " + text, {"setup": name, "group": list(g)}))
            break
    shutil.rmtree(out, ignore_errors=True)
    return st


# -- without a region in the configuration: the whole degrees around each track ----

FREE = ("s", "m", "e", "c", "sm", "ec", "sme", "cos", "ww", "bs")


def free_config(setup, out, region, own):
    s = {"WindfieldInterface": {"Margin": setup.margin, "Resolution": setup.res, "profileType": setup.profile,
                                "windFieldType": setup.field, "Domain": setup.domain, "thetaMax": 70.0,
                                "beta": 1.3, "beta1": 1.5, "beta2": 1.4},
         "Output": {"Path": out}, "Region": {"LocalityName": "x"},
         "Logging": {"LogFile": os.path.join(out, "log"), "LogLevel": "CRITICAL", "ProgressBar": False}}
    if own:
        s["WindfieldInterface"]["gridLimit"] = world.limit(*region)
        s["Region"]["gridLimit"] = world.limit(-5., -4., 50., 51.)
    elif region:
        s["Region"]["gridLimit"] = world.limit(*region)
    return world.write_config(os.path.join(out, "c.ini"), s)


def free_run(out, setup, tracks, region=None, own=False):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "tracks"))
    os.makedirs(os.path.join(out, "windfield"))
    world.tracks_nc(os.path.join(out, "tracks", "tracks.00001.nc"), tracks)
    r = common.call_forked(wind_run, free_config(setup, out, region, own), timeout=600)
    if r[0] != "ok":
        raise common.CodeError("wind.run failed: %s" % " ".join(map(str, r[1:3])))
    res = {}
    for t in tracks:
        f = os.path.join(out, "windfield", "gust.%03d-%05d.nc" % tuple(t["id"]))
        d = world.read_nc(f) if os.path.exists(f) else None
        res[tuple(t["id"])] = d and [d[n] for n in ("lon", "lat", "vmax", "ua", "va", "slp")]
    shutil.rmtree(out, ignore_errors=True)
    return res


def free_job(j):
    out, name = j
    setup = SETUP[name]
    st = dict(n=0, outcomes=set(), bad=[])

    def compare():
        tracks = [setup.track(k + 1, s) for k, s in enumerate(FREE)]
        got = free_run(out, setup, tracks)
        for t, s in zip(tracks, FREE):
            i = tuple(t["id"])
            p = [setup.steps[c] for c in s]
            box = (np.floor(min(q[0] for q in p)), np.ceil(max(q[0] for q in p)),
                   np.floor(min(q[1] for q in p)), np.ceil(max(q[1] for q in p)))
            for own in (False, True):
                want = free_run(out, setup, [t], box, own)[i]
                st["n"] += 1
                if got[i] is None or want is None:
                    return "track %s has no wind field" % s
                if not all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(got[i], want)):
                    return "the wind field of track %s without a region is not that for the whole degrees around it (%s)" % (
                        s, "region of the wind fields" if own else "region")
            st["outcomes"].add((name, s, hash(got[i][2].tobytes())))
        return None
    text = common.judge(compare)
    if text:
        st["bad"].append((text, {"setup": name, "free": True}))
    return st


def groups(setup, ctx):
    a = [s for s in sorted(setup.steps) if setup.inside(s)] + ["x"]
    g = list(itertools.product(a, repeat=2))
    g += list(itertools.product([s for s in a if s in ("smec" if not ctx.thorough else "smexow")], repeat=3))
    return g


def sequences(setup, ctx):
    a = sorted(setup.steps)
    n = (4 if setup.name == "plain" else 3) if ctx.thorough else (3 if setup.name == "plain" else 2)
    out = []
    for k in range(2, n + 1):
        out += ["".join(p) for p in itertools.product(a, repeat=k)]
    if not ctx.thorough:
        b = "smec"
        out += ["".join(p) for p in itertools.product(b, repeat=4 if setup.name == "plain" else 3)]
    return out


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import inspect
    inspect.stack()
    import wind  # noqa
    base = ctx.scratch
    setups = SETUPS
    if ctx.replay:
        setups = [SETUP[ctx.replay["setup"]]]
    if not ctx.replay or ctx.replay.get("free"):
        names = [s.name for s in setups if s.name in ("plain", "full", "north", "greenwich", "fine")]
        for n, r in zip(names, common.pmap(free_job, [(os.path.join(base, "f-" + n), n) for n in names])):
            ctx.explored(r["n"], r["outcomes"], "different wind fields")
            for text, case in r["bad"]:
                ctx.violation("%s: %s" % (n, text), case)
        if ctx.replay:
            return
    one = common.pmap(job, [(os.path.join(base, "s-" + s.name), s.name, sorted(s.steps), None) for s in setups])
    jobs, many = [], []
    for s, r in zip(setups, one):
        ctx.explored(r["n"], r["outcomes"], "different wind fields")
        for text, case in r["bad"]:
            ctx.violation("%s, single time step %s: %s" % (s.name, case["seq"], text), case)
        if r["bad"]:
            continue
        seqs = [ctx.replay.get("seq", "ss")] if ctx.replay else sequences(s, ctx)
        if ctx.replay and len(seqs[0]) < 2:
            continue
        for c in common.chunks(seqs, max(1, len(seqs) // 48)):
            jobs.append((os.path.join(base, "j%d" % len(jobs)), s.name, c, r["singles"]))
        if s.name in ("plain", "full") and hasattr(wind.WindfieldGenerator, "calculateExtremesFromTrackfile"):
            gs = [tuple(ctx.replay["group"])] if ctx.replay and "group" in ctx.replay else groups(s, ctx)
            for c in common.chunks(gs, 4):
                many.append((os.path.join(base, "g%d" % len(many)), s.name, c, r["singles"]))
    for j, r in zip(many, common.pmap(many_job, many)):
        ctx.explored(r["n"], r["outcomes"], "different wind fields")
        for text, case in r["bad"]:
            ctx.violation("%s, %s: %s" % (case["setup"], case["group"], text), case)
    for j, r in zip(jobs, common.pmap(job, jobs)):
        ctx.explored(r["n"], r["outcomes"], "different wind fields")
        for text, case in r["bad"]:
            ctx.violation("%s, time steps %s: %s" % (case["setup"], case["seq"], text), case)
        ctx.sample({"setup": j[1], "sequence": j[2][-1]})
    ctx.assumptions += ["time steps of one track share their environmental pressure",
                        "a value may belong to a point up to one cell away: the local grid is not aligned with the region's"]
