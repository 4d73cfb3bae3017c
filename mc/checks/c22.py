"""C22: the evaluations of the track model, run as a whole (`Evaluate.<name>(config).run()`)
on small sets of historical and simulated tracks, serially and on 2..n ranks under the
MPI explorer.  What they save and draw is compared with counts made here with exact
arithmetic from the track points alone."""
import datetime
import inspect
import itertools
import logging
import os
import shutil
import sys
import warnings
from collections import Counter
from fractions import Fraction as Fr

import numpy as np

from .. import common, mpi, world

NAMES = ("PressureDistribution", "TrackDensity", "LongitudeCrossing", "LandfallRates",
         "GenesisDensity")
LIM = (110., 130., -20., -10.)
YEARS = 5                    # of each simulation
DRAWN = []                   # what was handed to the figures
MSLP = None
ACTIONS = ("DataProcess", "ExecuteStat", "ExecuteTrackGenerator", "ExecuteWindfield", "ExecuteHazard",
           "ExecuteEvaluate", "PlotData", "PlotHazard", "CreateDatabase", "DownloadData")


# ---------------------------------------------------------------------------
# inputs: a case has "hist": [(year, points)], "files": [[points, ...], ...],
# points = ((lon, lat, pressure), ...); optionally "coast", "space"

def build(d, c):
    out, inp = os.path.join(d, "out"), os.path.join(d, "in")
    for p in (out, inp):
        shutil.rmtree(p, ignore_errors=True)
    for s in ("tracks", "plots/stats", "process", "plots"):
        os.makedirs(os.path.join(out, s), exist_ok=True)
    os.makedirs(inp)
    with open(os.path.join(inp, "best.csv"), "w") as fh:
        fh.write("num,season,date,lat,lon,pressure,rmax\n")
        for k, (year, pts) in enumerate(c["hist"]):
            t = datetime.datetime(year, 1 + k % 9, 3)
            for x, y, p in pts:
                fh.write("%d,%d,%s,%r,%r,%r,40\n" % (k + 1, year, t.strftime("%Y-%m-%d %H:%M:%S"), y, x, p))
                t += datetime.timedelta(hours=6)
    for n, tracks in enumerate(c["files"]):
        world.tracks_nc(os.path.join(out, "tracks", "tracks.%05d.nc" % n),
                        [world.track(k + 1, (k, n), pts) for k, pts in enumerate(tracks)])
    with open(os.path.join(inp, "gates.csv"), "w") as fh:
        for k, (x, y) in enumerate(c["coast"]):
            fh.write("%.2f, %r, %r\n" % (k, float(x), float(y)))
    sp = c.get("space", 5.)
    return world.write_config(os.path.join(d, "c.ini"), {
        "Actions": {n: n == "ExecuteEvaluate" for n in ACTIONS},
        "DataProcess": {"InputFile": os.path.join(inp, "best.csv"), "Source": "TEST",
                        "StartSeason": 1900, "FilterSeasons": False},
        "Region": {"gridLimit": world.limit(*LIM), "gridSpace": "{'x':%r,'y':%r}" % (sp, sp),
                   "gridInc": "{'x':1.0,'y':0.5}"},
        "TrackGenerator": {"YearsPerSimulation": YEARS, "TimeStep": 1.0, "NumSimulations": len(c["files"])},
        "Input": {"CoastlineGates": os.path.join(inp, "gates.csv"), "MSLPFile": MSLP, "MSLPVariableName": "slp"},
        "Output": {"Path": out},
        "Logging": {"LogFile": os.path.join(out, "log.txt"), "LogLevel": "CRITICAL",
                    "Verbose": False, "ProgressBar": False},
        "TEST": {"Columns": "num,season,date,lat,lon,pressure,rmax", "FieldDelimiter": ",",
                 "NumberOfHeadingLines": 1, "PressureUnits": "hPa", "LengthUnits": "km",
                 "SpeedUnits": "kph", "DateFormat": "%Y-%m-%d %H:%M:%S"}})


# ---------------------------------------------------------------------------
# reference

def ex(v):
    return Fr(repr(float(v)))


def density(tracks, sp):
    nx, ny = int((LIM[1] - LIM[0]) / sp), int((LIM[3] - LIM[2]) / sp)
    h = np.zeros((ny, nx))
    for pts in tracks:
        for x, y, _ in pts:
            i, j = int((x - LIM[0]) // sp), int((y - LIM[2]) // sp)
            if 0 <= i < nx and 0 <= j < ny:
                h[j, i] += 1
    return h


def pressures(tracks, sp):
    """cell -> sorted valid pressures"""
    cells = {}
    for pts in tracks:
        for x, y, p in pts:
            i, j = int((x - LIM[0]) // sp), int((y - LIM[2]) // sp)
            if p > 0:
                cells.setdefault((j, i), []).append(p)
    return cells


def gate_lons():
    return [LIM[0] + 10 * k for k in range(3)]


def bands():
    return [int(LIM[2]) + 2 * k for k in range(6)]


def crossings(tracks):
    """(all, east-west, west-east): per gate, the number of crossings by band"""
    b = bands()
    out = [np.zeros((len(b) - 1, 3)) for _ in range(3)]
    for pts in tracks:
        for (x0, y0, _), (x1, y1, _) in zip(pts, pts[1:]):
            for n, g in enumerate(gate_lons()):
                if (x0 < g) == (x1 < g):
                    continue
                lat = ex(y0) + (ex(g) - ex(x0)) / (ex(x1) - ex(x0)) * (ex(y1) - ex(y0))
                if lat < b[0] or lat > b[-1]:
                    continue
                k = min(int((lat - b[0]) // 2), len(b) - 2)
                out[0][k, n] += 1
                out[2 if x0 < g else 1][k, n] += 1
    return out


def clear_of_bands(pts):
    """No crossing hangs on rounding: those on a limit of a band happen at a track point."""
    for (x0, y0, _), (x1, y1, _) in zip(pts, pts[1:]):
        for g in gate_lons():
            if x0 == x1 or not min(x0, x1) <= g <= max(x0, x1):
                continue
            f = (ex(g) - ex(x0)) / (ex(x1) - ex(x0))
            lat = ex(y0) + f * (ex(y1) - ex(y0))
            if lat % 2 == 0 and f not in (0, 1):
                return False
    return True


def norm(h, width):
    """Each column a density, or zero where nothing was counted."""
    s = h.sum(axis=0)
    return np.where(s > 0, h / np.where(s > 0, s, 1.) / width, 0.)


def side(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def inside(p, poly):
    """Even-odd rule, exact; None on the boundary."""
    odd = False
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if side(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and \
                min(a[1], b[1]) <= p[1] <= max(a[1], b[1]):
            return None
        if (a[1] > p[1]) != (b[1] > p[1]):
            x = a[0] + Fr(p[1] - a[1]) / (b[1] - a[1]) * (b[0] - a[0])
            odd ^= p[0] < x
    return odd


def meets(a, b, p, q):
    """Segments ab and pq properly cross; None if they only touch."""
    s = [side(a, b, p), side(a, b, q), side(p, q, a), side(p, q, b)]
    if 0 in s:
        return None
    return (s[0] > 0) != (s[1] > 0) and (s[2] > 0) != (s[3] > 0)


def touches(a, b, v):
    return side(a, b, v) == 0 and min(a[0], b[0]) <= v[0] <= max(a[0], b[0]) and \
        min(a[1], b[1]) <= v[1] <= max(a[1], b[1])


def landfalls(tracks, coast):
    """(onshore, offshore) crossings by gate.  Segments through a vertex are not given."""
    poly = [(ex(x), ex(y)) for x, y in coast]
    on, off = np.zeros(len(poly) - 1), np.zeros(len(poly) - 1)
    for pts in tracks:
        ps = [(ex(p[0]), ex(p[1])) for p in pts]
        for a, b in zip(ps, ps[1:]):
            ia, ib = inside(a, poly), inside(b, poly)
            if ia == ib:
                continue
            for k in range(len(poly) - 1):
                if meets(a, b, poly[k], poly[k + 1]):
                    (on if ib else off)[k] += 1
    return on, off


def span(hist):
    ys = [y for y, _ in hist]
    return max(ys) - min(ys) + 1


def genesis(tracks):
    from statsmodels.nonparametric.kernel_density import KDEMultivariate
    pts = [(t[0][0], t[0][1]) for t in tracks
           if LIM[0] <= t[0][0] <= LIM[1] and LIM[2] <= t[0][1] <= LIM[3]]
    lon, lat = np.arange(LIM[0], LIM[1] + .5), np.arange(LIM[2], LIM[3] + .5)
    xx, yy = np.meshgrid(lon, lat)
    kde = KDEMultivariate(np.array(pts).T, bw="cv_ml", var_type="cc")
    return kde.pdf(data_predict=np.vstack([xx.ravel(), yy.ravel()])).reshape(xx.shape)


def lows(tracks):
    return [min([p for _, _, p in t if p > 0] or [0.]) if LIM[0] <= t[0][0] <= LIM[1] and LIM[2] <= t[0][1] <= LIM[3]
            else 0. for t in tracks]


def bounds(a, per):
    return np.percentile(a, per, axis=0)


def parts(pts):
    """A best track with a jump is taken for two."""
    out = [[pts[0]]]
    for a, b in zip(pts, pts[1:]):
        if abs(a[0] - b[0]) > 10 or abs(a[1] - b[1]) > 5:
            out.append([])
        out[-1].append(b)
    return out


def reference(name, c):
    """{what: array}; in the layout in which it is saved, NaN = masked"""
    sp = c.get("space", 5.)
    hist = [pts for _, track in c["hist"] for pts in parts(track)]
    files = c["files"]
    out = {}
    if name == "TrackDensity":
        syn = np.array([density(f, sp) / YEARS for f in files])
        out["hist_density"] = density(hist, sp) / span(c["hist"])
        out["syn_density"] = syn.mean(axis=0)
        out["syn_density_upper"], out["syn_density_lower"] = bounds(syn, 95), bounds(syn, 5)
    elif name == "PressureDistribution":
        nx, ny = int((LIM[1] - LIM[0]) / sp), int((LIM[3] - LIM[2]) / sp)
        for what, fn in (("mean", np.mean), ("min", min)):
            def grid(tracks):
                g = np.full((ny, nx), np.nan)
                for (j, i), v in pressures(tracks, sp).items():
                    if 0 <= i < nx and 0 <= j < ny:
                        g[j, i] = fn(v)
                return g
            out["hist_" + what] = grid(hist)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out["syn_" + what] = np.nanmean([grid(f) for f in files], axis=0)
        out["histCP"] = np.array(sorted(lows(hist)))
        out["synCP"] = np.array(sorted(sum([lows(f) for f in files], [])))
        edges = np.arange(850., 1020., 5.)

        def dist(v):
            return norm(np.histogram(v, edges)[0][:, None].astype(float), 5.)[:, 0]
        syn = np.array([dist(lows(f)) for f in files])
        out["curve hist"], out["curve syn"] = dist(lows(hist)), syn.mean(axis=0)
        out["curve upper"], out["curve lower"] = bounds(syn, 95), bounds(syn, 5)
    elif name == "LongitudeCrossing":
        h = [norm(a, 2.) for a in crossings(hist)]
        syn = [np.array(a) for a in zip(*[[norm(a, 2.) for a in crossings(f)] for f in files])]
        for k, end in enumerate(("", "_ew", "_we")):
            out["hist" + end] = h[k]
            out["syn_mean" + end] = syn[k].mean(axis=0)
            out["syn_upper" + end], out["syn_lower" + end] = bounds(syn[k], 95), bounds(syn[k], 5)
    elif name == "LandfallRates":
        h = [norm(a[:, None], 1.)[:, 0] for a in landfalls(hist, c["coast"])]
        syn = [np.array(a) for a in
               zip(*[[norm(a[:, None], 1.)[:, 0] for a in landfalls(f, c["coast"])] for f in files])]
        for k, what in enumerate(("Landfall", "Offshore")):
            out[what + " hist"] = h[k]
            out[what + " syn"] = syn[k].mean(axis=0)
            out[what + " upper"], out[what + " lower"] = bounds(syn[k], 95), bounds(syn[k], 5)
    else:
        syn = np.array([genesis(f) for f in files])
        out["hist_density"] = genesis(hist)
        out["syn_density"] = syn.mean(axis=0)
        out["syn_density_upper"], out["syn_density_lower"] = bounds(syn, 95), bounds(syn, 5)
    return out


# ---------------------------------------------------------------------------
# the implementation

def catch_figures():
    """Figures need map data from the network: note what they are given and draw nothing."""
    import matplotlib.backend_bases as bb
    import PlotInterface.curves as C
    import PlotInterface.figures as F
    import PlotInterface.maps as M
    bb.FigureCanvasBase.print_figure = lambda *a, **k: None

    def noted(cls, fn):
        sig = inspect.signature(fn)

        def add(self, *a, **k):
            DRAWN.append((cls.__name__, sig.bind(self, *a, **k).arguments))
        return add
    for m in (M, C, F):
        for o in list(vars(m).values()):
            if isinstance(o, type) and o.__module__.startswith("PlotInterface"):
                if "plot" in vars(o):
                    o.plot = lambda self, *a, **k: None
                if "add" in vars(o):
                    o.add = noted(o, vars(o)["add"])
        for n in ("saveFigure", "saveDistributionCurve"):
            if hasattr(m, n):
                sig = inspect.signature(getattr(m, n))
                setattr(m, n, lambda *a, _s=sig, _n=n, **k: DRAWN.append((_n, _s.bind(*a, **k).arguments)))


SAVED = {"PressureDistribution": "pressureDistribution.nc", "TrackDensity": "density.nc",
         "LongitudeCrossing": "lonCrossings.nc", "GenesisDensity": "genesis_density.nc"}


def masked(v):
    a = np.ma.masked_invalid(np.ma.asarray(v, dtype=float))
    return np.ma.filled(a, np.nan)


def read(name, out, drawn):
    """What an evaluation saved and drew, in the terms of `reference`."""
    import netCDF4
    got = {}
    if name in SAVED:
        with netCDF4.Dataset(os.path.join(out, "process", SAVED[name])) as ds:
            for n, v in ds.variables.items():
                if v.ndim == 2:
                    a = masked(v[:])
                    if v.dimensions[0] == "lon":
                        a = a.T
                    got[n] = a
                elif n in ("lat", "lon"):
                    got["axis " + n] = masked(v[:])
    if name == "PressureDistribution":
        for n in ("histCP", "synCP"):
            got[n] = np.sort(np.atleast_1d(np.loadtxt(os.path.join(out, "process", n + ".csv"))))
        for fn, a in drawn:
            if fn == "saveDistributionCurve":
                for n, k in (("hist", "y1"), ("syn", "y2"), ("upper", "y2max"), ("lower", "y2min")):
                    got["curve " + n] = np.array(a[k], float)
    if name == "LandfallRates":
        for fn, a in drawn:
            if fn == "RangeCompareCurve" and "title" in a:
                for n, k in (("hist", "y1"), ("syn", "y2"), ("upper", "y2max"), ("lower", "y2min")):
                    got["%s %s" % (a["title"], n)] = np.array(a[k], float)
    return got


def compare(name, got, c):
    want = reference(name, c)
    sp = c.get("space", 5.)
    if name in ("TrackDensity", "PressureDistribution"):
        want["axis lon"], want["axis lat"] = np.arange(LIM[0], LIM[1], sp), np.arange(LIM[2], LIM[3], sp)
    elif name == "GenesisDensity":
        want["axis lon"], want["axis lat"] = np.arange(LIM[0], LIM[1] + .5), np.arange(LIM[2], LIM[3] + .5)
    elif name == "LongitudeCrossing":
        want["axis lon"], want["axis lat"] = np.array(gate_lons()), np.array(bands()[:-1], float)
    for k, w in want.items():
        if k not in got:
            return "%s: no %s" % (name, k)
        g = got[k]
        if g.shape != w.shape:
            return "%s: %s of shape %s instead of %s" % (name, k, g.shape, w.shape)
        bad = ~((np.isnan(g) & np.isnan(w)) | (np.abs(g - w) <= 1e-4 * (1e-2 + np.abs(w))))
        if bad.any():
            i = tuple(int(q) for q in np.argwhere(bad)[0])
            return "%s: %s is %.6g at %s instead of %.6g" % (name, k, g[i], i, w[i])
    return None


def evaluate(name, cfg):
    import Evaluate
    import Utilities.config
    Utilities.config.reset()
    del DRAWN[:]
    getattr(Evaluate, name)(cfg).run()
    return list(DRAWN)


def case_text(c, d, names):
    cfg = build(d, c)
    for name in names:
        try:
            drawn = evaluate(name, cfg)
            got = read(name, os.path.join(d, "out"), drawn)
        except Exception as e:
            return "%s failed: %s: %s" % (name, type(e).__name__, str(e)[:150])
        text = compare(name, got, c)
        if text:
            return text
    return None


# ---------------------------------------------------------------------------
# cases

SQUARE = ((112., -18.), (112., -12.), (124., -12.), (124., -18.))


def polygons(n):
    """Simple polygons over a 3x3 lattice: one start each, both orientations."""
    grid = [(x, y) for x in range(3) for y in range(3)]
    for s in itertools.combinations(grid, n):
        for p in itertools.permutations(s[1:]):
            v = (s[0],) + p
            e = [(v[k], v[(k + 1) % n]) for k in range(n)]
            if any(touches(a, b, q) for a, b in e for q in v if q not in (a, b)):
                continue
            if any(side(v[k - 1], v[k], v[(k + 1) % n]) == 0 for k in range(n)):
                continue
            if any(meets(*(e[i] + e[j])) for i in range(n) for j in range(i)):
                continue
            yield v


def cast(v):
    return tuple((114.5 + 4.5 * x, -18.5 + 3.5 * y) for x, y in v)


def coast_case(coast, odd):
    """All track segments between points on a lattice, those through a vertex left out."""
    poly = [(ex(x), ex(y)) for x, y in coast]
    xs = [112.25 + 2.9 * k + (0.4 if odd else 0) for k in range(5)]
    ys = [-19.6 + 2.3 * k + (0.3 if odd else 0) for k in range(4)]
    pts = [(ex(round(x, 3)), ex(round(y, 3))) for x in xs for y in ys]
    pts = [p for p in pts if inside(p, poly) is not None]
    files = []
    for a in pts:
        f = [((float(a[0]), float(a[1]), 990.), (float(b[0]), float(b[1]), 985.)) for b in pts
             if a != b and not any(touches(a, b, v) for v in poly)]
        files.append(f)
    files.append([])
    # one long track, as the historical record
    hist = [(1990, f[k % len(f)]) for k, f in enumerate(files) if f]
    return dict(hist=hist, files=files, coast=coast)


HIST = ((1990, ((113., -13.1, 990.), (117.5, -14.3, 985.), (123.3, -15.7, 992.))),
        (1992, ((127., -11.2, 1001.), (121., -13.3, 980.), (118.2, -17.1, 975.), (109.1, -18.6, 0.))),
        (1991, ((116.1, -12.4, 995.), (116.2, -16.4, 988.))),
        (1992, ((124.4, -11.1, 950.), (131., -14.2, 960.))))


def cases(quick):
    out = []
    # every track of two points
    lons = (107.5, 110., 115., 119., 120., 128.) if quick else (107.5, 110., 112.5, 115., 119., 120., 122.25, 128.)
    lats = (-21.5, -20., -15., -12., -10.5) if quick else (-21.5, -20., -15., -14.25, -12., -10.5, -9.)
    pos = [(x, y) for x in lons for y in lats]
    every = [((a + (980.,)), (b + (991.,))) for a in pos for b in pos if clear_of_bands((a + (0.,), b + (0.,)))]
    # each simulation file holds the tracks with one start, and one track of its own is
    # the historical record
    for a in pos:
        mine = [t for t in every if t[0][:2] == a]
        for t in mine:
            if t[0][:2] == t[1][:2]:
                continue
            k = mine.index(t)
            out.append((dict(hist=[(1990, t), (1990 + k % 3, HIST[0][1])], files=[[t]], coast=SQUARE),
                        NAMES[:3]))
    # through, along and off the gates in three points
    row = (108., 110., 115., 120., 127.)
    for xs in itertools.product(row, repeat=3):
        t = tuple((x, -13.3 - 1.1 * k, 990. - k) for k, x in enumerate(xs))
        if not clear_of_bands(t):
            continue
        files = [[t], [], [t[::-1], t[:1]], [t, HIST[1][1]]]
        out.append((dict(hist=[(1991, t), (1991, t[:2])], files=files, coast=SQUARE), NAMES[:3]))
    # every subset of tracks in every two files
    some = [h[1] for h in HIST] + [((115., -11., 0.), (115., -15., 0.))]
    sets = [s for k in range(0, 4 if quick else 6) for s in itertools.combinations(some, k)]
    for a in sets:
        for b in sets:
            if a and (not quick or len(a) + len(b) < 4):
                hist = [(1990 + 2 * (k % 2), t) for k, t in enumerate(a)]
                out.append((dict(hist=hist, files=[list(a), list(b)], coast=SQUARE,
                                 space=2. if len(b) % 2 else 5.), NAMES[:2 if len(a) + len(b) > 3 else 3]))
    for n in (1, 3, 12, 42):
        out.append((dict(hist=list(HIST), files=[[HIST[k % 4][1], HIST[k % 3][1]] for k in range(n)],
                         coast=SQUARE), NAMES[:4]))
    # coasts
    for n in (3, 4) if quick else (3, 4, 5):
        for k, v in enumerate(polygons(n)):
            if quick and n == 4 and len({p[0] for p in v}) == 2:
                continue
            starts = range(n) if n == 3 and not quick else (k % n,)
            for s in starts:
                out.append((coast_case(cast(v[s:] + v[:s]), k % 2), NAMES[3:4]))
    # genesis points
    sides = ((100., -15.), (136., -15.), (120., -5.), (120., -26.))
    for k in range(5 if quick else 12):
        files = [[tuple((111. + ((7 * i + 3 * k + 5 * n) % 18) + .5 * q, -19.3 + ((4 * i + k + n) % 9) + .3 * q, 990.)
                        for q in range(1 + (i + n) % 3)) for i in range(4 + n)] for n in range(1 + k % 4)]
        files[0].append((sides[k % 4] + (990.,), (112., -15., 990.)))
        out.append((dict(hist=list(HIST) + [(1995, ((112., -18.2, 990.), (111., -19., 990.)))],
                         files=files, coast=SQUARE), NAMES[4:]))
    return out


def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    mpi.solo()
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, n, kinds = [], 0, Counter()
    for c, names in job["cases"]:
        text = case_text(c, d, names)
        n += len(names)
        for m in names:
            kinds["%s, %d files" % (m, min(len(c["files"]), 3))] += 1
        if text:
            bad.append((text, c, names))
            break
    shutil.rmtree(d, ignore_errors=True)
    return dict(bad=bad, n=n, kinds=kinds)


# ---------------------------------------------------------------------------
# processes

def shared(nfiles):
    files = [[tuple((x + .7 * n, y - .2 * n, p - n) for x, y, p in HIST[k % 4][1]) for k in range(n, n + 3)] +
             [((118. + n, -14.2 - n, 980.), (109. + n, -16., 985.))] for n in range(nfiles)]
    return dict(hist=list(HIST), files=files, coast=SQUARE)


def spread(job):
    """One evaluation on several ranks: all matchings."""
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    name, nfiles, size, mode, order, d, choices = job
    c = shared(nfiles)
    os.makedirs(d, exist_ok=True)
    cfg = build(d, c)
    out = os.path.join(d, "out")

    def prog(rank):
        if name == "all":
            import Evaluate
            import Utilities.config
            Utilities.config.reset()
            del DRAWN[:]
            Evaluate.run(cfg)
            return list(DRAWN)
        if name == "main":
            import Utilities.config
            import tcrm
            Utilities.config.reset()
            del DRAWN[:]
            sys.argv = ["tcrm.py", "-d", "-c", cfg]
            tcrm.startup()
            return list(DRAWN)
        return evaluate(name, cfg)

    def prepare():
        for f in os.listdir(os.path.join(out, "process")):
            p = os.path.join(out, "process", f)
            if os.path.isfile(p):
                os.remove(p)

    def examine(res):
        drawn = res.values[0] or []
        for n in NAMES if name in ("all", "main") else (name,):
            try:
                got = read(n, out, drawn)
            except Exception as e:
                return "%s saved nothing usable: %s: %s" % (n, type(e).__name__, str(e)[:100])
            text = compare(n, got, c)
            if text:
                return text
        return None
    if choices is not None:
        prepare()
        res = mpi.run_once(prog, size, mode, order, choices)
        text = "%s: %s" % (res.outcome, res.detail) if res.outcome != "ok" else examine(res)
        return dict(bad=[(text, list(choices))] if text else [], runs=1, transitions=len(res.trace),
                    states=set(res.states))
    st = mpi.explore(prog, size, mode, order, prepare, examine,
                     limit=1 if name in ("all", "main") else None)
    shutil.rmtree(d, ignore_errors=True)
    return {k: st[k] for k in ("bad", "runs", "transitions", "states")}


def dispatch(job):
    return work(job[1]) if job[0] == "work" else spread(job[1])


def main(ctx):
    mpi.install()
    mpi.solo()
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    inspect.stack()
    catch_figures()
    import Evaluate                                         # noqa: F401
    from Utilities.parallel import attemptParallel
    attemptParallel()
    import tcrm                                             # noqa: F401
    base = ctx.mkdir("w")
    global MSLP
    MSLP = world.mslp_nc(os.path.join(base, "mslp.nc"))
    quick = not ctx.thorough
    jobs, meta = [], []
    if ctx.replay is None or "names" in ctx.replay:
        cs = cases(quick) if ctx.replay is None else [(ctx.replay["case"], ctx.replay["names"])]
        for part in common.chunks(cs, 160):
            jobs.append(("work", dict(dir=base, cases=part)))
            meta.append(None)
    for name in NAMES + ("all", "main"):
        for nfiles in (1, 2, 3) if quick else (1, 2, 3, 4, 5):
            for size in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
                if name in ("all", "main") and (nfiles != 2 or size > 3):
                    continue
                if size == 1 and name not in ("all", "main"):
                    continue
                if size >= 4 and nfiles > (2 if quick else 4):
                    continue
                for mode in ("eager", "sync"):
                    if size == 1 and mode == "sync":
                        continue
                    case = {"evaluation": name, "files": nfiles, "size": size, "mode": mode}
                    if ctx.replay is not None and {k: ctx.replay.get(k) for k in case} != case:
                        continue
                    jobs.append(("spread", (name, nfiles, size, mode, tuple(range(size)),
                                            os.path.join(base, "o%d" % len(jobs)),
                                            ctx.replay["choices"] if ctx.replay else None)))
                    meta.append(case)
    states, kinds, n = set(), Counter(), 0
    idx = sorted(range(len(jobs)), key=lambda i: 0 if meta[i] is None else -meta[i]["size"])
    idx.sort(key=lambda i: meta[i] is None)
    for i, r in zip(idx, common.pmap(dispatch, [jobs[i] for i in idx], stop=lambda r: bool(r["bad"]))):
        if r is None:
            continue
        if meta[i] is None:
            n += r["n"]
            kinds += r["kinds"]
            for text, c, names in r["bad"]:
                ctx.violation("historical %s, simulated %s: %s" % (
                    str(c["hist"])[:200], str(c["files"])[:200], text), dict(case=c, names=names))
            continue
        ctx.add(transitions=r["transitions"], traces_validated_against_impl=r["runs"])
        states |= {hash((tuple(sorted(meta[i].items())), s)) for s in r["states"]}
        for text, ch in r["bad"]:
            ctx.violation("%(evaluation)s of %(files)d track files by %(size)d processes, %(mode)s sends: "
                          % meta[i] + text, dict(meta[i], choices=ch))
        if r["runs"] > 3:
            ctx.sample(dict(meta[i], executions=r["runs"]))
    ctx.cov["states"] = len(states)
    ctx.add(serial_evaluations=n)
    ctx.cov["evaluations_by_kind"] = dict(sorted(kinds.items()))
    ctx.assumptions = ["MPI semantics: reliable, non-overtaking, eager or synchronous standard sends",
                       "the bandwidths and densities of statsmodels for the genesis density",
                       "rendering of figures is left out"]
