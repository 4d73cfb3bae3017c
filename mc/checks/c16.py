"""C16: distribution tables are valid, and samples are the quantiles of the deviates.

All small samples of a lattice, all kernels and steps, for plain, angular and periodic
values; every table is then sampled with all its critical deviates.  Origins: all small
probability grids over a lattice."""
import contextlib
import itertools
import logging
import os
import sys
import warnings
from collections import Counter
from fractions import Fraction

import numpy as np

from .. import common, ext, mpi, world

MISS = float(sys.maxsize)
BELOW1 = float(np.nextafter(1., 0.))
KERNELS = ("gau", "epa", "uni", "tri", "biw", "triw", "cos", "cos2")


# ---- distributions of small samples ---------------------------------------------------------
def density(data, grid, kernel, clip):
    from statsmodels.nonparametric import bandwidths
    from statsmodels.nonparametric.kde import kernel_switch
    k = kernel_switch[kernel]()
    inner = data[(data > clip[0]) & (data < clip[1])]
    k.seth(bandwidths.select_bandwidth(inner, "normal_reference", k))
    return np.nan_to_num(np.array([float(np.squeeze(k.density(data, x))) for x in grid]))


def reference(v, kernel, step, mode):
    """(grid, pdf, cdf), or None where no density exists."""
    v = np.array([x for x in v if x < MISS])
    if len(v) < 2:
        return None
    if mode == "angle":
        grid = np.arange(0., 360., step)
        clip = (grid[0], grid[-1])
    elif mode == "year":
        grid = np.arange(1, 366, step)
        v = np.concatenate([v - 365, v, v + 365])
        clip = (grid[0] - 365, grid[-1] + 365)
    else:
        grid = np.arange(v.min(), v.max(), step)
        clip = (grid[0], grid[-1]) if len(grid) else (0, 0)
    if len(grid) < 2:
        return None
    inner = v[(v > clip[0]) & (v < clip[1])]
    if len(inner) < 2 or inner.max() == inner.min():
        return None
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        pdf = density(v, grid, kernel, clip) * (3. if mode == "year" else 1.)
    if pdf.sum() == 0:
        return None
    c = pdf.cumsum()
    return grid, pdf, c / c[-1]


def table_text(t, ref):
    grid, pdf, c = ref
    if t.shape != (len(grid), 3):
        return "a table of shape %s instead of %d rows" % (t.shape, len(grid))
    if not np.allclose(t[:, 0], grid, atol=1e-9):
        i = int(np.argmax(np.abs(t[:, 0] - grid)))
        return "value %d of the table is %r instead of %r" % (i, t[i, 0], grid[i])
    text = cdf_text(t[:, 0], t[:, 2])
    if text:
        return text
    for j, want, name in ((1, pdf, "density"), (2, c, "cumulative probability")):
        if not np.allclose(t[:, j], want, rtol=1e-6, atol=1e-9):
            i = int(np.argmax(np.abs(t[:, j] - want)))
            return "the %s at %g is %.6g instead of %.6g" % (name, grid[i], t[i, j], want[i])


def cdf_text(x, c):
    if not (np.diff(x) > 0).all():
        return "values are not in increasing order"
    if not ((np.diff(c) >= 0).all() and c[0] >= 0 and c[-1] == 1.):
        return "not a cumulative distribution: %s ... %r" % (c[:4], c[-1])


def critical(c, most=6):
    """Critical deviates of a table of cumulative probabilities."""
    idx = range(len(c)) if len(c) <= most else sorted({0, 1, len(c) // 2, len(c) - 3, len(c) - 2, len(c) - 1})
    us = {0., BELOW1, 0.5}
    for i in idx:
        p = float(c[i])
        us |= {p, float(np.nextafter(p, 0.)), float(np.nextafter(p, 1.))}
        if i:
            us.add((p + float(c[i - 1])) / 2)
    return sorted(u for u in us if 0. <= u < 1.)


@contextlib.contextmanager
def deviates(us):
    """numpy's global generator hands out the given deviates."""
    left = list(us)

    def take(*shape):
        if shape and isinstance(shape[0], tuple):
            shape = shape[0]
        if not shape or shape[0] is None:
            return left.pop(0)
        n = int(np.prod(shape))
        r = np.array(left[:n]).reshape(shape)
        del left[:n]
        return r
    names = {"rand": take, "random": lambda size=None: take(size), "random_sample": lambda size=None: take(size),
             "uniform": lambda low=0., high=1., size=None: low + (high - low) * take(size)}
    old = {n: getattr(np.random, n) for n in names}
    for n, f in names.items():
        setattr(np.random, n, f)
    try:
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def sample_text(x, c):
    """Sample a table with its critical deviates. (text, samples)"""
    from StatInterface.SamplingParameters import SamplingParameters
    from TrackGenerator.TrackGenerator import ppf
    us = critical(c)
    want = [float(x[next(i for i in range(len(c)) if c[i] >= u)]) for u in us]
    t = np.array([x, c], float).T
    keep = t.copy()
    sp = SamplingParameters(t)
    for how in ("ppf", "one", "many", "set"):
        try:
            if how == "ppf":
                got = [float(ppf(u, t)) for u in us]
            elif how == "one":
                with deviates(us):
                    got = [float(sp.generateOneSample()) for u in us]
            else:
                if how == "set":
                    sp = SamplingParameters().setParameters(t)
                with deviates(us):
                    got = [float(g) for g in sp.generateSamples(len(us))]
        except Exception as e:
            return "sampling (%s) failed: %s: %s" % (how, type(e).__name__, e), 0
        for u, g, w in zip(us, got, want):
            if g != w:
                return "deviate %r gives %r instead of %r (%s)" % (u, g, w, how), 0
    if not np.array_equal(t, keep):
        return "the table was changed by sampling", 0
    return None, 4 * len(us)


def kde_case(c, d):
    from StatInterface.GenerateDistributions import GenerateDistributions
    from StatInterface.KDEParameters import KDEParameters
    v = np.array(c["values"], float)
    ref = reference(v, c["kernel"], c["step"], c["mode"])
    kw = dict(angular=c["mode"] == "angle", periodic=365 if c["mode"] == "year" else False)
    if ref is None:
        return None, "no density", 0
    try:
        t = KDEParameters(c["kernel"]).generateKDE(v.copy(), c["step"], **kw)
    except Exception as e:
        return "no distribution: %s: %s" % (type(e).__name__, e), "", 0
    text = table_text(np.asarray(t), ref)
    if text:
        return text, "", 0
    text, n = sample_text(t[:, 0], t[:, 2])
    if text or not c.get("stored") or len(set(v[v < MISS])) == 1:
        return text, "%s, %d rows" % (c["mode"], len(ref[0])), n
    # through the files read for the generation of tracks
    from netCDF4 import Dataset
    from TrackGenerator.TrackGenerator import ppf
    os.makedirs(os.path.join(d, "process"), exist_ok=True)
    ini = world.write_config(os.path.join(d, "c.ini"), {"Output": {"Path": d}})
    lim = {"xMin": 10., "xMax": 12., "yMin": -1., "yMax": 0.}
    ll = np.array([[10.5, -0.5]] * len(v) + [[11.5, -0.5]] * len(v))
    w = np.where(v < MISS, v + 1., v)
    try:
        gd = GenerateDistributions(ini, lim, {"x": 1., "y": 1.}, {"x": 1., "y": 1.}, c["kernel"], minSamplesCell=1)
        gd.allDistributions(ll, np.concatenate([v, w]), "tst", c["step"], kw["angular"], kw["periodic"])
    except Exception as e:
        return "storing failed: %s: %s" % (type(e).__name__, e), "", 0
    f = os.path.join(d, "process", "all_cell_cdf_tst")
    txt = np.genfromtxt(f, delimiter=",", comments="%")
    with Dataset(f + ".nc") as ds:
        nc = np.array([ds["cell"][:], ds["x"][:], ds["CDF"][:]], float).T
    for name, tab in (("text", txt), ("netCDF", nc)):
        for cell, vals in ((0, v), (1, w)):
            own = tab[tab[:, 0] == cell, 1:]
            r = ref if cell == 0 else reference(vals, c["kernel"], c["step"], c["mode"])
            if len(own) != len(r[0]) or not np.allclose(own[:, 0], r[0], atol=1e-4) or not np.allclose(own[:, 1], r[2], atol=1e-5):
                return "the %s table of cell %d is not that of its values" % (name, cell), "", 0
            bad = cdf_text(own[:, 0], own[:, 1])
            if bad:
                return "%s table of cell %d: %s" % (name, cell, bad), "", 0
            for u in critical(own[:, 1]):
                try:
                    g = float(ppf(u, own))
                except Exception as e:
                    return "deviate %r on the %s table: %s: %s" % (u, name, type(e).__name__, e), "", 0
                n += 1
                if g != own[next(i for i in range(len(own)) if own[i, 1] >= u), 0]:
                    return "deviate %r on the %s table gives %r" % (u, name, g), "", 0
    return None, "stored, %d rows" % len(ref[0]), n


def step_case(c, d):
    text, n = sample_text(np.arange(len(c["c"])) * 2.5 - 3., np.array(c["c"]))
    return text, "steps %d" % len(set(c["c"])), n


# ---- origins --------------------------------------------------------------------------------
def origin_case(c, d):
    from StatInterface.SamplingOrigin import SamplingOrigin
    z = c["z"]
    ny, nx = len(z), len(z[0])
    x = 140. + 2. * np.arange(nx)
    y = (-10. - 1.5 * np.arange(ny)) if c["down"] else (-20. + 1.5 * np.arange(ny))
    cols = [sum(z[j][i] for j in range(ny)) for i in range(nx)]
    cum = [Fraction(sum(cols[:i + 1]), sum(cols)) for i in range(nx)]
    arr = np.array(z, float) * c["scale"]
    if c["scale"] == 1e-300:
        arr = np.array(z, float) * 1e-300
    us = [0., 1e-15, BELOW1]
    for p in cum:
        us += [float(p) - 1e-9, float(p) + 1e-9]
    us = sorted({u for u in us if 0 <= u < 1})
    so = SamplingOrigin(arr, x, y)
    n = 0
    lots, wants = [], []
    for u in us:
        i = next(i for i in range(nx) if cum[i] >= u)
        if u == 0:
            i = next(i for i in range(nx) if cum[i] > 0)
        rows = [Fraction(sum(z[k][i] for k in range(j + 1)), cols[i]) for j in range(ny)]
        vs = [1e-15, BELOW1]
        for p in rows:
            vs += [float(p) - 1e-9, float(p) + 1e-9]
        for w in sorted({0.} | {w for w in vs if 0 <= w < 1}):
            j = next(j for j in range(ny) if rows[j] >= w)
            try:
                g = so.ppf(u, w)
            except Exception as e:
                return "deviates (%r, %r): %s: %s" % (u, w, type(e).__name__, e), "", 0
            n += 1
            lots.append((u, w))
            wants.append((x[i], y[j]))
            if u == 0 or w == 0:
                # any place with probability
                ok = float(g[0]) in x and float(g[1]) in y
            else:
                ok = (float(g[0]), float(g[1])) == (x[i], y[j])
            if not ok:
                return "deviates (%r, %r) give (%r, %r) instead of (%r, %r)" % (u, w, g[0], g[1], x[i], y[j]), "", 0
    try:
        with deviates([v for p in lots for v in p]):
            a = [tuple(float(v) for v in so.generateOneSample()) for p in lots]
        with deviates([p[0] for p in lots] + [p[1] for p in lots]):
            b = [tuple(float(v) for v in r) for r in so.generateSamples(len(lots))]
    except Exception as e:
        return "samples failed: %s: %s" % (type(e).__name__, e), "", 0
    for p, w, ga, gb in zip(lots, wants, a, b):
        if 0 in p:
            continue
        if ga != w or gb != w:
            return "deviates %r sample %r and %r instead of %r" % (p, ga, gb, w), "", 0
    return None, "origins, %d columns without storms" % sum(1 for v in cols if v == 0), 3 * n


def place_case(c, d):
    """Origins from data, through the file."""
    from StatInterface.KDEOrigin import KDEOrigin
    from StatInterface.SamplingOrigin import SamplingOrigin
    os.makedirs(os.path.join(d, "process"), exist_ok=True)
    ini = world.write_config(os.path.join(d, "o.ini"), {"Output": {"Path": d}})
    lim = {"xMin": 110., "xMax": 116., "yMin": -16., "yMax": -12.}
    if c["north"]:
        lim.update(yMin=12., yMax=16.)
    ll = np.array([[110. + x, lim["yMin"] + y] for x, y in c["at"]])
    np.savetxt(os.path.join(d, "process", "init_lon_lat"), np.column_stack([ll, np.zeros(len(ll))]), delimiter=",")
    try:
        k = KDEOrigin(ini, lim, c["step"])
        x, y, p = k.generateKDE(save=True)
        so = SamplingOrigin(os.path.join(d, "process", "originPDF.nc"))
    except Exception as e:
        return "no distribution of origins: %s: %s" % (type(e).__name__, e), "", 0
    x, y, p = np.asarray(x), np.asarray(y), np.asarray(p)
    if p.shape != (len(x), len(y)):
        return "densities of shape %s for %d longitudes, %d latitudes" % (p.shape, len(x), len(y)), "", 0
    if abs(x[0] - lim["xMin"]) > 1e-6 or abs(x[-1] + c["step"] - lim["xMax"]) > 1e-6 or y.max() > lim["yMax"] or y.min() <= lim["yMin"] - 1e-6:
        return "origins are sampled outside of the domain", "", 0
    # the density is greatest near the points
    h = np.asarray(k.bw, float)
    full = np.array([[np.mean(np.exp(-((a - ll[:, 0]) / h[0]) ** 2 / 2 - ((b - ll[:, 1]) / h[1]) ** 2 / 2)) for b in y] for a in x])
    full /= 2 * np.pi * h[0] * h[1]
    if not np.allclose(p, full, rtol=1e-6, atol=1e-12):
        return "the density of origins is not that of the data", "", 0
    cx = full.sum(axis=1).cumsum()
    cx /= cx[-1]
    n = 0
    for u in np.arange(0.005, 1., 0.045):
        i = int(np.argmax(cx >= u))
        if abs(cx[i] - u) < 1e-4 or (i and abs(cx[i - 1] - u) < 1e-4):
            continue
        cy = full[i].cumsum()
        cy /= cy[-1]
        for w in np.arange(0.005, 1., 0.045):
            j = int(np.argmax(cy >= w))
            if abs(cy[j] - w) < 1e-4 or (j and abs(cy[j - 1] - w) < 1e-4):
                continue
            g = so.ppf(u, w)
            n += 1
            if abs(g[0] - x[i]) > 1e-4 or abs(g[1] - y[j]) > 1e-4:
                return "quantiles (%.3f, %.3f) are at (%g, %g) instead of (%g, %g)" % (u, w, g[0], g[1], x[i], y[j]), "", 0
    return None, "origins of %d points" % len(ll), n


def default_case(c, d):
    """The tables of a run with default settings."""
    from StatInterface.KDEParameters import KDEParameters
    from Utilities import config as cfg
    ini = world.write_config(os.path.join(d, "d.ini"), {"Output": {"Path": d}})
    with open(ini) as fh:
        lines = [l for l in fh if not l.lower().startswith("kde")]
    with open(ini, "w") as fh:
        fh.writelines(lines)
    cfg.reset()
    cc = cfg.ConfigParser()
    cc.read(ini)
    kind, step = cc.get("StatInterface", "kdeType"), cc.getfloat("StatInterface", "kdeStep")
    try:
        t = KDEParameters(kind).generateKDE(np.array([1., 3., 4., 9.]), step)
    except Exception as e:
        return "the default kernel %r: %s: %s" % (kind, type(e).__name__, str(e)[:80]), "", 0
    return cdf_text(t[:, 0], t[:, 2]), "default", 1


RUN = dict(kde=kde_case, step=step_case, origin=origin_case, place=place_case, default=default_case)


def cases(quick):
    out = [("default", {})]
    # plain values: all multisets, with repeated values, gaps, extremes and missing values
    lattice = (-1.5, 0., 0.25, 3., 10., MISS)
    for n in range(3, 6 if quick else 7):
        for v in itertools.combinations_with_replacement(lattice, n):
            if quick and n == 5 and v.count(MISS) > 1:
                continue
            for k in KERNELS:
                for step in (0.5, 3.) if quick else (0.5, 3., 0.3, 1.):
                    out.append(("kde", dict(values=v, kernel=k, step=step, mode="plain", stored=k == "gau" and step == 0.5 and n > 3)))
    for v in itertools.combinations_with_replacement((0., 10., 90.5, 180., 359.75), 4):
        for k in KERNELS:
            for step in (10.,) if quick else (10., 1., 7.):
                out.append(("kde", dict(values=v, kernel=k, step=step, mode="angle", stored=False)))
    for v in itertools.combinations_with_replacement((1., 2., 40., 200.5, 365., 366.), 3):
        for k in ("gau", "epa", "biw"):
            for step in (5., 8., 0.25) if k == "gau" or not quick else (8.,):
                if step == 0.25 and quick and len(set(v)) < 3:
                    continue
                out.append(("kde", dict(values=v, kernel=k, step=step, mode="year", stored=step == 8. and k == "gau")))
    # tables of a few steps
    ps = (0., 2. ** -60, 0.25, 1. / 3, 0.5, BELOW1, 1.)
    for n in range(1, 6 if quick else 8):
        for c in itertools.combinations_with_replacement(ps, n):
            if c[-1] == 1.:
                out.append(("step", dict(c=c)))
    # origins
    for ny, nx in ((2, 2), (2, 3), (3, 2), (3, 3)):
        for z in itertools.product((0, 1, 3) if quick or nx * ny < 9 else (0, 1, 2, 5), repeat=nx * ny):
            if not any(z) or (quick and nx * ny == 9 and sum(1 for v in z if v == 3) > 1):
                continue
            z = tuple(z[i * nx:(i + 1) * nx] for i in range(ny))
            for down in (True, False):
                out.append(("origin", dict(z=z, down=down, scale=0.125 if down else 1e-300)))
    spots = ((1., 1.), (1.5, 3.), (5., 0.5), (3., 2.), (4.5, 3.5))
    for at in itertools.combinations(spots, 4):
        for extra in ((0.5, 0.75), (2.5, 1.25)) if quick else ((0.5, 0.75), (2.5, 1.25), (5.5, 3.75)):
            for north in (0, 1):
                out.append(("place", dict(at=at + (extra,), north=north, step=0.5 if north else 0.25)))
    return out


# ---- running --------------------------------------------------------------------------------
def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, seen, n = [], Counter(), 0
    for kind, c in job["cases"]:
        text, cls, k = RUN[kind](c, d)
        seen[cls] += 1
        n += k
        if text:
            bad.append((text, kind, c))
            break
    return bad, seen, n


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mpi.install()
    ext.install(ext.build_all())
    from .. import pipe
    pipe.no_plots()
    import StatInterface.GenerateDistributions  # noqa: before the forks
    import StatInterface.KDEOrigin  # noqa
    import StatInterface.SamplingOrigin  # noqa
    import StatInterface.SamplingParameters  # noqa
    import TrackGenerator.TrackGenerator  # noqa
    import inspect
    inspect.stack()
    d = ctx.mkdir("c16")
    if ctx.replay:
        for text, kind, c in work(dict(cases=[(ctx.replay["kind"], ctx.replay["case"])], dir=d))[0]:
            ctx.violation(text, dict(kind=kind, case=c))
        return
    allc = cases(not ctx.thorough)
    seen = Counter()
    kinds = Counter(k for k, c in allc)
    jobs = [dict(cases=allc[i::120], dir=d) for i in range(120)]
    for res in common.pmap(work, jobs, stop=lambda r: bool(r[0])):
        if res is None:
            continue
        bad, s, n = res
        seen.update(s)
        ctx.add(samples_drawn=n)
        for text, kind, c in bad:
            ctx.violation("%s (%s %s)" % (text, kind, c), dict(kind=kind, case=c))
    ctx.explored(sum(seen.values()), seen, "kinds of tables and grids, by size")
    ctx.cov["cases_by_kind"] = dict(kinds)
    for k in ("kde", "step", "origin", "place"):
        own = [c for kk, c in allc if kk == k]
        ctx.sample("%s: %s" % (k, own[len(own) // 2]))
