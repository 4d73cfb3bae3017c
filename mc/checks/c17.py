"""C17: return levels depend only on the cell's own winds, and rise with the period.

All record sets of a lattice of speeds, many at a time as the cells of grids, through the
four methods; compared with a direct evaluation (order statistics; L-moments from their
definition and a root search).  Confidence limits: all orders of the random selection."""
import itertools
import logging
import math
import os
import random
import warnings
from collections import Counter

import numpy as np

from .. import common, ext, mpi, world

NO = -9999.
NPYR = 365.25


# ---- direct evaluation ----------------------------------------------------------------------
def lmoments(v):
    """The first L-moments of a sample, from probability weighted moments."""
    v = sorted(float(x) for x in v)
    n = len(v)
    b = [math.fsum(math.comb(i, r) * x for i, x in enumerate(v)) / n / math.comb(n - 1, r) for r in range(3)]
    return b[0], 2 * b[1] - b[0], 6 * b[2] - 6 * b[1] + b[0]


def gev_shape(t3):
    def f(k):
        if abs(k) < 1e-9:
            return 2 * math.log(3) / math.log(2) - 3 - t3
        return 2 * (1 - 3. ** -k) / (1 - 2. ** -k) - 3 - t3
    lo, hi = -0.999999, 40.
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return lo


def gev(v, years, least, block):
    """(levels, loc, scale, shape) of annual maxima, or None where it cannot be told."""
    none = (np.full(len(years), NO), NO, NO, NO)
    pos = [x for x in v if x != 0]
    if not pos or min(pos) == max(pos) or len(pos) < least:
        return none
    l1, l2, l3 = lmoments(v)
    t3 = l3 / l2
    if abs(t3) > 1 - 1e-6:
        if abs(abs(t3) - 1) < 1e-6:
            return None
        return none
    k = gev_shape(t3)
    if abs(k) < 1e-4:
        return None
    g = math.gamma(1 + k)
    a = l2 * k / (g * (1 - 2. ** -k))
    x = l1 - a * (1 - g) / k
    if k <= 0:
        return np.full(len(years), NO), x, a, k
    w = []
    for t in years:
        if t <= block:
            w.append(NO)
        else:
            w.append(x + a / k * (1 - (-math.log(1 - block / t)) ** k))
    return np.array(w), x, a, k


def emp(v, years, numsim):
    n = int(NPYR * numsim)
    top = sorted((float(x) for x in v), reverse=True)
    top += [0.] * (n - len(top))
    out = []
    for t in years:
        # the r-th highest has a recurrence interval of (n + 1) / r observations
        r = (n + 1) / (t * NPYR)
        lo = min(int(math.floor(r + 1e-12)), n)
        hi = lo + 1
        if lo < 1:
            out.append(None)
            continue
        ta, tb = (n + 1.) / lo / NPYR, (n + 1.) / hi / NPYR
        va, vb = top[lo - 1], top[hi - 1] if hi <= n else 0.
        out.append(vb + (va - vb) * (t - tb) / (ta - tb))
    return out


# ---- grids of cells -------------------------------------------------------------------------
def grid_of(cells, n, nx):
    """Records of cells as an array (record, lat, lon)."""
    ny = (len(cells) + nx - 1) // nx
    v = np.zeros((n, ny, nx), "f")
    for i, c in enumerate(cells):
        v[:, i // nx, i % nx] = c
    return v


def run_grid(method, v, c):
    import hazard
    years = np.array(c["years"], "f")
    if method == "GEV":
        return hazard.calculateGEV(v.copy(), years, NO, c["least"], c["block"])
    f = dict(GPD=hazard.calculateGPD, power=hazard.calculatePower, emp=hazard.calculateEMP)[method]
    return f(v.copy(), years, c["numsim"], NO, c["least"], c["block"])


def rising(w):
    w = np.asarray(w, float)
    return (np.diff(w) >= -1e-4 * (1 + np.abs(w[:-1]))).all()


def near(a, b, tol=2e-4):
    return abs(float(a) - float(b)) <= tol * (1 + abs(float(b)))


def fit_text(c):
    """(text, fits by kind)"""
    m, cells = c["method"], c["cells"]
    seen = Counter()
    n = len(cells[0])
    arr = grid_of(cells, n, c["nx"])
    try:
        rp, loc, sc, sh = run_grid(m, arr, c)
    except Exception as e:
        return "%s fit failed: %s: %s" % (m, type(e).__name__, str(e)[:150]), seen
    if rp.shape != (len(c["years"]),) + arr.shape[1:]:
        return "return levels of shape %s" % (rp.shape,), seen
    last = {}
    for i in range(arr.shape[1] * arr.shape[2]):
        j, k = divmod(i, c["nx"])
        v = tuple(cells[i]) if i < len(cells) else (0.,) * n
        w = rp[:, j, k]
        what = "%s of records %s" % (m, "%s" % (v,) if n <= 10 else "%d, highest %s" % (n, sorted(v)[-8:]))
        pars = (loc[j, k], sc[j, k], sh[j, k])
        if max(v) <= 0:
            seen["no wind"] += 1
            if (w != 0).any() or any(p != 0 for p in pars):
                return "%s: a cell without wind has return levels %s" % (what, w), seen
            continue
        if not rising(w):
            return "%s: return levels %s fall with the period" % (what, w), seen
        key = tuple(sorted(v))
        if key in last:
            # another order of the same records, among other neighbours
            if not (np.array_equal(w, last[key][0]) and pars == last[key][1]):
                return "%s: levels %s, and %s in another order" % (what, w, last[key][0]), seen
            seen["same records"] += 1
            continue
        last[key] = (w, pars)
        if m == "GEV":
            ref = gev(v, c["years"], c["least"], c["block"])
            if ref is None:
                seen["undecided"] += 1
                continue
            seen["fit" if ref[0][-1] != NO else "no fit"] += 1
            for a, b in list(zip(w, ref[0])) + list(zip(pars, ref[1:])):
                if not near(a, b):
                    return "%s: levels %s and parameters %s instead of %s, %s" % (what, w, pars, ref[0], ref[1:]), seen
        elif m == "emp":
            ref = emp(v, c["years"], c["numsim"])
            seen["empirical"] += 1
            for t, a, b in zip(c["years"], w, ref):
                if b is not None and not near(a, b, 1e-5):
                    return "%s: the %g-year level is %.6g instead of %.6g" % (what, t, a, b), seen
        elif m == "power":
            if w[0] == NO:
                seen["no fit"] += 1
                if not ((w == NO).all() and all(p == NO for p in pars)):
                    return "%s: partly missing: %s, %s" % (what, w, pars), seen
                if power_sure(v, c):
                    return "%s: no levels, where the curve can be fitted" % what, seen
                continue
            seen["fit"] += 1
            text = power_text(v, w, pars, c)
            if text:
                return "%s: %s" % (what, text), seen
        else:
            text, kind = gpd_text(v, w, pars, c)
            seen[kind] += 1
            if text:
                return "%s: %s" % (what, text), seen
    return None, seen


def power_points(v, c):
    n = int(NPYR * c["numsim"])
    top = np.sort(np.array(v, float))[::-1]
    ari = (n + 1.) / np.arange(1, len(top) + 1) / NPYR
    mean = top[top > 0].mean()
    return top, ari[top > mean], top[top > mean]


def curve(t, a, b, g):
    return a - b * np.power(t, g)


def power_sure(v, c):
    """The curve is fitted easily, from any of several first guesses."""
    from scipy.optimize import curve_fit
    top, x, y = power_points(v, c)
    if len(set(y)) < 4:
        return False
    sse = []
    for a, g in ((1., -0.1), (1.1, -0.1), (1., -0.2), (1., -0.05)):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                p = curve_fit(curve, x[::-1], y[::-1], p0=[a * top[0], a * top[0], g], maxfev=2000)[0]
            except Exception:
                return False
        sse.append(float(((curve(x, *p) - y) ** 2).sum()))
    return max(sse) - min(sse) < 1e-3


def power_text(v, w, pars, c):
    """The fit is as good as can be found."""
    from scipy.optimize import curve_fit
    top, x, y = power_points(v, c)
    f = curve
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            p = curve_fit(f, x[::-1], y[::-1], p0=[top[0], top[0], -0.1], maxfev=10000)[0]
        except Exception:
            return "levels %s where no curve can be fitted" % (w,)
    want = f(np.array(c["years"], float), *p)
    best = float(((f(x, *p) - y) ** 2).sum())
    if all(near(a, b, 2e-3) for a, b in zip(w, want)):
        return None
    mine = float(((f(x, *[float(q) for q in pars]) - y) ** 2).sum())
    own = f(np.array(c["years"], float), *[float(q) for q in pars])
    if mine <= best * 1.01 + 1e-3 and all(near(a, b, 2e-2) for a, b in zip(w, own)):
        return None
    return "levels %s instead of %s" % (w, want)


def gpd_text(v, w, pars, c):
    from scipy.stats import genpareto
    if len(v) < c["least"]:
        if (w != NO).any():
            return "levels %s from too few records" % (w,), "too few"
        return None, "too few"
    s = np.sort(np.array(v, "f"))
    n = int(NPYR * c["numsim"])
    mu = np.percentile(s.astype(float), 99.5)
    over = s[s > mu]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            shape, _, scale = genpareto.fit(over, floc=mu)
    except Exception:
        shape = 1.
    if shape > 0:
        if (w != NO).any() or any(p != NO for p in pars):
            return "levels %s where no curve can be fitted" % (w,), "no fit"
        return None, "no fit"
    rate = len(over) / float(n)
    # the likelihood is flat for so few exceedances: the fit must be about as likely
    own = [float(p) for p in pars]
    if w[0] == NO or not near(own[0], mu, 1e-4):
        return "levels %s, parameters %s instead of %s" % (w, pars, (mu, scale, shape)), "fit"
    best = mine = 0.
    if shape > -0.9:
        # below, the likelihood has no bound
        best = genpareto.nnlf((shape, mu, scale), over)
        mine = genpareto.nnlf((own[2], mu, own[1] * (1 + 1e-6)), over)
    want = own[0] + own[1] / own[2] * ((np.array(c["years"]) * NPYR * rate) ** own[2] - 1)
    if not all(near(a, b, 2e-3) for a, b in zip(w, want)) or not mine <= best + 0.1 * (1 + abs(best)):
        return "levels %s, parameters %s instead of levels %s, or parameters %s" % (w, pars, want, (mu, scale, shape)), "fit"
    return None, "fit" if shape > -0.9 else "steep fit"


# ---- confidence limits ----------------------------------------------------------------------
def ci_text(c):
    """All orders of the random selection of years."""
    import hazard
    years = np.array(c["years"], "f")
    cells = c["cells"]
    n = len(cells[0])
    size = c["size"]
    k = 0
    kinds = Counter()
    low, high = (100 - c["range"]) / 2., 100 - (100 - c["range"]) / 2.
    # the selections that differ
    parts = set()
    orders = []
    for p in itertools.permutations(range(n)):
        q = tuple(frozenset(p[i * size:(i + 1) * size]) for i in range(n // size))
        if frozenset(q) not in parts:
            parts.add(frozenset(q))
            orders.append(p)
    arr = grid_of(cells, n, len(cells))
    for order in orders:
        def shuffle(x, *a):
            x[:] = np.array(x)[list(order)]
        old = random.shuffle, np.random.shuffle, np.random.permutation
        random.shuffle = np.random.shuffle = shuffle
        np.random.permutation = lambda x: np.array(x)[list(order)]
        try:
            up, lo = hazard.calculateCI(arr.copy(), years, NO, c["least"], c["block"], size, c["range"])
        except Exception as e:
            return "confidence limits failed: %s: %s" % (type(e).__name__, str(e)[:150]), k, kinds
        finally:
            random.shuffle, np.random.shuffle, np.random.permutation = old
        k += 1
        for j, v in enumerate(cells):
            what = "records %s in the order %s" % (v, order)
            u, l = up[:, 0, j], lo[:, 0, j]
            if max(v) <= 0:
                kinds["no wind"] += 1
                if (u != NO).any() or (l != NO).any():
                    return "%s: limits %s, %s without wind" % (what, l, u), k, kinds
                continue
            fits = []
            for i in range(n // size):
                sub = [v[q] for q in order[i * size:(i + 1) * size]]
                f = gev(sub, c["years"], c["least"] / 10., c["block"]) if max(sub) > 0 else (np.zeros(len(years)),)
                fits.append(f)
            if any(f is None for f in fits):
                kinds["undecided"] += 1
                continue
            kinds["fits %d" % sum(1 for f in fits if f[0][-1] not in (NO, 0.))] += 1
            for y in range(len(years)):
                ws = [f[0][y] for f in fits if f[0][y] != NO]
                want = (np.percentile(ws, low), np.percentile(ws, high)) if ws else (NO, NO)
                if not (near(l[y], want[0], 1e-3) and near(u[y], want[1], 1e-3)):
                    return "%s: the limits of the %g-year level are %.5g and %.5g instead of %.5g and %.5g" % (
                        what, years[y], l[y], u[y], want[0], want[1]), k, kinds
    return None, k, kinds


# ---- wind field files -----------------------------------------------------------------------
def files_text(c, d):
    """The records of a tile, from the files."""
    import hazard
    import shutil
    w = os.path.join(d, "windfield")
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    lon, lat = np.arange(4) * 0.1 + 140, -20 + np.arange(3) * 0.1
    fields = []
    for i, yr in enumerate(c["at"]):
        f = 10. * (i + 1) + np.arange(12).reshape(3, 4) * (1 if i % 2 else -1) + 30.
        fields.append(f)
        world.grid_nc(os.path.join(w, "gust.%03d-%05d.nc" % (c["track"][i], yr)), lon, lat, {"vmax": f})
    lim = c["limits"]
    x1, x2, y1, y2 = lim
    try:
        a = np.asarray(hazard.aggregateWindFields(w, c["numsim"], lim))
        b = np.asarray(hazard.loadFilesFromPath(w, lim)) if fields else None
    except Exception as e:
        return "loading failed: %s: %s" % (type(e).__name__, str(e)[:150])
    for y in range(c["numsim"]):
        own = [f for f, yr in zip(fields, c["at"]) if yr == y]
        want = np.max(own, axis=0)[y1:y2, x1:x2] if own else np.zeros((y2 - y1, x2 - x1))
        if a[y].shape != want.shape or not np.allclose(a[y], want):
            return "the annual maxima of year %d are %s instead of %s" % (y, a[y].tolist(), want.tolist())
    if len(a) != c["numsim"]:
        return "%d annual maxima for %d years" % (len(a), c["numsim"])
    if b is not None:
        want = sorted(f[y1:y2, x1:x2].ravel().tolist() for f in fields)
        if sorted(x.ravel().tolist() for x in b) != want:
            return "the records are %s instead of %s" % (b.tolist(), want)


# ---- enumeration ----------------------------------------------------------------------------
def cases(quick):
    out = []
    speeds = (0., 18., 25.5, 40., 41., 90.)

    def add(method, sets, n, perm, **kw):
        cells = []
        for s in sets:
            cells += [s] if not perm else perm(s)
        step = kw.pop("step", 60)
        for i in range(0, len(cells), step):
            # an empty cell among the others
            out.append(("fit", dict(method=method, cells=cells[i:i + step] + [(0.,) * n], nx=7, **kw)))

    def some(s):
        ps = sorted(set(itertools.permutations(s)))
        return ps[:1] + ps[len(ps) // 3:len(ps) // 3 + 1] + ps[-1:]

    def every(s):
        return sorted(set(itertools.permutations(s)))
    for n in range(3, 9 if quick else 11):
        sets = list(itertools.combinations_with_replacement(speeds, n))
        for least, block, years in ((3, 1, (1., 2., 5., 50., 1000.)), (n, 1, (2., 3., 100.)), (n - 1, 5, (4., 5., 10., 500.))):
            add("GEV", sets, n, every if n <= (4 if quick else 6) else lambda s: [tuple(s[::-1])],
                least=least, block=block, years=years, numsim=4)
    for numsim, years in ((4, (0.01, 0.5, 1., 2., 4.)), (2, (0.5, 1., 1.5, 2.)), (7, (1., 3., 7.)), (1, (0.25, 1.))):
        for n in range(1, 6 if quick else 7):
            sets = list(itertools.combinations_with_replacement(speeds, n))
            add("emp", sets, n, every if n <= 3 else some, least=1, block=1, years=years, numsim=numsim)
            if n >= 3:
                add("power", sets, n, some, least=1, block=1, years=years[1:], numsim=numsim, step=40)
    # enough high records for a curve
    for k in (5, 6) if quick else (5, 6, 7):
        sets = [(10., 15., 12., 18., 26., 20., 17., 28.) + t for t in itertools.combinations((38., 41., 45., 47., 52., 54., 60., 71.), k)]
        add("power", sets, k + 8, lambda s: [tuple(s[::-1]), tuple(sorted(s))], least=1, block=1, years=(0.5, 2., 5., 50.), numsim=12, step=40)
    # long records, so that some exceed the threshold
    tops = (37., 40., 47., 60.)
    for k in (3, 5, 6) if quick else (3, 5, 6, 7, 8):
        sets = []
        for t in itertools.combinations_with_replacement(tops, k):
            n = 200 * k - 100 if k != 6 else 1100
            low = [5. + (7 * i) % 31 for i in range(n - k)]
            sets.append(tuple(list(t) + low))
            if t[0] == t[-1] or t[1] == t[-2]:
                sets.append(tuple(low[:9] + list(t) + low[9:]))
        add("GPD", sets, n, None, least=50, block=1, years=(1., 2., 10., 100.), numsim=20, step=4)
    # years in which no wind was recorded are records too
    for k in (5, 6):
        n = 200 * k - 100
        for calm in (100, 300, n - 60, n - 30):
            sets = []
            for t in itertools.combinations_with_replacement(tops, k):
                if quick and t[1] != t[2]:
                    continue
                low = [0.] * calm + [5. + (7 * i) % 31 for i in range(n - calm - k)]
                sets.append(tuple(low[1::2] + list(t) + low[::2]))
            add("GPD", sets, n, None, least=50, block=1, years=(1., 2., 10., 100.), numsim=20, step=4)
    add("GPD", [(10.,) * 9, (10., 30.) * 4 + (40.,)], 9, None, least=10, block=1, years=(1., 10.), numsim=4)
    # confidence limits
    for v in itertools.combinations_with_replacement((0., 18., 20., 33., 41., 70., 88.), 6):
        if len(set(v)) < (5 if quick else 4) or (quick and v.count(0.) > 2):
            continue
        out.append(("ci", dict(cells=[v, (0.,) * 6, v[::-1]], size=3, range=90 if sum(v) % 2 else 50, years=(2., 10., 100.), least=10, block=1)))
    # files
    for k in range(0, 4):
        for at in itertools.product(range(3), repeat=k):
            for lim in ((0, 4, 0, 3), (1, 3, 0, 2), (2, 3, 2, 3)):
                if quick and k == 3 and lim[0] == 2:
                    continue
                out.append(("files", dict(at=at, track=tuple(at[:i].count(a) for i, a in enumerate(at)), limits=lim, numsim=3)))
    # years whose numbers end alike
    out.append(("files", dict(at=(1, 11, 10), track=(0, 0, 1), limits=(0, 4, 0, 3), numsim=12)))
    return out


def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, seen, n = [], Counter(), 0
    for kind, c in job["cases"]:
        if kind == "fit":
            text, s = fit_text(c)
            for k, v in s.items():
                seen["%s: %s" % (c["method"], k)] += v
        elif kind == "ci":
            text, k, s = ci_text(c)
            n += k
            for k, v in s.items():
                seen["limits: %s" % k] += v
        else:
            text = files_text(c, d)
            seen["files"] += 1
        if text:
            bad.append((text, kind, c))
            break
    return bad, seen, n


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mpi.install()
    ext.install(ext.build_all())
    import hazard  # noqa: before the forks
    import scipy.optimize, scipy.stats  # noqa
    d = ctx.mkdir("c17")
    if ctx.replay:
        c = ctx.replay["case"]
        if "cells" in c:
            c["cells"] = [tuple(v) for v in c["cells"]]
        if "limits" in c:
            c["limits"] = tuple(c["limits"])
        for text, kind, c in work(dict(cases=[(ctx.replay["kind"], c)], dir=d))[0]:
            ctx.violation(text, dict(kind=kind, case=c))
        return
    allc = cases(not ctx.thorough)
    seen = Counter()
    jobs = [dict(cases=allc[i::160], dir=d) for i in range(160)]
    for res in common.pmap(work, jobs, stop=lambda r: bool(r[0])):
        if res is None:
            continue
        bad, s, n = res
        seen.update(s)
        ctx.add(selections=n)
        for text, kind, c in bad:
            ctx.violation(text, dict(kind=kind, case=c))
    ctx.explored(sum(seen.values()), seen, "methods and kinds of fits")
    ctx.cov["fits_by_kind"] = dict(sorted(seen.items()))
    ctx.cov["grids"] = len(allc)
    ctx.sample("GEV, at least 3 records, 18 25.5 40 41 in all orders as the cells of one grid")
    ctx.sample("limits: %s" % ([c for k, c in allc if k == "ci"][0],))
    ctx.sample("files: %s" % ([c for k, c in allc if k == "files"][-1],))
