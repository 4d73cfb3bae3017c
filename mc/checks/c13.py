"""C13: compiled and pure-Python kernels compute the same values.

Every case of a complete lattice is evaluated by the same calls in two processes, one
where the extensions (built from the present sources) are found and one where they are
not, and the results compared."""
import itertools
import logging
import math
import os
import pickle

import numpy as np

from .. import common, ext, mpi

LATS = (-35., -12.5, -0.5, 0., 0.5, 10., 25.)
PRES = ((1010., 1008.), (1008., 990.), (101500., 95000.), (1013.25, 880.))
RMAX = (5000., 20000., 37000., 150000.)
BETA = (0.8, 1.0, 1.3, 1.9, 2.5)
VFM = (0., 0.7, 6., 15., 60.)
THETA = (0., 1.2, math.pi, -2., 5.9)
LAM = np.array([-6.0, -math.pi, -1.5, -0.4, 0., 0.1, math.pi / 2, 2.2, math.pi, 4.5])


def radii(rmax):
    e = 1e-9
    return np.array(sorted([1e-27, 1e-3, 100., 1e3, 5e3, 0.5 * rmax, rmax * (1 - e), rmax, rmax * (1 + e), 1.3 * rmax,
                            2 * rmax * (1 - e), 2 * rmax, 2 * rmax * (1 + e), 3 * rmax, 1e5, 3e5, 7e5, 1.5e6]))


def layouts(a):
    """The same values laid out differently in memory."""
    big = np.full(tuple(2 * n for n in a.shape), np.nan)
    big[tuple(slice(None, None, 2) for _ in a.shape)] = a
    yield "C", np.ascontiguousarray(a)
    yield "F", np.asfortranarray(a)
    yield "strided", big[tuple(slice(None, None, 2) for _ in a.shape)]
    yield "reversed", np.ascontiguousarray(a[::-1])[::-1]


def attempt(fn):
    try:
        r = fn()
    except (MemoryError, KeyboardInterrupt):
        raise
    except Exception as e:
        return ("raised", type(e).__name__)
    return ("ok", [np.array(x, dtype=float) for x in (r if isinstance(r, tuple) else (r,))])


def profile(name, lat, pres, rmax, beta, vmax=None):
    from wind import windmodels
    kw = {"beta": beta} if name == "holland" else {}
    p = windmodels.profile(name)(lat, 120., pres[0], pres[1], rmax, **kw)
    if vmax:
        p.vMax = vmax
    return p


def profiles():
    for lat, pres, rmax in itertools.product(LATS, PRES, RMAX):
        for b in BETA:
            yield ("holland", lat, pres, rmax, b, None)
        yield ("holland", lat, pres, rmax, 1.3, 31.)
        for n in ("schloemer", "willoughby", "powell"):
            yield (n, lat, pres, rmax, None, None)


def velocity(key):
    p = profile(*key)
    R = radii(key[3])
    return attempt(lambda: (p.velocity(R.copy()), p.vorticity(R.copy())))


def kepert_cases(thorough):
    for key in profiles():
        if key[0] in ("holland", "powell") or thorough or key[2] == PRES[1]:
            yield key


def field(case):
    """All forward speeds and directions for a profile, as one block per model."""
    from wind import windmodels
    key, model = case
    R, lam = np.meshgrid(radii(key[3]), LAM, indexing="ij")
    out = []
    for vfm, th in itertools.product(VFM, THETA):
        p = profile(*key)
        r = attempt(lambda: windmodels.field(model)(p).field(R.copy(), lam.copy(), vfm, th, 70.))
        if r[0] != "ok":
            return r
        out += r[1]
    return ("ok", out)


def layout(case):
    """Results for different memory layouts and shapes of the same grid."""
    from wind import windmodels
    what, lay, shape = case
    R0, lam0 = np.meshgrid(radii(20000.), LAM[:8], indexing="ij")
    R0, lam0 = R0.reshape(shape), lam0.reshape(shape)
    R, lam = dict(layouts(R0))[lay], dict(layouts(lam0))[lay]
    p = profile("holland", -15., (1010., 950.), 20000., 1.4)
    if what == "profile":
        return attempt(lambda: (p.velocity(R), p.vorticity(R)))
    if what == "pressure":
        from PressureInterface.pressureProfile import PrsProfile
        return attempt(lambda: PrsProfile(R, 101000., 95000., 20000., -15., 120., 1.4).holland())
    return attempt(lambda: windmodels.field(what)(p).field(R, lam, 7., 1.3, 70.))


def pressure(case):
    from PressureInterface.pressureProfile import PrsProfile
    name, lat, pres, rmax, beta = case
    R = np.array([radii(rmax), radii(rmax)[::-1]])
    f = 1 if pres[0] > 10000 else 100
    return attempt(lambda: getattr(PrsProfile(R, pres[0] * f, pres[1] * f, rmax, lat, 120., beta), name)())


def grid(case):
    from Utilities import maputils
    lon, lat, margin, res, lim = case
    r = attempt(lambda: maputils.makeGrid(lon, lat, margin, res, *lim))
    if r[0] != "ok":
        return r
    R, th = r[1]
    # the direction is an angle, and undefined at the centre itself
    away = np.where(R > 1e-6, 1., 0.)
    return ("ok", [R, away * np.cos(th), away * np.sin(th)])


AK_SCALE = ((1., 0.), (0.1, 113.4), (-0.7, -18.), (250., 98000.))


# nearly equal slopes next to large changes
AK_NEAR = (0., 1., 1.001, 1.00001, 40.)


def view(a, lay):
    """The same values in another layout: apart, backwards, a column of a record array."""
    if lay == "C":
        return a
    if lay == "record":
        r = np.zeros(len(a), dtype=[("s", "S3"), ("a", "f8"), ("b", "f4")])
        r["a"] = a
        return r["a"]
    if lay == "apart":
        b = np.full(3 * len(a), -77.5)
        b[::3] = a
        return b[::3]
    return np.ascontiguousarray(a[::-1])[::-1]


def akima_layout(case):
    from Utilities.akima import interpolate
    n, lx, ly, li = case
    x = np.cumsum([6., 1., 0.25, 3., 6., 2., 1.][:n]) + 727.25
    y = np.array([3., 1., 4., 1., 5., 9., 2.][:n])
    xi = np.unique(np.concatenate([x] + [x[:-1] + f * np.diff(x) for f in (0.1, 0.25, 0.5, 0.9)]))
    return attempt(lambda: interpolate(view(x, lx), view(y, ly), view(xi, li)))


def akima(case):
    """A whole family: all values at the knots."""
    from Utilities.akima import interpolate
    dx, levels, (k, off), t0 = case
    x = t0 + np.concatenate([[0.], np.cumsum(dx)])
    xi = np.unique(np.concatenate([x] + [x[:-1] + f * np.diff(x) for f in (0.1, 0.25, 0.5, 0.9)]))
    xi = np.clip(xi, x[0], x[-1])
    out = []
    for y in itertools.product(range(levels) if levels else AK_NEAR, repeat=len(x)):
        yy = off + k * np.array(y, float)
        r = attempt(lambda: interpolate(x, yy, xi))
        if r[0] != "ok":
            return r
        out.append(r[1][0])
    return ("ok", [np.array(out) - off])


KIND = dict(velocity=velocity, field=field, layout=layout, pressure=pressure, grid=grid, akima=akima,
            akima_layout=akima_layout)


def cases(thorough):
    out = [("velocity", k) for k in profiles()]
    for m in ("kepert", "hubbert", "mcconochie"):
        for k in kepert_cases(thorough):
            if m == "kepert" or thorough or (k[2] == PRES[1] and k[3] == 20000.):
                out.append(("field", (k, m)))
    n = len(radii(20000.))
    for w in ("profile", "pressure", "kepert", "hubbert", "mcconochie"):
        for lay in ("C", "F", "strided", "reversed"):
            for shape in ((n, 8), (n * 8,), (n // 2, 2, 8), (1, n * 8), (n * 8, 1), (4, n * 2)):
                out.append(("layout", (w, lay, shape)))
    for name in ("holland", "schloemer", "willoughby", "powell"):
        for lat, pres, rmax, b in itertools.product(LATS, PRES, RMAX, BETA if name == "holland" else (1.3,)):
            out.append(("pressure", (name, lat, pres, rmax, b)))
    none = (None,) * 4
    for lon in (0., 0.5, 113.25, 113.254, 179.95, 180., 359.9, -170.3):
        for lat in (-60., -18.35, -0.3, 0., 0.25, 45.017):
            for margin, res in ((0.3, 0.1), (2., 0.5), (1., 0.05), (0.25, 0.02)):
                out.append(("grid", (lon, lat, margin, res, none)))
            for lim in ((lon - 1, lon + 2, lat - 3, lat + 1), (lon + 0.5, lon + 0.9, lat + 0.3, lat + 0.4)):
                for margin, res in ((0., 0.1), (1., 0.25)):
                    out.append(("grid", (lon, lat, margin, res, lim)))
    steps = {n: [(1.,) * n] for n in range(2, 8)}
    for n in (2, 3, 4):
        steps[n] += [p for p in itertools.product((6., 1., 0.25), repeat=n)]
    steps[5] += [(6., 6., 3., 3., 6.), (0.1, 0.2, 0.3, 0.4, 0.5)]
    for n, ps in steps.items():
        for dx in ps:
            for sc in AK_SCALE:
                out.append(("akima", (dx, {2: 4, 3: 4, 4: 3, 5: 3, 6: 2, 7: 2}[n], sc, 0. if n % 2 else 727.25)))
    for dx in ((1., 1., 1.), (1., 1., 1., 1.), (6., 1., 0.25, 6.)):
        for sc in AK_SCALE:
            out.append(("akima", (dx, 0, sc, 0.)))
    lays = ("C", "apart", "backwards", "record")
    for n in range(3, 8):
        for k in itertools.product(lays, repeat=3):
            out.append(("akima_layout", (n,) + k))
    return out


def evaluate(pure, cs):
    ext.pure(pure)
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if not pure:
        import importlib
        for n in ext.EXTS:
            importlib.import_module(n)
    return [KIND[k](c) for k, c in cs]


def differ(kind, a, b):
    """Text if the results a (compiled) and b (pure) are not the same."""
    if a[0] != b[0] or a[0] == "raised":
        return None if a == b else "%s with the extension, %s without" % (a[:2] if a[0] == "raised" else a[0],
                                                                           b[:2] if b[0] == "raised" else b[0])
    tol = 1e-6 if kind in ("grid", "field", "layout") else 1e-7
    for n, (x, y) in enumerate(zip(a[1], b[1])):
        if x.shape != y.shape:
            return "output %d has shape %s with the extension, %s without" % (n, x.shape, y.shape)
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            i = np.argwhere(fx != fy)[0]
            return "output %d at %s is %r with the extension, %r without" % (n, i.tolist(), x[tuple(i)], y[tuple(i)])
        d = np.abs(np.where(fx, x, 0) - np.where(fx, y, 0))
        scale = np.abs(y[fy]).max() if fy.any() else 0.
        # within an accuracy of the value itself and of the largest value
        bad = d > tol * np.abs(np.where(fx, y, 0)) + 0.1 * tol * scale + 1e-9
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(bad, d, -1)), d.shape)
            return "output %d at %s is %r with the extension, %r without" % (n, list(map(int, i)), x[i], y[i])
    return None


def job(cs):
    st = dict(n=0, values=0, raised=0, outcomes=set(), bad=[])
    r = [common.call_forked(evaluate, p, cs, timeout=600) for p in (False, True)]
    for x in r:
        if x[0] == "died":
            return dict(st, bad=[("the process died (status %s) in one of these cases" % x[1], cs)])
        if x[0] != "ok":
            raise common.CheckError("evaluation failed: %r" % (x,))
    for (k, c), a, b in zip(cs, r[0][1], r[1][1]):
        st["n"] += 1
        st["values"] += sum(x.size for x in a[1]) if a[0] == "ok" else 0
        t = differ(k, a, b)
        if t:
            st["bad"].append(("%s %s: %s" % (k, c, t), [(k, c)]))
        if a[0] == "ok":
            st["outcomes"].add(pickle.dumps((k, c)))
        else:
            st["raised"] += 1
    return st


def tup(x):
    return tuple(tup(i) for i in x) if isinstance(x, (list, tuple)) else x


def main(ctx):
    mpi.install()
    rule = "different arguments"
    if ctx.replay:
        for text, case in job([tup(c) for c in ctx.replay])["bad"]:
            ctx.violation(text, ctx.replay)
        return
    cs = cases(ctx.thorough)
    values = 0
    kinds = {}
    jobs = common.chunks(cs, 32)
    for j, r in zip(jobs, common.pmap(job, jobs)):
        ctx.explored(r["n"], r["outcomes"], rule)
        values += r["values"]
        ctx.add(rejected_by_both=r["raised"])
        for text, case in r["bad"]:
            ctx.violation(text, case)
        ctx.sample({"case": j[0]}, limit=8)
    for k, c in cs:
        kinds[k] = kinds.get(k, 0) + 1
    ctx.cov["values_compared"] = values
    ctx.cov["cases_by_kernel"] = kinds
    ctx.assumptions += ["relative accuracy 1e-7 (1e-6 for grids and wind fields, whose compiled versions use "
                        "single-precision constants)", "interpolation points inside the knots, in increasing order"]
