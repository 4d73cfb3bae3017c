"""C15: statistics cells tile the domain, and hold the statistics of their own observations.

Numbering: all domains and cell sizes of a lattice in all hemispheres, all points of a
quarter-cell lattice.  Statistics and distributions: all placements of a bounded number
of observations with all kinds of values, minimum numbers and increments, compared with
a direct selection."""
import itertools
import logging
import math
import os
import signal
import sys
import warnings
from collections import Counter

import numpy as np

from .. import common, ext, mpi, world

MISS = float(sys.maxsize)
EPS = 1e-9


def limits(x0, x1, y0, y1):
    return {"xMin": x0, "xMax": x1, "yMin": y0, "yMax": y1}


# ---- numbering ------------------------------------------------------------------------------
def domains(quick):
    out = []
    xs = [(110, 116), (-3, 4), (-8, -2), (0, 5), (354, 360), (177, 184), (112.5, 118), (-0.5, 2.25)]
    ys = [(-25, -20), (-3, 4), (0, 5), (-6, 0), (15, 21), (-17.5, -12), (-1.25, 0.5)]
    sizes = [(1, 1), (1., 1.), (0.5, 0.5), (2., 1.), (1, 3), (5, 5), (2.5, 2.), (0.1, 0.3)]
    if not quick:
        xs += [(-180, -170), (100.1, 103.7), (0.3, 0.9)]
        ys += [(-89, -85), (0.1, 3.3)]
        sizes += [(0.3, 0.7), (10., 10.), (0.25, 4.), (0.05, 1.)]
    for x in xs:
        for y in ys:
            for s in sizes:
                out.append((x, y, s))
    return out


def number_case(c):
    """(text, points, cells)"""
    from Utilities import stats
    (x0, x1), (y0, y1), (dx, dy) = c
    lim, space = limits(x0, x1, y0, y1), {"x": dx, "y": dy}
    last = int(stats.maxCellNum(lim, space))
    nx, ny = int(math.ceil((x1 - x0) / dx - 1e-6)), int(math.ceil((y1 - y0) / dy - 1e-6))
    # a sliver of a cell may be counted for sizes that are not exact in binary
    if last + 1 not in {a * b for a in (nx, nx + 1) for b in (ny, ny + 1)}:
        return "%d cells instead of %d" % (last + 1, nx * ny), 0, 0
    exact = last + 1 == nx * ny
    boxes = []
    for n in range(last + 1):
        if not stats.validCellNum(n, lim, space):
            return "cell %d of %d is not valid" % (n, last + 1), 0, 0
        w, t = stats.getCellLonLat(n, lim, space)
        if not (x0 - EPS <= w < x1 and y0 < t <= y1 + EPS):
            return "cell %d of %d lies at (%g, %g)" % (n, last + 1, w, t), 0, 0
        boxes.append((w, t))
        if exact:
            # the part of the cell in the domain
            e, s = min(w + dx, x1), max(t - dy, y0)
            m = stats.getCellNum((w + e) / 2, (s + t) / 2, lim, space)
            if m != n:
                return "the middle of cell %d is in cell %s" % (n, m), 0, 0
    if len(set((round(a, 7), round(b, 7)) for a, b in boxes)) != last + 1:
        return "cells share a position", 0, 0
    for n in (-1, last + 1, last + 50):
        if stats.validCellNum(n, lim, space):
            return "cell %d is valid, with %d cells" % (n, last + 1), 0, 0
        try:
            r = stats.getCellLonLat(n, lim, space)
            return "cell %d has a position, %s, with %d cells" % (n, r, last + 1), 0, 0
        except IndexError:
            pass
    pts = 0
    xs = [x0 + k * dx / 4. for k in range(4 * nx)] + [x1 - 1e-7]
    ys = [y1 - k * dy / 4. for k in range(4 * ny)] + [y0 + 1e-7]
    for x in xs:
        if x >= x1:
            continue
        for y in ys:
            if y <= y0:
                continue
            n = stats.getCellNum(x, y, lim, space)
            pts += 1
            if not (n == int(n) and 0 <= n <= last):
                return "the point (%r, %r) is in cell %s of %d" % (x, y, n, last + 1), pts, last + 1
            w, t = boxes[int(n)]
            if not (w - EPS <= x <= w + dx + EPS and t - dy - EPS <= y <= t + EPS):
                return "the point (%r, %r) is in cell %d, at (%g, %g)" % (x, y, n, w, t), pts, last + 1
    for x, y in ((x0 - 0.01, y1), (x1, y1), (x1 + 0.3, y1), (x0, y0), (x0, y0 - 0.01), (x0, y1 + 0.01), (x0 - 2 * dx, y1), (x0, y1 + 2 * dy)):
        pts += 1
        try:
            n = stats.getCellNum(x, y, lim, space)
            return "the point (%r, %r), outside of the domain, is in cell %s" % (x, y, n), pts, last + 1
        except ValueError:
            pass
    return None, pts, last + 1


# ---- statistics -----------------------------------------------------------------------------
class Late(BaseException):
    pass


def late(*args):
    raise Late()


class Insufficient(Exception):
    pass


def grow(obs, lim, space, inc, n, land, least):
    """The values that belong to a cell, and how often it was enlarged."""
    (w, t) = n
    e, s = w + space["x"], t - space["y"]
    k = 0

    def inside():
        return np.array([v for x, y, f, v in obs if s <= y < t and w <= x < e and
                         (land is None or (f > 0) == land) and v < MISS])
    p = inside()
    while len(p) <= least or p.max() == p.min():
        box = (w, e, s, t)
        w, e = max(w - inc["x"], lim["xMin"]), min(e + inc["x"], lim["xMax"])
        s, t = max(s - inc["y"], lim["yMin"]), min(t + inc["y"], lim["yMax"])
        if box == (w, e, s, t):
            raise Insufficient()
        k += 1
        p = inside()
    return p, k


def expected(obs, lim, space, inc, cell, land, least):
    try:
        return grow(obs, lim, space, inc, cell, land, least)
    except Insufficient:
        if land:
            return grow(obs, lim, space, inc, cell, False, least)
        raise


def lagged(p):
    return float(np.dot(p[1:], p[:-1]) / np.dot(p, p))


def stats_case(c, d):
    """(text, class)"""
    from StatInterface.generateStats import GenerateStats
    from StatInterface.GenerateDistributions import GenerateDistributions
    obs = [tuple(o) for o in c["obs"]]
    lim, space, inc = limits(*c["domain"]), dict(x=c["space"][0], y=c["space"][1]), dict(x=c["inc"][0], y=c["inc"][1])
    x0, x1, y0, y1 = c["domain"]
    cells = [(x, y) for y in np.arange(y1, y0, -space["y"]) for x in np.arange(x0, x1, space["x"])]
    ll = np.array([[x, y, f] for x, y, f, v in obs], float)
    v = np.array([o[3] for o in obs], float)
    want, fails, grown = [], False, 0
    try:
        for cell in cells:
            for land in (False, True):
                p, k = expected(obs, lim, space, inc, cell, land, c["least"])
                want.append(p)
                grown = max(grown, k)
    except Insufficient:
        fails = True
    try:
        g = GenerateStats(v.copy(), ll.copy(), lim, space, inc, minSample=c["least"], angular=c["angular"])
        err = None
    except Exception as e:
        err = e
    if fails:
        if err is None:
            return "statistics for cells without enough observations", "fails"
        return None, "too few observations"
    if err is not None:
        return "statistics failed: %s: %s" % (type(err).__name__, str(err)[:150]), ""
    q = g.coeffs
    for rnd in ("", " after saving and loading"):
        if rnd:
            f = os.path.join(d, "s.nc")
            if os.path.exists(f):
                os.remove(f)
            try:
                g.save(f, "test")
                h = GenerateStats(f, ll, lim, space, inc, calculateLater=True)
                h.load(f)
            except Exception as e:
                return "saving failed: %s: %s" % (type(e).__name__, str(e)[:150]), ""
            q = h.coeffs
        for i, cell in enumerate(cells):
            for land in (0, 1):
                p = want[2 * i + land]
                if c["angular"]:
                    z = np.exp(1j * np.radians(p)).mean()
                    mu, sig = np.angle(z) % (2 * np.pi), np.sqrt(max(0., 1 - abs(z)))
                    if abs(z) < 1e-6:
                        mu = None
                else:
                    mu, sig = p.mean(), p.std()
                al = lagged(p)
                for name, w in (("mu", mu), ("sig", sig), ("alpha", al), ("phi", math.sqrt(max(0., 1 - al ** 2))), ("min", p.min())):
                    got = float(getattr(q, ("l" if land else "") + name)[i])
                    if w is None:
                        continue
                    if name == "mu" and c["angular"]:
                        got = w + (got - w + np.pi) % (2 * np.pi) - np.pi
                    if not abs(got - w) <= 1e-4 + 1e-5 * abs(w):
                        return "%s%s of cell %d (%s) is %.6g instead of %.6g, from %s%s" % (
                            "land " if land else "", name, i, cell, got, w, p.tolist(), rnd), ""
    if c.get("kde"):
        # the distributions of each cell
        want, fails = [], False
        try:
            for cell in cells:
                want.append(grow(obs, lim, space, inc, cell, None, c["least"])[0])
        except Insufficient:
            fails = True
        from StatInterface.KDEParameters import KDEParameters
        refs = []
        if not fails:
            try:
                refs = [KDEParameters("gau").generateKDE(w, c["kde"]) for w in want]
            except Exception:
                # no distribution of such values (no bandwidth)
                return None, "kde: no bandwidth"
        ini = world.write_config(os.path.join(d, "c.ini"), {"Output": {"Path": d}})
        try:
            gd = GenerateDistributions(ini, lim, space, inc, "gau", minSamplesCell=c["least"])
            res = gd.allDistributions(ll.copy(), v.copy(), None, kdeStep=c["kde"])
            err = None
        except Exception as e:
            err = e
        if fails:
            return (None if err is not None else "distributions of cells without enough observations"), "kde: too few"
        if err is not None:
            return "distributions failed: %s: %s" % (type(err).__name__, str(err)[:150]), ""
        if sorted(set(int(k) for k in res[:, 0])) != list(range(len(cells))):
            return "distributions for cells %s of %d" % (sorted(set(res[:, 0])), len(cells)), ""
        for i, cell in enumerate(cells):
            own = res[res[:, 0] == i]
            ref = refs[i]
            if own[:, 1].shape != ref[:, 0].shape or not np.allclose(own[:, 1], ref[:, 0]) or not np.allclose(own[:, 2], ref[:, 2], equal_nan=True):
                return "the distribution of cell %d (%s) is not that of %s" % (i, cell, want[i].tolist()), ""
    return None, "grown %d times" % grown


def cases(quick):
    """All placements of observations."""
    dom = (10., 13., -2., 0.)
    # inside of cells, on their edges and corners, and outside of the domain
    spots = [(10.5, -0.5), (11.25, -0.75), (12.5, -1.5), (11., -1.), (10., -2.), (13., -0.5)]
    vals = (10., 20., 40., 15., 30., 25.)
    n = 4 if quick else 5
    for k in range(1, n + 1):
        for at in itertools.product(range(len(spots)), repeat=k):
            if k == n and quick and at[0] > at[1]:
                continue
            for least in (0, 1, 2):
                if least >= k:
                    continue
                yield dict(domain=dom, space=(1., 1.), inc=(1., 0.5), least=least, angular=False,
                           obs=[spots[a] + (0, vals[i]) for i, a in enumerate(at)])
    # equal and missing values, land and sea
    for at in itertools.product(range(4), repeat=3):
        for kinds in itertools.product((10., 20., MISS), repeat=3):
            for flags in itertools.product((0, 1), repeat=3):
                if quick and sum(flags) == 2:
                    continue
                yield dict(domain=dom, space=(1., 1.), inc=(0.5, 1.), least=1, angular=False,
                           obs=[spots[a] + (f, v) for a, v, f in zip(at, kinds, flags)] +
                           [(12.25, -0.25, 0, 60.), (10.75, -1.75, 0, 70.)])
    # angles; cells that do not divide the domain; other hemispheres
    for at in itertools.product(range(4), repeat=4):
        for vs in ((350., 20., 100., 5.), (0., 180., 90., 270.)):
            yield dict(domain=dom, space=(2., 1.5), inc=(1., 1.), least=1, angular=True,
                       obs=[spots[a] + (i % 2, v) for i, (a, v) in enumerate(zip(at, vs))])
    for at in itertools.product(range(6), repeat=3):
        for dx, dy in ((-11., 1.), (-30., 20.), (347., -20.)):
            yield dict(domain=(dom[0] + dx, dom[1] + dx, dom[2] + dy, dom[3] + dy), space=(1., 1.), inc=(1., 1.), least=1,
                       angular=False, obs=[(spots[a][0] + dx, spots[a][1] + dy, 0, vals[i]) for i, a in enumerate(at)])
    # distributions
    for at in itertools.product(range(6), repeat=4):
        if quick and at[0] > at[1]:
            continue
        yield dict(domain=dom, space=(1., 1.), inc=(1., 1.), least=2, angular=False, kde=2.,
                   obs=[(12.25, -0.25, 0, 60.), (10.75, -1.75, 0, 4.)] + [spots[a] + (i % 2, (10. + 3 * i, 20. + i, MISS, 40. - i * i, 33.5 - i)[(i + a) % 5]) for i, a in enumerate(at)])
    groups = ((10., 10.), (10., 10.), (4., 9., 15., 12.), (60., 35., 48., 22.))
    for at in itertools.product(range(6), repeat=4):
        if at[0] > at[1]:
            continue
        for least in (1, 3):
            yield dict(domain=dom, space=(1., 1.), inc=(0.5, 0.5), least=least, angular=False, kde=2.,
                       obs=[spots[a] + (0, v) for g, a in zip(groups, at) for v in g])


# ---- running --------------------------------------------------------------------------------
def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, seen = [], Counter()
    pts = cells = 0
    signal.signal(signal.SIGALRM, late)
    for kind, c in job["cases"]:
        signal.alarm(60)
        if kind == "number":
            try:
                text, p, m = number_case(c)
            except (Exception, Late) as e:
                text, p, m = "%s: %s" % (type(e).__name__, str(e)[:150]), 0, 0
            pts += p
            cells += m
            cls = "domain %s" % (c,)
        else:
            try:
                text, cls = stats_case(c, d)
            except Late:
                text, cls = "not finished after 60 seconds", ""
        signal.alarm(0)
        seen[cls] += 1
        if text:
            bad.append((text, kind, c))
            break
    return bad, seen, pts, cells


def tidy(c):
    return eval(repr(c))


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mpi.install()
    ext.install(ext.build_all())
    from .. import pipe
    pipe.no_plots()
    import StatInterface.GenerateDistributions  # noqa: before the forks
    import StatInterface.generateStats  # noqa
    import inspect
    inspect.stack()
    d = ctx.mkdir("c15")
    if ctx.replay:
        bad, _, _, _ = work(dict(cases=[(ctx.replay["kind"], ctx.replay["case"])], dir=d))
        for text, kind, c in bad:
            ctx.violation(text, dict(kind=kind, case=c))
        return
    quick = not ctx.thorough
    a = [("number", c) for c in domains(quick)]
    b = [("stats", c) for c in cases(quick)]
    jobs = [dict(cases=p, dir=d) for p in common.chunks(a, 56)] + [dict(cases=p, dir=d) for p in common.chunks(b, max(8, len(b) // 60))]
    seen = Counter()
    n = 0
    for res in common.pmap(work, jobs, stop=lambda r: bool(r[0])):
        if res is None:
            continue
        bad, s, pts, cells = res
        seen.update(s)
        n += sum(s.values())
        ctx.add(points=pts, cells=cells)
        for text, kind, c in bad:
            ctx.violation("%s (%s)" % (text, describe(kind, c)), dict(kind=kind, case=c))
    ctx.explored(n, seen, "domains, and placements by how far cells had to grow")
    ctx.cov["by_outcome"] = {k: v for k, v in sorted(seen.items()) if not k.startswith("domain ")}
    ctx.cov["domains"] = len(a)
    ctx.cov["placements"] = len(b)
    ctx.sample("domain 3W-4E, 3S-4N, cells of 2 x 1 degrees: all points of a quarter-cell lattice")
    ctx.sample(describe("stats", b[len(b) // 3][1]))
    ctx.sample(describe("stats", b[-1][1]))


def describe(kind, c):
    if kind == "number":
        return "longitude %s, latitude %s, cells of %s degrees" % c if isinstance(c, tuple) else "domain %s" % (c,)
    return "domain %s, cells %s, increment %s, minimum %d, observations (lon, lat, land, value) %s" % (
        c["domain"], c["space"], c["inc"], c["least"], ["missing" if o[3] == MISS else o for o in c["obs"]])
