"""C24: site-exposure multipliers applied to station time series.

All directions of a fine lattice, all short sequences of records over an alphabet of winds
and pressures, and all ways of having or lacking series for several stations go through
the real program; the local series and the lists of extremes are compared with values
computed from the text of the input.
"""
import csv
import itertools
import logging
import math
import os
import shutil
import sys
import warnings

from .. import common

DIRS = ("n", "ne", "e", "se", "s", "sw", "w", "nw")
HEAD = "Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure"
# eight multipliers per station, all different
MULT = ((1.10, .80, .95, 1.25, .70, 1.05, .90, 1.40),
        (.60, 1.15, 1.30, .75, .85, 1.45, 1.20, .65),
        (1.00, 1.00, 1.00, 1.00, 2.00, 1.00, 1.00, 1.00),
        (.50, .55, .56, .57, .58, .59, .61, .62))


def wind(deg, speed):
    """Components of a wind that comes from `deg`."""
    return (-speed * math.sin(math.radians(deg)), -speed * math.cos(math.radians(deg)))


def lines(stn, recs):
    out = [HEAD]
    for k, (deg, speed, p) in enumerate(recs):
        u, v = wind(deg, speed)
        out.append("%s,%s,%9.5f,%9.5f,%6.2f,%6.2f,%6.2f,%6.2f,%7.2f" % (
            stn, "2001-02-03 %02d:%02d" % (k // 60, k % 60), 115.5, -20.25, speed, u + 0., v + 0., deg % 360, p))
    return out


def factor(m, u, v):
    """Multiplier for the direction the wind comes from, linear between the eight."""
    d = math.degrees(math.atan2(-u, -v)) % 360
    k = int(d // 45) % 8
    t = (d - 45 * (d // 45)) / 45
    return m[k] * (1 - t) + m[(k + 1) % 8] * t, d


def shp(path, stations):
    import shapefile
    w = shapefile.Writer(path, shapefile.POINT)
    w.field("Name", "C", 20)
    names = list(DIRS)
    for n in names[4:] + names[:4]:                   # not in the order of the compass
        w.field("m4_" + n, "N", 12, 4)
    w.field("CODE", "C", 16)
    for k, (stn, m) in enumerate(stations):
        w.point(115.5, -20.25)
        vals = dict(zip(DIRS, m))
        w.record("place %d" % k, *[vals[n] for n in names[4:] + names[:4]], stn)
    w.close()


def read(path):
    with open(path) as fh:
        rows = list(csv.reader(fh))
    if [c.strip() for c in rows[0]] != HEAD.split(","):
        raise ValueError("columns %s" % rows[0])
    return [[c.strip() for c in r] for r in rows[1:]]


def near(a, b, tol):
    return abs(a - b) <= tol


def same(got, want, tol, what):
    """want: station, time, lon, lat, speed, u, v, bearing, pressure"""
    if got[:2] != want[:2]:
        return "%s belongs to %s %s instead of %s %s" % ((what,) + tuple(got[:2]) + tuple(want[:2]))
    g = [float(x) for x in got[2:]]
    for n, a, b in zip(HEAD.split(",")[2:], g, want[2:]):
        d = min(abs(a - b), 360 - abs(a - b)) if n == "Bearing" else abs(a - b)
        if not d <= tol:
            return "%s: %s of %s is %s instead of %s" % (what, n, want[1], a, b)
    return None


def check(d, case):
    """case: [(station, number of multipliers, records or None)]"""
    from Utilities import tsmultipliers
    import Utilities.config
    shutil.rmtree(d, ignore_errors=True)
    ts = os.path.join(d, "out", "process", "timeseries")
    os.makedirs(ts)
    stations = [(s, MULT[m]) for s, m, _ in case]
    shp(os.path.join(d, "stn.shp"), stations)
    text = {}
    for s, m, recs in case:
        if recs is not None:
            text[s] = lines(s, recs)
            with open(os.path.join(ts, "ts.%s.csv" % s), "w") as fh:
                fh.write("\n".join(text[s]) + "\n")
    cfg = os.path.join(d, "c.ini")
    with open(cfg, "w") as fh:
        fh.write("[Input]\nLocationFile=%s\n[Timeseries]\nLocationFile=%s\nStationID=CODE\n[Output]\nPath=%s\n"
                 "[Logging]\nLogFile=%s\nLogLevel=ERROR\nVerbose=False\nDatestamp=False\n" % (
                     os.path.join(d, "stn.shp"), os.path.join(d, "stn.shp"), os.path.join(d, "out"),
                     os.path.join(d, "ts.log")))
    Utilities.config.reset()
    before = os.getcwd()
    argv = sys.argv
    try:
        if len(case) % 2:
            tsmultipliers.process_timeseries(cfg)
        else:
            sys.argv = ["tsmultipliers.py", "-d", "-c", cfg]
            tsmultipliers.startup()
            logging.disable(logging.CRITICAL)
    except Exception as e:
        return "failed: %s: %s" % (type(e).__name__, e)
    finally:
        sys.argv = argv
        os.chdir(before)
    return common.judge(compare, ts, case, text)


def compare(ts, case, text):
    top, low = [], []
    loc = os.path.join(ts, "local")
    files = {"local_maxima.csv", "local_minima.csv"} | {"ts.%s.csv" % s for s in text}
    if set(os.listdir(loc)) != files:
        return "files are %s instead of %s" % (sorted(os.listdir(loc)), sorted(files))
    for s, m, recs in case:
        if recs is None:
            continue
        if read(os.path.join(ts, "ts.%s.csv" % s)) != [[c.strip() for c in l.split(",")] for l in text[s][1:]]:
            return "the regional series of %s was changed" % s
        want = []
        for l in text[s][1:]:
            c = [x.strip() for x in l.split(",")]
            v = [float(x) for x in c[2:]]
            f, b = factor(MULT[m], v[3], v[4])
            want.append(c[:2] + [v[0], v[1], v[2] * f, v[3], v[4], b if v[2] else 0., v[6]])
        got = read(os.path.join(loc, "ts.%s.csv" % s))
        if len(got) != len(want):
            return "%d records of %s instead of %d" % (len(got), s, len(want))
        for g, w in zip(got, want):
            t = same(g, w, 1e-6, "local series")
            if t:
                return t
        top.append(want)
        low.append(want)
    for name, key, better in (("local_maxima.csv", 4, max), ("local_minima.csv", 8, min)):
        rows = read(os.path.join(loc, name))
        if len(rows) != len(top):
            return "%s has %d entries for %d series" % (name, len(rows), len(top))
        for g, want in zip(rows, top):
            best = better(w[key] for w in want)
            ok = [w for w in want if near(w[key], best, 1e-9)]
            ts_ = [same(g, w, .0051, name) for w in ok]
            if all(ts_):
                return ts_[0]
    return None


def cases(quick):
    out = []
    step = 1
    # every direction, several stations' multipliers
    for m in range(len(MULT)):
        for start in range(0, 360, 60 * step):
            degs = [start + step * k for k in range(60) if start + step * k < 360]
            out.append([("S1", m, [(d, 30. + (d % 7), 990. - d % 11) for d in degs])])
        # close to the eight directions, on both sides
        out.append([("S1", m, [((d + e) % 360, s, 1000.) for d in range(0, 360, 45) for e in (-.4, -.1, -.02, .02, .1, .4)
                                for s in (30., 70.)])])
        for d in range(0, 360, 5):
            for speed in (.01, 12.34, 70.):
                out.append([("S1", m, [(d, speed, 1000.)])])
    # all short sequences
    alpha = [(0, 0., 1010.), (0, 50., 950.), (45, 50., 960.), (200, 50., 950.), (315, 40., 940.), (181, 60., 1000.),
             (359, 55., 970.), (90, 0., 930.)]
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
        for k, s in enumerate(itertools.product(alpha, repeat=n)):
            out.append([("S%d" % k, k % 4, list(s))])
    # several stations, with and without a series
    series = (None, [alpha[1], alpha[3]], [alpha[4]], [alpha[5], alpha[2], alpha[0]])
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
        for s in itertools.product(range(4), repeat=n):
            out.append([("%05d" % (94300 + 7 * k) if k % 2 else "Stn%d" % k if k else "00%d" % sum(s), (k + s[0]) % 4, series[i])
                        for k, i in enumerate(s)])
    return out


def job(j):
    d, cs = j
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    n = recs = 0
    seen = set()
    for c in cs:
        n += 1
        recs += sum(len(r or ()) for _, _, r in c)
        seen.add(tuple((m, len(r) if r else 0) for _, m, r in c))
        t = check(d, c)
        if t:
            return n, recs, seen, (t, c)
    shutil.rmtree(d, ignore_errors=True)
    return n, recs, seen, None


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    import Utilities.tsmultipliers                          # noqa: F401
    base = ctx.mkdir("w")
    if ctx.replay is not None:
        t = check(os.path.join(base, "r"), ctx.replay)
        if t:
            ctx.violation(t, ctx.replay)
        return
    cs = cases(not ctx.thorough)
    ctx.sample(cs[0])
    ctx.sample(cs[-1])
    jobs = [(os.path.join(base, "j%d" % k), p) for k, p in enumerate(common.chunks(cs, 64))]
    for r in common.pmap(job, jobs, stop=lambda r: r[3] is not None):
        if r is None:
            continue
        n, recs, seen, bad = r
        ctx.add(records=recs)
        ctx.explored(n, seen, "sets of stations with their series; distinct = by multipliers and lengths of the series")
        if bad:
            ctx.violation("stations %s: %s" % (", ".join(s for s, _, _ in bad[1]), bad[0]), bad[1])
    ctx.assumptions = ["locations come from the shape file of the Input section, with the same identifiers as the series"]
