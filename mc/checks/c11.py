"""C11: station time series record every step and the true extremes.

Every sequence of wind field steps up to a length, over an alphabet of windows and
value patterns, plus long periodic ones, is given to the real extraction; the files
written at the end must hold, per station, one record per step.  Storm sequences are
also run through wind.run and compared with the evolution file of the same run."""
import csv
import datetime
import itertools
import logging
import os
import shutil

import numpy as np

from .. import common, mpi, world
from . import c10, c12

T0 = datetime.datetime(2003, 2, 27, 22, 30)
# longitudes and latitudes of the windows
WINDOWS = {
    "A": (np.arange(112., 114.01, 0.5), np.arange(-20., -17.99, 0.5)),
    "B": (np.arange(112.75, 113.76, 0.5), np.arange(-19.5, -18.49, 0.25)),
    "C": (np.array([113.]), np.array([-19.])),
    "D": (np.arange(182., 183.01, 0.5), np.arange(-20., -18.99, 0.5)),
}
# (id, lon, lat)
STATIONS = [("STATION-100-1", 113.0, -19.0), ("STATION-100-2", 113.25, -18.75), ("OFF", 112.61, -19.87), ("EDGE", 114.0, -18.0),
            ("LOW", 112.0, -20.0), ("OUT", 114.01, -19.0), ("FAR", 20.0, 5.0), ("WEST", -177.6, -19.4)]


def values(pat, k, shape):
    """Fields of step k."""
    j, i = np.meshgrid(np.arange(shape[0]), np.arange(shape[1]), indexing="ij")
    if pat == "z":                                       # calm
        return [np.zeros(shape), np.zeros(shape), np.zeros(shape), np.full(shape, 101000.) - 10 * k]
    s = 10. + 3 * ((j * 5 + i * 3) % 7)
    if pat == "u":
        s = s + k
    elif pat == "d":
        s = s + 60. - k
    a = np.radians(37. * (j * shape[1] + i) + 50. * k)
    p = 101000. - 500. * ((i + 2 * j) % 4) - (100. * k if pat == "u" else -70. * k)
    return [s, -s * np.sin(a), -s * np.cos(a), p]


def near(axis, v):
    """Indices of the nearest points (several for a tie)."""
    d = np.abs(axis - v)
    return np.flatnonzero(d <= d.min() + 1e-9)


def expected(lon, lat, window, f):
    """Possible records of a station: list of (speed, u, v, bearing, p), or None outside."""
    gx, gy = window
    lon = lon + 360. if lon < 0 else lon
    if not (gx.min() <= lon <= gx.max() and gy.min() <= lat <= gy.max()):
        return None
    out = []
    for j in near(gy, lat):
        for i in near(gx, lon):
            s, u, v, p = (float(a[j, i]) for a in f)
            out.append((s, u, v, np.degrees(np.arctan2(-u, -v)) % 360., p))
    return out


def read_csv(path):
    with open(path) as fh:
        rows = list(csv.reader(fh))
    if rows[0] != "Station,Time,Longitude,Latitude,Speed,UU,VV,Bearing,Pressure".split(","):
        raise ValueError("header of %s: %s" % (os.path.basename(path), rows[0]))
    return [[x.strip() for x in r] for r in rows[1:]]


def matches(row, want):
    """A row of a file against (speed, u, v, bearing, pressure); zero wind has no bearing.
    The evolution file holds pressure in single precision (steps of 1/128 Pa)."""
    got = [float(x) for x in row[4:9]]
    for k, tol in ((0, 0.006), (1, 0.006), (2, 0.006), (4, 0.02)):
        if abs(got[k] - want[k]) > tol:
            return False
    d = abs(got[3] - want[3]) % 360.
    return want[0] == 0 or min(d, 360. - d) <= 0.011


def check_files(out, stations, steps):
    """steps: [(time, window, fields)]"""
    d = os.path.join(out, "process", "timeseries")
    rows_of = {}
    names = {"ts.%s.csv" % s[0] for s in stations}
    for n in os.listdir(d):
        if n not in names:
            return "unexpected file %s" % n
    ext = {n: read_csv(os.path.join(out, "process", n + ".csv")) for n in ("maxima", "minima")}
    for sid, lon, lat in stations:
        recs = [expected(lon, lat, w, f) for t, w, f in steps]
        windy = any(r and max(x[0] for x in r) > 0 for r in recs)
        path = os.path.join(d, "ts.%s.csv" % sid)
        if not os.path.exists(path):
            if windy:
                return "station %s had wind but has no time series" % sid
            rows = None
        else:
            rows = read_csv(path)
            if len(rows) != len(steps):
                return "station %s has %d records for %d steps" % (sid, len(rows), len(steps))
            for k, (row, (t, w, f), want) in enumerate(zip(rows, steps, recs)):
                if row[0] != sid or row[1] != str(t)[:16] or \
                        abs(float(row[2]) - (lon + 360. if lon < 0 else lon)) > 1e-5 or abs(float(row[3]) - lat) > 1e-5:
                    return "station %s, step %d at %s: record of %s" % (sid, k, str(t)[:16], row[:4])
                if want is None:
                    if any(float(x) for x in row[4:7]):
                        return "station %s is outside the wind field of step %d but has wind %s" % (sid, k, row[4])
                elif not any(matches(row, x) for x in want):
                    return "station %s, step %d: %s, the nearest cell has %s" % (sid, k, row[4:], want[0])
        for name, col, best in (("maxima", 4, max), ("minima", 8, min)):
            mine = [r for r in ext[name] if r[0] == sid]
            if rows is None:
                if mine:
                    return "station %s has an entry in %s but no time series" % (sid, name)
                continue
            if len(mine) != 1:
                return "station %s has %d entries in %s" % (sid, len(mine), name)
            top = best(float(r[col]) for r in rows)
            if mine[0] not in rows or float(mine[0][col]) != top:
                return "%s of station %s is %s, the extreme of its series is %s" % (name, sid, mine[0], top)
    for name in ext:
        for r in ext[name]:
            if r[0] not in {s[0] for s in stations}:
                return "%s has an entry of unknown station %s" % (name, r[0])
    return None


def fixture(base):
    """(config path, output dir) for direct calls."""
    out = os.path.join(base, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "process", "timeseries"))
    shp = os.path.join(base, "stations.shp")
    if not os.path.exists(shp):
        world.locations_shp(shp, [(s[0], "", s[0], s[1], s[2]) for s in STATIONS])
    cfg = world.write_config(os.path.join(base, "c.ini"), {
        "Timeseries": {"Extract": True, "LocationFile": shp, "StationID": "WMO"}, "Output": {"Path": out}})
    return cfg, out


def run_seq(base, seq):
    from Utilities.config import reset
    from Utilities.timeseries import Timeseries
    cfg, out = fixture(base)
    reset()
    ts = Timeseries(cfg)
    steps = []
    for k, (w, p) in enumerate(seq):
        gx, gy = WINDOWS[w]
        f = values(p, k, (len(gy), len(gx)))
        t = T0 + datetime.timedelta(minutes=50 * k)
        ts.extract(t, *[a.copy() for a in f], gx.copy(), gy.copy())
        steps.append((t, (gx, gy), f))
    ts.shutdown()
    return check_files(out, STATIONS, steps)


def job(j):
    base, seqs = j
    os.makedirs(base, exist_ok=True)
    st = dict(n=0, records=0, outcomes=set(), bad=[])
    for s in seqs:
        try:
            text = run_seq(base, s)
        except Exception as e:
            text = "failed: %s: %s" % (type(e).__name__, e)
        st["n"] += 1
        st["records"] += len(s) * len(STATIONS)
        st["outcomes"].add(s)
        if text:
            st["bad"].append((text, {"seq": s}))
            break
    shutil.rmtree(base, ignore_errors=True)
    return st


def e2e_job(j):
    out, name, s = j
    setup = c10.SETUP[name]
    st = dict(n=0, records=0, outcomes=set(), bad=[])
    x0, x1, y0, y1 = setup.region
    stations = [("S%d" % k, float("%.4f" % lon), float("%.4f" % lat)) for k, (lon, lat) in enumerate(
        [((x0 + x1) / 2 + 0.03, (y0 + y1) / 2 - 0.04), (x0 + 0.13, y1 - 0.17), (x1 + 0.5 * setup.margin, y0 + 0.11),
         (x1 + 3, y1 + 3)])]
    shp = out + "-st.shp"
    world.locations_shp(shp, [(a, "", a, b, c) for a, b, c in stations])
    text, tracks = c12.e2e_run(out, setup, s, "Extract=True\nLocationFile=%s\nStationID=WMO\n" % shp)
    st["n"] += 1
    st["outcomes"].add((name, tuple(s)))
    if not text:
        steps = []
        for k, q in enumerate(s):
            ef = os.path.join(out, "windfield", "evolution.%03d-00001.nc" % (k + 1))
            if not os.path.exists(ef):
                continue
            evo = c12.read_full(ef)
            inside = [i for i, x in enumerate(q) if setup.inside(x)]
            for n, i in enumerate(inside):
                ok = ~np.isnan(evo["pressure"][n])
                jj, ii = np.flatnonzero(ok.any(1)), np.flatnonzero(ok.any(0))
                cut = np.ix_(jj, ii)
                steps.append((tracks[k]["time"][i], (np.round(evo["lon"][ii].astype(float), 3),
                                                     np.round(evo["lat"][jj].astype(float), 3)),
                              [evo[v][n][cut] for v in c12.NAMES]))
        st["records"] += len(steps) * len(stations)
        text = check_files(out, stations, steps)
    if text:
        st["bad"].append((text, {"setup": name, "seqs": s}))
    shutil.rmtree(out, ignore_errors=True)
    return st


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import inspect
    inspect.stack()
    import wind  # noqa
    import Utilities.timeseries  # noqa
    rule = "different sequences of windows and value patterns"
    if ctx.replay:
        r = ctx.replay
        if "seq" in r:
            st = job((ctx.mkdir("r"), [tuple(map(tuple, r["seq"]))]))
        else:
            st = e2e_job((os.path.join(ctx.scratch, "r"), r["setup"], r["seqs"]))
        for text, case in st["bad"]:
            ctx.violation(text, r)
        return
    sym = [(w, p) for w in sorted(WINDOWS) for p in "zuds"]
    seqs = [()] + [p for k in (1, 2) for p in itertools.product(sym, repeat=k)]
    seqs += list(itertools.product([s for s in sym if s[1] != "s"], repeat=3))
    for n in ctx.pick((9, 10, 11, 12, 15, 16, 17, 22, 23, 24, 33, 34, 50), range(4, 80)):
        for per in itertools.product([("A", "u"), ("A", "d"), ("B", "s"), ("D", "u")], repeat=2):
            seqs.append(tuple(per[i % 2] for i in range(n)))
    if ctx.thorough:
        seqs += list(itertools.product([("A", "u"), ("A", "d"), ("A", "z"), ("B", "u"), ("B", "d"), ("C", "u"), ("D", "u")],
                                       repeat=4))
    jobs = [(os.path.join(ctx.scratch, "d%d" % i), c) for i, c in enumerate(common.chunks(seqs, 32))]
    records = 0
    for j, r in zip(jobs, common.pmap(job, jobs, stop=lambda r: bool(r["bad"]))):
        if r is None:
            continue
        ctx.explored(r["n"], r["outcomes"], rule)
        records += r["records"]
        for text, case in r["bad"]:
            ctx.violation("steps %s: %s" % (case["seq"], text), case)
        ctx.sample({"sequence": j[1][-1]}, limit=3)
    jobs = []
    for s in c10.SETUPS:
        if s.name in ("finest", "uneven-full"):
            continue
        groups = [list(p) for p in itertools.product(["s", "mso", "ex"], repeat=2)]
        groups += [["".join(p)] for p in itertools.product("smex", repeat=ctx.pick(2, 3))]
        jobs += [(os.path.join(ctx.scratch, "w%d-%s" % (i, s.name)), s.name, g) for i, g in enumerate(groups)]
    for j, r in zip(jobs, common.pmap(e2e_job, jobs)):
        ctx.explored(r["n"], r["outcomes"], rule)
        records += r["records"]
        for text, case in r["bad"]:
            ctx.violation("wind.run %s, tracks %s: %s" % (case["setup"], case["seqs"], text), case)
        ctx.sample({"setup": j[1], "tracks": j[2]}, limit=6)
    ctx.cov["records_compared"] = records
    ctx.assumptions += ["values are compared as written, with two decimals", "a single process extracts the series"]
