"""C02: the hazard database, built by the real `database.run` on 1..n ranks under
the MPI explorer, compared with rows computed from the input data alone."""
import itertools
import logging
import os
import shutil
import sqlite3

import numpy as np

from .. import common, mpi, world

YEARS = [2., 10., 50.]
LON = np.round(115. + 0.5 * np.arange(11), 2)
LAT = np.round(-22. + 0.5 * np.arange(9), 2)
HLON, HLAT = LON[1:-1], LAT[1:-1]
LIM = (115.5, 119.5, -21.5, -18.5)
# (code, icao, name, lon, lat): two lie outside the region
LOCS = [("1001", "AA", "Alpha", 116.12, -20.61), ("1002", "BB", "Beta", 119.4, -18.6),
        ("1003", "CC", "Gamma", 120.9, -20.0), ("1004", "DD", "Delta", 115.6, -21.4),
        ("1005", "EE", "Epsilon", 117.77, -25.0), ("1006", "FF", "Zeta", 117.9, -19.9)]
KM = 111.1251
# on the borders of the region and just off them
EDGES = [("3001", "E1", "West", 115.5, -20.3), ("3002", "E2", "East", 119.5, -20.2), ("3003", "E3", "South", 117.3, -21.5),
         ("3004", "E4", "North", 117.2, -18.5), ("3005", "E5", "Corner", 119.5, -18.5), ("3006", "E6", "Off west", 115.499, -20.3),
         ("3007", "E7", "Off east", 119.501, -20.2), ("3008", "E8", "Off south", 117.3, -21.501),
         ("3009", "E9", "Off north", 117.2, -18.499)]
# longitudes counted westwards
WEST = [(c, i, n, x - 360., y) for c, i, n, x, y in LOCS]
ONE = [LOCS[2], LOCS[0], LOCS[4]]
MANY = [(str(2000 + k), "M%d" % k, "Town %d" % k, round(115.52 + 0.01 * (k % 40), 2),
         round(-21.48 + 0.05 * (k // 40), 2)) for k in range(1200)]


def inside(loc):
    return LIM[0] <= loc[3] % 360. <= LIM[1] and LIM[2] <= loc[4] <= LIM[3]


def near(axis, v):
    return int(np.argmin(np.abs(axis - v)))


def field(name, e, j, i):
    base = {"vmax": 20., "ua": -30., "va": 5., "slp": 95000.}[name]
    return np.float32(base + 100 * e + 3 * np.asarray(j) + 0.25 * np.asarray(i))


def hazf(name, k, j, i):
    base = {"loc": 1., "scale": 2., "shp": 3., "wspd": 40., "wspdupper": 50.,
            "wspdlower": 30.}[name]
    return np.float32(base + 10 * k + 0.5 * np.asarray(j) + 0.0625 * np.asarray(i))


def hazval(name, k, j, i):
    return float(hazf(name, k, j, i))


class World:
    def __init__(self, base, name, nev, nfiles, pertrack=2, shp=True, empties=False,
                 locs=LOCS, num0=0):
        self.locs = locs
        self.dir = os.path.join(base, name)
        self.shp = shp
        for s in ("windfield", "tracks", "hazard", "in"):
            os.makedirs(os.path.join(self.dir, s))
        jj, ii = np.meshgrid(np.arange(len(LAT)), np.arange(len(LON)), indexing="ij")
        self.events = []
        for e in range(nev):
            sim, num = e % 3, e // 3 + 7 * (e % 2)
            fn = "gust.%03d-%05d.nc" % (sim, num)
            tf = "tracks.%05d.nc" % num
            date = "2011-02-%02d 03:04:05" % (e + 1)
            arr = {n: field(n, e, jj, ii) for n in ("vmax", "ua", "va", "slp")}
            world.event_nc(os.path.join(self.dir, "windfield", fn), LON, LAT,
                           arr["vmax"], arr["ua"], arr["va"], arr["slp"],
                           "/some/where/" + tf, date)
            self.events.append(dict(id="%03d-%05d" % (sim, num), file=fn, track=tf,
                                    date=date, e=e, maxw=float(arr["vmax"].max()),
                                    minp=float(arr["slp"].min())))
        world.hazard_nc(os.path.join(self.dir, "hazard", "hazard.nc"), YEARS, HLON,
                        HLAT, hazf)
        self.tracks = []
        for f in range(nfiles):
            ts = []
            for k in range(pertrack if f != 1 else 1):
                npt = 1 + (f + k) % 3
                pts = [(116. + 0.9 * f + 0.37 * k + 0.6 * q, -21. + 0.5 * k + 0.7 * f - 0.4 * q)
                       for q in range(npt)]
                ts.append(world.track(k + 1, (k, num0 + f), pts))
            self.tracks += ts
            world.tracks_nc(os.path.join(self.dir, "tracks", "tracks.%05d.nc" % (num0 + f)), ts)
        if empties:
            # a year without tracks leaves a file with no track groups
            world.tracks_nc(os.path.join(self.dir, "tracks", "tracks.%05d.nc" % nfiles), [])
        if shp:
            world.locations_shp(os.path.join(self.dir, "in", "loc"), locs)

    def prepare(self, out):
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        for s in ("windfield", "tracks", "hazard"):
            os.symlink(os.path.join(self.dir, s), os.path.join(out, s))
        if not self.shp:
            con = sqlite3.connect(os.path.join(out, "locations.db"))
            con.execute("CREATE TABLE tblLocations (locId integer PRIMARY KEY, locCode text, "
                        "locName text, locType text, locLon real, locLat real, locElev real, "
                        "locCountry text, locSource text, Comments text, dtCreated timestamp)")
            for n, (code, icao, name, lon, lat) in enumerate(self.locs):
                con.execute("INSERT INTO tblLocations VALUES (?,?,?,?,?,?,?,?,?,?,?)",
                            (n + 1, code, name, "AWS", lon, lat, world.loc_height(code), world.loc_country(code), "src", icao,
                             "2020-01-01 00:00:00"))
            con.commit()
            con.close()
        return world.write_config(os.path.join(out, "c.ini"), {
            "Region": {"gridLimit": world.limit(*LIM)},
            "Input": {"LocationFile": os.path.join(self.dir, "in", "loc")},
            "Process": {"DatFile": os.path.join(out, "proc.dat"),
                        "ExcludePastProcessed": "True"},
            "Output": {"Path": out}})

    def examine(self, out):
        db = os.path.join(out, "hazard.db")
        if not os.path.exists(db):
            return "no database was written"
        con = sqlite3.connect(db)
        try:
            return self._examine(con)
        except sqlite3.Error as e:
            return "database is not usable: %s" % e
        finally:
            con.close()

    def _examine(self, con):
        locs = con.execute("SELECT locId, locCode, locName, locLon, locLat, Comments, locCountry, locElev "
                           "FROM tblLocations").fetchall()
        want = sorted((l[0], l[2], round(l[3] % 360., 6), round(l[4], 6), l[1], world.loc_country(l[0]), world.loc_height(l[0]))
                      for l in self.locs if inside(l))
        got = sorted((c, n, round(x, 6), round(y, 6)) + tuple(k) for _, c, n, x, y, *k in locs)
        if got != want:
            return "locations are %s, expected %s" % (got, want)
        ids = {l[0]: (l[3], l[4]) for l in locs}
        if len(ids) != len(locs):
            return "location ids are not unique"
        # events
        rows = con.execute("SELECT eventNumber, eventId, eventFile, eventTrackFile, "
                           "eventMaxWind, eventMinPressure, dtTrackFile FROM tblEvents").fetchall()
        if sorted(int(r[0]) for r in rows) != list(range(len(self.events))):
            return "event numbers are %s for %d wind fields" % (
                sorted(r[0] for r in rows), len(self.events))
        got = sorted((r[1], r[2], _s(r[3]), r[4], r[5], str(r[6])) for r in rows)
        want = sorted((e["id"], e["file"], e["track"], e["maxw"], e["minp"], e["date"])
                      for e in self.events)
        if got != want:
            return _diff("events", got, want)
        # wind speeds
        rows = con.execute("SELECT locId, eventId, wspd, umax, vmax, pmin FROM tblWindSpeed").fetchall()
        want = []
        for e in self.events:
            for lid, (x, y) in ids.items():
                i, j = near(LON, x), near(LAT, y)
                want.append((lid, e["id"]) + tuple(
                    float(field(n, e["e"], j, i)) for n in ("vmax", "ua", "va", "slp")))
        if sorted(rows) != sorted(want):
            return _diff("wind speed records", sorted(rows), sorted(want))
        # hazard
        rows = con.execute("SELECT locId, returnPeriod, wspd, wspdUpper, wspdLower, loc, scale, shape "
                           "FROM tblHazard").fetchall()
        want = []
        for k, yr in enumerate(YEARS):
            for lid, (x, y) in ids.items():
                i, j = near(HLON, x), near(HLAT, y)
                want.append((lid, yr) + tuple(hazval(n, k, j, i) for n in (
                    "wspd", "wspdupper", "wspdlower")) + tuple(
                        hazval(n, 0, j, i) for n in ("loc", "scale", "shp")))
        if sorted(rows) != sorted(want):
            return _diff("hazard records", sorted(rows), sorted(want))
        # tracks
        rows = con.execute("SELECT locId, eventId, distClosest FROM tblTracks").fetchall()
        got = sorted((a, b, round(c, 3)) for a, b, c in rows)
        want = sorted((lid, "%03d-%05d" % tuple(t["id"]),
                       round(world.seg_dist(x, y, t["lon"], t["lat"]) * KM, 3))
                      for t in self.tracks for lid, (x, y) in ids.items())
        if [g[:2] for g in got] != [w[:2] for w in want] or \
                not np.allclose([g[2] for g in got], [w[2] for w in want], rtol=1e-3):
            return _diff("passage records", got, want)
        return None


def _s(x):
    return x.decode() if isinstance(x, bytes) else x


def _diff(what, got, want):
    g, w = list(got), list(want)
    gs, ws = set(g), set(w)
    extra = [x for x in g if x not in ws][:2]
    miss = [x for x in w if x not in gs][:2]
    if not extra and not miss:
        dup = [x for x in g if g.count(x) > 1][:2]
        return "%s: %d rows, expected %d; repeated: %s" % (what, len(g), len(w), dup)
    return "%s: unexpected %s; missing %s" % (what, extra, miss)


def prog(cfg):
    def f(rank):
        import database
        database.run(cfg)
    return f


def job(j):
    w, size, mode, order, out, choices = j
    box = []

    def prepare():
        box[:] = [w.prepare(out)]

    def run(rank):
        return prog(box[0])(rank)

    def examine(res):
        return w.examine(out)
    if choices is not None:
        prepare()
        res = mpi.run_once(run, size, mode, order, choices)
        text = "%s: %s" % (res.outcome, res.detail) if res.outcome != "ok" else examine(res)
        shutil.rmtree(out, ignore_errors=True)
        return dict(bad=[(text, choices)] if text else [], runs=1, transitions=res.nops,
                    states=res.states, complete=True)
    st = mpi.explore(run, size, mode, order, prepare, examine)
    if not st["bad"]:
        prepare()
        res = mpi.run_once(run, size, mode, order, st["last_choices"])
        if res.trace != st["last_trace"]:
            raise common.CheckError("replay of a schedule differs")
    shutil.rmtree(out, ignore_errors=True)
    st.pop("last_trace", None)
    return st


def successive(worlds, out):
    """Several databases built by one process, in configurations of the same name."""
    import database
    import Utilities.config
    mpi.solo()
    outs = [os.path.join(out, "d%d" % k) for k in range(len(worlds))]
    for w, o in zip(worlds, outs):
        Utilities.config.reset()
        database.run(w.prepare(o))
    for k, (w, o) in enumerate(zip(worlds, outs)):
        text = w.examine(o)
        if text:
            return "database %d of %d: %s" % (k + 1, len(worlds), text)
    return None


def pair_job(j):
    worlds, out = j
    try:
        r = common.call_forked(successive, worlds, out, timeout=120)
        return r[1] if r[0] == "ok" else "the build failed: %s" % " ".join(str(x) for x in r[:3])
    finally:
        shutil.rmtree(out, ignore_errors=True)


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import database                                         # noqa: F401
    from Utilities.parallel import attemptParallel
    attemptParallel()
    base = ctx.mkdir("w")
    shapes = ctx.pick([(0, 0, True, False), (1, 1, True, False), (2, 1, False, False), (2, 3, True, True),
                       (4, 2, False, False), (3, 3, False, False)],
                      [(e, f, (e + f) % 2 == 0, e == f) for e in range(5) for f in range(4)] +
                      [(6, 1, True, False), (1, 5, False, False)])
    sizes = ctx.pick((1, 2, 3, 4), (1, 2, 3, 4, 5))
    jobs, meta, worlds, pairs = [], [], {}, []
    specs = [("w%d-%d" % s[:2], s[0], s[1], dict(shp=s[2], empties=s[3])) for s in shapes]
    # one location in the region; many; simulations from number 9999
    specs += [("edges", 1, 1, dict(locs=EDGES)), ("edgesdb", 1, 1, dict(locs=EDGES, shp=False)),
              ("west", 1, 1, dict(locs=WEST)), ("one", 2, 2, dict(locs=ONE)), ("many", 1, 1, dict(locs=MANY)),
              ("late", 1, 3, dict(num0=9998))]
    for name, nev, nf, opts in specs:
        w = worlds[name] = World(base, name, nev, nf, **opts)
        for size in sizes:
            if size > 2 and not name.startswith("w"):
                continue
            if size >= 4 and nev + nf > (6 if size == 4 else 4):
                continue
            for mode in ("eager", "sync"):
                if size == 1 and mode == "sync":
                    continue
                ords = mpi.orders(size) if size <= 3 else \
                    [tuple(range(size)), tuple(reversed(range(size)))]
                for o in ords:
                    case = {"world": name, "events": nev, "trackfiles": nf, "size": size, "mode": mode,
                            "order": list(o)}
                    if ctx.replay is not None and \
                            {k: ctx.replay.get(k) for k in case} != case:
                        continue
                    jobs.append((w, size, mode, o, os.path.join(base, "o%d" % len(jobs)),
                                 ctx.replay["choices"] if ctx.replay else None))
                    meta.append(case)
    small = [n for n in sorted(worlds) if n != "many"]
    for a, b in itertools.permutations(small, 2):
        case = {"one after another": [a, b]}
        if ctx.replay is not None and ctx.replay != case:
            continue
        pairs.append(case)
    for case, text in zip(pairs, common.pmap(pair_job, [
            ([worlds[n] for n in c["one after another"]], os.path.join(base, "p%d" % k)) for k, c in enumerate(pairs)])):
        ctx.add(transitions=2, traces_validated_against_impl=1, successive_builds=1)
        if text:
            ctx.violation("worlds %s and %s, one after another: %s" % (tuple(case["one after another"]) + (text,)), case)
    idx = sorted(range(len(jobs)), key=lambda i: -(meta[i]["size"] * 3 + meta[i]["events"] + meta[i]["trackfiles"]))
    res = common.pmap(job, [jobs[i] for i in idx], stop=lambda r: bool(r["bad"]))
    states = set()
    for i, st in zip(idx, res):
        if st is None:
            continue
        ctx.add(transitions=st["transitions"], traces_validated_against_impl=st["runs"])
        states |= {hash((meta[i]["world"], s)) for s in st["states"]}
        for text, ch in st["bad"]:
            ctx.violation("%(events)d wind fields, %(trackfiles)d track files, %(size)d processes, "
                          "%(mode)s sends: " % meta[i] + text, dict(meta[i], choices=ch))
        if st["runs"] > 3:
            ctx.sample(dict(meta[i], choices=list(st.get("last_choices", ()))))
    ctx.cov["states"] = len(states)
    ctx.assumptions = ["MPI semantics: reliable, non-overtaking, eager or synchronous standard sends",
                       "SQLite and netCDF behave as documented"]
