"""C23: queries of the hazard database, for every small database."""
import itertools
import logging
import sqlite3

from .. import common

LOCS = [(1, "Alpha", 116.0, -20.0), (2, "Beta", 118.0, -19.0), (5, "Gamma", 117.0, -21.0)]
SPD = (10.0, 20.0, 30.0)
DIST = (5.0, 50.0, 80.0)
RP = (2, 100)
STORED = (1, 0)                # order in which the levels are put in


def build(case):
    """case: nloc, events [ids], w[loc][ev], d[loc][ev], h[loc][rp]"""
    con = sqlite3.connect(":memory:")
    c = con.execute
    c("CREATE TABLE tblLocations (locId integer PRIMARY KEY, locCode text, locName text, "
      "locType text, locLon real, locLat real, locElev real, locCountry text, locSource text, "
      "Comments text, dtCreated timestamp)")
    c("CREATE TABLE tblEvents (eventNumber integer PRIMARY KEY, eventId text, eventFile text, "
      "eventTrackFile text, eventMaxWind real, eventMinPressure real, dtTrackFile timestamp, "
      "dtWindfieldFile timestamp, tcrmVersion text, Comments text, dtCreated timestamp)")
    c("CREATE TABLE tblWindSpeed (locId integer, eventId text, wspd real, umax real, vmax real, "
      "pmin real, Comments text, dtCreated timestamp)")
    c("CREATE TABLE tblHazard (locId integer, returnPeriod real, wspd real, wspdUpper real, "
      "wspdLower real, loc real, scale real, shape real, tcrmVersion text, dtHazardFile timestamp, "
      "Comments text, dtCreated timestamp)")
    c("CREATE TABLE tblTracks (locId integer, eventId text, distClosest real, prsClosest real, "
      "dtClosest timestamp, Comments text, dtCreated timestamp)")
    for lid, name, x, y in LOCS[:case["nloc"]]:
        c("INSERT INTO tblLocations VALUES (?,?,?,?,?,?,?,?,?,?,?)",
          (lid, "c", name, "AWS", x, y, 0., "XX", "s", "", None))
    for n, e in enumerate(case["events"]):
        c("INSERT INTO tblEvents VALUES (?,?,?,?,?,?,?,?,?,?,?)",
          (n, e, "gust.%s.nc" % e, "t", 60. - n, 95000. + n, None, None, "v", "", None))
    for a in range(case["nloc"]):
        lid = LOCS[a][0]
        for b, e in enumerate(case["events"]):
            w = case["w"][a][b]
            c("INSERT INTO tblWindSpeed VALUES (?,?,?,?,?,?,?,?)",
              (lid, e, w, w / 2, -w / 4, 99000. - w, "", None))
            c("INSERT INTO tblTracks VALUES (?,?,?,?,?,?,?)",
              (lid, e, case["d"][a][b], None, None, "", None))
        for r in STORED:
            rp, h = RP[r], case["h"][a][r]
            c("INSERT INTO tblHazard VALUES (?,?,?,?,?,?,?,?,?,?,?,?)",
              (lid, rp, h, h + 5, h - 5, 1., 2., 3., "v", None, "", None))
    return con


def rows(rec, names):
    return [tuple(_py(r[n]) for n in names) for r in rec]


def _py(x):
    return x.item() if hasattr(x, "item") else x


def check(case):
    """(number of queries, violation text or None)"""
    from database import queries as q
    con = build(case)
    n = 0
    try:
        ev = case["events"]
        for a in range(case["nloc"]):
            lid, name = LOCS[a][:2]
            w, d = case["w"][a], case["d"][a]

            def cmp(what, got, want, ordered=None):
                if sorted(got) != sorted(want):
                    return "%s for location %d: %s, expected %s" % (what, lid, sorted(got), sorted(want))
                if ordered is not None:
                    k = [ordered(g) for g in got]
                    if k != sorted(k):
                        return "%s for location %d: not in ascending order: %s" % (what, lid, got)
                return None
            for thr in (0., 10., 15., 20., 30.):
                n += 1
                t = cmp("events exceeding %g" % thr,
                        rows(q.locationRecordsExceeding(con, lid, thr), ("locId", "locName", "wspd", "eventId")),
                        [(lid, name, w[b], e) for b, e in enumerate(ev) if w[b] > thr], lambda r: r[2])
                if t:
                    return n, t
            n += 1
            t = cmp("all records",
                    rows(q.locationRecords(con, lid), ("locId", "locName", "wspd", "umax", "vmax", "eventId")),
                    [(lid, name, w[b], w[b] / 2, -w[b] / 4, e) for b, e in enumerate(ev)], lambda r: r[2])
            if t:
                return n, t
            for dist in (5., 50., 60., 100.):
                n += 1
                t = cmp("events passing within %g km" % dist,
                        rows(q.locationPassage(con, lid, dist),
                             ("locId", "locName", "eventId", "distClosest", "wspd", "eventFile")),
                        [(lid, name, e, d[b], w[b], "gust.%s.nc" % e) for b, e in enumerate(ev) if d[b] < dist])
                if not t and dist == 50.:
                    n += 1
                    t = cmp("events passing within the default distance",
                            rows(q.locationPassage(con, lid), ("eventId", "distClosest")),
                            [(e, d[b]) for b, e in enumerate(ev) if d[b] < dist])
                if t:
                    return n, t
                for thr in (10., 15.):
                    n += 1
                    t = cmp("events above %g within %g km" % (thr, dist),
                            rows(q.locationPassageWindSpeed(con, lid, thr, dist),
                                 ("locName", "wspd", "umax", "vmax", "eventId", "distClosest", "maxwind", "pmin")),
                            [(name, w[b], w[b] / 2, -w[b] / 4, e, d[b], 60. - b, 95000. + b)
                             for b, e in enumerate(ev) if w[b] > thr and d[b] <= dist], lambda r: r[1])
                    if t:
                        return n, t
            for r, rp in enumerate(RP):
                n += 1
                h = case["h"][a][r]
                t = cmp("events above the %d-year level" % rp,
                        rows(q.locationReturnPeriodEvents(con, lid, rp), ("locId", "locName", "wspd", "eventId")),
                        [(lid, name, w[b], e) for b, e in enumerate(ev) if w[b] > h], lambda r: r[2])
                if t:
                    return n, t
            n += 1
            t = cmp("return levels",
                    rows(q.locationAllReturnLevels(con, lid),
                         ("locId", "locName", "returnPeriod", "wspd", "wspdLower", "wspdUpper")),
                    [(lid, name, float(rp), case["h"][a][r], case["h"][a][r] - 5, case["h"][a][r] + 5)
                     for r, rp in enumerate(RP)], lambda r: r[2])
            if t:
                return n, t
        n += 1
        rec = q.selectEvents(con)
        got = [(_py(r["eventNum"]), r["eventId"], r["eventFile"], _py(r["eventMaxWind"]), _py(r["eventMinPressure"]))
               for r in rec]
        want = [(k, e, "gust.%s.nc" % e, 60. - k, 95000. + k) for k, e in enumerate(ev)]
        if sorted(got) != sorted(want):
            return n, "event list is %s, expected %s" % (got, want)
        if [g[3] for g in got] != sorted(g[3] for g in got):
            return n, "event list is not in ascending order of wind speed"
        return n, None
    finally:
        con.close()


def cases(ctx):
    """All small databases.  Wind speeds, distances and levels run over their
    whole lattice; two of the three vary at a time in the 2x2 family."""
    def split(v, nloc, nev):
        return [list(v[k * nev:(k + 1) * nev]) for k in range(nloc)]
    for nloc, nev in ((1, 0), (2, 0), (1, 1), (2, 1), (1, 2), (1, 3), (3, 1)):
        events = ["%03d-%05d" % (k % 2, k // 2) for k in range(nev)]
        m = nloc * nev
        for w in itertools.product(SPD, repeat=m):
            for d in itertools.product(DIST, repeat=m):
                for h in ((15., 20.), (10., 30.), (20., 15.)):
                    yield dict(nloc=nloc, events=events, w=split(w, nloc, nev), d=split(d, nloc, nev),
                               h=[[h[0] + 5 * k, h[1] + 5 * k] for k in range(nloc)])
    events = ["000-00000", "001-00000"]
    if ctx.thorough:
        ev3 = events + ["000-00001"]
        for w in itertools.product((10., 30.), repeat=6):
            for d in itertools.product((5., 80.), repeat=6):
                yield dict(nloc=2, events=ev3, w=split(w, 2, 3), d=split(d, 2, 3),
                           h=[[15., 20.], [10., 25.]])
    for w in itertools.product(SPD, repeat=4):
        for d in itertools.product(DIST, repeat=4):
            yield dict(nloc=2, events=events, w=split(w, 2, 2), d=split(d, 2, 2),
                       h=[[15., 20.], [10., 25.]])


def job(part):
    logging.disable(logging.CRITICAL)
    n = q = 0
    seen = set()
    for c in part:
        k, t = check(c)
        n += 1
        q += k
        if c["events"]:
            seen.add(hash(repr((c["w"], c["d"], c["h"]))))
        if t:
            return n, q, seen, (t, c)
    return n, q, seen, None


def main(ctx):
    logging.disable(logging.CRITICAL)
    import database.queries                                       # noqa: F401
    if ctx.replay is not None:
        n, t = check(ctx.replay)
        if t:
            ctx.violation(t, ctx.replay)
        return
    allc = list(cases(ctx))
    ctx.sample(allc[len(allc) // 2])
    for n, q, seen, bad in common.pmap(job, common.chunks(allc, 32)):
        ctx.add(databases=n)
        ctx.explored(q, seen, "queries run; distinct = different databases with at least one event")
        if bad:
            ctx.violation(*bad)
    ctx.assumptions = ["SQLite behaves as documented"]
