"""C14: best-track records are ingested storm by storm.

All tables of a bounded size (numbers of storms and records, ways of marking storms and
of giving dates, jumps, moves and intervals, codes for missing pressures, seasons, and
positions around the region) are written as text files and read by the real code:
processData with the files it leaves for the later stages, the track domain and frequency
computed from these, and loadTrackFile.  Everything is compared with a direct reading of
the table."""
import datetime
import itertools
import logging
import math
import os
import shutil
import warnings
from collections import Counter

import numpy as np

from .. import common, ext, mpi, world

START = datetime.datetime(1985, 1, 20, 6, 0)
MARKS = ("index", "serial", "numseason", "num")
DATES = ("date", "datefmt", "ymdhm", "hhmm", "ymdh", "noyear", "age")
REGION = (110., 114., -20., -17.)


# ---- tables ---------------------------------------------------------------------------------
def storm(ident, season, start, lon, lat, recs):
    """recs: [(hours since the record before, dlon, dlat, pressure)], the first at (0, 0, 0)."""
    out, t, x, y = [], start, lon, lat
    for dh, dx, dy, p in recs:
        t = t + datetime.timedelta(seconds=round(3600 * dh))
        x, y = x + dx, y + dy
        out.append(dict(ident=ident, season=season, t=t, lon=round(x % 360, 4), lat=round(y, 4), p=p))
    return out


def simple(n, k, hours=6., p0=None):
    """n records of the k-th storm."""
    ps = (995., 980., 964.5, 971.)
    return [(0 if i == 0 else hours, 0 if i == 0 else (-1.) ** (i // 2) * 0.75, 0 if i == 0 else -0.5,
             ps[(i + k) % 4] if p0 is None else p0) for i in range(n)]


def table(rows, **opts):
    d = dict(mark="numseason", date="date", start=1900, region=REGION, restrict=False, punits="hPa", extra=())
    d.update(opts)
    d["rows"] = rows
    return d


def rows_of(lengths, step_h=240):
    out = []
    for k, n in enumerate(lengths):
        out += storm((1, 11, 2, 12)[k], 1985, START + datetime.timedelta(hours=step_h * k), 112. + 2 * k, -15. - 1.5 * k, simple(n, k))
    return out


def tables(quick):
    """All tables: (block, table)."""
    out = []
    shapes = [s for m in (1, 2, 3) for s in itertools.product((1, 2, 3), repeat=m)]
    if not quick:
        shapes += [s for s in itertools.product((1, 2, 3), repeat=4)]
    # ways of marking storms and of giving dates
    for s in shapes:
        for m in MARKS:
            for dt in DATES:
                out.append(("marks", table(rows_of(s), mark=m, date=dt)))
    for s in shapes:
        for m in MARKS:
            out.append(("columns", table(rows_of(s), mark=m, extra=("vmax", "rmax"))))
    # one identifier for storms in different places
    jumps = [(d, 0) for d in (16, 14.5, 10.5, 9.5, -16, -14.5, -10.5, -9.5)] + \
            [(0, d) for d in (5.5, 4.5, -5.5, -4.5)] + [(14, 4.5), (-16, -5.5), (-14, 4.75), (170, 0), (-170, 0), (180, 1)]
    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        for n3 in (0, 1, 2):
            for dx, dy in jumps:
                for x0 in (115., 0.25, 359.75):
                    r = storm(1, 1985, START, x0, -16., simple(n1, 0))
                    last = r[-1]
                    r += storm(1, 1985, last["t"] + datetime.timedelta(hours=6), last["lon"] + dx, last["lat"] + dy, simple(n2, 1))
                    if n3:
                        r += storm(2, 1985, START + datetime.timedelta(days=9), x0 + 1, -14., simple(n3, 2))
                    out.append(("jumps", table(r, mark=("numseason", "num", "serial", "index")[(n1 + n2) % 4])))
    # missing pressures
    codes = (980., 950., "", 0, 9999, -999) if quick else (980., 950., "", 0, 9999, -999, 1100.5, 599.5)
    for s in ((2,), (3,), (1, 1), (1, 2), (2, 1), (2, 2), (4,)) + (() if quick else ((2, 1, 1), (1, 1, 2))):
        n = sum(s)
        for ps in itertools.product(codes[:5] if quick and n > 3 else codes, repeat=n):
            r = rows_of(s)
            for a, p in zip(r, ps):
                a["p"] = p
            out.append(("pressures", table(r)))
    for s in ((2,), (1, 2)):
        for at in range(sum(s)):
            for p in (599.5, 600.5, 700., 849., 870., 1040., 1099.5, 1100.5):
                r = rows_of(s)
                r[at]["p"] = p
                out.append(("pressures", table(r)))
    for u, f in (("Pa", 100.), ("kPa", 0.1)):
        for s in shapes[:12]:
            r = rows_of(s)
            for i, a in enumerate(r):
                a["p"] = "" if i % 4 == 3 else a["p"] * f
            out.append(("pressures", table(r, punits=u)))
    # moves and intervals
    moves = ((1., 0.), (-0.75, 0.5), (0., 0.), (0.25, -1.), (9., 0.))
    for n in (1, 2, 3):
        for ms in itertools.product(moves, repeat=n):
            for hs in itertools.product((0.5, 1.5, 6., 30.) if n < 3 or not quick else (0.5, 1.5, 30.), repeat=n):
                r = storm(1, 1985, START, 118., -12., [(0, 0, 0, 990.)] +
                          [(h, m[0], m[1], 985. - 3 * i) for i, (m, h) in enumerate(zip(ms, hs))])
                r += storm(2, 1985, START + datetime.timedelta(days=3), 112., -17., simple(2, 1, hours=hs[0]))
                out.append(("moves", table(r)))
    # intervals of more than a day, however dates are given
    for hs in itertools.product((3., 30., 49.5), repeat=2):
        for m in MARKS:
            for dt in DATES:
                if dt == "ymdh" and 49.5 in hs:
                    continue
                for t0 in (START, datetime.datetime(1984, 12, 31, 12), datetime.datetime(1985, 2, 28, 18)):
                    if t0.month == 2 and dt == "noyear":
                        continue
                    r = storm(1, 1985, t0, 118., -12., [(0, 0, 0, 990.)] + [(h, 0.75, -0.5, 985. - 3 * i) for i, h in enumerate(hs)])
                    r += storm(2, 1985, t0 + datetime.timedelta(days=9), 112., -17., simple(2, 1, hours=hs[0]))
                    out.append(("intervals", table(r, mark=m, date=dt)))
    # seasons
    for seasons in itertools.product((1979, 1980, 1981, 1983), repeat=3):
        for first in (1970, 1980, 1981):
            for s in ((1, 1, 1), (2, 1, 2)):
                if sum(n for n, y in zip(s, seasons) if y >= first) < 2 or sum(y >= first for y in seasons) < 2:
                    continue
                for m, same in (("numseason", False), ("numseason", True), ("serial", False)):
                    if same and not seasons[0] < seasons[1] < seasons[2]:
                        continue
                    r = []
                    for k, (n, y) in enumerate(zip(s, seasons)):
                        r += storm(1 if same else k + 1, y, datetime.datetime(y, 2, 3 + k, 0, 0) - datetime.timedelta(days=60 * (k % 2)),
                                   (112., 113., 105.)[k], -18. + 0.25 * k, simple(n, k))
                    out.append(("seasons", table(r, mark=m, start=first, extra=("season",), domain=True)))
    # positions around the region
    places = ((112.3, -18.5), (103.7, -18.25), (112.6, -14.6), (101.2, -14.9))
    tracks = [t for n in (1, 2, 3) for t in itertools.product(places, repeat=n)]
    second = [t for t in tracks if len(t) < 3] + [(places[1], places[0], places[3])]
    for a in tracks:
        for b in second:
            for restrict in (False, True):
                r = []
                for k, t in enumerate((a, b, ((113., -19.), (113.5, -18.)))):
                    r += [dict(ident=k + 1, season=1985 + k, t=START + datetime.timedelta(days=370 * k, hours=6 * i),
                               lon=p[0], lat=p[1], p=980.) for i, p in enumerate(t)]
                out.append(("domain", table(r, restrict=restrict, extra=("season",), domain=True)))
    # days of the year
    days = [(1896, 2, 29), (1899, 12, 31), (1900, 3, 1), (1985, 2, 28), (1985, 3, 1), (1985, 12, 31), (1988, 2, 28),
            (1988, 2, 29), (1988, 3, 1), (1988, 12, 31), (2000, 2, 29), (2000, 12, 31)]
    for a in days:
        for b in days:
            r = storm(1, a[0], datetime.datetime(*a, 12), 112., -15., simple(3, 0, hours=9.))
            r += storm(2, b[0], datetime.datetime(*b, 0), 114., -16., simple(2, 1))
            out.append(("days", table(r, date=("date", "ymdhm")[a[2] % 2], start=1800)))
    return out


def columns(tb):
    m, d = tb["mark"], tb["date"]
    cols = {"index": ["index"], "serial": ["tcserialno"], "numseason": ["season", "num"], "num": ["num"]}[m]
    if "season" in tb["extra"] and "season" not in cols:
        cols.append("season")
    cols += {"date": ["date"], "datefmt": ["date"], "ymdhm": ["year", "month", "day", "hour", "minute"],
             "hhmm": ["year", "month", "day", "hour"], "ymdh": ["year", "month", "day", "hour"],
             "noyear": ["month", "day", "hour", "minute"], "age": ["age"]}[d]
    return cols + ["skip", "lat", "lon", "pressure", "penv", "poci"] + [c for c in ("vmax", "rmax") if c in tb["extra"]]


def value(tb, c, i, r, first, rows):
    if c == "index":
        return "%d" % first
    if c == "tcserialno":
        return "%d020S15%03d" % (r["season"], r["ident"])
    if c in ("season",):
        return "%d" % r["season"]
    if c == "num":
        return "%d" % r["ident"]
    if c == "date":
        return r["t"].strftime("%Y-%m-%d %H:%M:%S" if tb["date"] == "date" else "%d/%m/%Y %H%M")
    if c == "hour" and tb["date"] == "hhmm":
        return r["t"].strftime("%H%M")
    if c in ("year", "month", "day", "hour", "minute"):
        return "%d" % getattr(r["t"], c)
    if c == "age":
        return "%.4f" % r["age"]
    if c == "lat" or c == "lon":
        return "%.4f" % r[c]
    if c == "pressure":
        return "%s" % r["p"]
    if c in ("penv", "poci"):
        return "1009.5"
    if c == "vmax":
        return ("30.5", "999", "12", "", "25")[i % 5]
    if c == "rmax":
        return ("30.5", "44", "38.25", "51")[i % 4]
    return "x"


def marked(rows):
    """Does the identifier change at each record?"""
    return [i == 0 or (rows[i]["ident"], rows[i]["season"]) != (rows[i - 1]["ident"], rows[i - 1]["season"]) for i in range(len(rows))]


def write(tb, d):
    rows = tb["rows"]
    fresh = marked(rows)
    for i, r in enumerate(rows):
        r["age"] = 0. if fresh[i] else rows[i - 1]["age"] + (r["t"] - rows[i - 1]["t"]).total_seconds() / 3600.
    cols = columns(tb)
    path = os.path.join(d, "table.csv")
    with open(path, "w") as f:
        f.write(",".join(cols) + "\n")
        for i, r in enumerate(rows):
            f.write(",".join(value(tb, c, i, r, fresh[i], rows) for c in cols) + "\n")
    out = os.path.join(d, "out")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "process"))
    src = {"Columns": ",".join(cols), "FieldDelimiter": ",", "NumberOfHeadingLines": "1", "PressureUnits": tb["punits"],
           "LengthUnits": "km", "SpeedUnits": "mps",
           "DateFormat": "%d/%m/%Y %H%M" if tb["date"] == "datefmt" else "%Y-%m-%d %H:%M:%S"}
    ini = world.write_config(os.path.join(d, "c.ini"), {
        "DataProcess": {"InputFile": path, "Source": "SRC", "StartSeason": tb["start"], "FilterSeasons": str("season" in cols)},
        "Region": {"gridLimit": world.limit(*tb["region"])},
        "Input": {"LandMask": os.path.join(os.path.dirname(d), "mask.nc")},
        "Output": {"Path": out, "Format": "txt"}, "SRC": src})
    return ini, path, out


# ---- the reference --------------------------------------------------------------------------
def far(a, b, dx):
    w = abs((b["lon"] - a["lon"] + 180) % 360 - 180)
    return w > dx or abs(b["lat"] - a["lat"]) > 5


def domain_of(tb, rows):
    """The smallest whole-degree box with the region and each storm that enters it, up to its last point there."""
    x0, x1, y0, y1 = tb["region"]
    box = [x0, x1, y0, y1]
    cur = []
    for i, r in enumerate(rows):
        if marked(rows)[i]:
            cur = []
        cur.append(r)
        if x0 <= r["lon"] <= x1 and y0 <= r["lat"] <= y1:
            for q in cur:
                box = [min(box[0], q["lon"]), max(box[1], q["lon"]), min(box[2], q["lat"]), max(box[3], q["lat"])]
    return [math.floor(box[0]), math.ceil(box[1]), math.floor(box[2]), math.ceil(box[3])]


def select(tb, dx):
    """The records that are used, with their starts."""
    rows = tb["rows"]
    fresh = marked(rows)
    keep = list(range(len(rows)))
    if tb["restrict"]:
        b = domain_of(tb, rows)
        inside, keep = False, []
        for i, r in enumerate(rows):
            if fresh[i]:
                inside = b[0] <= r["lon"] <= b[1] and b[2] <= r["lat"] <= b[3]
            if inside:
                keep.append(i)
    if "season" in columns(tb) and tb["date"] != "age":
        keep = [i for i in keep if rows[i]["season"] >= tb["start"]]
    use = [rows[i] for i in keep]
    start = [fresh[i] for i in keep]
    for i in range(1, len(use)):
        if far(use[i - 1], use[i], dx):
            start[i] = True
    return keep, use, start


def arc(a, b):
    x0, y0, x1, y1 = [math.radians(v) for v in (a["lon"], a["lat"], b["lon"], b["lat"])]
    h = math.sin((y1 - y0) / 2) ** 2 + math.cos(y0) * math.cos(y1) * math.sin((x1 - x0) / 2) ** 2
    return 2 * 6371. * math.asin(math.sqrt(h))


def heading(a, b):
    dx = (b["lon"] - a["lon"] + 180) % 360 - 180
    return math.degrees(math.atan2(dx * math.cos(math.radians((a["lat"] + b["lat"]) / 2)), b["lat"] - a["lat"])) % 360


def year_of(tb, rows, start):
    """The years, as far as the table has them."""
    if tb["date"] == "age":
        return [2000 for _ in rows]
    if tb["date"] != "noyear":
        return [r["t"].year for r in rows]
    return None


def pressure(tb, p):
    try:
        v = float(p) / {"hPa": 1., "Pa": 100., "kPa": 0.1}[tb["punits"]]
    except ValueError:
        return None
    return v if 600 <= v <= 1100 else None


def close(a, b, tol):
    """Lists with None as missing."""
    if len(a) != len(b):
        return "%d values instead of %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if y == "any":
            continue
        mx = abs(x - 2. ** 63) < 1e12
        if y is None:
            if not mx:
                return "entry %d is %g instead of missing" % (i + 1, x)
        elif mx or not abs(x - y) <= (tol(y) if callable(tol) else tol):
            return "entry %d is %s instead of %.3f" % (i + 1, "missing" if mx else "%.3f" % x, y)
    return None


def load(path):
    """A column or table of a text file."""
    out = []
    with open(path) as f:
        for line in f:
            line = line.strip()
            if line and line[0] not in "%#":
                v = [float(x) for x in line.replace(",", " ").split()]
                out.append(v if len(v) > 1 else v[0])
    return out


def judge_process(tb, out):
    keep, use, start = select(tb, 15)
    n = len(use)
    P = lambda f: os.path.join(out, "process", f)  # noqa
    have = lambda f: load(P(f))  # noqa
    alone = [start[i] and (i + 1 == n or start[i + 1]) for i in range(n)]
    second = [i > 0 and start[i - 1] and not start[i] for i in range(n)]
    hrs = [None if start[i] else (use[i]["t"] - use[i - 1]["t"]).total_seconds() / 3600. for i in range(n)]

    tracks = have("cyclone_tracks")
    if [int(r[0]) for r in tracks] != [int(s) for s in start]:
        return "storms start at %s instead of %s" % ([int(r[0]) for r in tracks], [int(s) for s in start])
    years = year_of(tb, use, start)
    first = [r["season"] for r, s in zip(use, start) if s] if "season" in columns(tb) else \
        [y for y, s in zip(years, start) if s] if years else ["any"] * sum(start)
    t = close(have("origin_year"), first, 0.1)
    if t:
        return "origin_year: " + t
    for f, want in (("cyclone_tracks", range(n)), ("all_lon_lat", range(n)), ("origin_lon_lat", [i for i in range(n) if start[i]]),
                    ("init_lon_lat", [i for i in range(n) if start[i] and not alone[i]])):
        got = have(f)
        if got and not isinstance(got[0], list):
            got = [got]
        off = 1 if f == "cyclone_tracks" else 0
        for c, key in ((0, "lon"), (1, "lat")):
            t = close([g[c + off] for g in got], [use[i][key] for i in want], 0.0061)
            if t:
                return "%s, %s: %s" % (f, key, t)
    # motion
    speed = [None if start[i] or not hrs[i] else arc(use[i - 1], use[i]) / hrs[i] for i in range(n)]
    plausible = [s is not None and s <= 200 for s in speed]
    edge = [s is not None and 195 < s < 205 for s in speed]
    wantS = ["any" if edge[i] else speed[i] if plausible[i] else None for i in range(n)]
    wantB = [None if start[i] else "any" if arc(use[i - 1], use[i]) < 1 else heading(use[i - 1], use[i]) for i in range(n)]
    S, B = have("all_speed"), have("all_bearing")
    t = close(S, wantS, lambda v: 0.05 + 0.01 * v)
    if t:
        return "all_speed: " + t
    t = close([b if w in (None, "any") else w + ((b - w + 180) % 360 - 180) for b, w in zip(B, wantB)] if len(B) == n else B, wantB, 1.5)
    if t:
        return "all_bearing: " + t
    pick = lambda v, sel: [v[i] for i in range(n) if sel[i]]  # noqa
    rest = [not start[i] and not second[i] for i in range(n)]
    none = lambda v: [None if abs(x - 2. ** 63) < 1e12 else x for x in v]  # noqa
    for f, v, sel in (("init_speed", S, second), ("speed_no_init", S, rest), ("init_bearing", B, second), ("bearing_no_init", B, rest)):
        t = close(have(f), none(pick(v, sel)), 0.02)
        if t:
            return "%s: %s" % (f, t)
    wantR, wantQ = [], []
    for i in range(n):
        ok = not start[i] and i > 0 and not start[i - 1] and hrs[i]
        wantR.append("any" if ok and (edge[i] or edge[i - 1]) else (S[i] - S[i - 1]) / hrs[i] if ok and plausible[i] and plausible[i - 1] else None)
        wantQ.append((((B[i] - B[i - 1] + 180) % 360) - 180) / hrs[i] if ok else None)
    t = close(have("speed_rate"), wantR, 0.05)
    if t:
        return "speed_rate: " + t
    Q = have("bearing_rate")
    # half turns either way
    Q = [-q if isinstance(w, float) and abs(abs(w) * (h or 0) - 180) < 0.1 and q * w < 0 else q for q, w, h in zip(Q, wantQ, hrs)] if len(Q) == n else Q
    t = close(Q, wantQ, 0.08)
    if t:
        return "bearing_rate: " + t
    # pressures
    p = [pressure(tb, r["p"]) for r in use]
    rate = [None if start[i] or not hrs[i] or p[i] is None or p[i - 1] is None else (p[i] - p[i - 1]) / hrs[i] for i in range(n)]
    rate = [None if r is None or abs(r) > 10 else r for r in rate]
    for f, want, tol in (("all_pressure", p, 0.02), ("init_pressure", pick(p, start), 0.02), ("pressure_rate", rate, 0.02),
                         ("pressure_no_init", [x for x, s in zip(p, start) if not s and x is not None], 0.02)):
        t = close(have(f), want, tol)
        if t:
            return "%s: %s" % (f, t)
    w = have("wind_speed")
    t = close(w, [(30.5, None, 12., None, 25.)[i % 5] for i in keep] if "vmax" in tb["extra"] else [None] * n, 0.02)
    if t:
        return "wind_speed: " + t
    if "rmax" in tb["extra"]:
        rm = [(30.5, 44., 38.25, 51.)[i % 4] for i in keep]
        for f, want in (("all_rmax", rm), ("init_rmax", pick(rm, start)), ("rmax_no_init", pick(rm, [not s for s in start])),
                        ("rmax_rate", [None if start[i] else (rm[i] - rm[i - 1]) / hrs[i] for i in range(n)])):
            t = close(have(f), want, 0.02)
            if t:
                return "%s: %s" % (f, t)
    elif os.path.exists(P("all_rmax")):
        return "radii without a column of radii"
    # years and days
    if years and min(years) != max(years):
        c = Counter(y for y, s in zip(years, start) if s)
        got = have("frequency")
        if [(int(y), int(k)) for y, k in got] != [(y, c.get(y, 0)) for y in range(min(years), max(years) + 1)]:
            return "frequency: %s for storms that start in %s" % ([(int(y), int(k)) for y, k in got if k], sorted(c.items()))
    if tb["date"] not in ("age", "noyear"):
        doy = []
        for r in use:
            q = r["t"].replace(year=2001, day=28) if (r["t"].month, r["t"].day) == (2, 29) else r["t"].replace(year=2001)
            doy.append(int(q.strftime("%j")))
        for f, sel in (("jday_genesis", start), ("jday_obs", [True] * n)):
            c = Counter(pick(doy, sel))
            got = {int(a): int(b) for a, b in have(f) if b}
            if got != dict(c):
                return "%s: %s instead of %s" % (f, got, dict(c))
        t = close(have("jdays"), pick(doy, start), 0.1)
        if t:
            return "jdays: " + t
    return None


def judge_domain(tb, ini, out):
    from DataProcess.CalcFrequency import CalcFrequency
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    keep, use, start = select(tb, 15)
    got = CalcTrackDomain(ini).calcDomainFromFile()
    want = domain_of(tb, use)
    if [got[k] for k in ("xMin", "xMax", "yMin", "yMax")] != want:
        return "track domain %s instead of %s" % (got, want)
    season = [r["season"] for r, s in zip(use, start) if s]
    if len(season) < 2 or min(season) == max(season):
        return None
    f = CalcFrequency(ini, got).calc()
    rows = load(os.path.join(out, "process", "region_frequency"))
    rows = [rows] if rows and not isinstance(rows[0], list) else rows
    exp = []
    for y in range(min(season), max(season)):
        exp.append((y, sum(1 for r, s in zip(use, start) if s and r["season"] == y and want[0] < r["lon"] < want[1] and want[2] < r["lat"] < want[3])))
    if [(int(a), int(b)) for a, b in rows] != exp:
        return "region_frequency: %s instead of %s" % (rows, exp)
    mean = sum(b for a, b in exp) / float(len(exp))
    if abs(f - mean) > 0.0051:
        return "mean frequency %g instead of %g" % (f, mean)
    return None


def judge_tracks(tb, ini, path):
    from Utilities.loadData import loadTrackFile
    tb = dict(tb, restrict=False)
    keep, use, start = select(tb, 10)
    tracks = loadTrackFile(ini, path, "SRC")
    observed = loadTrackFile(ini, path, "SRC", calculateWindSpeed=False) if "rmax" in tb["extra"] else None
    groups = []
    for r, s in zip(use, start):
        if s:
            groups.append([])
        groups[-1].append(r)
    if [len(t.data) for t in tracks] != [len(g) for g in groups]:
        return "tracks of %s records instead of %s" % ([len(t.data) for t in tracks], [len(g) for g in groups])
    for k, (t, g) in enumerate(zip(tracks, groups)):
        n = len(g)
        if set(t.CycloneNumber.tolist()) != {k + 1} or tuple(t.trackId) != (k + 1, len(groups)):
            return "track %d is numbered %s of %s" % (k + 1, t.CycloneNumber.tolist(), t.trackId)
        if [int(v) for v in t.Indicator] != [1] + [0] * (n - 1):
            return "track %d starts at %s" % (k + 1, t.Indicator.tolist())
        for key, c in (("lon", "Longitude"), ("lat", "Latitude")):
            w = close(getattr(t, c), [r[key] for r in g], 1e-3)
            if w:
                return "track %d, %s: %s" % (k + 1, c, w)
        if tb["date"] not in ("age", "noyear"):
            if list(t.Datetime) != [r["t"] for r in g]:
                return "track %d is dated %s instead of %s" % (k + 1, t.Datetime[0], g[0]["t"])
        el = [(r["t"] - g[0]["t"]).total_seconds() / 3600. for r in g]
        if tb["date"] == "age" and k and far(use[sum(map(len, groups[:k])) - 1], g[0], 10):
            el = ["any"] * n
        w = close(t.TimeElapsed, el, 2e-3)
        if w:
            return "track %d, age: %s" % (k + 1, w)
        p = [pressure(tb, r["p"]) or 0. for r in g]
        w = close(t.CentralPressure, p, 0.02)
        if w:
            return "track %d, pressure: %s" % (k + 1, w)
        v = [x for x in p if x]
        if abs(t.trackMinPressure - (min(v) if v else 0)) > 0.02:
            return "track %d has a least pressure of %g instead of %g" % (k + 1, t.trackMinPressure, min(v) if v else 0)
        if "rmax" in tb["extra"]:
            at = [keep[i] for i in range(sum(map(len, groups[:k])), sum(map(len, groups[:k + 1])))]
            w = close(t.rMax, [(30.5, 44., 38.25, 51.)[i % 4] for i in at], 1e-3)
            if w:
                return "track %d, radius: %s" % (k + 1, w)
            o = observed[k]
            vm = [(30.5, "any", 12., 0., 25.)[i % 5] for i in at]
            w = close(o.WindSpeed, vm, 1e-3)
            if w:
                return "track %d, observed wind: %s" % (k + 1, w)
            if "any" not in vm and abs(o.trackMaxWind - max(vm)) > 1e-3:
                return "track %d has a highest wind of %g instead of %g" % (k + 1, o.trackMaxWind, max(vm))
        w = close(t.EnvPressure, [1009.5] * n, 1e-3)
        if w:
            return "track %d, surrounding pressure: %s" % (k + 1, w)
        sp, be = [0.], [0.]
        for a, b in zip(g[:-1], g[1:]):
            h = (b["t"] - a["t"]).total_seconds() / 3600.
            s = arc(a, b) / h
            sp.append("any" if 195 < s < 205 else s if s <= 200 else 0.)
            be.append("any" if arc(a, b) < 1 else heading(a, b))
        w = close(t.Speed, sp, lambda x: 0.05 + 0.01 * x)
        if w:
            return "track %d, speed: %s" % (k + 1, w)
        B = [b if q == "any" else q + ((b - q + 180) % 360 - 180) for b, q in zip(t.Bearing, be)]
        w = close(B, be, 1.5)
        if w:
            return "track %d, bearing: %s" % (k + 1, w)
    return None


# ---- running --------------------------------------------------------------------------------
def run_table(block, tb, d):
    from DataProcess.DataProcess import DataProcess
    from Utilities import config as cfg
    try:
        ini, path, out = write(tb, d)
    except Exception as e:
        raise common.CheckError("cannot write a table: %r" % (e,))
    step = "processing"
    try:
        cfg.reset()
        if not tb.get("tracks_only"):
            DataProcess(ini).processData(restrictToWindfieldDomain=tb["restrict"])
            step = "the files of the processing"
            text = judge_process(tb, out)
            if text:
                return text
            if tb.get("domain"):
                step = "the domain"
                text = judge_domain(tb, ini, out)
                if text:
                    return text
        if not tb["restrict"] and block != "domain":
            step = "loading the tracks"
            cfg.reset()
            text = judge_tracks(tb, ini, path)
            if text:
                return "loadTrackFile: " + text
    except Exception as e:
        import traceback
        where = traceback.extract_tb(e.__traceback__)[-1]
        if where.filename == __file__ and step == "processing":
            raise
        return "%s failed: %s: %s" % (step, type(e).__name__, str(e)[:200])
    return None


def work(job):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    d = os.path.join(job["dir"], "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    bad, seen, recs = [], Counter(), 0
    for block, tb in job["tables"]:
        text = run_table(block, tb, d)
        seen[block] += 1
        recs += len(tb["rows"])
        if text:
            bad.append((text, block, tb))
            break
    return bad, seen, recs


def pack(tb):
    return dict(tb, rows=[dict(r, t=r["t"].isoformat()) for r in tb["rows"]])


def unpack(tb):
    return dict(tb, rows=[dict(r, t=datetime.datetime.fromisoformat(r["t"])) for r in tb["rows"]])


def describe(tb):
    k, use, start = select(tb, 15)
    return "storms marked by %s, dates by %s: %s" % (tb["mark"], tb["date"], "; ".join(
        "%s%d %s %g,%g %s" % ("*" if s else "", r["ident"], r["t"].strftime("%Y-%m-%d %H:%M"), r["lon"], r["lat"], r["p"])
        for r, s in zip(use, start)))


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    mpi.install()
    ext.install(ext.build_all())
    import DataProcess.CalcFrequency  # noqa: before the forks
    import DataProcess.CalcTrackDomain  # noqa
    import DataProcess.DataProcess  # noqa
    import inspect
    inspect.stack()
    d = ctx.mkdir("c14")
    world.landmask_nc(os.path.join(d, "mask.nc"), lambda x, y: (x > 112) & (y < -17), step=5., x0=0., x1=360.)
    if ctx.replay:
        bad, _, _ = work(dict(tables=[(ctx.replay["block"], unpack(ctx.replay["table"]))], dir=d))
        for text, block, tb in bad:
            ctx.violation(text, dict(block=block, table=pack(tb)))
        return
    ts = tables(not ctx.thorough)
    jobs = [dict(tables=part, dir=d) for part in common.chunks(ts, max(1, len(ts) // 40))]
    seen = Counter()
    for res in common.pmap(work, jobs, stop=lambda r: bool(r[0])):
        if res is None:
            continue
        bad, s, recs = res
        seen.update(s)
        ctx.add(records=recs)
        for text, block, tb in bad:
            ctx.violation("%s (%s)" % (text, describe(tb)), dict(block=block, table=pack(tb)))
    distinct = set(repr(sorted(pack(t).items(), key=str)) for _, t in ts)
    ctx.explored(sum(seen.values()), distinct, "different tables")
    ctx.cov["tables_by_block"] = dict(seen)
    for b in ("jumps", "pressures", "moves"):
        ctx.sample(next(describe(t) for k, t in ts if k == b))
    ctx.assumptions += ["at least two records; seasons do not change within a storm; output format txt"]
