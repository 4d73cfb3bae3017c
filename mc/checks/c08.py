"""C08: a track file gives back the tracks written to it.

Every case of a bounded lattice (number and lengths of tracks, identifiers, dates,
time steps, calendars, units, field values) is written and read with the real
functions; the reference is a private copy of what was written."""
import itertools
import logging
import os
from datetime import datetime, timedelta

import numpy as np

from .. import common

FIELDS = ("TimeElapsed", "Longitude", "Latitude", "Speed", "Bearing", "CentralPressure", "EnvPressure", "rMax")
STARTS = ["0001-01-01 00:00:00", "1583-01-01 05:00:00", "1899-12-31 23:59:59", "1900-01-01 00:00:00",
          "1900-02-28 23:00:00", "1999-12-31 18:00:00", "2000-02-28 23:59:59", "2011-03-01 00:00:01",
          "9990-12-31 23:59:58"]
STEPS = [3600, 21600, 1800, 360, 600, 1, 7, 86400]
CALENDARS = ["julian", "standard", "gregorian", "proleptic_gregorian", "noleap", "360_day", "all_leap"]
UNITS = [None, "hours since 1900-01-01 00:00", "days since 1900-01-01 00:00", "minutes since 1950-01-01 00:00",
         "seconds since 2000-01-01 00:00", "hours since 1990-01-01 00:00", "hours since 0001-01-01 00:00"]
IDS = [None, (1, 3), (12, 40), 7, "x-1"]
VALUES = [0.0, -0.0, 1.0 / 3.0, -179.999999999, 359.99, 1013.25, 1e-12, 1e20, -9999.0, 87654.321, float("nan")]


def make(c):
    """Tracks of the case and what must be read back."""
    from Utilities.track import TCRM_COLS, TCRM_FMTS, Track
    names, fmts = list(TCRM_COLS), list(TCRM_FMTS)
    if c.get("extra"):
        names, fmts = names + ["Landfall"], fmts + ["f8"]
    dt = np.dtype({"names": names, "formats": fmts})
    tracks, want = [], []
    k = c.get("v", 0)
    start = datetime.strptime(c["start"], "%Y-%m-%d %H:%M:%S")
    for n, ln in enumerate(c["lens"]):
        a = np.zeros(ln, dtype=dt)
        rows = []
        for i in range(ln):
            when = start + timedelta(seconds=c["step"] * i) + timedelta(days=n)
            row = {"CycloneNumber": n + 1, "Datetime": when}
            for f in FIELDS:
                row[f] = VALUES[k % len(VALUES)] + (n * 16 + i if c.get("shift") else 0)
                k += 1
            row["TimeElapsed"] = float(np.float32(row["TimeElapsed"]))
            for f, v in row.items():
                a[f][i] = v
            rows.append(row)
        t = Track(a)
        tid = c["ids"]
        t.trackId = (n + 1, len(c["lens"])) if tid == "seq" else tid
        tracks.append(t)
        if ln:
            want.append((t.trackId, rows))
    return tracks, want


def same(x, y):
    return x == y or (x != x and y != y)


def compare(got, want, what):
    if len(got) != len(want):
        return "%s: %d tracks, written %d" % (what, len(got), len(want))
    for n, (t, (tid, rows)) in enumerate(zip(got, want)):
        if t.trackId != tid or type(t.trackId) is not type(tid):
            return "%s: track %d has identifier %r, written %r" % (what, n, t.trackId, tid)
        if len(t.data) != len(rows):
            return "%s: track %d has %d points, written %d" % (what, n, len(t.data), len(rows))
        for i, row in enumerate(rows):
            for f, v in row.items():
                g = getattr(t, f)[i]
                if not same(g, v):
                    return "%s: track %d point %d %s is %r, written %r" % (what, n, i, f, g, v)
    return None


def case(c, d):
    from Utilities import track
    tracks, want = make(c)
    path = os.path.join(d, "tracks.00001.nc")
    if os.path.exists(path):
        os.unlink(path)
    kw = {}
    if c["calendar"]:
        kw["calendar"] = c["calendar"]
    if c["units"]:
        kw["timeunits"] = c["units"]
    if c.get("over"):
        other, _ = make(dict(c, lens=[4, 4, 4, 4, 4], shift=True, v=3))
        track.ncSaveTracks(path, other, **kw)
    if c.get("atts"):
        kw["attributes"] = {"history": "made here"}
    track.ncSaveTracks(path, tracks, **kw)
    mem = [(t.trackId, r) for t, r in zip([t for t in tracks if len(t.data)], [r for _, r in want])]
    text = compare([t for t in tracks if len(t.data)], mem, "in memory after writing")
    if text:
        return text
    if not want:
        if os.path.exists(path) and not tracks:
            return "a file was written for no tracks"
        if not os.path.exists(path):
            return None
    text = compare(track.ncReadTrackData(path), want, "read back")
    if text:
        return text
    text = compare(list(track.loadTracksFromFiles([path, path])), want + want, "read twice with loadTracksFromFiles")
    if text:
        return text
    if c.get("again"):
        # the tracks in memory are unchanged, so writing what was read gives the same again
        track.ncSaveTracks(path + ".2", track.ncReadTrackData(path), **kw)
        text = compare(track.ncReadTrackData(path + ".2"), want, "read, written and read again")
        if text:
            return text
        track.ncSaveTracks(path, tracks, **kw)
        text = compare(track.loadTracks(path), want, "written a second time and read")
        if text:
            return text
    if c.get("atts"):
        import netCDF4
        with netCDF4.Dataset(path) as ds:
            if getattr(ds, "history", None) != "made here":
                return "global attributes were not saved"
    return None


def valid(c):
    """Every time of the case exists in the calendar."""
    cal = c["calendar"] or "standard"
    start = datetime.strptime(c["start"], "%Y-%m-%d %H:%M:%S")
    if cal in ("standard", "gregorian") and start.year < 1583:
        return False
    for n, ln in enumerate(c["lens"]):
        for i in range(max(ln, 1)):
            w = start + timedelta(seconds=c["step"] * i) + timedelta(days=n)
            if (w.month, w.day) == (2, 29) and cal == "noleap":
                return False
            if w.day > 30 and cal == "360_day":
                return False
    return True


def cases(ctx):
    base = dict(lens=[2, 3], start="2000-01-31 22:00:00", step=3600, calendar="julian", units=None, ids="seq")
    # shapes of the collection
    maxn = ctx.pick(4, 5)
    for n in range(0, maxn + 1):
        for lens in itertools.product(range(0, 4), repeat=n):
            for over in ((False, True) if n else (False,)):
                yield dict(base, lens=list(lens), over=over, v=sum(lens), shift=True)
    for n in (10, 11, 101):
        yield dict(base, lens=[1] * n, shift=True)
    yield dict(base, lens=[1000, 3], step=360)
    # times: calendars x units x dates x steps
    for start, step, cal, units in itertools.product(STARTS, STEPS, CALENDARS + [None], UNITS):
        c = dict(base, start=start, step=step, calendar=cal, units=units, lens=[8, 2])
        if valid(c):
            yield c
    # identifiers, values, extra fields, rewriting
    for tid, v, extra, again, atts in itertools.product(IDS + ["seq"], range(len(VALUES)), (False, True),
                                                        (False, True), (False, True)):
        yield dict(base, ids=tid, v=v, extra=extra, again=again, atts=atts)


def one(c, d):
    try:
        return case(c, d)
    except Exception as e:
        return "writing or reading fails: %s: %s" % (type(e).__name__, e)


def job(j):
    part, d = j
    os.makedirs(d, exist_ok=True)
    bad, seen = [], set()
    for c in part:
        text = one(c, d)
        if sum(c["lens"]) > 1:
            seen.add(hash(repr(c)))
        if text:
            bad.append((text, c))
    return len(part), seen, bad


def main(ctx):
    logging.disable(logging.CRITICAL)
    import Utilities.track                                       # noqa: F401
    if ctx.replay is not None:
        c = dict(ctx.replay)
        if isinstance(c["ids"], list):
            c["ids"] = tuple(c["ids"])
        text = one(c, ctx.mkdir("r"))
        if text:
            ctx.violation(text, c)
        return
    allc = list(cases(ctx))
    base = ctx.mkdir("t")
    parts = [(p, os.path.join(base, str(k))) for k, p in enumerate(common.chunks(allc, 32))]
    for n, seen, bad in common.pmap(job, parts):
        ctx.explored(n, seen, "collections of tracks written and read back; distinct = those of more than one point")
        for text, c in bad:
            ctx.violation(text, c)
    ctx.sample(allc[5])
    ctx.sample(allc[-1])
    ctx.assumptions = ["times have no fraction of a second and exist in the calendar used"]
