"""C32: wind speeds estimated from pressures.

All storms of up to three records over an alphabet of pressures, steps and time steps are read
from best-track files, together and alone; every estimated wind speed is compared with the
published relation evaluated for the record itself. The simple relations and their inverses are
run over a complete lattice."""
import itertools
import logging
import math
import os
import shutil
import warnings

import numpy as np

from .. import common, world
from .c31 import measure

POCI = 1004.
PRESSURES = (None, 1006., 985., 968., 940.)
MOVES = ((0., 0.), (.5, -.3), (-1., .2), (1.5, 1.5), (3.5, 2.))
STEPS = (1., 6.)
STARTS = ((-12., 150.), (-35., .3), (18., 179.8), (31., 359.9))


def holland(lat, pc, poci, speed, change):
    """10-minute mean wind speed (m/s): Holland et al. (2010), from a 1-minute mean."""
    if pc is None or pc >= poci:
        return 0.
    dp = poci - pc
    pr = pc + dp / 3.7
    t = 28. - 3. * (abs(lat) - 10.) / 20.
    q = .9 * 3.802 / pr * math.exp(17.67 * t / (243.5 + t))
    rho = pr * 100. / (287.04 * (t + 273.15) * (1. + .81 * q))
    b = 1. - 4.4e-5 * dp ** 2 + .01 * dp + .03 * change - .014 * abs(lat) + .15 * (speed / 3.6) ** (.6 * (1. - dp / 215.))
    return .9524 * math.sqrt(100. * dp * b / (rho * math.e)) if b > 0 else 0.


def expected(storm):
    """Pressure change (hPa/h) and forward speed (km/h) of each record."""
    out = []
    for i, (h, lat, lon, pc) in enumerate(storm):
        speed = change = 0.
        if i:
            dt = h - storm[i - 1][0]
            speed = measure(storm[i - 1][2], storm[i - 1][1], lon, lat)[0] / dt
            if speed > 200.:
                speed = 0.
            if pc is not None and storm[i - 1][3] is not None:
                change = (pc - storm[i - 1][3]) / dt
                if abs(change) > 5.:
                    change = 0.
        out.append((change, speed))
    return out


def load(out, storms, mslp, first):
    from Utilities import config as cfg
    from Utilities.loadData import loadTrackFile
    import datetime
    path, ini = os.path.join(out, "t.csv"), os.path.join(out, "t.ini")
    t0 = datetime.datetime(2001, 2, 27, 18)
    with open(path, "w") as fh:
        fh.write("heading\n")
        for n, s in enumerate(storms):
            for i, (h, lat, lon, pc) in enumerate(s):
                # each storm starts 1 or 7 hours after the end of the one before
                fh.write("%d,%d,%s,%.4f,%.4f,%s,1010,%s\n" % (
                    int(i == 0) if first else n + 1, 2001, (t0 + datetime.timedelta(hours=h)).strftime("%Y-%m-%d %H:%M:%S"), lat, lon,
                    "" if pc is None else pc, POCI))
            t0 += datetime.timedelta(hours=s[-1][0] + 1 + 6 * (n % 2))
    world.write_config(ini, {"SRC": {"Columns": ("index" if first else "num") + ",season,date,lat,lon,pressure,penv,poci",
                                     "FieldDelimiter": ",", "NumberOfHeadingLines": 1, "PressureUnits": "hPa", "LengthUnits": "km",
                                     "SpeedUnits": "mps", "DateFormat": "%Y-%m-%d %H:%M:%S"},
                             "Input": {"MSLPFile": mslp, "MSLPVariableName": "slp"}, "Output": {"Path": out}})
    cfg.reset()
    try:
        return loadTrackFile(ini, path, "SRC")
    finally:
        cfg.reset()


def judge(storms, tracks):
    if len(tracks) != len(storms):
        return None, "%d storms are read as %d" % (len(storms), len(tracks))
    for s, t in zip(storms, tracks):
        if len(t.Latitude) != len(s):
            return s, "%d records are read as %d" % (len(s), len(t.Latitude))
        want = expected(s)
        v, sp = np.asarray(t.WindSpeed, float), np.asarray(t.Speed, float)
        for i, (change, speed) in enumerate(want):
            if not abs(sp[i] - speed) <= .02 * speed + 1e-6:
                return s, "record %d moves at %g instead of %g km/h" % (i, sp[i], speed)
            w = holland(s[i][1], s[i][3], POCI, sp[i], change)      # for the speed within these limits
            if not abs(v[i] - w) <= 1e-4 * w + 1e-6:
                return s, "record %d has a wind speed of %g instead of %g m/s" % (i, v[i], w)
        known = [r[3] for r in s if r[3] is not None]
        if abs(t.trackMaxWind - max(v)) > 1e-6 or known and abs(t.trackMinPressure - min(known)) > 1e-6:
            return s, "strongest wind %s and lowest pressure %s" % (t.trackMaxWind, t.trackMinPressure)
    return None, None


def storms_from(start, p0, steps):
    lat, lon = start
    for n in steps:
        for tail in itertools.product(itertools.product(PRESSURES, MOVES, STEPS), repeat=n):
            s = [(0., lat, lon, p0)]
            for pc, (dx, dy), dt in tail:
                h, la, lo, _ = s[-1]
                s.append((h + dt, round(la + dy, 4), round(lo + dx, 4), pc))
            yield s


def files(j):
    _, out, start, p0, mslp = j
    st = dict(n=0, keys=[], bad=None)
    os.makedirs(out, exist_ok=True)
    storms = list(storms_from(start, p0, (0, 1, 2)))
    lots = [(storms[k:k + 400], f) for k in range(0, len(storms), 400) for f in (False,)]
    lots += [(storms[:45][::-1], True)] + [([s], f) for s in storms[:41] for f in (False, True)]
    for lot, first in lots:
        if len(lot) == 1 and len(lot[0]) == 1:
            continue                     # one record in all has no steps
        st["n"] += sum(map(len, lot))
        try:
            s, bad = judge(lot, load(out, lot, mslp, first))
        except Exception as e:
            s, bad = None, "loading failed: %s %s" % (type(e).__name__, str(e)[:120])
        if bad:
            st["bad"] = ("storm %s among %d: %s" % (s, len(lot), bad), dict(lot=lot if s is None or len(lot) < 50 else [s], first=first))
            return st
    st["keys"] = ["%s" % (s,) for s in storms]
    return st


def alone(j):
    _, out, lot, first, mslp = j
    os.makedirs(out, exist_ok=True)
    lot = [[tuple(r) for r in s] for s in lot]
    try:
        s, bad = judge(lot, load(out, lot, mslp, first))
    except Exception as e:
        bad = "loading failed: %s %s" % (type(e).__name__, str(e)[:120])
    return dict(n=1, keys=["replay"], bad=(bad, dict(lot=lot, first=first)) if bad else None)


def simple(j):
    """The plain relations: published constants, rising with the deficit, undone by their inverse."""
    from wind import vmax as vm
    st = dict(n=0, keys=[], bad=None)
    deficits = (0., .5, 3., 10., 27., 60., 100.)
    for kind, pe, beta, rho in itertools.product(("willoughby", "holland", "atkinson"), (1004., 1010., 1015.), (1.1, 1.3, 1.9), (1.1, 1.15)):
        if kind == "atkinson" and pe != 1010.:
            continue                     # defined for this outer pressure only
        last = -1.
        for dp in deficits:
            st["n"] += 1
            st["keys"].append("%s %g %g %g %g" % (kind, pe, beta, rho, dp))

            def bad(text):
                st["bad"] = ("%s of %g below %g hPa: %s" % (kind, dp, pe, text), dict(simple=1))
                return st
            try:
                v = float(vm.vmax(pe - dp, pe, kind, beta, rho))
                if (beta, rho) == (1.3, 1.15) and (v, v) != (float(vm.vmax(pe - dp, pe, kind)), float(vm.vmax(pe - dp, pe, kind, rho=rho))):
                    return bad("another value by default")
                vp = float(vm.vmax((pe - dp) * 100., pe * 100., kind, beta, rho))
                back = [float(vm.pDiff(v, p, kind, beta, rho)) for p in (pe, pe * 100.)]
            except Exception as e:
                return bad("%s %s" % (type(e).__name__, str(e)[:80]))
            need = {"willoughby": .6252 * math.sqrt(100. * dp), "holland": math.sqrt(beta * 100. * dp / (math.e * rho)),
                    "atkinson": 3.04 * dp ** .644}[kind]
            if abs(v - need) > 1e-4 * need + 1e-6 or abs(vp - v) > 1e-6 * v + 1e-6:
                return bad("%g (%g in Pa) instead of %g m/s" % (v, vp, need))
            if v <= last:
                return bad("not rising")
            last = v
            if max(abs(b - (pe - dp) * 100.) for b in back) > .5:
                return bad("the pressure is %s Pa on the way back" % back)
        for up in (.5, 20.):
            st["n"] += 1
            try:
                vm.vmax(pe + up, pe, kind, beta, rho)
            except ValueError:
                continue
            st["bad"] = ("%s: a central pressure %g above the outer pressure is accepted" % (kind, up), dict(simple=1))
            return st
    return st


def job(j):
    return globals()[j[0]](j)


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    base = ctx.mkdir("w")
    mslp = world.mslp_nc(os.path.join(base, "slp.nc"), 1010.)
    r = ctx.replay
    if r is None:
        jobs = [("files", os.path.join(base, "f%d" % i), s, p, mslp)
                for i, (s, p) in enumerate(itertools.product(STARTS if not ctx.thorough else STARTS + ((-.5, 90.), (44., 200.)), PRESSURES))]
        jobs.append(("simple",))
    elif "simple" in r:
        jobs = [("simple",)]
    else:
        jobs = [("alone", os.path.join(base, "f"), r["lot"], r["first"], mslp)]
    for j, t in zip(jobs, common.pmap(job, jobs)):
        ctx.explored(t["n"], t["keys"], "records whose wind speed is compared; distinct = different storms or pressure pairs")
        if t["bad"]:
            ctx.violation(t["bad"][0], t["bad"][1])
    ctx.sample(next(itertools.islice(storms_from(STARTS[1], 985., (2,)), 300, None)))
    ctx.sample(dict(relation="atkinson", outer=1010., deficit=27.))
    shutil.rmtree(base, ignore_errors=True)
    ctx.assumptions += ["time steps of 1 and 6 hours; outer pressure column given",
                        "forward speeds to within 2 per cent, wind speeds to within 0.01 per cent for that speed"]
