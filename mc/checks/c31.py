"""C31: units, distances and directions are consistent.

Every ordered pair and triple of units of one kind, as numbers, arrays and masked arrays; a
best track written in every combination of units; a complete lattice of positions, directions
and distances through the functions that move, measure and grid; compared with the definitions
of the units and with vectors on a sphere."""
import itertools
import logging
import math
import os
import shutil
import warnings

import numpy as np

from .. import common, world

RADIUS = 6367.
KINDS = {
    "speed": dict(mps=1., kph=1 / 3.6, kmh=1 / 3.6, kts=1852 / 3600., mph=1609.344 / 3600),
    "pressure": dict(Pa=1., Pascals=1., hPa=100., kPa=1000., inHg=3386.389, mmHg=133.3224),
    "length": dict(m=1., km=1000., mi=1609.344, nm=1852., deg=RADIUS * 1000. * math.pi / 180., rad=RADIUS * 1000.),
    "mixing ratio": dict(gkg=1., kgkg=1000.)}
INPUT_ONLY = {"m/s": ("speed", 1.)}
TEMPERATURE = dict(C=(1., 0.), K=(1., -273.15), F=(1 / 1.8, -32 / 1.8))   # a value is factor * value + offset in C
VALUES = (-40., 0., 0.5, 1., 37.25, 980., 101325.)
TOL = 1.5e-3


def celsius(v, u):
    return TEMPERATURE[u][0] * v + TEMPERATURE[u][1]


def units(j):
    """All units of a kind: one step, there and back, and over a third."""
    kind = j[1]
    from Utilities.metutils import convert
    st = dict(n=0, keys=[], bad=None)

    def check(v, a, b, what):
        st["n"] += 1
        before = np.array(v, copy=True)
        try:
            got = convert(v, a, b)
        except Exception as e:
            return "%s %s to %s: %s %s" % (what, a, b, type(e).__name__, str(e)[:80])
        if np.shape(got) != np.shape(v):
            return "%s %s to %s: another shape" % (what, a, b)
        if not np.array_equal(np.ma.getdata(v), before):
            return "%s %s to %s: the given values are changed" % (what, a, b)
        if np.ma.isMaskedArray(v) and not np.array_equal(np.ma.getmaskarray(got), np.ma.getmaskarray(v)):
            return "%s %s to %s: the missing values differ" % (what, a, b)
        keep = ~np.ma.getmaskarray(v)
        x, y = np.atleast_1d(np.ma.getdata(v))[np.atleast_1d(keep)].astype(float), np.atleast_1d(np.ma.getdata(got))[np.atleast_1d(keep)]
        if kind == "temperature":
            ok = np.allclose(celsius(x, a), celsius(y, b), rtol=5e-4, atol=.3)
            need = (celsius(x, a) - TEMPERATURE[b][1]) / TEMPERATURE[b][0]
        else:
            u = dict(KINDS[kind], **{n: f for n, (k, f) in INPUT_ONLY.items() if k == kind})
            need = x * u[a] / u[b]
            ok = np.allclose(y, need, rtol=TOL, atol=0)
        if not ok:
            k = abs(y - need).argmax()
            return "%s: %g %s are %g %s instead of %g" % (what, x[k], a, y[k], b, need[k])

    names = list(TEMPERATURE) if kind == "temperature" else list(KINDS[kind])
    vals = tuple(v for v in VALUES if abs(v) < 1000) if kind == "temperature" else VALUES
    forms = [("number", v) for v in vals] + [("number", int(v)) for v in (0, 3, -7)] + [
        ("array", np.array(vals)), ("array", np.arange(12, dtype="i4").reshape(3, 4)), ("array", np.array(vals, "f4")),
        ("array", np.zeros((0,))), ("array", np.ma.array(vals, mask=[i % 2 for i in range(len(vals))]))]
    pairs = list(itertools.permutations(names, 2)) + [(a, a) for a in names]
    pairs += [(n, b) for n, (k, _) in INPUT_ONLY.items() if k == kind for b in names]
    pairs += [(a, n) for n, (k, _) in INPUT_ONLY.items() if k == kind for a in names]
    for a, b in pairs:
        st["keys"].append("%s>%s" % (a, b))
        for what, v in forms:
            bad = check(v, a, b, what)
            if bad:
                st["bad"] = (bad, dict(units=kind))
                return st
    for a, b, c in itertools.permutations(names, 3):
        for v in vals:
            st["n"] += 1
            x, y = float(convert(convert(v, a, b), b, c)), float(convert(v, a, c))
            if abs(x - y) > (.6 if kind == "temperature" else 3 * TOL * abs(y)):
                st["bad"] = ("%g %s are %g %s in one step and %g over %s" % (v, a, y, c, x, b), dict(units=kind))
                return st
        st["keys"].append("%s>%s>%s" % (a, b, c))
    return st


def files(j):
    """A best track in all units of its columns."""
    out, missing, mslp = j
    from Utilities import config as cfg
    from Utilities.loadData import loadTrackFile
    st = dict(n=0, keys=[], bad=None)
    os.makedirs(out, exist_ok=True)
    p, w, r = (985.5, 960.25, 941., 978.), (22.5, 35., 51.25, 28.), (45., 30.5, 25., 60.)
    path, ini = os.path.join(out, "t.csv"), os.path.join(out, "t.ini")
    for pu, su, lu in itertools.product(KINDS["pressure"], ("mps", "kph", "kts", "mph"), ("km", "m", "nm", "mi")):
        with open(path, "w") as fh:
            fh.write("heading\n")
            for i in range(4):
                v = [p[i] * 100. / KINDS["pressure"][pu], w[i] / KINDS["speed"][su], r[i] * 1000. / KINDS["length"][lu]]
                if i == missing:
                    v = ["", "", ""]
                fh.write("1,2001,2001-02-03 %02d:00:00,%.3f,%.3f,1010.0,%s\n" % (
                    6 * i, -15. - .3 * i, 150. + .4 * i, ",".join("%s" % x for x in v)))
        world.write_config(ini, {"SRC": {"Columns": "num,season,date,lat,lon,poci,pressure,vmax,rmax", "FieldDelimiter": ",",
                                         "NumberOfHeadingLines": 1, "PressureUnits": pu, "LengthUnits": lu, "SpeedUnits": su,
                                         "DateFormat": "%Y-%m-%d %H:%M:%S"},
                                 "Input": {"MSLPFile": mslp, "MSLPVariableName": "slp"}, "Output": {"Path": out}})
        st["n"] += 1
        st["keys"].append("file %s %s %s %s" % (pu, su, lu, missing))
        case = dict(files=missing)
        cfg.reset()
        try:
            t, = loadTrackFile(ini, path, "SRC", calculateWindSpeed=False)
        except Exception as e:
            st["bad"] = ("loading a track in %s, %s, %s failed: %s %s" % (pu, su, lu, type(e).__name__, str(e)[:100]), case)
            return st
        finally:
            cfg.reset()
        for name, want in (("CentralPressure", p), ("WindSpeed", w), ("rMax", r)):
            got = np.asarray(getattr(t, name), float)
            know = [i for i in range(4) if i != missing]
            if len(got) != 4 or not np.allclose(got[know], np.array(want)[know], rtol=TOL):
                st["bad"] = ("a track in %s, %s, %s has %s %s instead of %s" % (pu, su, lu, name, got, want), case)
                return st
    return st


def vec(lon, lat):
    a, b = np.radians(lon), np.radians(lat)
    return np.array([np.cos(b) * np.cos(a), np.cos(b) * np.sin(a), np.sin(b)])


def measure(lon, lat, lon2, lat2):
    """Distance (km) and bearing (radians) on the sphere by vectors."""
    p, q = vec(lon, lat), vec(lon2, lat2)
    d = np.arctan2(np.linalg.norm(np.cross(p, q)), p @ q) * RADIUS
    east = vec(lon + 90., 0.)
    north = np.cross(p, east)
    return d, np.arctan2(q @ east, q @ north)


def angle(a, b):
    return (a - b + np.pi) % (2 * np.pi) - np.pi


def sphere(j):
    """From one latitude: move, then measure in all ways."""
    _, lat, lons, bears, dists = j
    from Utilities import maputils as mu
    st = dict(n=0, keys=[], bad=None)
    for lon, b, d in itertools.product(lons, bears, dists):
        st["n"] += 1
        st["keys"].append("%g,%g %g %g" % (lon, lat, b, d))

        def bad(text):
            st["bad"] = ("%g km towards %g from %g, %g: %s" % (d, b, lon, lat, text), dict(lat=lat, lon=lon, bear=b, dist=d))
            return st
        x, y = mu.bear2LatLon(b, d, lon, lat)
        td, tb = measure(lon, lat, x, y)
        if abs(td - d) > 1e-4 + 1e-6 * d or d > 1e-3 and abs(angle(tb, math.radians(b))) > 1e-4 + 1e-4 / d:
            return bad("the new position %g, %g is %g km away towards %g" % (x, y, td, math.degrees(tb)))
        if abs(x - lon) > 180.:
            return bad("the longitude changes from %g to %g" % (lon, x))
        for turn in (0., 360., -360.):
            gx, gy = np.array([x + turn, lon + turn]), np.array([y, lat - .3, lat])
            D, B = mu.gridLatLonDist(lon, lat, gx, gy), mu.gridLatLonBear(lon, lat, gx, gy)
            if D.shape != (3, 2) or B.shape != (3, 2):
                return bad("grids of shape %s and %s" % (D.shape, B.shape))
            for (r, la), (c, lo) in itertools.product(enumerate(gy), enumerate(gx)):
                ed, eb = measure(lon, lat, lo, la)
                if abs(D[r, c] - ed) > 1e-3 + 1e-6 * ed:
                    return bad("grid distance to %g, %g is %g instead of %g" % (lo, la, D[r, c], ed))
                if ed > 1. and abs(angle(B[r, c], eb)) > 1e-4:
                    return bad("grid bearing to %g, %g is %g instead of %g" % (lo, la, B[r, c], eb))
            for u, f in (("m", 1000.), ("deg", 180. / math.pi / RADIUS), ("nm", 1 / 1.852)):
                if not np.allclose(mu.gridLatLonDist(lon, lat, gx, gy, u), D * f, rtol=TOL, atol=1e-6):
                    return bad("grid distances in %s" % u)
            try:
                g, h = mu.distGC([lat, y], [lon, x + turn]), mu.distGC([y, lat], [x + turn, lon])
            except Exception as e:
                return bad("the great circle distance stops with %s: %s" % (type(e).__name__, str(e)[:80]))
            if abs(g - d) > .2 + 1e-5 * d or abs(g - h) > 1e-6 + .2 * (d < 1.):
                return bad("the great circle distance is %g, backwards %g" % (g, h))
            if abs(lat) <= 45. and 1e-3 < d <= 60.:
                ab, al = mu.latLon2Azi(np.array([lat, y, lat]), np.array([lon, x + turn, lon]), 1, azimuth=0)
                if len(ab) != 2 or len(al) != 2 or abs(al[0] - d) > .02 * d or abs(al[1] - d) > .02 * d or \
                        abs(angle(math.radians(ab[0]), math.radians(b))) > math.radians(1.5) or \
                        abs(angle(math.radians(ab[1]), math.radians(b + 180.))) > math.radians(1.5):
                    return bad("the steps there and back are %s km towards %s" % (al, ab))
                if not (0. <= min(ab) and max(ab) <= 360.):
                    return bad("bearings are %s" % ab)
    return st


def steps(j):
    """Steps of a track are those of its pairs of points, whatever the others."""
    from Utilities import maputils as mu
    st = dict(n=0, keys=[], bad=None)
    places = [(-15., 359.5), (-15.5, .25), (12., 180.), (11.5, -179.75), (12., 180.)]
    for n in range(2, 5):
        for ps in itertools.product(range(len(places)), repeat=n):
            lat, lon = np.array([places[k] for k in ps]).T
            st["n"] += 1
            st["keys"].append("steps %s" % (ps,))
            b, d = mu.latLon2Azi(lat, lon, 1, azimuth=0)
            br, _ = mu.latLon2Azi(lat, lon, 1, azimuth=0, wantdeg=False)
            for i in range(n - 1):
                pb, pd = mu.latLon2Azi(lat[i:i + 2], lon[i:i + 2], 1, azimuth=0)
                if len(b) != n - 1 or abs(pd[0] - d[i]) > 1e-6 or d[i] > 0 and (
                        abs(angle(math.radians(pb[0]), math.radians(b[i]))) > 1e-5 or abs(angle(br[i], math.radians(b[i]))) > 1e-5):
                    st["bad"] = ("step %d of the track %s differs from that of its two points" % (i, list(zip(lon, lat))), dict(steps=1))
                    return st
    return st


def angles(j):
    from Utilities import maputils as mu, metutils as me
    st = dict(n=0, keys=[], bad=None)

    def bad(text):
        st["bad"] = (text, dict(angles=1))
        return st
    for k in range(-24, 25):
        b = k * math.pi / 12. + (.01 if k % 2 else 0.)
        st["n"] += 1
        st["keys"].append("angle %d" % k)
        t = float(mu.bearing2theta(b))
        if not 0. <= t <= 2 * math.pi or abs(math.cos(t) - math.sin(b)) > 1e-9 or abs(math.sin(t) - math.cos(b)) > 1e-9:
            return bad("bearing %g is angle %g" % (b, t))
        r = float(mu.theta2bearing(b))
        if not 0. <= r <= 2 * math.pi or abs(math.cos(b) - math.sin(r)) > 1e-9 or abs(math.sin(b) - math.cos(r)) > 1e-9:
            return bad("angle %g is bearing %g" % (b, r))
        if abs(angle(float(mu.theta2bearing(t)), b)) > 1e-9:
            return bad("bearing %g does not return" % b)
    for lat in range(-90, 91, 5):
        st["n"] += 1
        f = 2 * 7.2722e-5 * math.sin(math.radians(lat))
        for m in (mu, me):
            if abs(m.coriolis(lat) - f) > 5e-7 or not np.allclose(m.coriolis(np.array([lat, -lat])), [f, -f], atol=5e-7):
                return bad("the Coriolis parameter at %g is %g instead of %g" % (lat, m.coriolis(lat), f))
    return st


def nearest(j):
    """The nearest element of all short axes, rising and falling."""
    from Utilities import maputils as mu
    st = dict(n=0, keys=[], bad=None)
    for n in range(1, 5):
        for up in itertools.combinations((-3., -1., 0., .5, 2., 4.), n):
            for axis in {up, up[::-1]}:
                a = np.array(axis)
                for v in np.arange(-5., 6.1, .25):
                    if axis is not up and not min(axis) <= v <= max(axis):
                        continue                      # beyond the ends only of rising axes
                    st["n"] += 1
                    d = abs(a - v)
                    try:
                        i, x = mu.find_index(a, float(v)), mu.find_nearest(a, float(v))
                    except Exception as e:
                        i, x = "%s" % e, None
                    if x is None or not 0 <= i < n or d[i] > d.min() or abs(x - v) > d.min():
                        st["bad"] = ("the nearest of %s to %g is taken to be %s, %s" % (axis, v, i, x), dict(nearest=1))
                        return st
                st["keys"].append("axis %s" % (axis,))
    return st


def mesh(j):
    """Grids around a centre and of a region: distances and angles of their points."""
    _, lat, lon = j
    from Utilities import maputils as mu
    st = dict(n=0, keys=[], bad=None)
    for margin, res, whole in itertools.product((.5, 1., 1.25), (.05, .1, .25), (False, True)):
        st["n"] += 1
        st["keys"].append("mesh %g %g %g %g %s" % (lon, lat, margin, res, whole))

        def bad(text):
            st["bad"] = ("grid of %g degrees, margin %g around %g, %g: %s" % (res, margin, lon, lat, text), dict(mesh=lat, lon=lon))
            return st
        wide = (lon - .5, lon + 1., lat - .25, lat + .5)
        if whole:
            grids = [(mu.makeGridDomain(lon, lat, *wide, margin=margin, resolution=res), wide)]
        else:
            grids = [(mu.makeGrid(lon, lat, margin, res), (lon, lon, lat, lat)),
                     (mu.makeGrid(lon, lat, margin, res, *wide), wide)]
        for (r, t), box in grids:
            xs = np.arange(int(round(1000 * box[0])) - int(round(1000 * margin)), int(round(1000 * box[1])) + int(round(1000 * margin)) + 1, int(round(1000 * res))) / 1000.
            ys = np.arange(int(round(1000 * box[2])) - int(round(1000 * margin)), int(round(1000 * box[3])) + int(round(1000 * margin)) + 1, int(round(1000 * res))) / 1000.
            if r.shape != (len(ys), len(xs)) or t.shape != r.shape:
                return bad("shape %s instead of %s" % (r.shape, (len(ys), len(xs))))
            for (k, y), (i, x) in itertools.product(enumerate(ys), enumerate(xs)):
                d, b = measure(lon, lat, x, y)
                if abs(r[k, i] - d) > 1e-3 + 1e-5 * d or d > 1. and abs(angle(t[k, i], math.pi / 2 - b)) > 1e-4:
                    return bad("%g, %g is %g km away at the angle %g instead of %g, %g" % (x, y, r[k, i], t[k, i], d, math.pi / 2 - b))
            if not (r > 0).all():
                return bad("distances of zero")
    return st


def utm(j):
    """Grid coordinates and back, against another implementation; the corner of a grid saved in metres."""
    _, lat, out = j
    from pyproj import Transformer
    from Utilities import grid
    from Utilities.lat_long_UTM_conversion import LLtoUTM, UTMtoLL
    st = dict(n=0, keys=[], bad=None)
    made = {}
    for lon in tuple(np.arange(-180., 360., 1.25)) + (-.001, 5.999, 6.001, 149.999, 150.001, 179.999, 180.001, 359.999):
        st["n"] += 1
        st["keys"].append("utm %g %g" % (lon, lat))

        def bad(text):
            st["bad"] = ("UTM coordinates of %g, %g: %s" % (lon, lat, text), dict(utm=lat))
            return st
        west = (lon + 180.) % 360. - 180.
        z = int((west + 180.) // 6) + 1
        try:
            got, e, n = LLtoUTM(lat, lon)
            if z not in made:
                made[z] = Transformer.from_crs(4326, (32700 if lat < 0 else 32600) + z, always_xy=True)
            x, y = made[z].transform(west, lat)
            la, lo = UTMtoLL(n, e, got, lat < 0)
            near = LLtoUTM(lat, lon, ZoneNumber=z)
        except Exception as ex:
            return bad("%s %s" % (type(ex).__name__, str(ex)[:80]))
        if got != z or abs(e - x) > .05 or abs(n - y) > .05 or tuple(near) != (got, e, n):
            return bad("zone %s, %g, %g instead of %d, %g, %g" % (got, e, n, z, x, y))
        if abs(la - lat) > 1e-6 or abs((lo - lon + 180.) % 360. - 180.) > 1e-6:
            return bad("%g, %g on the way back" % (lo, la))
        if lon % 15. == 0.:
            path = os.path.join(out, "u%g.txt" % lat)
            grid.grdSave(path, np.ones((3, 2)), lon + np.array([0., .5]), lat + np.array([1., .5, 0.]), .5, coords="UTM")
            with open(path) as fh:
                head = {r.split()[0]: float(r.split()[1]) for r in list(fh)[:6]}
            if abs(head["xllcorner"] - x) > .05 or abs(head["yllcorner"] - y) > .05 or abs(head["cellsize"] / 55563. - 1.) > .003:
                return bad("a grid saved from there in metres has the heading %s" % head)
    return st


def job(j):
    return globals()[j[0]](j if j[0] != "files" else j[1:])


def main(ctx):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    base = ctx.mkdir("w")
    lats = (-60., -45., -30., -20.5, -10., -.25, 0., 8., 23.4, 45., 60.) if not ctx.thorough else tuple(np.arange(-70., 70.1, 3.5))
    lons = (-179.9, -90., 0., .1, 115., 179.95, 180., 200., 359.9)
    bears = tuple(float(b) for b in range(0, 360, 15 if not ctx.thorough else 5)) + (359.5, 12.25)
    dists = (0., .01, 1., 11., 55., 400., 2500.)
    mslp = os.path.join(base, "slp.nc")
    r = ctx.replay
    if r is None:
        jobs = [("units", k) for k in list(KINDS) + ["temperature"]]
        jobs += [("files", os.path.join(base, "f%s" % m), m, mslp) for m in (None, 0, 2)]
        jobs += [("sphere", la, [lo], bears, dists) for la in lats for lo in lons]
        jobs += [("steps",), ("angles",), ("nearest",)]
        jobs += [("utm", la, base) for la in (-79., -40., -22.25, -10., -.001, 0., 7.5, 30., 55.)]
        jobs += [("mesh", la, lo) for la in (-30., -12.5, 0., 18.25) for lo in (.5, 150., 179.75, 359.25)]
    elif "units" in r:
        jobs = [("units", r["units"])]
    elif "files" in r:
        jobs = [("files", os.path.join(base, "f"), r["files"], mslp)]
    elif "utm" in r:
        jobs = [("utm", r["utm"], base)]
    elif "mesh" in r:
        jobs = [("mesh", r["mesh"], r["lon"])]
    elif "lat" in r:
        jobs = [("sphere", r["lat"], [r["lon"]], [r["bear"]], [r["dist"]])]
    else:
        jobs = [(next(iter(k for k in ("steps", "angles", "nearest") if k in r)),)]
    world.mslp_nc(mslp)
    kinds = {}
    for j, t in zip(jobs, common.pmap(job, jobs)):
        kinds[j[0]] = kinds.get(j[0], 0) + t["n"]
        ctx.explored(t["n"], t["keys"], "conversions, moves, grids and axes; distinct = by units, or by position, direction and distance")
        if t["bad"]:
            ctx.violation(t["bad"][0], t["bad"][1])
    ctx.cov["by_kind"] = kinds
    ctx.sample(["hPa", "inHg", "kPa"])
    ctx.sample(dict(lat=lats[0], lon=lons[0], bearing=bears[1], km=dists[4]))
    shutil.rmtree(base, ignore_errors=True)
    ctx.assumptions += ["conversion factors to within %g, the degree Kelvin offset to within 0.3" % TOL,
                        "the earth is a sphere of %g km" % RADIUS]
