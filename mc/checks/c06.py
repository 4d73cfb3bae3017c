"""C06: local wind speeds from site-exposure multipliers, multi-threaded.

processMultV2 runs on real threads under the scheduler of mc/sched.py; every schedule
with a bounded number of deviations from the default schedule is executed and its raster compared with values
computed here.  Segment sizes, thread counts and directions are enumerated as well, with
processMultV2, processMult and the command line program."""
import itertools
import logging
import math
import os
import shutil
import sys

import numpy as np

from .. import common, sched

DIRNS = ["e", "n", "ne", "nw", "s", "se", "sw", "w"]         # order of the bands
COMPASS = ["n", "ne", "e", "se", "s", "sw", "w", "nw"]
FACTOR = {"n": 1.0, "ne": 1.25, "e": 0.75, "se": 1.5, "s": 0.5, "sw": 1.75, "w": 0.875, "nw": 2.0}


def components(bearing, speed):
    """Wind blowing from `bearing`."""
    b = math.radians(bearing)
    return -speed * math.sin(b), -speed * math.cos(b)


def field(ny, nx, bearings):
    """Rows from north to south, as in the wind field files."""
    speed = np.array([10.0 + 0.5 * k for k in range(ny * nx)]).reshape(ny, nx)
    deg = np.array([bearings[k % len(bearings)] for k in range(ny * nx)]).reshape(ny, nx)
    u, v = np.zeros((ny, nx)), np.zeros((ny, nx))
    for k in range(ny * nx):
        u.flat[k], v.flat[k] = components(deg.flat[k], speed.flat[k])
    return speed, deg, u, v


def factors(ny, nx, fine=1):
    """Multipliers of every direction: rows from north to south; one cell without data."""
    out = {}
    for d in COMPASS:
        m = FACTOR[d] + np.arange(ny * fine * nx * fine).reshape(ny * fine, nx * fine) / 128.0
        out[d] = m.astype("f4")
    return out


def tif(path, bands, x0, ytop, delta, hole=None):
    from osgeo import gdal, osr
    ny, nx = bands[0].shape
    ds = gdal.GetDriverByName("GTiff").Create(path, nx, ny, len(bands), gdal.GDT_Float32)
    ds.SetGeoTransform((x0, delta, 0, ytop, 0, -delta))
    srs = osr.SpatialReference()
    srs.ImportFromEPSG(4326)
    ds.SetProjection(srs.ExportToWkt())
    for k, b in enumerate(bands):
        band = ds.GetRasterBand(k + 1)
        band.SetNoDataValue(-9999)
        b = b.copy()
        if hole is not None:
            b[hole] = -9999
        band.WriteArray(b)
    ds = None


def nearest(deg):
    """Admissible directions: one, or both at the edge of two sectors."""
    out = set()
    for e in (-2e-4, 0.0, 2e-4):
        out.add(COMPASS[int(math.floor(((deg + e) % 360.0 + 22.5) / 45.0)) % 8])
    return out


def prepare(d, c):
    """Multiplier files of a case; returns the arguments common to both versions."""
    ny, nx, fine = c["ny"], c["nx"], c.get("fine", 1)
    dl = 0.25
    speed, deg, u, v = field(ny, nx, c["bearings"])
    lon = 120.0 + dl * np.arange(nx)                 # left edges
    lat = (-20.0 + dl * np.arange(ny))[::-1]         # lower edges, north to south
    m = factors(ny, nx, fine)
    hole = tuple(c["hole"]) if c.get("hole") else None
    top = -20.0 + dl * ny
    comb = None
    if c["combined"]:
        comb = os.path.join(d, "m4_source.tif")
        tif(comb, [m[k] for k in DIRNS], 120.0, top, dl / fine, hole)
    else:
        for k in DIRNS:
            tif(os.path.join(d, "m4_%s.tif" % k), [m[k]], 120.0, top, dl / fine, hole)
    if hole is not None:
        for k in m:
            m[k][hole] = 1.0
    return speed, deg, u, v, lon, lat, m, comb


def read(path):
    from osgeo import gdal
    ds = gdal.Open(path)
    a = ds.GetRasterBand(1).ReadAsArray()
    gt = ds.GetGeoTransform()
    ds = None
    return a, gt


def judge_raster(d, c, p, got=None):
    """Compare local_wind.tif with the expected field."""
    speed, deg, u, v, lon, lat, m, comb = p
    path = os.path.join(d, "local_wind.tif")
    if not os.path.exists(path):
        return "no local wind raster was written"
    a, gt = read(path)
    fine = c.get("fine", 1)
    if a.shape != m["n"].shape:
        return "local wind raster has shape %s, the multipliers %s" % (a.shape, m["n"].shape)
    if abs(gt[0] - 120.0) > 1e-9 or abs(gt[3] - (-20.0 + 0.25 * c["ny"])) > 1e-9:
        return "local wind raster starts at (%s, %s)" % (gt[0], gt[3])
    if fine == 1:
        regional = speed.astype("f4")
    else:
        regional, _ = read(os.path.join(d, "gust_prj.tif"))
    for j in range(a.shape[0]):
        for i in range(a.shape[1]):
            b = deg[j // fine, i // fine]
            ok = [float(np.float32(regional[j, i]) * m[k][j, i]) for k in nearest(b)]
            if not any(abs(a[j, i] - w) <= 1e-5 * max(1.0, abs(w)) for w in ok):
                return "pixel (row %d, column %d): local wind %s, but regional %s with wind from %.4f gives %s" % (
                    j, i, a[j, i], regional[j, i], b, ok)
    return None


def call(c, d, p):
    from ProcessMultipliers import processMultipliers as pM
    speed, deg, u, v, lon, lat, m, comb = p
    if c["version"] == 1:
        return pM.processMult(speed, u, v, lon, lat, d, combined_mulipliers_file=comb)
    return pM.processMultV2(speed, u, v, lon, lat, d, DIRNS, c["threads"], c["segment"], 500,
                            combined_mulipliers_file=comb)


def clean(d):
    for f in ("local_wind.tif", "gust_prj.tif", "bear_prj.tif", "uu_prj.tif", "vv_prj.tif", "region_wind.tif"):
        path = os.path.join(d, f)
        if os.path.exists(path):
            os.unlink(path)


def driver(c, d):
    """The function run under the scheduler and the judge of its executions."""
    p = prepare(d, c)

    def fn():
        clean(d)
        call(c, d, p)

    def judge(r):
        if r.outcome == "deadlock":
            return "the calculation hangs: %s" % "; ".join(r.stuck)
        if r.outcome == "livelock":
            return "the calculation does not end"
        if r.outcome == "diverged":
            raise common.CheckError("an execution did not follow its schedule")
        if r.error:
            return "the calculation fails: %s" % r.error
        if r.notes:
            return r.notes[0]
        return judge_raster(d, c, p)
    return fn, judge


def quiet():
    """The code under test prints; keep that out of the report."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)


def describe(c):
    return "%dx%d pixels, %d threads, segments of %d" % (c["ny"], c["nx"], c["threads"], c["segment"])


def dsched(j):
    """Job: explore the subtree of a prefix."""
    c, prefix, used, bound, mode, d = j
    os.makedirs(d, exist_ok=True)
    sys.stdout.flush()
    quiet()
    fn, judge = driver(c, d)
    n, steps, points, bad = sched.subtree(fn, prefix, used, bound, mode, judge)
    shutil.rmtree(d, ignore_errors=True)
    return n, steps, points, [("%s: %s" % (describe(c), t), dict(kind="schedule", c=c, choices=ch, mode=mode))
                              for t, ch in bad]


def roots(j):
    """Job: the first execution of a case; its alternatives are the other jobs."""
    c, bound, mode, d = j
    os.makedirs(d, exist_ok=True)
    quiet()
    fn, judge = driver(c, d)
    r = sched.execute(fn, (), mode)
    text = judge(r)
    shutil.rmtree(d, ignore_errors=True)
    return r.steps, len(r.trace), sched.successors(r, 0, 0, bound), text


def plain(j):
    """Job: enumerated inputs without preemptions."""
    part, d = j
    os.makedirs(d, exist_ok=True)
    quiet()
    bad = []
    for k, c in enumerate(part):
        w = os.path.join(d, str(k))
        os.makedirs(w)
        text = one_plain(c, w)
        shutil.rmtree(w, ignore_errors=True)
        if text:
            bad.append((text, dict(kind="plain", c=c)))
    return len(part), bad


def one_plain(c, w):
    if c["version"] == "program":
        return program(c, w)
    fn, judge = driver(c, w)
    text = judge(sched.execute(fn, ()))
    return text and "%s, %s" % (text, {k: c[k] for k in ("version", "threads", "segment", "ny", "nx", "combined")})


def program(c, w):
    """The command line program on a wind field file."""
    import netCDF4
    from Utilities import config
    m = os.path.join(w, "in")
    out = os.path.join(w, "out") + "/"
    os.makedirs(m)
    p = prepare(m, dict(c, combined=True))
    speed, deg, u, v, lon, lat, mm, comb = p
    gust = os.path.join(m, "gust.001-00001.nc")
    with netCDF4.Dataset(gust, "w") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        ds.createVariable("lat", "f8", ("lat",))[:] = lat + 0.125
        ds.createVariable("lon", "f8", ("lon",))[:] = lon + 0.125
        for name, a in (("vmax", speed), ("ua", u), ("va", v)):
            ds.createVariable(name, "f8", ("lat", "lon"))[:] = a
    ini = os.path.join(m, "c.ini")
    with open(ini, "w") as fh:
        fh.write("[Input]\nGust_file = %s\nMultipliers = %s\n" % (gust, comb))
        if c["extent"] == "applied":
            fh.write("ExtentApplied = Yes\n")
        elif c["extent"] == "given":
            fh.write("Extent = {'xMin': %r, 'xMax': %r, 'yMin': %r, 'yMax': %r}\n" % (
                120.0, 120.0 + 0.25 * c["nx"], -20.0, -20.0 + 0.25 * c["ny"]))
        fh.write("[Output]\nWorking_dir = %s\n" % out)
        fh.write("[Logging]\nLogFile = %s\nLogLevel = ERROR\nVerbose = False\nDatestamp = False\n" %
                 os.path.join(m, "log.txt"))
        fh.write("[ProcessMultipliers]\nProcessMultiVersion = %d\nMaxWorkingThreads = %d\nProcessingSegmentSize = %d\n"
                 % (c["program_version"], c["threads"], c["segment"]))
    config.reset()
    from ProcessMultipliers import processMultipliers as pM

    def fn():
        old = sys.argv
        sys.argv = ["processMultipliers", "-c", ini]
        try:
            pM.run()
        finally:
            sys.argv = old

    r = sched.execute(fn, ())
    if r.outcome != "ok":
        return "the program hangs: %s" % r.stuck
    if r.error or r.notes:
        return "the program fails: %s" % (r.error or r.notes)
    text = judge_raster(out, c, p)
    return text and "program version %s, extent %s: %s" % (c["program_version"], c["extent"], text)


EDGE = [0.0, 1e-9, 359.9999999, 360.0 - 1e-13, 22.4, 22.6, 45.0, 67.4, 67.6, 90.0, 112.4, 112.6, 135.0, 157.4, 157.6,
        180.0, 202.4, 202.6, 225.0, 247.4, 247.6, 270.0, 292.4, 292.6, 315.0, 337.4, 337.6, 359.0, 22.5, 157.5]
AROUND = [0.0, 45.0, 90.0, 135.0, 180.0, 225.0, 270.0, 315.0, 350.0, 10.0]


def plain_cases(ctx):
    sizes = [(1, 2), (2, 2), (2, 3), (3, 4), (5, 7), (4, 2), (7, 3)]
    for (ny, nx), seg, th, comb in itertools.product(sizes, (1, 2, 3, 4, 5, 7, 256), (1, 2, 3, 4), (True, False)):
        if ny * nx > 12 and seg == 1 and th > 2:
            continue
        yield dict(version=2, ny=ny, nx=nx, segment=seg, threads=th, combined=comb, bearings=AROUND)
    for version, comb, fine, hole in itertools.product((1, 2), (True, False), (1, 3), (None, [0, 1], [2, 2])):
        yield dict(version=version, ny=5, nx=6, segment=4, threads=2, combined=comb, bearings=EDGE, fine=fine, hole=hole)
    for shift in range(0, ctx.pick(12, 60)):
        yield dict(version=2 - shift % 2, ny=3, nx=4, segment=2, threads=2, combined=True,
                   bearings=[(k * 30.0 + shift * (30.0 / ctx.pick(12, 60))) % 360 for k in range(12)])
    for pv, ext, seg, th in itertools.product((1, 2), ("applied", "given"), (2, 256), (1, 3)):
        yield dict(version="program", program_version=pv, extent=ext, ny=4, nx=5, segment=seg, threads=th,
                   combined=True, bearings=AROUND)


def sched_cases(ctx):
    """(case, bound on the deviations, scheduler mode)"""
    def c(ny, nx, seg, th, comb=True):
        return dict(version=2, ny=ny, nx=nx, segment=seg, threads=th, combined=comb, bearings=AROUND)
    first, last, both = 0, sched.LAST, (sched.LINES, sched.LINES | sched.LAST)
    yield c(1, 2, 1, 2), 2, first
    yield c(1, 2, 2, 2), 2, last
    yield c(2, 2, 1, 3), 1, first
    yield c(2, 2, 1, 3), 1, last
    for m in both:
        yield c(1, 2, 1, 2), 1, m
        yield c(1, 3, 1, 2, False), 1, m
    if ctx.thorough:
        yield c(1, 2, 1, 3), 2, first
        yield c(2, 2, 1, 2), 2, last
        yield c(1, 2, 2, 3), 3, first
        for m in both:
            yield c(1, 3, 1, 3), 1, m
            yield c(1, 2, 2, 2), 2, m


def main(ctx):
    logging.disable(logging.CRITICAL)
    sched.install()
    sched.install_rasters()
    import ProcessMultipliers.processMultipliers                 # noqa: F401
    if ctx.replay is not None:
        c = ctx.replay["c"]
        d = ctx.mkdir("r")

        def again():
            quiet()
            if ctx.replay["kind"] == "plain":
                return one_plain(c, d)
            fn, judge = driver(c, d)
            return judge(sched.execute(fn, ctx.replay["choices"], ctx.replay["mode"]))
        res = common.call_forked(again, timeout=600)
        if res[0] == "ok" and res[1]:
            ctx.violation(res[1], ctx.replay)
        return
    base = ctx.mkdir("w")
    # every schedule within the bounds
    todo = list(sched_cases(ctx))
    first = common.pmap(roots, [(c, b, l, os.path.join(base, "r%d" % k)) for k, (c, b, l) in enumerate(todo)])
    jobs = []
    for k, ((c, b, l), (steps, points, succ, text)) in enumerate(zip(todo, first)):
        ctx.add(states=points + 1, transitions=steps, traces_validated_against_impl=1)
        ctx.sample(dict(case=describe(c), deviations=b, mode=l, points_of_first_run=points))
        if text:
            ctx.violation("%s: %s" % (describe(c), text), dict(kind="schedule", c=c, choices=[], mode=l))
        jobs += [(c, p, u, b, l, os.path.join(base, "s%d-%d" % (k, q))) for q, (p, u) in enumerate(succ)]
    # the longest subtrees first
    jobs.sort(key=lambda j: (-(j[3] - j[2]), len(j[1])))
    for res in common.pmap(dsched, jobs, stop=lambda v: bool(v[3])):
        if res is None:
            continue
        n, steps, points, bad = res
        ctx.add(states=points, transitions=steps, traces_validated_against_impl=n)
        for text, case in bad:
            ctx.violation(text, case)
    # inputs
    allc = list(plain_cases(ctx))
    for n, bad in common.pmap(plain, [(p, os.path.join(base, "p%d" % k)) for k, p in enumerate(common.chunks(allc, 40))]):
        ctx.add(inputs=n)
        for text, case in bad:
            ctx.violation(text, case)
    ctx.assumptions = ["threads switch at synchronisation and raster operations and at source lines; a raster handle may "
                       "be used by one thread at a time"]
