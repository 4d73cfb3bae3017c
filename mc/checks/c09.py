"""C09: grid files give back what was saved, and sampling finds the right cell.

All grids of a bounded lattice are saved and read with the real functions; sampled
values are compared with the values written here without the code under test."""
import io
import itertools
import logging
import os

import netCDF4
import numpy as np

from .. import common, world

NODATA = -9999
VALS = np.array([0.0, -1.5, 3.25, 1e-7, 123456.789, -98765.5, 7.0, 1e10, 2.5, -88.0, 0.1, 42.0, 1013.25,
                 5e-3, 17.0, -3.0])


def matrix(ny, nx, miss):
    a = VALS[:ny * nx].reshape(ny, nx).copy()
    for k in miss:
        a[k // nx, k % nx] = np.nan
    return a


def eq(a, b, tol=0.0):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.all((np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * np.maximum(1.0, np.abs(b)))))


def ascii_case(c, d):
    """c: ny, nx, x0, y0, delta, miss, how"""
    from Utilities import grid
    ny, nx, dl = c["ny"], c["nx"], c["delta"]
    lon = c["x0"] + dl * np.arange(nx)
    lat = (c["y0"] + dl * np.arange(ny))[::-1]           # rows run from north to south
    data = matrix(ny, nx, c["miss"])
    out = np.where(np.isnan(data), NODATA, data) if c["coded"] else data
    keep = out.copy()
    path = os.path.join(d, "g.txt")
    if os.path.exists(path):
        os.unlink(path)
    if c["how"] == "over":
        with open(path, "w") as fh:
            fh.write("something else\n" * 50)
    if c["how"] == "handle":
        with open(path, "w") as fh:
            grid.grdSave(fh, out, lon, lat, dl)
    else:
        grid.grdSave(path, out, lon, lat, dl)
    if not np.array_equal(keep, out, equal_nan=True):
        return "saving an ascii grid changed the array in memory"
    x, y, z = grid.grdRead(path)
    if not eq(x, lon, 1e-12) or not eq(y, lat, 1e-12):
        return "ascii grid coordinates read back as %s, %s" % (list(x), list(y))
    if not eq(z, data, 1e-9):
        return "ascii grid values read back as %s, saved %s" % (z.tolist(), data.tolist())
    return None


def nc_case(c, d):
    from Utilities import grid, nctools
    ny, nx, dl = c["ny"], c["nx"], c["delta"]
    lon = c["x0"] + dl * np.arange(nx)
    lat = c["y0"] + dl * np.arange(ny)
    data = matrix(ny, nx, c["miss"])
    val = np.where(np.isnan(data), NODATA, data) if c["coded"] else data
    tol = {"f8": 0.0, "f4": 1e-6, "i4": 0.0}[c["dtype"]]
    if c["dtype"] == "i4":
        val = np.where(np.isnan(val), NODATA, val)
        val = np.clip(np.trunc(val), -1e6, 1e6)
    dims = {0: {"name": "lat", "values": lat, "dtype": "f8", "atts": {"units": "degrees_north"}},
            1: {"name": "lon", "values": lon, "dtype": "f8", "atts": {"units": "degrees_east"}}}
    shape3 = None
    dnames = ("lat", "lon")
    if c["levels"]:
        lev = np.arange(c["levels"]) + 2.0
        dims = {0: {"name": "ari", "values": lev, "dtype": "f8", "atts": {"units": "years"}},
                1: dims[0], 2: dims[1]}
        shape3 = np.stack([np.where(val == NODATA, val, val * (k + 1)) for k in range(c["levels"])])
        dnames = ("ari", "lat", "lon")
    v = val if shape3 is None else shape3
    given = v
    if c["coded"] == "mask":
        # missing values as a masked array whose hidden values look valid
        given = np.ma.array(np.where(v == NODATA, 5.0, v), mask=v == NODATA)
    keep = v.copy()
    vars_ = {0: {"name": "field", "dims": dnames, "values": given, "dtype": c["dtype"],
                 "atts": {"long_name": "a field", "units": "m/s"}}}
    if c["second"]:
        vars_[1] = {"name": "other", "dims": ("lat", "lon"), "values": np.where(val == NODATA, val, -val),
                    "dtype": c["dtype"], "atts": {"long_name": "another", "units": "hPa"}}
    path = os.path.join(d, "g.nc")
    if c["how"] == "new" and os.path.exists(path):
        os.unlink(path)
    kw = {}
    if c["lsd"]:
        kw["lsd"] = c["lsd"]
    if c["how"] == "open":
        nc = nctools.ncSaveGrid(path, dims, vars_, nodata=NODATA, writedata=False, keepfileopen=True, **kw)
        nc.variables["field"][:] = given
        if c["second"]:
            nc.variables["other"][:] = vars_[1]["values"]
        nc.close()
    else:
        nctools.ncSaveGrid(path, dims, vars_, nodata=NODATA, datatitle="t", gatts={"mine": "x"}, **kw)
    if not np.array_equal(keep, v, equal_nan=True):
        return "saving a netCDF grid changed the array in memory"
    if c["lsd"]:
        tol = max(tol, 10.0 ** -c["lsd"])
    want = np.where(v == NODATA, np.nan, v)
    with netCDF4.Dataset(path) as ds:
        if set(ds.variables) != set(dims[k]["name"] for k in dims) | set(vars_[k]["name"] for k in vars_):
            return "netCDF file holds variables %s" % sorted(ds.variables)
        f = ds.variables["field"]
        if f.dimensions != dnames or f.units != "m/s" or f.long_name != "a field":
            return "netCDF variable has dimensions %s or wrong attributes" % (f.dimensions,)
        if f.dtype != np.dtype(c["dtype"]):
            return "netCDF variable stored as %s, asked for %s" % (f.dtype, c["dtype"])
        got = np.ma.filled(f[:].astype(float), np.nan)
        if not eq(got, want, tol):
            return "netCDF values %s, saved %s" % (got.tolist(), want.tolist())
        if c["second"]:
            o = ds.variables["other"]
            w2 = vars_[1]["values"]
            if not eq(np.ma.filled(o[:].astype(float), np.nan), np.where(w2 == NODATA, np.nan, w2), tol):
                return "second netCDF variable differs from what was saved"
        if not eq(ds.variables["lon"][:], lon) or not eq(ds.variables["lat"][:], lat):
            return "netCDF coordinates differ"
        if c["how"] != "open" and (ds.title != "t" or ds.mine != "x"):
            return "global attributes lost"
    nc = nctools.ncLoadFile(path)
    try:
        g = np.asarray(nctools.ncGetData(nc, "field"), float)
        if not eq(np.where(g == NODATA, np.nan, g), want, tol):
            return "variable read back as %s, saved %s" % (g.tolist(), want.tolist())
        if not eq(nctools.ncGetDims(nc, "lon"), lon) or not eq(nctools.ncGetDims(nc, "lat"), lat):
            return "dimension read back differs"
    finally:
        nc.close()
    if not c["second"]:
        for fn in (grid.grdRead, grid.grdReadFromNetcdf):
            x, y, z = fn(path)
            z = np.ma.filled(np.ma.asarray(z).astype(float), np.nan)
            if not eq(x, lon) or not eq(y, lat) or not eq(np.where(z == NODATA, np.nan, z), want, tol):
                return "%s gives %s, saved %s" % (fn.__name__, z.tolist(), want.tolist())
    return None


def text_case(c, d):
    """The text export of a netCDF file: every value in the cell around its own position."""
    import contextlib
    import glob
    from Utilities import nc2txt
    ny, nx, dl = c["ny"], c["nx"], c["delta"]
    lon, lat = c["x0"] + dl * np.arange(nx), c["y0"] + dl * np.arange(ny)
    plain = 3.25 + 7.5 * np.arange(ny * nx * max(1, c["levels"])).reshape((max(1, c["levels"]), ny, nx))
    for k in c["miss"]:
        plain[0, k // nx, k % nx] = NODATA
    for f in glob.glob(os.path.join(d, "e.*")):
        os.unlink(f)
    with netCDF4.Dataset(os.path.join(d, "e.nc"), "w") as ds:
        for n, a in (("lon", lon), ("lat", lat)) + ((("years", 10. * (1 + np.arange(c["levels"]))),) if c["levels"] else ()):
            ds.createDimension(n, len(a))
            ds.createVariable(n, "f8", (n,))[:] = a
        v = ds.createVariable("wspd", c["dtype"], (("years",) if c["levels"] else ()) + ("lat", "lon"), fill_value=NODATA)
        v[:] = plain if c["levels"] else plain[0]
    with contextlib.redirect_stdout(io.StringIO()):
        nc2txt.process(["-f", os.path.join(d, "e.nc"), "-v", "wspd"] + (["-r", "years"] if c["levels"] else []))
    got = {}
    for f in glob.glob(os.path.join(d, "e.*txt")):
        name = os.path.basename(f)[2:-4].strip(".")
        with open(f) as fh:
            rows = [x.split() for x in fh]
        head = {r[0].lower(): float(r[1]) for r in rows[:6]}
        got[float(name) if name else None] = head, np.array([[float(x) for x in r] for r in rows[6:]])
    want = [10. * (1 + k) for k in range(c["levels"])] or [None]
    if sorted(got, key=str) != sorted(want, key=str):
        return "text files for %s instead of %s" % (sorted(got, key=str), want)
    for k, w in enumerate(want):
        head, z = got[w]
        if z.shape != (ny, nx) or head["ncols"] != nx or head["nrows"] != ny or abs(head["cellsize"] - dl) > 1e-9:
            return "text grid of %s with heading %s" % (z.shape, head)
        if abs(head["xllcorner"] + dl / 2 - lon[0]) > 1e-9 or abs(head["yllcorner"] + dl / 2 - lat[0]) > 1e-9:
            return "text grid starts at %s" % head
        if not np.allclose(z[::-1], plain[k], atol=.006):
            return "text grid values %s instead of %s" % (z[::-1].tolist(), plain[k].tolist())
        if head["nodata_value"] != NODATA:
            return "text grid marks missing values by %s" % head["nodata_value"]


def around(axis, v):
    """Indices of the ascending axis next to v."""
    k = np.where(np.abs(axis - v) < 1e-9)[0]
    if len(k):
        return [int(k[0])]
    hi = int(np.searchsorted(axis, v))
    return [hi - 1, hi]


def sample_case(c, d):
    """(points, text, key)"""
    from Utilities import grid
    ny, nx, dl = c["ny"], c["nx"], c["delta"]
    lon = c["x0"] + dl * np.arange(nx)
    lat = c["y0"] + dl * np.arange(ny)
    north_up = 10.0 * np.arange(ny)[:, None] + np.arange(nx)[None, :]      # row k is latitude lat[k]
    if c["format"] == "nc":
        path = os.path.join(d, "s.nc")
        with netCDF4.Dataset(path, "w") as ds:
            ds.createDimension("lat", ny)
            ds.createDimension("lon", nx)
            ds.createVariable("lat", "f8", ("lat",))[:] = lat
            ds.createVariable("lon", "f8", ("lon",))[:] = lon
            ds.createVariable("mask", "f8", ("lat", "lon"))[:] = north_up[::-1]
    else:
        path = os.path.join(d, "s.txt")
        with open(path, "w") as fh:
            fh.write("ncols %d\nnrows %d\nxllcorner %r\nyllcorner %r\ncellsize %r\nNODATA_value -9999\n" % (
                nx, ny, float(lon[0]), float(lat[0]), dl))
            for row in north_up[::-1]:
                fh.write(" ".join("%.6e" % v for v in row) + "\n")
    s = grid.SampleGrid(path)
    n = 0
    known = None
    q = dl / 4
    for j in range(4 * (ny - 1) + 1):
        for i in range(4 * (nx - 1) + 1):
            x, y = lon[0] + q * i, lat[0] + q * j
            for xx in (x, x - 360.0):
                n += 1
                ok = {north_up[b, a] for a in around(lon, x) for b in around(lat, y)}
                try:
                    v = float(s.sampleGrid(xx, y))
                except Exception as e:
                    v = type(e).__name__
                if v not in ok:
                    text = "sampling %s grid lon %s lat %s at (%s, %s) gives %s, the grid points around it hold %s" % (
                        c["format"], lon.tolist(), lat.tolist(), xx, y, v, sorted(ok))
                    if c["format"] == "txt" and v == wrong_row(lon, lat, north_up, xx, y):
                        known = known or text
                        continue
                    return n, text, None
    return n, known, "ascii-sample-row" if known else None


def wrong_row(lon, lat, north_up, x, y):
    """What the recorded defect yields: bisection in the descending latitudes."""
    i = lon.searchsorted(np.mod(x, 360.0))
    j = lat[::-1].searchsorted(y)
    if i >= len(lon) or j >= len(lat):
        return "IndexError"
    return float(north_up[j, i])


ORIGINS = [(112.0, -22.0), (0.5, -1.25), (120.25, 10.0), (-3.5, -89.0), (359.0 - 12.0, 0.0)]


def cases(ctx):
    shapes = [(a, b) for a in range(1, 5) for b in range(1, 5)]
    for (ny, nx), (x0, y0), dl in itertools.product(shapes, ORIGINS, (0.25, 1.0, 2.5)):
        m = ny * nx
        misses = [()] + [(k,) for k in range(m)]
        if ctx.thorough:
            misses += list(itertools.combinations(range(m), 2))[:60]
        first = (x0, y0, dl) == (112.0, -22.0, 0.25)
        for miss in (misses if first or ctx.thorough else [(), (m - 1,)]):
            for how in ("new", "over", "handle"):
                for coded in (True, False):
                    yield "ascii", dict(ny=ny, nx=nx, x0=x0, y0=y0, delta=dl, miss=miss, how=how, coded=coded)
            for dtype, levels, second, lsd, how in (
                    itertools.product(("f8", "f4", "i4"), (0, 2), (False, True), (None, 3), ("new", "over", "open"))
                    if first and len(miss) <= 1 and (not miss or miss[0] in (0, m - 1))
                    else (("f8", 0, False, None, "new"), ("f4", 1, True, None, "over"), ("f4", 0, False, 2, "open"))):
                for coded in (True, False, "mask"):
                    if not coded and dtype == "i4":
                        continue
                    yield "nc", dict(ny=ny, nx=nx, x0=x0, y0=y0, delta=dl, miss=miss, how=how, coded=coded,
                                     dtype=dtype, levels=levels, second=second, lsd=lsd)
    for (ny, nx), (x0, y0), dl, fmt in itertools.product(shapes, ORIGINS, (0.25, 1.0, 2.5), ("nc", "txt")):
        if fmt == "txt" and nx > 1:
            for levels, dtype in itertools.product((0, 1, 3), ("f8", "f4")):
                for miss in ((), (0,), (ny * nx - 1, 1)):
                    yield "text", dict(ny=ny, nx=nx, x0=x0, y0=y0, delta=dl, levels=levels, dtype=dtype, miss=miss)
        if x0 >= 0:
            yield "sample", dict(ny=ny, nx=nx, x0=x0, y0=y0, delta=dl, format=fmt)


def one(kind, c, d):
    """(evaluations, text, key)"""
    try:
        if kind == "sample":
            return sample_case(c, d)
        return (1, dict(ascii=ascii_case, nc=nc_case, text=text_case)[kind](c, d), None)
    except Exception as e:
        return 1, "%s of %s fails: %s: %s" % (kind, c, type(e).__name__, e), None


def job(j):
    part, d = j
    os.makedirs(d, exist_ok=True)
    bad, n, seen = [], 0, set()
    for kind, c in part:
        k, text, key = one(kind, c, d)
        n += k
        if c["ny"] * c["nx"] > 1:
            seen.add(hash(repr((kind, c))))
        if text:
            bad.append((text, key, dict(c, kind=kind)))
    return n, seen, bad


def main(ctx):
    logging.disable(logging.CRITICAL)
    import Utilities.grid                                        # noqa: F401
    if ctx.replay is not None:
        c = {k: v for k, v in ctx.replay.items() if k != "kind"}
        k, text, key = one(ctx.replay["kind"], c, ctx.mkdir("r"))
        if text:
            ctx.violation(text, ctx.replay, key)
        return
    allc = list(cases(ctx))
    base = ctx.mkdir("g")
    parts = [(p, os.path.join(base, str(k))) for k, p in enumerate(common.chunks(allc, 32))]
    for n, seen, bad in common.pmap(job, parts):
        ctx.explored(n, seen, "files written and read, and points sampled; distinct = grids of more than one cell")
        for text, key, c in bad:
            ctx.violation(text, c, key)
    ctx.sample(allc[0])
    ctx.sample(allc[-1])
    ctx.assumptions = ["data rows run from north to south in sampled files", "longitudes of sampled files lie in [0, 360)"]
