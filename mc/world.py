"""Synthetic inputs for the pipeline, written without any code of /repo."""
import os

import netCDF4
import numpy as np


def write_config(path, sections):
    with open(path, "w") as fh:
        for sec, opts in sections.items():
            fh.write("[%s]\n" % sec)
            for k, v in opts.items():
                fh.write("%s=%s\n" % (k, v))
            fh.write("\n")
    return path


def limit(x0, x1, y0, y1):
    return "{'xMin':%r,'xMax':%r,'yMin':%r,'yMax':%r}" % (x0, x1, y0, y1)


def grid_nc(path, lon, lat, fields, **atts):
    """A 2-d netCDF file.  fields: {name: array(lat, lon)}"""
    with netCDF4.Dataset(path, "w", format="NETCDF4") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        v = ds.createVariable("lat", "f8", ("lat",))
        v[:] = lat
        v.units = "degrees_north"
        v = ds.createVariable("lon", "f8", ("lon",))
        v[:] = lon
        v.units = "degrees_east"
        for name, data in fields.items():
            v = ds.createVariable(name, "f4", ("lat", "lon"))
            v.units = "m/s"
            v[:] = data
        for k, a in atts.items():
            setattr(ds, k, a)
    return path


def read_nc(path):
    out = {}
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        for n, v in ds.variables.items():
            if v.shape == ():
                continue
            out[n] = np.array(v[:])
    return out


def mslp_nc(path, value=None):
    """Long-term mean sea level pressure: (time, lat, lon) daily global."""
    nt, ny, nx = 12, 18, 36
    with netCDF4.Dataset(path, "w") as ds:
        ds.createDimension("time", nt)
        ds.createDimension("lat", ny)
        ds.createDimension("lon", nx)
        t = ds.createVariable("time", "f8", ("time",))
        t[:] = np.arange(nt)
        la = ds.createVariable("lat", "f8", ("lat",))
        la[:] = np.linspace(-85, 85, ny)
        lo = ds.createVariable("lon", "f8", ("lon",))
        lo[:] = np.linspace(0, 350, nx)
        s = ds.createVariable("slp", "f8", ("time", "lat", "lon"))
        s.units = "hPa"
        if value is None:
            tt, yy, xx = np.meshgrid(np.arange(nt), np.arange(ny),
                                     np.arange(nx), indexing="ij")
            s[:] = 1010. + 2 * np.sin(tt / 2.) + np.cos(yy / 3.) + \
                np.sin(xx / 5.)
        else:
            s[:] = value
    return path


def landmask_nc(path, land, step=1.0, x0=0., x1=359., y0=-60., y1=60.):
    """land(lon, lat) -> 0/1 array.  Rows are stored from north to south under an
    ascending latitude axis, the layout tcrm samples land masks in."""
    lon = np.arange(x0, x1 + step / 2, step)
    lat = np.arange(y0, y1 + step / 2, step)
    xx, yy = np.meshgrid(lon, lat)
    data = np.asarray(land(xx, yy), dtype=float)
    with netCDF4.Dataset(path, "w") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        v = ds.createVariable("lat", "f8", ("lat",))
        v[:] = lat
        v = ds.createVariable("lon", "f8", ("lon",))
        v[:] = lon
        v = ds.createVariable("landmask", "f8", ("lat", "lon"))
        v[:] = data[::-1]
    return path


TRACK_COLS = ('CycloneNumber', 'Datetime', 'TimeElapsed', 'Longitude',
              'Latitude', 'Speed', 'Bearing', 'CentralPressure',
              'EnvPressure', 'rMax')
TRACK_FMTS = ('i4', 'f8', 'f4', 'f8', 'f8', 'f8', 'f8', 'f8', 'f8', 'f8')


def track(num, tid, points, start=None, dt_h=1.0, pc=980., pe=1010., rmax=40.,
          speed=15., bearing=250.):
    """points: list of (lon, lat) or (lon, lat, pc).  A plain dict."""
    import datetime
    start = start or datetime.datetime(2000, 1, 10)
    n = len(points)
    return dict(num=num, id=tid,
                time=[start + datetime.timedelta(hours=dt_h * k) for k in range(n)],
                elapsed=[dt_h * k for k in range(n)],
                lon=[p[0] for p in points], lat=[p[1] for p in points],
                pc=[(p[2] if len(p) > 2 else pc) for p in points],
                pe=[pe] * n, rmax=[rmax] * n, speed=[speed] * n,
                bearing=[bearing] * n)


def tracks_nc(path, tracks):
    """A TCRM track file (one group per track)."""
    units, cal = "hours since 1900-01-01 00:00", "standard"
    dt = np.dtype({"names": TRACK_COLS, "formats": TRACK_FMTS})
    dt = np.dtype(dt.descr)
    with netCDF4.Dataset(path, "w", format="NETCDF4") as ds:
        tg = ds.createGroup("tracks")
        for n, t in enumerate(tracks):
            g = tg.createGroup("tracks-%04d" % n)
            ct = g.createCompoundType(dt, "track_dtype")
            g.createDimension("time", None)
            tm = g.createVariable("time", "f8", ("time",))
            tv = g.createVariable("track", ct, ("time",))
            rec = np.zeros(len(t["lon"]), dt)
            rec["CycloneNumber"] = t["num"]
            rec["Datetime"] = netCDF4.date2num(t["time"], units, cal)
            rec["TimeElapsed"] = t["elapsed"]
            rec["Longitude"] = t["lon"]
            rec["Latitude"] = t["lat"]
            rec["Speed"] = t["speed"]
            rec["Bearing"] = t["bearing"]
            rec["CentralPressure"] = t["pc"]
            rec["EnvPressure"] = t["pe"]
            rec["rMax"] = t["rmax"]
            tm[:] = rec["Datetime"]
            tm.units, tm.calendar = units, cal
            tv[:] = rec
            tv.time_units, tv.calendar = units, cal
            tv.trackId = repr(tuple(t["id"]))
        ds.created_by = "fixture"
    return path


def seg_dist(px, py, xs, ys):
    """Distance (degrees) from a point to a polyline."""
    best = None
    n = len(xs)
    if n == 1:
        return float(np.hypot(px - xs[0], py - ys[0]))
    for k in range(n - 1):
        dx, dy = xs[k + 1] - xs[k], ys[k + 1] - ys[k]
        den = dx * dx + dy * dy
        u = 0. if den == 0 else min(1., max(0., ((px - xs[k]) * dx + (py - ys[k]) * dy) / den))
        d = float(np.hypot(px - xs[k] - u * dx, py - ys[k] - u * dy))
        if best is None or d < best:
            best = d
    return best


def event_nc(path, lon, lat, vmax, ua, va, slp, trackfile, date):
    with netCDF4.Dataset(path, "w", format="NETCDF4") as ds:
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        v = ds.createVariable("lat", "f8", ("lat",))
        v[:] = lat
        v = ds.createVariable("lon", "f8", ("lon",))
        v[:] = lon
        for n, a in (("vmax", vmax), ("ua", ua), ("va", va), ("slp", slp)):
            v = ds.createVariable(n, "f4", ("lat", "lon"))
            v[:] = a
            v.actual_range = (np.min(a), np.max(a))
        ds.track_file = trackfile
        ds.track_file_date = date
        ds.tcrm_version = "test version"
    return path


def hazard_nc(path, years, lon, lat, f):
    """f(name, k, j, i) -> value"""
    with netCDF4.Dataset(path, "w", format="NETCDF4") as ds:
        ds.createDimension("ari", len(years))
        ds.createDimension("lat", len(lat))
        ds.createDimension("lon", len(lon))
        for n, a in (("ari", years), ("lat", lat), ("lon", lon)):
            v = ds.createVariable(n, "f8", (n,))
            v[:] = a
        jj, ii = np.meshgrid(np.arange(len(lat)), np.arange(len(lon)), indexing="ij")
        for n in ("loc", "scale", "shp"):
            v = ds.createVariable(n, "f4", ("lat", "lon"))
            v[:] = f(n, 0, jj, ii)
        for n in ("wspd", "wspdupper", "wspdlower"):
            v = ds.createVariable(n, "f4", ("ari", "lat", "lon"))
            for k in range(len(years)):
                v[k] = f(n, k, jj, ii)
        ds.tcrm_version = "test version"
    return path


def loc_country(code):
    return "X%s" % str(code)[-1:]


def loc_height(code):
    return 10.0 + sum(map(ord, str(code))) % 7


def locations_shp(path, locs):
    """locs: (code, icao, name, lon, lat)"""
    import shapefile
    w = shapefile.Writer(path, shapefile.POINT)
    for name in ("WMO", "ICAO", "Place", "State", "Cou", "LatT", "LonT"):
        w.field(name, "C", 20)
    w.field("Elevation", "N", 10, 2)
    for code, icao, name, lon, lat in locs:
        w.point(lon, lat)
        w.record(code, icao, name, "st", loc_country(code), "", "", loc_height(code))
    w.close()
    return path
