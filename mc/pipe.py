"""A small calibrated model: best tracks -> DataProcess -> StatInterface, run once
with the code under test and reused by the checks of the later stages."""
import datetime
import os
import shutil

import numpy as np

from . import common, world

REGION = (112.0, 118.0, -22.0, -16.0)
TRACKLIM = (110.0, 122.0, -25.0, -11.0)


def best_tracks(path, south=True, lon0=118.0):
    """A deterministic best-track table of 24 storms."""
    sgn = -1 if south else 1
    rows = ["num,season,date,lat,lon,pressure,rmax"]
    for k in range(24):
        t0 = datetime.datetime(1990 + k // 2, 1 + (k % 3), 3 + k, (6 * k) % 24)
        lon = lon0 - 0.17 * (k % 7) + 0.3 * (k % 3)
        lat = sgn * (12.5 + 0.23 * (k % 9))
        p = 1000. - (k % 5)
        for s in range(14 + k % 4):
            t = t0 + datetime.timedelta(hours=6 * s)
            rows.append("%d,%d,%s,%.2f,%.2f,%.1f,%.1f" % (
                k + 1, 1990 + k // 2, t.strftime("%Y-%m-%d %H:%M:%S"), lat, lon, p,
                30 + (k + s) % 20))
            lon += -0.35 - 0.05 * ((k + s) % 5) + (0.5 if s > 9 + k % 3 else 0)
            lat += sgn * (0.35 + 0.07 * ((2 * k + s) % 4))
            p += -3.0 - 0.5 * ((k + s) % 3) if s < 7 + k % 4 else 4.0 + 0.5 * (s % 3)
    with open(path, "w") as fh:
        fh.write("\n".join(rows) + "\n")
    return path


def coast(xx, yy):
    """Land: a rectangle in the south east of the domain plus an island."""
    return ((yy < -18) & (xx > 115)) | ((abs(xx - 113) < 1) & (abs(yy + 16) < 1))


def flip(lim):
    return lim[0], lim[1], -lim[3], -lim[2]


def sections(out, inp, south=True, **over):
    region, domain = (REGION, TRACKLIM) if south else (flip(REGION), flip(TRACKLIM))
    s = {
        "DataProcess": {"InputFile": os.path.join(inp, "best.csv"), "Source": "TEST",
                        "StartSeason": 1980, "FilterSeasons": False},
        "Region": {"gridLimit": world.limit(*region), "gridSpace": "{'x':2.0,'y':2.0}",
                   "gridInc": "{'x':1.0,'y':0.5}", "LocalityName": "Test"},
        "StatInterface": {"kdeType": "gau", "kde2DType": "Gaussian", "kdeStep": 0.2,
                          "minSamplesCell": 20, "gridLimit": world.limit(*domain)},
        "TrackGenerator": {"NumSimulations": 3, "YearsPerSimulation": 1, "SeasonSeed": 40,
                           "TrackSeed": 60, "Frequency": 1.0, "NumTimeSteps": 40,
                           "gridLimit": world.limit(*domain)},
        "WindfieldInterface": {"Margin": 1.0, "Resolution": 0.5, "Source": "TCRM",
                               "profileType": "holland", "windFieldType": "kepert",
                               "TrackPath": os.path.join(out, "tracks")},
        "Hazard": {"Years": "2,5,10", "MinimumRecords": 3, "CalculateCI": False,
                   "ExtremeValueDistribution": "emp"},
        "Input": {"LandMask": os.path.join(inp, "landmask.nc"),
                  "MSLPFile": os.path.join(inp, "mslp.nc"), "MSLPVariableName": "slp",
                  "LocationFile": os.path.join(inp, "loc")},
        "Output": {"Path": out},
        "Logging": {"LogFile": os.path.join(out, "log.txt"), "LogLevel": "CRITICAL",
                    "Verbose": False, "ProgressBar": False},
        "Process": {"ExcludePastProcessed": True, "DatFile": os.path.join(out, "process", "p.dat")},
        "RMW": {"GetRMWDistFromInputData": False, "mean": 50.0, "sigma": 0.6},
        "TEST": {"Columns": "num,season,date,lat,lon,pressure,rmax",
                 "FieldDelimiter": ",", "NumberOfHeadingLines": 1, "PressureUnits": "hPa",
                 "LengthUnits": "km", "SpeedUnits": "kph", "DateFormat": "%Y-%m-%d %H:%M:%S"},
    }
    for k, v in over.items():
        s.setdefault(k, {}).update(v)
    return s


def inputs(inp, land=coast, mslp=None, mask={}, south=True, **kw):
    os.makedirs(inp, exist_ok=True)
    best_tracks(os.path.join(inp, "best.csv"), south=south, **kw)
    world.landmask_nc(os.path.join(inp, "landmask.nc"), land, **mask)
    world.mslp_nc(os.path.join(inp, "mslp.nc"), mslp)


SUBDIRS = ("tracks", "hazard", "windfield", "plots", "plots/hazard", "plots/stats", "log",
           "process", "process/timeseries", "process/dat")


def outdirs(out):
    for s in SUBDIRS:
        os.makedirs(os.path.join(out, s), exist_ok=True)


def no_plots():
    """Figures need map data from the network: leave out rendering."""
    import matplotlib.backend_bases as bb
    bb.FigureCanvasBase.print_figure = lambda *a, **k: None


def calibrate(cfg, south=True):
    """DataProcess and StatInterface, as the main program runs them."""
    from . import mpi
    mpi.solo()
    no_plots()
    from Utilities.parallel import attemptParallel
    attemptParallel()
    from DataProcess.DataProcess import DataProcess

    class Bar:
        def update(self, *a, **k):
            pass
    DataProcess(cfg, progressbar=Bar()).processData()
    from StatInterface import StatInterface
    lim = dict(zip(("xMin", "xMax", "yMin", "yMax"), TRACKLIM if south else flip(TRACKLIM)))
    s = StatInterface.StatInterface(cfg, autoCalc_gridLimit=lim)
    s.kdeGenesisDate()
    s.kdeOrigin()
    s.cdfCellBearing()
    s.cdfCellSpeed()
    s.cdfCellPressure()
    s.calcCellStatistics()


def model(base, south=True, **kw):
    """A calibrated model under base: (input dir, process dir) or raises."""
    inp, out = os.path.join(base, "in"), os.path.join(base, "cal")
    inputs(inp, south=south, **kw)
    outdirs(out)
    cfg = world.write_config(os.path.join(base, "cal.ini"), sections(out, inp, south=south))
    r = common.call_forked(calibrate, cfg, south, timeout=300)
    if r[0] != "ok":
        raise RuntimeError("calibration failed: %s" % (r,))
    return inp, os.path.join(out, "process")
