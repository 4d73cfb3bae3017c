"""C05: a model run executes exactly the enabled stages, in order, in step.

The real program (tcrm.startup) runs on 1..n ranks under the MPI explorer for every
combination of the stage switches.  The work of each stage is replaced at the entry
points of the stage modules by a stand-in that reports its start and end, so the
trace shows which process did what when."""
import itertools
import logging
import os
import shutil
import sys

import numpy as np

from .. import common, mpi, pipe, world

# switch -> (parallel?, calls made once per run of the stage)
STAGES = [
    ("DownloadData", False, ["download"]),
    ("DataProcess", False, ["processData"]),
    ("ExecuteStat", False, ["kdeGenesisDate", "kdeOrigin", "cdfCellBearing", "cdfCellSpeed",
                            "cdfCellPressure", "calcCellStatistics"]),
    ("ExecuteTrackGenerator", True, ["run"]),
    ("ExecuteWindfield", True, ["run"]),
    ("ExecuteHazard", True, ["run"]),
    ("PlotData", False, ["plotPressure", "plotPressureRate", "plotMinPressure", "plotBearing",
                         "plotBearingRate", "plotSpeed", "plotSpeedRate", "plotLonLat",
                         "plotFrequency", "plotJulianDays"]),
    ("CreateDatabase", True, ["run"]),
    ("ExecuteEvaluate", True, ["run"]),
    ("PlotHazard", False, ["plotMap", "plotCurves"]),
]
NAMES = [s[0] for s in STAGES]
YES = ["True", "true", "yes", "1", "on"]
NO = ["False", "false", "no", "0", "off"]
OUT = {}


def standin(stage, call):
    def f(*a, **k):
        missing = [d for d in pipe.SUBDIRS if not os.path.isdir(os.path.join(OUT["path"], d))]
        mpi.event("begin", stage, call, ",".join(missing))
        mpi.event("end", stage, call)
    return f


def patch():
    """Replace the work of the stages.  Done once, before any rank is forked."""
    from Utilities import datasets
    import DataProcess.DataProcess as dp
    import DataProcess.CalcTrackDomain as ctd
    import StatInterface.StatInterface as si
    import TrackGenerator
    import wind
    import hazard
    import database
    import Evaluate
    import PlotInterface.plotStats as ps
    import PlotInterface.AutoPlotHazard as aph

    def nothing(self, *a, **k):
        pass
    datasets.DataSet.isDownloaded = lambda self: False
    datasets.DataSet.download = standin("DownloadData", "download")
    dp.DataProcess.__init__ = nothing
    dp.DataProcess.processData = standin("DataProcess", "processData")
    lim = dict(zip(("xMin", "xMax", "yMin", "yMax"), pipe.TRACKLIM))
    ctd.CalcTrackDomain.__init__ = nothing
    ctd.CalcTrackDomain.calcDomainFromFile = lambda self: lim
    si.StatInterface.__init__ = nothing
    for m in STAGES[2][2] + ["cdfCellSize"]:
        setattr(si.StatInterface, m, standin("ExecuteStat", m))
    TrackGenerator.run = standin("ExecuteTrackGenerator", "run")
    wind.run = standin("ExecuteWindfield", "run")
    hazard.run = standin("ExecuteHazard", "run")
    database.run = standin("CreateDatabase", "run")
    Evaluate.run = standin("ExecuteEvaluate", "run")
    for c in (ps.PlotPressure, ps.PlotBearing, ps.PlotSpeed, ps.PlotFrequency, ps.PlotDays, ps.PlotLonLat):
        c.__init__ = nothing
        for m in STAGES[6][2]:
            if hasattr(c, m):
                setattr(c, m, standin("PlotData", m))
    aph.AutoPlotHazard.__init__ = nothing
    for m in STAGES[9][2]:
        setattr(aph.AutoPlotHazard, m, standin("PlotHazard", m))


def plot_inputs(out):
    d = os.path.join(out, "process")
    os.makedirs(d, exist_ok=True)
    for n in ("pressure_rate", "all_pressure", "bearing_rate", "all_bearing", "speed_rate", "all_speed"):
        np.savetxt(os.path.join(d, n), np.arange(3.))
    np.savetxt(os.path.join(d, "frequency"), np.ones((3, 2)), delimiter=",")
    for n in ("cyclone_tracks", "jday_obs", "jday_genesis"):
        np.savetxt(os.path.join(d, n), np.ones((3, 3)), delimiter=",")


def prepare(out, mask, size_dist):
    if os.path.isdir(out):
        shutil.rmtree(out)
    s = pipe.sections(out, out + "-in")
    s["Actions"] = {n: (YES if mask >> i & 1 else NO)[(mask + i) % 5] for i, n in enumerate(NAMES)}
    s["RMW"]["GetRMWDistFromInputData"] = size_dist
    s["Input"]["Datasets"] = "DS"
    s["DS"] = {"URL": "http://localhost/x", "path": out, "filename": "x"}
    s["Logging"]["LogFile"] = os.path.join(out + "-log", "tcrm.log")
    cfg = world.write_config(out + ".ini", s)
    # folders that are there already
    k = mask % (len(pipe.SUBDIRS) + 2)
    for n in pipe.SUBDIRS if k == len(pipe.SUBDIRS) else pipe.SUBDIRS[k:k + 1]:
        os.makedirs(os.path.join(out, n), exist_ok=True)
    if mask >> 6 & 1:
        plot_inputs(out)
    return cfg


def program(cfg):
    import tcrm
    sys.argv = ["tcrm.py", "-d", "-c", cfg]
    tcrm.startup()


def wanted(mask, size_dist):
    w = {}
    for i, (name, par, calls) in enumerate(STAGES):
        if mask >> i & 1:
            w[name] = (par, calls + (["cdfCellSize"] if name == "ExecuteStat" and size_dist else []))
    return w


def examine(trace, size, mask, size_dist):
    ev = [t for t in trace if t[1] == "event"]
    want = wanted(mask, size_dist)
    first, last = {}, {}
    by = {}
    for k, t in enumerate(ev):
        rank, _, what, stage, call = t[:5]
        first.setdefault(stage, k)
        last[stage] = k
        if what == "begin":
            by.setdefault((stage, call), []).append(rank)
            if t[5]:
                return "stage %s begins before the output folders %s exist" % (stage, t[5])
    for stage in first:
        if stage not in want:
            return "stage %s is switched off but was executed" % stage
    for stage, (par, calls) in want.items():
        ranks = set()
        for c in calls:
            got = by.pop((stage, c), [])
            if par and sorted(got) != list(range(size)):
                return "stage %s was executed by processes %s of %d" % (stage, sorted(got), size)
            if not par and len(got) != 1:
                return "stage %s (%s) was executed %d times (by processes %s)" % (stage, c, len(got), got)
            ranks |= set(got)
        if not par and len(ranks) != 1:
            return "stage %s is spread over processes %s" % (stage, sorted(ranks))
    for (stage, c), got in by.items():
        return "stage %s: unexpected call of %s" % (stage, c)
    order = [n for n in NAMES if n in first]
    for a, b in zip(order, order[1:]):
        # `first` and `last` are positions in one global order of events
        if first[b] < last[a]:
            return "process %d begins stage %s before stage %s is finished" % (ev[first[b]][0], b, a)
    return None


def one(out, mask, size_dist, size, order):
    from Utilities.config import reset
    cfg = prepare(out, mask, size_dist)
    OUT["path"] = out
    reset()
    res = mpi.run_once(lambda rank: program(cfg), size, "eager", order)
    text = None
    if res.outcome != "ok":
        text = "%s: %s" % (res.outcome, res.detail)
    else:
        text = examine(res.trace, size, mask, size_dist)
    return text, len(res.trace), res.states, res.trace


def job(j):
    out, cases = j
    st = dict(n=0, trans=0, states=set(), bad=[], last=None)
    for mask, sd, size, order in cases:
        text, nt, states, trace = one(out, mask, sd, size, order)
        st["n"] += 1
        st["trans"] += nt
        st["states"] |= {hash((mask, sd, size, s)) for s in states}
        st["last"] = (mask, size, order, [list(map(str, t)) for t in trace[:12]])
        if text:
            st["bad"].append((text, (mask, sd, size, order)))
            break
    for p in (out, out + "-log"):
        shutil.rmtree(p, ignore_errors=True)
    return st


def cases(ctx):
    full = (1 << len(STAGES)) - 1
    few = [m for m in range(full + 1) if bin(m).count("1") <= 2 or bin(m).count("1") >= 9]
    out = []
    for m in range(full + 1):
        for sd in ((False, True) if m >> 2 & 1 else (False,)):
            out.append((m, sd, 1, (0,)))
            for o in mpi.orders(2):
                out.append((m, sd, 2, o))
    for m in ctx.pick(few, range(full + 1)):
        for o in mpi.orders(3):
            out.append((m, False, 3, o))
    if ctx.thorough:
        for m in few:
            for o in mpi.orders(4):
                out.append((m, False, 4, o))
    return out


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import inspect
    inspect.stack()
    from Utilities.parallel import attemptParallel
    attemptParallel()
    patch()
    import tcrm  # noqa
    if ctx.replay:
        mask, sd, size, order = ctx.replay["case"]
        text = one(os.path.join(ctx.scratch, "r"), mask, sd, size, tuple(order))[0]
        if text:
            ctx.violation(text, ctx.replay)
        ctx.add(states=1, transitions=1)
        return
    cs = cases(ctx)
    ctx.level = "model_checking"
    states = set()
    jobs = [(os.path.join(ctx.scratch, "o%d" % i), c) for i, c in enumerate(common.chunks(cs, 64))]
    for r in common.pmap(job, jobs, stop=lambda r: bool(r["bad"])):
        if r is None:
            continue
        ctx.add(transitions=r["trans"], traces_validated_against_impl=r["n"])
        states |= r["states"]
        if r["last"]:
            ctx.sample({"switches": r["last"][0], "processes": r["last"][1], "order": r["last"][2],
                        "trace": r["last"][3]}, limit=4)
        for text, c in r["bad"]:
            ctx.violation("%s  (switches on: %s; %d processes, order %s)" % (
                text, ", ".join(n for i, n in enumerate(NAMES) if c[0] >> i & 1) or "none", c[2], list(c[3])),
                {"case": c})
    ctx.add(states=len(states))
    ctx.cov["exhaustive"] = True
    ctx.cov["bound"] = ("all %d switch combinations with 1 and 2 processes in every order; 3%s processes with %s; every "
                        "execution is of the real program" % (1 << len(STAGES), " and 4" if ctx.thorough else "",
                                                              "all (4: few) combinations" if ctx.thorough else
                                                              "at most 2 or at least 9 stages"))
    ctx.assumptions += ["the stages' own work is replaced by stand-ins at the entry points of their modules",
                        "standard output and log files are not examined"]
