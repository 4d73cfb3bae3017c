"""C03: synthetic track files depend on the configuration and the seeds only.

The real TrackGenerator.run is executed on 1..n ranks under the MPI explorer, for
all rank orders, batch sizes and a set of seeds and histories; every file is
compared with the one a single process writes for the same simulation."""
import glob
import logging
import os
import shutil

import netCDF4
import numpy as np

from .. import common, mpi, pipe, world


def read_tracks(path):
    """The content of a track file without the time stamp of its creation."""
    out = []
    with netCDF4.Dataset(path) as ds:
        for n, g in ds.groups["tracks"].groups.items():
            v = g.variables["track"]
            tm = g.variables["time"]
            rec = np.array(v[:])
            out.append((n, rec.dtype.names, tuple(rec[c].tobytes() for c in rec.dtype.names),
                        np.array(tm[:]).tobytes(), tm.units, tm.calendar, str(v.trackId), len(rec)))
    return out


def collect(out):
    r = {}
    for f in sorted(glob.glob(os.path.join(out, "tracks", "*"))):
        n = os.path.basename(f)
        if n.startswith("tracks.") and n.endswith(".nc") and n[7:-3].isdigit():
            r[int(n[7:-3])] = read_tracks(f)
        else:
            r[n] = "unexpected file"
    return r


def prepare(out, inp, proc, nsim, sseed, tseed, over, south=True):
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(os.path.join(out, "tracks"))
    os.symlink(proc, os.path.join(out, "process"))
    s = pipe.sections(out, inp, south=south)
    s["TrackGenerator"].update({"NumSimulations": nsim, "SeasonSeed": sseed, "TrackSeed": tseed})
    s["TrackGenerator"].update(over)
    s["TrackGenerator"] = {k: v for k, v in s["TrackGenerator"].items() if v is not None}
    return world.write_config(os.path.join(out, "c.ini"), s)


def generate(cfg, history=()):
    """Run the generator in this rank.  history: things done before it."""
    from Utilities.config import reset
    from TrackGenerator import TrackGenerator as tg
    for h in history:
        if h == "rng":
            import random
            random.random()
            np.random.seed(99)
            np.random.normal(size=7)
        else:
            reset()
            tg.run(h)
    reset()
    tg.run(cfg, lambda *a: None)


def job(j):
    out, inp, proc, nsim, sseed, tseed, over, size, order, history = j
    cfg = prepare(out, inp, proc, nsim, sseed, tseed, over)
    hist = []
    for k, h in enumerate(history):
        if h == "rng":
            hist.append(h)
        else:
            o2 = out + "h%d" % k
            hist.append(prepare(o2, inp, proc, *h, over))
    res = mpi.run_once(lambda rank: generate(cfg, hist), size, "eager", order)
    r = (res.outcome, res.detail, len(res.trace), res.states,
         collect(out) if res.outcome == "ok" else None)
    for k in range(len(history)):
        shutil.rmtree(out + "h%d" % k, ignore_errors=True)
    shutil.rmtree(out, ignore_errors=True)
    return r


def diff(got, want):
    """Difference between two {simulation: content}."""
    if set(got) != set(want):
        return "track files for simulations %s, expected %s" % (
            sorted(map(str, got)), sorted(map(str, want)))
    for s in sorted(want, key=str):
        if got[s] != want[s]:
            a, b = got[s], want[s]
            if len(a) != len(b):
                return "simulation %s has %d tracks, expected %d" % (s, len(a), len(b))
            for x, y in zip(a, b):
                if x != y:
                    if x[7] != y[7]:
                        return "simulation %s %s has %d points, expected %d" % (s, x[0], x[7], y[7])
                    cols = [c for c, p, q in zip(x[1], x[2], y[2]) if p != q]
                    return "simulation %s %s differs in %s" % (s, x[0], ", ".join(cols) or "its identification")
    return None


def counts(kind, nsim, got):
    """Every simulation with cyclones has a file, whatever their number."""
    n = [len(c) for s, c in got.items() if isinstance(s, int)]
    if len(n) != len(got) or not set(got) <= set(range(nsim)):
        return "track files for simulations %s of %d" % (sorted(map(str, got)), nsim)
    if kind == "many":
        if len(n) < nsim or min(n) < 2:
            return "only simulations %s have files, with %s tracks, for 15 cyclones per year" % (sorted(got), n)
    elif not (1 in n and max(n) > 1 and 0.3 * nsim < len(n) < 0.95 * nsim):
        return "%d of %d simulations have files, with %s tracks, for one cyclone per year" % (len(n), nsim, n)
    return None


def main(ctx):
    mpi.install()
    logging.disable(logging.CRITICAL)
    import TrackGenerator.TrackGenerator                              # noqa: F401
    base = ctx.mkdir("w")
    inp, proc = pipe.model(base)
    nmax = ctx.pick(6, 9)
    combos = ctx.pick([(40, 60), (41, 60), (40, 61)], [(a, b) for a in (1, 40, 41) for b in (1, 60, 61)])
    overs = ctx.pick([{"Frequency": 1.5}], [{"Frequency": 1.5}, {"Frequency": 0.5, "YearsPerSimulation": 2}, {"Frequency": 3.0},
                      {"Frequency": None}])
    jobs, meta = [], []

    def add(kind, sseed, tseed, ov, nsim, size, order, history=()):
        case = dict(kind=kind, sseed=sseed, tseed=tseed, over=ov, nsim=nsim, size=size,
                    order=list(order), history=[h if h == "rng" else list(h) for h in history])
        meta.append(case)
        jobs.append((os.path.join(base, "o%d" % len(jobs)), inp, proc, nsim, sseed, tseed, ov,
                     size, order, history))
    # simulations with few cyclones, none among them, and with many
    add("rare", *combos[0], {"Frequency": 1.0}, 40, 1, (0,))
    add("rare", *combos[0], {"Frequency": 0.5, "YearsPerSimulation": 2}, 40, 2, (0, 1))
    add("many", *combos[0], {"Frequency": 15.0}, 4, 1, (0,))
    for ov in overs:
        for ss, ts in combos:
            add("ref", ss, ts, ov, nmax, 1, (0,))
            main_ = (ss, ts) == combos[0] or ctx.thorough
            for n in range(1, nmax):
                add("batch", ss, ts, ov, n, 1, (0,))
            for h in (("rng",), ((2, ss, ts),), ((3, 7, 9),), ((2, ss, ts), (1, 5, 6))):
                add("history", ss, ts, ov, 4, 1, (0,), h)
            for size in (2, 3, 4):
                ords = mpi.orders(size)
                if not main_ or size == 4:
                    ords = [ords[0], ords[-1]]
                for n in (range(1, nmax + 1) if main_ else (1, nmax)):
                    for o in ords:
                        add("parallel", ss, ts, ov, n, size, o)
    # more processes, also more than there are simulations
    for size in (5, 6, 8):
        for n in (3, nmax):
            for o in (tuple(range(size)), tuple(range(size))[::-1]):
                add("parallel", *combos[0], overs[0], n, size, o)
    # track seeds far from each other
    for k in (256, 1000, 2 ** 16, 10 ** 6, 2 ** 31):
        add("ref", combos[0][0], combos[0][1] + k, overs[0], 3, 1, (0,))
    if ctx.replay is not None:
        keep = [i for i, m in enumerate(meta) if m == ctx.replay["case"] or
                (m["kind"] == "ref" and all(m[k] == ctx.replay["case"][k] for k in ("sseed", "tseed", "over")))]
        jobs, meta = [jobs[i] for i in keep], [meta[i] for i in keep]
    res = common.pmap(job, jobs)
    refs = {}
    states = set()
    for m, r in zip(meta, res):
        ctx.add(transitions=r[2], traces_validated_against_impl=1)
        where = repr([m[k] for k in ("sseed", "tseed", "over", "nsim", "size", "history")])
        states |= {hash((where, s)) for s in r[3]}
        if r[0] == "ok" and m["kind"] == "ref":
            refs[(m["sseed"], m["tseed"], repr(m["over"]))] = r[4]
    for m, r in zip(meta, res):
        what = None
        ref = refs.get((m["sseed"], m["tseed"], repr(m["over"])))
        if r[0] != "ok":
            what = "%s: %s" % (r[0], r[1])
        elif m["kind"] in ("rare", "many"):
            what = counts(m["kind"], m["nsim"], r[4])
        elif ref is not None:
            what = diff(r[4], {s: c for s, c in ref.items() if not isinstance(s, int) or s < m["nsim"]})
        if what:
            ctx.violation("%s run of %d simulations on %d processes (order %s, before it: %s): %s" % (
                m["kind"], m["nsim"], m["size"], m["order"], m["history"] or "nothing", what), {"case": m})
    # different simulations and seeds use different random sequences
    seqs = {}
    for (ss, ts, ov), ref in refs.items():
        if not all(isinstance(s, int) for s in ref):
            continue
        for s, c in ref.items():
            first = c[0][2]
            other = seqs.setdefault((ov, first), (ts, s))
            if other[0] == ts and other[1] != s:
                ctx.violation("simulations %d and %d of track seed %d are the same" % (other[1], s, ts),
                              {"case": {"kind": "ref", "sseed": ss, "tseed": ts}})
    for (ss, ts, ov), ref in refs.items():
        for (ss2, ts2, ov2), ref2 in refs.items():
            if ov == ov2 and ss == ss2 and ts < ts2:
                if ref.keys() & ref2.keys() and any(ref[s] == ref2[s] for s in ref.keys() & ref2.keys()):
                    ctx.violation("track seeds %d and %d give the same simulation" % (ts, ts2),
                                  {"case": {"kind": "ref", "sseed": ss, "tseed": ts}})
    ctx.add(simulations_compared=sum(len(r[4]) for r in res if r[4]))
    ctx.cov["states"] = len(states)
    ctx.cov["distinct_files"] = len({hash(repr(c)) for r in res if r[4] for c in r[4].values()})
    for m in meta[:1] + meta[-2:]:
        ctx.sample(m)
    ctx.assumptions = ["MPI barriers as specified", "one calibrated model (24 storms)"]
