"""C04: a wind field run leaves one complete file per track, also after interruptions.

The real wind.run is executed on 1..n ranks.  Interruptions are enumerated: the program
is killed at every file operation (and in the middle of every write), on one rank or on
several at independent points, then started again (and possibly killed again) with any
number of processes; ranks also take turns at every file operation.  The reference of a track is a run on that track alone."""
import itertools
import logging
import os
import shutil

import netCDF4
import numpy as np

from .. import common, crash, mpi, world

REGION = (112.0, 114.0, -20.0, -18.0)
# where the points of a track go
PATHS = {
    "a": [(112.3, -18.2), (112.9, -19.1), (113.4, -19.7)],
    "b": [(113.8, -18.4), (113.1, -18.9), (112.2, -19.0)],
    "c": [(111.5, -19.0), (112.5, -19.2), (114.6, -19.9)],
    "d": [(113.0, -19.0)],
    "margin": [(114.4, -18.5), (114.6, -19.2)],
    "out": [(120.0, -18.5), (121.0, -19.2)],
    # within the margin on each side, just outside of it, and right across
    "n": [(112.5, -17.1), (113.0, -17.5)], "s": [(112.5, -20.9), (113.0, -20.4)],
    "w": [(111.1, -19.0), (111.6, -19.5)], "e": [(114.9, -19.0), (114.6, -19.5)],
    "n1": [(112.5, -16.8), (113.0, -16.9)], "s1": [(112.5, -21.2), (113.0, -21.1)],
    "w1": [(110.8, -19.0), (110.9, -19.5)], "e1": [(115.2, -19.0), (115.1, -19.5)],
    "we": [(110.1, -19.0), (112.9, -19.2), (116.1, -19.4)], "ew": [(116.2, -19.0), (113.1, -19.2), (110.3, -19.4)],
    "ns": [(113.0, -16.2), (113.1, -18.9), (113.2, -22.3)], "sn": [(113.0, -22.2), (113.1, -19.1), (113.2, -16.3)],
}


def tracks_of(files):
    """files: list of lists of path names -> [(file name, [track dict])]"""
    out = []
    for k, names in enumerate(files):
        ts = []
        for m, n in enumerate(names):
            ts.append(world.track(m + 1, (m + 1, k + 1), PATHS[n], pc=960. - 7 * m - 3 * k, rmax=30. + m + k,
                                  bearing=200. + 10 * m, speed=10. + k))
        out.append(("tracks.%05d.nc" % (k + 1), ts))
    return out


def config(out, grid, domain):
    s = {"WindfieldInterface": {"Margin": 1.0, "Resolution": 0.5, "profileType": "holland", "windFieldType": "kepert",
                                "Domain": domain, "thetaMax": 70.0},
         "Output": {"Path": out},
         "Region": {"LocalityName": "x"},
         "Logging": {"LogFile": os.path.join(out, "log"), "LogLevel": "CRITICAL", "ProgressBar": False}}
    if grid == "region":
        s["Region"]["gridLimit"] = world.limit(*REGION)
    elif grid == "own":
        s["Region"]["gridLimit"] = world.limit(100., 101., 0., 1.)
        s["WindfieldInterface"]["gridLimit"] = world.limit(*REGION)
    return world.write_config(os.path.join(out, "c.ini"), s)


def prepare(out, files, grid, domain):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.join(out, "tracks"))
    os.makedirs(os.path.join(out, "windfield"))
    for name, ts in files:
        world.tracks_nc(os.path.join(out, "tracks", name), ts)
    return config(out, grid, domain)


def program(cfg, listing=None, cut=None, torn=False, out=None):
    """Body of a rank.  listing[rank]: order in which directories are listed; cut[rank]:
    the file operation at which the rank is killed."""
    def body(rank):
        import wind
        from Utilities.config import reset
        reset()
        if listing and rank < len(listing):
            real = os.listdir

            def listdir(*a):
                names = sorted(real(*a))
                return [names[i] for i in listing[rank] if i < len(names)] if len(names) > 1 else names
            os.listdir = listdir
        n = cut[rank] if cut and rank < len(cut) else 0
        if torn == "pause":
            crash.pause_with(mpi.pause)
        crash.arm(os.path.join(out, "windfield") + "/", n or 0, torn is True)
        wind.run(cfg)
        return crash.disarm()
    return body


def read(path):
    with netCDF4.Dataset(path) as ds:
        ds.set_auto_mask(False)
        vs = {}
        for n in ("lat", "lon", "vmax", "ua", "va", "slp"):
            if n not in ds.variables:
                return "has no variable %s" % n
            vs[n] = np.array(ds.variables[n][:])
        vs["track_file"] = os.path.basename(str(getattr(ds, "track_file", "")))
    return vs


def collect(out):
    r = {}
    d = os.path.join(out, "windfield")
    for n in sorted(os.listdir(d)):
        try:
            r[n] = read(os.path.join(d, n))
        except Exception as e:
            r[n] = "cannot be read (%s)" % type(e).__name__
    return r


def name_of(t):
    return "gust.%03d-%05d.nc" % tuple(t["id"])


def diff(got, want):
    for n in sorted(want):
        if n not in got:
            return "no wind field file %s" % n
    for n in sorted(got):
        if n not in want:
            return "unexpected file %s" % n
        text = same(got[n], want[n])
        if text:
            return "%s %s" % (n, text)
    return None


def same(a, b):
    if isinstance(a, str):
        return a
    for v in b:
        if v == "track_file":
            if a[v] != b[v]:
                return "names track file %s, expected %s" % (a[v], b[v])
        elif a[v].shape != b[v].shape:
            return "%s has shape %s, of the track alone %s" % (v, a[v].shape, b[v].shape)
        elif not np.array_equal(a[v], b[v]):
            return "%s differs from that of the track alone" % v
    return None


def inside(t):
    x, y = np.array(t["lon"]), np.array(t["lat"])
    return x.max() >= REGION[0] - 1 and x.min() <= REGION[1] + 1 and y.max() >= REGION[2] - 1 and y.min() <= REGION[3] + 1


def reference(out, files, grid, domain):
    """{file name: content}, each from a run on that track alone."""
    want = {}
    for name, ts in files:
        for t in ts:
            if grid != "none" and not inside(t):
                continue
            cfg = prepare(out, [(name, [t])], grid, domain)
            res = mpi.run_once(program(cfg, out=out), 1)
            if res.outcome != "ok":
                return "run on one track: %s: %s" % (res.outcome, res.detail[-400:])
            got = collect(out)
            if list(got) != [name_of(t)]:
                return "run on one track leaves %s" % list(got)
            want[name_of(t)] = got[name_of(t)]
            if isinstance(want[name_of(t)], str):
                return "run on one track: file %s" % want[name_of(t)]
    shutil.rmtree(out, ignore_errors=True)
    return want


_refs = {}


def ref(out, c):
    key = repr((c["files"], c["grid"], c["domain"]))
    if key not in _refs:
        _refs[key] = reference(out + "ref", tracks_of(c["files"]), c["grid"], c["domain"])
    return _refs[key]


def label(c):
    return "%d track files %s, %s" % (len(c["files"]), "/".join("+".join(f) for f in c["files"]),
                                      "processes %s" % [s[0] for s in c["steps"]])


def run_case(c, out):
    """c: files, grid, domain, steps: [(processes, cut, torn)], listing, order.
    (text or None, transitions, states, operations counted in the last step)"""
    files = tracks_of(c["files"])
    want = ref(out, c)
    if isinstance(want, str):
        return want, 0, set(), []
    cfg = prepare(out, files, c["grid"], c["domain"])
    trans, states, ops = 0, set(), []
    kept = {}
    d = os.path.join(out, "windfield")
    if c.get("left"):
        leave(d, want, *c["left"])
    for k, (size, cut, torn) in enumerate(c["steps"]):
        last = k == len(c["steps"]) - 1
        if kept is not None:
            kept = done(d, want, kept if k else None, size)
        res = mpi.run_once(program(cfg, c.get("listing"), cut, torn, out), size, "eager", c.get("order"), crash=bool(cut) and torn != "pause")
        trans += len(res.trace) + 1
        states |= res.states
        if res.outcome == "crashed" and not last:
            states.add(hash(tuple((n, os.path.getsize(os.path.join(d, n))) for n in sorted(os.listdir(d)))))
            continue
        if res.outcome == "crashed":
            return None, trans, states, ops
        if res.outcome != "ok":
            return "%s: %s" % (res.outcome, res.detail[-600:]), trans, states, ops
        ops = [res.values[r] for r in range(size)]
        if not last:
            continue
    text = diff(collect(out), want)
    if text is None and kept:
        for n, st in kept.items():
            s = os.stat(os.path.join(d, n))
            if (s.st_mtime_ns, s.st_ino) != st:
                text = "%s was complete before the run was started again and has been written again" % n
    shutil.rmtree(out, ignore_errors=True)
    return text, trans, states, ops


def leave(d, want, name, how):
    """Leave an unfinished file: only some of the variables, or the first bytes."""
    path = os.path.join(d, name)
    with netCDF4.Dataset(path, "w") as ds:
        for n in ("lat", "lon"):
            ds.createDimension(n, len(want[name][n]))
            ds.createVariable(n, "f8", (n,))[:] = want[name][n]
        for n in ("vmax", "ua", "va", "slp")[:how if how < 4 and isinstance(how, int) else 4]:
            ds.createVariable(n, "f4", ("lat", "lon"))[:] = want[name][n]
    if isinstance(how, float):
        with open(path, "r+b") as f:
            f.truncate(int(how * os.path.getsize(path)))


def done(d, want, before, size):
    """Files that were finished by the steps so far: complete, and not the newest one."""
    if before is None:
        return {}
    st = {}
    names = sorted(os.listdir(d), key=lambda n: os.stat(os.path.join(d, n)).st_mtime_ns)
    for n in names[:-1]:
        if n not in want:
            continue
        try:
            ok = same(read(os.path.join(d, n)), want[n]) is None
        except Exception:
            ok = False
        if ok:
            s = os.stat(os.path.join(d, n))
            st[n] = (s.st_mtime_ns, s.st_ino)
    return st


def job(j):
    part, out = j
    n = 0
    trans = 0
    states, bad = set(), []
    for c in part:
        text, t, s, _ = run_case(c, out)
        n += 1
        trans += t
        states |= {hash((repr(c["files"]), repr([x[0] for x in c["steps"]]), x)) for x in s}
        if text:
            bad.append(("%s: %s" % (label(c), text), c))
            if len(bad) > 3:
                break
    return n, trans, states, bad


def plain_cases(ctx):
    """Without interruptions."""
    def c(files, size, **kw):
        return dict(dict(files=files, grid="region", domain="bounded", steps=[(size, None, False)]), **kw)
    shapes = [[["a"]], [["a", "b"]], [["a", "b", "c"]], [["a"], ["b"]], [["a", "b"], ["c"]], [["a"], ["b", "c"], ["d"]],
              [["a", "b", "c", "d"]], [["out"], ["a"]], [["out", "a", "margin"], ["b", "out"]], [["out"]], [["margin"]],
              [["a"], ["b"], ["c"], ["d"]], [["b"], ["b"], ["b"], ["a", "b"], ["c"]], [["d", "d", "d", "d", "d"]], []]
    for f in shapes:
        for size in range(1, ctx.pick(4, 6)):
            for grid in ("region", "own") + (("none",) if all("out" not in x for x in f) else ()):
                for domain in ("bounded", "full") if grid == "region" and size < 3 else ("bounded",):
                    yield c(f, size, grid=grid, domain=domain)
        # rank orders, and directory listings that differ between the ranks
        if len(f) > 1:
            for size in (2, 3):
                for order in mpi.orders(size)[1:]:
                    yield c(f, size, order=list(order))
                n = len(f)
                for perm in itertools.permutations(range(n)) if n < 4 else [tuple(range(n))[::-1], (1, 0) + tuple(range(2, n))]:
                    yield c(f, size, listing=[list(perm)] + [list(range(n))] * (size - 1))
                    yield c(f, size, listing=[list(range(n))] * (size - 1) + [list(perm)])
    # on which side of the region a track passes
    for side in "nswe":
        yield c([[side, side + "1", "a"]], 1)
        yield c([[side, "b"], [side + "1"]], 2, grid="own")
    for path in ("we", "ew", "ns", "sn"):
        yield c([[path, "out"], ["n1"]], 1)
    # a file that an earlier run has not finished
    for how in (0, 1, 2, 3, 0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99):
        for name in ("gust.001-00001.nc", "gust.002-00001.nc"):
            yield c([["a", "b"]], 1, left=[name, how])
            yield c([["a", "b"]], 2, left=[name, how])
    # starting again on a finished run, with other numbers of processes
    for a, b in itertools.product((1, 2, 3), repeat=2):
        yield c([["a", "b"], ["c"]], 1, steps=[(a, None, False), (b, None, False)])


def crash_cases(ctx, count):
    """count(files, size) -> operations of each rank in an uninterrupted run."""
    def c(files, steps, **kw):
        return dict(dict(files=files, grid="region", domain="bounded", steps=steps), **kw)
    one = [["a", "b"]]
    n, = count(one, 1)
    for k in range(1, n + 1):
        for torn in (False, True):
            for again in (1, 2) if not torn or ctx.thorough else (1,):
                yield c(one, [(1, [k], torn), (again, None, False)])
    # two ranks killed at independent points
    two = [["a"], ["b"]]
    n0, n1 = count(two, 2)
    step = ctx.pick(31, 1)
    for k0 in range(1, n0 + 1):
        for k1 in [0] + list(range(1 + (k0 - 1) % step, n1 + 1, step)):
            yield c(two, [(2, [k0, k1], False), (1 if (k0 + k1) % 2 else 2, None, False)])
    for k1 in range(1, n1 + 1):
        yield c(two, [(2, [0, k1], True), (2, None, False)])
    # the ranks take turns at any file operation
    for k0 in range(1, n0 + 1):
        for k1 in [0] + list(range(1 + (k0 - 1) % step, n1 + 1, step)):
            yield c(two, [(2, [k0, k1], "pause")])
    m0, m1 = count(one, 2)
    for k0 in range(1, m0 + 1):
        for k1 in [0] + list(range(1 + (k0 - 1) % (2 * step - 1), m1 + 1, 2 * step - 1)):
            yield c(one, [(2, [k0, k1], "pause")])
    # killed again
    single = [["a"]]
    m, = count(single, 1)
    for k in range(1, m + 1):
        for q in range(1 + (k - 1) % ctx.pick(31, 1), m + 1, ctx.pick(31, 1)):
            yield c(single, [(1, [k], True), (1, [q], False), (1, None, False)])


def counter(ctx):
    base = ctx.mkdir("n")

    def count(files, size):
        text, _, _, ops = run_case(dict(files=files, grid="region", domain="bounded", steps=[(size, None, False)]),
                                   os.path.join(base, "n"))
        if text:
            raise Broken(text)
        return ops
    return count


class Broken(Exception):
    pass


def main(ctx):
    crash.require()
    mpi.install()
    logging.disable(logging.CRITICAL)
    import wind                                                  # noqa: F401
    import Utilities.nctools                                     # noqa: F401
    import PressureInterface.pressureProfile                     # noqa: F401
    import inspect
    inspect.stack()                                              # fills its caches before the forks
    if ctx.replay is not None:
        c = dict(ctx.replay)
        text = run_case(c, os.path.join(ctx.mkdir("r"), "o"))[0]
        if text:
            ctx.violation("%s: %s" % (label(c), text), c)
        return
    base = ctx.mkdir("w")
    plain = list(plain_cases(ctx))
    try:
        cut = list(crash_cases(ctx, counter(ctx)))
    except Broken as e:
        ctx.violation("uninterrupted run: %s" % e, plain[0])
        cut = []
    # cases on the same tracks share their references
    jobs = []
    for group in (plain, cut):
        keyed = sorted(group, key=lambda c: (repr(c["files"]), c["grid"]))
        size = 12
        jobs += [keyed[i:i + size] for i in range(0, len(keyed), size)]
    for n, trans, states, bad in common.pmap(job, [(p, os.path.join(base, "j%d" % k)) for k, p in enumerate(jobs)]):
        ctx.outcomes |= states
        ctx.add(transitions=trans, traces_validated_against_impl=n)
        for text, c in bad:
            ctx.violation(text, c)
    ctx.cov["states"] = len(ctx.outcomes)
    ctx.add(interrupted_runs=len(cut))
    ctx.sample(dict(case=label(plain[3]), steps=plain[3]["steps"]))
    if cut:
        ctx.sample(dict(case=label(cut[-1]), steps=cut[-1]["steps"]))
    ctx.assumptions = ["an interruption kills the program; what it wrote before stays in the files",
                       "track numbers are unique in the track files"]
