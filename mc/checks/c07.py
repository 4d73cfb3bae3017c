"""C07: the ledger of processed files.

All sequences of operations up to a depth are run on the real module, each next to a
reference model; after every operation the answers for all files, present and past
values, and both attributes are compared."""
import hashlib
import importlib
import itertools
import logging
import os
import time

from .. import common

NAMES = (("Run 1", "A b.CSV"), ("d2", "A b.CSV"), ("Run 1", "c.csv"))
# the last two differ beyond the size of a block
CONTENTS = ("first\n", "x" * 66000 + "first\n", "x" * 66000 + "second\n")
SUMS = [hashlib.md5(c.encode()).hexdigest() for c in CONTENTS]
STAMPS = (981000000, 981000060, 1012536000)


class World:
    def __init__(self, base):
        self.base = base
        self.ledger = os.path.join(base, "p.dat")
        self.files = {}        # key -> [content index, stamp index] or absent
        self.mem = {}          # key -> (md5, date)
        self.disk = {}
        self.loaded = False
        self.torn = set()      # entries lost by an interruption: nothing is claimed about them
        import Utilities.process as p
        self.p = importlib.reload(p)
        for f in os.listdir(base):
            q = os.path.join(base, f)
            if os.path.isfile(q):
                os.unlink(q)
        for d, n in NAMES:
            os.makedirs(os.path.join(base, d), exist_ok=True)
            q = os.path.join(base, d, n)
            if os.path.exists(q):
                os.unlink(q)
        for k, name in enumerate(NAMES):
            self.put(name, k, k)

    def path(self, key):
        return os.path.join(self.base, *key)

    def put(self, key, c, t):
        self.files[key] = [c, t]
        with open(self.path(key), "w") as fh:
            fh.write(CONTENTS[c])
        os.utime(self.path(key), (STAMPS[t], STAMPS[t]))

    def stat(self, key):
        c, t = self.files[key]
        return SUMS[c], time.ctime(STAMPS[t])

    # -- operations; each returns a complaint or None ---------------------
    def do(self, op):
        kind, arg = op[0], op[1] if len(op) > 1 else None
        key = NAMES[arg] if arg is not None and kind not in ("cut",) else None
        if kind == "mark":
            if key not in self.files:
                return None
            rc = self.p.pWriteProcessedFile(self.path(key))
            if bool(rc) != self.loaded:
                return "marking a file %s" % ("fails" if self.loaded else "without a ledger is reported as done")
            if self.loaded:
                self.mem[key] = self.disk[key] = self.stat(key)
                self.torn.discard(key)
        elif kind == "edit":
            if key in self.files:
                c, t = self.files[key]
                self.put(key, (c + 1) % len(CONTENTS), t)
        elif kind == "touch":
            if key in self.files:
                c, t = self.files[key]
                self.put(key, c, (t + 1) % len(STAMPS))
        elif kind == "delete":
            if key in self.files:
                os.unlink(self.path(key))
                del self.files[key]
            else:
                self.put(key, 0, 2)
        elif kind == "run":
            self.p = importlib.reload(self.p)
            have = os.path.exists(self.ledger)
            rc = self.p.pGetProcessedFiles(self.ledger)
            if bool(rc) != have:
                return "reading the ledger is reported as %s" % ("failed" if have else "done")
            self.loaded = True
            self.mem = dict(self.disk)
        elif kind == "cut":
            # a record was being added when the run was killed: part of it is in the file
            key = NAMES[arg % 2]
            if key not in self.files or not self.loaded:
                return None
            old = os.path.getsize(self.ledger) if os.path.exists(self.ledger) else 0
            before = self.disk.get(key)
            was = key in self.torn
            self.p.pWriteProcessedFile(self.path(key))
            new = os.path.getsize(self.ledger)
            at = old + (min(op[2], new - old) if op[2] >= 0 else max(0, new - old + op[2]))
            os.truncate(self.ledger, at)
            if at < new:
                self.torn.add(key)
            self.disk[key] = self.stat(key)
            if at == old:
                if before is None:
                    del self.disk[key]
                else:
                    self.disk[key] = before
                if not was:
                    self.torn.discard(key)
            # the killed run is over
            return self.do(("run",))
        elif kind == "drop":
            if self.loaded and os.path.exists(self.ledger):
                rc = self.p.pDeleteDatFile()
                if os.path.exists(self.ledger):
                    return "deleting the ledger leaves it there"
                if not rc:
                    return "deleting the ledger is reported as failed"
                self.disk = {}
                self.torn = set()
                return self.do(("run",))
        return None

    def check(self):
        for key in NAMES:
            if key in self.torn:
                continue
            directory = os.path.join(self.base, key[0])
            known = self.mem.get(key)
            for a, i in (("md5sum", 0), ("moddate", 1)):
                values = set()
                for c in range(len(CONTENTS)):
                    values.add(SUMS[c] if i == 0 else time.ctime(STAMPS[c]))
                for v in sorted(values):
                    want = known is not None and known[i] == v
                    got = self.p.pAlreadyProcessed(directory, key[1], a, v)
                    if bool(got) != want:
                        return "%s/%s with %s %s is %sreported as processed" % (*key, a, v, "" if got else "not ")
            # the present file, as a program asks
            if key in self.files:
                from Utilities.files import flGetStat
                d, n, md5, date = flGetStat(self.path(key))
                if (d, n, md5, date) != (directory, key[1]) + self.stat(key):
                    return "the file statistics of %s/%s are wrong" % key
        return None


def one(seq, base):
    w = World(base)
    for k, op in enumerate(seq):
        try:
            text = w.do(op) or w.check()
        except Exception as e:
            text = "%s: %s" % (type(e).__name__, e)
        if text:
            return "after %s: %s" % (", ".join(" ".join(map(str, o)) for o in seq[:k + 1]), text), k
    return None, repr((sorted(w.files.items()), sorted(w.mem.items()), sorted(w.disk.items()), sorted(w.torn), w.loaded))


def ops(ncuts):
    for k in (0, 1, 2):
        yield ("mark", k)
    yield ("run",)
    yield ("edit", 0)
    yield ("touch", 0)
    yield ("delete", 1)
    yield ("drop",)
    for k in (0, 1):
        for c in ncuts:
            yield ("cut", k, c)


def job(j):
    prefix, rest, base = j
    os.makedirs(base, exist_ok=True)
    n = steps = 0
    states, bad = set(), []
    # every operation is judged, so the longest sequences cover the shorter ones
    for tail in itertools.product(rest["ops"], repeat=max(0, rest["depth"] - len(prefix))):
        seq = prefix + list(tail)
        text, st = one(seq, base)
        n += 1
        steps += len(seq)
        if text:
            bad.append((text, [list(o) for o in seq]))
            if len(bad) > 2:
                break
            continue
        states.add(hash(st))
    return n, steps, states, bad


def main(ctx):
    logging.disable(logging.CRITICAL)
    import Utilities.process                                     # noqa: F401
    if ctx.replay is not None:
        seq = [tuple(o) for o in ctx.replay]
        text, _ = one(seq, ctx.mkdir("r"))
        if text:
            ctx.violation(text, ctx.replay)
        return
    base = ctx.mkdir("w")
    jobs = []
    short = list(ops((0, -1, -20)))
    depth = ctx.pick(4, 6)
    plan = dict(ops=short, depth=depth)
    for a in short:
        for b in short:
            jobs.append(([a, b], plan, os.path.join(base, "j%d" % len(jobs))))
    # every place where a record can be cut, around all short histories
    full = dict(ops=list(ops((0, 1, 30, 60, -60, -34, -33, -32, -20, -2, -1))), depth=ctx.pick(4, 5))
    for a in full["ops"]:
        jobs.append(([("run",), a], full, os.path.join(base, "j%d" % len(jobs))))
    # every byte
    for k in range(0, 160):
        for tail in ([("mark", 1)], [("run",), ("mark", 0)], [("cut", 1, -3)], [("edit", 0), ("mark", 0), ("run",)]):
            jobs.append(([("run",), ("mark", 1), ("mark", 0), ("edit", 0), ("cut", 0, k)] + tail + [("run",)],
                         dict(depth=0, ops=[]), os.path.join(base, "j%d" % len(jobs))))
    for n, steps, states, bad in common.pmap(job, jobs):
        ctx.outcomes |= states
        ctx.add(transitions=steps, traces_validated_against_impl=n)
        for text, seq in bad:
            ctx.violation(text, seq)
    ctx.cov["states"] = len(ctx.outcomes)
    ctx.sample(dict(operations=[list(o) for o in short], depth=depth))
    ctx.assumptions = ["file names hold no | and no line break"]
