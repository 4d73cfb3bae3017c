"""C18: a failed download never leaves a dataset that looks complete.

The real download code runs over the real HTTP client on a scripted connection: it can
be refused, answered with an error, or end, break or stall after any byte.  The writing
of the file can fail or be killed at every file operation.  All scripts of one fault, and
all pairs from a smaller set, are followed by a download without faults."""
import errno
import gzip
import io
import itertools
import logging
import os
import shutil
import socket
import zipfile

from .. import common, crash

SHORT = b"serial,season,num\n1990001,1990,01\n" + bytes(range(60))


def content(size):
    return SHORT if size == "short" else (SHORT * 400)[:20000]


def packed(kind, data):
    if kind == "gz":
        return gzip.compress(data, mtime=0)
    if kind == "zip":
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            z.writestr(zipfile.ZipInfo("table.csv"), data)
        return b.getvalue()
    return data


class Wire(io.RawIOBase):
    """What the server sends, with a fault after some byte."""

    def __init__(self, data, cut, how):
        self.data, self.cut, self.how, self.pos = data, cut, how, 0

    def readable(self):
        return True

    def readinto(self, b):
        end = len(self.data) if self.cut is None else self.cut
        n = min(len(b), end - self.pos)
        if n == 0 and self.cut is not None:
            if self.how == "reset":
                raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
            if self.how == "stall":
                raise socket.timeout("timed out")
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n


class Sock:
    def __init__(self, wire):
        self.wire = wire

    def makefile(self, *a, **k):
        return io.BufferedReader(self.wire)

    def sendall(self, *a):
        pass

    def send(self, b):
        return len(b)

    def settimeout(self, *a):
        pass

    def setsockopt(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        pass


def response(c):
    body = packed(c["pack"], content(c["size"]))
    head = c.get("head", "length")
    if c.get("status", 200) != 200:
        return b"HTTP/1.1 %d Problem\r\nContent-Length: 5\r\nConnection: close\r\n\r\nsorry" % c["status"]
    out = b"HTTP/1.1 200 OK\r\nConnection: close\r\n"
    if head == "length":
        return out + b"Content-Length: %d\r\n\r\n" % len(body) + body
    if head == "chunked":
        parts = [body[i:i + 7000] for i in range(0, len(body), 7000)]
        return out + b"Transfer-Encoding: chunked\r\n\r\n" + b"".join(b"%x\r\n%s\r\n" % (len(p), p) for p in parts) + b"0\r\n\r\n"
    return out + b"\r\n" + body


def connect_with(c):
    """The scripted network for one attempt."""
    import http.client

    def connect(self):
        if c.get("refuse"):
            raise {"refused": ConnectionRefusedError(errno.ECONNREFUSED, "refused"),
                   "name": socket.gaierror(-2, "Name or service not known"),
                   "timeout": socket.timeout("timed out")}[c["refuse"]]
        self.sock = Sock(Wire(response(c), c.get("cut"), c.get("how")))
    http.client.HTTPConnection.connect = connect


URLS = {"plain": "http://server.example/data/table.csv", "gz": "http://server.example/data/table.csv.gz",
        "zip": "http://server.example/data/table.zip"}


def attempt(c, d):
    """One attempt in this process: (error type name or None, reported as downloaded)."""
    from Utilities import datasets
    from Utilities.datasets import DataSet
    connect_with(c)
    ds = DataSet("TEST", URLS[c["pack"]], d, "table.csv")
    err = None
    if c.get("config"):
        # as the main program does: every dataset that the configuration lists
        return by_config(c, d, datasets, ds)
    if c.get("file"):
        crash.arm(d + "/", c["file"], c.get("torn", False), c.get("errno", 0))
    try:
        ds.download((lambda fn, done, size: done / float(size)) if c.get("callback", True) else None)
    except Exception as e:
        err = type(e).__name__, isinstance(e, OSError), str(e)
    ops = crash.disarm()
    return err, bool(ds.isDownloaded()), ops


def by_config(c, d, datasets, ds):
    from Utilities import config
    config.reset()
    ini = os.path.join(d, "run.ini")
    with open(ini, "w") as fh:
        fh.write("[Input]\nDatasets=%s\n" % ",".join(c["config"]))
        for name in c["config"]:
            fh.write("[%s]\nURL=%s\npath=%s\n" % (name, URLS[c["pack"]], d if name.startswith("T") else os.path.join(d, name)))
            if name == "TEST" or c["pack"] == "zip":
                fh.write("filename=table.csv\n")
            if not name.startswith("T"):
                os.makedirs(os.path.join(d, name), exist_ok=True)
    del datasets.DATASETS[:]
    err = None
    try:
        datasets.loadDatasets(ini)
        datasets.checkAndDownload()
    except Exception as e:
        err = type(e).__name__, isinstance(e, OSError), str(e)
    finally:
        config.reset()
        del datasets.DATASETS[:]
    if err is None:
        for name in c["config"]:
            if name.startswith("T"):
                continue
            try:
                with open(os.path.join(d, name, "table.csv"), "rb") as fh:
                    data = fh.read()
            except OSError as e:
                return ("no file of %s" % name, False, str(e)), False, 0
            if data != content(c["size"]):
                return ("the file of %s is not the content" % name, False, ""), False, 0
    return err, bool(ds.isDownloaded()), 0


def good(c):
    """The attempt has no fault."""
    return not (c.get("refuse") or c.get("status", 200) != 200 or c.get("cut") is not None or c.get("file"))


def run_case(c, d):
    """c["attempts"]: list of scripts.  (text, steps)"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = os.path.join(d, "table.csv")
    have = False
    for k, a in enumerate(c["attempts"]):
        want = content(a["size"])
        killed = False
        if a.get("file"):
            # forked: the process may be killed
            r = common.call_forked(attempt, a, d, timeout=60)
            if r[0] == "died":
                killed = True
                err = None
            elif r[0] != "ok":
                return "attempt %d: %s" % (k + 1, r[:3]), k + 1
            else:
                err = r[1][0]
            from Utilities.datasets import DataSet
            said = bool(DataSet("TEST", URLS[a["pack"]], d, "table.csv").isDownloaded())
        else:
            err, said, _ = attempt(a, d)
        data = None
        if os.path.isfile(path):
            with open(path, "rb") as fh:
                data = fh.read()
        full = data == want
        if said and not full:
            return "attempt %d: the dataset is taken as downloaded but holds %s" % (
                k + 1, "nothing" if data is None else "%d bytes that are not the content" % len(data)), k + 1
        if not killed and err is None and not (said and full):
            return "attempt %d: no failure is reported but the dataset is not complete" % (k + 1), k + 1
        # a heading that ends within a number may be refused as such
        garbled = a.get("cut") is not None and a["cut"] < response(a).index(b"\r\n\r\n") and err and err[0] == "ValueError"
        if err is not None and not err[1] and not garbled:
            return "attempt %d: fails with %s instead of an IOError: %s" % (k + 1, err[0], err[2]), k + 1
        if good(a) and not (said and full):
            return "attempt %d: a download without faults fails: %s" % (k + 1, err), k + 1
        if have and not (said and full):
            return "attempt %d: a complete dataset is lost" % (k + 1), k + 1
        have = said and full
    return None, len(c["attempts"])


def cuts(n, step):
    return sorted(set(range(0, n, step)) | {1, n - 1, n - 2, n - 4, n - 8})


def faults(ctx, pack, size, heads):
    base = dict(pack=pack, size=size)
    for r in ("refused", "name", "timeout"):
        yield dict(base, refuse=r)
    for s in (404, 500, 503, 401):
        yield dict(base, status=s)
    for head in heads:
        n = len(response(dict(base, head=head)))
        for cut in cuts(n, ctx.pick(1, 1) if size == "short" else ctx.pick(1999, 97)):
            for how in ("close", "reset", "stall"):
                if how == "close" and head == "none" and pack == "plain" and cut > 16:
                    continue          # nothing tells that such a body is not complete
                yield dict(base, head=head, cut=cut, how=how)


def file_faults(ctx, pack, size, nops):
    base = dict(pack=pack, size=size, head="length")
    for k in range(1, nops + 1):
        for torn in (False, True):
            yield dict(base, file=k, torn=torn)
            for e in (errno.ENOSPC, errno.EIO):
                yield dict(base, file=k, torn=torn, errno=e)


def cases(ctx, count):
    for pack, size in itertools.product(("plain", "gz", "zip"), ("short", "long")):
        ok = dict(pack=pack, size=size)
        for head in ("length", "chunked", "none"):
            for cb in (True, False):
                yield dict(attempts=[dict(ok, head=head, callback=cb)])
                yield dict(attempts=[dict(ok, head=head, callback=cb), dict(ok, refuse="refused")])
        # every order of the configured datasets; with and without a file name of its own
        own = ["TEST"] if pack == "zip" else ["TEST", "T2"]
        for name in own:
            for names in itertools.permutations((name, "OTHER", "MORE")):
                for head in ("length", "none"):
                    yield dict(attempts=[dict(ok, head=head, config=names)])
                    yield dict(attempts=[dict(ok, head=head, config=names, refuse="refused"), dict(ok, head=head, config=names)])
                    yield dict(attempts=[dict(ok, head=head, config=names), dict(ok, config=names, refuse="refused")])
        for f in faults(ctx, pack, size, ("length", "chunked", "none")):
            yield dict(attempts=[f, ok])
        for f in file_faults(ctx, pack, size, count(pack, size)):
            yield dict(attempts=[f, ok])
    # two faults in a row
    for pack in ("plain", "gz"):
        few = [f for k, f in enumerate(faults(ctx, pack, "short", ("length",))) if k % ctx.pick(6, 2) == 0] + \
            [f for f in file_faults(ctx, pack, "short", count(pack, "short"))]
        for a, b in itertools.product(few, repeat=2):
            yield dict(attempts=[a, b, dict(pack=pack, size="short")])


def counter(base):
    def count(pack, size):
        d = os.path.join(base, "n")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        err, said, ops = attempt(dict(pack=pack, size=size, file=1 << 40), d)
        return max(ops, 1)
    return count


def job(j):
    part, d = j
    n = steps = 0
    bad, seen = [], set()
    for c in part:
        text, k = run_case(c, d)
        n += 1
        steps += k
        if not good(c["attempts"][0]):
            seen.add(hash(repr(c)))
        if text:
            bad.append(("%s: %s" % (describe(c), text), c))
    shutil.rmtree(d, ignore_errors=True)
    return n, steps, seen, bad


def describe(c):
    return "; ".join(",".join("%s=%s" % kv for kv in a.items()) for a in c["attempts"])


def main(ctx):
    crash.require()
    logging.disable(logging.CRITICAL)
    for v in list(os.environ):
        if v.lower().endswith("_proxy"):
            del os.environ[v]
    import Utilities.datasets                                    # noqa: F401
    if ctx.replay is not None:
        text, _ = run_case(ctx.replay, os.path.join(ctx.mkdir("r"), "d"))
        if text:
            ctx.violation("%s: %s" % (describe(ctx.replay), text), ctx.replay)
        return
    base = ctx.mkdir("w")
    allc = list(cases(ctx, counter(base)))
    for n, steps, seen, bad in common.pmap(job, [(p, os.path.join(base, "j%d" % k))
                                                 for k, p in enumerate(common.chunks(allc, 48))]):
        ctx.explored(n, seen, "sequences of download attempts; distinct = those with a fault")
        ctx.add(attempts=steps)
        for text, c in bad:
            ctx.violation(text, c)
    ctx.level = "fault_enumeration"
    ctx.sample(describe(allc[20]))
    ctx.sample(describe(allc[-1]))
    ctx.assumptions = ["a response that ends within its heading may be refused with a ValueError", "an uncompressed body sent without a length cannot be told from a shorter one",
                       "a zip archive holds one file"]
