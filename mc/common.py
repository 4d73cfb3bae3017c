"""Shared machinery of the checks: context, evidence, violations, worker pool."""
import atexit
import json
import os
import pickle
import select
import shutil
import signal
import socket
import struct
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = "tcrmmc-"             # how the names of scratch directories begin
NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed, replay=None):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.replay = replay          # the recorded case to run, or None
        self.t0 = time.time()
        self.level = None
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hits = {}
        self.known = load_known(pid)
        self.outcomes = set()
        self._scratch = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- scratch ---------------------------------------------------------
    @property
    def scratch(self):
        if self._scratch is None:
            base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and \
                shutil.disk_usage("/dev/shm").free > (1 << 30) else None
            d = tempfile.mkdtemp(prefix=SCRATCH, dir=base)
            owner = os.getpid()

            def clean():
                if os.getpid() == owner:
                    shutil.rmtree(d, ignore_errors=True)
            atexit.register(clean)
            self._scratch = d
        return self._scratch

    def mkdir(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    # -- results ---------------------------------------------------------
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def explored(self, evaluations, distinct, rule):
        """Coverage of an enumeration of inputs or histories."""
        self.level = "exploration"
        self.cov["evaluations"] = self.cov.get("evaluations", 0) + evaluations
        self.outcomes |= set(distinct)
        self.cov["distinct_nontrivial"] = len(self.outcomes)
        self.cov["rule"] = rule

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, case, key=None):
        """Report a broken property.  `case` is JSON-able and is what
        --replay runs again; `key` identifies a known finding."""
        if key is not None and key in self.known:
            self.known_hits.setdefault(key, what)
            return
        self.violations.append((what, case))

    def finish(self):
        for key, what in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
        code = 0
        if self.violations:
            code = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            seen = set()
            n = 0
            for what, case in self.violations:
                if what in seen:
                    continue
                seen.add(what)
                n += 1
                if n > 5:
                    break
                path = os.path.join(d, "%s-%d.json" % (self.pid, n))
                with open(path, "w") as fh:
                    json.dump({"property": self.pid, "what": what,
                               "case": case}, fh, indent=1, default=str)
                print("  %s" % what)
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if self.replay is None:
            self.write_evidence()
        dt = time.time() - self.t0
        print("%s %s: %s  (%s) %.1fs" % (
            self.pid, self.tier, "ok" if not code else "BROKEN",
            ", ".join("%s=%s" % kv for kv in sorted(self.cov.items())), dt))
        sys.stdout.flush()
        return code

    def write_evidence(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(self.cov)
        cov["samples"] = self.samples
        cov.setdefault("exhaustive", True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed,
              "level": self.level or "model_checking", "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        os.replace(tmp, os.path.join(d, "%s.json" % self.pid))


def load_known(pid):
    """known-findings.txt: `known: property=<id> key=<key> <what fails>`
    (and `fixed:` lines, which suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                w = line.split(None, 3)
                if len(w) == 4 and w[0] == "known:" and \
                        w[1] == "property=" + pid and w[2].startswith("key="):
                    out[w[2][4:]] = w[3].strip()
    return out


# ---------------------------------------------------------------------------
# messages over a stream socket

def put(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def get(sock):
    head = _exact(sock, 8)
    if head is None:
        return None
    n, = struct.unpack("<Q", head)
    b = _exact(sock, n)
    if b is None:
        return None
    return pickle.loads(b)


def _exact(sock, n):
    parts = []
    while n:
        try:
            b = sock.recv(min(n, 1 << 20))
        except ConnectionResetError:
            return None
        if not b:
            return None
        parts.append(b)
        n -= len(b)
    return b"".join(parts)


class CheckError(Exception):
    """The machinery (not the code under test) failed."""


class CodeError(Exception):
    """The code under test failed where the check expected no failure."""


MALFORMED = ("IndexError", "KeyError", "ValueError", "OverflowError", "ZeroDivisionError",
             "UnicodeDecodeError", "json.decoder.JSONDecodeError", "EOFError")


def in_code(text):
    """True if a traceback passes through the code under test, or ends because a file
    that the code should have written is not there, or because what the code wrote or
    returned does not have the form that the check reads."""
    last = last_line(text)
    return '  File "%s%s' % (REPO.rstrip(os.sep), os.sep) in text or \
        last.startswith("FileNotFoundError") and SCRATCH in last or \
        last.split(":")[0] in MALFORMED


def last_line(text):
    return ([""] + [l for l in text.split("\n") if l.strip()])[-1].strip()


PATIENCE = 300                  # seconds to wait for the next result of the workers
DEADLY = (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL)


def pmap(fn, jobs, nproc=None, stop=None):
    """Run fn(job) for every job in forked worker processes; results in job
    order.  A worker exception is re-raised here, as CodeError if it came out of
    the code under test, else as CheckError.  `stop(res)` true stops handing out
    further jobs (their result stays None)."""
    jobs = list(jobs)
    nproc = min(nproc or NPROC, len(jobs)) or 1
    results = [None] * len(jobs)
    if nproc == 1 and len(jobs) <= 1:
        for i, j in enumerate(jobs):
            results[i] = fn(j)
        return results
    workers = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for _ in range(nproc):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for s in workers:
                    s.close()
                while True:
                    m = get(b)
                    if m is None:
                        break
                    i, j = m
                    try:
                        put(b, (i, True, fn(j)))
                    except BaseException:
                        put(b, (i, False, traceback.format_exc()))
            finally:
                sys.stdout.flush()
                os._exit(0)
        b.close()
        workers[a] = pid
    nxt = 0
    busy = 0
    halt = False
    try:
        for s in list(workers):
            if nxt < len(jobs):
                put(s, (nxt, jobs[nxt]))
                nxt += 1
                busy += 1
        while busy:
            ready, _, _ = select.select(list(workers), [], [], PATIENCE)
            if not ready:
                raise CodeError("a case did not end within %d s" % PATIENCE)
            for s in ready:
                m = get(s)
                if m is None:
                    st = os.waitpid(workers.pop(s), 0)[1]
                    if os.WIFSIGNALED(st) and os.WTERMSIG(st) in DEADLY:
                        raise CodeError("the process died: %s" % signal.strsignal(os.WTERMSIG(st)))
                    raise CheckError("a worker process died")
                i, ok, val = m
                busy -= 1
                if not ok:
                    if in_code(val):
                        raise CodeError("unexpected failure: %s\n%s" % (last_line(val), val))
                    raise CheckError("worker failed on %r:\n%s" % (jobs[i], val))
                results[i] = val
                if stop is not None and stop(val):
                    halt = True
                if nxt < len(jobs) and not halt:
                    put(s, (nxt, jobs[nxt]))
                    nxt += 1
                    busy += 1
    finally:
        for s, pid in workers.items():
            s.close()
        for s, pid in workers.items():
            if busy:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
    return results


def judge(fn, *args):
    """fn(*args), which reads and compares what the code under test left behind;
    a text instead of an exception if that cannot be read."""
    try:
        return fn(*args)
    except CheckError:
        raise
    except Exception as e:
        return "the result cannot be read: %s: %s" % (type(e).__name__, str(e)[:200])


def chunks(seq, n):
    """Split a list into at most n interleaved parts."""
    seq = list(seq)
    n = max(1, min(n, len(seq)))
    return [seq[i::n] for i in range(n)]


def call_forked(fn, *args, timeout=None):
    """fn(*args) in a forked child.  ('ok', value) | ('exc', type, text, tb)
    | ('died', code) | ('timeout',)."""
    a, b = socket.socketpair()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            a.close()
            try:
                put(b, ("ok", fn(*args)))
            except BaseException as e:
                put(b, ("exc", type(e).__name__, str(e), traceback.format_exc()))
        finally:
            os._exit(0)
    b.close()
    try:
        if timeout:
            a.settimeout(timeout)
        try:
            m = get(a)
        except socket.timeout:
            os.kill(pid, signal.SIGKILL)
            m = ("timeout",)
    finally:
        a.close()
        _, st = os.waitpid(pid, 0)
    if m is None:
        m = ("died", st)
    return m
