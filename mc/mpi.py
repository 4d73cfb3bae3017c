"""Stateless model checking of MPI programs.

A fake `mpi4py` is put in sys.modules.  Each rank is a forked process whose MPI
calls are requests to one controller, which runs the ranks one at a time and so
owns every scheduling decision:

* a receive from a named source takes the first matching message of that source
  (MPI's non-overtaking rule) and commutes with everything else, so it is taken
  at once;
* a receive from ANY_SOURCE is answered only when no rank can run any further,
  so every message that can be pending at that point is pending; the DFS then
  branches over all sources with a matching message;
* sends are buffered ("eager") or block until received ("sync"): both are
  explored;
* `order` fixes which runnable rank goes first: effects on shared files are
  explored over all orders.

All live ranks blocked = deadlock."""
import itertools
import os
import pickle
import signal
import socket
import sys
import time
import traceback
import types

from .common import CheckError, get, put

ANY = -1
_me = types.SimpleNamespace(rank=0, size=1, sock=None)
OP_TIMEOUT = 180.0
MAX_OPS = 20000


class MPIException(Exception):
    pass


class Status:
    def __init__(self):
        self.source = ANY
        self.tag = ANY
        self.error = 0
        self.count = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag

    def Get_error(self):
        return self.error

    def Get_count(self, *a):
        return self.count


class Request:
    def __init__(self, fn):
        self._fn = fn
        self._done = False
        self._val = None

    def wait(self, status=None):
        if not self._done:
            self._val = self._fn(status)
            self._done = True
        return self._val
    Wait = wait

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]
    Waitall = waitall


def _call(*msg):
    if _me.sock is None:
        if _me.size == 1:
            return _solo(*msg)
        raise CheckError("MPI call outside a controlled rank")
    put(_me.sock, msg)
    r = get(_me.sock)
    if r is None:
        os._exit(0)
    return r


def pause():
    """Let the other ranks run first (called by the file operation hook)."""
    if _me.sock is not None:
        _call("pause")


def event(*data):
    """Put something the program did into the trace."""
    if _me.sock is not None:
        _call("event", data)


def _solo(kind, *args):
    if kind == "coll":
        name, val, root = args
        if name in ("barrier",):
            return None
        if name in ("gather", "allgather"):
            return pickle.dumps([pickle.loads(val)])
        if name == "scatter":
            return pickle.dumps(pickle.loads(val)[0])
        return val
    raise MPIException("point-to-point call with a single process")


def _buf(x):
    import numpy as np
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], np.ndarray):
        x = x[0]
    try:
        memoryview(x)
    except TypeError:
        raise TypeError("expecting buffer or list/tuple")
    return np.asarray(x)


class Comm:
    @property
    def rank(self):
        return _me.rank

    @property
    def size(self):
        return _me.size

    def Get_rank(self):
        return _me.rank

    def Get_size(self):
        return _me.size

    # -- point to point --
    def _peer(self, p, what):
        if not isinstance(p, (int,)) and not hasattr(p, "__index__"):
            raise TypeError("%s must be an integer" % what)
        p = int(p)
        if not (0 <= p < _me.size or p == ANY):
            raise MPIException("MPI_ERR_RANK: invalid rank %r" % p)
        return p

    def send(self, obj, dest, tag=0):
        dest = self._peer(dest, "dest")
        if int(tag) < 0:
            raise MPIException("MPI_ERR_TAG: invalid tag")
        _call("send", dest, int(tag), pickle.dumps(obj, 4))

    def ssend(self, obj, dest, tag=0):
        dest = self._peer(dest, "dest")
        _call("ssend", dest, int(tag), pickle.dumps(obj, 4))

    bsend = send

    def isend(self, obj, dest, tag=0):
        dest = self._peer(dest, "dest")
        _call("bsend", dest, int(tag), pickle.dumps(obj, 4))
        return Request(lambda st: None)

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        source = self._peer(source, "source")
        src, t, data = _call("recv", source, int(tag))
        if status is not None:
            status.source, status.tag, status.count = src, t, len(data)
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        return Request(lambda st: self.recv(source=source, tag=tag, status=st))

    def probe(self, source=ANY, tag=ANY, status=None):
        src, t, n = _call("probe", self._peer(source, "source"), int(tag))
        if status is not None:
            status.source, status.tag, status.count = src, t, n
        return True

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY,
                 recvtag=ANY, status=None):
        self.isend(sendobj, dest, sendtag)
        return self.recv(source=source, tag=recvtag, status=status)

    def Send(self, buf, dest, tag=0):
        self.send(_buf(buf), dest, tag)

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        b = _buf(buf)
        b[...] = self.recv(source=source, tag=tag, status=status).reshape(b.shape)

    # -- collective --
    def _coll(self, name, val=None, root=0):
        r = _call("coll", name, pickle.dumps(val, 4), root)
        return pickle.loads(r) if r is not None else None

    def barrier(self):
        self._coll("barrier")
    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self._coll("bcast", obj, root)

    def gather(self, sendobj, root=0):
        return self._coll("gather", sendobj, root)

    def allgather(self, sendobj):
        return self._coll("allgather", sendobj)

    def scatter(self, sendobj, root=0):
        return self._coll("scatter", sendobj, root)

    def reduce(self, sendobj, op=None, root=0):
        v = self._coll("gather", sendobj, root)
        return None if v is None else _fold(v, op)

    def allreduce(self, sendobj, op=None):
        return _fold(self._coll("allgather", sendobj), op)

    def Abort(self, errorcode=0):
        raise MPIException("MPI_Abort(%s)" % errorcode)


def _fold(vals, op):
    acc = vals[0]
    for v in vals[1:]:
        acc = (op or SUM)(acc, v)
    return acc


def SUM(a, b):
    return a + b


def MAX(a, b):
    return max(a, b)


def MIN(a, b):
    return min(a, b)


def install():
    """Make `from mpi4py import MPI` give the fake."""
    pkg = types.ModuleType("mpi4py")
    m = types.ModuleType("mpi4py.MPI")
    m.ANY_SOURCE = ANY
    m.ANY_TAG = ANY
    m.Status = Status
    m.Request = Request
    m.Comm = Comm
    m.Exception = MPIException
    m.COMM_WORLD = Comm()
    m.SUM, m.MAX, m.MIN = SUM, MAX, MIN
    m.Finalize = lambda: None
    m.Init = lambda: None
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Wtime = time.time
    m.Get_processor_name = lambda: "node"
    pkg.MPI = m
    pkg.__path__ = []
    sys.modules["mpi4py"] = pkg
    sys.modules["mpi4py.MPI"] = m
    return m


def solo(size=1):
    """Run MPI code in this process as the only rank."""
    _me.rank, _me.size, _me.sock = 0, 1, None


# ---------------------------------------------------------------------------
# controller

class Result:
    def __init__(self):
        self.outcome = None       # ok | deadlock | error | livelock
        self.detail = ""
        self.choices = []         # (number of options, taken)
        self.trace = []           # control trace
        self.nops = 0
        self.values = {}
        self.states = set()


class _Rank:
    __slots__ = ("i", "sock", "pid", "state", "req", "reply", "hist", "nsent", "lazy")

    def __init__(self, i, sock, pid):
        self.i, self.sock, self.pid = i, sock, pid
        self.state = "run"        # run | wait | done
        self.req = None
        self.reply = None         # pending reply, sent when scheduled
        self.hist = 0
        self.nsent = 0
        self.lazy = False         # paused: the others go first


def _spawn(prog, size):
    ranks = []
    sys.stdout.flush()
    sys.stderr.flush()
    for i in range(size):
        a, b = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                for r in ranks:
                    r.sock.close()
                _me.rank, _me.size, _me.sock = i, size, b
                if get(b) is None:
                    os._exit(0)
                try:
                    v = prog(i)
                    put(b, ("done", v))
                except SystemExit as e:
                    if e.code:
                        put(b, ("error", "SystemExit", str(e.code), ""))
                    else:
                        put(b, ("done", None))
                except BaseException as e:
                    put(b, ("error", type(e).__name__, str(e),
                            traceback.format_exc()))
                get(b)
            finally:
                os._exit(0)
        b.close()
        ranks.append(_Rank(i, a, pid))
    return ranks


def run_once(prog, size, mode="eager", order=None, choices=(), crash=False):
    """One execution.  Scheduling decisions follow `choices` (indices into the
    sorted option list), then option 0.  With `crash`, ranks may be killed: the
    others go on until they wait for them, then the whole job is over."""
    res = Result()
    order = list(order) if order is not None else list(range(size))
    ranks = _spawn(prog, size)
    mail = [[] for _ in range(size)]     # per destination: arrival order
    depth = 0
    try:
        for r in ranks:
            r.reply = ("go",)
        while True:
            # 1. run anything runnable, in the given order
            r = next((ranks[i] for i in order if ranks[i].state == "run" and not ranks[i].lazy), None) or \
                next((ranks[i] for i in order if ranks[i].state == "run"), None)
            if r is not None:
                r.lazy = False
                put(r.sock, r.reply)
                r.reply = None
                r.sock.settimeout(OP_TIMEOUT)
                try:
                    req = get(r.sock)
                except socket.timeout:
                    res.outcome = "livelock"
                    res.detail = "rank %d makes no progress" % r.i
                    return res
                if req is None and crash:
                    r.state = "dead"
                    continue
                if req is None:
                    res.outcome = "error"
                    res.detail = "rank %d died" % r.i
                    return res
                res.nops += 1
                if res.nops > MAX_OPS:
                    res.outcome = "livelock"
                    res.detail = "more than %d operations" % MAX_OPS
                    return res
                kind = req[0]
                r.req = req
                if kind == "done":
                    r.state = "done"
                    res.values[r.i] = req[1]
                    _note(res, ranks, r, ("done",))
                elif kind == "error":
                    res.outcome = "error"
                    res.detail = "rank %d: %s: %s\n%s" % (r.i, req[1], req[2], req[3])
                    return res
                elif kind in ("send", "ssend", "bsend"):
                    _, dest, tag, data = req
                    blocking = kind == "ssend" or (kind == "send" and mode == "sync")
                    r.nsent += 1
                    if dest == r.i and blocking:
                        blocking = True
                    mail[dest].append((r.i, tag, data, blocking, r.nsent))
                    _note(res, ranks, r, (kind, dest, tag))
                    if blocking:
                        r.state = "wait"
                    else:
                        r.reply = "ok"
                elif kind in ("recv", "probe"):
                    r.state = "wait"
                    if req[1] != ANY:
                        _try_named(res, ranks, r, mail)
                elif kind == "pause":
                    r.reply = "ok"
                    r.lazy = True
                    _note(res, ranks, r, ("pause",))
                elif kind == "event":
                    r.reply = "ok"
                    _note(res, ranks, r, ("event",) + tuple(req[1]))
                elif kind == "coll":
                    r.state = "wait"
                    _note(res, ranks, r, ("coll", req[1]))
                    _try_coll(res, ranks)
                    if res.outcome:
                        return res
                else:
                    raise CheckError("unknown request %r" % (kind,))
                # a new message may satisfy a named receive
                for q in ranks:
                    if q.state == "wait" and q.req[0] in ("recv", "probe") \
                            and q.req[1] != ANY:
                        _try_named(res, ranks, q, mail)
                continue
            # 2. quiescent: answer one wildcard receive
            live = [q for q in ranks if q.state != "done"]
            if any(q.state == "dead" for q in ranks):
                res.outcome = "crashed"
                return res
            if not live:
                left = sum(len(m) for m in mail)
                res.outcome = "ok"
                if left:
                    res.detail = "%d messages never received" % left
                return res
            opts = []
            who = None
            for i in order:
                q = ranks[i]
                if q.state == "wait" and q.req[0] in ("recv", "probe"):
                    seen = set()
                    for k, m in enumerate(mail[q.i]):
                        if m[0] in seen or not _match(q.req, m):
                            continue
                        seen.add(m[0])
                        opts.append(k)
                    if opts:
                        who = q
                        break
            if not opts:
                res.outcome = "deadlock"
                res.detail = "; ".join(
                    "rank %d %s" % (q.i, _desc(q)) for q in ranks)
                return res
            opts.sort(key=lambda k: mail[who.i][k][0])
            pick = 0
            if len(opts) > 1:
                pick = choices[depth] if depth < len(choices) else 0
                if pick >= len(opts):
                    raise CheckError("replay diverged: choice %d of %d"
                                     % (pick, len(opts)))
                res.choices.append((len(opts), pick))
                depth += 1
            _deliver(res, ranks, who, mail, opts[pick])
    finally:
        for r in ranks:
            r.sock.close()
            try:
                os.kill(r.pid, signal.SIGKILL)
            except OSError:
                pass
        for r in ranks:
            try:
                os.waitpid(r.pid, 0)
            except OSError:
                pass


def _note(res, ranks, r, ev):
    r.hist = hash((r.hist,) + tuple(str(x) for x in ev))
    res.trace.append((r.i,) + tuple(ev))
    res.states.add(hash(tuple(q.hist for q in ranks)))


def _match(req, m):
    _, src, tag = req
    return (src == ANY or m[0] == src) and (tag == ANY or m[1] == tag)


def _desc(q):
    if q.state == "done":
        return "finished"
    k = q.req[0]
    if k in ("recv", "probe"):
        return "blocked in %s(source=%s, tag=%s)" % (k, q.req[1], q.req[2])
    if k == "coll":
        return "blocked in %s" % q.req[1]
    return "blocked in send to %s (tag %s)" % (q.req[1], q.req[2])


def _try_named(res, ranks, r, mail):
    for k, m in enumerate(mail[r.i]):
        if _match(r.req, m):
            _deliver(res, ranks, r, mail, k)
            return


def _deliver(res, ranks, r, mail, k):
    src, tag, data, blocking, seq = mail[r.i][k]
    if r.req[0] == "probe":
        r.reply = (src, tag, len(data))
        _note(res, ranks, r, ("probe", src, tag, seq))
    else:
        del mail[r.i][k]
        r.reply = (src, tag, data)
        _note(res, ranks, r, ("recv", src, tag, seq))
        if blocking:
            s = ranks[src]
            s.reply = "ok"
            s.state = "run"
    r.state = "run"


def _try_coll(res, ranks):
    if not all(q.state == "wait" and q.req[0] == "coll" for q in ranks):
        return
    names = {q.req[1] for q in ranks}
    if len(names) > 1:
        res.outcome = "deadlock"
        res.detail = "collective operations differ: %s" % sorted(names)
        return
    name = names.pop()
    root = ranks[0].req[3]
    if name in ("bcast", "scatter", "gather") and \
            len({q.req[3] for q in ranks}) > 1:
        res.outcome = "error"
        res.detail = "collective roots differ"
        return
    vals = [q.req[2] for q in ranks]
    for q in ranks:
        if name == "barrier":
            q.reply = pickle.dumps(None)
        elif name == "bcast":
            q.reply = vals[root]
        elif name == "gather":
            q.reply = pickle.dumps([pickle.loads(v) for v in vals]
                                   if q.i == root else None, 4)
        elif name == "allgather":
            q.reply = pickle.dumps([pickle.loads(v) for v in vals], 4)
        elif name == "scatter":
            q.reply = pickle.dumps(pickle.loads(vals[root])[q.i], 4)
        q.state = "run"


def explore(prog, size, mode="eager", order=None, prepare=None, examine=None,
            limit=None):
    """DFS over all wildcard matchings.  `prepare()` before and `examine(res)`
    after every execution; examine returns a violation text or None.
    Returns dict(runs, transitions, states(set), outcomes(set), bad=[(text, choices)],
    complete)."""
    st = dict(runs=0, transitions=0, states=set(), outcomes=set(), bad=[],
              complete=True, maxbranch=1)
    todo = [()]
    while todo:
        if limit and st["runs"] >= limit:
            st["complete"] = False
            break
        pre = todo.pop()
        if prepare:
            prepare()
        res = run_once(prog, size, mode, order, pre)
        st["runs"] += 1
        st["transitions"] += len(res.trace)
        st["states"] |= {hash((size, mode, tuple(order or ()), s))
                         for s in res.states}
        taken = tuple(c for _, c in res.choices)
        if taken[:len(pre)] != tuple(pre):
            raise CheckError("replay diverged")
        text = None
        if res.outcome != "ok":
            text = "%s: %s" % (res.outcome, res.detail)
        elif examine:
            text = examine(res)
        if text:
            st["bad"].append((text, list(taken)))
            break
        for d in range(len(pre), len(taken)):
            n = res.choices[d][0]
            for alt in range(1, n):
                todo.append(taken[:d] + (alt,))
        st["last_choices"] = taken
        st["last_trace"] = res.trace
    return st


def orders(size):
    return list(itertools.permutations(range(size)))
