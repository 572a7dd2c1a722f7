"""P04: every force request is evaluated by one client at a time and is answered, whatever clients come, go or fail."""
import os
import shutil
import socket as _socket
import struct
import sys
import tempfile
import threading
import time as _time
from concurrent.futures import Future

import numpy as np

from pyvc.contracts import contract
import ipi.interfaces.sockets as S
import ipi.engine.forcefields as FF
from ipi.engine.forcefields import ForceRequest
from ipi.utils.messages import verbosity

verbosity.level = "quiet"
LEVEL = "exploration"
F = "ipi/interfaces/sockets.py:InterfaceSocket."
E_ = "ipi/engine/forcefields.py:"
WHY = ("the pool is checked against the contract of a client (every outcome of every exchange, any delay) from every kind of consistent "
       "state, for up to 6 requests and 5 clients; thread schedules are sampled")
ASSUMPTIONS = ["clients obey the Driver contract checked under P03", "up to 6 requests and 5 clients; schedules and failures sampled",
               "the lock match mode may wait for a client that never comes back, by design"]
St = S.Status
READY = St.Up | St.Ready


def make_request(rid, rng, status="Queued"):
    return ForceRequest(dict(id=rid, pos=np.array([rng.random(), rng.random(), rng.random()]), active=np.arange(3),
                             cell=(np.eye(3), np.eye(3)), pars=" ", result=None, status=status, start=-1, t_queued=0.0,
                             t_dispatched=0.0, t_finished=0.0, offset=0.0))


class Hang(Exception):
    pass


class Client:
    """Stands for a Driver: does what its contract allows, chosen at random."""

    def __init__(self, w, k, status=READY, lastreq=None, healthy=False):
        self.w, self.k, self.status, self.lastreq, self.healthy = w, k, status, lastreq, healthy
        self.locked, self.peername, self.batch_size, self.exit_on_disconnect, self.waitstatus = False, "c%d" % k, 1, False, False
        self.job = None
        self.delay = 0
        self.futures = []
        self.open = True

    def fileno(self):
        return 1000 + self.k if self.open else -1

    def __repr__(self):
        return "client%d(status=%d)" % (self.k, self.status)

    def _rid(self, r):
        return r if isinstance(r, list) else [r]

    def _begin(self, r):
        w = self.w
        for x in self._rid(r):
            w.ctx.ensure("a request is given out only while it waits", x["status"] == "Running" and x in w.iface.requests)
            w.ctx.ensure("a request is with one client at a time", all(x not in o._rid(o.job or []) for o in w.cl))
            w.ctx.ensure("the offset travels with the request", x["offset"] == w.iface.offset)
            w.given.append((self, x))
            x["t_dispatched"] = w.now
        w.ctx.ensure("a client has one job at a time", self.job is None)
        w.ctx.ensure("only a connected client is used", self.open and self.status & St.Up)
        if w.iface.match_mode == "lock" and w.iface.batch_size == 1:
            x = self._rid(r)[0]
            w.ctx.ensure("lock mode keeps each replica on its client", self.lastreq == x["id"] or (
                self.lastreq is None and not any(o.lastreq == x["id"] for o in w.iface.clients)))

    def _outcome(self, opts):
        return "ok" if self.healthy else self.w.rng.choice(opts)

    def _after(self):
        if self.healthy:
            return self.w.rng.choice([READY, St.Up | St.NeedsInit])
        return self.w.rng.choice([READY, READY, St.Up | St.NeedsInit, St.Disconnected])

    def _finish(self, r):
        w = self.w
        after = self._after()
        for x in self._rid(r):
            x["result"] = [float(x["pos"].sum()) - x["offset"], -x["pos"], np.eye(3), {"by": self.k}]
            x["t_finished"] = w.now
            self.lastreq = x["id"]
            w.answers.append(x)
        self.status = after
        self.job = None
        for x in self._rid(r):
            x["status"] = "Done"
            x._event_done.set()

    # consolidated messages
    def dispatch_send(self, r):
        self._begin(r)
        o = self._outcome(["ok", "ok", "ok", "fail", "timeout"])
        if o != "ok":
            self.status = St.Disconnected if o == "fail" else St.Timeout
            return False
        for x in self._rid(r):
            x["start"] = self.w.now
        self.status = St.Up | St.HasData
        self.job = r
        self.delay = self.w.rng.randint(0, 3)
        self.hangs = (not self.healthy) and self.w.iface.timeout > 0 and self.w.rng.random() < 0.15
        return True

    dispatch_send_batch = dispatch_send

    def dispatch_recv(self, r):
        self.w.ctx.ensure("collected from the client that has it", self.job is r)
        if self._outcome(["ok", "ok", "ok", "fail"]) == "fail":
            self.status = St.Disconnected
            self.job = None
            return False
        self._finish(r)
        return True

    dispatch_recv_batch = dispatch_recv

    # threaded
    def dispatch(self, r):
        self._begin(r)
        self.job = r
        o = self._outcome(["ok", "ok", "ok", "early", "dead", "up", "raise", "slow"] + (["hang"] if self.w.iface.timeout > 0 else []))
        if o == "early":
            self.job = None
            self.status = self.w.rng.choice([St.Disconnected, St.Up])
            return
        r["start"] = self.w.now
        if o in ("slow", "hang"):
            self.status = St.Up | St.Busy
            self.delay = self.w.rng.randint(1, 6) if o == "slow" else 10 ** 9
            raise Hang()
        if o == "ok":
            self._finish(r)
            return
        self.job = None
        if o == "raise":
            raise S.InvalidSize
        self.status = {"dead": St.Disconnected, "up": St.Up | St.Busy}[o]

    def get_status(self):
        return self.status

    def shutdown(self, how=0):
        self.status = St.Disconnected
        self._drop()
        if self.w.rng.random() < 0.3:
            raise _socket.error("broken pipe")

    def close(self):
        self.open = False
        self._drop()

    def _drop(self):
        r, self.job = self.job, None
        for f in self.futures:
            if not f.done() and not any(z[2] is f for z in self.w.zombies):
                if r is not None and self.w.rng.random() < 0.5:
                    # the thread had the answer already and is about to hand it in
                    self.w.zombies.append((self, r, f))
                else:
                    f.set_result(None)

    def _late(self, r, f):
        """what is left of a dispatch thread after its client was dropped"""
        w = self.w
        w.ctx.ensure("a late answer does not collide with another one", r["status"] == "Running" and all(r not in o._rid(o.job or []) for o in w.cl))
        r["result"] = [float(r["pos"].sum()) - r["offset"], -r["pos"], np.eye(3), {"by": self.k}]
        w.answers.append(r)
        r["status"] = "Done"
        r._event_done.set()
        f.set_result(None)


class World:
    def __init__(self, ctx, rng, cons, batch, mode, timeout):
        self.ctx, self.rng, self.now = ctx, rng, 100.0
        self.iface = S.InterfaceSocket(mode="unix", match_mode=mode, timeout=timeout, consolidate_messages=cons, batch_size=batch)
        self.iface.offset = 0.5
        self.cl, self.given, self.answers = [], [], []
        self.iface.jobs = []
        self.iface.executor = self
        self.iface.server = object()
        self.budget = 4000
        self.signals = True
        self.deferred, self.zombies = [], []

    # clock and select
    def time(self):
        self.now += 1e-4
        return self.now

    def sleep(self, t):
        self.now += t

    def strftime(self, *a):
        return ""

    def select(self, r, w, x, t=None):
        self.budget -= 1
        if self.budget < 0:
            raise RuntimeError("does not come to an end")
        self.now += 0.05
        if self.iface.server in r:
            return [], [], []
        for c in r:
            if not getattr(c, "open", True):
                raise ValueError("file descriptor cannot be a negative integer (-1)")
        if self.signals and self.rng.random() < 0.02:
            raise OSError("interrupted")
        out = []
        for c in r:
            if c.job is not None and not c.hangs:
                if c.delay <= 0:
                    out.append(c)
                c.delay -= 1
        if not out:
            self.now += 0.2
        return out, [], []

    # executor
    def submit(self, fn, *a, **k):
        f = Future()
        f.set_running_or_notify_cancel()
        if self.rng.random() < 0.3:
            self.deferred.append((fn, a, k, f))         # no worker is free yet
        else:
            self.launch(fn, a, k, f)
        return f

    def wait(self, fs, *a, **k):
        for d in [d for d in self.deferred if d[3] in fs]:
            self.deferred.remove(d)
            self.launch(*d)
        for z in [z for z in self.zombies if z[2] in fs]:
            self.zombies.remove(z)
            z[0]._late(*z[1:])
        for f in fs:
            if not f.done():
                raise RuntimeError("waits for ever for a dispatch thread")

    def launch(self, fn, a, k, f):
        c = fn.__self__
        if not c.status & St.Up:
            f.set_result(None)
            return
        try:
            f.set_result(fn(*a, **k))
        except Hang:
            c.futures.append(f)
        except Exception as ex:
            f.set_exception(ex)

    def tick(self):
        """progress of the dispatch threads"""
        self.now += 0.3
        for d in self.deferred[:]:
            if self.rng.random() < 0.6:
                self.deferred.remove(d)
                self.launch(*d)
        for z in self.zombies[:]:
            if self.rng.random() < 0.6:
                self.zombies.remove(z)
                z[0]._late(*z[1:])
        for c in self.cl:
            if c.job is not None and c.futures and not c.futures[-1].done():
                c.delay -= 1
                if c.delay <= 0:
                    if not c.healthy and self.rng.random() < 0.3:
                        # gone after sending its answer, that the thread is about to hand in
                        self.zombies.append((c, c.job, c.futures[-1]))
                        c.status, c.job = St.Disconnected, None
                        continue
                    if c.healthy or self.rng.random() < 0.7:
                        c._finish(c.job)
                    else:
                        c.status, c.job = St.Disconnected, None
                    c.futures[-1].set_result(None)

    def invariant(self, when):
        it, ctx = self.iface, self.ctx
        inj = [x for j in it.jobs for x in (j[0] if isinstance(j[0], list) else [j[0]])]
        for r in it.requests:
            n = sum(1 for x in inj if x is r)
            ctx.ensure("%s: known status" % when, r["status"] in ("Queued", "Running", "Done"))
            if r["status"] == "Running":
                ctx.ensure("%s: a running request is in exactly one job" % when, n == 1)
            if r["status"] == "Queued":
                ctx.ensure("%s: a waiting request is in no job" % when, n == 0 and r["result"] is None or n == 0)
            if r["status"] == "Done":
                ctx.ensure("%s: an answered request has its own result" % when, r["result"] is not None and
                           abs(r["result"][0] - (r["pos"].sum() - it.offset)) < 1e-12 and bool(np.all(r["result"][1] == -r["pos"])))
        cs = [id(j[1]) for j in it.jobs]
        ctx.ensure("%s: one job per client" % when, len(cs) == len(set(cs)))
        ctx.ensure("%s: jobs are with clients that are connected" % when, all(j[1].open for j in it.jobs))
        for x in self.answers:
            ctx.ensure("%s: an answer is never thrown away" % when, x["status"] == "Done")


class patched:
    def __init__(self, w):
        self.w = w

    def __enter__(self):
        self.o = S.time, S.select, S.wait
        S.time, S.select, S.wait = self.w, self.w, self.w.wait

    def __exit__(self, *a):
        S.time, S.select, S.wait = self.o


@contract("P04", "pool-keeps-every-request", [F + "poll", F + "pool_update", F + "pool_distribute", F + "_pool_distribute_select",
                                              F + "dispatch_free_client", F + "_dispatch_free_client_batch", F + "check_job_finished",
                                              F + "_requeue_disconnected"], sym=False, samples=(2500, 30000), limit=150, why=WHY)
def _pool(ctx):
    """from any consistent state and for any behaviour of the clients: a request waits, or is with exactly one connected client, or is
    answered; it is given out only while it waits; answers are kept; and with one reliable client all are answered"""
    rng = ctx.rng
    cons = ctx.choice("consolidate", [True, False])
    batch = ctx.choice("batch", [1, 2, 3]) if cons else 1
    mode = ctx.choice("match", ["auto", "any", "lock"])
    timeout = ctx.choice("timeout", [0.0, 2.0])
    w = World(ctx, rng, cons, batch, mode, timeout)
    it = w.iface
    nr, nc = rng.randint(1, 6), rng.randint(1, 5)
    it.requests = [make_request(i + 400, rng) for i in range(nr)]
    ids = [r["id"] for r in it.requests]
    w.cl = [Client(w, k, status=rng.choice([READY, READY, St.Up | St.NeedsInit, St.Disconnected, St.Timeout]),
                   lastreq=rng.choice([None] + ids)) for k in range(nc)]
    for c in w.cl:
        c.locked = c.lastreq is not None and rng.random() < 0.5
        c.batch_size = batch
    if mode == "lock":
        seen = set()
        for c in w.cl:
            if c.lastreq in seen:
                c.lastreq = None
            seen.add(c.lastreq)
    h = rng.choice(w.cl)
    h.healthy, h.status = True, rng.choice([READY, St.Up | St.NeedsInit])
    it.clients = list(w.cl)
    # some requests already running or answered
    many = rng.random() < 0.4
    for r in it.requests:
        k = rng.random() * (0.25 if many else 1.0)
        free = [c for c in w.cl if c.job is None and c.status & St.Up]
        if k < 0.2 and free:
            c = rng.choice(free)
            if mode == "lock" and not (c.lastreq == r["id"] or (c.lastreq is None and not any(o.lastreq == r["id"] for o in w.cl))):
                continue
            r["status"], r["start"] = "Running", w.now
            r["offset"] = it.offset
            c.delay, c.hangs = rng.randint(0, 2), False
            if timeout > 0 and not c.healthy and rng.random() < 0.5:
                # silent for a while already
                r["start"] = w.now - rng.choice([0.0, 0.5, 1.0]) * 2 * timeout
                c.delay, c.hangs = 10 ** 9, True
            if cons:
                c.job = [r] if batch > 1 else r
                c.status = St.Up | St.HasData
                it.jobs.append([c.job, c, None])
            else:
                c.job = r
                c.status = St.Up | St.Busy
                f = Future()
                f.set_running_or_notify_cancel()
                c.futures.append(f)
                it.jobs.append([r, c, f])
        elif k < 0.3:
            r["offset"] = it.offset
            r["result"] = [float(r["pos"].sum()) - it.offset, -r["pos"], np.eye(3), {}]
            r["status"] = "Done"
            r._event_done.set()
            w.answers.append(r)
    if mode != "lock" and rng.random() < 0.3:
        it.prlist = [r for r in it.requests if r["status"] == "Queued"][: rng.randint(0, nr)]
    with patched(w):
        for n in range(150):
            it.poll()
            w.invariant("after poll")
            if not cons:
                w.tick()
            if all(r["status"] == "Done" for r in it.requests) and n > 3:
                break
        for c in it.clients:
            ctx.ensure("clients stay in the list once", it.clients.count(c) == 1)
        if mode != "lock":
            ctx.ensure("all requests answered (statuses %r, clients %r, jobs %d)" % (
                [r["status"] for r in it.requests], [c.status for c in it.clients], len(it.jobs)),
                all(r["status"] == "Done" for r in it.requests))
        else:
            for r in it.requests:
                if h.lastreq == r["id"]:
                    ctx.ensure("the locked request is answered by its client", r["status"] == "Done")
    ctx.ensure("the reliable client is kept", h in it.clients)


@contract("P04", "slow-clients-hold-nobody-up", [F + "pool_distribute", F + "_pool_distribute_select", F + "poll"], sym=False, samples=(200, 1500), why=WHY)
def _slow(ctx):
    """while some clients take for ever over their own request, all other requests, also ones that arrive meanwhile, are answered by the clients
    that are free or become free"""
    rng = ctx.rng
    cons = ctx.choice("consolidate", [True, False])
    batch = ctx.choice("batch", [1, 2]) if cons else 1
    mode = ctx.choice("match", ["auto", "any"])
    w = World(ctx, rng, cons, batch, mode, 0.0)
    it = w.iface
    nslow, nfree, nr = rng.randint(1, 2), rng.randint(1, 2), rng.randint(0, 5)
    stuck = [make_request(500 + i, rng, "Running") for i in range(nslow)]
    it.requests = stuck + [make_request(400 + i, rng) for i in range(nr)]
    w.cl = [Client(w, k, healthy=True) for k in range(nslow + nfree)]
    rng.shuffle(w.cl)
    for r, c in zip(stuck, w.cl):
        r["start"], r["offset"] = w.now, it.offset
        c.hangs, c.delay = True, 10 ** 9
        if cons:
            c.job, c.status = [r] if batch > 1 else r, St.Up | St.HasData
            it.jobs.append([c.job, c, None])
        else:
            c.job, c.status = r, St.Up | St.Busy
            f = Future()
            f.set_running_or_notify_cancel()
            c.futures.append(f)
            it.jobs.append([r, c, f])
    it.clients = list(w.cl)
    late = [make_request(600 + i, rng) for i in range(rng.randint(0, 2))]
    at = sorted(rng.randint(1, 30) for _ in late)
    count = [0]
    plain = w.select

    def select(r, *a):
        count[0] += 1
        while at and count[0] >= at[0]:
            at.pop(0)
            it.requests.append(late[len(late) - len(at) - 1])
        ok = not all(x["status"] == "Done" for x in it.requests if x not in stuck) or at
        if not ok or w.budget < 10:
            raise Enough()
        return plain(r, *a)
    w.select = select
    w.budget = 1000
    w.signals = False
    with patched(w):
        try:
            for _ in range(200):
                it.poll()
                w.invariant("after poll")
                if not cons:
                    w.tick()
                    if at:
                        select([], [], [])
        except Enough:
            pass
    ctx.ensure("answered: %r" % [x["status"] for x in it.requests], all(x["status"] == "Done" for x in it.requests if x not in stuck))


class Enough(Exception):
    pass


@contract("P04", "replica-affinity", [F + "dispatch_free_client", F + "pool_distribute"], sym=False, samples=(100, 500), why=WHY)
def _affinity(ctx):
    """with automatic or locked matching, a replica goes back to the client that did it last when that client is free"""
    rng = ctx.rng
    cons = ctx.choice("consolidate", [True, False])
    mode = ctx.choice("match", ["auto", "lock"])
    n = rng.randint(1, 4)
    w = World(ctx, rng, cons, 1, mode, 0.0)
    w.iface.requests = [make_request(i + 400, rng) for i in range(n)]
    ids = [r["id"] for r in w.iface.requests]
    rng.shuffle(ids)
    w.cl = [Client(w, k, lastreq=i, healthy=True) for k, i in enumerate(ids)]
    w.iface.clients = list(w.cl)
    with patched(w):
        for _ in range(10):
            w.iface.poll()
            w.tick()
    ctx.ensure("answered", all(r["status"] == "Done" for r in w.iface.requests))
    for c, r in w.given:
        ctx.ensure("same client", ids[c.k] == r["id"])
    ctx.ensure("once each", len(w.given) == n)


@contract("P04", "client-knows-its-replica", ["ipi/interfaces/sockets.py:Driver.dispatch", "ipi/interfaces/sockets.py:Driver.dispatch_recv", "ipi/interfaces/sockets.py:Driver.dispatch_recv_batch"],
          sym=False, samples=(30, 100), why=WHY)
def _last(ctx):
    """a client is known by the replica it served last, whatever it served before"""
    from checks import p03 as W
    rng = ctx.rng
    how = ctx.choice("how", ["recv", "batch", "dispatch"])
    ids = [rng.randint(0, 10 ** 6) for _ in range(rng.randint(1, 4))]
    res = [W._result(ctx, 1) for _ in ids]
    after = b"READY       "
    one = {"recv": lambda x: W._enc(x, 1) + after, "batch": lambda x: W._enc_batch([x], 1) + after,
           "dispatch": lambda x: after + b"HAVEDATA    " + W._enc(x, 1) + after}[how]
    old, S.select = S.select, W._Sel
    try:
        d = W.driver(W.Wire(b"".join(one(x) for x in res), eof=False), status=READY)
        try:
            for i, x in zip(ids, res):
                r = W._request(ctx, 1, rid=i)
                if how == "recv":
                    ctx.ensure("sent", d.dispatch_send(r))
                    ok = d.dispatch_recv(r)
                elif how == "batch":
                    ctx.ensure("sent", d.dispatch_send_batch([r]))
                    ok = d.dispatch_recv_batch([r])
                else:
                    d.dispatch(r)
                    ok = r["status"] == "Done"
                ctx.ensure("answered", ok and r["status"] == "Done")
                ctx.ensure("remembers %d" % i, d.lastreq == i)
        finally:
            W.shut(d)
    finally:
        S.select = old


# ------------------------------------------------------------------ live sockets
class Peer(threading.Thread):
    """A force client over a real socket, failing in a given way."""

    def __init__(self, path, kind, arg=0, batch=1):
        threading.Thread.__init__(self, daemon=True)
        self.path, self.kind, self.arg, self.batch = path, kind, arg, batch
        self.served = 0
        self.err = None

    def rd(self, s, n):
        b = b""
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x:
                raise EOFError
            b += x
        return b

    def run(self):
        try:
            s = _socket.socket(_socket.AF_UNIX, _socket.SOCK_STREAM)
            s.connect(self.path)
            self.loop(s)
        except (EOFError, OSError):
            pass
        except BaseException as ex:
            self.err = ex
        finally:
            s.close()

    def loop(self, s):
        ini, have = False, None
        while True:
            h = self.rd(s, 12).strip().decode()
            if h == "EXIT":
                return
            if h == "STATUS":
                if self.kind == "mute":
                    _time.sleep(0.3)
                    return
                if self.kind == "die-status" and self.served >= self.arg:
                    return
                m = b"NEEDINIT" if not ini else (b"HAVEDATA" if have else b"READY")
                if self.kind == "garbage" and ini and self.served >= self.arg:
                    m = b"WHATISTHIS"
                m = m.ljust(12)
                s.sendall(m[:5])
                if self.kind == "pieces":
                    _time.sleep(0.002)
                s.sendall(m[5:])
            elif h == "INIT":
                r, n = struct.unpack("<ii", self.rd(s, 8))
                self.rd(s, n)
                ini = True
                if self.kind == "die-init":
                    return
            elif h == "POSDATA":
                if self.batch > 1:
                    nat, = struct.unpack("<i", self.rd(s, 4))
                    self.rd(s, 144 * self.batch)
                    pos = np.frombuffer(self.rd(s, 24 * nat * self.batch)).reshape(self.batch, -1)
                else:
                    self.rd(s, 144)
                    nat, = struct.unpack("<i", self.rd(s, 4))
                    pos = np.frombuffer(self.rd(s, 24 * nat)).reshape(1, -1)
                if self.served >= self.arg:
                    if self.kind == "die-pos":
                        return
                    if self.kind == "hang":
                        _time.sleep(4)
                        return
                if self.kind == "slow":
                    _time.sleep(0.02)
                have = (nat, pos)
            elif h == "GETFORCE":
                nat, pos = have
                m = b"FORCEREADY  " + pos.sum(axis=1).tobytes() + struct.pack("<i", nat) + (-pos).tobytes() + np.zeros((len(pos), 9)).tobytes()
                m += struct.pack("<i", 0) * len(pos)
                if self.kind == "die-mid" and self.served >= 1:
                    s.sendall(m[: self.arg % len(m)])
                    return
                if self.kind == "pieces":
                    for i in range(0, len(m), 50):
                        s.sendall(m[i:i + 50])
                else:
                    s.sendall(m)
                self.served += 1
                have = None
                if self.kind == "needinit":
                    ini = False
                if self.kind == "die-after" and self.served >= self.arg:
                    return


class Cell:
    def __init__(self):
        self.h = np.eye(3) * 10.0
        self.ih = np.eye(3) / 10.0

    def array_pbc(self, q):
        pass


class Atoms:
    def __init__(self, q):
        self.q = q


@contract("P04", "live-clients", [F + "open", F + "poll", F + "pool_update", F + "pool_distribute", F + "close", E_ + "FFSocket.poll", E_ + "ForceField.queue",
                                  E_ + "ForceField.release", E_ + "ForceField._poll_loop"], sym=False, samples=(28, 200), limit=170, why=WHY)
def _live(ctx):
    """real sockets and threads: clients that die at any point of an exchange, hang, answer in pieces or nonsense, or come late; as long as one
    client works, every request is answered with the result for its own positions"""
    rng = ctx.rng
    cons = ctx.choice("consolidate", [True, False])
    batch = ctx.choice("batch", [1, 2])
    ctx.assume(cons or batch == 1)
    scratch = tempfile.mkdtemp(prefix="vp")
    devnull = open(os.devnull, "w")
    out = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    ff, reg = None, None
    try:
        iface = S.InterfaceSocket(address="x", mode="unix", timeout=1.0, consolidate_messages=cons, batch_size=batch,
                                  sockets_prefix=scratch + "/", match_mode=rng.choice(["auto", "any"]))
        ff = FF.FFSocket(latency=1e-4, offset=0.25, name="f", dopbc=False, interface=iface)
        reg = FF.softexit
        FF.softexit = type("Q", (), dict(register_thread=lambda *a: None, register_function=lambda *a: None))()
        died = []
        hook = threading.excepthook
        threading.excepthook = lambda a: died.append(a.exc_value)
        ff.start()
        bad = [rng.choice(["die-status", "die-init", "die-pos", "die-mid", "die-after", "hang", "garbage", "mute"]) for _ in range(rng.randint(0, 2))]
        good = [rng.choice(["ok", "pieces", "needinit", "slow"]) for _ in range(rng.randint(1, 2))]
        peers = [Peer(scratch + "/x", k, rng.randint(0, 2) if k != "die-mid" else rng.randint(0, 150), batch) for k in bad + good]
        rng.shuffle(peers)
        late = peers.pop() if len(peers) > 1 and rng.random() < 0.3 else None
        for p in peers:
            p.start()
        n = rng.randint(1, 5)
        for rnd in range(3):
            rs = [ff.queue(Atoms(np.array([rng.random() for _ in range(6)])), Cell(), reqid=300 + i) for i in range(n)]
            if late is not None and rnd == 1:
                late.start()
                late = None
            t0 = _time.time()
            while _time.time() - t0 < 25 and not all(r["status"] == "Done" for r in rs) and not died:
                _time.sleep(0.002)
            ctx.ensure("the polling thread survives (clients %r): %r" % (bad + good, died[:1]), not died)
            ctx.ensure("every request is answered (clients %r, round %d, statuses %r, jobs %d)" % (
                [p.kind + str(p.arg) for p in peers], rnd, [r["status"] for r in rs], len(iface.jobs)), all(r["status"] == "Done" for r in rs))
            for r in rs:
                ctx.ensure("with its own energy", abs(r["result"][0] - (r["pos"].sum() - 0.25)) < 1e-12)
                ctx.ensure("and its own forces", bool(np.all(r["result"][1] == -r["pos"])))
                ff.release(r)
                ctx.ensure("released", r not in ff.requests)
        ctx.ensure("queue empty", len(ff.requests) == 0)
        ff.stop()
        ctx.ensure("socket file removed", not os.path.exists(scratch + "/x"))
        for p in peers:
            p.join(6)
            ctx.ensure("clients are told to leave (%s): %r" % (p.kind, p.err), not p.is_alive() and p.err is None)
    finally:
        if ff is not None:
            ff._doloop[0] = False
        if reg is not None:
            FF.softexit = reg
            threading.excepthook = hook
        sys.stdout, sys.stderr = out
        devnull.close()
        try:
            iface.server.close()
            iface.executor.shutdown(wait=False)
        except Exception:
            pass
        shutil.rmtree(scratch, ignore_errors=True)


@contract("P04", "queue-and-release", [E_ + "ForceField.queue", E_ + "ForceField.release", E_ + "ForceField.poll", E_ + "ForceRequest.__eq__"],
          sym=False, samples=(100, 800), why="lists of requests with equal contents; sampled histories")
def _rel(ctx):
    """requests with equal contents are still different requests: releasing one removes that one and no other, each is answered"""
    rng = ctx.rng
    ff = FF.ForceField(latency=0, offset=rng.choice([0.0, 1.5]), name="f", dopbc=False, threaded=rng.choice([True, False]))
    q = np.array([rng.random() for _ in range(6)])
    live = []
    for _ in range(rng.randint(3, 15)):
        if rng.random() < 0.6 or not live:
            a = Atoms(q if rng.random() < 0.7 else q + 1)
            r = ff.queue(a, Cell(), reqid=rng.choice([0, 0, 1]))
            ctx.ensure("positions are a copy", r["pos"] is not a.q and bool(np.all(r["pos"] == a.q)))
            ctx.ensure("queued or answered at once", r["status"] == ("Queued" if ff.threaded else "Done"))
            live.append(r)
        elif rng.random() < 0.4:
            ff.poll()
            ctx.ensure("all answered", all(r["status"] == "Done" and r._event_done.is_set() and r["result"][0] == -ff.offset for r in live))
        else:
            r = live.pop(rng.randrange(len(live)))
            ff.release(r)
        ctx.ensure("exactly the live requests are kept", len(ff.requests) == len(live) and all(any(x is r for x in ff.requests) for r in live))
