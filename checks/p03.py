"""P03: what travels between i-PI and a force client arrives bit for bit, however the bytes are cut up."""
import importlib.util
import json
import os
import shutil
import socket as _socket
import struct
import sys
import tempfile
import threading
import types

import numpy as np

from pyvc.contracts import contract
import ipi.interfaces.sockets as S
import ipi.interfaces.mpi as M
import ipi.interfaces.utils as U
from ipi.engine.forcefields import ForceRequest
from ipi.utils.messages import verbosity

verbosity.level = "quiet"
LEVEL = "exploration"
F = "ipi/interfaces/sockets.py:"
G = "ipi/interfaces/mpi.py:"
D = "drivers/py/driver.py:"
WHY = "byte streams and operating-system sockets: every cut, timeout and end-of-stream position of the sampled messages is run"
ASSUMPTIONS = ["the operating system delivers the bytes of a stream socket in order; little-endian IEEE numbers on both sides",
               "message contents are sampled; cut points, timeouts and end-of-stream positions of each sampled message are exhaustive"]


class Wire:
    """The other end of the connection: an incoming byte stream delivered in given pieces."""

    def __init__(self, data=b"", cuts=(), timeouts=(), eof=True, step=None):
        self.data, self.pos, self.eof = data, 0, eof
        self.cuts = sorted(set(cuts))
        self.timeouts = set(timeouts)
        self.step = step
        self.sent = b""
        self.ends = 0

    def take(self, n):
        if self.pos in self.timeouts:
            self.timeouts.discard(self.pos)
            raise _socket.timeout("timed out")
        if self.pos >= len(self.data):
            if self.eof:
                self.ends += 1
                if self.ends > 40:
                    raise RuntimeError("keeps reading from a closed connection")
                return b""
            raise AssertionError("read past the message: would block for ever")
        end = min(len(self.data), self.pos + n)
        for c in self.cuts:
            if self.pos < c < end:
                end = c
                break
        if self.step:
            end = min(end, self.pos + self.step)
        out = self.data[self.pos:end]
        self.pos = end
        return out


def _mixin(cls):
    class T(cls):
        wire = None

        def recv(self, n, flags=0):
            return self.wire.take(n)

        def recv_into(self, buf, nbytes=0, flags=0):
            mv = memoryview(buf).cast("B")
            b = self.wire.take(nbytes or len(mv))
            mv[: len(b)] = b
            return len(b)

        def send(self, b, flags=0):
            self.wire.sent += bytes(b)
            return len(bytes(b))

        def sendall(self, b, flags=0):
            self.wire.sent += bytes(b)
    return T


class _Sel:
    @staticmethod
    def select(r, w, x, t=None):
        return list(r), list(w), []


def driver(wire, cls=None, status=None):
    a, b = _socket.socketpair()
    d = _mixin(cls or S.Driver)(a)
    d.wire = wire
    d._peer = (a, b)
    if status is not None:
        d.status = status
    return d


def shut(d):
    try:
        if hasattr(d, "_free_shm"):
            d._free_shm()
        d.close()
    finally:
        for x in d._peer:
            x.close()


EXTRAS = ["", " ", "plain text", json.dumps({"dipole": [0.1, -2.5, 3e-9], "q": 1}), "3.14", "[1, 2]", '"str"', "null", "true",
          "\u00e9lectron \u212b", json.dumps({"x": "\u00e9"}, ensure_ascii=False), "{broken", "\n\t"]


def _extra_ok(ctx, got, sent):
    """the dictionary i-PI makes out of the optional string"""
    if sent.strip() == "":
        ctx.ensure("no extras", got == {})
        return
    want = {}
    try:
        v = json.loads(sent)
        if isinstance(v, dict):
            want = dict(v)
    except ValueError:
        pass
    want["raw"] = sent
    ctx.ensure("extras %r" % sent, got == want)


def _numbers(ctx, n):
    x = np.array([ctx.rng.gauss(0, 10.0 ** ctx.rng.randint(-8, 8)) for _ in range(n)], float)
    if n and ctx.rng.random() < 0.2:
        x[ctx.rng.randrange(n)] = ctx.rng.choice([0.0, -0.0, 1e308, 5e-324, np.inf])
    return x


def _same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and a.tobytes() == b.tobytes()


def _result(ctx, nat):
    return float(_numbers(ctx, 1)[0]), _numbers(ctx, 3 * nat), _numbers(ctx, 9).reshape(3, 3), ctx.rng.choice(EXTRAS)


def _enc(res, nat):
    u, f, v, x = res
    e = x.encode("utf-8")
    return (b"FORCEREADY  " + struct.pack("<d", u) + struct.pack("<i", nat) + f.tobytes() + v.tobytes() + struct.pack("<i", len(e)) + e)


def _enc_batch(rs, nat):
    o = b"FORCEREADY  " + b"".join(struct.pack("<d", r[0]) for r in rs) + struct.pack("<i", nat)
    o += b"".join(r[1].tobytes() for r in rs) + b"".join(r[2].tobytes() for r in rs)
    for r in rs:
        e = r[3].encode("utf-8")
        o += struct.pack("<i", len(e)) + e
    return o


def _request(ctx, nat, active=None, rid=3, off=0.0):
    pos = _numbers(ctx, 3 * nat)
    h = _numbers(ctx, 9).reshape(3, 3)
    ih = _numbers(ctx, 9).reshape(3, 3)
    act = np.arange(3 * nat) if active is None else np.array([3 * a + k for a in active for k in range(3)])
    return ForceRequest(dict(id=rid, pos=pos, active=act, cell=(h, ih), pars=" par : 1 , ", result=None, status="Running", start=-1,
                             t_queued=0.0, t_dispatched=0.0, t_finished=0.0, offset=off))


class _quiet:
    def __enter__(self):
        self.o = sys.stdout, sys.stderr
        self.f = open(os.devnull, "w")
        sys.stdout = sys.stderr = self.f
        self.sel = S.select
        S.select = _Sel
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.o
        self.f.close()
        S.select = self.sel


def _deliveries(ctx, n, fine=True):
    """delivery schedules of a message of n bytes: whole, byte by byte, every single cut with and without a timeout there, random"""
    yield dict()
    yield dict(step=1)
    ks = list(range(1, n))
    if len(ks) > 90:
        ks = sorted(ctx.rng.sample(ks, 60) + ks[:15] + ks[-15:])
    for k in ks:
        yield dict(cuts=[k])
        yield dict(cuts=[k], timeouts=[k])
    yield dict(timeouts=[0])
    for _ in range(10):
        c = sorted(ctx.rng.sample(range(1, n), min(n - 1, ctx.rng.randint(2, 8))))
        yield dict(cuts=c, timeouts=[x for x in c if ctx.rng.random() < 0.5])


def _finish(ctx, label, w, size):
    ctx.ensure(label + ": reads the message and not one byte more", w.pos == size)


@contract("P03", "single-results", [F + "Driver.getforce", F + "Driver._recv_force_data", F + "Driver._recv_forces_bulk", F + "Driver._recv_forceready",
                                    F + "DriverSocket.recvall", F + "DriverSocket.recv_msg", F + "Driver.dispatch_recv"],
          sym=False, samples=(6, 60), limit=200, why=WHY)
def _single(ctx):
    """energy, forces, virial and extras of one structure are decoded bit for bit, for every way of cutting the stream, with the
    energy offset removed and the forces of a partial system put back on the right atoms"""
    nat = ctx.choice("nat", [1, 2, 5])
    act = ctx.choice("active", [None, "some"])
    active = None if act is None else sorted(ctx.rng.sample(range(nat), ctx.rng.randint(1, nat)))
    na = nat if active is None else len(active)
    res = _result(ctx, na)
    off = ctx.choice("offset", [0.0, 2.5])
    msg = _enc(res, na)
    tail = b"READY       "
    want_f = np.zeros(3 * nat)
    r0 = _request(ctx, nat, active, off=off)
    want_f[r0["active"]] = res[1]
    with _quiet():
        for how in ("bulk", "legacy"):
            for dl in _deliveries(ctx, len(msg)):
                w = Wire(msg + tail, eof=False, **dl)
                d = driver(w, status=S.Status.Up | S.Status.HasData)
                try:
                    lab = "%s %r" % (how, dl)
                    if how == "legacy":
                        u, f, v, x = d.getforce()
                        ctx.ensure(lab + ": request", w.sent == b"GETFORCE    ")
                        ctx.ensure(lab + ": energy", _same(u, res[0]))
                        ctx.ensure(lab + ": forces", _same(np.asarray(f).flatten(), res[1]))
                        _finish(ctx, lab, w, len(msg))
                    else:
                        r = _request(ctx, nat, active, off=off)
                        d.waitstatus = False
                        ok = d.dispatch_recv(r)
                        ctx.ensure(lab + ": accepted", ok is True and r["status"] == "Done" and r._event_done.is_set())
                        u, f, v, x = r["result"]
                        ctx.ensure(lab + ": energy minus offset", u == res[0] - off)
                        ctx.ensure(lab + ": forces", _same(f, want_f))
                        ctx.ensure(lab + ": next status", d.status == S.Status.Up | S.Status.Ready and w.sent == b"STATUS      ")
                        _finish(ctx, lab, w, len(msg + tail))
                    ctx.ensure(lab + ": virial", _same(v, res[2]))
                    _extra_ok(ctx, x, res[3])
                finally:
                    shut(d)


@contract("P03", "truncated-results", [F + "Driver.dispatch_recv", F + "Driver.getforce", F + "Driver.dispatch_recv_batch",
                                       F + "DriverSocket.recvall"], sym=False, samples=(4, 30), limit=200, why=WHY)
def _trunc(ctx):
    """if the client goes away after any number of bytes, no result is reported and the client is marked as gone"""
    nat = ctx.choice("nat", [1, 2])
    res = _result(ctx, nat)
    nb = ctx.choice("batch", [1, 2])
    msg = _enc(res, nat)
    bat = _enc_batch([_result(ctx, nat) for _ in range(nb)], nat)
    with _quiet():
        for k in range(len(msg)):
            for how in ("bulk", "legacy"):
                w = Wire(msg[:k], step=ctx.rng.choice([None, 1, 7]))
                d = driver(w, status=S.Status.Up | S.Status.HasData)
                try:
                    if how == "bulk":
                        r = _request(ctx, nat)
                        ok = d.dispatch_recv(r)
                        ctx.ensure("bulk, %d bytes: refused" % k, ok is False and r["status"] != "Done" and not r._event_done.is_set())
                        ctx.ensure("bulk, %d bytes: gone" % k, d.status == S.Status.Disconnected)
                    else:
                        try:
                            got = d.getforce()
                        except S.Disconnected:
                            got = "gone"
                        ctx.ensure("legacy, %d bytes: gone" % k, got == "gone")
                    ctx.ensure("%s, %d bytes: gives up" % (how, k), w.ends <= 40)
                finally:
                    shut(d)
        for k in range(0, len(bat), 1 if len(bat) < 150 else 3):
            w = Wire(bat[:k])
            d = driver(w, status=S.Status.Up | S.Status.HasData)
            d.batch_size = nb
            rs = [_request(ctx, nat) for _ in range(nb)]
            try:
                ok = d.dispatch_recv_batch(rs)
                ctx.ensure("batch, %d bytes: refused" % k, ok is False and all(r["status"] != "Done" for r in rs))
                ctx.ensure("batch, %d bytes: gone" % k, d.status == S.Status.Disconnected)
            finally:
                shut(d)


@contract("P03", "wrong-results", [F + "Driver.dispatch_recv", F + "Driver.dispatch_recv_batch"], sym=False, samples=(40, 400), why=WHY)
def _wrong(ctx):
    """a reply for another number of atoms, or one that does not start as a force reply, is never taken for a result"""
    nat = 2
    other = ctx.choice("other", [1, 3, 4])
    kind = ctx.choice("kind", ["size", "header"])
    nb = ctx.choice("batch", [0, 2])
    rs = [_result(ctx, other if kind == "size" else nat) for _ in range(max(nb, 1))]
    n = other if kind == "size" else nat
    msg = _enc_batch(rs, n) if nb else _enc(rs[0], n)
    if kind == "header":
        msg = ctx.choice("h", [b"HAVEDATA    ", b"forceready  ", b"FORCEREADYX "]) + msg[12:]
    with _quiet():
        d = driver(Wire(msg), status=S.Status.Up | S.Status.HasData)
        d.batch_size = max(nb, 1)
        reqs = [_request(ctx, nat) for _ in range(max(nb, 1))]
        try:
            try:
                ok = d.dispatch_recv_batch(reqs) if nb else d.dispatch_recv(reqs[0])
            except S.InvalidSize:
                ok = False
            ctx.ensure("refused", ok is False and all(r["status"] != "Done" for r in reqs))
        finally:
            shut(d)


@contract("P03", "batch-results", [F + "Driver.dispatch_recv_batch", F + "Driver._recv_forces_bulk_batch"], sym=False, samples=(6, 60),
          limit=200, why=WHY)
def _batch(ctx):
    """every structure of a batch gets its own energy, forces, virial and extras; padding is read and dropped"""
    nat = ctx.choice("nat", [1, 2])
    nb = ctx.choice("batch", [2, 3, 5])
    nreal = ctx.choice("real", [1, 2, 3, 5])
    ctx.assume(nreal <= nb)
    active = ctx.choice("active", [None, [0], [1]])
    ctx.assume(active is None or nat > 1)
    na = nat if active is None else len(active)
    rs = [_result(ctx, na) for _ in range(nb)]
    msg = _enc_batch(rs, na)
    with _quiet():
        for dl in _deliveries(ctx, len(msg)):
            w = Wire(msg + b"NEEDINIT    ", eof=False, **dl)
            d = driver(w, status=S.Status.Up | S.Status.HasData)
            d.batch_size = nb
            reqs = [_request(ctx, nat, active, rid=10 + i, off=float(i)) for i in range(nreal)]
            try:
                ok = d.dispatch_recv_batch(reqs)
                ctx.ensure("accepted", ok is True)
                for i, r in enumerate(reqs):
                    f = np.zeros(3 * nat)
                    f[r["active"]] = rs[i][1]
                    ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
                    ctx.ensure("energy %r" % dl, r["result"][0] == rs[i][0] - i)
                    ctx.ensure("forces %r" % dl, _same(r["result"][1], f))
                    ctx.ensure("virial %r" % dl, _same(r["result"][2], rs[i][2]))
                    _extra_ok(ctx, r["result"][3], rs[i][3])
                _finish(ctx, "batch", w, len(msg) + 12)
                ctx.ensure("next status", d.status == S.Status.Up | S.Status.NeedsInit)
            finally:
                shut(d)
        # results must not alias the receive buffer
        vals = [r["result"][1].copy() for r in reqs]
        ctx.ensure("kept", all(_same(a, r["result"][1]) for a, r in zip(vals, reqs)))


@contract("P03", "results-outlive-the-buffer", [F + "Driver.dispatch_recv", F + "SHMDriver._read_shm_results"], sym=False, samples=(20, 100), why=WHY)
def _alias(ctx):
    """a result already handed out does not change when the next one is received"""
    nat = 2
    shm = ctx.choice("shm", [False, True])
    a, b = _result(ctx, nat), _result(ctx, nat)
    with _quiet():
        cls = S.SHMDriver if shm else S.Driver
        w = Wire(b"", eof=False)
        d = driver(w, cls, status=S.Status.Up | S.Status.Ready)
        try:
            out = []
            for res in (a, b):
                r = _request(ctx, nat)
                w.sent = b""
                ctx.ensure("sent", d.dispatch_send(r) is True)
                if shm:
                    d._view["pot"][0], d._view["force"][0], d._view["vir"][0] = res[0], res[1], res[2]
                    e = res[3].encode()
                    m = b"FORCEREADY  " + struct.pack("<i", len(e)) + e
                else:
                    m = _enc(res, nat)
                w.data, w.pos = m + b"READY       ", 0
                ctx.ensure("received", d.dispatch_recv(r) is True)
                out.append(r["result"])
            for res, got in zip((a, b), out):
                ctx.ensure("energy", got[0] == res[0])
                ctx.ensure("forces", _same(got[1], res[1]))
                ctx.ensure("virial", _same(got[2], res[2]))
        finally:
            shut(d)


@contract("P03", "status-replies", [F + "Driver.get_status", F + "Driver._getstatus_select", F + "Driver._getstatus_direct"], sym=False,
          samples=(30, 100), why=WHY)
def _status(ctx):
    """a status reply means what the protocol says, in however many pieces it arrives; an incomplete one means the client is gone"""
    St = S.Status
    rep, want = ctx.choice("reply", [(b"READY       ", St.Up | St.Ready), (b"NEEDINIT    ", St.Up | St.NeedsInit),
                                     (b"HAVEDATA    ", St.Up | St.HasData), (b"", St.Disconnected)])
    fn = ctx.choice("fn", ["select", "direct"])
    with _quiet():
        for k in range(13):
            for to in (0, 1):
                w = Wire(rep[:12], cuts=[k], timeouts=[k] if to else [])
                d = driver(w)
                try:
                    d._getstatus = getattr(d, "_getstatus_" + fn)
                    st = d.get_status()
                    ctx.ensure("status of %r cut at %d" % (rep, k), st == want and d.status == want)
                    ctx.ensure("asked once", w.sent == b"STATUS      ")
                finally:
                    shut(d)
                if rep:
                    d = driver(Wire(rep[: min(k, 11)]))
                    try:
                        d._getstatus = getattr(d, "_getstatus_" + fn)
                        ctx.ensure("incomplete", d.get_status() == St.Disconnected)
                    finally:
                        shut(d)


@contract("P03", "positions-and-init", [F + "Driver.sendpos", F + "Driver.dispatch_send", F + "Driver.dispatch_send_batch", F + "Driver.initialize"],
          sym=False, samples=(120, 1000), why=WHY)
def _send(ctx):
    """the positions message carries the cell, its inverse, the number of atoms and the positions of the active atoms, bit for bit; the
    initialisation message the request index and the parameter string with its length"""
    nat = ctx.choice("nat", [1, 2, 4])
    active = ctx.choice("active", [None, [0], [1, 3]])
    ctx.assume(active is None or max(active) < nat)
    how = ctx.choice("how", ["sendpos", "dispatch_send", "batch"])
    need = ctx.choice("init", [False, True])
    pars = ctx.choice("pars", [" ", "", " a : 1 , b : [2] , ", " name : \u00e9\u212b , "])
    nb = ctx.choice("nb", [1, 2, 3])
    nreal = ctx.choice("nreal", [1, 2, 3])
    ctx.assume(nreal <= nb and (how == "batch") == (nb > 1))
    rid = ctx.choice("rid", [0, 7, 300])
    St = S.Status
    with _quiet():
        w = Wire(b"READY       " if need else b"", eof=False)
        d = driver(w, status=St.Up | (St.NeedsInit if need else St.Ready))
        d.batch_size = nb
        reqs = [_request(ctx, nat, active, rid=rid + i) for i in range(nreal)]
        for r in reqs:
            r["pars"] = pars
        keep = [(r["pos"].copy(), r["cell"][0].copy()) for r in reqs]
        try:
            pos = lambda r: r["pos"][r["active"]]
            if how == "sendpos":
                if need:
                    d.initialize(rid, pars)
                    d.get_status()
                d.sendpos(pos(reqs[0]), reqs[0]["cell"])
                end = b""
            elif how == "dispatch_send":
                # a client waiting for initialisation is asked for its status before and after
                if need:
                    w.data = b"NEEDINIT    READY       "
                ctx.ensure("sent", d.dispatch_send(reqs[0]) is True)
                end = b"GETFORCE    "
            else:
                if need:
                    w.data = b"NEEDINIT    READY       "
                ctx.ensure("sent", d.dispatch_send_batch(reqs) is True)
                end = b"GETFORCE    "
            s = w.sent
            if need:
                while s.startswith(b"STATUS      "):
                    s = s[12:]
                ctx.ensure("init header", s[:12] == b"INIT        ")
                i, n = struct.unpack("<ii", s[12:20])
                ctx.ensure("request index", i == rid)
                text = s[20:20 + n].decode("utf-8")
                if nb > 1:
                    p, _, b = text.rpartition("batch_size:")
                    ctx.ensure("batch announced", b == str(nb) and p.rstrip(" ,") == pars.rstrip(" ,"))
                else:
                    ctx.ensure("parameters", text == pars)
                s = s[20 + n:]
                while s.startswith(b"STATUS      "):
                    s = s[12:]
            na = len(pos(reqs[0])) // 3
            want = b"POSDATA     "
            if nb == 1:
                r = reqs[0]
                want += r["cell"][0].tobytes() + r["cell"][1].tobytes() + struct.pack("<i", na) + pos(r).tobytes()
            else:
                pad = reqs + [reqs[-1]] * (nb - nreal)
                want += struct.pack("<i", na) + b"".join(r["cell"][0].tobytes() + r["cell"][1].tobytes() for r in pad)
                want += b"".join(pos(r).tobytes() for r in pad)
            ctx.ensure("positions message", s == want + end)
            ctx.ensure("request untouched", all(_same(a, r["pos"]) and _same(b, r["cell"][0]) for (a, b), r in zip(keep, reqs)))
        finally:
            shut(d)


@contract("P03", "refuses-wrong-state", [F + "Driver.sendpos", F + "Driver.getforce", F + "Driver.initialize"], sym=False, samples=(20, 60), why=WHY)
def _state(ctx):
    """positions go only to a client that is ready, initialisation only to one that asked for it, forces are only fetched from one that has
    them; anything else is refused with the proper error and without sending anything"""
    St = S.Status
    st = ctx.choice("status", [St.Disconnected, St.Up, St.Up | St.Ready, St.Up | St.NeedsInit, St.Up | St.HasData, St.Up | St.Busy, St.Timeout])
    what = ctx.choice("what", ["sendpos", "getforce", "initialize", "shm-sendpos"])
    ok = {"sendpos": St.Ready, "shm-sendpos": St.Ready, "getforce": St.HasData, "initialize": St.NeedsInit}[what]
    ctx.assume(not (st & ok))
    with _quiet():
        w = Wire(b"")
        d = driver(w, S.SHMDriver if what == "shm-sendpos" else S.Driver, status=st)
        r = _request(ctx, 1)
        try:
            got = "accepted"
            try:
                if what == "getforce":
                    d.getforce()
                elif what == "initialize":
                    d.initialize(1, " ")
                else:
                    d.sendpos(r["pos"], r["cell"])
            except S.InvalidStatus:
                got = "InvalidStatus"
            except Exception as ex:
                got = repr(ex)
            ctx.ensure("%s with status %d: %s" % (what, st, got), got == "InvalidStatus")
            ctx.ensure("nothing sent", w.sent == b"")
        finally:
            shut(d)


# ------------------------------------------------------------------ both ends together
def _load_driver():
    if "verif_py_driver" not in sys.modules:
        path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(S.__file__))), "..", "drivers", "py", "driver.py")
        spec = importlib.util.spec_from_file_location("verif_py_driver", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        # client and server are one process here: only one of them may unregister the segments
        m.resource_tracker = types.SimpleNamespace(unregister=lambda *a: None)
        sys.modules["verif_py_driver"] = m
    return sys.modules["verif_py_driver"]


class Recorder:
    """A potential that records what it is given and answers with prepared numbers."""

    def __init__(self, ctx, nat):
        self.ctx, self.nat, self.seen = ctx, nat, []

    def one(self, cell, pos):
        res = _result(self.ctx, self.nat)
        self.seen.append((np.array(cell), np.array(pos), res))
        return res[0], res[1].reshape(self.nat, 3), res[2], res[3]

    def __call__(self, cell, pos):
        if isinstance(cell, list):
            return [self.one(c, p) for c, p in zip(cell, pos)]
        return self.one(cell, pos)


@contract("P03", "end-to-end", [D + "run_driver", D + "recv_data", D + "send_data", F + "SHMDriver._fill_shm", F + "SHMDriver._alloc_shm",
                                F + "SHMDriver.dispatch_send", F + "SHMDriver._recv_forces_bulk", F + "SHMDriver._recv_forces_bulk_batch",
                                F + "SHMDriver.dispatch_send_batch", F + "InterfaceSocket.poll"], sym=False, samples=(24, 150), limit=200, why=WHY)
def _e2e(ctx):
    """i-PI and its Python client, over a real socket (plain, batched, threaded or shared memory): the potential sees exactly the queued cells
    and positions, and each request gets exactly what the potential returned for it"""
    nat = ctx.choice("nat", [1, 3])
    mode = ctx.choice("mode", ["unix", "shm", "inet"])
    nb = ctx.choice("batch", [1, 2, 5])
    cons = ctx.choice("consolidate", [True, False])
    ctx.assume(cons or nb == 1)
    active = ctx.choice("active", [None, [0], [2, 0]])
    ctx.assume(active is None or nat == 3)
    na = nat if active is None else len(active)
    drv = _load_driver()
    scratch = tempfile.mkdtemp(prefix="vs")
    pes = Recorder(ctx, na)
    err = []
    iface = None
    o, e = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = open(os.devnull, "w")
    try:
        port = 0
        if mode == "inet":
            s = _socket.socket()
            s.bind(("localhost", 0))
            port = s.getsockname()[1]
            s.close()
        iface = S.InterfaceSocket(address="localhost" if mode == "inet" else "x", port=port, mode=mode, timeout=20.0,
                                  sockets_prefix=scratch + "/", consolidate_messages=cons, batch_size=nb)
        iface.requests = []
        iface.offset = 1.5
        iface.open()

        def run():
            try:
                drv.run_driver(unix=mode == "unix", address="localhost" if mode == "inet" else "x", port=port, driver=pes,
                               sockets_prefix=scratch + "/", shm=mode == "shm")
            except BaseException as ex:
                err.append(ex)
        th = threading.Thread(target=run, daemon=True)
        th.start()
        import time
        all_r = []
        for rnd in range(3):
            rs = [_request(ctx, nat, active, rid=i) for i in range(ctx.rng.randint(1, 3 if nb < 3 else 7))]
            for r in rs:
                r["status"] = "Queued"
            iface.requests.extend(rs)
            all_r += rs

            def poll():
                try:
                    t1 = time.time()
                    while not all(r["status"] == "Done" for r in rs) and time.time() - t1 < 15 and not err:
                        time.sleep(1e-4)
                        iface.poll()
                except BaseException as ex:
                    err.append(ex)
            pt = threading.Thread(target=poll, daemon=True)
            pt.start()
            pt.join(30)
            ctx.ensure("no error at either end: %r" % (err[:1],), not err)
            ctx.ensure("all requests answered", all(r["status"] == "Done" for r in rs))
            for r in rs:
                iface.requests.remove(r)
        for r in all_r:
            hit = [x for x in pes.seen if _same(x[1].flatten(), r["pos"][r["active"]]) and _same(x[0], r["cell"][0])]
            ctx.ensure("the potential was given the queued cell and positions", len(hit) >= 1)
            ans = [x[2] for x in hit if x[2][0] - 1.5 == r["result"][0] or (x[2][0] != x[2][0])]
            ctx.ensure("energy", len(ans) >= 1)
            f = np.zeros(3 * nat)
            f[r["active"]] = ans[0][1]
            ctx.ensure("forces", _same(r["result"][1], f))
            ctx.ensure("virial", _same(r["result"][2], ans[0][2]))
            _extra_ok(ctx, r["result"][3], ans[0][3])
        iface.close()
        th.join(5)
        ctx.ensure("the client leaves when told to", not th.is_alive())
        ctx.ensure("client error %r" % (err,), not err)
    finally:
        sys.stdout.close()
        sys.stdout, sys.stderr = o, e
        if iface is not None and getattr(iface, "clients", None):
            for c in list(iface.clients):
                try:
                    c.close()
                except Exception:
                    pass
        try:
            iface.server.close()
            iface.executor.shutdown(wait=False)
        except Exception:
            pass
        shutil.rmtree(scratch, ignore_errors=True)


@contract("P03", "driver-recv", [D + "recv_data", D + "send_data"], sym=False, samples=(30, 200), why=WHY)
def _drecv(ctx):
    """the client side reads exactly the bytes of the array it wants, in any pieces, with timeouts, and notices a lost connection"""
    drv = _load_driver()
    n = ctx.choice("n", [0, 1, 3])
    x = _numbers(ctx, n) if n else np.float64(_numbers(ctx, 1)[0])
    msg = x.tobytes()
    with _quiet():
        for dl in _deliveries(ctx, len(msg)):
            w = Wire(msg + b"tail", eof=False, **dl)
            d = driver(w)
            try:
                got = drv.recv_data(d, np.zeros(n) if n else np.float64())
                ctx.ensure("value %r" % dl, _same(got, x))
                ctx.ensure("no more", w.pos == len(msg))
            finally:
                shut(d)
        for k in range(len(msg)):
            d = driver(Wire(msg[:k]))
            try:
                got = "returned"
                try:
                    drv.recv_data(d, np.zeros(n) if n else np.float64())
                except RuntimeError:
                    got = "refused"
                ctx.ensure("lost connection noticed", got == "refused")
            finally:
                shut(d)
        w = Wire()
        d = driver(w)
        drv.send_data(d, x)
        ctx.ensure("sent", w.sent == msg)
        shut(d)


# ------------------------------------------------------------------ MPI
class Comm:
    """Ordered message channels between rank 0 (i-PI) and driver roots."""

    def __init__(self):
        self.q = {}
        self.me = 0
        self.log = []

    def Send(self, buf, dest=None, tag=None):
        self.log.append((self.me, dest, tag))
        self.q.setdefault((self.me, dest, tag), []).append(np.array(buf[0], copy=True))

    def Iprobe(self, source=None, tag=None, status=None):
        return bool(self.q.get((source, self.me, tag)))

    def Probe(self, source=None, tag=None, status=None):
        status.n = self.q[(source, self.me, tag)][0]

    def Recv(self, buf, source=None, tag=None):
        m = self.q[(source, self.me, tag)].pop(0)
        assert m.dtype == buf[0].dtype and m.size == buf[0].size, "message of %d %s read as %d %s" % (m.size, m.dtype, buf[0].size, buf[0].dtype)
        buf[0][...] = m


class FMPI:
    INT, DOUBLE, BYTE, ANY_SOURCE, ANY_TAG = "int", "double", "byte", -1, -1

    class Status:
        def Get_count(self, t):
            return self.n.size


@contract("P03", "mpi-exchange", [G + "InterfaceMPI._dispatch", G + "InterfaceMPI._collect", G + "InterfaceMPI._unpack_results", G + "InterfaceMPI.poll",
                                  G + "InterfaceMPI._send_init", D + "_mpi_eval_batch", D + "_mpi_send_results"], sym=False, samples=(150, 1200), why=WHY)
def _mpi(ctx):
    """over MPI, any number of driver groups and batches: each request is evaluated once, on its own cell and (active) positions, and gets
    its own energy minus the offset, forces, virial and extras"""
    drv = _load_driver()
    nat = ctx.choice("nat", [1, 3])
    nb = ctx.choice("batch", [1, 2, 3])
    nr = ctx.choice("roots", [1, 2])
    active = ctx.choice("active", [None, [0], [1, 2]])
    ctx.assume(active is None or nat == 3)
    na = nat if active is None else len(active)
    nreq = ctx.rng.randint(1, 5)
    fake = types.ModuleType("mpi4py")
    fake.MPI = FMPI
    old = sys.modules.get("mpi4py")
    sys.modules["mpi4py"] = fake
    try:
        it = M.InterfaceMPI(name="x", batch_size=nb)
        comm = Comm()
        it.comm = comm
        it.driver_ranks = list(range(1, nr + 1))
        it._ranks = {r: {"rank": r, "state": "IDLE", "requests": [], "nat": None} for r in it.driver_ranks}
        it.offset = 0.75
        rs = [_request(ctx, nat, active, rid=i) for i in range(nreq)]
        for r in rs:
            r["status"] = "Queued"
        it.requests = rs[:]
        pes = {r: Recorder(ctx, na) for r in it.driver_ranks}
        init = set()
        for rnd in range(40):
            comm.me = 0
            it.poll()
            running = sum(1 for r in rs if r["status"] == "Running")
            pend = sum(len(s["requests"]) for s in it._ranks.values())
            ctx.ensure("running requests are with a driver", running == pend)
            for r in rs:
                ctx.ensure("status", r["status"] in ("Queued", "Running", "Done") and (r["status"] == "Done") == r._event_done.is_set())
            if all(r["status"] == "Done" for r in rs):
                break
            for k in it.driver_ranks:
                if ctx.rng.random() < 0.4:
                    continue
                comm.me = k
                if comm.Iprobe(0, M.MPI_TAG_INIT):
                    h = np.empty(2, np.int32)
                    comm.Recv([h, 0], 0, M.MPI_TAG_INIT)
                    t = np.empty(int(h[1]), np.uint8)
                    comm.Recv([t, 0], 0, M.MPI_TAG_INIT)
                    ctx.ensure("initialised once with the parameters", k not in init and t.tobytes().decode().startswith(rs[0]["pars"]))
                    init.add(k)
                if comm.Iprobe(0, M.MPI_TAG_WORK):
                    ctx.ensure("initialised before work", k in init)
                    h = np.empty(2, np.int32)
                    comm.Recv([h, 0], 0, M.MPI_TAG_WORK)
                    n, b = int(h[0]), int(h[1])
                    ctx.ensure("batch size", 1 <= b <= nb and n == na)
                    body = np.empty(b * (18 + 3 * n))
                    comm.Recv([body, 0], 0, M.MPI_TAG_WORK)
                    ctx.ensure("one exchange at a time", not comm.q.get((0, k, M.MPI_TAG_WORK)))
                    res = drv._mpi_eval_batch(pes[k], body, n, b)
                    drv._mpi_send_results(comm, 0, res, n, FMPI)
        ctx.ensure("all done", all(r["status"] == "Done" for r in rs))
        seen = [x for p in pes.values() for x in p.seen]
        ctx.ensure("evaluated once each", len(seen) == nreq)
        for r in rs:
            hit = [x for x in seen if _same(x[1].flatten(), r["pos"][r["active"]]) and _same(x[0], r["cell"][0])]
            ctx.ensure("own positions and cell", len(hit) == 1)
            u, f, v, x = hit[0][2]
            ff = np.zeros(3 * nat)
            ff[r["active"]] = f
            ctx.ensure("energy", r["result"][0] == u - 0.75 or u != u)
            ctx.ensure("forces", _same(r["result"][1], ff))
            ctx.ensure("virial", _same(r["result"][2], v))
            _extra_ok(ctx, r["result"][3], x)
    finally:
        if old is None:
            sys.modules.pop("mpi4py", None)
        else:
            sys.modules["mpi4py"] = old


@contract("P03", "mpi-names", [G + "MPIWorldManager._assign", G + "MPIWorldManager._handshake"], sym=False, samples=(300, 2000), why="MPI is a stand-in")
def _names(ctx):
    """every driver group serves exactly the forcefield it was launched for; a forcefield without drivers, or a driver without a
    forcefield, is an error"""
    names = ctx.rng.sample(["a", "b", "cc"], ctx.rng.randint(1, 3))
    groups = {}
    rank = 1
    for _ in range(ctx.rng.randint(1, 4)):
        size = ctx.rng.randint(1, 3)
        groups[rank] = (list(range(rank, rank + size)), ctx.rng.choice(["a", "b", "cc", ""] if ctx.rng.random() < 0.3 else names))
        rank += size
    order = list(groups)
    ctx.rng.shuffle(order)

    class St:
        pass

    class C:
        def Get_size(s):
            return rank

        def __init__(s):
            s.q = []
            for r in order:
                m, nm = groups[r]
                s.q.append((r, np.array([r, len(m)] + m, np.int32)))
                s.q.append((r, np.frombuffer(nm.encode(), np.uint8)))

        def Probe(s, source=None, tag=None, status=None):
            status.m = s.q[0] if source == -1 else [x for x in s.q if x[0] == source][0]

        def Recv(s, buf, source=None, tag=None):
            i = [k for k, x in enumerate(s.q) if x[0] == source][0]
            buf[0][...] = s.q.pop(i)[1]

    class MM(FMPI):
        class Status:
            def Get_source(self):
                return self.m[0]

            def Get_count(self, t):
                return self.m[1].size
    mgr = M.MPIWorldManager()
    for n in names:
        mgr.register(n)
    mgr.comm = C()
    tags = [g[1] for g in groups.values()]
    if len(names) == 1:
        want = {names[0]: sorted(groups)}
    elif "" in tags or any(t not in names for t in tags) or any(n not in tags for n in names):
        want = "error"
    else:
        want = {n: sorted(r for r in groups if groups[r][1] == n) for n in names}
    try:
        mgr._handshake(MM)
        got = {n: mgr.roots_for(n) for n in names}
    except ValueError:
        got = "error"
    ctx.ensure("assignment %r: %r" % (groups, got), got == want)


@contract("P03", "extra-string", ["ipi/interfaces/utils.py:parse_extra"], sym=False, samples=(60, 300), why="text")
def _px(ctx):
    """any string is accepted as extra data and kept under 'raw'; JSON objects also give their fields; a field called 'raw' is refused"""
    s = ctx.choice("s", EXTRAS + ['{"a": [1.5, 2]}', '{"raw": 1}', "  x  "])
    try:
        got = U.parse_extra(s)
    except ValueError:
        got = "refused"
    if s == '{"raw": 1}':
        ctx.ensure("raw refused", got == "refused")
    else:
        _extra_ok(ctx, got, s)
