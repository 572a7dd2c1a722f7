"""P05: force providers that run inside i-PI."""
import json
import os
import sys
import tempfile
import threading
import time
import types

import numpy as _np

from pyvc.contracts import contract
from checks.build import upper_h, val, grad, patched
import ipi.engine.forcefields as FF
import ipi.engine.atoms
import ipi.engine.cell
import ipi.pes as PES
import ipi.utils.mathtools as MT
from ipi.utils.depend import dstrip

F = "ipi/engine/forcefields.py:"
ASSUMPTIONS = ["external libraries (PLUMED, client codes) are represented by arbitrary answers",
               "sqrt, exp, sin of the verifier are the mathematical functions"]


def atoms_of(ctx, q):
    n = len(q) // 3
    a = ipi.engine.atoms.Atoms(n)
    a.q[:] = q
    return a


def setup(ctx, nat, q=None, tag=""):
    q = ctx.array("q" + tag, (3 * nat,)) if q is None else q
    c = ipi.engine.cell.Cell(upper_h(ctx, "h" + tag))
    return q, atoms_of(ctx, q), c


class Opaque:
    """a provider of the committee: arbitrary answers, done when told"""

    def __init__(self, ctx, name, extras=None, done=True):
        self.ctx, self.name, self.extras, self.done = ctx, name, extras, done
        self.requests = []
        self.log = []

    def value(self, q, h):
        c = self.ctx
        return (c.opaque(self.name + "_u", [q, h]), c.opaque(self.name + "_f", [q, h], shape=q.shape),
                c.opaque(self.name + "_v", [q, h], shape=(3, 3)))

    def queue(self, atoms, cell, reqid=-1, template=None):
        q = dstrip(atoms.q).copy()
        h = dstrip(cell.h).copy()
        u, f, v = self.value(q, h)
        x = {"raw": "txt" + self.name}
        if self.extras:
            x.update(self.extras(q, h))
        r = FF.ForceRequest({"id": reqid, "pos": q, "status": "Queued", "result": None, "t_queued": 0.0})
        r.answer = [u, f, v, x]
        self.requests.append(r)
        self.log.append((q, h, reqid))
        if self.done:
            self.finish(r)
        return r

    def finish(self, r):
        r["result"] = [r.answer[0], r.answer[1].copy(), r.answer[2].copy(), r.answer[3]]
        r["status"] = "Done"
        r._event_done.set()

    def release(self, r, lock=True):
        if r in self.requests:
            self.requests.remove(r)

    def bind(self, om=None):
        pass


# ---------------------------------------------------------------- requests
@contract("P05", "request", [F + "ForceField.queue", F + "ForceField.poll", F + "ForceField.release"], samples=(40, 300))
def _request(ctx):
    """a request holds the positions and cell of the moment it was made, whatever moves later; wrapping into the cell moves only the copy
    and only by lattice vectors; released requests leave the queue"""
    np = ctx.np
    nat = ctx.choice("natoms", [1, 2, 3])
    pbc = ctx.choice("pbc", [False, True])
    act = ctx.choice("active", ["all", "first", "last"])
    q, a, c = setup(ctx, nat)
    h = val(c.h)
    off = ctx.real("offset")
    active = _np.array({"all": [-1], "first": [0], "last": [nat - 1]}[act])
    ff = FF.ForceField(latency=0, offset=off, name="f", dopbc=pbc, active=active, threaded=ctx.choice("threaded", [True, False]))
    r = ff.queue(a, c, reqid=7)
    ctx.ensure("queued", len(ff.requests) == 1 and ff.requests[0] is r)
    ctx.ensure("id", r["id"] == 7)
    ctx.ensure_eq("the atoms do not move", a.q, q)
    a.q[:] = a.q * 2 + 1
    c.h[0, 0] = c.h[0, 0] * 3
    val(c.ih), val(c.V)     # recomputed by whoever reads them first
    p = r["pos"]
    if pbc:
        ih = np.linalg.inv(h) if not ctx.sym else val(ipi.engine.cell.Cell(h.copy()).ih)
        d = np.dot(ih, (q - p).reshape((nat, 3)).T)
        if ctx.sym:
            ref = q.copy()
            ipi.engine.cell.Cell(h.copy()).array_pbc(ref)
            ctx.ensure_eq("positions wrapped into the cell", p, ref)
        else:
            ctx.ensure_eq("moved by whole lattice vectors", d, np.rint(d), tol=1e-6)
    else:
        ctx.ensure_eq("positions of the request", p, q)
    ctx.ensure_eq("cell of the request", r["cell"][0], h)
    ctx.ensure_eq("inverse cell of the request", np.dot(h, r["cell"][1]), np.identity(3))
    want = list(range(3 * nat)) if act == "all" else ([0, 1, 2] if act == "first" else [3 * nat - 3, 3 * nat - 2, 3 * nat - 1])
    ctx.ensure("active coordinates", [int(x) for x in r["active"]] == want)
    ff.poll()
    ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
    ctx.ensure_eq("energy less offset", r["result"][0], 0.0 - off)
    ctx.ensure_eq("no force", r["result"][1], np.zeros(3 * nat))
    ctx.ensure_eq("no virial", r["result"][2], np.zeros((3, 3)))
    r2 = ff.queue(a, c)
    ctx.ensure("a request equals only itself", r2 in ff.requests and r in ff.requests and r != r2)
    ff.release(r)
    ctx.ensure("released", len(ff.requests) == 1 and ff.requests[0] is r2)


@contract("P05", "too-many-active", [F + "ForceField.queue"], sym=False, samples=(6, 20), why="refusal of input")
def _tooact(ctx):
    """active atoms beyond the last atom are refused"""
    q, a, c = setup(ctx, 2)
    ff = FF.ForceField(latency=0, name="f", dopbc=False, active=_np.array([0, 5]))
    try:
        ff.queue(a, c)
        ctx.ensure("refused", False)
    except ValueError:
        pass


# ---------------------------------------------------------------- simple potentials
@contract("P05", "lennard-jones", [F + "FFLennardJones.evaluate", F + "FFLennardJones.__init__", F + "FFEval.poll", F + "FFEval._eval_thread"],
          samples=(30, 200), tol=1e-6, limit=150)
def _lj(ctx):
    """energy is the sum over pairs of active atoms of 4 eps ((s/r)^12 - (s/r)^6), less the offset; forces are minus its gradient and vanish
    on atoms that are not active"""
    np = ctx.np
    nat, act = ctx.choice("atoms", [(1, None), (2, None), (3, None), (3, (0, 2)), (3, (1, 2)), (3, (2,))])
    q, a, c = setup(ctx, nat)
    if not ctx.sym:
        q = q + _np.arange(3 * nat) * 1.5
        a.q[:] = q
    eps, sig, off = ctx.real("eps", pos=True), ctx.real("sigma", pos=True), ctx.real("offset")
    ff = FF.FFLennardJones(latency=0, offset=off, name="lj", pars={"eps": eps, "sigma": sig}, dopbc=False, threaded=False,
                           active=_np.array([-1] if act is None else list(act)))
    r = ff.queue(a, c)

    def energy(x):
        v = 0.0
        ids = range(nat) if act is None else act
        for i in ids:
            for j in ids:
                if j < i:
                    d = x[3 * i:3 * i + 3] - x[3 * j:3 * j + 3]
                    r2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
                    s6 = (sig * sig / r2) ** 3
                    v = v + 4 * eps * (s6 * s6 - s6)
        return v

    ctx.ensure("done", r["status"] == "Done")
    scale = 1.0 if ctx.sym else 1.0 / (1 + abs(_np.asarray(r["result"][1])).max())
    ctx.ensure_eq("energy", r["result"][0] * scale, (energy(q) - off) * scale)
    ctx.ensure_eq("force", r["result"][1] * scale, -grad(ctx, energy, q) * scale)
    ctx.ensure_eq("virial not provided", r["result"][2], np.zeros((3, 3)))


@contract("P05", "debye", [F + "FFDebye.evaluate"], samples=(30, 200), tol=1e-7)
def _debye(ctx):
    """energy = reference + half displacement . Hessian . displacement less the offset, force = minus its gradient"""
    np = ctx.np
    nat = ctx.choice("natoms", [1, 2])
    q, a, c = setup(ctx, nat)
    n = 3 * nat
    H = ctx.array("H", (n, n))
    H = (H + H.T) * 0.5
    x0 = ctx.array("x0", (n,))
    v0, off = ctx.real("v0"), ctx.real("offset")
    ff = object.__new__(FF.FFDebye)
    if ctx.sym:
        # the constructor only prints the eigenvalues of H
        FF.FFEval.__init__(ff, 0, off, "d", None, dopbc=False)
        ff.H, ff.xref, ff.vref = H, x0, v0
    else:
        ff = FF.FFDebye(latency=0, offset=off, name="d", H=H, xref=x0, vref=v0)
    r = ff.queue(a, c)

    def energy(x):
        return v0 + 0.5 * np.dot(x - x0, np.dot(H, x - x0))

    ctx.ensure_eq("energy", r["result"][0], energy(q) - off)
    ctx.ensure_eq("force", r["result"][1], -grad(ctx, energy, q))


@contract("P05", "debye-refused", [F + "FFDebye.__init__", F + "FFDebye.evaluate"], sym=False, samples=(6, 20), why="refusal of input")
def _debref(ctx):
    """a Hessian or reference that does not fit the number of atoms is refused"""
    q, a, c = setup(ctx, 2)
    for H, x in ((_np.eye(3), _np.zeros(6)), (_np.eye(6), _np.zeros(3))):
        ff = FF.FFDebye(latency=0, name="d", H=H, xref=x)
        try:
            ff.queue(a, c)
            ctx.ensure("refused", False)
        except ValueError:
            pass


@contract("P05", "oscillating-pairs", [F + "FFdmd.evaluate", F + "FFdmd.dmd_update", "ipi/utils/distance.py:vector_separation"], samples=(30, 200), tol=1e-6,
          limit=120)
def _dmd(ctx):
    """energy is sin(step w dt) times the sum over pairs of coupling times nearest-image distance, forces and virial are its derivatives, and
    the step advances by one at each update"""
    np = ctx.np
    nat = ctx.choice("natoms", [2, 3])
    q, a, c = setup(ctx, nat)
    if not ctx.sym:
        q = q + _np.arange(3 * nat) * 0.9
        a.q[:] = q
    h = val(c.h)
    ih = val(c.ih)
    C = ctx.array("C", (nat * (nat - 1) // 2,))
    w, dt, off = ctx.real("w", pos=True), ctx.real("dt", pos=True), ctx.real("offset")
    k = ctx.choice("steps", [0, 1, 3])
    ff = FF.FFdmd(latency=0, offset=off, name="d", coupling=C, freq=w, dtdmd=dt, dmdstep=1)
    for _ in range(k):
        ff.dmd_update()
    r = ff.queue(a, c)
    s = np.sin((1 + k) * w * dt)

    def pairs(x, hh, ihh, img=None):
        out = []
        n = 0
        for i in range(nat):
            for j in range(i):
                d = x[3 * i:3 * i + 3] - x[3 * j:3 * j + 3]
                f = np.dot(ihh, d)
                m = np.rint(f) if img is None else img[n]
                out.append((C[i * (i - 1) // 2 + j], np.dot(hh, f - m), m))
                n += 1
        return out

    img = [p[2] for p in pairs(q, h, ih)]

    def energy(x, hh=h, ihh=ih):
        v = 0.0
        for cc, d, _ in pairs(x, hh, ihh, img):
            v = v + cc * np.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
        return v * s

    ctx.ensure_eq("energy", r["result"][0], energy(q) - off)
    if ctx.sym:
        # derivative of sqrt(d.d) is d/|d|; h ih = 1 is proved in P13, so the chain through the cell is the identity
        f = np.zeros((nat, 3))
        vir = np.zeros((3, 3))
        n = 0
        P = pairs(q, h, ih, img)
        for i in range(nat):
            for j in range(i):
                cc, d, _ = P[n]
                n += 1
                g = cc * s * d / np.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
                f[i] = f[i] - g
                f[j] = f[j] + g
                for x in range(3):
                    for y in range(3):
                        vir[x, y] = vir[x, y] - g[x] * d[y]
        ctx.ensure_eq("force", r["result"][1], f.reshape(-1))
        ctx.ensure_eq("virial", r["result"][2], vir)
    else:
        ctx.ensure_eq("force", r["result"][1], -grad(ctx, energy, q), tol=1e-5)
        e = 1e-5
        for x in range(3):
            for y in range(3):
                g = []
                for sg in (1, -1):
                    S = _np.eye(3)
                    S[x, y] += sg * e
                    g.append(energy((q.reshape(-1, 3) @ S.T).reshape(-1), S @ h, _np.linalg.inv(S @ h)))
                ctx.ensure_eq("virial %d%d" % (x, y), r["result"][2][x, y], -(g[0] - g[1]) / (2 * e), tol=1e-5)


# ---------------------------------------------------------------- publication of results
@contract("P05", "published-when-final", [F + "FFEval.poll", F + "FFEval._eval_thread"], sym=False, samples=(12, 60),
          why="threads are outside the verifier")
def _publish(ctx):
    """a result is marked as done only when it is final, in threaded and serial mode, and every request gets the answer for its own positions"""
    rng = ctx.rng
    thr = bool(ctx.choice("threaded", [True, False]))
    gate = threading.Event()
    entered = []

    class Ev(FF.FFEval):
        def evaluate(self, r):
            entered.append(r)
            r["result"] = [float(r["pos"].sum()), -r["pos"], _np.eye(3) * r["pos"][0], {"raw": ""}]
            r["status"] = "Done"
            r._event_done.set()
            gate.wait(10.0)

    off = ctx.real("offset")
    ff = Ev(latency=0, offset=off, name="e", dopbc=False, threaded=thr)
    n = rng.randint(1, 4)
    reqs, qs = [], []
    told = {}

    class Spy(FF.ForceRequest):
        """remembers what could be read when the request was called done"""

        def __setitem__(self, k, v):
            if k == "status" and v == "Done" and any(self is x for x in list(ff.requests)):
                told.setdefault(id(self), self["result"] and self["result"][0])
            super().__setitem__(k, v)

    def push():
        for k in range(n):
            q = _np.asarray(ctx.array("q%d" % k, (6,)))
            _, a, c = setup(ctx, 2, q=q, tag=str(k))
            qs.append(q)
            with patched(FF, ForceRequest=Spy):
                reqs.append(ff.queue(a, c, reqid=k))
        if thr:
            ff.poll()
            ff.poll()

    if thr:
        push()
        t0 = time.time()
        while len(entered) < n and time.time() - t0 < 5:
            time.sleep(1e-3)
        ctx.ensure("all evaluations run at once", len(entered) == n)
    else:
        th = threading.Thread(target=push, daemon=True)
        th.start()
        t0 = time.time()
        while not entered and time.time() - t0 < 5:
            time.sleep(1e-3)
    time.sleep(2e-3)
    for r in list(ff.requests):
        done = r["status"] == "Done" or r._event_done.is_set()
        ctx.ensure("not done before the evaluation has returned", not done)
    gate.set()
    if not thr:
        th.join(10)
    t0 = time.time()
    while any(r["status"] != "Done" for r in reqs) and time.time() - t0 < 5:
        time.sleep(1e-3)
    ctx.ensure("evaluated once each", len(entered) == n)
    for r, q in zip(reqs, qs):
        ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
        ctx.ensure_eq("energy", r["result"][0], q.sum() - off)
        if id(r) in told:
            ctx.ensure("final when it is called done", told[id(r)] == r["result"][0])
        ctx.ensure_eq("force", r["result"][1], -q)
        ff.release(r)
    ctx.ensure("released", len(ff.requests) == 0)


# ---------------------------------------------------------------- direct
@contract("P05", "direct", [F + "FFDirect." + x for x in ("poll", "evaluate", "launch_batch", "_process_results")], samples=(60, 400), limit=150)
def _direct(ctx):
    """the answer of the potential at the active atoms of each request, energy less offset, one by one or in batches of any size, full or
    not; inactive atoms feel nothing; every request is evaluated once and gets its own answer"""
    np = ctx.np
    nat, act = ctx.choice("atoms", [(1, None), (2, None), (3, (2, 0)), (3, (1,))])
    bs = ctx.choice("batch", [1, 2, 3])
    n = ctx.choice("requests", [1, 2, 3, 5])
    esh = ctx.choice("energy", ["scalar", "array"])
    off = ctx.real("offset")
    ff = FF.FFDirect(latency=0, offset=off, name="d", pars={}, dopbc=False, active=_np.array([-1] if act is None else list(act)), pes="dummy",
                     batch_size=bs, threaded=True)
    calls = []

    def one(cell, pos):
        calls.append(pos)
        u = ctx.opaque("u", [pos, cell])
        if esh == "array":
            u2 = np.zeros((1,))
            u2[0] = u
            u = u2
        return (u, ctx.opaque("f", [pos, cell], shape=pos.shape), ctx.opaque("v", [pos, cell], shape=(3, 3)), json.dumps({"k": len(calls)}))

    def driver(cell, pos):
        if isinstance(cell, list):
            ctx.ensure("a batch is a list of positions", isinstance(pos, list) and len(pos) == len(cell) and len(cell) <= bs)
            return [one(c, p) for c, p in zip(cell, pos)]
        return one(cell, pos)

    ff.driver = driver
    reqs = []
    for k in range(n):
        q, a, c = setup(ctx, nat, tag=str(k))
        reqs.append((ff.queue(a, c, reqid=k), q, val(c.h)))
        if ctx.choice("poll%d" % k, [False, True]) if n <= 2 else False:
            ff.poll()
    for _ in range(30):
        ff.poll()
    ids = list(range(nat)) if act is None else list(act)
    ctx.ensure("evaluated once each", len(calls) == n)
    for r, q, h in reqs:
        ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
        p = np.zeros((len(ids), 3))
        for i, x in enumerate(ids):
            p[i] = q[3 * x:3 * x + 3]
        ctx.ensure_eq("energy", r["result"][0], ctx.opaque("u", [p, h]) - off)
        want = np.zeros((nat, 3))
        fa = ctx.opaque("f", [p, h], shape=p.shape)
        for i, x in enumerate(ids):
            want[x] = fa[i]
        ctx.ensure_eq("force", r["result"][1], want.reshape(-1))
        ctx.ensure_eq("virial", r["result"][2], ctx.opaque("v", [p, h], shape=(3, 3)))
        ctx.ensure("extras parsed", isinstance(r["result"][3], dict) and "k" in r["result"][3] and "raw" in r["result"][3])


@contract("P05", "direct-input", [F + "FFDirect.__init__", "ipi/pes/__init__.py:load_pes"], sym=False, samples=(8, 20), why="loads modules from disk")
def _dirin(ctx):
    """the named potential or the one in the given file is loaded with the given parameters; unknown names are refused"""
    k = float(ctx.real("k", pos=True))
    ff = FF.FFDirect(name="d", pars={"k1": k}, pes="harmonic")
    q, a, c = setup(ctx, 2)
    r = ff.queue(a, c)
    ctx.ensure_eq("energy", r["result"][0], 0.5 * k * (q**2).sum())
    ctx.ensure_eq("force", r["result"][1], -k * q)
    for bad in (dict(pes="nonexistent"), dict(pes="custom")):
        try:
            FF.FFDirect(name="d", pars={}, **bad)
            ctx.ensure("refused", False)
        except ValueError:
            pass
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "mypes_p05.py")
        with open(fn, "w") as f:
            f.write("__DRIVER_NAME__='x'\n__DRIVER_CLASS__='X'\nfrom ipi.pes.dummy import Dummy_driver\n"
                    "class X(Dummy_driver):\n    def __init__(self, s, *a, **k):\n        self.s = s\n        super().__init__(*a, **k)\n"
                    "    def compute_structure(self, cell, pos):\n        return self.s * pos.sum(), pos * 0 - self.s, cell * 0, 'hello'\n")
        ff = FF.FFDirect(name="d", pars={"s": k}, pes="custom", pes_path=fn)
        r = ff.queue(a, c)
        ctx.ensure_eq("custom energy", r["result"][0], k * q.sum())
        ctx.ensure("raw text kept", r["result"][3]["raw"] == "hello")


# ---------------------------------------------------------------- committee
def committee(ctx, n, baseline=False, weights=True, extras=None, parse_json=False, done=True, **kw):
    ffs = [Opaque(ctx, "m%d" % i, extras=extras and (lambda q, h, i=i: extras(i, q, h)), done=done) for i in range(n)]
    w = [ctx.real("w%d" % i) for i in range(n)]
    lst = list(ffs)
    base = None
    if baseline:
        base = Opaque(ctx, "base", done=done)
        lst.insert({"first": 0, "middle": 1, "last": n}[baseline], base)
        kw.update(baseline_name="base", baseline_uncertainty=kw.pop("sb"))
    ff = FF.FFCommittee(name="c", dopbc=False, fflist=lst, ffweights=w if weights else [], parse_json=parse_json, **kw)
    return ff, ffs, base, (w if weights else [1.0] * n)


@contract("P05", "committee", [F + "FFCommittee." + x for x in ("__init__", "queue", "check_finish", "gather", "poll")], samples=(40, 300), tol=1e-7, limit=150)
def _committee(ctx):
    """energy, force and virial are the means of the weighted members; the spread reported is alpha times the standard deviation, and the
    rescaled members have the same mean; nothing is reported before all the members have answered; their requests are released"""
    np = ctx.np
    nat = 2
    n = ctx.choice("members", [2, 3])
    weights = ctx.choice("weights", [False, True])
    q, a, c = setup(ctx, nat)
    h = val(c.h)
    off, al = ctx.real("offset"), ctx.real("alpha", pos=True)
    late = ctx.choice("late", ["none", "0", "last"])
    ff, ffs, base, w = committee(ctx, n, weights=weights, offset=off, alpha=al, done=late == "none", active_thresh=0.0)
    r = ff.queue(a, c, reqid=3)
    if late != "none":
        for m in ffs:
            if m is not ffs[0 if late == "0" else -1]:
                m.finish(m.requests[0])
            else:
                m.requests[0]["status"] = ctx.choice("progress", ["Queued", "Running"])
        ff.poll()
        ctx.ensure("not done while a member is missing", r["status"] != "Done" and not r._event_done.is_set())
        m = ffs[0 if late == "0" else -1]
        m.finish(m.requests[0])
    ff.poll()
    ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
    for i, m in enumerate(ffs):
        ctx.ensure("members asked once, with the same request id", len(m.log) == 1 and m.log[0][2] == 3)
        ctx.ensure("released", len(m.requests) == 0)
    vals = [m.value(q, h) for m in ffs]
    u = [x[0] * y for x, y in zip(vals, w)]
    f = [x[1] * y for x, y in zip(vals, w)]
    v = [x[2] * y for x, y in zip(vals, w)]
    um, fm, vm = sum(u[1:], u[0]) / n, sum(f[1:], f[0]) / n, sum(v[1:], v[0]) / n
    ctx.ensure_eq("energy", r["result"][0], um - off)
    ctx.ensure_eq("force", r["result"][1], fm)
    ctx.ensure_eq("virial", r["result"][2], vm)
    x = r["result"][3]
    var = sum([(z - um) * (z - um) for z in u][1:], (u[0] - um) * (u[0] - um)) / (n - 1)
    ctx.ensure_eq("uncertainty", x["committee_uncertainty"] * x["committee_uncertainty"], al * al * var)
    for i in range(n):
        ctx.ensure_eq("member energy", x["committee_pot"][i], um + al * (u[i] - um))
        ctx.ensure_eq("member force", x["committee_force"][i], fm + al * (f[i] - fm))
        ctx.ensure_eq("member virial", x["committee_virial"][i], (vm + al * (v[i] - vm)).reshape(-1))
    ctx.ensure("extras of every member", list(x["committee_raw"]) == ["txtm%d" % i for i in range(n)])
    ff.poll()
    ctx.ensure_eq("polling again changes nothing", r["result"][0], um - off)
    ff.release(r)
    ctx.ensure("released", len(ff.requests) == 0)


@contract("P05", "weighted-baseline", [F + "FFCommittee.gather"], samples=(40, 300), tol=1e-7, limit=200)
def _baseline(ctx):
    """energy = baseline + committee mean * sb^2/(sb^2 + alpha^2 variance); force and virial are its derivatives given those of the members,
    wherever the baseline is in the list"""
    np = ctx.np
    n = ctx.choice("members", [2, 3])
    where = ctx.choice("baseline", ["first", "middle", "last"])
    q, a, c = setup(ctx, 1)
    h = val(c.h)
    off, al, sb = ctx.real("offset"), ctx.real("alpha", pos=True), ctx.real("sb", pos=True)
    ff, ffs, base, w = committee(ctx, n, baseline=where, weights=ctx.choice("weights", [False, True]), offset=off, alpha=al, sb=sb)
    r = ff.queue(a, c)
    ff.poll()
    vals = [m.value(q, h) for m in ffs]
    u = [x[0] * y for x, y in zip(vals, w)]
    f = [x[1] * y for x, y in zip(vals, w)]
    v = [x[2] * y for x, y in zip(vals, w)]
    bu, bf, bv = base.value(q, h)
    um = sum(u[1:], u[0]) / n

    def mix(us):
        m = sum(us[1:], us[0]) / n
        s = sum([(z - m) * (z - m) for z in us][1:], (us[0] - m) * (us[0] - m)) / (n - 1)
        return m * sb * sb / (sb * sb + al * al * s)

    ctx.ensure_eq("energy", r["result"][0], bu + mix(u) - off)
    # chain rule: d(mix)/d(u_i) times the force of member i
    var = sum([(z - um) * (z - um) for z in u][1:], (u[0] - um) * (u[0] - um)) * al * al / (n - 1)
    wt = sb * sb / (sb * sb + var)
    du = [wt / n - um * sb * sb / ((sb * sb + var) * (sb * sb + var)) * 2 * al * al * (z - um) / (n - 1) for z in u]
    if not ctx.sym:
        for i in range(n):
            e = 1e-5
            up, dn = list(u), list(u)
            up[i] += e
            dn[i] -= e
            ctx.ensure_eq("oracle", du[i], (mix(up) - mix(dn)) / (2 * e), tol=1e-5)
    ctx.ensure_eq("force", r["result"][1], bf + sum([d * x for d, x in zip(du, f)][1:], du[0] * f[0]))
    ctx.ensure_eq("virial", r["result"][2], bv + sum([d * x for d, x in zip(du, v)][1:], du[0] * v[0]))
    x = r["result"][3]
    ctx.ensure_eq("baseline energy reported", x["baseline_pot"][0], bu)
    ctx.ensure_eq("baseline force reported", x["baseline_force"][0], bf)
    ctx.ensure_eq("mixing reported", x["wb_mixing"][0], wt)
    for m in ffs + [base]:
        ctx.ensure("asked once and released", len(m.log) == 1 and len(m.requests) == 0)


@contract("P05", "committee-json", [F + "FFCommittee.gather"], sym=False, samples=(40, 300), why="dictionary of text extras")
def _cjson(ctx):
    """members reported by one provider in its extras count as members, with and without their forces"""
    n, k = ctx.choice("n", [1, 2]), ctx.choice("inner", [2, 3])
    withf = ctx.choice("forces", [True, False])
    q, a, c = setup(ctx, 2)
    E, Fo, V = (_np.asarray(ctx.array("e", (n, k))), _np.asarray(ctx.array("f", (n, k, 6))), _np.asarray(ctx.array("v", (n, k, 3, 3))))

    def ex(i, q, h):
        d = {"committee_pot": list(E[i]), "other": [float(i)]}
        if withf:
            d["committee_force"] = Fo[i].tolist()
            d["committee_virial"] = V[i].tolist()
        return d

    if not withf and n * k == k and n == 1:
        pass
    elif not withf:
        ctx.assume(False)
    ff, ffs, base, w = committee(ctx, n, extras=ex, parse_json=True, weights=True)
    vals = [m.value(q, val(c.h)) for m in ffs]
    r = ff.queue(a, c)
    ff.poll()
    W = _np.asarray(w)
    u = (E * W[:, None]).reshape(-1)
    ctx.ensure_eq("energy", r["result"][0], u.mean())
    x = r["result"][3]
    ctx.ensure_eq("uncertainty", x["committee_uncertainty"], u.std(ddof=1))
    if withf:
        ctx.ensure_eq("force", r["result"][1], (Fo * W[:, None, None]).reshape(-1, 6).mean(axis=0))
        ctx.ensure_eq("virial", r["result"][2], (V * W[:, None, None, None]).reshape(-1, 3, 3).mean(axis=0))
    else:
        ctx.ensure_eq("force", r["result"][1], vals[0][1] * w[0])
        ctx.ensure("no member forces invented", "committee_force" not in x)
    ctx.ensure("other extras of every provider", [list(y) for y in x["committee_other"]] == [[float(i)] for i in range(n)])


@contract("P05", "committee-input", [F + "FFCommittee.__init__", F + "FFCommittee.bind", F + "FFCommittee.gather"], sym=False, samples=(10, 40),
          why="refusal of input; file output")
def _cinput(ctx):
    """inconsistent input is refused; structures whose uncertainty exceeds the threshold, and only those, are written out"""
    q, a, c = setup(ctx, 2)
    o = [Opaque(ctx, "m%d" % i) for i in range(3)]
    for kw in (dict(fflist=[]), dict(fflist=o, ffweights=[1.0, 2.0]), dict(fflist=o, baseline_name="m0"), dict(fflist=o, baseline_uncertainty=1.0),
               dict(fflist=o, ffweights=[1.0] * 3, baseline_name="m0", baseline_uncertainty=1.0)):
        try:
            FF.FFCommittee(name="c", dopbc=False, **kw)
            ctx.ensure("refused", False)
        except ValueError:
            pass
    ff = FF.FFCommittee(name="c", dopbc=False, fflist=o, active_thresh=1.0)
    try:
        ff.bind(None)
        ctx.ensure("refused without output file", False)
    except ValueError:
        pass
    out = []
    om = types.SimpleNamespace(get_output=lambda name, mode: types.SimpleNamespace(write=out.append))
    u = _np.array([x.value(q, val(c.h))[0] for x in o])
    s = u.std(ddof=1)
    for f in (0.5, 2.0):
        ff = FF.FFCommittee(name="c", dopbc=False, fflist=o, active_thresh=float(s * f), active_out="x")
        ff.bind(om)
        ff.queue(a, c)
        ff.poll()
        ctx.ensure("written exactly when uncertain", len(out) == 1)
    d = json.loads(out[0])
    ctx.ensure_eq("positions written", _np.array(d["position"]), q)
    ctx.ensure_eq("cell written", _np.array(d["cell"]).reshape(3, 3), val(c.h))
    ctx.ensure_eq("uncertainty written", d["uncertainty"], s)


# ---------------------------------------------------------------- rotations
class Rng:
    def __init__(self, rng):
        self.r = rng

    def gvec(self, shape):
        return _np.array([self.r.gauss(0, 1) for _ in range(int(_np.prod(shape)))]).reshape(shape)

    @property
    def u(self):
        return self.r.random()


class Model(Opaque):
    """an equivariant model (pair potential) plus a lab-frame term that averages out"""

    def __init__(self, ctx, name, lab):
        super().__init__(ctx, name, done=True)
        self.lab = lab

    def value(self, q, h):
        x = _np.asarray(q).reshape(-1, 3)
        n = len(x)
        u, f, v = 0.0, _np.zeros((n, 3)), _np.zeros((3, 3))
        for i in range(n):
            for j in range(i):
                d = x[i] - x[j]
                r2 = d @ d
                u += 1 / (1 + r2)
                g = 2 * d / (1 + r2) ** 2
                f[i] += g
                f[j] -= g
                v += _np.outer(g, d)
        u += _np.log(abs(_np.linalg.det(h)))
        v -= _np.eye(3)
        for k, (c, b) in self.lab.items():
            # lab-frame dependence of degree k in the orientation
            s = (x @ b)
            u += c * (s**k).sum()
            f -= c * k * (s ** (k - 1))[:, None] * b[None, :]
            for i in range(n):
                v -= c * k * s[i] ** (k - 1) * _np.outer(b, x[i])
        return u, f.reshape(-1), v


@contract("P05", "rotations", [F + "FFRotations." + x for x in ("__init__", "queue", "check_finish", "gather", "poll")] +
          ["ipi/utils/mathtools.py:" + x for x in ("random_rotation", "euler_zxz_to_matrix")], sym=False, samples=(40, 200),
          why="quadrature tables and random rotations are numerical")
def _rot(ctx):
    """for a model that transforms correctly under rotation the average over rotations is the model itself (energy, forces, virial), with random
    rotations and inversion; otherwise it is the weighted average of the rotated-back answers; each request is answered once and released"""
    rng = ctx.rng
    mode, order = ctx.choice("grid", [("lebedev", 3), ("lebedev", 5), ("legendre", 1), ("legendre", 2), ("legendre", 3)])
    inv, rnd = ctx.choice("inversion", [False, True]), ctx.choice("random", [False, True])
    nat = ctx.choice("natoms", [1, 2, 3])
    q, a, c = setup(ctx, nat)
    q = _np.asarray(q)
    h = val(c.h)
    off = float(ctx.real("offset"))
    equi = ctx.choice("model", ["equivariant", "lab-frame"])
    lab = {} if equi == "equivariant" else {1: (0.3, _np.array([1.0, 0.2, -0.3])), 3: (0.2, _np.array([0.1, -1.0, 0.4])),
                                               2: (0.4, _np.array([0.5, 0.3, -0.8])), 4: (0.1, _np.array([0.7, -0.2, 0.6]))}
    m = Model(ctx, "m", lab)
    ff = FF.FFRotations(name="r", offset=off, dopbc=False, prng=Rng(rng), ffdirect=m, random=rnd, inversion=inv, grid_order=order, grid_mode=mode)
    st = []
    r = ff.queue(a, c, reqid=5)
    ctx.ensure_eq("the atoms do not move", a.q, q)
    log = list(m.log)
    ff.poll()
    ctx.ensure("done", r["status"] == "Done" and r._event_done.is_set())
    ctx.ensure("inner requests released", len(m.requests) == 0)
    ctx.ensure("grid size", len(log) == len(ff._rotations) * (2 if inv else 1))
    Rs = []
    for qq, hh, rid in log:
        R = hh @ _np.linalg.inv(h)
        ctx.ensure_eq("a rotation", R @ R.T, _np.eye(3), tol=1e-9)
        ctx.ensure_eq("cell and atoms are rotated together", qq.reshape(-1, 3), q.reshape(-1, 3) @ R.T, tol=1e-9)
        ctx.ensure("request id is passed on", rid == 5)
        Rs.append(R)
    if inv:
        for k in range(0, len(Rs), 2):
            ctx.ensure_eq("inversion", Rs[k + 1], -Rs[k], tol=1e-9)
    if not rnd and not inv:
        ctx.ensure("proper rotations", all(_np.linalg.det(R) > 0 for R in Rs))
    w = _np.repeat([x[1] for x in ff._rotations], 2 if inv else 1)
    w = w / w.sum()
    vals = [m.value(x[0], x[1]) for x in log]
    if equi == "equivariant":
        u, f, v = m.value(q, h)
    else:
        u = sum(ww * x[0] for ww, x in zip(w, vals))
        f = sum(ww * (x[1].reshape(-1, 3) @ R) for ww, x, R in zip(w, vals, Rs)).reshape(-1)
        v = sum(ww * (R.T @ x[2] @ R) for ww, x, R in zip(w, vals, Rs))
    ctx.ensure_eq("energy", r["result"][0], u - off, tol=1e-9)
    ctx.ensure_eq("force", r["result"][1], f, tol=1e-9)
    ctx.ensure_eq("virial", r["result"][2], v, tol=1e-9)
    ctx.ensure_eq("energies on the grid", _np.asarray(r["result"][3]["o3grid_pots"]), _np.array([x[0] for x in vals]), tol=1e-9)
    ctx.ensure("raw text stays text", isinstance(r["result"][3]["raw"], str))


@contract("P05", "quadrature", ["ipi/utils/mathtools.py:" + x for x in ("get_rotation_quadrature_lebedev", "get_rotation_quadrature_legendre",
                                                                         "roots_legendre", "euler_zxz_to_matrix")], sym=False, samples=(30, 150),
          why="quadrature tables are numerical")
def _quad(ctx):
    """the grids average out every dependence on orientation below their order: the mean of any monomial in the rotation matrix is the uniform one"""
    mode, order = ctx.choice("grid", [("lebedev", 3), ("lebedev", 5), ("lebedev", 7), ("legendre", 2), ("legendre", 3), ("legendre", 4)])
    g = (MT.get_rotation_quadrature_lebedev if mode == "lebedev" else MT.get_rotation_quadrature_legendre)(order)
    R = _np.array([x[0] for x in g])
    w = _np.array([x[1] for x in g])
    w = w / w.sum()
    for x in R:
        ctx.ensure_eq("orthogonal", x @ x.T, _np.eye(3), tol=1e-9)
        ctx.ensure("proper", _np.linalg.det(x) > 0)
    top = order - 1 if mode == "lebedev" else 2 * order - 2
    u, v = _np.asarray(ctx.array("u", (3,))), _np.asarray(ctx.array("v", (3,)))
    u, v = u / _np.linalg.norm(u), v / _np.linalg.norm(v)
    for k in range(1, top + 1):
        m = (w * (_np.einsum("a,nab,b->n", u, R, v)) ** k).sum()
        ctx.ensure_eq("degree %d" % k, m, 1.0 / (k + 1) if k % 2 == 0 else 0.0, tol=1e-8)
    if top >= 2:
        ctx.ensure_eq("no correlation between different rows", _np.einsum("n,nab,ncd->abcd", w, R, R),
                      _np.einsum("ac,bd->abcd", _np.eye(3), _np.eye(3)) / 3.0, tol=1e-8)


@contract("P05", "rotations-race", [F + "FFRotations.queue", F + "FFRotations.poll", F + "FFCommittee.queue", F + "FFCommittee.poll"], sym=False, samples=(12, 60),
          why="threads are outside the verifier")
def _race(ctx):
    """a request that the polling thread finishes at the earliest possible moment stays finished"""
    kind = ctx.choice("kind", ["rotations", "committee"])
    q, a, c = setup(ctx, 2)
    m = Model(ctx, "m", {})
    if kind == "rotations":
        ff = FF.FFRotations(name="r", dopbc=False, prng=Rng(ctx.rng), ffdirect=m, grid_order=1, grid_mode="legendre")
    else:
        ff = FF.FFCommittee(name="r", dopbc=False, fflist=[m, Model(ctx, "m2", {})])

    class L(list):
        """polls as soon as a request enters the list, and the lock is free"""

        def append(self, x):
            super().append(x)
            armed.append(x)

    armed = []
    ff.requests = L()
    lock = ff._threadlock

    class Lock:
        def __enter__(self):
            lock.acquire()

        def __exit__(self, *a):
            lock.release()
            if armed and not polling:
                polling.append(1)
                del armed[:]
                ff.poll()
                del polling[:]

    polling = []
    ff._threadlock = Lock()
    r = ff.queue(a, c)
    ctx.ensure("stays done", r["status"] == "Done" and r._event_done.is_set())
    ctx.ensure("with its result", r["result"] is not None)


# ---------------------------------------------------------------- cavity
@contract("P05", "cavity", [F + "PhotonDriver." + x for x in ("split_atom_ph_coord", "get_ph_energy", "get_ph_forces", "get_nuc_cav_forces", "init_photon")] +
          [F + "FFCavPhSocket." + x for x in ("queue", "calc_dipole_xyz_mm", "combine_bath_extras")], samples=(40, 200), tol=1e-6, limit=150)
def _cavity(ctx):
    """molecules plus two photon modes: the energy is that of the molecules plus 1/2 w^2 q^2 + e q.mu + e^2 mu^2/2w^2 and every force is minus its
    gradient, with charges or with a dipole surface, in both layouts of the photon coordinates; the offset is subtracted once"""
    np = ctx.np
    rep = ctx.choice("layout", ["loose", "dense"])
    surf = ctx.choice("dipole", [False, True])
    apply_ = ctx.choice("photons", ["on", "evaluated elsewhere", "off"])
    nat = ctx.choice("natoms", [1, 2])
    nph = 0 if apply_ == "off" else (2 if rep == "loose" else 1)
    q, a, c = setup(ctx, nat + nph)
    h = val(c.h)
    e0, w, off = ctx.real("E0", pos=True), ctx.real("w", pos=True), ctx.real("offset")
    Z = ctx.array("Z", (nat,))
    D = ctx.array("D", (3, 3 * nat))
    D0 = ctx.array("D0", (3,))
    seen = []

    class Iface:
        requests, offset, batch_size, consolidate_messages = None, 0.0, 1, True

        def poll(self):
            for r in self.requests:
                if r["status"] == "Queued":
                    x = r["pos"]
                    seen.append(x)
                    u = ctx.opaque("u", [x, r["cell"][0]])
                    f = ctx.opaque("f", [x, r["cell"][0]], shape=x.shape)
                    v = ctx.opaque("v", [x, r["cell"][0]], shape=(3, 3))
                    r["result"] = [u - self.offset, f, v, {"raw": "t", "dipole": np.dot(D, x) + D0, "dipole_derivative": der(D)}]
                    r["status"] = "Done"
                    r._event_done.set()

    def der(D):
        # (atom, dipole component, coordinate)
        out = np.zeros((nat, 3, 3))
        for i in range(nat):
            for k in range(3):
                for x in range(3):
                    out[i, k, x] = D[k, 3 * i + x]
        return out.reshape(-1)

    ff = FF.FFCavPhSocket(latency=0, offset=off, name="c", dopbc=False, threaded=False, interface=Iface(), charge_array=Z, apply_photon=apply_ != "off",
                          dipole_surface=surf, evaluate_photon=apply_ == "on", E0=e0, omega_c=w, ph_rep=rep)
    r = ff.queue(a, c, reqid=2)
    qa = q[:3 * nat]

    def energy(x):
        xa, xp = x[:3 * nat], x[3 * nat:]
        if surf:
            mu = np.dot(D, xa) + D0
        else:
            mu = [sum([Z[i] * xa[3 * i + k] for i in range(1, nat)], Z[0] * xa[k]) for k in range(2)]
        e = 0.5 * w * w * sum([xp[i] * xp[i] for i in range(1, len(xp))], xp[0] * xp[0])
        cx, cy = (xp[0], xp[4]) if rep == "loose" else (xp[0], xp[1])
        return e + e0 * (mu[0] * cx + mu[1] * cy) + e0 * e0 / (2 * w * w) * (mu[0] * mu[0] + mu[1] * mu[1])

    u = ctx.opaque("u", [qa, h])
    f = np.zeros(3 * (nat + nph))
    f[:3 * nat] = ctx.opaque("f", [qa, h], shape=qa.shape)
    if apply_ == "on":
        u = u + energy(q)
        f = f - grad(ctx, energy, q)
    ctx.ensure("done", r["status"] == "Done")
    ctx.ensure("the client was asked once", len(seen) == 1)
    ctx.ensure_eq("the client sees the molecules only", seen[0], qa)
    ctx.ensure_eq("energy", r["result"][0], u - off)
    ctx.ensure_eq("force", r["result"][1], f)
    ctx.ensure_eq("virial", r["result"][2], ctx.opaque("v", [qa, h], shape=(3, 3)))
    ctx.ensure("request id and text", r["id"] == 2 and r["result"][3]["raw"] == "t")
    ctx.ensure("queue empty", len(ff.requests) == 0)
    ctx.ensure_eq("the atoms do not move", a.q, q)


# ---------------------------------------------------------------- plumed
class FakePlumed:
    """what the PLUMED library promises: it adds the bias force and virial to the arrays it is given"""
    inst = None

    def __init__(self):
        FakePlumed.inst = self
        self.d = {}
        self.calls = []
        self.hist = []
        self.k = 0.0
        self.bias = 0.0

    def cmd(self, what, arg=None):
        self.calls.append(what)
        self.d[what] = arg
        if what in ("performCalcNoUpdate", "performCalcNoForces"):
            x, box = self.d["setPositions"], self.d["setBox"]
            # bias k * (sum_i x_i . b) with b from the cell rows, plus a term in the volume
            self.pos_seen, self.box_seen = x.copy(), box.copy()
            g = 2 * self.k * x
            self.bias = self.k * float((x**2).sum()) + self.k * float(box[0, 1])
            if what == "performCalcNoUpdate":
                self.d["setForces"] -= g
                self.d["setVirial"] += _np.einsum("na,nb->ab", g, x)
        if what == "getBias":
            arg[0] = self.bias
        if what == "update":
            self.k += 0.5

    def finalize(self):
        pass


@contract("P05", "plumed", [F + "FFPlumed." + x for x in ("__init__", "evaluate", "mtd_update")], sym=False, samples=(20, 100),
          why="external library replaced by its promise; file input")
def _plumed(ctx):
    """the answer is the bias, bias force and bias virial for the positions and lattice vectors of the request, also when the physical energy is handed
    over as a collective variable; updating the bias returns the work done, for current or moved positions"""
    nat = ctx.choice("natoms", [1, 2, 3])
    off = float(ctx.real("offset"))
    q, a, c = setup(ctx, nat)
    q = _np.asarray(q)
    mod = types.ModuleType("plumed")
    mod.Plumed = FakePlumed
    old = sys.modules.get("plumed")
    sys.modules["plumed"] = mod
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, "i.xyz")
        with open(fn, "w") as f:
            f.write("%d\n# CELL(abcABC): 10 10 10 90 90 90\n" % nat + "H 0 0 0\n" * nat)
        try:
            from ipi.engine.initializer import InitFile
            ff = FF.FFPlumed(name="p", offset=off, init_file=InitFile(fn, mode="xyz", units="angstrom"), plumed_dat="x", compute_work=True)
        finally:
            if old is None:
                del sys.modules["plumed"]
            else:
                sys.modules["plumed"] = old
    P = FakePlumed.inst
    P.k = float(ctx.real("k"))
    phys = ctx.choice("physical", [False, True])
    if phys:
        ff.system_force = types.SimpleNamespace(f=_np.asarray(ctx.array("pf", (1, 3 * nat))), vir=_np.asarray(ctx.array("pv", (3, 3))), pot=1.5)
    r = ff.queue(a, c)
    h = val(c.h)
    k = P.k
    x = q.reshape(-1, 3)
    ctx.ensure_eq("positions", P.pos_seen, x)
    ctx.ensure_eq("rows of the box are the lattice vectors", P.box_seen, h.T)
    ctx.ensure_eq("energy", r["result"][0], k * (q**2).sum() + k * h.T[0, 1] - off)
    ctx.ensure_eq("force", r["result"][1], -2 * k * q)
    ctx.ensure_eq("virial", r["result"][2], -2 * k * x.T @ x)
    if phys:
        ctx.ensure("energy handed over", P.d["setEnergy"] == 1.5)
    ff.release(r)
    step = ff.plumed_step
    q = q + ctx.choice("moved", [0.0, 1e-6, 1e-3, 0.25])
    w = ff.mtd_update(q, h)
    ctx.ensure("one step", ff.plumed_step == step + 1 and P.d["setStep"] == ff.plumed_step)
    ctx.ensure("one update", P.calls.count("update") == 1)
    e = (q**2).sum() + h.T[0, 1]
    ctx.ensure_eq("work", w, k * e - (k + 0.5) * e, tol=1e-9)


# ---------------------------------------------------------------- bundled potentials
def pes(ctx, name, *args, **kw):
    return PES.load_pes(name, "")(*args, **kw)


def pes_check(ctx, d, q, h, energy, batch=True):
    """energy per formula, force = -gradient, zero virial, batch = one by one"""
    np = ctx.np
    n = len(q) // 3
    out = d(h, q.reshape((n, 3)))

    def one(out, q):
        u, f, v, x = out
        if hasattr(u, "shape") and u.shape != ():
            u = u.reshape(-1)
            ctx.ensure("one energy", len(u) == 1)
            u = u[0]
        ctx.ensure_eq("energy", u, energy(q))
        ctx.ensure_eq("force", f.reshape(-1), -grad(ctx, energy, q))
        ctx.ensure_eq("virial", v, np.zeros((3, 3)))

    one(out, q)
    if batch:
        q2 = ctx.array("qb", (len(q),))
        res = d([h, h], [q.reshape((n, 3)), q2.reshape((n, 3))])
        ctx.ensure("one answer each", len(res) == 2)
        one(res[0], q)
        one(res[1], q2)
    return out


CM = 4.5563352529120e-06      # cm^-1 in atomic units
ANG = 1.0 / 0.529177210903


@contract("P05", "pes-harmonic", ["ipi/pes/harmonic.py:Harmonic_driver." + x for x in ("__init__", "compute_structure", "compute")] +
          ["ipi/pes/dummy.py:Dummy_driver.compute"], samples=(30, 200), tol=1e-6)
def _ph(ctx):
    """harmonic confinement, isotropic or along each axis"""
    nat = ctx.choice("natoms", [1, 2])
    q = ctx.array("q", (3 * nat,))
    h = upper_h(ctx)
    k = [ctx.real("k%d" % i, pos=True) for i in range(3)]
    kind = ctx.choice("kind", ["isotropic", "anisotropic"])
    d = pes(ctx, "harmonic", k[0]) if kind == "isotropic" else pes(ctx, "harmonic", *k)
    kk = [k[0]] * 3 if kind == "isotropic" else k

    def energy(x):
        v = 0.0
        for i in range(3 * nat):
            v = v + 0.5 * kk[i % 3] * x[i] * x[i]
        return v

    pes_check(ctx, d, q, h, energy)


@contract("P05", "pes-none", ["ipi/pes/gas.py:Gas_driver.compute", "ipi/pes/dummy.py:Dummy_driver.compute_structure"], samples=(10, 60))
def _pn(ctx):
    """non-interacting particles"""
    nat = ctx.choice("natoms", [1, 2])
    q = ctx.array("q", (3 * nat,))
    pes_check(ctx, pes(ctx, ctx.choice("pes", ["gas", "dummy"])), q, upper_h(ctx), lambda x: x[0] * 0.0)


@contract("P05", "pes-morse", ["ipi/pes/morse.py:MorseHarmonic_driver." + x for x in ("__init__", "compute_structure", "both", "potential", "force")],
          samples=(30, 200), tol=1e-5)
def _pm(ctx):
    """fourth-order Morse along z plus harmonic in the plane, parameters in eV and angstrom or the documented defaults"""
    nat = ctx.choice("natoms", [1, 2])
    q = ctx.array("q", (3 * nat,))
    h = upper_h(ctx)
    import contextlib
    import io
    EV = 1 / 27.211386245988
    p = [ctx.real(x, pos=True) for x in ("De", "a", "z0", "k")]
    kind = ctx.choice("parameters", ["given", "default"])
    with contextlib.redirect_stdout(io.StringIO()):
        d = pes(ctx, "MorseHarmonic", *p) if kind == "given" else pes(ctx, "MorseHarmonic")
    if kind == "given":
        De, a, z0, k = d.De, d.a, d.z0, d.k
        import ipi.pes.morse as MO
        ctx.ensure("units", abs(MO.ev2au / EV - 1) < 1e-4 and abs(MO.A2au / ANG - 1) < 1e-4)
        ctx.ensure_eq("De", De, p[0] * MO.ev2au)
        ctx.ensure_eq("a", a, p[1] / MO.A2au)
        ctx.ensure_eq("z0", z0, p[2] * MO.A2au)
        ctx.ensure_eq("k", k, p[3] * MO.ev2au / MO.A2au**2)
    else:
        De, a, z0, k = 0.00735, 1.61, 2.1, 0.343

    def energy(x):
        v = 0.0
        for i in range(nat):
            z = (x[3 * i + 2] - z0) * a
            v = v + De * (z * z - z * z * z + z * z * z * z * 7 / 12) + 0.5 * k * (x[3 * i] * x[3 * i] + x[3 * i + 1] * x[3 * i + 1])
        return v

    pes_check(ctx, d, q, h, energy)
    x = q.reshape((nat, 3))
    u, f = d.both(x)
    ctx.ensure_eq("energy alone", d.potential(x), u)
    ctx.ensure_eq("force alone", d.force(x), f)


def dw_params(ctx):
    """frequency and barrier (to be scaled to cm^-1), mass, displacement"""
    return [ctx.real(x, pos=True) for x in ("wb", "v0", "m")] + [ctx.real("delta")]


def dw_energy(wb, v0, m, delta, x):
    return -0.5 * m * wb * wb * (x - delta) * (x - delta) + m * m * wb**4 / (16 * v0) * x**4


@contract("P05", "pes-doublewell", ["ipi/pes/doublewell.py:DoubleWell_driver." + x for x in ("__init__", "compute_structure")] +
          ["ipi/pes/doublewell_with_friction.py:DoubleWell_with_friction_driver." + x for x in ("__init__", "compute_structure", "get_friction_tensor",
           "SD", "dSD_dq")], samples=(30, 200), tol=1e-5)
def _pd(ctx):
    """double well along x with the documented parameters, with and without position-dependent friction"""
    np = ctx.np
    q = ctx.array("q", (3,))
    h = upper_h(ctx)
    import contextlib
    import io
    kind = ctx.choice("pes", ["DW", "DW default", "DW_friction"])
    wb, v0, m, de = dw_params(ctx)
    fr = [ctx.real(x, pos=True) for x in ("eta0", "eps1", "eps2", "dQ")]
    import ipi.pes.doublewell as DW
    cm, an = DW.invcm2au, DW.A2au
    wb, v0 = wb / cm, (v0 + (0 if ctx.sym else 0.4)) / cm
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "DW":
            d = pes(ctx, "DW", w_b=wb, v0=v0, m=m, delta=de)
        elif kind == "DW default":
            d = pes(ctx, "DW")
            wb, v0, m, de = 500, 2085, 1837.36223469, 0.0
        else:
            d = pes(ctx, "DW_friction", *([wb, v0, m, de] + fr))
    ctx.ensure("units", abs(DW.invcm2au / CM - 1) < 1e-4 and abs(DW.A2au / ANG - 1) < 1e-4)
    kk = 1837.36223469 * (3800.0 / 219323.0) ** 2

    def energy(x):
        return dw_energy(wb * cm, v0 * cm, m, de * an, x[0]) + 0.5 * kk * (x[1] * x[1] + x[2] * x[2])

    if ctx.sym and kind == "DW_friction":
        # the text of the friction is bounded; the tensor itself is under contract
        def eta(x):
            return x * (1 + fr[1] * np.exp(-x * x / (2 * fr[3] * fr[3])) + fr[2] * np.tanh(x / fr[3]))
        g = grad(ctx, lambda y: eta(y[0]), q)
        t = d.get_friction_tensor(q.reshape((1, 3)))
        ctx.ensure_eq("friction", t[0, 0], fr[0] * g[0] * g[0])
        u, f, v, x = super(type(d), d).compute_structure(h, q.reshape((1, 3)))
        ctx.ensure_eq("energy", u[0], energy(q))
        ctx.ensure_eq("force", f.reshape(-1), -grad(ctx, energy, q))
        return
    out = pes_check(ctx, d, q, h, energy)
    if kind == "DW_friction":
        def s(x):
            return x * (1 + fr[1] * _np.exp(-x * x / (2 * fr[3] ** 2)) + fr[2] * _np.tanh(x / fr[3]))
        e = 1e-5
        ds = (s(q[0] + e) - s(q[0] - e)) / (2 * e)
        t = _np.array(json.loads(out[3])["friction"])
        w = _np.zeros((3, 3))
        w[0, 0] = fr[0] * ds * ds
        ctx.ensure_eq("friction", t / (1 + abs(w).max()), w / (1 + abs(w).max()), tol=1e-5)


@contract("P05", "pes-bath", ["ipi/pes/bath.py:Harmonic_Bath_explicit." + x for x in ("__init__", "set_ci_and_wi", "S", "SD", "dSD_dq", "compute_structure")] +
          ["ipi/pes/doublewell_with_bath.py:DoubleWell_with_explicit_bath_driver.compute_structure",
           "ipi/pes/doubledoublewell.py:DDW_with_explicit_bath_driver.compute_structure"], samples=(30, 200), tol=1e-5, limit=150)
def _pb(ctx):
    """one or two double wells coupled to explicit harmonic baths: documented energy, forces minus its gradient"""
    np = ctx.np
    h = upper_h(ctx)
    kind = ctx.choice("pes", ["DW_bath", "double_double_well"])
    wb, v0, m, de = dw_params(ctx)
    wb2, v2, C = ctx.real("wb2", pos=True), ctx.real("v2", pos=True), ctx.real("C")
    eta, e1, e2, dQ, wc = [ctx.real(x, pos=True) for x in ("eta0", "eps1", "eps2", "dQ", "wc")]
    nat = 1 if kind == "DW_bath" else 2
    q = ctx.array("q", (3 * nat,))
    import ipi.pes.doublewell as DW
    cm, an = DW.invcm2au, DW.A2au
    # parameters such that all terms have similar size
    wb, v0, wb2, v2, wc = [(x + (0 if ctx.sym else 0.4)) / cm for x in (wb, v0, wb2, v2, wc)]
    W = wc * cm

    def s(x):
        return x * (1 + e1 * np.exp(-x * x / (2 * dQ * dQ)) + e2 * np.tanh(x / dQ))

    def bath(x, ys):
        n = len(ys)
        v = 0.0
        for i in range(n):
            om = -W * np.log((i + 0.5) / n)
            c = om * np.sqrt(2 * eta * m * W / (n * np.pi))
            d = ys[i] - c * s(x) / (m * om * om)
            v = v + 0.5 * m * om * om * d * d
        return v

    if kind == "DW_bath":
        d = pes(ctx, "DW_bath", wb, v0, m, de, eta, e1, e2, dQ, wc)

        def energy(x):
            return dw_energy(wb * cm, v0 * cm, m, de * an, x[0]) + bath(x[0], [x[i] for i in range(1, 3 * nat)])
    else:
        d = pes(ctx, "double_double_well", wb, v0, wb2, v2, C, m, de, eta, e1, e2, dQ, wc)
        nb = 3 * nat // 2 + 1

        def energy(x):
            return (dw_energy(wb * cm, v0 * cm, m, de * an, x[0]) + dw_energy(wb2 * cm, v2 * cm, m, de * an, x[1]) + C * x[0] * x[1]
                    + bath(x[0], [x[i] for i in range(2, nb)]) + bath(x[1], [x[i] for i in range(nb, 3 * nat)]))

    if not ctx.sym:
        q = q * 0.7
    u, f, v, _ = d(h, q.reshape((nat, 3)))
    u = u.reshape(-1)[0]
    e = energy(q)
    g = grad(ctx, energy, q)
    sc = 1.0 if ctx.sym else 1.0 / (1 + abs(_np.asarray(g)).max() + abs(float(e)))
    ctx.ensure_eq("energy", u * sc, e * sc)
    ctx.ensure_eq("force", f.reshape(-1) * sc, -g * sc)
    ctx.ensure_eq("virial", v, np.zeros((3, 3)))


@contract("P05", "pes-spherical", ["ipi/pes/spherical_LJ.py:" + x for x in ("Spherical_LJ_driver.__init__", "Spherical_LJ_driver.compute_structure",
                                                                             "compute_energy_and_forces", "convert")], sym=False, samples=(60, 300), tol=1e-5,
          why="high powers of a square root exceed the term size limit")
def _ps(ctx):
    """spherical confinement of the selected species, parameters in the stated units"""
    np = ctx.np
    import ipi.pes.spherical_LJ as SL
    q = ctx.array("q", (9,))
    h = upper_h(ctx)
    sym = ["O", "H", "O"]
    ce = ctx.array("center", (3,))
    R, sg, ep = ctx.real("R", pos=True), ctx.real("sigma", pos=True), ctx.real("eps", pos=True)
    p1, p2 = ctx.choice("powers", [(9, 3), (12, 6)])
    R = R + 10.0 + float(abs(_np.asarray(q)).max() + abs(_np.asarray(ce)).max()) * 2
    un = ctx.choice("unit", ["atomic_unit", "angstrom"])
    eu = ctx.choice("eunit", ["atomic_unit", "electronvolt"])
    ins = {"center": list(map(float, ce)), "radius": float(R), "sigma": float(sg), "epsilon": float(ep), "center_unit": un, "radius_unit": un, "sigma_unit": un,
           "epsilon_unit": eu, "symbols": ["O"], "first_power": p1, "second_power": p2}
    d = SL.Spherical_LJ_driver(template="", instructions=ins, symbols=sym)
    k = ANG if un == "angstrom" else 1.0
    ce, R, sg = _np.asarray(ce) * k, R * k, sg * k
    ep = ep * (1 / 27.211386245988 if eu == "electronvolt" else 1.0)

    def energy(x):
        v = 0.0
        for i in (0, 2):
            y = x[3 * i:3 * i + 3] - ce
            r = R - np.sqrt(y[0] * y[0] + y[1] * y[1] + y[2] * y[2])
            v = v + ep * (2 * (sg / r) ** p1 / 15 - (sg / r) ** p2)
        return v

    # at the very centre the force is not defined
    ctx.assume(all(_np.linalg.norm(q[3 * i:3 * i + 3] - ce) > 1e-2 for i in (0, 2)))
    u, f, v, _ = d.compute_structure(h, q.reshape((3, 3)))
    e, g = energy(q), grad(ctx, energy, q)
    sc = 1.0 if ctx.sym else 1.0 / (abs(_np.asarray(g)).max() + abs(float(e)))
    ctx.ensure_eq("energy", u * sc, e * sc)
    ctx.ensure_eq("force", f.reshape(-1) * sc, -g * sc, tol=1e-4)
    ctx.ensure_eq("virial", v, np.zeros((3, 3)))
