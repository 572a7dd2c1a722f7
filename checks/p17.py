"""P17: exchange moves are exact Monte Carlo moves and are accounted for.

Replica exchange.  One attempted exchange of two systems is a map of the joint
state (parameters, momenta, reference cells) followed by an acceptance test.
The contracts state, for every state and every random number,
 - what the map is, that it conserves phase-space volume and that a rejected
   attempt leaves nothing behind;
 - that the attempt is accepted exactly when the random number lies below the
   ratio of the probabilities of the joint states (those of freshly built
   systems with the exchanged parameters, and so of nothing cached);
 - that the conserved quantity of either system does not jump.
Alchemical and atom-swap moves: the same, with the probability written out.
"""
import numpy as _np
from pyvc.contracts import contract
from checks.build import make_system, OpaqueFF, fcomp, val, StubPRNG, Sys
import ipi.engine.ensembles
import ipi.engine.barostats as BA
import ipi.engine.thermostats as TH
from ipi.engine.cell import Cell
from ipi.engine.smotion.remd import ReplicaExchange
from ipi.engine.motion.alchemy import AlchemyMC
from ipi.engine.motion.atomswap import AtomSwap
from ipi.engine.motion.ramp import TemperatureRamp, PressureRamp
from ipi.utils.units import Constants

KB = Constants.kb


class Tag:
    """The inputs of one of several systems: same names give the same values."""

    def __init__(self, ctx, tag):
        self.c, self.t, self.memo = ctx, tag, {}
        self.sym, self.np = ctx.sym, ctx.np

    def _get(self, kind, name, *a, **k):
        if name not in self.memo:
            self.memo[name] = getattr(self.c, kind)(self.t + name, *a, **k)
        v = self.memo[name]
        return v.copy() if hasattr(v, "copy") else v

    def real(self, name, *a, **k):
        return self._get("real", name, *a, **k)

    def array(self, name, *a, **k):
        return self._get("array", name, *a, **k)

    def opaque(self, *a, **k):
        return self.c.opaque(*a, **k)

    def __getattr__(self, n):
        return getattr(self.c, n)


class Draws:
    """A generator whose uniform numbers are the free inputs u0, u1, ..."""

    def __init__(self, ctx, ints=()):
        self.ctx, self.us, self.ints, self.ntries = ctx, [], list(ints), None

    @property
    def u(self):
        v = self.ctx.real("draw%d" % len(self.us), lo=0, hi=1)
        self.us.append(v)
        return v

    def integers(self, lo, hi=None):
        return self.ints.pop(0)

    def poisson(self, lam):
        return self.ntries

    def __getattr__(self, n):
        raise AssertionError("unexpected draw " + n)


class Out:
    def __init__(self):
        self.text = ""

    def get_output(self, *a, **k):
        return self

    def write(self, s):
        self.text += s

    def force_flush(self):
        pass


PARAMS = ("temp", "pext", "stressext", "bweights", "hweights")


def build(ctx, tag, case):
    """One system of a replica set; its parameters are free inputs."""
    t = tag if isinstance(tag, Tag) else Tag(ctx, tag)
    nb = case.get("nb", 2)
    th = TH.ThermoGLE(A=_np.eye(3), C=_np.eye(3)) if case.get("gle") else TH.ThermoLangevin(tau=10.0)
    bt = TH.ThermoLangevin(tau=20.0)
    baro = None
    mode = case["mode"]
    kw = {}
    if mode == "npt":
        baro = (BA.BaroMTK if case.get("flexible") else BA.BaroBZP)(tau=3.0, thermostat=bt)
        # (concrete) pressures are small numbers in atomic units
        kw["pext"] = t.real("pext") * (1.0 if ctx.sym else case.get("small", 1.0))
    elif mode == "nst":
        sx = t.array("stressext", (3, 3))
        if ctx.sym:  # two free entries; all nine in the bounded runs
            z = ctx.np.zeros((3, 3))
            z[0, 0], z[0, 1] = sx[0, 0], sx[0, 1]
            sx = z
        elif hasattr(t, "sx"):
            sx = t.sx
        elif tag == "b" and case.get("like") is not None and ctx.choice("stress", ["any", "turned"]) == "turned":
            # differs from that of the other system only by an exchange of axes
            sx = _np.roll(_np.roll(case["like"].tag.sx, 1, axis=0), 1, axis=1)
        t.sx = sx
        kw["stressext"] = sx
        baro = BA.BaroRGB(tau=3.0, thermostat=bt)
        h0 = t.array("h0d", (3,), pos=True)
        H = ctx.np.zeros((3, 3))
        for k in range(3):
            H[k, k] = 4 + h0[k]
        baro.h0 = Cell(H)
    ffs = {"fa": OpaqueFF(ctx, "fa"), "fb": OpaqueFF(ctx, "fb"), "fc": OpaqueFF(ctx, "fc")}
    comps = [fcomp("fa"), fcomp("fb")]
    if case.get("weights"):
        kw["hweights"] = _np.ones(2) if case["weights"] == "plain" else t.array("hw", (2,))
        kw["bcomp"] = [fcomp("fc")]
        kw["bweights"] = t.array("bw", (1,))
        if not ctx.sym and tag == "b" and case.get("like") is not None and ctx.choice("bias", ["any", "near"]) == "near":
            kw["bweights"] = val(case["like"].ensemble.bweights) * 1.0002
    s = make_system(t, natoms=2, nbeads=nb, mode=mode, thermostat=th, barostat=baro, comps=comps, ffs=ffs,
                    fixcom=False, dt=1.0, prng=StubPRNG(t), **kw)
    if baro is not None:
        if mode == "npt" and not case.get("flexible"):
            s.motion.barostat.p[:] = t.array("bp", (1,))
        else:
            P = ctx.np.zeros((3, 3))
            bp = t.array("bp6", (3, 3))
            for k in range(3):
                for l in range(k, 3):
                    P[k, l] = bp[k, l]
            s.motion.barostat.p[:] = P
    if case.get("gle"):
        s.motion.thermostat.s = t.array("s", s.motion.thermostat.s.shape)
    s.ensemble.eens = t.real("eens")
    s.motion.thermostat.ethermo = t.real("eth")
    s.tag, s.case = t, case
    return s


def params(s):
    r = {k: val(getattr(s.ensemble, k)) for k in PARAMS}
    if type(s.motion.barostat) is BA.BaroRGB:
        r["h0"] = val(s.motion.barostat.h0.h)
    return r


def state(s):
    r = {"q": val(s.beads.q), "p": val(s.beads.p), "h": val(s.cell.h), "m": val(s.beads.m)}
    if hasattr(s.motion.barostat, "p"):
        r["cell momentum"] = val(s.motion.barostat.p)
    if hasattr(s.motion.thermostat, "s"):
        r["s"] = val(s.motion.thermostat.s)
    r["thermostat energy"] = val(s.motion.thermostat.ethermo)
    return r


def set_params(s, p):
    for k in PARAMS:
        if k in ("temp", "pext"):
            setattr(s.ensemble, k, p[k])
        elif len(p[k]):
            getattr(s.ensemble, k)[:] = p[k]
    if "h0" in p:
        s.motion.barostat.h0.h[:] = p["h0"]


def _exchange(case, title, targets, **kw):
    @contract("P17", "replica exchange: " + title, targets, **kw)
    def c(ctx):
        stride = ctx.choice("stride", [1.0, 4.0] if ctx.sym else [1.0, 4.0, 1.25])
        small = 1.0 if ctx.sym else ctx.choice("pressures", [1.0, 1e-9])
        rescale = ctx.choice("krescale", [True, False])
        S = []
        for t, w in zip("ab", ("free", "plain")):
            S.append(build(ctx, t, dict(case, small=small, weights=case.get("weights") and w, like=S[0] if S else None)))
        old = [params(s) for s in S]
        st = [state(s) for s in S]
        T = [o["temp"] for o in old]
        if ctx.sym:
            ctx.assume(T[0] != T[1])
            if case.get("weights"):
                for k in (0, 1):
                    ctx.assume(old[0]["hweights"][k] != 1)
                    ctx.assume(old[0]["hweights"][k] != 0)
                ctx.assume(old[0]["bweights"][0] != old[1]["bweights"][0])
                for k in (0, 1):
                    ctx.assume(old[k]["bweights"][0] != 0)
            if case["mode"] == "nst":
                # stresses that differ by less than this are not told apart by the code
                ctx.assume(ctx.np.linalg.norm(S[0].ensemble.stressext - S[1].ensemble.stressext) > 1e-10)
            for k in ("pext",):
                if case["mode"] == "npt":
                    ctx.assume(old[0][k] != old[1][k])
        econs = [val(s.ensemble.econs) for s in S]
        rng, out = Draws(ctx), Out()
        R = ReplicaExchange(stride=stride, krescale=rescale)
        R.bind(S, rng, out)
        before = [s.ensemble.lpens for s in S]
        R.step(7)
        tried = not (len(rng.us) == 1)
        ctx.ensure("an exchange is tried with probability 1/stride",
                   (rng.us[0] <= 1.0 / stride) if tried else (rng.us[0] >= 1.0 / stride))
        done = list(R.repindex) == [1, 0]
        if not done:
            ctx.ensure("replica indices untouched", list(R.repindex) == [0, 1])
        np = ctx.np
        # what each system must look like now, and what it would look like after the map
        for i in (0, 1):
            j = 1 - i
            want = old[j] if done else old[i]
            now = params(S[i])
            for k in want:
                if k in PARAMS and k not in ("temp", "pext") and not len(want[k]):
                    continue
                if k == "pext" and case["mode"] == "nvt" or k == "stressext" and case["mode"] in ("nvt", "npt"):
                    continue
                u = small if k == "pext" else 1.0
                ctx.ensure_eq("%s of system %d is %s" % (k, i, "exchanged" if done else "as before"), now[k] / u, want[k] / u)
            sc = np.sqrt(T[j] / T[i]) if done and rescale else 1.0
            ex = dict(st[i])
            ex["p"] = ex["p"] * sc
            if "cell momentum" in ex:
                ex["cell momentum"] = ex["cell momentum"] * (T[j] / T[i] if done and rescale else 1.0)
            if "s" in ex:
                ex["s"] = ex["s"] * (np.sqrt(T[j] / T[i]) if done else 1.0)
            got = state(S[i])
            for k in ex:
                ctx.ensure_eq("%s of system %d" % (k, i), got[k], ex[k])
            ctx.ensure_eq("conserved quantity of system %d does not jump" % i, val(S[i].ensemble.econs), econs[i])
        if not tried:
            return
        # the probability of the exchanged state, on systems that never knew another
        F = [build(ctx, s.tag, s.case) for s in S]
        for i in (0, 1):
            j = 1 - i
            set_params(F[i], old[j])
            F[i].beads.p[:] = st[i]["p"] * (np.sqrt(T[j] / T[i]) if rescale else 1.0)
            if "cell momentum" in st[i] and rescale:
                F[i].motion.barostat.p[:] = st[i]["cell momentum"] * (T[j] / T[i])
        delta = sum(f.ensemble.lpens for f in F) - sum(before)
        ratio = np.exp(delta)
        ctx.ensure("accepted exactly when the draw is below the ratio of probabilities",
                   (rng.us[1] <= ratio) if done else (rng.us[1] >= ratio))
        ctx.ensure("accepted exchanges are written down", (out.text != "") == done)
    c.__doc__ = "One attempted exchange of two systems: " + title + "."
    return c


_T = ["ipi/engine/smotion/remd.py:ReplicaExchange.step", "ipi/engine/ensembles.py:ensemble_swap",
      "ipi/engine/ensembles.py:Ensemble.get_lpens", "ipi/engine/ensembles.py:Ensemble.get_econs",
      "ipi/engine/smotion/remd.py:gle_scale", "ipi/engine/smotion/remd.py:motion_scale", "ipi/engine/smotion/remd.py:thermo_scale"]
_exchange({"mode": "nvt"}, "temperatures", _T)
_exchange({"mode": "nvt", "gle": True}, "temperatures with a GLE thermostat", _T)
_exchange({"mode": "nvt", "weights": True, "nb": 1}, "temperatures, Hamiltonian and bias weights", _T)
_exchange({"mode": "npt"}, "temperatures and pressures", _T)
_exchange({"mode": "npt", "flexible": True, "nb": 1}, "temperatures and pressures, flexible cell", _T)
_exchange({"mode": "nst", "nb": 1}, "stresses and reference cells", _T)


# ------------------------------------------------------------------ several movers and thermostats
class Knob:
    """Draws fixed in advance."""

    def __init__(self, us):
        self.us = list(us)

    @property
    def u(self):
        return self.us.pop(0)

    def __getattr__(self, n):
        raise AssertionError("unexpected draw " + n)


def _gle(t, ns):
    return TH.ThermoGLE(A=_np.eye(ns + 1) + 0.1 * _np.ones((ns + 1, ns + 1)), C=_np.eye(ns + 1))


def composite(ctx, tag, kind):
    """A system with several movers or thermostats, all of them with auxiliary momenta."""
    from ipi.engine.motion.multi import MultiMotion
    t = Tag(ctx, tag)
    nb = 2
    aux, baros = [], []

    def gle(ns, where=None):
        g = _gle(t, ns)
        aux.append(g)
        return g

    def mover(mode, th, baro=None):
        if baro is not None:
            baros.append(baro)
        return ipi.engine.motion.dynamics.Dynamics(timestep=1.0, mode=mode, thermostat=th, barostat=baro)

    kw = {}
    if kind == "several thermostats":
        mo = mover("nvt", TH.MultiThermo(thermolist=[TH.ThermoLangevin(tau=10.0), gle(1), TH.MultiThermo(thermolist=[gle(2)])]))
    elif kind == "several movers":
        mo = MultiMotion([mover("nvt", gle(2)), mover("nvt", TH.ThermoLangevin(tau=3.0)), mover("nvt", gle(1))])
    elif kind == "cell thermostat":
        kw["pext"] = t.real("pext")
        mo = mover("npt", gle(1), BA.BaroBZP(tau=3.0, thermostat=gle(2)))
    elif kind == "movers of the cell":
        kw["pext"] = t.real("pext")
        mo = MultiMotion([mover("nvt", gle(1)), mover("npt", gle(1), BA.BaroBZP(tau=3.0, thermostat=gle(2)))])
    else:
        kw["stressext"] = t.array("stressext", (3, 3))
        h0 = Cell(_np.diag(4 + t.array("h0d", (3,), pos=True)))
        mo = MultiMotion([mover("nvt", gle(1)), mover("nst", TH.ThermoLangevin(tau=10.0), BA.BaroRGB(tau=3.0, thermostat=gle(1), h0=h0))])
    s = make_system(t, natoms=2, nbeads=nb, motion=mo, comps=[fcomp("fa")], ffs={"fa": OpaqueFF(ctx, "fa")}, prng=StubPRNG(t), **kw)
    for k, g in enumerate(aux):
        g.s = t.array("s%d" % k, g.s.shape)
    for k, b in enumerate(baros):
        b.p[:] = _np.triu(t.array("bp%d" % k, b.p.shape)) if b.p.ndim == 2 else t.array("bp%d" % k, b.p.shape)
    s.aux, s.baros = aux, baros
    return s


def snapshot(s):
    r = {"temperature": val(s.ensemble.temp), "pressure": val(s.ensemble.pext), "stress": val(s.ensemble.stressext), "momenta": val(s.beads.p)}
    for k, g in enumerate(s.aux):
        r["auxiliary momenta %d" % k] = val(g.s)
    for k, b in enumerate(s.baros):
        r["cell momenta %d" % k] = val(b.p)
        if type(b) is BA.BaroRGB:
            r["reference cell %d" % k] = val(b.h0.h)
    return r


@contract("P17", "replica exchange: several movers and thermostats", _T + ["ipi/engine/motion/multi.py:MultiMotion.bind", "ipi/engine/thermostats.py:MultiThermo.bind"],
          sym=False, samples=(20, 200), why="sampled arrangements of movers and thermostats")
def nested(ctx):
    """Whatever the arrangement of movers and thermostats, an accepted exchange rescales all momenta and exchanges all
    parameters, a rejected one leaves no trace, and the conserved quantity does not jump."""
    kind = ctx.choice("arrangement", ["several thermostats", "several movers", "cell thermostat", "movers of the cell", "movers of a stressed cell"])
    accept = ctx.choice("accepted", [True, False])
    rescale = ctx.choice("krescale", [True, False])
    S = [composite(ctx, t, kind) for t in "ab"]
    old = [snapshot(s) for s in S]
    econs = [val(s.ensemble.econs) for s in S]
    T = [o["temperature"] for o in old]
    R = ReplicaExchange(stride=1.0, krescale=rescale)
    R.bind(S, Knob([0.5, -1.0 if accept else 1e300]), Out())
    R.step(1)
    for i in (0, 1):
        j = 1 - i
        now = snapshot(S[i])
        for k, v in old[i].items():
            sc = 1.0
            if accept:
                if k in ("temperature", "pressure", "stress") or k.startswith("reference"):
                    v = old[j][k]
                elif k.startswith("auxiliary"):
                    sc = _np.sqrt(T[j] / T[i])
                elif rescale:
                    sc = T[j] / T[i] if k.startswith("cell") else _np.sqrt(T[j] / T[i])
            if v is None or k == "pressure" and not "cell" in kind or k == "stress" and "stressed" not in kind:
                continue
            ctx.ensure_eq("%s of system %d" % (k, i), now[k], v * sc)
        ctx.ensure_eq("conserved quantity of system %d does not jump" % i, val(S[i].ensemble.econs), econs[i])
    ctx.ensure("labels", list(R.repindex) == ([1, 0] if accept else [0, 1]))


# ------------------------------------------------------------------ exchanges of several systems
@contract("P17", "replica exchange: labels follow the parameters", _T)
def labels(ctx):
    """After any number of attempts among three systems each carries the parameters its label names."""
    S = [build(ctx, t, {"mode": "nvt", "nb": 1}) for t in "abc"]
    T = [val(s.ensemble.temp) for s in S]
    if ctx.sym:
        for i, j in ((0, 1), (0, 2), (1, 2)):
            ctx.assume(T[i] != T[j])
    econs = [val(s.ensemble.econs) for s in S]
    start = ctx.choice("labels at the start", [[0, 1, 2], [2, 0, 1]])
    where = {l: T[k] for k, l in enumerate(start)}
    R = ReplicaExchange(stride=1.0, repindex=start)
    out = Out()
    R.bind(S, Draws(ctx), out)
    R.step(3)
    got = [int(x) for x in R.repindex]
    ctx.ensure("labels are a permutation", sorted(got) == [0, 1, 2])
    for k, s in enumerate(S):
        ctx.ensure_eq("system %d has the temperature its label names" % k, val(s.ensemble.temp), where[got[k]])
        ctx.ensure_eq("conserved quantity of system %d" % k, val(s.ensemble.econs), econs[k])
    if out.text:
        ctx.ensure("what is written is the step and the labels", [int(x) for x in out.text.split()] == [3] + got)
    else:
        ctx.ensure("nothing is written only if nothing changed", got == start)


# ------------------------------------------------------------------ ensemble probability
@contract("P17", "probability of a state", ["ipi/engine/ensembles.py:Ensemble.get_lpens"])
def lpens(ctx):
    """The logarithm of the probability is minus the energy of the ring polymer, with
    its kinetic, spring, bias and cell parts, over kB T times the number of beads."""
    nb = ctx.choice("nb", [1, 2, 3])
    mode = ctx.choice("mode", ["nvt", "npt"])
    s = build(ctx, "a", {"mode": mode, "nb": nb, "weights": "free"})
    np = ctx.np
    e = s.ensemble
    if ctx.sym:
        for k in (0, 1):
            ctx.assume(e.hweights[k] != 1)
        ctx.assume(e.bweights[0] != 0)
    q, p, m, h, T = val(s.beads.q), val(s.beads.p), val(s.beads.m), val(s.cell.h), e.temp
    hw, bw = val(e.hweights), val(e.bweights)
    E = 0
    wn = nb * T * KB / Constants.hbar
    for b in range(nb):
        E = E + hw[0] * s.fflist["fa"].value(q[b], h)[0] + hw[1] * s.fflist["fb"].value(q[b], h)[0]
        E = E + bw[0] * s.fflist["fc"].value(q[b], h)[0]
        for a in range(2):
            for c in range(3):
                E = E + p[b, 3 * a + c] ** 2 / (2 * m[a])
                if nb > 1:
                    E = E + m[a] * wn**2 / 2 * (q[b, 3 * a + c] - q[(b + 1) % nb, 3 * a + c]) ** 2
    if mode == "npt":
        V = h[0, 0] * h[1, 1] * h[2, 2]
        E = E + nb * V * e.pext - nb * KB * T * np.log(V)
        W = 3 * 2 * 3.0**2 * KB * (nb * T)
        E = E + val(s.motion.barostat.p)[0] ** 2 / (2 * W)
    ctx.ensure_eq("logarithm of the probability", e.lpens, -E / (KB * T * nb))
    # energies of extended dynamics, however many
    from ipi.utils.depend import depend_value
    x = [ctx.real("x%d" % k) for k in range(4)]
    d = [depend_value(name="x%d" % k, value=x[k]) for k in range(4)]
    e.add_xlpot(d[0])
    e.add_xlpot(d[1])
    e.add_xlkin(d[2])
    e.add_xlkin(d[3])
    ctx.ensure_eq("energies of extended dynamics count", e.lpens, -(E + sum(x)) / (KB * T * nb))
    y = ctx.real("y")
    d[2].set(y)
    ctx.ensure_eq("as they change", e.lpens, -(E + x[0] + x[1] + x[3] + y) / (KB * T * nb))


# ------------------------------------------------------------------ alchemical exchanges, swaps
NAMES = ["He", "D", "H", "He"]


def mc_system(ctx, motion, nb, open_paths=None, weights=None):
    t = Tag(ctx, "")
    rng = Draws(ctx)
    ffs = {"fa": OpaqueFF(ctx, "fa"), "fb": OpaqueFF(ctx, "fb"), "fc": OpaqueFF(ctx, "fc")}
    kw = {}
    if weights:
        kw = dict(hweights=t.array("hw", (2,)), bcomp=[fcomp("fc")], bweights=t.array("bw", (1,)))
    s = make_system(t, natoms=4, nbeads=nb, motion=motion, comps=[fcomp("fa"), fcomp("fb")], ffs=ffs, prng=rng,
                    open_paths=open_paths, **kw)
    if weights and ctx.sym:
        for k in (0, 1):
            ctx.assume(s.ensemble.hweights[k] != 1)
        ctx.assume(s.ensemble.bweights[0] != 0)
    s.beads.names[:] = NAMES
    s.ensemble.eens = t.real("eens")
    motion.ealc = t.real("ealc")
    return s, rng


def springs(ctx, q, m, nb, T, open_paths=()):
    """Spring energy of the paths from their definition."""
    wn = nb * T * KB / Constants.hbar
    E = 0
    for a in range(len(m)):
        for b in range(nb - 1 if a in open_paths else nb):
            for c in range(3):
                E = E + m[a] * wn**2 / 2 * (q[b, 3 * a + c] - q[(b + 1) % nb, 3 * a + c]) ** 2
    return E if nb > 1 else 0 * T


PAIRS = [((0, 1), [0, 1]), ((3, 1), [2, 1]), ((1, 0), [1, 0])]
# the list of exchangeable atoms (He and D) is 0, 1, 3; the draws are positions in it


def _earlier(ctx, s, mo, rng):
    """(concrete) steps made before, at another temperature, with another set of exchanged atoms and cell"""
    if not ctx.sym and ctx.choice("earlier steps", [False, True]):
        rng.ntries, rng.ints = 2, [0, 1, 2, 1, 0, 1, 2]
        mo.step(0)
        s.ensemble.temp = s.ensemble.temp * ctx.real("heating", lo=2, hi=5)
        s.beads.q[:] = val(s.beads.q) + 0.3 * ctx.array("moved", s.beads.q.shape)
        s.beads.m[:] = val(s.beads.m) * ctx.real("heavier", lo=2, hi=3)
        s.beads.names[:] = NAMES
        rng.us = []


@contract("P17", "several exchanges in a step", ["ipi/engine/motion/alchemy.py:AlchemyMC.step", "ipi/engine/motion/atomswap.py:AtomSwap.step"], sym=False,
          samples=(40, 300), why="sampled sequences of attempts")
def several(ctx):
    """Each of several attempts in a step is judged on the outcome of those before it."""
    nb = ctx.choice("nb", [1, 2, 3])
    kind = ctx.choice("kind", ["isotopes", "positions"])
    w = kind == "positions" and ctx.choice("weights", [False, True])
    mo = (AlchemyMC if kind == "isotopes" else AtomSwap)(names=["He", "D"], nxc=3)
    s, rng = mc_system(ctx, mo, nb, weights=w)
    n = ctx.choice("attempts", [0, 1, 2, 3, 4])
    _earlier(ctx, s, mo, rng)
    ax, names = [0, 1, 3], list(NAMES)
    q, p, m, h, T = val(s.beads.q), val(s.beads.p), val(s.beads.m), val(s.cell.h), s.ensemble.temp
    ealc, econs = val(mo.ealc), val(s.ensemble.econs)
    hw = val(s.ensemble.hweights) if w else [1, 1]
    ints, us = [], []

    def energy(q, m):
        E = springs(ctx, q, m, nb, T)
        if kind == "positions":
            for b in range(nb):
                E = E + hw[0] * s.fflist["fa"].value(q[b], h)[0] + hw[1] * s.fflist["fb"].value(q[b], h)[0]
                if w:
                    E = E + val(s.ensemble.bweights)[0] * s.fflist["fc"].value(q[b], h)[0]
        return E

    rng.ntries = n
    for k in range(n):
        a = ctx.choice("first%d" % k, [0, 1, 2])
        b = ctx.choice("second%d" % k, [x for x in (0, 1, 2) if names[ax[x]] != names[ax[a]]])
        ints += [a, a, b]
        a, b = ax[a], ax[b]
        q1, m1, p1 = q.copy(), m.copy(), p.copy()
        A, B = slice(3 * a, 3 * a + 3), slice(3 * b, 3 * b + 3)
        if kind == "isotopes":
            m1[a], m1[b] = m[b], m[a]
            p1[:, A], p1[:, B] = p[:, A] * _np.sqrt(m[b] / m[a]), p[:, B] * _np.sqrt(m[a] / m[b])
        else:
            q1[:, A], q1[:, B] = q[:, B], q[:, A]
        d = energy(q1, m1) - energy(q, m)
        ratio = _np.exp(-d / (KB * T * nb))
        f = ctx.choice("fate%d" % k, [0.5, 0.999, 1.001, 2.0])
        if f * ratio >= 1:
            f = 0.999 * min(1.0, 1.0 / ratio)
        us.append(f * ratio)
        if f < 1:
            q, m, p, ealc = q1, m1, p1, ealc - d
            if kind == "isotopes":
                names[a], names[b] = names[b], names[a]

    total = len(ints)

    class Fixed(Knob):
        @property
        def u(self):  # that of the attempt under way
            return self.us[(total - len(ints)) // 3 - 1]

        def integers(self, lo, hi=None):
            return ints.pop(0)

        def poisson(self, lam):
            return n

    mo.prng = Fixed(us)
    mo.step(0)
    ctx.ensure("every attempt was made", not ints)
    ctx.ensure("names", list(val(s.beads.names)) == names)
    ctx.ensure_eq("positions", val(s.beads.q), q)
    ctx.ensure_eq("masses", val(s.beads.m), m)
    ctx.ensure_eq("momenta", val(s.beads.p), p)
    ctx.ensure_eq("energy bookkeeping", val(mo.ealc), ealc)
    ctx.ensure_eq("conserved quantity does not jump", val(s.ensemble.econs), econs)
    for b in range(nb):
        ctx.ensure_eq("forces belong to the positions, bead %d" % b, val(s.forces.f)[b],
                      s.fflist["fa"].value(q[b], h)[1] + s.fflist["fb"].value(q[b], h)[1])


@contract("P17", "alchemical exchange", ["ipi/engine/motion/alchemy.py:AlchemyMC.step", "ipi/engine/motion/alchemy.py:AlchemyMC.AXlist"])
def alchemy(ctx):
    """An attempted exchange of two isotopes is accepted by the change of spring energy,
    exchanges names and masses, conserves the kinetic energy and is accounted for."""
    nb = ctx.choice("nb", [1, 2, 3])
    (i, j), ints = ctx.choice("pair", PAIRS)
    op = ctx.choice("open", [[], [1], [3]]) if nb > 1 else []
    mo = AlchemyMC(names=["He", "D"], nxc=1)
    s, rng = mc_system(ctx, mo, nb, open_paths=op)
    _earlier(ctx, s, mo, rng)
    # a draw of two atoms of the same name is repeated
    rng.ntries, rng.ints = 1, list(ints) if i != 3 else [2, 0, 1]
    q0, p0, m0 = val(s.beads.q), val(s.beads.p), val(s.beads.m)
    T = s.ensemble.temp
    econs, kin, ealc = val(s.ensemble.econs), val(s.nm.kin), val(mo.ealc)
    mo.step(0)
    m1 = m0.copy()
    m1[i], m1[j] = m0[j], m0[i]
    d = springs(ctx, q0, m1, nb, T, op) - springs(ctx, q0, m0, nb, T, op)
    ratio = ctx.np.exp(-d / (KB * T * nb))
    names = list(val(s.beads.names))
    done = names != NAMES
    ctx.ensure("one number decides, or none", len(rng.us) <= 1 and not rng.ints)
    if rng.us:
        ctx.ensure("accepted exactly when the draw is below the Boltzmann factor",
                   (rng.us[0] <= ratio) if done else (rng.us[0] >= ratio))
    else:
        ctx.ensure("accepted without a draw only if certain", (ratio >= 1) if done else False)
    ctx.ensure_eq("positions", val(s.beads.q), q0)
    if done:
        want = list(NAMES)
        want[i], want[j] = want[j], want[i]
        ctx.ensure("names are exchanged", names == want)
        ctx.ensure_eq("masses are exchanged", val(s.beads.m), m1)
        ctx.ensure_eq("momenta keep the kinetic energy of each atom",
                      val(s.beads.p)[:, 3 * i : 3 * i + 3], p0[:, 3 * i : 3 * i + 3] * ctx.np.sqrt(m0[j] / m0[i]))
        ctx.ensure_eq("kinetic energy", val(s.nm.kin), kin)
    else:
        ctx.ensure_eq("masses", val(s.beads.m), m0)
        ctx.ensure_eq("momenta", val(s.beads.p), p0)
    ctx.ensure_eq("energy bookkeeping", val(mo.ealc), ealc - d if done else ealc)
    ctx.ensure_eq("conserved quantity does not jump", val(s.ensemble.econs), econs)


@contract("P17", "atom swap", ["ipi/engine/motion/atomswap.py:AtomSwap.step", "ipi/engine/motion/atomswap.py:AtomSwap.AXlist"])
def swap(ctx):
    """An attempted swap of two atoms is accepted by the change of the whole energy, exchanges
    the positions of all beads or leaves everything as it was, and is accounted for."""
    nb = ctx.choice("nb", [1, 2])
    (i, j), ints = ctx.choice("pair", PAIRS)
    w = ctx.choice("weights", [False, True])
    mo = AtomSwap(names=["He", "D"], nxc=1)
    s, rng = mc_system(ctx, mo, nb, weights=w)
    _earlier(ctx, s, mo, rng)
    rng.ntries, rng.ints = 1, list(ints) if i != 3 else [2, 0, 1]
    q0, p0, m0, h = val(s.beads.q), val(s.beads.p), val(s.beads.m), val(s.cell.h)
    T = s.ensemble.temp
    econs, f0, pot0 = val(s.ensemble.econs), val(s.forces.f), val(s.forces.pot)
    ealc = val(mo.ealc)
    # the cell may have changed since the start
    q1 = q0.copy()
    q1[:, 3 * i : 3 * i + 3] = q0[:, 3 * j : 3 * j + 3]
    q1[:, 3 * j : 3 * j + 3] = q0[:, 3 * i : 3 * i + 3]
    hw = val(s.ensemble.hweights) if w else [1, 1]

    def energy(q):
        E = springs(ctx, q, m0, nb, T)
        for b in range(nb):
            E = E + hw[0] * s.fflist["fa"].value(q[b], h)[0] + hw[1] * s.fflist["fb"].value(q[b], h)[0]
            if w:
                E = E + val(s.ensemble.bweights)[0] * s.fflist["fc"].value(q[b], h)[0]
        return E

    mo.step(0)
    d = energy(q1) - energy(q0)
    ratio = ctx.np.exp(-d / (KB * T * nb))
    done = _same(ctx, s.beads.q, q1)
    ctx.ensure("one number decides, or none", len(rng.us) <= 1 and not rng.ints)
    if rng.us:
        ctx.ensure("accepted exactly when the draw is below the Boltzmann factor",
                   (rng.us[0] <= ratio) if done else (rng.us[0] >= ratio))
    else:
        ctx.ensure("accepted without a draw only if certain", (ratio >= 1) if done else False)
    qn = q1 if done else q0
    ctx.ensure_eq("positions", val(s.beads.q), qn)
    ctx.ensure_eq("momenta", val(s.beads.p), p0)
    ctx.ensure_eq("masses", val(s.beads.m), m0)
    ctx.ensure_eq("energy bookkeeping", val(mo.ealc), ealc - d if done else ealc)
    ctx.ensure_eq("conserved quantity does not jump", val(s.ensemble.econs), econs)
    for b in range(nb):
        ctx.ensure_eq("forces belong to the positions, bead %d" % b, val(s.forces.f)[b],
                      s.fflist["fa"].value(qn[b], h)[1] + s.fflist["fb"].value(qn[b], h)[1])


def _same(ctx, a, b):
    """Did the move happen?  (decided on the first coordinates that differ)"""
    a, b = val(a), val(b)
    if ctx.sym:
        return all(x is y or repr(x) == repr(y) for x, y in zip(a.flat, b.flat))
    return bool(_np.array_equal(a, b))


# ------------------------------------------------------------------ ramps
@contract("P17", "temperature and pressure ramps", ["ipi/engine/motion/ramp.py:TemperatureRamp.step", "ipi/engine/motion/ramp.py:PressureRamp.step"])
def ramps(ctx):
    """A ramp of n steps goes from the first to the last value in equal (or equal relative) steps and stays there."""
    which = ctx.choice("which", ["temperature", "pressure"])
    log = ctx.choice("log", [False, True])
    n, k = ctx.choice("steps", [(4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (4, 9), (1, 0), (0, 0)])
    a, b = ctx.real("first", pos=True), ctx.real("last", pos=True)
    kw = dict(total_steps=n, current_step=k, logscale=log)
    mo = TemperatureRamp(t_start=a, t_end=b, **kw) if which == "temperature" else PressureRamp(p_start=a, p_end=b, **kw)

    class E:
        temp = pext = None

    mo.ensemble = E()
    mo.step(0)
    got = mo.ensemble.temp if which == "temperature" else mo.ensemble.pext
    ctx.ensure("the step is counted", mo.current_step == k + 1)
    f = min(k + 1, n)
    if k + 1 >= n:
        ctx.ensure_eq("value after the ramp", got, b)
    elif log:
        ctx.ensure_eq("equal relative steps", got**n, a ** (n - f) * b**f)
    else:
        ctx.ensure_eq("equal steps", got, a + (b - a) * f / n)
