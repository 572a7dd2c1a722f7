"""Builders of real i-PI objects used by the contract harnesses (both modes)."""
import time

import numpy as _np

import ipi.engine.beads
import ipi.engine.cell
import ipi.engine.normalmodes
import ipi.engine.ensembles
import ipi.engine.forces
import ipi.engine.forcefields
import ipi.engine.thermostats
import ipi.engine.barostats
import ipi.engine.motion.dynamics
import ipi.utils.depend
import ipi.utils.units
from ipi.utils.messages import verbosity

verbosity.level = "quiet"


class StubPRNG:
    """Random numbers as free inputs: every draw is a fresh unconstrained value."""

    def __init__(self, ctx, tag="xi"):
        self.ctx, self.tag, self.k = ctx, tag, 0
        self.draws = []
        self.nb = 1

    def gvec(self, shape):
        self.k += 1
        if self.ctx.sym and self.nb > 1 and not isinstance(shape, (tuple, list, int)):
            # a flattened (beads, 3N) vector: keep the layout [bead][atom][component]
            from pyvc import arr
            ax = arr.parse_dim(shape)
            if isinstance(ax, arr.SymAxis) and ax.C == 3 * self.nb:
                v = self.ctx.array("%s%d" % (self.tag, self.k), (self.nb, shape / self.nb)).reshape(-1)
                self.draws.append(v)
                return v.copy()
        v = self.ctx.array("%s%d" % (self.tag, self.k), shape)
        self.draws.append(v)
        return v.copy()

    def gfill(self, out):
        out[:] = self.gvec(out.shape)

    @property
    def g(self):
        self.k += 1
        v = self.ctx.real("%s%d" % (self.tag, self.k))
        self.draws.append(v)
        return v

    def gamma(self, k, theta=1.0):
        self.k += 1
        v = self.ctx.real("gam%d" % self.k, pos=True)
        self.draws.append(v)
        return v

    @property
    def u(self):
        self.k += 1
        v = self.ctx.real("u%d" % self.k, lo=0, hi=1)
        self.draws.append(v)
        return v


class ZeroPRNG(StubPRNG):
    def gvec(self, shape):
        return self.ctx.np.zeros(shape)

    @property
    def g(self):
        return 0.0


class OpaqueFF:
    """A force provider whose answers are an arbitrary function of positions and cell."""

    def __init__(self, ctx, name="ff", with_vir=True, extras=None, track=None):
        self.ctx, self.name, self.latency = ctx, name, 1e-4
        self.with_vir, self.extras = with_vir, extras
        self.calls = 0
        self.track = track

    def value(self, q, h):
        c = self.ctx
        u = c.opaque(self.name + "_u", [q, h])
        f = c.opaque(self.name + "_f", [q, h], shape=q.shape)
        v = c.opaque(self.name + "_v", [q, h], shape=(3, 3))
        return u, f, v

    def queue(self, atoms, cell, reqid=-1, template=None):
        self.calls += 1
        q = ipi.utils.depend.dstrip(atoms.q).copy()
        h = ipi.utils.depend.dstrip(cell.h).copy()
        u, f, v = self.value(q, h)
        ex = {"raw": ""}
        if self.extras:
            for k in self.extras:
                ex[k] = self.ctx.opaque(self.name + "_" + k, [q, h], shape=(2,))
        r = ipi.engine.forcefields.ForceRequest(
            {"id": reqid, "pos": q, "status": "Done", "result": [u, f, v.copy(), ex],
             "t_queued": time.time(), "t_dispatched": time.time(), "t_finished": time.time()})
        r._event_done.set()
        return r

    def release(self, request, lock=True):
        pass


class FComp(object):
    """Input-side description of a force component (what Forces.bind reads)."""

    def __init__(self, ffield, nbeads=0, weight=1.0, name="", mts_weights=None, interpolate_extras=None):
        self.ffield, self.nbeads, self.weight, self.name = ffield, nbeads, weight, name or ffield
        self.mts_weights = [1.0] if mts_weights is None else mts_weights
        self.interpolate_extras = interpolate_extras or []
        self.epsilon = -0.001


def fcomp(ffield, **kw):
    mw = kw.pop("mts_weights", [1.0])
    return ipi.engine.forces.ForceComponent(ffield, mts_weights=mw, **kw)


def upper_h(ctx, name="h"):
    a = ctx.array(name, (6,))
    d = ctx.array(name + "d", (3,), pos=True)
    h = ctx.np.zeros((3, 3))
    for i in range(3):
        h[i, i] = d[i] * 5
    h[0, 1], h[0, 2], h[1, 2] = a[0], a[1], a[2]
    return h


class Sys:
    pass


def make_beads(ctx, natoms, nbeads, suffix="", zero_p=False):
    b = ipi.engine.beads.Beads(natoms, nbeads)
    b.q[:] = ctx.array("q" + suffix, (nbeads, 3 * natoms))
    if not zero_p:
        b.p[:] = ctx.array("p" + suffix, (nbeads, 3 * natoms))
    b.m[:] = ctx.array("m" + suffix, natoms, pos=True)
    return b


def make_system(ctx, natoms=None, nbeads=2, mode="nve", splitting="obabo", nmts=(1,), thermostat=None,
                barostat=None, fixcom=False, fixatoms=None, propagator="exact", nm_mode="rpmd", freqs=None,
                open_paths=None, comps=None, ffs=None, prng=None, bcomp=None, bweights=None, hweights=None,
                transform="matrix", bosons=None, temp=None, pext=None, stressext=None, nm_nmts=1,
                motion=None, cell=None, dt=None):
    """A fully bound system: beads, cell, normal modes, forces, ensemble, dynamics."""
    s = Sys()
    np = ctx.np
    s.natoms = ctx.dim("N") if natoms is None else natoms
    s.nbeads = nbeads
    s.beads = make_beads(ctx, s.natoms, nbeads)
    s.cell = ipi.engine.cell.Cell(upper_h(ctx)) if cell is None else cell
    s.temp = ctx.real("temp", pos=True) if temp is None else temp
    s.dt = ctx.real("dt", pos=True) if dt is None else dt
    s.nm = ipi.engine.normalmodes.NormalModes(mode=nm_mode, transform_method=transform, propagator=propagator,
                                              freqs=freqs, open_paths=open_paths, bosons=bosons, nmts=nm_nmts)
    s.fflist = ffs if ffs is not None else {"ff": OpaqueFF(ctx, "ff")}
    comps = comps if comps is not None else [fcomp(k, mts_weights=[1.0] + [0.0] * (len(nmts) - 1)) for k in s.fflist]
    s.forces = ipi.engine.forces.Forces()
    s.forces.bind(s.beads, s.cell, comps, s.fflist, open_paths=s.nm.open_paths, output_maker=None)
    s.ensemble = ipi.engine.ensembles.Ensemble(temp=s.temp, pext=pext, stressext=stressext, bcomponents=bcomp,
                                               bweights=bweights, hweights=hweights)
    s.thermostat = thermostat
    s.barostat = barostat
    if motion is None:
        motion = ipi.engine.motion.dynamics.Dynamics(
            timestep=s.dt, mode=mode, splitting=splitting, thermostat=thermostat, barostat=barostat, fixcom=fixcom,
            fixatoms_dof=fixatoms, nmts=list(nmts))
    s.motion = motion
    s.prng = prng if prng is not None else StubPRNG(ctx)
    s.prng.nb = nbeads
    s.nm.bind(s.ensemble, s.motion, beads=s.beads, forces=s.forces)
    s.ensemble.bind(s.beads, s.nm, s.cell, s.forces, s.fflist, None)
    s.motion.bind(s.ensemble, s.beads, s.nm, s.cell, s.forces, s.prng, None)
    ipi.utils.depend.dpipe(s.nm._omegan2, s.forces._omegan2)
    return s


def val(x):
    """Current value of a depend object / array, as a plain (possibly symbolic) array copy."""
    from pyvc.core import _plain
    x = _plain(x)
    return x.copy() if hasattr(x, "copy") else x


import contextlib


@contextlib.contextmanager
def patched(module, **names):
    """Replace callees of a module by their contracts for the duration of a run."""
    old = {k: getattr(module, k) for k in names}
    for k, v in names.items():
        setattr(module, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(module, k, v)


def grad(ctx, fun, q):
    """Gradient of fun at q: of the term (symbolic) or by fourth-order central differences (concrete)."""
    np = ctx.np
    if ctx.sym:
        from pyvc import sym
        e = fun(q)
        g = np.zeros(len(q))
        memo = {}
        for i in range(len(q)):
            g[i] = sym.diff(e, q[i], memo.setdefault(i, {}))
        return g
    q = _np.asarray(q, dtype=float)
    g = _np.zeros(len(q))
    for i in range(len(q)):
        e = 2e-4 * max(1.0, abs(q[i]))
        s = 0.0
        for k, c in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
            x = q.copy()
            x[i] += k * e
            s += c * float(fun(x))
        g[i] = s / (12 * e)
    return g
