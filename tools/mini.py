"""Small bound i-PI systems for demonstrations (copied beside every demo that uses it)."""
import time
import numpy as np
import ipi.engine.beads, ipi.engine.cell, ipi.engine.normalmodes, ipi.engine.ensembles, ipi.engine.forces
import ipi.engine.forcefields, ipi.engine.thermostats, ipi.engine.barostats, ipi.engine.motion.dynamics
from ipi.utils.depend import dstrip, dpipe
from ipi.utils.prng import Random
from ipi.utils.messages import verbosity

verbosity.level = "quiet"


class FF:
    """harmonic wells plus a quartic term; exact forces, virial of scaled coordinates is not attempted"""
    def __init__(self, k=1.0, name="ff"):
        self.k, self.name, self.latency = k, name, 1e-4

    def value(self, q, h):
        x = q
        u = 0.5 * self.k * (x * x).sum() + 0.05 * self.k * (x ** 4).sum()
        f = -self.k * x - 0.2 * self.k * x ** 3
        r = x.reshape(-1, 3)
        return u, f, r.T.dot(f.reshape(-1, 3))

    def queue(self, atoms, cell, reqid=-1, template=None):
        q, h = dstrip(atoms.q).copy(), dstrip(cell.h).copy()
        u, f, v = self.value(q, h)
        r = ipi.engine.forcefields.ForceRequest(
            {"id": reqid, "pos": q, "status": "Done", "result": [u, f, v, {"raw": ""}],
             "t_queued": time.time(), "t_dispatched": time.time(), "t_finished": time.time()})
        r._event_done.set()
        return r

    def release(self, request, lock=True):
        pass


def comp(ff, **kw):
    kw.setdefault("mts_weights", [1.0])
    return ipi.engine.forces.ForceComponent(ff, **kw)


class S:
    pass


def system(natoms=3, nbeads=4, mode="nve", splitting="obabo", nmts=(1,), thermostat=None, barostat=None, fixcom=False,
           fixatoms=None, propagator="exact", open_paths=None, comps=None, ffs=None, temp=0.3, dt=0.02, seed=3, h=None,
           nm_mode="rpmd", freqs=None, bcomp=None, bweights=None, hweights=None, pext=None, stressext=None, transform="matrix"):
    s = S()
    r = np.random.RandomState(seed)
    s.beads = ipi.engine.beads.Beads(natoms, nbeads)
    s.beads.q[:] = r.normal(size=(nbeads, 3 * natoms)) * 0.4
    s.beads.p[:] = r.normal(size=(nbeads, 3 * natoms))
    s.beads.m[:] = 1 + np.arange(natoms) * 0.7
    s.cell = ipi.engine.cell.Cell(np.diag([5.0, 6.0, 7.0]) if h is None else h)
    s.nm = ipi.engine.normalmodes.NormalModes(mode=nm_mode, transform_method=transform, propagator=propagator, freqs=freqs,
                                              open_paths=open_paths)
    s.ff = ffs or {"ff": FF()}
    comps = comps or [comp("ff", mts_weights=[1.0] + [0.0] * (len(nmts) - 1))]
    s.forces = ipi.engine.forces.Forces()
    s.forces.bind(s.beads, s.cell, comps, s.ff, open_paths=s.nm.open_paths, output_maker=None)
    s.ensemble = ipi.engine.ensembles.Ensemble(temp=temp, pext=pext, stressext=stressext, bcomponents=bcomp, bweights=bweights,
                                               hweights=hweights)
    s.motion = ipi.engine.motion.dynamics.Dynamics(
        timestep=dt, mode=mode, splitting=splitting, thermostat=thermostat, barostat=barostat, fixcom=fixcom,
        fixatoms_dof=np.zeros(0, int) if fixatoms is None else np.asarray(fixatoms), nmts=list(nmts))
    s.prng = Random(seed=seed)
    s.nm.bind(s.ensemble, s.motion, beads=s.beads, forces=s.forces)
    s.ensemble.bind(s.beads, s.nm, s.cell, s.forces, s.ff, None)
    s.motion.bind(s.ensemble, s.beads, s.nm, s.cell, s.forces, s.prng, None)
    dpipe(s.nm._omegan2, s.forces._omegan2)
    return s


def arr(x):
    return np.array(dstrip(x), copy=True)
