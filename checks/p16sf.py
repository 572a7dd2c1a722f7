"""P16, part two: what an input object stores it gives back, for all values.

The restart file is written by asking each input class to store the running
object and is read back by asking it to fetch a new one.  The contracts here
put the two together, `fetch(store(x)) == x`, for every value of the stored
numbers (proved), and once more after the same input object has been used to
store another state before, as happens in a run that writes the file several
times.  The text layer in between is covered by the bounded contracts of P16.
"""
import numpy as _np
from pyvc.contracts import contract
from checks.build import upper_h, patched, OpaqueFF
from ipi.utils.depend import depend_array, dstrip
import ipi.engine.thermostats as TH
import ipi.engine.barostats as BA
from ipi.engine.beads import Beads
from ipi.engine.cell import Cell
from ipi.engine.ensembles import Ensemble
from ipi.engine.forces import ForceComponent
from ipi.engine.normalmodes import NormalModes
from ipi.engine.motion import Dynamics
from ipi.engine.smotion import ReplicaExchange
from ipi.inputs.beads import InputBeads
from ipi.inputs.cell import InputCell
from ipi.inputs.ensembles import InputEnsemble
from ipi.inputs.thermostats import InputThermo
from ipi.inputs.barostats import InputBaro
from ipi.inputs.forces import InputForceComponent
from ipi.inputs.normalmodes import InputNormalModes
from ipi.inputs.motion import InputMotion
from ipi.inputs.smotion import InputSmotion


def V(v):
    return dstrip(v) if isinstance(v, depend_array) else v


def compare(ctx, what, got, want, names):
    ctx.ensure(what + " kind of object", type(got) is type(want))
    for k in names:
        a, b = V(getattr(got, k)), V(getattr(want, k))
        if isinstance(b, (str, bool, tuple, list)) or b is None:
            ctx.ensure("%s.%s" % (what, k), (list(a) == list(b)) if isinstance(b, (list, tuple)) else a == b)
        else:
            ctx.ensure_eq("%s.%s" % (what, k), a, b)


def roundtrip(cls, first, second):
    """A fetch of an input object that has stored one state and then another."""
    i = cls()
    i.store(first)
    i.store(second)
    return i.fetch()


def targets(f, c):
    return ["ipi/inputs/%s:%s.%s" % (f, c, m) for m in ("store", "fetch")] + [
        "ipi/utils/inputvalue.py:InputValue.store", "ipi/utils/inputvalue.py:InputValue.fetch",
        "ipi/utils/inputvalue.py:InputArray.store", "ipi/utils/inputvalue.py:InputArray.fetch"]


# ------------------------------------------------------------------ beads, cell
@contract("P16", "store and fetch: beads", targets("beads.py", "InputBeads"))
def beads(ctx):
    """Positions, momenta, masses and names of the beads are given back."""
    nb = ctx.choice("nb", [1, 3])
    bs = []
    for s in ("a", "b"):
        b = Beads(2, nb)
        b.q[:] = ctx.array("q" + s, (nb, 6))
        b.p[:] = ctx.array("p" + s, (nb, 6))
        b.m[:] = ctx.array("m" + s, (2,), pos=True)
        b.names[:] = ["H", "O"] if s == "a" else ["Cl", "X"]
        bs.append(b)
    c = roundtrip(InputBeads, *bs)
    for k in ("q", "p", "m"):
        ctx.ensure_eq(k, V(getattr(c, k)), V(getattr(bs[1], k)))
    ctx.ensure("names", list(V(c.names)) == ["Cl", "X"])
    ctx.ensure("number of beads and atoms", (c.nbeads, c.natoms) == (nb, 2))


@contract("P16", "store and fetch: cell", targets("cell.py", "InputCell"))
def cell(ctx):
    """The cell matrix is given back."""
    h = upper_h(ctx)
    h1 = _np.asarray(h) * 2.0
    c = roundtrip(InputCell, Cell(h1), Cell(h))
    ctx.ensure_eq("h", V(c.h), h)


# ------------------------------------------------------------------ ensemble
def no_nan():
    """The "not given" defaults of pressure and stress are nan, which is no
    number: zero stands for it while the contract runs (both are overwritten
    by store)."""
    f = dict(InputEnsemble.fields)
    for k, v in (("pressure", 0.0), ("stress", _np.zeros((3, 3)))):
        c, o = f[k]
        f[k] = (c, dict(o, default=v))
    return patched(InputEnsemble, fields=f)


@contract("P16", "store and fetch: ensemble", targets("ensembles.py", "InputEnsemble"))
def ensemble(ctx):
    """Temperature, pressure, stress, bath energy, weights and time are given back."""
    nw, nb = ctx.choice("n", [(0, 0), (2, 0), (3, 2)])
    es = []
    with no_nan():
        for s in "ab":
            es.append(Ensemble(eens=ctx.real("e" + s), temp=ctx.real("t" + s, pos=True),
                               pext=ctx.real("p" + s), stressext=ctx.array("s" + s, (3, 3)),
                               hweights=ctx.array("h" + s, (nw,)) if nw else _np.zeros(0),
                               bweights=ctx.array("w" + s, (nb,)) if nb else _np.zeros(0),
                               time=ctx.real("u" + s)))
        c = roundtrip(InputEnsemble, *es)
    compare(ctx, "ensemble", c, es[1], ["eens", "temp", "pext", "stressext", "time"])
    for k in ("hweights", "bweights"):
        a, b = V(getattr(c, k)), V(getattr(es[1], k))
        ctx.ensure(k + " length", len(a) == len(b))
        if len(b):
            ctx.ensure_eq(k, a, b)


# ------------------------------------------------------------------ thermostats
def thermo(ctx, mode, s):
    r = lambda n: ctx.real(n + s, pos=True)
    if mode == "langevin":
        t = TH.ThermoLangevin(tau=r("tau"))
    elif mode == "svr":
        t = TH.ThermoSVR(tau=r("tau"))
    elif mode == "pile_l":
        t = TH.ThermoPILE_L(tau=r("tau"), scale=r("scale"), pilect=r("pilect"))
    elif mode == "pile_g":
        t = TH.ThermoPILE_G(tau=r("tau"), scale=r("scale"), pilect=r("pilect"))
    elif mode == "cl":
        t = TH.ThermoCL(tau=r("tau"), intau=r("intau"), idtau=r("idtau"), apat=r("apat"))
    elif mode == "ffl":
        t = TH.ThermoFFL(tau=r("tau"), flip="hard" if s.endswith("b") else "soft")
    elif mode == "":
        t = TH.Thermostat()
    elif mode in ("gle", "gle-C"):
        t = TH.ThermoGLE(A=ctx.array("A" + s, (2, 2)), C=ctx.array("C" + s, (2, 2)) if mode == "gle-C" else None)
        t.s = ctx.array("S" + s, (2, 3))
    elif mode in ("nm_gle", "nm_gle-C"):
        t = TH.ThermoNMGLE(A=ctx.array("A" + s, (2, 2, 2)), C=ctx.array("C" + s, (2, 2, 2)) if mode == "nm_gle-C" else None)
        t.s = ctx.array("S" + s, (2, 2, 3))
    elif mode == "nm_gle_g":
        t = TH.ThermoNMGLEG(A=ctx.array("A" + s, (2, 2, 2)), C=ctx.array("C" + s, (2, 2, 2)), tau=r("tau"))
        t.s = ctx.array("S" + s, (2, 2, 3))
    elif mode == "multi":
        t = TH.MultiThermo(thermolist=[thermo(ctx, "langevin", "1" + s), thermo(ctx, "pile_g", "2" + s)])
    t.ethermo = ctx.real("eth" + s)
    return t


FIELDS = {"langevin": ["tau"], "svr": ["tau"], "pile_l": ["tau", "pilescale", "pilect"],
          "pile_g": ["tau", "pilescale", "pilect"], "cl": ["tau", "intau", "idtau", "apat"],
          "ffl": ["tau", "flip"], "": [], "gle": ["A", "s"], "gle-C": ["A", "C", "s"], "nm_gle": ["A", "s"],
          "nm_gle-C": ["A", "C", "s"], "nm_gle_g": ["A", "C", "s", "tau"]}


def same_thermo(ctx, what, a, b, mode):
    if mode == "multi":
        ctx.ensure(what + " kind", type(a) is type(b) and len(a.tlist) == len(b.tlist))
        for k, m in ((0, "langevin"), (1, "pile_g")):
            same_thermo(ctx, "%s[%d]" % (what, k), a.tlist[k], b.tlist[k], m)
        ctx.ensure_eq(what + ".ethermo", V(a.ethermo), V(b.ethermo))
    else:
        compare(ctx, what, a, b, FIELDS[mode] + ["ethermo"])
        if mode in ("gle", "nm_gle"):
            ctx.ensure(what + ": C is still derived from the temperature", a._C._func is not None)


def _thermo_contract(mode):
    @contract("P16", "store and fetch: thermostat %s" % (mode or "(none)"),
              targets("thermostats.py", "InputThermoBase") + targets("thermostats.py", "InputThermo")[:2])
    def c(ctx):
        ts = [thermo(ctx, mode, s) for s in "ab"]
        same_thermo(ctx, "thermostat", roundtrip(InputThermo, *ts), ts[1], mode)
    c.__doc__ = "Parameters, extended momenta and exchanged heat of a '%s' thermostat are given back." % mode


for _m in list(FIELDS) + ["multi"]:
    _thermo_contract(_m)


# ------------------------------------------------------------------ barostats
def baro(ctx, mode, s):
    th = thermo(ctx, "langevin", "t" + s)
    tau = ctx.real("btau" + s, pos=True)
    if mode in ("isotropic", "sc-isotropic"):
        b = (BA.BaroBZP if mode == "isotropic" else BA.BaroSCBZP)(thermostat=th, tau=tau)
        b.p = ctx.array("p" + s, (1,))
    elif mode == "dummy":
        b = BA.Barostat(thermostat=th, tau=tau)
    else:
        # the momentum of the cell is an upper triangular matrix
        q = ctx.array("p" + s, (3, 3))
        P = _np.zeros((3, 3), dtype=object if ctx.sym else float)
        for i in range(3):
            for j in range(i, 3):
                P[i, j] = q[i, j]
        if mode == "flexible":
            b = BA.BaroMTK(thermostat=th, tau=tau, hfix=_np.asarray(["xx", "yz"] if s == "b" else ["zz"]))
        else:
            b = BA.BaroRGB(thermostat=th, tau=tau, hfix=_np.asarray(["xx", "yz"] if s == "b" else ["zz"]))
            b.h0 = Cell(_np.asarray(upper_h(ctx)) * (1.0 if s == "b" else 3.0))
        b.p = P
    return b


def _baro_contract(mode):
    @contract("P16", "store and fetch: barostat %s" % mode, targets("barostats.py", "InputBaro"))
    def c(ctx):
        bs = [baro(ctx, mode, s) for s in "ab"]
        got = roundtrip(InputBaro, *bs)
        compare(ctx, "barostat", got, bs[1], ["tau"] + ([] if mode == "dummy" else ["p"]))
        same_thermo(ctx, "barostat.thermostat", got.thermostat, bs[1].thermostat, "langevin")
        if mode in ("flexible", "anisotropic"):
            ctx.ensure("barostat.hfix", list(got.hfix) == ["xx", "yz"])
        if mode == "anisotropic":
            ctx.ensure_eq("barostat.h0", V(got.h0.h), V(bs[1].h0.h))
    c.__doc__ = "Momentum, time constant, reference cell and thermostat of a '%s' barostat are given back." % mode


for _m in ("dummy", "isotropic", "sc-isotropic", "flexible", "anisotropic"):
    _baro_contract(_m)


# ------------------------------------------------------------------ forces, normal modes
@contract("P16", "store and fetch: force component", targets("forces.py", "InputForceComponent"))
def force(ctx):
    """Weights, number of replicas and finite-difference step of a force component are given back."""
    nm = ctx.choice("levels", [0, 1, 3])
    fs = []
    for s in "ab":
        fs.append(ForceComponent("ff" + s, nbeads=4 if s == "b" else 2, weight=ctx.real("w" + s), name="n" + s,
                                 mts_weights=ctx.array("mw" + s, (nm,)) if nm else _np.zeros(0),
                                 interpolate_extras=_np.asarray(["dipole"] if s == "b" else [], dtype=str),
                                 epsilon=ctx.real("eps" + s)))
    c = roundtrip(InputForceComponent, *fs)
    compare(ctx, "force", c, fs[1], ["ffield", "nbeads", "weight", "name", "epsilon"])
    ctx.ensure("interpolated extras", list(c.interpolate_extras) == ["dipole"])
    a, b = V(c.mts_weights), V(fs[1].mts_weights)
    ctx.ensure("number of levels", len(a) == len(b))
    if nm:
        ctx.ensure_eq("mts_weights", a, b)


@contract("P16", "store and fetch: normal modes", targets("normalmodes.py", "InputNormalModes"))
def nmodes(ctx):
    """Mode, frequencies, transform, propagator and open paths of the normal modes are given back."""
    mode, nf = ctx.choice("mode", [("rpmd", 0), ("manual", 3), ("pa-cmd", 1), ("wmax-cmd", 2)])
    ns = []
    for s in "ab":
        z = s == "b"
        ns.append(NormalModes(mode, "matrix" if z else "fft", "bab" if z else "exact",
                              ctx.array("f" + s, (nf,), pos=True) if nf else _np.zeros(0),
                              open_paths=_np.asarray([0, 2] if z else [1], int),
                              bosons=(_np.asarray([], int), "index"), nmts=5 if z else 3,
                              fft_threads=2 if z else 1, fft_float32=z))
        ns[-1].bosons = _np.asarray([1], int) if z else _np.asarray([], int)
    c = roundtrip(InputNormalModes, *ns)
    b = ns[1]
    compare(ctx, "normal modes", c, b, ["mode", "transform_method", "propagator", "nmts", "fft_threads", "fft_float32"])
    ctx.ensure("open paths", list(V(c.open_paths)) == [0, 2])
    ctx.ensure("number of frequencies", len(V(c.nm_freqs)) == nf)
    if nf:
        ctx.ensure_eq("frequencies", V(c.nm_freqs), V(b.nm_freqs))


# ------------------------------------------------------------------ motion, exchange
@contract("P16", "store and fetch: molecular dynamics",
          targets("motion/motion.py", "InputMotionBase")[:2] + targets("motion/dynamics.py", "InputDynamics"))
def dynamics(ctx):
    """Time step, splitting, inner steps, constraints, thermostat and barostat of the dynamics are given back."""
    mode = ctx.choice("mode", ["nve", "nvt", "npt", "nst", "sc", "scnpt", "nvt-cc"])
    ds = []
    for s in "ab":
        z = s == "b"
        ds.append(Dynamics(ctx.real("dt" + s, pos=True), mode=mode, splitting="baoab" if z else "obabo",
                           thermostat=thermo(ctx, "pile_l", s), barostat=baro(ctx, "isotropic", s),
                           fixcom=not z, fixatoms_dof=_np.asarray([0, 1, 2, 5] if z else [1], int),
                           nmts=_np.asarray([2, 3] if z else [1], int)))
    c = roundtrip(InputMotion, *ds)
    b = ds[1]
    compare(ctx, "dynamics", c, b, ["dt", "enstype", "splitting", "fixcom"])
    ctx.ensure("fixed coordinates", list(c.fixatoms_dof) == [0, 1, 2, 5])
    ctx.ensure("inner steps", list(V(c.nmts)) == [2, 3])
    same_thermo(ctx, "dynamics.thermostat", c.thermostat, b.thermostat, "pile_l")
    compare(ctx, "dynamics.barostat", c.barostat, b.barostat, ["tau", "p"])
    same_thermo(ctx, "dynamics.barostat.thermostat", c.barostat.thermostat, b.barostat.thermostat, "langevin")


@contract("P16", "store and fetch: replica exchange", targets("smotion/remd.py", "InputReplicaExchange"))
def remd(ctx):
    """Stride, replica indices, rescaling and file name of the replica exchange are given back."""
    rs = []
    for s in "ab":
        z = s == "b"
        rs.append(ReplicaExchange(stride=ctx.real("stride" + s), repindex=_np.asarray([2, 0, 1] if z else [0, 1, 2], int),
                                  krescale=not z, swapfile="swap" + s))
    c = roundtrip(InputSmotion, *rs)
    compare(ctx, "exchange", c, rs[1], ["stride", "rescalekin", "swapfile"])
    ctx.ensure("replica indices", [int(x) for x in V(c.repindex)] == [2, 0, 1])
