"""P02: derived quantities follow every change of what they are computed from."""
import numpy as _np

import ipi.engine.barostats as BA
import ipi.engine.thermostats as TH
import ipi.engine.cell
from ipi.utils.depend import depend_base, depend_array, dstrip
from pyvc.contracts import contract
from checks.build import make_system, OpaqueFF, fcomp, upper_h, StubPRNG

ASSUMPTIONS = ["bead numbers, ensembles, thermostats, barostats and propagators enumerated (listed in the contracts)"]


class Shared:
    """The inputs of two systems that differ in the named values only."""

    def __init__(self, ctx, memo, change=()):
        self._c, self._memo, self._change = ctx, memo, change

    def __getattr__(self, k):
        return getattr(self._c, k)

    def _get(self, kind, name, *a, **k):
        key = name + "_new" if name in self._change else name
        if key not in self._memo:
            self._memo[key] = getattr(self._c, kind)(key, *a, **k)
        v = self._memo[key]
        return v.copy() if hasattr(v, "copy") else v

    def real(self, name, *a, **k):
        return self._get("real", name, *a, **k)

    def array(self, name, *a, **k):
        return self._get("array", name, *a, **k)

    def dim(self, name, *a, **k):
        return self._get("dim", name, *a, **k)


SKIP = {"queue", "ffield", "prng", "dcell"}


def quantities(s):
    """path -> reader of every quantity of the dependency network of a bound system"""
    out, seen = {}, set()

    def visit(o, path, depth):
        if o is None or id(o) in seen or depth > 7:
            return
        seen.add(id(o))
        if isinstance(o, (list, tuple)):
            for i, x in enumerate(o):
                visit(x, "%s[%d]" % (path, i), depth + 1)
            return
        if isinstance(o, dict) or not type(o).__module__.startswith("ipi."):
            return
        for k, v in sorted(vars(o).items()):
            if k in SKIP:
                continue
            if isinstance(v, depend_base):
                pub = k[1:] if k.startswith("_") else k
                if pub and pub in dir(type(o)) or not k.startswith("_"):
                    out[path + "." + pub] = (o, pub)
            elif isinstance(v, (list, tuple)) or type(v).__module__.startswith("ipi.engine") or type(v).__module__ == "ipi.utils.exchange":
                visit(v, path + "." + k, depth + 1)

    for k in ("beads", "cell", "nm", "forces", "ensemble", "motion"):
        visit(getattr(s, k), k, 0)
    return out


def read(e):
    v = getattr(e[0], e[1])
    if isinstance(v, depend_array):
        v = dstrip(v)
    return v.copy() if hasattr(v, "copy") else v


def system(c, case):
    kind, P = case["kind"], case["P"]
    np = c.np
    A = c.array("A", (2, 2))
    A = np.dot(A, A.T) + np.eye(2)
    tau = lambda n="tau": c.real(n, pos=True)
    th = {"none": None, "langevin": lambda: TH.ThermoLangevin(tau=tau()), "svr": lambda: TH.ThermoSVR(tau=tau()),
          "pile_l": lambda: TH.ThermoPILE_L(tau=tau(), scale=c.real("lam", pos=True), pilect=c.real("pct", pos=True) if case.get("ct") else 0.0),
          "pile_g": lambda: TH.ThermoPILE_G(tau=tau(), scale=c.real("lam", pos=True)),
          "gle": lambda: TH.ThermoGLE(A=A), "nm_gle": lambda: TH.ThermoNMGLE(A=np.array([A] * P)),
          "ffl": lambda: TH.ThermoFFL(tau=tau()), "cl": lambda: TH.ThermoCL(tau=tau(), intau=tau("intau"), idtau=tau("idtau")),
          "multi": lambda: TH.MultiThermo(thermolist=[TH.ThermoSVR(tau=tau()), TH.ThermoLangevin(tau=tau("tau2"))])}[case.get("th", "none")]
    thermo = th() if th else None
    if case.get("th") in ("gle", "nm_gle"):
        thermo.s = np.zeros(0)
    baro = pext = st = None
    bth = TH.ThermoLangevin(tau=tau("taut"))
    if kind in ("npt", "scnpt", "mtk"):
        pext = c.real("pext")
    if kind == "npt":
        baro = BA.BaroBZP(tau=tau("taub"), thermostat=bth, p=c.array("pb1", (1,)))
    elif kind == "scnpt":
        baro = BA.BaroSCBZP(tau=tau("taub"), thermostat=bth, p=c.array("pb1", (1,)))
    elif kind == "mtk":
        baro = BA.BaroMTK(tau=tau("taub"), thermostat=bth, p=np.triu(c.array("pb", (3, 3))))
    elif kind == "nst":
        a = c.array("sext", (3, 3))
        st = 0.5 * (a + a.T)
        baro = BA.BaroRGB(tau=tau("taub"), thermostat=bth, p=np.triu(c.array("pb", (3, 3))), h0=ipi.engine.cell.Cell(upper_h(c, "h0")))
    mode = {"mtk": "npt"}.get(kind, kind)
    nmts = case.get("nmts", (1,))
    L = len(nmts)
    ffs = {"a": OpaqueFF(c, "a"), "b": OpaqueFF(c, "b")}
    comps = [fcomp("a", mts_weights=[1.0] + [0.0] * (L - 1)), fcomp("b", mts_weights=[0.0] * (L - 1) + [1.0], weight=0.5, nbeads=case.get("rpc", 0))]
    bias = case.get("bias")
    if bias:
        ffs["bias"] = OpaqueFF(c, "bias")
    return make_system(c, natoms=case.get("N"), nbeads=P, mode=mode, thermostat=thermo, barostat=baro, pext=pext, stressext=st, nmts=nmts, ffs=ffs, comps=comps,
                       bcomp=[fcomp("bias")] if bias else None, bweights=c.array("bw", (1,)) if bias else None,
                       hweights=c.array("hw", (2,)) if bias else None, propagator=case.get("prop", "exact"), open_paths=case.get("open"),
                       bosons=case.get("bosons"), nm_mode=case.get("nm", "rpmd"),
                       freqs=c.array("freq", (case["nfreq"],), pos=True) if case.get("nfreq") else None, splitting=case.get("split", "obabo"))


def setter(c, s, root):
    """changes one input of a living system"""
    np = c.np
    if root in ("q", "p"):
        n = s.nbeads
        getattr(s.beads, root)[:] = c.array(root, getattr(s.beads, root).shape)
    elif root == "m":
        s.beads.m[:] = c.array("m", s.beads.m.shape, pos=True)
    elif root == "hd":
        s.cell.h = upper_h(c)
    elif root == "temp":
        s.ensemble.temp = c.real("temp", pos=True)
    elif root == "dt":
        s.motion.dt = c.real("dt", pos=True)
    elif root == "pext":
        s.ensemble.pext = c.real("pext")
    elif root == "sext":
        a = c.array("sext", (3, 3))
        s.ensemble.stressext = 0.5 * (a + a.T)
    elif root == "bw":
        s.ensemble.bweights[:] = c.array("bw", (1,))
    elif root == "hw":
        s.ensemble.hweights[:] = c.array("hw", (2,))
    elif root == "tau":
        t = s.motion.thermostat
        (t.tlist[0] if hasattr(t, "tlist") else t).tau = c.real("tau", pos=True)
    elif root == "lam":
        s.motion.thermostat.pilescale = c.real("lam", pos=True)
    elif root == "pct":
        s.motion.thermostat.pilect = c.real("pct", pos=True)
    elif root == "A":
        A = c.array("A", (2, 2))
        A = np.dot(A, A.T) + np.eye(2)
        s.motion.thermostat.A = np.array([A] * s.nbeads) if s.motion.thermostat.A.ndim == 3 else A
    elif root in ("intau", "idtau"):
        setattr(s.motion.thermostat, root, c.real(root, pos=True))
    elif root == "taub":
        s.motion.barostat.tau = c.real("taub", pos=True)
    elif root == "taut":
        s.motion.barostat.thermostat.tau = c.real("taut", pos=True)
    elif root == "pb1":
        s.motion.barostat.p[:] = c.array("pb1", (1,))
    elif root == "pb":
        s.motion.barostat.p[:] = np.triu(c.array("pb", (3, 3)))
    elif root == "h0d":
        s.motion.barostat.h0.h = upper_h(c, "h0")
    elif root == "freq":
        s.nm.nm_freqs[:] = c.array("freq", s.nm.nm_freqs.shape, pos=True)
    else:
        raise RuntimeError(root)


CASES = [
    dict(kind="nve", P=1), dict(kind="nve", P=2), dict(kind="nvt", P=4, th="pile_l", ct=True), dict(kind="nvt", P=2, th="pile_g", bias=True),
    dict(kind="nvt", P=1, th="svr", nmts=(2, 3)), dict(kind="nvt", P=4, th="langevin", rpc=2, nmts=(1, 2)),
    dict(kind="nvt", P=2, th="gle", N=2), dict(kind="nvt", P=2, th="nm_gle", N=2), dict(kind="nvt", P=2, th="ffl"), dict(kind="nvt", P=2, th="cl"),
    dict(kind="nvt", P=2, th="multi"), dict(kind="npt", P=2, th="pile_l", bias=True), dict(kind="npt", P=1, th="svr", nmts=(2, 1)),
    dict(kind="mtk", P=2, th="langevin"), dict(kind="npt", P=2, th="pile_l"), dict(kind="nst", P=2, th="pile_l"), dict(kind="nst", P=2, th="pile_l", bias=True), dict(kind="scnpt", P=2, th="pile_l"),
    dict(kind="nvt", P=4, th="pile_l", open=[0], N=2, prop="cayley"), dict(kind="nvt", P=2, th="pile_l", bosons=_np.array([0, 1]), N=2, prop="bab"),
    dict(kind="nvt", P=3, th="pile_l", nm="pa-cmd", nfreq=1), dict(kind="nvt", P=3, th="pile_l", nm="manual", nfreq=2),
    dict(kind="nvt", P=3, th="pile_l", nm="wmax-cmd", nfreq=2, prop="cayley"), dict(kind="nvt", P=4, th="pile_l", nm="pa-cmd", nfreq=1, open=[1], N=2), dict(kind="nvt", P=2, th="pile_l", split="baoab"),
    dict(kind="sc", P=2, th="pile_l")]


def roots(case):
    r = ["q", "p", "m", "hd", "temp", "dt"]
    th, k = case.get("th", "none"), case["kind"]
    if th in ("langevin", "svr", "pile_l", "pile_g", "ffl", "cl", "multi"):
        r.append("tau")
    if th in ("pile_l", "pile_g"):
        r.append("lam")
    if case.get("ct"):
        r.append("pct")
    if th in ("gle", "nm_gle"):
        r.append("A")
    if th == "cl":
        r += ["intau", "idtau"]
    if case.get("bias"):
        r += ["bw", "hw"]
    if k in ("npt", "scnpt", "mtk"):
        r.append("pext")
    if k in ("npt", "scnpt"):
        r.append("pb1")
    if k in ("nst", "mtk"):
        r.append("pb")
    if k == "nst":
        r += ["sext", "h0d"]
    if k in ("npt", "scnpt", "mtk", "nst"):
        r += ["taub", "taut"]
    if case.get("nfreq"):
        r.append("freq")
    return r


def numeric(v):
    if v is None or isinstance(v, (str, tuple, list, dict)):
        return False
    if hasattr(v, "dtype") and v.dtype.kind in "SUOb" and not hasattr(v, "data_"):
        return v.dtype.kind == "O"
    return True


def twins(ctx, case, root):
    """(path, value in a living system one input of which has changed, value in a system set up with the changed input)"""
    memo = {}
    names = {"hd": ("h", "hd"), "h0d": ("h0", "h0d")}.get(root, (root,))
    c1, c2 = Shared(ctx, memo), Shared(ctx, memo, names)
    s = system(c1, case)
    Q = quantities(s)
    if ctx.sym:     # a truth value: compared in the concrete runs
        Q.pop("ensemble.has_bias", None)
    bad = set()
    for k, e in Q.items():
        try:
            read(e)
        except (Exception, SystemExit):     # not defined for this kind of simulation, or outside the symbolic engine
            bad.add(k)
    setter(c2, s, root)
    t = system(c2, case)
    R = quantities(t)
    for k in sorted(Q):
        if k in bad or k not in R:
            continue
        yield k, read(Q[k]), read(R[k])


# views of the bias split by time-step level exist but are never used: the bias is applied whole
UNUSED = (".bias.mts_forces",)


def follow(ctx, case, root):
    n = 0
    for k, a, b in twins(ctx, case, root):
        if not numeric(a) or any(u in k for u in UNUSED):
            continue
        n += 1
        if not ctx.sym:
            a, b = _np.nan_to_num(_np.asarray(a, float)), _np.nan_to_num(_np.asarray(b, float))
        ctx.ensure_eq("%s after %s" % (k, root), a, b)
    if n < 40:
        raise RuntimeError("quantities of the system not found")


def label(case):
    return " ".join("%s" % (v,) if k in ("kind", "th") else "%s=%s" % (k, v) for k, v in case.items())


def _make(case, rr, name):
    def fn(ctx):
        """Everything that can be read from a running system after a change equals what a system set up with the changed value gives."""
        follow(ctx, case, ctx.choice("changed", rr))
    n = len(rr)
    noise = case.get("th") in ("gle", "nm_gle")
    contract("P02", "derived quantities: " + name, TARGETS, sym=not noise, samples=(2 * n, 12 * n), limit=240 if "hw" in rr and n == 1 else 90,
             why="matrix square roots and exponentials of coloured-noise thermostats" if noise else None)(fn)


TARGETS = ["ipi/utils/depend.py:depend_base", "ipi/engine/beads.py:Beads.__init__", "ipi/engine/normalmodes.py:NormalModes.bind", "ipi/engine/forces.py:Forces.bind",
           "ipi/engine/ensembles.py:Ensemble.bind", "ipi/engine/thermostats.py:Thermostat.bind", "ipi/engine/barostats.py:Barostat.bind",
           "ipi/engine/motion/dynamics.py:DummyIntegrator.bind"]
for _case in CASES:
    if _case.get("bias"):
        for _r in ("q", "p", "m", "hd", "temp", "dt", "bw", "hw"):
            _make(_case, [_r], label(_case) + ": " + _r)
    else:
        _make(_case, roots(_case), label(_case))
