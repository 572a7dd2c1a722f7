"""P22: estimators of thermodynamic properties."""
import threading

import numpy as _np

from pyvc.contracts import contract
from checks.build import make_system, val, OpaqueFF, fcomp, grad
import ipi.engine.properties as PR
from ipi.engine.properties import Properties, Trajectories
from ipi.utils.units import Constants
from ipi.utils import mathtools

T = "ipi/engine/properties.py:"
ASSUMPTIONS = ["force providers are arbitrary functions of positions and cell", "three atoms of two species; bead numbers 1, 2 and 4",
               "estimators with finite differences: only the formula for a given step is decided, not the choice of the step"]
NAMES = ["H", "O", "H"]
KB = Constants.kb
HBAR = Constants.hbar


class Simul:
    step = 4


def build(ctx, P=None, props=True, names=NAMES, natoms=3, **kw):
    P = ctx.choice("P", [1, 2, 4]) if P is None else P
    s = make_system(ctx, natoms=natoms, nbeads=P, **kw)
    s.beads.names[:] = _np.array(names)
    s.simul = Simul()
    s._propertylock = threading.Lock()
    s.P = P
    if props:
        s.pr = Properties()
        s.pr.bind(s)
        s.tr = Trajectories()
        s.tr.bind(s)
    s.q, s.p, s.m = val(s.beads.q), val(s.beads.p), val(s.beads.m)
    s.qc = s.q.sum(axis=0) / P
    s.f = val(s.forces.f)
    s.kT = KB * s.temp
    s.w2 = (P * s.kT / HBAR) ** 2
    return s


SEL = ["", "0", "1", "2", "H", "O"]


def atoms_of(sel, names=NAMES):
    if sel == "":
        return list(range(len(names)))
    if sel.isdigit():
        return [int(sel)]
    return [i for i, n in enumerate(names) if n == sel]


def ask(s, key, sel="", **kw):
    args = ["atom=" + sel] if sel else []
    args += ["%s=%s" % x for x in kw.items()]
    return s.pr[key + ("(" + ";".join(args) + ")" if args else "")][0]


def cvir(s, i, f=None, cs=(0, 1, 2), beads=None):
    f = s.f if f is None else f
    return sum((s.q[b, 3 * i + c] - s.qc[3 * i + c]) * f[b, 3 * i + c] for b in (range(s.P) if beads is None else beads) for c in cs)


def ring(s, i, q=None):
    q = s.q if q is None else q
    return sum((q[b, 3 * i + c] - q[b - 1, 3 * i + c]) ** 2 for b in range(s.P) for c in range(3))


def unchanged(ctx, s, calls):
    """asking for properties leaves the simulation as it is"""
    ctx.ensure_eq("positions untouched", s.beads.q, s.q)
    ctx.ensure_eq("momenta untouched", s.beads.p, s.p)
    ctx.ensure_eq("forces untouched", s.forces.f, s.f)


@contract("P22", "quantum kinetic energy estimators", [T + "Properties.get_kincv", T + "Properties.get_kintd", T + "Properties.get_ktens",
                                                       T + "Properties.get_kij", T + "Properties._kinetic_td_distinguishables",
                                                       T + "Trajectories.get_akcv", T + "Trajectories.get_akcv_od"], samples=(12, 60))
def kinetic(ctx):
    """The centroid-virial estimator is 3/2 kT - 1/(2P) sum (q-qc).f per atom, the primitive one 3/2 P kT minus the spring energy per bead; tensors
    are symmetric products with the scalar estimator as trace, and selections of atoms add up."""
    np = ctx.np
    s = build(ctx)
    P = s.P
    cv = [1.5 * s.kT - 0.5 / P * cvir(s, i) for i in range(3)]
    td = [1.5 * P * s.kT - 0.5 * s.m[i] * s.w2 / P * ring(s, i) for i in range(3)]

    def tens(i, j):
        r = []
        for a, b in ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)):
            v = sum(s.m[i] * (s.q[k, 3 * i + a] - s.qc[3 * i + a]) * s.f[k, 3 * j + b]
                    + s.m[j] * (s.q[k, 3 * j + b] - s.qc[3 * j + b]) * s.f[k, 3 * i + a] for k in range(P))
            v = -v / (4.0 * P * np.sqrt(s.m[i] * s.m[j]))
            r.append(v + (0.5 * s.kT if i == j and a == b else 0.0))
        return r
    for sel in SEL:
        ids = atoms_of(sel)
        ctx.ensure_eq("centroid virial %s" % sel, ask(s, "kinetic_cv", sel), sum(cv[i] for i in ids))
        ctx.ensure_eq("primitive %s" % sel, ask(s, "kinetic_td", sel), sum(td[i] for i in ids))
        t = val(ask(s, "kinetic_tens", sel))
        for k in range(6):
            ctx.ensure_eq("tensor %s %d" % (sel, k), t[k], sum(tens(i, i)[k] for i in ids))
        ctx.ensure_eq("trace %s" % sel, t[0] + t[1] + t[2], ask(s, "kinetic_cv", sel))
    for i, j in ((0, 1), (2, 0), (1, 1)):
        t = val(s.pr["kinetic_ij(%d;%d)" % (i, j)][0])
        e = tens(i, j)
        for k in range(6):
            ctx.ensure_eq("pair tensor %d%d%d" % (i, j, k), t[k], e[k])
    a = val(s.tr["kinetic_cv"][0])
    od = val(s.tr["kinetic_od"][0])
    for i in range(3):
        for c in range(3):
            ctx.ensure_eq("per coordinate", a[3 * i + c], 0.5 * s.kT - 0.5 / P * cvir(s, i, cs=(c,)))
        for k in range(3):
            ctx.ensure_eq("off-diagonal per atom", od[3 * i + k], tens(i, i)[3 + k])
    unchanged(ctx, s, 0)


@contract("P22", "classical kinetic energy and temperature", [T + "Properties.get_kinmd", T + "Properties.get_temp", T + "Properties.get_atom_ids"],
          samples=(16, 80))
def kinmd(ctx):
    """The classical kinetic energy is that of the mode momenta with their dynamical masses, per bead, for any selection; the temperature is the
    energy per unconstrained degree of freedom."""
    P = ctx.choice("P", [1, 2, 4])
    con = ctx.choice("constraint", ["none", "com", "atom", "dof"])
    fix = {"none": None, "com": None, "atom": _np.array([3, 4, 5]), "dof": _np.array([0, 7])}[con]
    s = build(ctx, P, mode="nvt", thermostat=PRth(), fixcom=con == "com", fixatoms=fix)
    pnm, dm3 = val(s.nm.pnm), val(s.nm.dynm3)
    M = s.m[0] + s.m[1] + s.m[2]
    fx = set(() if fix is None else fix.tolist())
    for sel in SEL:
        ids = atoms_of(sel)
        k = sum(pnm[b, 3 * i + c] ** 2 / (2 * dm3[b, 3 * i + c]) for b in range(P) for i in ids for c in range(3)) / P
        ctx.ensure_eq("kinetic %s" % sel, ask(s, "kinetic_md", sel), k)
        nf = sum(1 for i in ids for c in range(3) if 3 * i + c in fx) * P
        if con == "com":
            nf = 3 * sum(s.m[i] for i in ids) / M
        ctx.ensure_eq("temperature %s" % sel, ask(s, "temperature", sel), (2 * k + s.kT * nf) / (KB * 3 * len(ids) * P))
    for b in range(P):
        for sel in ("", "1", "H"):
            ids = atoms_of(sel)
            k = sum(pnm[b, 3 * i + c] ** 2 / (2 * dm3[b, 3 * i + c]) for i in ids for c in range(3))
            ctx.ensure_eq("mode %d %s" % (b, sel), ask(s, "kinetic_md", sel, nm=b), k)
            nf = sum(1 for i in ids for c in range(3) if 3 * i + c in fx) * P
            if con == "com":
                nf = 3 * P * sum(s.m[i] for i in ids) / M if b == 0 else 0
            ctx.ensure_eq("mode temperature", ask(s, "temperature", sel, nm=b), (2 * k + s.kT * nf) / (KB * 3 * len(ids) * P))
            k = sum(s.p[b, 3 * i + c] ** 2 / (2 * s.m[i]) for i in ids for c in range(3))
            ctx.ensure_eq("bead %d %s" % (b, sel), ask(s, "kinetic_md", sel, bead=b), k)
    unchanged(ctx, s, 0)


def PRth():
    from ipi.engine.thermostats import ThermoLangevin
    return ThermoLangevin(tau=100.0)


@contract("P22", "equipartition", [T + "Properties.get_temp"], samples=(6, 20))
def equip(ctx):
    """With every unconstrained degree of freedom carrying P kB T / 2 the temperature printed is T."""
    P = ctx.choice("P", [1, 2, 4])
    con = ctx.choice("constraint", ["none", "dof", "cc", "cc dof", "movers dof"])
    fix = _np.array([0, 7]) if "dof" in con else None
    kw = dict(mode="nvt-cc" if "cc" in con else "nvt", thermostat=PRth(), fixatoms=fix)
    if "movers" in con:
        from ipi.engine.motion.multi import MultiMotion
        from ipi.engine.motion.dynamics import Dynamics
        kw = dict(motion=MultiMotion([Dynamics(timestep=1.0, mode="nvt", thermostat=PRth(), fixatoms_dof=fix) for _ in (0, 1)]))
    s = build(ctx, P, **kw)
    dm3 = val(s.nm.dynm3)
    pn = ctx.np.zeros((P, 9))
    for b in range(P):
        for j in range(9):
            fixed = (fix is not None and j in fix.tolist()) or ("cc" in con and b == 0)
            if not fixed:
                pn[b, j] = ctx.np.sqrt(dm3[b, j] * s.kT * P)
    s.nm.pnm[:] = pn
    if "cc" in con and P == 1:
        return ctx.ensure("nothing moves", True)
    ctx.ensure_eq("temperature", ask(s, "temperature"), s.temp)
    for b in range(P):
        ctx.ensure_eq("of each mode", ask(s, "temperature", nm=b), s.temp)
    for sel in SEL[1:]:
        ctx.ensure_eq("of atoms %s" % sel, ask(s, "temperature", sel), s.temp)
        ctx.ensure_eq("of a mode of atoms %s" % sel, ask(s, "temperature", sel, nm=P - 1), s.temp)


@contract("P22", "pressure and stress estimators", [T + "Properties.kstress_cv", T + "Properties.kstress_sctd", T + "Properties.get_kstress_md",
                                                    T + "Properties.tensor2vec"], samples=(12, 60))
def stress(ctx):
    """Stress is virial plus kinetic stress over the volume (per bead for the quantum estimators), pressure a third of its trace, and the quantum
    kinetic stress is the centroid kinetic term minus (q-qc) f."""
    np = ctx.np
    P = ctx.choice("P", [1, 2, 4])
    s = build(ctx, P)
    V = val(s.cell.h)
    V = V[0, 0] * V[1, 1] * V[2, 2]
    vir = val(s.forces.vir)
    pnm, dm3 = val(s.nm.pnm), val(s.nm.dynm3)
    pc = s.p.sum(axis=0) / P
    ix = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))
    md, cv, virt = [], [], []
    for a, b in ix:
        md.append(sum(pnm[k, 3 * i + a] * pnm[k, 3 * i + b] / dm3[k, 3 * i + a] for k in range(P) for i in range(3)))
        c = -sum((s.q[k, 3 * i + a] - s.qc[3 * i + a]) * s.f[k, 3 * i + b] for k in range(P) for i in range(3))
        if a == b:
            c = c + P * sum(pc[3 * i + a] ** 2 / s.m[i] for i in range(3))
        cv.append(c)
        virt.append(vir[a, b])
    g = {k: val(s.pr[k][0]) for k in ("stress_md", "kstress_md", "virial_md", "stress_cv", "kstress_cv", "virial_cv", "pressure_md", "pressure_cv",
                                      "volume", "density", "cell_h")}
    for k in range(6):
        ctx.ensure_eq("kstress_md", g["kstress_md"][k], md[k] / V)
        ctx.ensure_eq("virial_md", g["virial_md"][k], virt[k] / V)
        ctx.ensure_eq("stress_md", g["stress_md"][k], (virt[k] + md[k]) / V)
        ctx.ensure_eq("kstress_cv", g["kstress_cv"][k], cv[k] / V / P)
        ctx.ensure_eq("virial_cv", g["virial_cv"][k], virt[k] / V / P)
        ctx.ensure_eq("stress_cv", g["stress_cv"][k], (virt[k] + cv[k]) / V / P)
        ctx.ensure_eq("cell_h", g["cell_h"][k], val(s.cell.h)[ix[k]])
    ctx.ensure_eq("pressure_md", g["pressure_md"], sum(virt[k] + md[k] for k in range(3)) / 3 / V)
    ctx.ensure_eq("pressure_cv", g["pressure_cv"], sum(virt[k] + cv[k] for k in range(3)) / 3 / V / P)
    ctx.ensure_eq("volume", g["volume"], V)
    ctx.ensure_eq("density", g["density"], (s.m[0] + s.m[1] + s.m[2]) / V)
    unchanged(ctx, s, 0)


@contract("P22", "Suzuki-Chin estimators", [T + "Properties.get_scpottd", T + "Properties.get_sckinop", T + "Properties.get_sckintd",
                                            T + "Properties.get_sckinpr", T + "Properties.kstress_sctd", T + "Properties.get_scop_estimators"],
          samples=(8, 40))
def suzuki(ctx):
    """The high-order estimators are the derivatives of the high-order path-integral weight with respect to mass, potential scale and volume."""
    np = ctx.np
    P = ctx.choice("P", [2, 4])
    s = build(ctx, P, mode="sc", thermostat=PRth())
    s.forces.alpha = ctx.choice("alpha", [0.0, 0.25])
    al = val(s.forces.alpha)
    pots, potssc = val(s.forces.pots), val(s.forces.potssc)
    fsc = val(s.forces.fsc)
    m3 = [s.m[i] for i in range(3) for _ in range(3)]
    # part of the effective potential that is quadratic in the force and inversely proportional to mass
    f2 = [[(al if b % 2 == 0 else 1 - al) / s.w2 / 9.0 * sum(s.f[b, 3 * i + c] ** 2 for c in range(3)) / s.m[i] for i in range(3)] for b in range(P)]
    for b in range(P):
        ctx.ensure_eq("effective potential", potssc[b], (-1 if b % 2 == 0 else 1) * pots[b] / 3.0 + sum(f2[b]))
    ctx.ensure_eq("potential_tdsc", s.pr["potential_tdsc"][0],
                  sum(pots[b] * (2.0 / 3 if b % 2 == 0 else 4.0 / 3) + 2 * sum(f2[b]) for b in range(P)) / P)
    ctx.ensure_eq("potential_opsc", s.pr["potential_opsc"][0], sum(pots[b] for b in range(0, P, 2)) * 2 / P)
    ctx.ensure_eq("kinetic_prsc", s.pr["kinetic_prsc"][0],
                  1.5 * s.kT * P * 3 - sum(0.5 * s.m[i] * s.w2 * ring(s, i) for i in range(3)) / P + sum(f2[b][i] for b in range(P) for i in range(3)) / P)
    tot = s.f + fsc
    for sel in SEL:
        ids = atoms_of(sel)
        ctx.ensure_eq("kinetic_tdsc", ask(s, "kinetic_tdsc", sel),
                      sum(1.5 * s.kT - 0.5 / P * cvir(s, i, tot) + sum(f2[b][i] for b in range(P)) / P for i in ids))
        ctx.ensure_eq("kinetic_opsc", ask(s, "kinetic_opsc", sel),
                      sum(1.5 * s.kT - 1.0 / P * cvir(s, i, beads=range(0, P, 2)) for i in ids))
    V = val(s.cell.h)
    V = V[0, 0] * V[1, 1] * V[2, 2]
    pc = s.p.sum(axis=0) / P
    vir, virsc = val(s.forces.vir), val(s.forces.virsc)
    k = -sum(cvir(s, i, tot) for i in range(3)) + P * sum(pc[3 * i + c] ** 2 / s.m[i] for i in range(3) for c in range(3))
    v = sum(vir[c, c] + virsc[c, c] for c in range(3))
    ctx.ensure_eq("kstress_tdsc", s.pr["kstress_tdsc"][0], k / (3 * V * P))
    ctx.ensure_eq("vir_tdsc", s.pr["vir_tdsc"][0], v / (3 * V * P))
    ctx.ensure_eq("pressure_tdsc", s.pr["pressure_tdsc"][0], (v + k) / (3 * V * P))
    unchanged(ctx, s, 0)


@contract("P22", "energies and single-atom quantities", [T + "Properties.get_pot", T + "Properties.get_atom_vec", T + "Properties.get_vcom",
                                                         T + "Properties.get_rg", T + "Trajectories.get_rg", T + "Properties.get_conserved",
                                                         T + "Properties.get_fqvirial"], samples=(12, 60))
def singles(ctx):
    """Potential, spring and conserved energies are bead averages; positions, velocities, momenta and forces of an atom are those of the bead asked
    for or the centroid; the gyration radius is that of the beads around the centroid."""
    np = ctx.np
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    P = ctx.choice("P", [1, 2, 4])
    ffs = {"a": OpaqueFF(ctx, "a"), "b": OpaqueFF(ctx, "b")}
    s = build(ctx, P, ffs=ffs, comps=[fcomp("a", weight=w[0]), fcomp("b", weight=w[1])])
    pots = val(s.forces.pots)
    ctx.ensure_eq("potential", s.pr["potential"][0], pots.sum() / P)
    ctx.ensure_eq("bead potentials", val(s.pr["bead_potentials"][0]), pots)
    ctx.ensure_eq("spring", s.pr["spring"][0], sum(0.5 * s.m[i] * s.w2 * ring(s, i) for i in range(3)) / P if P > 1 else 0.0)
    ctx.ensure_eq("conserved", s.pr["conserved"][0], val(s.ensemble.econs) / P)
    comp = []
    h = val(s.cell.h)
    for k, n in enumerate("ab"):
        comp.append([ffs[n].value(s.q[b].copy(), h) for b in range(P)])
        ctx.ensure_eq("component %s" % n, s.pr["pot_component(index=%d)" % k][0], sum(w[k] * comp[k][b][0] for b in range(P)) / P)
        ctx.ensure_eq("raw component %s" % n, s.pr["pot_component_raw(index=%d)" % k][0], sum(comp[k][b][0] for b in range(P)) / P)
        vc = val(s.pr["vir_component(index=%d)" % k][0])
        V = h[0, 0] * h[1, 1] * h[2, 2]
        for j, (x, y) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
            ctx.ensure_eq("virial component", vc[j], sum(w[k] * comp[k][b][2][x, y] for b in range(P)) / P / V)
    for b in range(P):
        ctx.ensure_eq("potential of a bead", s.pr["potential(bead=%d)" % b][0], pots[b])
        ctx.ensure_eq("component of a bead", s.pr["pot_component(index=1;bead=%d)" % b][0], w[1] * comp[1][b][0])
        f = s.f[b]
        ctx.ensure_eq("force modulus", s.pr["forcemod(bead=%d)" % b][0] ** 2, sum(f[j] ** 2 for j in range(9)))
    vel = ctx.np.zeros((P, 9))
    for i in range(3):
        for c in range(3):
            for b in range(P):
                vel[b, 3 * i + c] = s.p[b, 3 * i + c] / s.m[i]
    for key, a in (("atom_x", s.q), ("atom_p", s.p), ("atom_v", vel), ("atom_f", s.f)):
        for i in (0, 2):
            ctx.ensure_eq(key, val(s.pr["%s(atom=%d)" % (key, i)][0]), a[:, 3 * i:3 * i + 3].sum(axis=0) / P)
            for b in range(P):
                ctx.ensure_eq(key + " bead", val(s.pr["%s(atom=%d;bead=%d)" % (key, i, b)][0]), a[b, 3 * i:3 * i + 3])
    ctx.ensure_eq("path x", val(s.pr["atom_x_path(atom=1)"][0]), s.q[:, 3:6].reshape(-1))
    ctx.ensure_eq("path f", val(s.pr["atom_f_path(atom=1)"][0]), s.f[:, 3:6].reshape(-1))
    for sel in ("", "H", "O"):
        ids = atoms_of(sel)
        M = sum(s.m[i] for i in ids)
        for b in [-1] + list(range(P)):
            v = val(s.pr["vcom" + ("" if b < 0 and not sel else "(%s)" % (sel if b < 0 else "%s;%d" % (sel, b) if sel else "bead=%d" % b))][0])
            for c in range(3):
                ctx.ensure_eq("centre of mass velocity", v[c], sum(
                    (sum(s.p[k, 3 * i + c] for k in range(P)) / P if b < 0 else s.p[b, 3 * i + c]) for i in ids) / M)
    for sel in SEL:
        ids = atoms_of(sel)
        e = sum(np.sqrt(sum((s.q[b, 3 * i + c] - s.qc[3 * i + c]) ** 2 for b in range(P) for c in range(3)) / P) for i in ids) / len(ids)
        ctx.ensure_eq("gyration %s" % sel, ask(s, "r_gyration", sel), e)
    if P == 2 and ctx.sym:
        for j in range(1, 9):
            ctx.assume(s.q[0, j] > s.q[1, j])
    rg = val(s.tr["r_gyration"][0])
    for j in range(9 if P != 2 or not ctx.sym else 1):     # (two beads: the root is an absolute value, one path per sign)
        ctx.ensure_eq("gyration per coordinate", rg[j] ** 2, sum((s.q[b, j] - s.qc[j]) ** 2 for b in range(P)) / P)
    ctx.ensure_eq("virial f.q", s.pr["virial_fq"][0], 0.5 / P * sum(s.f[b, j] * s.q[b, j] for b in range(P) for j in range(9)))
    ctx.ensure_eq("step", s.pr["step"][0], 5)
    unchanged(ctx, s, 0)


@contract("P22", "estimators with displaced or scaled paths", [
    T + "Properties.get_linlin", T + "Properties.get_yama_estimators", T + "Properties.get_scyama_estimators", T + "Properties.get_isotope_zetasc",
    T + "Properties.get_isotope_zetasc_4th", T + "Trajectories.get_isotope_zetasc", T + "Properties.get_scop_estimators"], samples=(10, 40), tol=1e-6,
    limit=120)
def displaced(ctx):
    """Estimators which evaluate the potential on changed paths use the current positions and the current cell, whatever was asked or changed
    before, and leave the simulation untouched."""
    np = ctx.np
    P = ctx.choice("P", [1, 2, 4])
    what = ctx.choice("what", ["linlin", "yama", "zetasc", "zetasc_path"] + (["scyama", "scop", "zetasc4"] if P > 1 else []))
    s = build(ctx, P, mode="sc" if what in ("scyama", "scop") else "nvt", thermostat=PRth())
    if ctx.choice("moved", [False, True]):
        # something was asked for at the old state; then positions and cell have changed
        s.pr["isotope_zetasc(alpha=2.0;atom=0)"]
        s.pr["displacedpath(ux=0.1;uy=0.2;uz=0.3;atom=1)"]
        if what == "scyama":
            s.pr["sc_scaledcoords(fd_delta=0.01)"]
        s.beads.q[:] = ctx.array("q2", (P, 9))
        s.beads.m[:] = ctx.array("m2", (3,), pos=True)
        s.m = val(s.beads.m)
        s.ensemble.temp = s.temp = ctx.real("temp2", pos=True)
        s.kT = KB * s.temp
        s.w2 = (P * s.kT / HBAR) ** 2
        hd = ctx.array("h2", (3,), pos=True)
        h = val(s.cell.h)
        for i in range(3):
            h[i, i] = hd[i] * 5
        s.cell.h[:] = h
        s.q, s.f = val(s.beads.q), val(s.forces.f)
        s.qc = s.q.sum(axis=0) / P
    h = val(s.cell.h)
    ff = s.fflist["ff"]
    al = val(s.forces.alpha) if what == "scyama" else 0.0

    def pot(q, sc=False):
        r = []
        for b in range(P):
            u, f, _ = ff.value(q[b].copy(), h)
            if sc:
                u = u * (2.0 / 3 if b % 2 == 0 else 4.0 / 3) + (al if b % 2 == 0 else 1 - al) / s.w2 / 9.0 * sum(f[j] ** 2 / s.m[j // 3] for j in range(9))
            r.append(u)
        return r

    def scaled(ids, sf):
        q = s.q.copy()
        for i in ids:
            for b in range(P):
                for c in range(3):
                    q[b, 3 * i + c] = s.qc[3 * i + c] * (1.0 - sf) + sf * s.q[b, 3 * i + c]
        return q
    beta = 1.0 / s.kT
    v0 = sum(pot(s.q))
    sel = ctx.choice("sel", ["", "1", "H"])
    ids = atoms_of(sel)
    if what == "linlin":
        u = [0.3, -0.2, 0.5]
        e = 0.0
        for i in ids:
            q = s.q.copy()
            for b in range(P):
                for c in range(3):
                    q[b, 3 * i + c] = s.q[b, 3 * i + c] + (b / float(P) + 0.5 * (1.0 / P - 1)) * u[c]
            e = e + np.exp(-s.m[i] * 0.38 / (2 * beta * HBAR ** 2)) * np.exp(-(sum(pot(q)) - v0) * beta / P)
        ctx.ensure_eq("end-to-end distribution", s.pr["displacedpath(ux=0.3;uy=-0.2;uz=0.5%s)" % (";atom=" + sel if sel else "")][0], e / len(ids))
    elif what in ("yama", "scyama"):
        d = 0.02
        r = val(s.pr["scaledcoords(fd_delta=0.02)" if what == "yama" else "sc_scaledcoords(fd_delta=0.02)"][0])
        sc = what == "scyama"
        vp = sum(pot(scaled([0, 1, 2], np.sqrt(1.0 + d)), sc)) / P
        vm = sum(pot(scaled([0, 1, 2], np.sqrt(1.0 - d)), sc)) / P
        v00 = sum(pot(s.q, sc)) / P
        ctx.ensure_eq("energy", r[0], ((1 + d) * vp - (1 - d) * vm) / (2 * d) + 4.5 / beta)
        ctx.ensure_eq("derivative", r[1], ((1 + d) * vp + (1 - d) * vm - 2 * v00) / (d ** 2 * beta) - 4.5 / beta ** 2)
    elif what == "scop":
        eps = 0.02
        r = val(s.pr["sc_op_scaledcoords(fd_delta=0.02)"][0])
        q2 = s.q + eps * (s.q - s.qc)
        pr = pot(s.q)
        v1 = v2 = 0.0
        for b in range(0, P, 2):
            f2 = ff.value(q2[b].copy(), h)[1]
            for j in range(9):
                v1 = v1 + (s.q[b, j] - s.qc[j]) * s.f[b, j] * 2.0 / P
                v2 = v2 + (s.q[b, j] - s.qc[j]) * (f2[j] - s.f[b, j]) / eps * 2.0 / P
        ctx.ensure_eq("operator energy", r[0], 4.5 / beta - 0.5 * v1 + sum(pr[b] for b in range(0, P, 2)) * 2.0 / P)
        ctx.ensure_eq("operator derivative", r[1], 4.5 / beta ** 2 + 0.75 / beta * v1 + 0.25 / beta * v2)
    elif what == "zetasc":
        r = val(s.pr["isotope_zetasc(alpha=4.0%s)" % (";atom=" + sel if sel else "")][0])
        x = [sum(pot(scaled([i], 0.5))) - v0 for i in ids]
        ctx.ensure_eq("excess", r[0], sum(x) / len(ids))
        ctx.ensure_eq("square", r[1], sum(y * y for y in x) / len(ids))
        ctx.ensure_eq("ratio", r[2], sum(np.exp(-beta / P * y) for y in x) / len(ids))
    elif what == "zetasc4":
        r = val(s.pr["isotope_zetasc_4th(alpha=4.0%s)" % (";atom=" + sel if sel else "")][0])
        e = [0.0] * 5
        p0 = pot(s.q)
        for i in ids:
            q = scaled([i], 0.5)
            p1 = pot(q)
            sc = sum(p1) - v0
            g = [ff.value(q[b].copy(), h)[1] for b in range(P)]
            g2 = [sum(g[b][3 * i + c] ** 2 / 4.0 - s.f[b, 3 * i + c] ** 2 for c in range(3)) / s.m[i] / s.w2 for b in range(P)]
            chin = sum(g2[b] for b in range(1, P, 2)) / 9.0 + sum((p1[b] - p0[b]) * (-1 if b % 2 == 0 else 1) for b in range(P)) / 3.0
            ti = sum(g2) / 24.0
            for k, y in enumerate((sc, sc * sc, np.exp(-beta / P * sc), np.exp(-beta / P * (sc + ti)), np.exp(-beta / P * (sc + chin)))):
                e[k] = e[k] + y / len(ids)
        for k in range(5):
            ctx.ensure_eq("zetasc_4th %d" % k, r[k], e[k])
    else:
        r = val(s.tr["isotope_zetasc(alpha=4.0%s)" % (";atom=" + sel if sel else "")][0])
        for i in range(3):
            x = (sum(pot(scaled([i], 0.5))) - v0) / P if i in ids else 0.0
            ctx.ensure_eq("excess per atom", r[3 * i], x)
            ctx.ensure_eq("ratio per atom", r[3 * i + 2], np.exp(-beta * x))
    unchanged(ctx, s, 0)


@contract("P22", "isotope and reweighting estimators", [
    T + "Properties.get_isotope_zetatd", T + "Properties.get_isotope_zetatd_4th", T + "Trajectories.get_isotope_zetatd",
    T + "Properties.get_chin_correction", T + "Properties.get_ti_correction", T + "Properties.get_ti_term"], samples=(10, 40), limit=90)
def isotope(ctx):
    """Thermodynamic isotope estimators are the ratio of path weights with scaled mass; reweighting factors are those of the fourth-order forms."""
    np = ctx.np
    P = ctx.choice("P", [2, 4])
    s = build(ctx, P)
    bP = 1.0 / (s.kT * P)
    al = 4.0
    spr = [0.5 * (al - 1) * s.m[i] * s.w2 * ring(s, i) for i in range(3)]
    ff = al ** (1.5 * (P - 1))
    g = [[sum(s.f[b, 3 * i + c] ** 2 for c in range(3)) / s.m[i] / s.w2 for i in range(3)] for b in range(P)]
    chin = [(1 / al - 1) * sum(g[b][i] for b in range(1, P, 2)) / 9.0 for i in range(3)]
    ti = [(1 / al - 1) * sum(g[b][i] for b in range(P)) / 24.0 for i in range(3)]
    for sel in ("", "1", "H"):
        ids = atoms_of(sel)
        n = len(ids)
        a = ";atom=" + sel if sel else ""
        r = val(s.pr["isotope_zetatd(alpha=4.0%s)" % a][0])
        r4 = val(s.pr["isotope_zetatd_4th(alpha=4.0%s)" % a][0])
        e = [sum(spr[i] for i in ids) / n, sum(spr[i] ** 2 for i in ids) / n, ff * sum(np.exp(-bP * spr[i]) for i in ids) / n,
             ff * sum(np.exp(-bP * (spr[i] + ti[i])) for i in ids) / n, ff * sum(np.exp(-bP * (spr[i] + chin[i])) for i in ids) / n]
        for k in range(3):
            ctx.ensure_eq("thermodynamic %d" % k, r[k], e[k])
        for k in range(5):
            ctx.ensure_eq("fourth order %d" % k, r4[k], e[k])
        t = val(s.tr["isotope_zetatd(alpha=4.0%s)" % a][0])
        for i in range(3):
            ctx.ensure_eq("per atom", t[3 * i], spr[i] if i in ids else 0.0)
            ctx.ensure_eq("per atom exp", t[3 * i + 2], np.exp(-bP * spr[i]) if i in ids else 1.0)
        ctx.ensure_eq("ti_pot", ask(s, "ti_pot", sel), sum(g[b][i] for b in range(P) for i in ids) / 24.0 / P)
    pots = val(s.forces.pots)
    r = val(s.pr["chin_weight"][0])
    c = -bP * (sum(sum(g[b]) for b in range(1, P, 2)) / 9.0 + sum(pots[b] * (-1 if b % 2 == 0 else 1) for b in range(P)) / 3.0)
    ctx.ensure_eq("chin log", r[0], c)
    ctx.ensure_eq("chin weight", r[2], np.exp(c))
    r = val(s.pr["ti_weight"][0])
    c = -bP * sum(sum(x) for x in g) / 24.0
    ctx.ensure_eq("ti log", r[0], c)
    ctx.ensure_eq("ti weight", r[2], np.exp(c))
    unchanged(ctx, s, 0)


@contract("P22", "free-energy perturbation estimators", [T + "Properties.get_isotope_yama", T + "Properties.get_isotope_thermo"], samples=(20, 80),
          sym=False, why="logarithms of absolute values with signs", tol=1e-6)
def fep(ctx):
    """Average, mean square and logarithmic sums of the scaled-mass estimators are those of the selected atoms, including negative kinetic terms."""
    np = ctx.np
    P = ctx.choice("P", [1, 2, 4])
    s = build(ctx, P)
    if ctx.choice("moved", [False, True]):
        s.pr["isotope_scfep(alpha=2.0)"]
        h = val(s.cell.h)
        h[0, 0] *= 1.3
        s.cell.h[:] = h
        s.f = val(s.forces.f)
    # scale positions to make kinetic terms negative now and then
    sel = ctx.choice("sel", ["", "1", "H"])
    ids = atoms_of(sel)
    h = val(s.cell.h)
    ff = s.fflist["ff"]
    al = 4.0
    for key in ("isotope_scfep", "isotope_tdfep"):
        lr, kc = [], []
        for i in ids:
            if key == "isotope_scfep":
                q = s.q.copy()
                q[:, 3 * i:3 * i + 3] = s.qc[3 * i:3 * i + 3] + 0.5 * (s.q - s.qc)[:, 3 * i:3 * i + 3]
                r = [ff.value(q[b].copy(), h) for b in range(P)]
                f = np.array([x[1] for x in r])
                lr.append((sum(x[0] for x in r) - sum(ff.value(s.q[b].copy(), h)[0] for b in range(P))) / (s.kT * P))
                kc.append(1.5 * s.kT - 0.5 / P * ((q - s.qc) * f)[:, 3 * i:3 * i + 3].sum())
            else:
                lr.append((al - 1) * 0.5 * s.m[i] * s.w2 * ring(s, i) / (s.kT * P))
                kc.append(1.5 * s.kT - 0.5 / P * cvir(s, i))
        a = val(s.pr["%s(alpha=4.0%s)" % (key, ";atom=" + sel if sel else "")][0])
        lr, kc = np.array(lr), np.array(kc)
        ctx.ensure_eq("log ratio", a[0], lr.mean())
        ctx.ensure_eq("log ratio squared", a[1], (lr ** 2).mean())
        ctx.ensure_eq("kinetic", a[2], kc.mean())
        ctx.ensure_eq("kinetic squared", a[3], (kc ** 2).mean())
        mx = (-lr).max()
        ctx.ensure_eq("log weight", a[4], mx + np.log(np.exp(-lr - mx).sum()), tol=1e-6)
        t = (kc * np.exp(-lr - mx)).sum()
        if abs(t) > 1e-6 * abs(kc * np.exp(-lr - mx)).max():
            ctx.ensure_eq("log weighted kinetic", a[5], mx + np.log(abs(t)), tol=1e-5)
            ctx.ensure_eq("its sign", a[6], np.sign(t))


@contract("P22", "signed logarithmic sums", ["ipi/utils/mathtools.py:logsumlog"], samples=(20, 100))
def lsl(ctx):
    """log|A+B| and its sign from those of A and B."""
    np = ctx.np
    la, lb = ctx.real("la"), ctx.real("lb")
    sa, sb = ctx.choice("sa", [1.0, -1.0]), ctx.choice("sb", [1.0, -1.0])
    if sa != sb:
        ctx.assume(la != lb)
    lr, sr = mathtools.logsumlog((la, sa), (lb, sb))
    ctx.ensure_eq("sum", sr * np.exp(lr), sa * np.exp(la) + sb * np.exp(lb))


DIMS = {"time": "time", "temperature": "temperature", "density": "density", "volume": "volume", "cell_h": "length", "conserved": "energy",
        "potential": "energy", "bead_potentials": "energy", "spring": "energy", "kinetic_md": "energy", "kinetic_cv": "energy", "kinetic_td": "energy",
        "kinetic_tens": "energy", "kinetic_ij": "energy", "r_gyration": "length", "atom_x": "length", "atom_x_path": "length", "atom_f_path": "force",
        "atom_f": "force", "atom_v": "velocity", "atom_p": "momentum", "vcom": "velocity", "stress_md": "pressure", "pressure_md": "pressure",
        "kstress_md": "pressure", "virial_md": "pressure", "stress_cv": "pressure", "pressure_cv": "pressure", "kstress_cv": "pressure",
        "virial_cv": "pressure", "forcemod": "force", "ensemble_temperature": "temperature", "ensemble_pressure": "pressure", "ensemble_bias": "energy",
        "pot_component": "energy", "vir_component": "pressure", "kinetic_prsc": "energy", "kinetic_tdsc": "energy", "kinetic_opsc": "energy",
        "potential_opsc": "energy", "potential_tdsc": "energy", "pressure_tdsc": "pressure", "ti_pot": "energy", "Efield": "electric-field",
        "dipole": "electric-dipole", "interaction_energy": "energy", "virial_fq": "energy"}
TDIMS = {"positions": "length", "velocities": "velocity", "momenta": "momentum", "forces": "force", "x_centroid": "length", "v_centroid": "velocity",
         "p_centroid": "momentum", "f_centroid": "force", "kinetic_cv": "energy", "kinetic_od": "energy", "r_gyration": "length",
         "forces_spring": "force", "forces_component": "force", "forces_sc": "force"}


@contract("P22", "declared kind and size of the outputs", [T + "Properties.__init__", T + "Trajectories.__init__", T + "Properties.__getitem__"],
          samples=(3, 6), sym=False, why="table of declared dimensions")
def dims(ctx):
    """Every property is declared with the kind of quantity it is, so that unit conversion is right, and with the number of values it returns."""
    s = build(ctx, ctx.choice("P", [1, 2, 4]))
    for k, d in DIMS.items():
        if k in s.pr.property_dict:
            ctx.ensure("dimension of " + k, s.pr.property_dict[k]["dimension"] == d)
    for k, d in TDIMS.items():
        if k in s.tr.traj_dict:
            ctx.ensure("dimension of trajectory " + k, s.tr.traj_dict[k]["dimension"] == d)
    skip = ("Efield", "dipole", "interaction_energy", "exchange_distinct_prob", "exchange_all_prob", "fermionic_sign", "atom_x_path", "atom_f_path",
            "hweights_component", "bweights_component", "Eenvelope")
    args = {"pot_component": "(0)", "pot_component_raw": "(0)", "vir_component": "(0)", "vir_component_raw": "(0)", "atom_x": "(1)", "atom_v": "(1)",
            "atom_p": "(1)", "atom_f": "(1)"}
    for k, d in s.pr.property_dict.items():
        if k in skip or ("sc" in k or "chin" in k or k.endswith("4th")) and s.P == 1:
            continue
        v = _np.asarray(s.pr[k + args.get(k, "")][0])
        ctx.ensure("size of " + k, v.size == d.get("size", 1))


@contract("P22", "atomic quantities for trajectories", [T + "Trajectories.__init__", T + "Trajectories.__getitem__"], samples=(9, 40))
def trajq(ctx):
    """Positions, velocities, momenta, forces and centroid quantities offered for trajectory output are those of the system."""
    P = ctx.choice("P", [1, 2, 4])
    s = build(ctx, P, mode="sc" if P > 1 else "nve", thermostat=PRth())
    vel = ctx.np.zeros((P, 9))
    for b in range(P):
        for j in range(9):
            vel[b, j] = s.p[b, j] / s.m[j // 3]
    g = lambda k: val(s.tr[k][0])
    for k, v in (("positions", s.q), ("velocities", vel), ("momenta", s.p), ("forces", s.f), ("forces_spring", val(s.nm.fspring)),
                 ("x_centroid", s.qc), ("v_centroid", vel.sum(axis=0) / P), ("p_centroid", s.p.sum(axis=0) / P),
                 ("f_centroid", s.f.sum(axis=0) / P)):
        ctx.ensure_eq(k, g(k), v)
    if P > 1:
        ctx.ensure_eq("forces_sc", g("forces_sc"), s.f + val(s.forces.fsc))
        ctx.ensure_eq("x_centroid_even", g("x_centroid_even"), s.q[::2].sum(axis=0) * 2 / P)
        ctx.ensure_eq("x_centroid_odd", g("x_centroid_odd"), s.q[1::2].sum(axis=0) * 2 / P)
        ctx.ensure_eq("v_centroid_even", g("v_centroid_even"), vel[::2].sum(axis=0) * 2 / P)
        ctx.ensure_eq("v_centroid_odd", g("v_centroid_odd"), vel[1::2].sum(axis=0) * 2 / P)
    a = s.tr["positions"][0]
    a[:] = 0.0
    s.tr["forces"][0][:] = 0.0
    s.tr["momenta"][0][:] = 0.0
    unchanged(ctx, s, 0)


@contract("P22", "force components of a contracted path", [T + "Properties.__init__", T + "Trajectories.__init__"], samples=(6, 20))
def contracted(ctx):
    """The average of a component evaluated on fewer beads is the average over its own beads, weighted and interpolated or bare."""
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    P, n = ctx.choice("Pn", [(4, 2), (4, 1), (2, 1), (3, 2)])
    ffs = {"a": OpaqueFF(ctx, "a"), "b": OpaqueFF(ctx, "b")}
    s = build(ctx, P, ffs=ffs, comps=[fcomp("a", weight=w[0]), fcomp("b", weight=w[1], nbeads=n)])
    from ipi.utils.nmtransform import nm_rescale
    qn = nm_rescale(P, n).b1tob2(s.q)
    h = val(s.cell.h)
    V = h[0, 0] * h[1, 1] * h[2, 2]
    raw = [ffs["b"].value(qn[b].copy(), h) for b in range(n)]
    u = sum(r[0] for r in raw) / n
    ctx.ensure_eq("bare average", s.pr["pot_component_raw(index=1)"][0], u)
    ctx.ensure_eq("weighted average", s.pr["pot_component(index=1)"][0], w[1] * u)
    for b in range(n):
        ctx.ensure_eq("bare bead", s.pr["pot_component_raw(index=1;bead=%d)" % b][0], raw[b][0])
        ctx.ensure_eq("bare force", val(s.tr["forces_component_raw(index=1;bead=%d)" % b][0]), raw[b][1])
    ctx.ensure_eq("bare force average", val(s.tr["forces_component_raw(index=1)"][0]), sum(r[1] for r in raw) / n)
    ctx.ensure_eq("weighted force average", val(s.tr["forces_component(index=1)"][0]), w[1] * sum(r[1] for r in raw) / n)
    v, vr = val(s.pr["vir_component(index=1)"][0]), val(s.pr["vir_component_raw(index=1)"][0])
    for j, (x, y) in enumerate(((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))):
        e = sum(r[2][x, y] for r in raw) / n / V
        ctx.ensure_eq("bare virial", vr[j], e)
        ctx.ensure_eq("weighted virial", v[j], w[1] * e)


@contract("P22", "reference of the force-position product", [T + "Properties.get_fqvirial"], samples=(6, 20), sym=False, why="reads a file")
def fqref(ctx):
    """Each request for the product of forces and displacements uses its own reference file."""
    import os
    import tempfile
    s = build(ctx, 2)
    with tempfile.TemporaryDirectory() as d:
        r = [ctx.rng.gauss(0, 1) for _ in range(9)]
        p = os.path.join(d, "ref")
        with open(p, "w") as f:
            f.write("\n".join(" ".join("%.15e" % x for x in r[3 * i:3 * i + 3]) for i in range(3)))
        e = lambda ref: 0.25 * sum(s.f[b, j] * (s.q[b, j] - ref[j]) for b in range(2) for j in range(9))
        o = [("virial_fq", [0.0] * 9), ("virial_fq(ref=%s)" % p, r), ("virial_fq(ref=%s;units=angstrom)" % p, [x * 1.8897261 for x in r])]
        ctx.rng.shuffle(o)
        for k, ref in o:
            ctx.ensure_eq("value with reference", s.pr[k][0], e(ref), tol=1e-6)


@contract("P22", "cell, ensemble and bias quantities", [T + "Properties.__init__", T + "Properties.get_conserved"], samples=(10, 40))
def ensemble_quantities(ctx):
    """Cell, target, bias and weight quantities are those of the system as it is now."""
    np = ctx.np
    P = ctx.choice("P", [1, 2, 4])
    ffs = {k: OpaqueFF(ctx, k) for k in "abcd"}

    def sane(hw, bw):
        for w in list(hw) + list(bw):
            ctx.assume(w != 0)
        for w in hw:
            ctx.assume(w != 1)

    hw, bw = ctx.array("hw", (2,)), ctx.array("bw", (2,))
    sane(hw, bw)
    s = build(ctx, P, ffs=ffs, comps=[fcomp("a"), fcomp("b")], hweights=hw, bcomp=[fcomp("c"), fcomp("d")], bweights=bw, pext=ctx.real("pext"))
    if ctx.choice("changed", [False, True]):
        for k in ("ensemble_bias", "density", "volume", "cell_h"):
            s.pr[k]
        hw, bw = ctx.array("hw2", (2,)), ctx.array("bw2", (2,))
        sane(hw, bw)
        s.ensemble.hweights, s.ensemble.bweights = hw.copy(), bw.copy()
        s.ensemble.temp = s.temp = ctx.real("temp2", pos=True)
        s.beads.m[:] = ctx.array("m2", (3,), pos=True)
        s.m = val(s.beads.m)
        s.cell.h[:] = val(s.cell.h) * 1.25
    h = val(s.cell.h)
    # (changed weights of the forces count as a bias)
    bias = sum(bw[k] * ffs["cd"[k]].value(s.q[b].copy(), h)[0] + (hw[k] - 1) * ffs["ab"[k]].value(s.q[b].copy(), h)[0]
               for k in (0, 1) for b in range(P)) / P
    ctx.ensure_eq("bias energy", s.pr["ensemble_bias"][0], bias)
    for k in (0, 1):
        ctx.ensure_eq("bias weight", s.pr["bweights_component(index=%d)" % k][0], bw[k])
        ctx.ensure_eq("force weight", s.pr["hweights_component(index=%d)" % k][0], hw[k])
    ctx.ensure_eq("target temperature", s.pr["ensemble_temperature"][0], s.temp)
    ctx.ensure_eq("target pressure", s.pr["ensemble_pressure"][0], val(s.ensemble.pext))
    V = h[0, 0] * h[1, 1] * h[2, 2]
    ctx.ensure_eq("volume", s.pr["volume"][0], V)
    ctx.ensure_eq("density", s.pr["density"][0], (s.m[0] + s.m[1] + s.m[2]) / V)
    ctx.ensure_eq("cell", val(s.pr["cell_h"][0]), np.array([h[0, 0], h[1, 1], h[2, 2], h[0, 1], h[0, 2], h[1, 2]]))
    if not ctx.sym:
        abc = val(s.pr["cell_abcABC"][0])
        for k in range(3):
            ctx.ensure_eq("side", abc[k], _np.sqrt((h[:, k] ** 2).sum()))
        for k, (x, y) in enumerate(((1, 2), (0, 2), (0, 1))):
            ctx.ensure_eq("angle", _np.cos(abc[3 + k] * _np.pi / 180) * abc[x] * abc[y], (h[:, x] * h[:, y]).sum())
    s.ensemble.time = t = ctx.real("time")
    ctx.ensure_eq("time", s.pr["time"][0], t)
    ctx.ensure_eq("probability", s.pr["ensemble_lp"][0], val(s.ensemble.lpens))


def _refuses(f):
    try:
        f()
    except (IndexError, ValueError):
        return True
    return False


@contract("P22", "selections that include bosons", [T + "Properties.get_kintd", T + "Properties.get_kincv", T + "Properties._atom_property_distinguishability_well_defined",
                                                    T + "Properties._kinetic_td_distinguishables"], samples=(8, 30))
def bosons(ctx):
    """The kinetic energy of a selection is that of its distinguishable atoms plus that of all bosons; part of the bosons cannot be selected."""
    P = ctx.choice("P", [2, 4])
    s = build(ctx, P, names=["H", "O", "H", "H"], natoms=4, bosons=_np.array([0, 2]))
    kb = ctx.real("kb")

    class Exchange:  # (its own formulas are the business of P18)
        kinetic_td = kb

    s.nm.exchange_potential = Exchange()

    def dist(i):
        return 1.5 * P * s.kT - 0.5 * s.m[i] * s.w2 * ring(s, i) / P
    ctx.ensure_eq("everything", s.pr["kinetic_td"][0], kb + dist(1) + dist(3))
    ctx.ensure_eq("a species with the bosons", s.pr["kinetic_td(atom=H)"][0], kb + dist(3))
    ctx.ensure_eq("a species without", s.pr["kinetic_td(atom=O)"][0], dist(1))
    ctx.ensure_eq("an atom", s.pr["kinetic_td(atom=3)"][0], dist(3))
    for i in (0, 2):
        ctx.ensure("one of the bosons is refused", _refuses(lambda: s.pr["kinetic_td(atom=%d)" % i]))
    s.beads.names[:] = _np.array(["H", "H", "O", "O"])
    for n in "HO":
        ctx.ensure("part of the bosons is refused", _refuses(lambda: s.pr["kinetic_td(atom=%s)" % n]))
    ctx.ensure("no centroid virial of bosons", _refuses(lambda: s.pr["kinetic_cv"]))
