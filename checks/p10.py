"""P10: fixed atoms and fixed centre of mass."""
from pyvc.contracts import contract
from checks.build import make_system, val, ZeroPRNG, StubPRNG, OpaqueFF, fcomp, Sys, make_beads
import checks.build as B
import ipi.engine.thermostats as TH
import ipi.engine.motion.dynamics
import ipi.engine.motion.geop
import ipi.utils.depend

D = "ipi/engine/motion/dynamics.py:"
PC = [D + "DummyIntegrator.pconstraints", D + "DummyIntegrator.bind"]
G = "ipi/engine/motion/geop.py:"
ASSUMPTIONS = ["forces are an arbitrary function of positions and cell (uninterpreted)",
               "the beads of a fixed atom start at one common position (the free ring-polymer step is not aware of "
               "constraints, so the internal modes of a spread fixed atom relax)"]


def kin(s):
    p = val(s.nm.pnm)
    return 0.5 * (p * p / val(s.nm.dynm3)).sum()


@contract("P10", "remove-com", PC, limit=60)
def _com(ctx):
    """removing the centre-of-mass motion zeroes the total momentum, changes no relative velocity and books exactly the
    removed kinetic energy"""
    n = ctx.choice("n", [1, 2, 3])
    s = make_system(ctx, nbeads=n, fixcom=True)
    s.beads.p[:] = ctx.array("p2", (n, 3 * s.natoms))
    tiny = 1.0
    if not ctx.sym:             # the common velocity may be a small remainder on top of fast relative motion
        tiny = ctx.choice("tiny", [1.0, 1e-3, 1e-6, 1e-9])
        s.motion.integrator.pconstraints()
        s.beads.p[:] = val(s.beads.p) + tiny * val(s.beads.m3)
    p0, m3, k0, e0 = val(s.beads.p), val(s.beads.m3), kin(s), val(s.ensemble.eens)
    s.motion.integrator.pconstraints()
    p1 = val(s.beads.p)
    for k in range(3):
        ctx.ensure_eq("total momentum", p1[:, k::3].sum() / max(tiny, 1e-6), 0.0)
        v = p0[:, k::3].sum() / m3[:, k::3].sum()
        ctx.ensure_eq("only the common velocity is removed", p1[:, k::3] / m3[:, k::3], p0[:, k::3] / m3[:, k::3] - v)
    ctx.ensure_eq("energy booked", s.ensemble.eens - e0, k0 - kin(s))


@contract("P10", "zero-fixed-momenta", PC, limit=60)
def _fixp(ctx):
    """constraining atoms zeroes exactly their momenta and books exactly the removed kinetic energy, for physical and
    scaled mode masses and for arbitrary sets of atoms"""
    n = ctx.choice("n", [1, 2, 3])
    mode = ctx.choice("mode", ["rpmd", "pa-cmd"] if n > 1 else ["rpmd"])
    N = ctx.dim("N")
    fix = ctx.dofset("fix", N, 3)
    s = make_system(ctx, natoms=N, nbeads=n, fixatoms=fix, nm_mode=mode,
                    freqs=ctx.np.array([ctx.real("w0", pos=True)] if mode != "rpmd" else []))
    s.beads.p[:] = ctx.array("p2", (n, 3 * N))
    p0, k0, e0 = val(s.beads.p), kin(s), val(s.ensemble.eens)
    s.motion.integrator.pconstraints()
    p1 = val(s.beads.p)
    z = p0.copy()
    z[:, fix] = 0.0
    ctx.ensure_eq("momenta", p1, z)
    ctx.ensure_eq("energy booked", s.ensemble.eens - e0, k0 - kin(s))


def thermos(ctx, kind):
    tau = ctx.real("tau", pos=True)
    if kind == "none":
        return None
    if kind == "langevin":
        return TH.ThermoLangevin(tau=tau)
    if kind == "pile_l":
        return TH.ThermoPILE_L(tau=tau)
    if kind == "svr":
        return TH.ThermoSVR(tau=tau)
    if kind == "pile_g":
        return TH.ThermoPILE_G(tau=tau)


def collapse(ctx, s, n, N, fix):
    """beads of fixed atoms coincide"""
    q = val(s.beads.q)
    for b in range(1, n):
        q[b, fix] = q[0, fix]
    s.beads.q[:] = q
    return q


@contract("P10", "fixed-atoms-never-move", PC + [D + x for x in (
    "NVEIntegrator.pstep", "NVEIntegrator.step", "NVTIntegrator.step", "NVTCCIntegrator.step", "SCIntegrator.step")], limit=200)
def _fixstep(ctx):
    """a full step under any forces moves no fixed atom, leaves its momentum zero, and moves the other atoms as in an
    unconstrained step with those momenta"""
    n = ctx.choice("n", [1, 2])
    mode, th = ctx.choice("mode", [("nve", "none"), ("nvt", "langevin"), ("nvt", "pile_l"), ("nvt-cc", "pile_l")])
    nmts = ctx.choice("nmts", [(1,), (1, 2), (3,)] if mode != "nvt-cc" else [(1,)])
    split = ctx.choice("splitting", ["obabo", "baoab"] if mode == "nvt" else ["obabo"])
    N = ctx.dim("N")
    fix = ctx.dofset("fix", N, 3)
    L = len(nmts)
    ffs = {"ff%d" % i: OpaqueFF(ctx, "ff%d" % i) for i in range(L)}
    comps = [fcomp("ff%d" % i, mts_weights=[1.0 if j == i else 0.0 for j in range(L)]) for i in range(L)]
    s = make_system(ctx, natoms=N, nbeads=n, mode=mode, splitting=split, fixatoms=fix, thermostat=thermos(ctx, th),
                    nmts=nmts, ffs=ffs, comps=comps)
    q0 = collapse(ctx, s, n, N, fix)
    e0 = val(s.ensemble.eens)
    s.motion.step()
    q1, p1 = val(s.beads.q), val(s.beads.p)
    ctx.ensure_eq("positions of fixed atoms", q1[:, fix], q0[:, fix])
    ctx.ensure_eq("momenta of fixed atoms", p1[:, fix], 0 * p1[:, fix])
    if mode == "nve":
        ctx.ensure_eq("no energy booked", s.ensemble.eens, e0)


@contract("P10", "fixed-dofs-concrete", PC + [D + "NVEIntegrator.pstep", D + "SCIntegrator.pstep"], sym=False, samples=(120, 800),
          why="Suzuki-Chin forces and single Cartesian degrees of freedom are exercised on concrete systems")
def _fixconc(ctx):
    """also for single Cartesian components, Suzuki-Chin dynamics, global thermostats and bias forces, over several steps"""
    import numpy as np
    N = ctx.choice("N", [1, 2, 3])
    mode = ctx.choice("mode", ["nve", "nvt", "nvt-cc", "sc"])
    n = ctx.choice("n", [2, 4] if mode == "sc" else [1, 2, 3])
    th = ctx.choice("thermostat", ["none", "langevin", "pile_l", "svr", "pile_g"])
    nf = ctx.choice("nfixed", list(range(1, 3 * N)))
    r = np.random.RandomState(ctx.choice("which", list(range(50))))
    fix = np.sort(r.choice(3 * N, nf, replace=False))
    s = make_system(ctx, natoms=N, nbeads=n, mode=mode, fixatoms=fix, thermostat=thermos(ctx, th),
                    dt=0.05, bcomp=[fcomp("bias")] if ctx.choice("bias", [0, 1]) else None,
                    ffs={"ff": OpaqueFF(ctx, "ff"), "bias": OpaqueFF(ctx, "bias")}, comps=[fcomp("ff")])
    q0 = collapse(ctx, s, n, N, fix)
    e0 = val(s.ensemble.eens)
    for i in range(3):
        s.motion.step(i)
    if mode == "nve":
        ctx.ensure_eq("no energy booked", s.ensemble.eens, e0)
    ctx.ensure_eq("positions of fixed degrees of freedom", val(s.beads.q)[:, fix], q0[:, fix])
    ctx.ensure_eq("momenta of fixed degrees of freedom", val(s.beads.p)[:, fix], 0 * q0[:, fix])
    free = [i for i in range(3 * N) if i not in fix]
    if mode != "nvt-cc":
        ctx.ensure("free degrees of freedom do move", np.all(np.abs((val(s.beads.q) - q0)[:, free]) > 0))


@contract("P10", "com-stays", PC + [D + "NVEIntegrator.step", D + "NVTIntegrator.step"], limit=120)
def _comstep(ctx):
    """with a fixed centre of mass a full step under any forces and noise leaves the centre of mass where it is and the
    total momentum zero"""
    n = ctx.choice("n", [1, 2])
    mode, th = ctx.choice("mode", [("nve", "none"), ("nvt", "langevin"), ("nvt", "pile_l")])
    split = ctx.choice("splitting", ["obabo", "baoab"] if mode == "nvt" else ["obabo"])
    nmts = ctx.choice("nmts", [(1,), (2,)])
    s = make_system(ctx, nbeads=n, mode=mode, splitting=split, fixcom=True, thermostat=thermos(ctx, th), nmts=nmts)
    q0, m3 = val(s.beads.q), val(s.beads.m3)
    s.motion.step()
    q1, p1 = val(s.beads.q), val(s.beads.p)
    for k in range(3):
        ctx.ensure_eq("total momentum", p1[:, k::3].sum(), 0.0)
        ctx.ensure_eq("centre of mass", (q1 * m3)[:, k::3].sum(), (q0 * m3)[:, k::3].sum())


@contract("P10", "initial-projection", [D + "Dynamics.bind"], limit=60)
def _init(ctx):
    """the constraints hold from the moment the dynamics is set up"""
    n = ctx.choice("n", [1, 2])
    kind = ctx.choice("kind", ["com", "atoms"])
    N = ctx.dim("N")
    fix = ctx.dofset("fix", N, 3) if kind == "atoms" else None
    s = make_system(ctx, natoms=N, nbeads=n, fixcom=kind == "com", fixatoms=fix)
    p = val(s.beads.p)
    if kind == "com":
        for k in range(3):
            ctx.ensure_eq("total momentum", p[:, k::3].sum(), 0.0)
        ctx.ensure_eq("constrained degrees of freedom", s.motion.get_fixdof(), 3)
    else:
        ctx.ensure_eq("momenta", p[:, fix], 0 * p[:, fix])
        ctx.ensure_eq("constrained degrees of freedom", s.motion.get_fixdof(), len(fix) * n if not ctx.sym else s.motion.get_fixdof())


@contract("P10", "constraints-as-asked", ["ipi/inputs/motion/motion.py:InputMotionBase.fetch", D + "DummyIntegrator.bind"], sym=False, samples=(40, 200),
          why="parsing of input text; refusal of input")
def _asked(ctx):
    """the constraints that act are the ones written in the input: whole atoms or single degrees of freedom in any order, which switch off the fixed
    centre of mass (the two exclude each other); a degree of freedom that does not exist is refused"""
    import numpy as np
    from ipi.inputs.motion import InputMotion
    from ipi.utils.io.inputs.io_xml import xml_parse_string
    N = ctx.choice("N", [2, 4])
    kind = ctx.choice("kind", ["atoms", "dofs", "none"])
    com = ctx.choice("fixcom", ["", "<fixcom> True </fixcom>", "<fixcom> False </fixcom>"])
    r = np.random.RandomState(ctx.choice("which", list(range(50))))
    x = r.permutation(N if kind == "atoms" else 3 * N)[:r.randint(1, 3)]
    tag = {"atoms": "<fixatoms> %s </fixatoms>", "dofs": "<fixatoms_dof> %s </fixatoms_dof>", "none": ""}[kind]
    tag = tag % str([int(i) for i in x]) if tag else tag
    mode = ctx.choice("mode", ["dynamics", "minimize"])
    body = "<dynamics mode='nve'> <timestep units='femtosecond'> 1.0 </timestep> </dynamics>" if mode == "dynamics" else "<optimizer mode='sd'/>"
    i = InputMotion()
    i.parse(xml_parse_string("<motion mode='%s'> %s %s %s </motion>" % (mode, com, tag, body)).fields[0][1])
    m = i.fetch()
    want = sorted(int(v) for v in (x if kind == "dofs" else [] if kind == "none" else np.add.outer(3 * x, np.arange(3)).ravel()))
    ctx.ensure("fixed degrees of freedom", sorted(int(v) for v in m.fixatoms_dof) == want)
    ctx.ensure("centre of mass", bool(m.fixcom) == (kind == "none" and "False" not in com))
    j = InputMotion()
    j.store(m)
    k = InputMotion()
    k.parse(xml_parse_string(j.write(name="motion")).fields[0][1])
    m2 = k.fetch()
    ctx.ensure("the same after being written and read again", sorted(int(v) for v in m2.fixatoms_dof) == want and bool(m2.fixcom) == bool(m.fixcom))
    bad = np.array([0, 3 * N + ctx.choice("beyond", [0, 1, 7])])
    try:
        make_system(ctx, natoms=N, nbeads=1, fixatoms=bad)
        ctx.ensure("refused", False)
    except ValueError:
        pass


@contract("P10", "optimisers-respect-fixed-atoms", [G + x + ".step" for x in (
    "BFGSOptimizer", "BFGSTRMOptimizer", "LBFGSOptimizer", "SDOptimizer", "CGOptimizer", "Damped_BFGSOptimizer")] + [
    G + "LineMapper", G + "GradientMapper"], sym=False, samples=(60, 400),
    why="line searches and matrix updates iterate to numerical convergence")
def _geop(ctx):
    """geometry optimisers move no fixed degree of freedom and end each step with energy and forces of the new geometry;
    the gradient followed is minus the force"""
    import numpy as np
    N = ctx.choice("N", [2, 3])
    mode = ctx.choice("mode", ["bfgs", "bfgstrm", "lbfgs", "sd", "cg", "damped_bfgs"])
    nf = ctx.choice("nfixed", [0, 1, 3, 4])
    r = np.random.RandomState(ctx.choice("which", list(range(50))))
    fix = np.sort(r.choice(3 * N, nf, replace=False)).astype(int)
    if mode == "damped_bfgs":            # this optimiser refuses (with an error) sets that are not whole atoms
        a = r.randint(N)
        fix = np.arange(3 * a, 3 * a + 3) if nf else fix

    class Harm(OpaqueFF):
        def value(self, q, h):
            k = 1.0 + np.arange(len(q)) * 0.3
            c = np.sin(np.arange(len(q)))
            d = q - c
            return 0.5 * (k * d * d).sum() + 0.05 * (d ** 4).sum(), -(k * d + 0.2 * d ** 3), np.zeros((3, 3))
    ff = Harm(ctx, "ff")
    mo = ipi.engine.motion.geop.GeopMotion(
        fixatoms_dof=fix, mode=mode, exit_on_convergence=False, biggest_step=0.3,
        old_pos=np.zeros(0), old_pot=np.zeros(0), old_force=np.zeros(0), old_direction=np.zeros(0),
        invhessian_bfgs=np.eye(0), hessian_trm=np.eye(0), tr_trm=np.array([0.2]), qlist_lbfgs=np.zeros(0), glist_lbfgs=np.zeros(0),
        ls_options={"tolerance": 1e-4, "iter": 30, "step": 1e-2, "adaptive": 1.0},
        tolerances={"energy": 1e-5, "force": 1e-3, "position": 1e-3})
    mo._dt = ipi.utils.depend.depend_value(name="dt", value=1.0)
    s = make_system(ctx, natoms=N, nbeads=1, ffs={"ff": ff}, motion=mo)
    q0 = val(s.beads.q)
    e_old = float(s.forces.pot)
    for i in range(4):
        qa = val(s.beads.q)
        ua, fa = ff.value(qa[0], None)[:2]
        was = mo.optimizer.converged
        mo.step(i)
        q1 = val(s.beads.q)
        u, f, v = ff.value(q1[0], val(s.cell.h))
        ctx.ensure_eq("fixed positions", q1[0, fix], q0[0, fix])
        ctx.ensure_eq("potential of the new geometry", s.forces.pot, u)
        ctx.ensure_eq("forces of the new geometry", s.forces.f[0], f)
        if mode not in ("damped_bfgs",):
            ctx.ensure("energy does not rise", u <= ua + 1e-6 * (1 + abs(ua)))
        free = np.array([j for j in range(3 * N) if j not in fix])
        if mo.optimizer.converged and not was:
            ctx.ensure("converged only within all tolerances", np.abs(f[free]).max() <= 1e-3 * 1.001 and
                       abs(u - ua) / N <= 1e-5 * 1.001 and np.abs(q1 - qa).max() <= 1e-3 * 1.001)
        if not mo.optimizer.converged and mode in ("bfgs", "lbfgs", "bfgstrm") and i == 0 and np.abs(fa[free]).max() > 1e-2:
            ctx.ensure("a step is taken", np.abs(q1 - qa).max() > 0)
