"""P12: barostats."""
from pyvc.contracts import contract
from checks.build import make_system, val, StubPRNG, ZeroPRNG, OpaqueFF, fcomp
import ipi.engine.barostats as BA
import ipi.engine.thermostats as TH
import ipi.engine.cell
from ipi.utils.depend import dstrip

B = "ipi/engine/barostats.py:"
D = "ipi/engine/motion/dynamics.py:"
ASSUMPTIONS = ["forces and virials are arbitrary functions of positions and cell in the symbolic contracts",
               "matrix exponentials and eigenvector routines of the anisotropic barostats are covered by bounded runs"]


def baro(ctx, kind, tau, pext=None, stress=None, hfix=None, thermostat=None, vol=None, h0=None):
    if kind == "bzp":
        return BA.BaroBZP(tau=tau, thermostat=thermostat, pext=pext, p=ctx.real("pb"))
    if kind == "sc-bzp":
        return BA.BaroSCBZP(tau=tau, thermostat=thermostat, pext=pext, p=ctx.real("pb"))
    pm = ctx.np.triu(ctx.array("pb", (3, 3)))
    if kind == "rgb":
        return BA.BaroRGB(tau=tau, thermostat=thermostat, stressext=stress, h0=h0, p=pm, hfix=hfix)
    return BA.BaroMTK(tau=tau, thermostat=thermostat, pext=pext, p=pm, hfix=hfix, vol_constraint=vol)


def build(ctx, kind, n, nmts=(1,), bias=False, thermo=False, hfix=None, vol=None, natoms=None, ffs=None, prng=None, dt=None):
    np = ctx.np
    tau = ctx.real("taub", pos=True)
    pext = ctx.real("pext")
    st = None
    h0 = None
    L = len(nmts)
    if kind == "rgb":
        a = ctx.array("sext", (3, 3))
        st = 0.5 * (a + a.T)
        from checks.build import upper_h
        h0 = ipi.engine.cell.Cell(upper_h(ctx, "h0"))
    b = baro(ctx, kind, tau, pext, st, hfix, TH.ThermoLangevin(tau=ctx.real("taut", pos=True)) if thermo else None, vol, h0)
    if ffs is None:
        ffs = {"ff%d" % i: OpaqueFF(ctx, "ff%d" % i) for i in range(L)}
        if bias:
            ffs["bias"] = OpaqueFF(ctx, "bias")
    comps = [fcomp("ff%d" % i, mts_weights=[1.0 if j == i else 0.0 for j in range(L)]) for i in range(L)]
    mode = {"bzp": "npt", "mtk": "npt", "rgb": "nst", "sc-bzp": "scnpt"}[kind]
    s = make_system(ctx, natoms=natoms, nbeads=n, mode=mode, nmts=nmts, ffs=ffs, comps=comps, barostat=b, pext=pext,
                    stressext=st, bcomp=[fcomp("bias")] if bias else None,
                    bweights=np.array([1.0]) if bias else None, prng=prng,
                    thermostat=TH.ThermoLangevin(tau=ctx.real("tau", pos=True)) if thermo else None, dt=dt)
    s.tau, s.pext, s.stress, s.b, s.h0 = tau, pext, st, b, h0
    return s


@contract("P12", "piston-energies", [B + x + y for x in ("BaroBZP.", "BaroRGB.", "BaroMTK.", "BaroSCBZP.") for y in (
    "get_pot", "get_cell_jacobian", "get_ebaro", "bind")], limit=90)
def _en(ctx):
    """piston mass 3N kT tau^2 (isotropic) or N kT tau^2 (per cell component), kinetic energy p^2/2m, elastic energy P V (or the strain
    energy of the external stress), and the entropic volume term -kT ln V (cell: -kT sum_i n_i ln h_ii with n_i the free components of row i, up to constants of fixed rows), all at the ring-polymer
    temperature and for all replicas; all enter the conserved quantity"""
    np = ctx.np
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk", "sc-bzp"])
    n = 2 if kind == "sc-bzp" else ctx.choice("n", [1, 2])
    hfix = ctx.choice("hfix", [[], ["offdiagonal"], ["xx", "yz"]] if kind in ("rgb", "mtk") else [[]])
    s = build(ctx, kind, n, hfix=hfix)
    b = s.b
    change = ctx.choice("changed", ["nothing", "temperature", "external", "time", "cell", "bath"]) if n == 2 and not hfix else "nothing"
    bath = 0.0
    if change != "nothing":
        # anything may change while the simulation runs
        val(b.ebaro), val(b.pot), val(b.kin), val(b.cell_jacobian), val(b.m), val(s.ensemble.econs), val(s.ensemble.lpens)
        if change == "temperature":
            s.temp = ctx.real("temp2", pos=True)
            s.ensemble.temp = s.temp
        elif change == "external" and kind == "rgb":
            a = ctx.array("sext2", (3, 3))
            s.stress = 0.5 * (a + a.T)
            s.ensemble.stressext = s.stress
        elif change == "external":
            s.pext = ctx.real("pext2")
            s.ensemble.pext = s.pext
        elif change == "time":
            s.tau = ctx.real("taub2", pos=True)
            b.tau = s.tau
        elif change == "cell":
            from checks.build import upper_h
            s.cell.h = upper_h(ctx, "h2")
        else:
            bath = ctx.real("bath")
            b.thermostat.ethermo = bath
    kt = s.temp * n
    L = {0: (3, 2, 1), 1: (1, 1, 1), 2: (3, 1, 1)}[len(hfix)]
    h = val(s.cell.h)
    V = h[0, 0] * h[1, 1] * h[2, 2]
    p = val(b.p)
    m = (3 if "bzp" in kind else 1) * s.natoms * kt * s.tau ** 2
    ctx.ensure_eq("piston mass", val(b.m)[0], m)
    if "bzp" in kind:
        kin, pot, jac = p[0] ** 2 / (2 * m), s.pext * V * n, -kt * np.log(V)
    else:
        kin = (p * p).sum() / (2 * m)
        jac = -kt * (L[0] * np.log(h[0, 0]) + L[1] * np.log(h[1, 1]) + L[2] * np.log(h[2, 2]))
        if kind == "mtk":
            pot = s.pext * V * n
        else:
            F = np.dot(h, val(s.h0.ih))
            h0 = val(s.h0.h)
            eps = 0.5 * (np.dot(F.T, F) - np.identity(3))
            pot = h0[0, 0] * h0[1, 1] * h0[2, 2] * np.trace(np.dot(s.stress, eps)) * n
    ctx.ensure_eq("kinetic", b.kin, kin)
    ctx.ensure_eq("elastic", b.pot, pot)
    ctx.ensure_eq("entropic", b.cell_jacobian, jac)
    ctx.ensure_eq("piston energy", b.ebaro, kin + pot + jac + bath)
    if kind != "sc-bzp":
        u = s.beads.nbeads * 0
        for i in range(n):
            u = u + s.fflist["ff0"].value(val(s.beads.q)[i], h)[0]
        ctx.ensure_eq("conserved", s.ensemble.econs, val(s.nm.kin) + val(s.nm.vspring) + u + kin + pot + jac + bath)
        ctx.ensure_eq("log-probability", s.ensemble.lpens * kt, -(val(s.nm.kin) + val(s.nm.vspring) + u + kin + pot + jac))


@contract("P12", "piston-force", [B + "BaroBZP.pstep", B + "BaroMTK.pstep", B + "BaroRGB.pstep", B + "Barostat.stress_mts",
                                  B + "Barostat.kstress_mts"], limit=200)
def _pf(ctx):
    """at every multiple-time-step level the piston is pushed by the virial of the forces of that level (bias on the outermost) relative
    to the centroid; on the innermost level also by the external pressure or stress, the entropic term and the kinetic stress of the
    centroid integrated exactly along the kick"""
    np = ctx.np
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk"])
    n = ctx.choice("n", [1, 2])
    nmts = ctx.choice("nmts", [(1,), (2, 1), (1, 3)])
    bias = ctx.choice("bias", [0, 1])
    hfix = ctx.choice("hfix", [[], ["xx"], ["offdiagonal"], ["xy", "zz"], ["zy"]] if kind != "bzp" else [[]])
    if hfix and (n, nmts) != (1, (1,)):
        return
    vol = ctx.choice("fixed volume", [None, True]) if kind == "mtk" and not hfix else None
    s = build(ctx, kind, n, nmts=nmts, bias=bool(bias), hfix=hfix, vol=vol)
    b, kt = s.b, s.temp * n
    q, h, pc, m = val(s.beads.q), val(s.cell.h), val(s.beads.pc), val(s.beads.m)
    V = h[0, 0] * h[1, 1] * h[2, 2]
    qc = q.sum(axis=0) / n
    L = len(nmts)
    lev = ctx.choice("level", list(range(L)))
    p0, k0, e0 = val(b.p), val(b.kin), val(b.thermostat.ethermo)
    dt = s.dt / 2
    for i in range(lev + 1):
        dt = dt / nmts[i]
    X = np.zeros((3, 3))
    fc = np.zeros(q[0].shape)
    for bd in range(n):
        _, f, v = s.fflist["ff%d" % lev].value(q[bd], h)
        f = f + 0.0
        if bias and lev == 0:
            _, fb, vb = s.fflist["bias"].value(q[bd], h)
            f, v = f + fb, v + vb
        fc = fc + f / n
        dq = q[bd] - qc
        for i in range(3):
            for j in range(3):
                X[i, j] = X[i, j] + v[i, j] - (f[i::3] * dq[j::3]).sum()
    X = X * dt
    mask = np.ones((3, 3))
    for f in hfix:
        for i, j in {"xx": [(0, 0)], "offdiagonal": [(0, 1), (0, 2), (1, 2)], "xy": [(0, 1)], "zz": [(2, 2)], "zy": [(1, 2)]}[f]:
            mask[i, j] = 0
    koff = np.zeros((3, 3))
    if lev == L - 1:
        if kind == "rgb":
            F = np.dot(h, val(s.h0.ih))
            h0 = val(s.h0.h)
            Pi = np.dot(F, np.dot(s.stress, F.T)) * (h0[0, 0] * h0[1, 1] * h0[2, 2])
        else:
            Pi = np.identity(3) * s.pext * V
        X = X - dt * n * Pi
        for i in range(3):
            for j in range(3):
                a, c, g, d = pc[i::3], pc[j::3], fc[i::3], fc[j::3]
                t = (a * c / m).sum() * dt + (g * c / m + a * d / m).sum() * dt * dt / 2 + (g * d / m).sum() * dt ** 3 / 3
                X[i, j] = X[i, j] + t * n
                koff[i, j] = (a * c / m).sum() * dt * n
        if kind == "bzp":
            ent = 3 * kt
        else:
            ent = [sum(mask[i, j] for j in range(i, 3)) for i in range(3)]
            for i in range(3):
                X[i, i] = X[i, i] + dt * kt * ent[i]
    s.motion.integrator.barostat.pstep(lev)
    if kind == "bzp":
        t = np.trace(X) + (dt * ent if lev == L - 1 else 0.0)
        ctx.ensure_eq("piston momentum", val(b.p)[0], p0[0] + t)
    else:
        want = np.triu(p0 + X) * mask
        if vol:
            want = want - np.identity(3) * np.trace(want) / 3
        ctx.ensure_eq("piston momentum", b.p, want)
        full = np.triu(p0 + X - np.triu(koff, 1) * (1 - mask))
        mm = val(b.m)[0]
        ctx.ensure_eq("masked energy booked", b.thermostat.ethermo - e0, 0.5 * ((full * full).sum() - (want * want).sum()) / mm)


@contract("P12", "isotropic-flow", [B + "BaroBZP.qcstep", B + "BaroSCBZP.qcstep"], limit=60)
def _flow(ctx):
    """the centroid and the cell follow the exact flow of dq/dt = p/m + v q, dp/dt = -v p, dh/dt = v h; internal modes do not move"""
    np = ctx.np
    kind = ctx.choice("kind", ["bzp", "sc-bzp"])
    n = 2 if kind == "sc-bzp" else ctx.choice("n", [1, 2, 3])
    s = build(ctx, kind, n)
    b = s.b
    v = val(b.p)[0] / val(b.m)[0]
    q, p, h, m3, pb = val(s.nm.qnm), val(s.nm.pnm), val(s.cell.h), val(s.beads.m3)[0], val(b.p)
    t = s.dt / 2
    b.qcstep()
    e, f = np.exp(v * t), np.exp(-v * t)
    ctx.ensure_eq("centroid position", s.nm.qnm[0], q[0] * e + p[0] / m3 * (e - f) / (2 * v))
    ctx.ensure_eq("centroid momentum", s.nm.pnm[0], p[0] * f)
    ctx.ensure_eq("cell", s.cell.h, h * e)
    ctx.ensure_eq("piston", b.p, pb)
    if n > 1:
        ctx.ensure_eq("internal modes", s.nm.qnm[1:], q[1:])
        ctx.ensure_eq("internal momenta", s.nm.pnm[1:], p[1:])


@contract("P12", "anisotropic-flow", [B + "BaroRGB.qcstep", B + "BaroMTK.qcstep", "ipi/utils/mathtools.py:mat_taylor",
                                      "ipi/utils/mathtools.py:sinch", "ipi/utils/mathtools.py:matrix_exp"], sym=False,
          samples=(150, 1000), why="matrix exponential and eigenvector routines")
def _aflow(ctx):
    """same with a matrix of cell velocities, also when some or all of the cell components are constrained"""
    import numpy as np
    import scipy.linalg
    kind = ctx.choice("kind", ["rgb", "mtk"])
    n = ctx.choice("n", [1, 2])
    s = build(ctx, kind, n, natoms=ctx.choice("N", [1, 3]))
    b = s.b
    zero = ctx.choice("zero", ["none", "diagonal", "two", "all", "offdiagonal", "equal", "tiny", "nearly equal", "almost equal"])
    P = val(b.p)
    if zero in ("diagonal", "all"):
        P[np.arange(3), np.arange(3)] = 0
    if zero == "two":
        P[0, 0] = P[1, 1] = 0
    if zero in ("offdiagonal", "all"):
        P = np.diag(np.diag(P))
    if zero == "equal":
        P[2, 2] = P[1, 1]
    if "ly equal" in zero or zero == "almost equal":
        P[1, 1] = P[0, 0] * (1 + (1e-12 if zero == "nearly equal" else 1e-7))
    if zero == "tiny":
        P = P * 1e-7
    P = P * 0.3
    b.p = P
    v = P / val(b.m)[0]
    sc = np.abs(v).max() * s.dt
    ctx.assume(sc < 1.0)
    q, p, h, m3 = val(s.nm.qnm), val(s.nm.pnm), val(s.cell.h), val(s.beads.m3)[0]
    t = s.dt / 2
    b.qcstep()
    Z = np.zeros((6, 6))
    Z[:3, :3], Z[:3, 3:], Z[3:, 3:] = v, np.eye(3), -v
    E = scipy.linalg.expm(Z * t)
    x, y = q[0].reshape(-1, 3), (p[0] / m3).reshape(-1, 3)
    ctx.ensure_eq("centroid position", s.nm.qnm[0], (x.dot(E[:3, :3].T) + y.dot(E[:3, 3:].T)).reshape(-1), tol=1e-6)
    ctx.ensure_eq("centroid momentum", s.nm.pnm[0], (y.dot(E[3:, 3:].T)).reshape(-1) * m3, tol=1e-6)
    ctx.ensure_eq("cell", s.cell.h, E[:3, :3].dot(h), tol=1e-6)
    ctx.ensure_eq("cell upper triangular", np.tril(val(s.cell.h), -1), 0 * h)


class CellFF(OpaqueFF):
    """a smooth potential of scaled coordinates and cell with exact forces and virial"""

    def __init__(self, ctx, name, k, N):
        OpaqueFF.__init__(self, ctx, name)
        import numpy as np
        r = np.random.RandomState(k)
        self.a, self.c, self.k = r.uniform(0.2, 0.6, 3 * N), r.uniform(-1, 1, 3 * N), r.uniform(0.1, 0.3)
        self.N = N

    def value(self, q, h):
        import numpy as np
        q = np.asarray(q, float)
        h = np.asarray(h, float)
        ih = np.linalg.inv(h)
        sc = (q.reshape(-1, 3)).dot(ih.T)
        a, c = self.a.reshape(-1, 3), self.c.reshape(-1, 3)
        # U = sum a (s-c)^2 * 8 + pair term k |q_i - q_j|^2 + volume term
        d = sc - c
        u = 8 * (a * d * d).sum()
        f = -(16 * a * d).dot(ih)
        vir = np.zeros((3, 3))
        x = q.reshape(-1, 3)
        for i in range(self.N):
            for j in range(i):
                r = x[i] - x[j]
                r2 = r.dot(r)
                u += self.k * np.sqrt(1 + r2)
                g = -self.k * r / np.sqrt(1 + r2)
                f[i] += g
                f[j] -= g
                vir += np.outer(r, g)
        V = np.linalg.det(h)
        u += 2.0 * (np.log(V) - 4.5) ** 2
        vir -= np.eye(3) * 4.0 * (np.log(V) - 4.5)
        return u, f.reshape(-1), vir


def conc_sys(ctx, kind, dt, bias=None):
    import numpy as np
    n = ctx.choice("n", [1, 2, 3]) if kind != "sc-bzp" else 2
    N = 2
    nmts = ctx.choice("nmts", [(1,), (2,), (1, 2)])
    bias = ctx.choice("bias", [0, 1]) if bias is None else bias
    hfix = ctx.choice("hfix", [[], ["xx"], ["offdiagonal"], ["xx", "yy", "zz"], ["xx", "yy"]] if kind in ("rgb", "mtk") else [[]])
    vol = ctx.choice("vol", [None, True]) if kind == "mtk" else None
    L = len(nmts)
    ffs = {"ff%d" % i: CellFF(ctx, "ff%d" % i, i, N) for i in range(L)}
    if bias:
        ffs["bias"] = CellFF(ctx, "bias", 7, N)
    s = build(ctx, kind, n, nmts=nmts, bias=bool(bias), hfix=hfix, vol=vol, natoms=N, ffs=ffs, prng=ZeroPRNG(ctx), dt=dt)
    s.vol, s.hfix = vol, hfix
    return s


TG = [D + "NPTIntegrator.pstep", D + "NPTIntegrator.qcstep", D + "NPTIntegrator.tstep"] + [
    B + x + y for x in ("BaroBZP.", "BaroRGB.", "BaroMTK.") for y in ("pstep", "qcstep")]


@contract("P12", "constant-pressure-reversible", TG, sym=False, samples=(100, 600), tol=1e-6,
          why="matrix exponentials and eigenvector routines; several force evaluations")
def _rev(ctx):
    """without thermostats a constant-pressure or constant-stress step is undone by reversing the atomic and piston momenta, with
    multiple time steps, bias and cell constraints; a volume constraint keeps the volume; constrained strain components stay zero"""
    import numpy as np
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk", "sc-bzp"])
    s = conc_sys(ctx, kind, 0.02)
    b = s.b
    if "bzp" not in kind:       # start inside the constraint
        p = val(b.p) * val(b.hmask)
        if s.vol:
            # constrained and traceless
            p = p - np.eye(3) * np.trace(p) / 3
            if any(x in s.hfix for x in ("xx", "yy", "zz")):
                ctx.assume(False)
        b.p = p
    q0, p0, h0, b0, V0 = val(s.beads.q), val(s.beads.p), val(s.cell.h), val(b.p), float(s.cell.V)
    ctx.assume(np.abs(b0).max() / val(b.m)[0] * 0.02 < 0.2)
    s.motion.step(0)
    if s.vol:
        ctx.ensure_eq("volume", s.cell.V, V0, tol=1e-9)
    if "bzp" not in kind:
        ctx.ensure_eq("masked strain rates", val(b.p) * (1 - val(b.hmask)), 0 * b0)
    s.beads.p = -val(s.beads.p)
    b.p = -val(b.p)
    s.motion.step(1)
    ctx.ensure_eq("positions", s.beads.q, q0)
    ctx.ensure_eq("momenta", -val(s.beads.p), p0)
    ctx.ensure_eq("cell", s.cell.h, h0)
    ctx.ensure_eq("piston", -val(b.p), b0)


@contract("P12", "constant-pressure-energy", TG, sym=False, samples=(60, 400), why="order of accuracy is measured on concrete trajectories")
def _cons(ctx):
    """the conserved quantity is conserved by the dynamics: over a fixed time its drift vanishes as the square of the time step (apart
    from the energy of constrained cell components, which is booked kick by kick)"""
    import numpy as np
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk", "sc-bzp"])
    dts = []
    st = ctx.rng.getstate()
    nch = ctx.nchoice
    for k in (0.01, 0.005, 0.0025):
        ctx.rng.setstate(st)
        ctx.nchoice = nch
        s = conc_sys(ctx, kind, k)
        if kind != "bzp" and kind != "sc-bzp":
            s.b.p = val(s.b.p) * 0.3 * val(s.b.hmask)
            if s.vol:
                if any(x in s.hfix for x in ("xx", "yy", "zz")):
                    ctx.assume(False)
                s.b.p = val(s.b.p) - np.eye(3) * np.trace(val(s.b.p)) / 3
        else:
            s.b.p = val(s.b.p) * 0.3
        vb = np.abs(val(s.b.p)).max() / val(s.b.m)[0]
        ctx.assume(vb < 0.4 and s.temp * s.nbeads < 3 and val(s.b.m)[0] > 1)
        k0 = float(s.nm.kin + s.b.kin)
        en = lambda: float(s.ensemble.econs - s.b.thermostat.ethermo)
        e0 = en()
        for i in range(int(round(0.02 / k))):
            s.motion.step(i)
        dts.append(en() - e0)
    # extrapolated to zero time step the drift vanishes quadratically
    quad = (4 * dts[2] - dts[1]) / 3
    big = max(abs(x) for x in dts)
    ctx.ensure("drift vanishes with the square of the time step", abs(quad) < 0.1 * big + 2e-6 * (1 + k0))


@contract("P12", "thermostats-balance", [D + "NPTIntegrator.tstep", B + "BaroBZP.get_ebaro", B + "BaroRGB.get_ebaro", B + "BaroMTK.get_ebaro"],
          limit=90)
def _tb(ctx):
    """thermostats of atoms and cell change no conserved quantity, whatever the noise"""
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk"])
    n = ctx.choice("n", [1, 2])
    s = build(ctx, kind, n, thermo=True)
    e0 = val(s.ensemble.econs)
    p0, b0 = val(s.beads.p), val(s.b.p)
    s.motion.integrator.tstep()
    ctx.ensure_eq("conserved quantity", s.ensemble.econs, e0)
    s.motion.integrator.tstep()
    ctx.ensure_eq("conserved quantity after another step", s.ensemble.econs, e0)
    if not ctx.sym:
        import numpy as np
        ctx.ensure("both thermostats act", np.abs(val(s.b.p) - b0).max() > 0 and np.abs(val(s.beads.p) - p0).max() > 0)


@contract("P12", "cell-thermostat", [B + "BaroRGB.get_3x3to6", B + "BaroRGB.get_6to3x3", B + "BaroMTK.get_3x3to6", B + "BaroMTK.get_6to3x3",
                                     B + "BaroBZP.bind", B + "BaroRGB.bind", B + "BaroMTK.bind", B + "BaroSCBZP.bind"], limit=90)
def _ct(ctx):
    """the thermostat of the cell damps every component of the piston momentum by the same exact factor and adds independent noise of
    the piston mass and ring-polymer temperature to each free component; the lower triangle stays zero"""
    np = ctx.np
    kind = ctx.choice("kind", ["bzp", "rgb", "mtk", "sc-bzp"])
    n = 2 if kind == "sc-bzp" else ctx.choice("n", [1, 2])
    s = build(ctx, kind, n, thermo=True, prng=StubPRNG(ctx))
    b = s.b
    th = b.thermostat
    pr = th.prng
    b0, m, kt = val(b.p), val(b.m)[0], s.temp * n
    pr.draws = []
    th.step()
    c = np.exp(-s.dt / 2 / val(th.tau))
    xi = pr.draws[0]
    ctx.ensure_eq("one draw per component", len(xi), 1 if "bzp" in kind else 6)
    f = np.sqrt(m) * np.sqrt(kt * (1 - c * c))
    b1 = val(b.p)
    if "bzp" in kind:
        ctx.ensure_eq("piston", b1[0], b0[0] * c + f * xi[0])
        return
    used = []
    for i in range(3):
        for j in range(3):
            if j < i:
                ctx.ensure_eq("lower %d%d" % (i, j), b1[i, j], 0.0)
                continue
            k = {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (0, 2): 4, (1, 2): 5}[i, j]
            ctx.ensure_eq("component %d%d" % (i, j), b1[i, j], b0[i, j] * c + f * xi[k])
    # in both directions, and again after the momenta were set as a matrix
    p2 = np.triu(ctx.array("p2", (3, 3)))
    b.p = p2
    pr.draws = []
    th.step()
    xi = pr.draws[0]
    b1 = val(b.p)
    for (i, j), k in {(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (0, 2): 4, (1, 2): 5}.items():
        ctx.ensure_eq("component %d%d again" % (i, j), b1[i, j], p2[i, j] * c + f * xi[k])


@contract("P12", "suzuki-chin-piston-force", [B + "BaroSCBZP.pstep", B + "BaroSCBZP.pscstep", B + "Barostat.stress_mts_sc", B + "Barostat.kstress_mts_sc",
                                              B + "Barostat.get_kstress_sc", B + "Barostat.get_stress_sc"], limit=200)
def _scpf(ctx):
    """in Suzuki-Chin dynamics the piston is pushed at every level by the virial of the forces weighted 2/3 and 4/3 on even and odd beads (bias
    with full weight on the outermost) relative to the centroid, by the virial of the force-squared term for half a step outside
    everything, and on the innermost level by external pressure, entropic term and exactly integrated kinetic stress"""
    import contextlib
    import ipi.engine.forces as FO
    from checks.build import patched
    np = ctx.np
    n = ctx.choice("n", [2, 4])
    nmts = ctx.choice("nmts", [(1,), (2, 1), (1, 3)] if n == 2 else [(1,)])
    bias = ctx.choice("bias", [0, 1])
    L = len(nmts)
    what = ctx.choice("part", list(range(L)) + ["squared"])
    rec = {}

    def stub(self, index):
        val(self.f), val(self.virs)
        q = val(self.beads.q)
        rec[index] = (ctx.opaque("sqf%d" % index, [q], shape=q.shape), ctx.opaque("sqv%d" % index, [q], shape=(n, 3, 3)))
        return [rec[index][0].copy(), rec[index][1].copy()]

    with patched(FO.Forces, forcesvirs_4th_order=stub):
        s = build(ctx, "sc-bzp", n, nmts=nmts, bias=bool(bias))
        b, kt = s.b, s.temp * n
        al = ctx.real("alpha", pos=True)
        s.forces.alpha = al
        for again in range(2 if what == "squared" else 1):
            if again:
                s.beads.q[:] = ctx.array("q2", (n, 3 * s.natoms))
            q, h, pc, m = val(s.beads.q), val(s.cell.h), val(s.beads.pc), val(s.beads.m)
            V = h[0, 0] * h[1, 1] * h[2, 2]
            qc = q.sum(axis=0) / n
            p0 = val(b.p)[0]
            if what == "squared":
                s.motion.integrator.barostat.pscstep()
                t = 0.0
                for bd in range(n):
                    a = (al if bd % 2 == 0 else 1 - al) / (kt * kt) / 9.0
                    for k in range(L):
                        f, v = rec[k]
                        t = t + a * (v[bd][0, 0] + v[bd][1, 1] + v[bd][2, 2] - (f[bd] * (q[bd] - qc)).sum())
                ctx.ensure_eq("piston momentum %d" % again, val(b.p)[0], p0 + s.dt / 2 * t)
                continue
            lev = what
            dt = s.dt / 2
            for i in range(lev + 1):
                dt = dt / nmts[i]
            t, fc = 0.0, np.zeros(q[0].shape)
            for bd in range(n):
                w = 2.0 / 3.0 if bd % 2 == 0 else 4.0 / 3.0
                _, f, v = s.fflist["ff%d" % lev].value(q[bd], h)
                f, v = f * w, v * w
                if bias and lev == 0:
                    _, fb, vb = s.fflist["bias"].value(q[bd], h)
                    f, v = f + fb, v + vb
                fc = fc + f / n
                t = t + v[0, 0] + v[1, 1] + v[2, 2] - (f * (q[bd] - qc)).sum()
            t = t * dt
            if lev == L - 1:
                m3 = val(s.beads.m3)[0]
                t = t + dt * 3 * (kt - n * s.pext * V)
                t = t + n * ((pc * pc / m3).sum() * dt + (fc * pc / m3).sum() * dt * dt + (fc * fc / m3).sum() * dt ** 3 / 3)
            s.motion.integrator.barostat.pstep(lev)
            ctx.ensure_eq("piston momentum", val(b.p)[0], p0 + t)
