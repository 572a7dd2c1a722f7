"""P11: thermostats."""
import numpy as _np

from pyvc.contracts import contract
from checks.build import make_system, val, StubPRNG, ZeroPRNG, OpaqueFF, fcomp, patched
import ipi.engine.thermostats as TH
import ipi.utils.mathtools as MT
from ipi.utils.depend import dpipe, depend_array, depend_value, dstrip

T = "ipi/engine/thermostats.py:"
ASSUMPTIONS = ["random draws are arbitrary real inputs (their distribution is numpy's)",
               "matrix exponential and matrix square root enter the coloured-noise thermostats through the contracts "
               "checked (bounded) in matrix-functions"]


class GPRNG(StubPRNG):
    """also records the shape parameters asked of the gamma generator and the number of scalar normals"""

    def __init__(self, ctx):
        StubPRNG.__init__(self, ctx)
        self.gam, self.scal = [], []

    def gamma(self, k, theta=1.0, size=None):
        self.gam.append((k, theta))
        v = StubPRNG.gamma(self, k, theta)
        self.gamv = getattr(self, "gamv", []) + [v]
        return v

    @property
    def g(self):
        v = StubPRNG.g.fget(self)
        self.scal.append(v)
        return v


def pm(ctx, n, tag=""):
    p = depend_array(name="p", value=ctx.array("p" + tag, n))
    m = depend_array(name="m", value=ctx.array("m" + tag, n, pos=True))
    return p, m


def K(p, m):
    p, m = val(p), val(m)
    return 0.5 * (p * p / m).sum()


def setup(ctx, t, n=None, fixdof=None):
    N = ctx.dim("N")
    n = 3 * N
    p, m = pm(ctx, n)
    pr = GPRNG(ctx)
    t.bind(pm=(p, m), prng=pr, fixdof=fixdof)
    # the thermostat was created with some temperature and time step, then gets the real ones
    temp, dt = ctx.real("temp", pos=True), ctx.real("dt", pos=True)
    t.temp, t.dt = temp, dt
    return N, t, p, m, pr, temp, dt


@contract("P11", "langevin-exact", [T + "ThermoLangevin.step", T + "ThermoLangevin.get_T", T + "ThermoLangevin.get_S",
                                    T + "ThermoLangevin.get_T_on_sm", T + "Thermostat.bind", T + "Thermostat.get_sm"])
def _lang(ctx):
    """p' = e^(-dt/tau) p + sqrt(m kT (1 - e^(-2dt/tau))) xi (the exact Ornstein-Uhlenbeck step, which leaves the Maxwell
    distribution invariant); the energy taken from the system is added to the bath"""
    np = ctx.np
    tau = ctx.real("tau", pos=True)
    N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoLangevin(tau=1.5, temp=2.0, dt=0.3, ethermo=ctx.real("e0")))
    _ = val(t.T_on_sm)
    t.tau = tau
    p0, k0, e0 = val(t.p), K(t.p, t.m), val(t.ethermo)
    t.step()
    c = np.exp(-dt / tau)
    xi = pr.draws[0]
    ctx.ensure_eq("momenta", t.p, p0 * c + np.sqrt(val(t.m)) * np.sqrt(temp * (1 - c * c)) * xi)
    ctx.ensure_eq("energy balance", t.ethermo + K(t.p, t.m), e0 + k0)
    # Maxwell distribution invariant: variance of p' when p has variance m kT
    ctx.ensure_eq("stationary variance", t.T ** 2 * temp + t.S ** 2, temp)


@contract("P11", "langevin-masses", [T + "Thermostat.get_sm", T + "ThermoLangevin.get_T_on_sm"])
def _langm(ctx):
    """the masses used are the current ones, also after they are changed"""
    np = ctx.np
    tau = ctx.real("tau", pos=True)
    N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoLangevin(tau=tau))
    t.step()
    m2 = ctx.array("mm", 3 * N, pos=True)
    t.m[:] = m2
    p0, e0 = val(t.p), val(t.ethermo)
    t.step()
    c = np.exp(-dt / tau)
    ctx.ensure_eq("momenta", t.p, p0 * c + np.sqrt(m2) * np.sqrt(temp * (1 - c * c)) * pr.draws[1])
    ctx.ensure_eq("energy balance", t.ethermo - e0, 0.5 * (p0 * p0 / m2).sum() - K(t.p, m2))


@contract("P11", "velocity-rescaling", [T + "ThermoSVR.step", T + "ThermoSVR.get_et", T + "ThermoSVR.get_K"], limit=120)
def _svr(ctx):
    """the new kinetic energy is the exact canonical-sampling update: (sqrt(c K) + r sqrt((1-c) kT/2))^2 + (1-c) kT/2 * chi2
    with chi2 having (unconstrained degrees of freedom - 1) degrees of freedom; all momenta scale by one factor; the energy
    goes to the bath"""
    np = ctx.np
    tau = ctx.real("tau", pos=True)
    fixdof = ctx.choice("fixdof", [None, 0, 3, 1, 2])
    N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoSVR(tau=1.1, ethermo=ctx.real("e0")), fixdof=fixdof)
    t.tau = tau
    nd = 3 * N - (fixdof or 0)
    ctx.assume(nd >= 3)
    p0, k0, e0 = val(t.p), K(t.p, t.m), val(t.ethermo)
    ctx.assume(k0 > 0)
    t.step()
    k1 = K(t.p, t.m)
    c = np.exp(-dt / tau)
    r1 = pr.scal[0]
    kt2 = temp / 2
    ctx.ensure_eq("one gamma draw", len(pr.gam), 1)
    shape, theta = pr.gam[0]
    extra = pr.scal[1:]
    chi2 = 2.0 * theta * pr.gamv[0]
    for x in extra:
        chi2 = chi2 + x * x
    ctx.ensure_eq("degrees of freedom of the chi-squared variable", 2 * shape + len(extra), nd - 1)
    want = c * k0 + 2 * r1 * k0 * np.sqrt(kt2 / k0 * c * (1 - c)) + r1 * r1 * (1 - c) * kt2 + (1 - c) * kt2 * chi2
    ctx.ensure_eq("new kinetic energy", k1, want)
    ctx.ensure_eq("energy balance", t.ethermo + k1, e0 + k0)
    # uniform scaling: p1 * p0[0] == p0 * p1[0]
    p1 = val(t.p)
    a, b = p0[0], p1[0]
    ctx.ensure_eq("one common factor", p1 * a, p0 * b)
    return pr, c, k0, kt2, p0, p1


@contract("P11", "velocity-rescaling-concrete", [T + "ThermoSVR.step"], sym=False, samples=(60, 400),
          why="the sign of the scaling factor branches on a nonlinear condition; explored numerically as well")
def _svrc(ctx):
    """same contract on concrete values, plus: zero kinetic energy is left alone"""
    import numpy as np
    if ctx.choice("zero", [0, 0, 0, 1]):
        N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoSVR(tau=1.1))
        t.p[:] = 0
        e0 = val(t.ethermo)
        t.step()
        ctx.ensure_eq("momenta stay zero", t.p, 0 * val(p))
        ctx.ensure_eq("bath energy", t.ethermo, e0)
        return
    _svr(ctx)


@contract("P11", "velocity-rescaling-reduces-to-langevin", [T + "ThermoSVR.step"], sym=False, samples=(80, 600),
          why="the sign of the scaling factor branches on a nonlinear condition; explored on both sides of it")
def _svrs(ctx):
    """the component of the momenta along their old direction follows the Langevin equation, including its sign (with one degree of
    freedom nothing else is left), so that the momenta decorrelate as documented"""
    import numpy as np
    tau, temp, dt = (ctx.real(x, pos=True) for x in ("tau", "temp", "dt"))
    n = ctx.choice("n", [1, 1, 2, 3, 6])
    p, m = pm(ctx, n)
    fac = ctx.choice("r / threshold", [-2.5, -1.6, -1.25, -1.1, -0.9, -0.75, -0.5, 0.5])
    t = TH.ThermoSVR(tau=tau)
    c = np.exp(-dt / tau)
    k0 = K(p, m)
    thr = np.sqrt(c * k0 / ((1 - c) * temp / 2))

    class P(GPRNG):
        @property
        def g(self):
            v = GPRNG.g.fget(self)
            if len(self.scal) == 1:
                self.scal[0] = v = fac * thr
            return v

        def gamma(self, k, theta=1.0, size=None):
            v = GPRNG.gamma(self, k, theta)
            return v if k > 0 else 0.0      # a gamma variable of shape zero is zero

    pr = P(ctx)
    t.bind(pm=(p, m), prng=pr)
    t.temp, t.dt = temp, dt
    p0 = val(t.p)
    t.step()
    p1 = val(t.p)
    if n == 1:
        ctx.ensure_eq("momentum", p1, p0 * np.sqrt(c) + np.sqrt((1 - c) * temp * val(t.m)) * pr.scal[0] * np.sign(p0), tol=1e-7)
    ctx.ensure_eq("direction", np.sign((p0 * p1 / val(t.m)).sum()), np.sign(1 + fac))


@contract("P11", "pile-local", [T + "ThermoPILE_L." + x for x in ("bind", "get_tauk", "get_ethermo", "get_npilect", "step")],
          limit=200)
def _pile(ctx):
    """every internal mode k is damped with friction 2 lambda omega_k at the ring-polymer temperature, the centroid with 1/tau
    (at its own temperature if one is given); the bath energy is the sum over modes and starts from the stored value"""
    np = ctx.np
    n = ctx.choice("n", [1, 2, 3, 4])
    cold = ctx.choice("centroid temperature", [0, 1]) if n > 1 else 0
    mode = ctx.choice("mode", ["rpmd", "pa-cmd"]) if n in (2, 3) else "rpmd"
    tau, lam = ctx.real("tau", pos=True), ctx.real("lam", pos=True)
    tc = ctx.real("tc", pos=True) if cold else 0.0
    e00 = ctx.real("e0")
    th = TH.ThermoPILE_L(tau=tau, scale=lam, pilect=tc, ethermo=e00)
    pr = StubPRNG(ctx)
    s = make_system(ctx, nbeads=n, mode="nvt", thermostat=th, prng=pr, nm_mode=mode,
                    freqs=ctx.array("wf", 1, pos=True) if mode == "pa-cmd" else None)
    ctx.ensure_eq("stored bath energy kept", th.ethermo, e00)

    def step(tag, temp, dt, tau, lam, tc):
        p0, e0 = val(s.nm.pnm), val(th.ethermo)
        mm = val(s.nm.dynm3)
        w = val(s.nm.dynomegak)
        k0 = 0.5 * (p0 * p0 / mm).sum()
        d0 = len(pr.draws)
        th.step()
        p1 = val(s.nm.pnm)
        k1 = 0.5 * (p1 * p1 / mm).sum()
        ctx.ensure_eq(tag + "one draw per mode", len(pr.draws) - d0, n)
        ctx.ensure_eq(tag + "energy balance", th.ethermo + k1, e0 + k0)
        for k in range(n):
            kt = temp * n if (k or not cold) else tc * n
            g = 1 / tau if k == 0 else 2 * lam * w[k]
            c = np.exp(-dt / 2 * g)
            ctx.ensure_eq(tag + "mode %d" % k, p1[k], p0[k] * c + np.sqrt(mm[k]) * np.sqrt(kt * (1 - c * c)) * pr.draws[d0 + k])

    step("", s.temp, s.dt, tau, lam, tc)
    if n > 2 or cold:
        return
    # any of the parameters may be changed while the simulation runs
    what = ctx.choice("changed", ["temperature", "time step", "times"])
    temp, dt = s.temp, s.dt
    if what == "temperature":
        temp = ctx.real("temp2", pos=True)
        s.ensemble.temp = temp
        s.beads.p[:] = ctx.array("p2", (n, 3 * s.natoms))
    elif what == "time step":
        dt = ctx.real("dt2", pos=True)
        s.motion.dt = dt
    else:
        tau, lam = ctx.real("tau2", pos=True), ctx.real("lam2", pos=True)
        th.tau, th.pilescale = tau, lam
    step(what + " changed, ", temp, dt, tau, lam, tc)


@contract("P11", "pile-global", [T + "ThermoPILE_G.bind", T + "ThermoPILE_L.bind", T + "ThermoNMGLEG.bind", T + "MultiThermo.bind",
                                 T + "MultiThermo.get_ethermo", T + "MultiThermo.step"], limit=200)
def _pileg(ctx):
    """global centroid thermostats act on the centroid only and with the unconstrained degrees of freedom of the centroid, alone
    or inside a multiple thermostat; bath energies add up"""
    np = ctx.np
    n = ctx.choice("n", [1, 2])
    cons = ctx.choice("constraint", ["none", "com"])
    multi = ctx.choice("multi", [0, 1, 2])
    cold = ctx.choice("centroid temperature", [0, 1]) if cons == "none" and not multi else 0
    tau, lam = ctx.real("tau", pos=True), ctx.real("lam", pos=True)
    tc = ctx.real("tc", pos=True) if cold else 0.0
    est = ctx.real("e0")
    g = TH.ThermoPILE_G(tau=tau, scale=lam, ethermo=est, pilect=tc)
    tl = [g]
    if multi == 2:
        e1 = ctx.real("e1")
        tl.append(TH.ThermoLangevin(tau=ctx.real("tau2", pos=True), ethermo=e1))
        est = est + e1
    th = TH.MultiThermo(thermolist=tl) if multi else g
    pr = GPRNG(ctx)
    s = make_system(ctx, nbeads=n, mode="nvt", thermostat=th, prng=pr, fixcom=cons == "com")
    nd = 3 * s.natoms - (3 if cons == "com" else 0)
    ctx.assume(s.natoms >= 2)
    if cons == "com":
        s.beads.p[:] = ctx.array("pp", (n, 3 * s.natoms))
    mm = val(s.nm.dynm3)
    w = val(s.nm.dynomegak)
    p0 = val(s.nm.pnm)
    e0 = val(th.ethermo)
    ctx.ensure_eq("stored bath energy kept", e0, est)
    ke = lambda p: 0.5 * (p * p / mm).sum()
    ctx.assume(0.5 * (p0[0] ** 2 / mm[0]).sum() > 0)
    th.step()
    p1 = val(s.nm.pnm)
    ctx.ensure_eq("energy balance", th.ethermo + ke(p1), e0 + ke(p0))
    extra = pr.scal[1:]
    ctx.ensure_eq("degrees of freedom", 2 * pr.gam[0][0] + len(extra), nd - 1)
    if multi < 2:
        ctx.ensure_eq("one common factor", p1[0] * p0[0][0], p0[0] * p1[0][0])
        k0, k1 = 0.5 * (p0[0] ** 2 / mm[0]).sum(), 0.5 * (p1[0] ** 2 / mm[0]).sum()
        c, r1, kt2 = np.exp(-s.dt / 2 / tau), pr.scal[0], (tc if cold else s.temp) * n / 2
        chi2 = 2.0 * pr.gamv[0]
        for x in extra:
            chi2 = chi2 + x * x
        ctx.ensure_eq("centroid kinetic energy", k1, c * k0 + 2 * r1 * k0 * np.sqrt(kt2 / k0 * c * (1 - c)) +
                      r1 * r1 * (1 - c) * kt2 + (1 - c) * kt2 * chi2)
        dr = [d for d in pr.draws if hasattr(d, "shape") and d.shape]
        for k in range(1, n):
            c = np.exp(-s.dt / 2 * 2 * lam * w[k])
            ctx.ensure_eq("mode %d" % k, p1[k], p0[k] * c + np.sqrt(mm[k]) * np.sqrt(s.temp * n * (1 - c * c)) * dr[k - 1])


@contract("P11", "constrained-dofs-of-global-thermostats", [T + "ThermoSVR.step", T + "ThermoPILE_G.bind", T + "ThermoNMGLEG.bind",
          T + "MultiThermo.bind", "ipi/engine/motion/dynamics.py:Dynamics.bind", "ipi/engine/motion/dynamics.py:Dynamics.get_fixdof"],
          sym=False, samples=(80, 400), why="index sets of fixed degrees of freedom are concrete numpy arrays here")
def _dofs(ctx):
    """a global thermostat targets the temperature with exactly the degrees of freedom that are free to move: on beads 3NP minus
    the constrained ones, on the centroid 3N minus those of one bead"""
    import numpy as np
    n = ctx.choice("n", [1, 2, 3])
    N = ctx.choice("N", [2, 3, 4])
    kind = ctx.choice("kind", ["svr", "pile_g", "nmgle_g"])
    # nm_gle_g refuses fixed atoms
    cons = ctx.choice("constraint", ["none", "com", "atoms", "dof"] if kind != "nmgle_g" else ["none", "com"])
    multi = ctx.choice("multi", [0, 1])
    fix = {"atoms": np.array([0, 1, 2]), "dof": np.array([1, 4])}.get(cons, np.zeros(0, int))
    if kind == "svr":
        t = TH.ThermoSVR(tau=2.0)
    elif kind == "pile_g":
        t = TH.ThermoPILE_G(tau=2.0)
    else:
        t = TH.ThermoNMGLEG(A=np.array([np.array([[1.0]])] * n), tau=2.0)
        t.s = np.zeros(0)
    th = TH.MultiThermo(thermolist=[t]) if multi else t
    pr = GPRNG(ctx)
    s = make_system(ctx, natoms=N, nbeads=n, mode="nvt", thermostat=th, prng=pr, fixcom=cons == "com", fixatoms=fix)
    th.step()
    free = 3 * N - len(fix)
    if kind == "svr":
        want = free * n - (3 if cons == "com" else 0)
    else:
        want = free - (3 if cons == "com" else 0)
    ctx.ensure_eq("degrees of freedom", 2 * pr.gam[0][0] + len(pr.scal) - 1, want - 1)


def _gle_stubs(ctx, log):
    def mexp(M, *a, **k):
        log["exp"].append(M)
        n = M.shape[0]
        return ctx.opaque("mexp", [M], shape=(n, n))

    def rherm(A):
        log["root"].append(A)
        n = A.shape[0]
        return ctx.opaque("rherm", [A], shape=(n, n))

    def chol(M):
        log["chol"].append(M)
        n = M.shape[0]
        return ctx.opaque("chol", [M], shape=(n, n))
    return dict(matrix_exp=mexp, root_herm=rherm, stab_cholesky=chol)


@contract("P11", "coloured-noise", [T + "ThermoGLE." + x for x in ("bind", "step", "get_T", "get_S", "get_C")], limit=120)
def _gle(ctx):
    """s' = T s + S xi with T = exp(-A dt) and noise covariance C - T C T^t, so that C is stationary; physical momenta are the
    first row; the energy taken from them goes to the bath; the auxiliary momenta start with covariance C"""
    np = ctx.np
    ns = ctx.choice("ns", [0, 1, 2])
    givenC = ctx.choice("C", [0, 1])
    log = dict(exp=[], root=[], chol=[])
    A = ctx.array("A", (ns + 1, ns + 1))
    C = None
    if givenC:
        L = ctx.array("L", (ns + 1, ns + 1))
        C = np.dot(L, L.T)
    with patched(TH, **_gle_stubs(ctx, log)):
        t = TH.ThermoGLE(temp=1.7, dt=0.3, A=A, C=C, ethermo=ctx.real("e0"))
        restart = ctx.choice("restart", [0, 1])
        N = ctx.dim("N")
        if restart:
            t.s = ctx.array("s", (ns + 1, 3 * N))
        N, t, p, m, pr, temp, dt = setup(ctx, t)
        if not givenC:
            C = np.identity(ns + 1) * temp
        nd = len(pr.draws)
        s0 = val(t.s)
        if not restart:
            ctx.ensure_eq("covariance of initial auxiliary momenta", log["chol"][0], (C if givenC else np.identity(ns + 1) * 1.7))
            ctx.ensure_eq("initial auxiliary momenta", s0, np.dot(ctx.opaque("chol", [log["chol"][0]], shape=(ns + 1, ns + 1)), pr.draws[0]))
        p0, k0, e0 = val(t.p), K(t.p, t.m), val(t.ethermo)
        t.step()
        ctx.ensure_eq("exponent", log["exp"][-1], -dt * A)
        Tm = ctx.opaque("mexp", [log["exp"][-1]], shape=(ns + 1, ns + 1))
        ctx.ensure_eq("noise covariance", log["root"][-1], C - np.dot(Tm, np.dot(C, Tm.T)))
        Sm = ctx.opaque("rherm", [log["root"][-1]], shape=(ns + 1, ns + 1))
        s0[0] = p0 / np.sqrt(val(t.m))
        want = np.dot(Tm, s0) + np.dot(Sm, pr.draws[nd])
        ctx.ensure_eq("extended momenta", t.s, want)
        ctx.ensure_eq("momenta", t.p, want[0] * np.sqrt(val(t.m)))
        ctx.ensure_eq("energy balance", t.ethermo + K(t.p, t.m), e0 + k0)


@contract("P11", "coloured-noise-modes", [T + "ThermoNMGLE." + x for x in ("bind", "step", "get_C", "get_ethermo")], limit=120)
def _nmgle(ctx):
    """each normal mode gets its own drift and covariance; bath energies add up and start from the stored value"""
    np = ctx.np
    n = ctx.choice("n", [1, 2, 3])
    ns = ctx.choice("ns", [0, 1])
    givenC = ctx.choice("C", [0, 1])
    log = dict(exp=[], root=[], chol=[])
    A = ctx.array("A", (n, ns + 1, ns + 1))
    C = ctx.array("C", (n, ns + 1, ns + 1)) if givenC else None
    with patched(TH, **_gle_stubs(ctx, log)):
        e00 = ctx.real("e0")
        t = TH.ThermoNMGLE(A=A, C=C, ethermo=e00)
        N = ctx.dim("N")
        restart = ctx.choice("restart", [1, 0]) if n == 2 else 1
        t.s = ctx.array("s", (n, ns + 1, 3 * N)) if restart else np.zeros(0)
        pr = StubPRNG(ctx)
        s = make_system(ctx, natoms=N, nbeads=n, mode="nvt", thermostat=t, prng=pr)
        nd = 0 if restart else n
        if not restart:
            for b in range(n):
                Cb = C[b] if givenC else log["chol"][b]
                ctx.ensure_eq("covariance of initial auxiliary momenta %d" % b, log["chol"][b], Cb)
                ctx.ensure_eq("initial auxiliary momenta %d" % b, val(t.s)[b],
                              np.dot(ctx.opaque("chol", [Cb], shape=(ns + 1, ns + 1)), pr.draws[b]))
        ctx.ensure_eq("stored bath energy kept", t.ethermo, e00)
        mm, p0, s0 = val(s.nm.dynm3), val(s.nm.pnm), val(t.s)
        ke = lambda p: 0.5 * (p * p / mm).sum()
        t.step()
        p1 = val(s.nm.pnm)
        ctx.ensure_eq("energy balance", t.ethermo + ke(p1), e00 + ke(p0))
        for b in range(n):
            Cb = C[b] if givenC else np.identity(ns + 1) * (s.temp * n)
            Tm = ctx.opaque("mexp", [-(s.dt / 2) * A[b]], shape=(ns + 1, ns + 1))
            Sm = ctx.opaque("rherm", [Cb - np.dot(Tm, np.dot(Cb, Tm.T))], shape=(ns + 1, ns + 1))
            ctx.ensure_eq("noise covariance %d" % b, log["root"][b], Cb - np.dot(Tm, np.dot(Cb, Tm.T)))
            sb = s0[b]
            sb[0] = p0[b] / np.sqrt(mm[b])
            want = np.dot(Tm, sb) + np.dot(Sm, pr.draws[nd + b])
            ctx.ensure_eq("mode %d" % b, p1[b], want[0] * np.sqrt(mm[b]), tol=1e-6)


@contract("P11", "coloured-noise-modes-changes", [T + "ThermoNMGLE.bind", T + "ThermoNMGLEG.bind", T + "ThermoNMGLE.get_ethermo",
                                                  T + "ThermoSVR.step"], limit=200)
def _nmgleg(ctx):
    """with the additional global thermostat on the centroid: first every mode gets its own coloured noise, then the centroid its
    velocity rescaling; bath energies add up; a change of temperature, time step or relaxation time acts from the next step on"""
    np = ctx.np
    n = ctx.choice("n", [1, 2])
    glob = ctx.choice("global", [0, 1])
    change = ctx.choice("changed", ["nothing", "temperature", "time step", "drift"] + (["time"] if glob else []) if not
                        (glob and ctx.sym) else ["nothing"])
    log = dict(exp=[], root=[], chol=[])
    ns = 1
    A = ctx.array("A", (n, ns + 1, ns + 1))
    tau = ctx.real("tau", pos=True)
    with patched(TH, **_gle_stubs(ctx, log)):
        e00 = ctx.real("e0")
        t = TH.ThermoNMGLEG(A=A, tau=tau, ethermo=e00) if glob else TH.ThermoNMGLE(A=A, ethermo=e00)
        N = ctx.dim("N")
        t.s = ctx.array("s", (n, ns + 1, 3 * N))
        pr = GPRNG(ctx)
        s = make_system(ctx, natoms=N, nbeads=n, mode="nvt", thermostat=t, prng=pr, fixatoms=_np.zeros(0, int))
        mm = val(s.nm.dynm3)
        ke = lambda p: 0.5 * (p * p / mm).sum()
        temp, dt = s.temp, s.dt
        ctx.ensure_eq("stored bath energy kept", t.ethermo, e00)
        if change != "nothing":
            e0, p0 = val(t.ethermo), val(s.nm.pnm)
            t.step()
            ctx.ensure_eq("energy balance before", t.ethermo + ke(val(s.nm.pnm)), e0 + ke(p0))
        if change == "temperature":
            temp = ctx.real("temp2", pos=True)
            s.ensemble.temp = temp
        elif change == "time step":
            dt = ctx.real("dt2", pos=True)
            s.motion.dt = dt
        elif change == "drift":
            A = ctx.array("A2", (n, ns + 1, ns + 1))
            t.A = A
        elif change == "time":
            tau = ctx.real("tau2", pos=True)
            t.tau = tau
        if change != "nothing":
            s.beads.p[:] = ctx.array("p2", (n, 3 * s.natoms))
            t.s[:] = ctx.array("s2", (n, ns + 1, 3 * N))
        p0, s0, e0 = val(s.nm.pnm), val(t.s), val(t.ethermo)
        pr.draws, pr.scal, pr.gam, pr.gamv = [], [], [], []
        t.step()
        p1 = val(s.nm.pnm)
        for b in range(n):
            Cb = np.identity(ns + 1) * (temp * n)
            Tm = ctx.opaque("mexp", [-(dt / 2) * A[b]], shape=(ns + 1, ns + 1))
            Sm = ctx.opaque("rherm", [Cb - np.dot(Tm, np.dot(Cb, Tm.T))], shape=(ns + 1, ns + 1))
            sb = s0[b]
            sb[0] = p0[b] / np.sqrt(mm[b])
            want = (np.dot(Tm, sb) + np.dot(Sm, pr.draws[b]))[0] * np.sqrt(mm[b])
            if b or not glob:
                ctx.ensure_eq("mode %d" % b, p1[b], want, tol=1e-6)
            else:
                ctx.ensure_eq("centroid direction", p1[0] * want[0], want * p1[0][0], tol=1e-6)
                k0, k1 = 0.5 * (want ** 2 / mm[0]).sum(), 0.5 * (p1[0] ** 2 / mm[0]).sum()
                if not pr.scal:
                    ctx.ensure_eq("rescaled unless at rest", k0, 0.0)
                    continue
                c, r1, kt2 = np.exp(-dt / 2 / tau), pr.scal[0], temp * n / 2
                chi2 = 2.0 * pr.gamv[0]
                for x in pr.scal[1:]:
                    chi2 = chi2 + x * x
                ctx.ensure_eq("centroid kinetic energy", k1, c * k0 + 2 * r1 * k0 * np.sqrt(kt2 / k0 * c * (1 - c)) +
                              r1 * r1 * (1 - c) * kt2 + (1 - c) * kt2 * chi2, tol=1e-6)
        ctx.ensure_eq("energy balance", t.ethermo + ke(p1), e0 + ke(p0), tol=1e-6)


@contract("P11", "coloured-noise-modes-changes-concrete", [T + "ThermoNMGLE.bind", T + "ThermoNMGLEG.bind"], sym=False,
          samples=(80, 500), why="two global rescalings in a row branch on nested nonlinear conditions")
def _nmglegc(ctx):
    """same contract on concrete values, with every change also for the global thermostat"""
    _nmgleg(ctx)


@contract("P11", "bath-energies-add-up", [T + "MultiThermo.bind", T + "MultiThermo.get_ethermo", T + "ThermoNMGLEG.bind"], limit=60)
def _add(ctx):
    """the bath energy of a combination of thermostats, read after any number of steps of any of them, is what all of them took"""
    k = ctx.choice("n thermostats", [1, 2, 3])
    es = [ctx.real("e%d" % i) for i in range(k)]
    tl = [TH.ThermoLangevin(tau=ctx.real("tau%d" % i, pos=True), ethermo=es[i]) for i in range(k)]
    th = TH.MultiThermo(thermolist=tl)
    N = ctx.dim("N")
    p, m = pm(ctx, 3 * N)
    th.bind(pm=(p, m), prng=GPRNG(ctx))
    th.temp, th.dt = ctx.real("temp", pos=True), ctx.real("dt", pos=True)
    e0, k0 = val(th.ethermo), K(tl[0].p, tl[0].m)
    want = es[0]
    for i in range(1, k):
        want = want + es[i]
    ctx.ensure_eq("stored", e0, want)
    for i in range(2):
        th.step()
        ctx.ensure_eq("energy balance %d" % i, th.ethermo + K(tl[0].p, tl[0].m), e0 + k0)
    for i in range(k):
        tl[i].ethermo += 1.0
        e1 = val(th.ethermo)
        ctx.ensure_eq("member %d counted" % i, e1 + K(tl[0].p, tl[0].m), e0 + k0 + 1.0 * (i + 1))


@contract("P11", "matrix-functions", ["ipi/utils/mathtools.py:matrix_exp", "ipi/utils/mathtools.py:root_herm",
                                      "ipi/utils/mathtools.py:stab_cholesky"], sym=False, samples=(150, 1500),
          why="truncated series and eigenvalue routines: floating-point algorithms")
def _mat(ctx):
    """matrix_exp is the matrix exponential; root_herm(A) root_herm(A)^t = A and stab_cholesky(A) stab_cholesky(A)^t = A for symmetric
    positive matrices"""
    import numpy as np
    import scipy.linalg
    n = ctx.choice("n", [1, 2, 3, 5, 8])
    sc = ctx.choice("scale", [1e-4, 0.1, 1.0, 6.0])
    M = ctx.array("M", (n, n)) * sc
    ref = scipy.linalg.expm(M)
    ctx.ensure_eq("exponential", MT.matrix_exp(M) / np.abs(ref).max(), ref / np.abs(ref).max(), tol=1e-6)
    A = np.dot(M, M.T)
    R = MT.root_herm(A)
    ctx.ensure_eq("hermitian root", np.dot(R, R.T) / sc ** 2, A / sc ** 2, tol=1e-6)
    A = A + sc ** 2 * np.eye(n) * 0.1
    R = MT.stab_cholesky(A)
    ctx.ensure_eq("cholesky", np.dot(R, R.T) / sc ** 2, A / sc ** 2, tol=1e-6)


@contract("P11", "noisy-force-thermostat", [T + "ThermoCL." + x for x in ("step", "get_T", "get_S", "get_lgT", "get_inT", "get_idT")],
          limit=90)
def _cl(ctx):
    """the 'cl' thermostat is Langevin with extra damping for inherent noise and extra noise for inherent dissipation; energy balance
    is kept"""
    np = ctx.np
    a, b, c = (ctx.choice("use " + x, [0, 1]) for x in ("tau", "intau", "idtau"))
    tau, intau, idtau = (ctx.real(x, pos=True) if u else 0.0 for x, u in (("tau", a), ("intau", b), ("idtau", c)))
    N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoCL(tau=tau, intau=intau, idtau=idtau, apat=0, ethermo=ctx.real("e0")))
    d0 = 0
    if a and b and c:
        # all times may be changed while it runs
        t.step()
        d0 = 1
        what = ctx.choice("changed", ["tau", "intau", "idtau"])
        x = ctx.real("new " + what, pos=True)
        tau, intau, idtau = (x if what == k else y for k, y in (("tau", tau), ("intau", intau), ("idtau", idtau)))
        setattr(t, what, x)
    p0, k0, e0 = val(t.p), K(t.p, t.m), val(t.ethermo)
    t.step()
    f = lambda x: np.exp(-dt / x / 2) if not (isinstance(x, float) and x == 0.0) else 1.0
    lg, i, d = f(tau), f(intau), f(idtau)
    var = temp * (1 - (lg * d) ** 2)
    ctx.ensure_eq("momenta", t.p, p0 * lg * i + np.sqrt(val(t.m)) * np.sqrt(var) * pr.draws[d0])
    ctx.ensure_eq("energy balance", t.ethermo + K(t.p, t.m), e0 + k0)


@contract("P11", "noisy-force-thermostat-adjusts", [T + "ThermoCL.step"], sym=False, samples=(60, 400),
          why="powers of real numbers with real exponents and prints of the values")
def _cla(ctx):
    """when asked to, the time of the inherent noise (or dissipation) is adjusted once per two half steps so as to cool a system above
    the target temperature of its free degrees of freedom and heat one below; the adjustment vanishes at the target and slows with the
    adjustment time"""
    import contextlib
    import io
    import numpy as np
    which = ctx.choice("which", ["intau", "idtau"])
    fixdof = ctx.choice("fixdof", [None, 3])
    level = ctx.choice("temperature / target", [0.3, 0.8, 1.0, 1.5, 4.0])
    apat = ctx.choice("apat", [1.0, 30.0, 0])
    both = ctx.choice("both", [0, 0, 0, 1])
    kw = {"intau": 7.0 if which == "intau" or both else 0.0, "idtau": 7.0 if which == "idtau" or both else 0.0}
    out = []
    for ap in (apat, 2.0 * apat):
        t = TH.ThermoCL(tau=3.0, apat=ap, **kw)
        p, m = pm(ctx, 9)
        t.bind(pm=(p, m), prng=ZeroPRNG(ctx), fixdof=fixdof)
        temp, dt = 1.3, 0.2
        t.temp, t.dt = temp, dt
        nd = 9 - (fixdof or 0)
        with contextlib.redirect_stdout(io.StringIO()):
            t.step()
            old = (float(t.intau), float(t.idtau))
            ctx.ensure_eq("first half step", np.array(old), np.array([kw["intau"], kw["idtau"]]))
            # after the damping of this step the kinetic energy is at the wanted level
            t.p[:] = val(t.p) * np.sqrt(level * nd * temp / 2 / K(t.p, t.m)) / float(t.T)
            t.step()
        new = (float(t.intau), float(t.idtau))
        i = 0 if which == "intau" else 1
        if both or not ap:
            ctx.ensure_eq("not adjusted", np.array(new), np.array(old))
            continue
        ctx.ensure_eq("other not adjusted", new[1 - i], old[1 - i])
        lg = np.log(new[i] / old[i]) * (-1 if which == "intau" else 1)
        if level == 1.0:
            ctx.ensure_eq("no change at the target", lg, 0.0)
        else:
            ctx.ensure("right direction", lg * (level - 1) > 0)
        out.append(lg * ap)
    if len(out) == 2:
        ctx.ensure_eq("rate", out[0], out[1])


@contract("P11", "fast-forward-langevin", [T + "ThermoFFL.step", T + "hfunc"], sym=False, samples=(120, 800),
          why="loops over a Python list of all momenta")
def _ffl(ctx):
    """flips act on the Langevin-updated momenta: 'none' leaves them, 'hard' restores signs, 'soft' reflects the component along the old
    direction when it points back, 'rescale' keeps the old direction with the new length (atoms at rest have no direction to keep); energy balance is kept"""
    import numpy as np
    flip = ctx.choice("flip", ["none", "hard", "soft", "rescale"])
    tau = ctx.real("tau", pos=True)
    rest = ctx.choice("an atom at rest", [0, 0, 1])
    N, t, p, m, pr, temp, dt = setup(ctx, TH.ThermoFFL(tau=tau, flip=flip, ethermo=ctx.real("e0")))
    p0, k0, e0 = val(t.p), K(t.p, t.m), val(t.ethermo)
    if rest:
        t.p[:3] = 0.0
        p0, k0 = val(t.p), K(t.p, t.m)
    sm = np.sqrt(val(t.m))
    t.step()
    c = np.exp(-dt / tau)
    old = p0 / sm
    new = old * c + np.sqrt(temp * (1 - c * c)) * pr.draws[0]
    o3, n3 = old.reshape(-1, 3), new.reshape(-1, 3).copy()
    if flip == "hard":
        n3 = np.where(o3 * n3 >= 0, n3, -n3)
    elif flip == "soft":
        for k in range(rest, len(o3)):
            x = np.dot(o3[k], n3[k]) / np.dot(o3[k], o3[k])
            if x < 0:
                n3[k] = n3[k] - 2 * x * o3[k]
    elif flip == "rescale":
        for k in range(rest, len(o3)):
            n3[k] = o3[k] / np.linalg.norm(o3[k]) * np.linalg.norm(n3[k])
    ctx.ensure_eq("momenta", t.p, n3.reshape(-1) * sm)
    ctx.ensure_eq("energy balance", t.ethermo + K(t.p, t.m), e0 + k0)
