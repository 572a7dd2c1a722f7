"""P09: the molecular-dynamics integrators."""
from pyvc.contracts import contract
from checks.build import make_system, val, ZeroPRNG, StubPRNG, OpaqueFF, fcomp, patched
import ipi.engine.thermostats
import ipi.utils.nmtransform as nmt
import ipi.engine.forces

D = "ipi/engine/motion/dynamics.py:"
NVE = [D + "NVEIntegrator." + x for x in ("pstep", "qcstep", "mtsprop_ba", "mtsprop_ab", "mtsprop", "step")] + [
    D + "DummyIntegrator." + x for x in ("bind", "get_qdt", "get_pdt", "get_tdt", "pconstraints")]
ASSUMPTIONS = ["forces are an arbitrary function of positions and cell (uninterpreted); bead numbers and multiple-time-step "
               "factors are enumerated, everything else is symbolic",
               "the free ring-polymer step is used through its P08 contract"]

NMTS = [(1,), (2,), (3,), (4,), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 3), (2, 1, 2), (1, 1, 3), (1, 2, 2)]


def comps_for(levels):
    """one force provider per multiple-time-step level"""
    return [fcomp("ff%d" % i, mts_weights=[1.0 if j == i else 0.0 for j in range(levels)]) for i in range(levels)]


def ffs_for(ctx, levels):
    return {"ff%d" % i: OpaqueFF(ctx, "ff%d" % i) for i in range(levels)}


def build(ctx, nmts, **kw):
    L = len(nmts)
    return make_system(ctx, nmts=nmts, ffs=ffs_for(ctx, L), comps=comps_for(L), **kw)


class Ref:
    """textbook nested (r-RESPA) propagator, written from the definition"""

    def __init__(self, s, nmts):
        self.s, self.n, self.nmts = s, s.nbeads, nmts
        self.q, self.p = val(s.beads.q), val(s.beads.p)
        self.m3 = val(s.beads.m3)
        self.h = val(s.cell.h)
        np = s.ctx.np
        self.np = np
        self.C = nmt.mk_nm_matrix(self.n) if self.n > 1 else None
        self.w = val(s.nm.omegak)
        self.extra = None

    def force(self, lev):
        np = self.np
        f = np.zeros(self.q.shape)
        ff = self.s.fflist["ff%d" % lev]
        for b in range(self.n):
            f[b] = f[b] + ff.value(self.q[b], self.h)[1]
        if lev == 0 and self.extra is not None:
            f = f + self.extra(self.q)
        return f

    def kick(self, lev, t):
        self.p = self.p + self.force(lev) * t

    def drift(self, t):
        np = self.np
        if self.n == 1:
            self.q = self.q + self.p / self.m3 * t
            return
        for _ in range(2):              # two half steps, as the flow composes exactly
            x, y = np.dot(self.C, self.q), np.dot(self.C, self.p)
            h = t / 2
            nx, ny = x.copy(), y.copy()
            nx[0] = x[0] + y[0] / self.m3[0] * h
            for k in range(1, self.n):
                c, sn = np.cos(self.w[k] * h), np.sin(self.w[k] * h)
                nx[k] = x[k] * c + y[k] / (self.m3[0] * self.w[k]) * sn
                ny[k] = y[k] * c - x[k] * (self.m3[0] * self.w[k]) * sn
            self.q, self.p = np.dot(self.C.T, nx), np.dot(self.C.T, ny)

    def prop(self, lev, t, hook=None):
        """for level lev: nmts[lev] substeps of kick/inner/kick"""
        n = self.nmts[lev]
        for i in range(n):
            self.kick(lev, t / n / 2)
            if lev == len(self.nmts) - 1:
                self.drift(t / n)
            else:
                self.prop(lev + 1, t / n)
            self.kick(lev, t / n / 2)


@contract("P09", "nve-is-nested-verlet", NVE, limit=200)
def _respa(ctx):
    """one step equals the textbook nested (multiple-time-step) velocity-Verlet step, for any forces, any number of
    atoms, classical or ring-polymer; the clock advances by exactly the time step"""
    nb, sets = ctx.choice("nbeads", [(1, NMTS), (2, [(1,), (2,), (1, 2)]), (3, [(1,)])])
    nmts = ctx.choice("nmts", sets)
    s = build(ctx, nmts, nbeads=nb)
    s.ctx = ctx
    r = Ref(s, nmts)
    r.prop(0, s.dt)
    t0 = val(s.ensemble.time)
    s.motion.step()
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)
    ctx.ensure_eq("clock", s.ensemble.time, t0 + s.dt)
    ctx.ensure_eq("cell untouched", s.cell.h, r.h)


@contract("P09", "nve-reversible", NVE + ["ipi/engine/normalmodes.py:NormalModes.free_qstep"], limit=200, tol=1e-5)
def _rev(ctx):
    """flipping all momenta after any number of steps and repeating them returns to the start, exactly"""
    nb = ctx.choice("nbeads", [1, 2, 3])
    prop = ctx.choice("propagator", ["exact", "cayley", "bab"] if nb == 2 else (["exact", "bab"] if nb == 3 else ["exact"]))
    nmts = ctx.choice("nmts", [(1,), (2,), (3,), (2, 2), (1, 3), (3, 1, 2)] if nb == 1 else
                      ([(1,), (2,), (1, 2)] if prop == "exact" else [(1,)]))
    fixcom = ctx.choice("fixcom", [False, True] if nmts in ((1,), (1, 2)) and prop == "exact" and nb < 3 else [False])
    s = build(ctx, nmts, nbeads=nb, propagator=prop, fixcom=fixcom, dt=ctx.real("dt", pos=True) / 16)
    q0, p0 = val(s.beads.q), val(s.beads.p)
    nst = ctx.choice("steps", [1, 2] if nb == 1 and len(nmts) == 1 and not fixcom else [1])
    if fixcom:
        _make_invariant(ctx, s)     # translationally invariant forces: the projection then never acts
    for _ in range(nst):
        s.motion.step()
    s.beads.p[:] = -val(s.beads.p)
    for _ in range(nst):
        s.motion.step()
    ctx.ensure_eq("positions", s.beads.q, q0)
    ctx.ensure_eq("momenta", -val(s.beads.p), p0)


def _make_invariant(ctx, s):
    np = ctx.np
    for ff in s.fflist.values():
        old = ff.value

        def value(q, h, old=old):
            u, f, v = old(q, h)
            f = f.copy()
            n = s.natoms
            for k in range(3):
                f[k::3] = f[k::3] - f[k::3].sum() / n
            return u, f, v
        ff.value = value
    s.beads._q.taint(taintme=False)


@contract("P09", "nvt-splitting", NVE + [D + "NVTIntegrator.step", D + "NVTIntegrator.tstep"], limit=200)
def _nvt(ctx):
    """OBABO: thermostat half step, nested Verlet step, thermostat half step; BAOAB: one full thermostat step exactly in
    the middle of the same symmetric sequence; the thermostat is applied for one time step in total"""
    np = ctx.np
    nb = ctx.choice("nbeads", [1, 2])
    split = ctx.choice("splitting", ["obabo", "baoab"])
    nmts = ctx.choice("nmts", [(1,), (2,), (3,), (2, 2), (1, 2), (3, 3), (2, 3)] if nb == 1 else [(1,)])
    tau = ctx.real("tau", pos=True)
    prng = StubPRNG(ctx)
    th = ipi.engine.thermostats.ThermoLangevin(tau=tau)
    s = build(ctx, nmts, nbeads=nb, mode="nvt", splitting=split, thermostat=th, prng=prng)
    s.ctx = ctx
    r = Ref(s, nmts)
    s.motion.step()
    draws = [val(d) for d in prng.draws]
    kt = s.temp * nb

    def O(t, xi):
        T = np.exp(-t / tau)
        S = np.sqrt(kt * (1 - T * T))
        r.p = r.p * T + xi.reshape(r.p.shape) * np.sqrt(r.m3) * S
    if split == "obabo":
        ctx.ensure_eq("number of thermostat applications", len(draws), 2)
        O(s.dt / 2, draws[0])
        r.prop(0, s.dt)
        O(s.dt / 2, draws[1])
    else:
        ctx.ensure_eq("number of thermostat applications", len(draws), 1)
        # the flat symmetric sequence, with O inserted at its midpoint
        ops = []

        def flat(lev, t):
            n = nmts[lev]
            for i in range(n):
                ops.append(("k", lev, t / n / 2))
                if lev == len(nmts) - 1:
                    ops.append(("d", 0, t / n / 2))
                    ops.append(("d", 0, t / n / 2))
                else:
                    flat(lev + 1, t / n)
                ops.append(("k", lev, t / n / 2))
        flat(0, s.dt)
        half = len(ops) // 2
        for i, (o, lev, t) in enumerate(ops):
            if i == half:
                O(s.dt, draws[0])
            if o == "k":
                r.kick(lev, t)
            else:
                hdrift(r, t)
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)


def hdrift(r, t):
    """free evolution for t in one go"""
    np = r.np
    if r.n == 1:
        r.q = r.q + r.p / r.m3 * t
        return
    x, y = np.dot(r.C, r.q), np.dot(r.C, r.p)
    nx, ny = x.copy(), y.copy()
    nx[0] = x[0] + y[0] / r.m3[0] * t
    for k in range(1, r.n):
        c, sn = np.cos(r.w[k] * t), np.sin(r.w[k] * t)
        nx[k] = x[k] * c + y[k] / (r.m3[0] * r.w[k]) * sn
        ny[k] = y[k] * c - x[k] * (r.m3[0] * r.w[k]) * sn
    r.q, r.p = np.dot(r.C.T, nx), np.dot(r.C.T, ny)


@contract("P09", "constrained-centroid", [D + "NVTCCIntegrator.step", D + "NVTCCIntegrator.pstep"], limit=120)
def _cc(ctx):
    """with a constrained centroid the centroid never moves and its momentum is zero; the internal modes get one
    ordinary step, bias forces included"""
    np = ctx.np
    nb = ctx.choice("nbeads", [1, 2, 3])
    nmts = ctx.choice("nmts", [(1,), (2,)])       # there is a single level, integrated in one go
    ffs = ffs_for(ctx, 1)
    ffs["bias"] = OpaqueFF(ctx, "bias")
    bw = ctx.real("bw") if ctx.choice("bias", [False, True]) else None
    if bw is not None:
        ctx.assume(bw != 0)
    s = make_system(ctx, nmts=nmts, ffs=ffs, comps=comps_for(1), nbeads=nb, mode="nvt-cc", prng=ZeroPRNG(ctx),
                    bcomp=[fcomp("bias")] if bw is not None else None, bweights=np.array([bw] if bw is not None else []))
    s.ctx = ctx
    r = Ref(s, (1,))

    def extra(q):
        f = np.zeros(q.shape)
        for b in range(nb):
            f[b] = f[b] + bw * ffs["bias"].value(q[b], r.h)[1]
        return f
    if bw is not None:
        r.extra = extra
    q0 = val(s.nm.qnm)[0]
    s.motion.step()
    ctx.ensure_eq("centroid position", s.nm.qnm[0], q0)
    ctx.ensure_eq("centroid momentum", s.nm.pnm[0], 0 * q0)

    def project():
        c = r.p.sum(axis=0) / nb
        r.p = r.p - c
    project()
    r.kick(0, s.dt / 2)
    project()
    if nb > 1:
        for _ in range(nmts[0]):
            r.drift(s.dt / nmts[0])
    r.kick(0, s.dt / 2)
    project()
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)


@contract("P09", "constrained-centroid-books", [D + "NVTCCIntegrator.step", D + "NVTCCIntegrator.pstep", D + "DummyIntegrator.pconstraints"], limit=120)
def _ccbook(ctx):
    """with a constrained centroid the conserved quantity changes only by the error of the Verlet part: whatever the thermostats add, for any
    noise, and what the constraint removes is booked"""
    np = ctx.np
    nb = ctx.choice("nbeads", [1, 2, 3])
    tau = ctx.real("tau", pos=True)
    prng = StubPRNG(ctx)
    s = build(ctx, (1,), nbeads=nb, mode="nvt-cc", thermostat=ipi.engine.thermostats.ThermoLangevin(tau=tau), prng=prng)
    s.ctx = ctx
    r = Ref(s, (1,))
    e0 = val(s.ensemble.econs)
    s.motion.step()
    draws = [val(d) for d in prng.draws]
    ctx.ensure_eq("thermostat applications", len(draws), 2)

    def O(xi):
        T = np.exp(-s.dt / 2 / tau)
        r.p = r.p * T + xi.reshape(r.p.shape) * np.sqrt(r.m3) * np.sqrt(s.temp * nb * (1 - T * T))

    def project():
        r.p = r.p - r.p.sum(axis=0) / nb

    def H():
        u = 0.0
        for b in range(nb):
            u = u + s.fflist["ff0"].value(r.q[b], r.h)[0] + 0.5 * (r.p[b] ** 2 / r.m3[b]).sum()
            d = r.q[b] - r.q[(b + 1) % nb]
            u = u + 0.5 * (s.temp * nb) ** 2 * (r.m3[b] * d * d).sum()
        return u

    O(draws[0])
    project()
    h0 = H()
    r.kick(0, s.dt / 2)
    project()
    if nb > 1:
        r.drift(s.dt)
    r.kick(0, s.dt / 2)
    project()
    ctx.ensure_eq("conserved quantity", s.ensemble.econs - e0, H() - h0)
    O(draws[1])
    project()
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)


@contract("P09", "suzuki-chin-step", [D + "SCIntegrator." + x for x in ("bind", "pstep", "step")] + NVE, limit=200, tol=1e-6)
def _sc(ctx):
    """Suzuki-Chin dynamics: the force-squared part is applied for half a step outside everything, the rest is the nested Verlet sequence under the
    forces weighted 2/3 and 4/3 on even and odd beads, bias forces come with full weight in the outer level, and the conserved quantity counts the
    energies these forces derive from"""
    from checks.p06 import LinearFF
    import contextlib
    import ipi.engine.forces as FO
    np = ctx.np
    nb = 2
    nmts = ctx.choice("nmts", [(1,), (2,), (1, 2), (2, 2)])
    bias = ctx.choice("bias", [False, True])
    split = ctx.choice("splitting", ["obabo", "baoab"])
    L = len(nmts)
    al = 0.25
    ffs = {"ff%d" % i: OpaqueFF(ctx, "ff%d" % i) if ctx.sym else LinearFF(ctx, "ff%d" % i, ctx.real("k%d" % i, pos=True)) for i in range(L)}
    ffs["bias"] = OpaqueFF(ctx, "bias")

    def squared(q):
        return ctx.opaque("squared", [q], shape=q.shape)

    # the force-squared force is under contract in P06 (it is minus the gradient of the force-squared energy); in the proof it is an arbitrary function
    def stub(self, index):
        val(self.f), val(self.pots)
        return [squared(val(self.beads.q)) / L, np.zeros((nb, 3, 3))]

    st = contextlib.ExitStack()
    if ctx.sym:
        st.enter_context(patched(FO.Forces, forcesvirs_4th_order=stub))
    with st:
        _scrun(ctx, ffs, nmts, bias, split, al, squared)


def _scrun(ctx, ffs, nmts, bias, split, al, squared):
    np = ctx.np
    nb, L = 2, len(nmts)
    s = make_system(ctx, natoms=1 if ctx.sym else 2, nmts=nmts, ffs=ffs, comps=comps_for(L), nbeads=nb, mode="sc", splitting=split,
                    prng=ZeroPRNG(ctx), bcomp=[fcomp("bias")] if bias else None, bweights=np.array([1.0] if bias else []),
                    dt=ctx.real("dt", pos=True) / 16)
    s.ctx = ctx
    s.forces.alpha = al
    r = Ref(s, nmts)
    plain = r.force
    w2 = (s.temp * nb) ** 2
    c1 = [2.0 / 3.0, 4.0 / 3.0]
    a = [al / w2 / 9.0, (1 - al) / w2 / 9.0]

    def force(lev):
        f = plain(lev)
        for b in range(nb):
            f[b] = f[b] * c1[b]
            if bias and lev == 0:
                f[b] = f[b] + ffs["bias"].value(r.q[b], r.h)[1]
        return f

    def outer():
        if ctx.sym:
            g = squared(r.q)
            for b in range(nb):
                r.p[b] = r.p[b] + a[b] * g[b] * s.dt / 2
            return
        K = sum(ffs["ff%d" % i].kk for i in range(L)) * r.h[0, 0]
        for b in range(nb):
            r.p[b] = r.p[b] - a[b] * 2 * K * K * r.q[b] / r.m3[b] * s.dt / 2

    u = val(s.ensemble.eens)
    for b in range(nb):
        f = np.zeros(r.q[b].shape)
        for i in range(L):
            v = ffs["ff%d" % i].value(r.q[b], r.h)
            u = u + c1[b] * v[0]
            f = f + v[1]
        u = u + a[b] * (f * f / r.m3[b]).sum()
        if bias:
            u = u + ffs["bias"].value(r.q[b], r.h)[0]
        d = r.q[b] - r.q[(b + 1) % nb]
        u = u + 0.5 * w2 * (r.m3[b] * d * d).sum() + 0.5 * (r.p[b] * r.p[b] / r.m3[b]).sum()
    ctx.ensure_eq("conserved quantity", s.ensemble.econs, u)
    r.force = force
    r.p = r.p.copy()
    outer()
    r.prop(0, s.dt)
    outer()
    s.motion.step()
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)


@contract("P09", "bias-in-outer-level", NVE + ["ipi/engine/ensembles.py:Ensemble.bind"], limit=120)
def _bias(ctx):
    """bias potentials and Hamiltonian weights act in the dynamics with the weights that enter the conserved energy"""
    np = ctx.np
    kind = ctx.choice("kind", ["bias", "hweights", "both", "none"])
    nmts = ctx.choice("nmts", [(1,), (1, 2)])
    nb = ctx.choice("nbeads", [1, 2])
    L = len(nmts)
    ffs = ffs_for(ctx, L)
    ffs["bias"] = OpaqueFF(ctx, "bias")
    bw = []
    if kind in ("bias", "both"):
        bw = [ctx.real("bw")] if ctx.choice("bias weight", ["nonzero", "zero"]) == "nonzero" else [0.0]
        if not isinstance(bw[0], float) or bw[0] != 0:
            ctx.assume(bw[0] != 0)
    hw = None
    if kind in ("hweights", "both"):
        one = ctx.choice("unit weights", [[], [0], [1]] if L > 1 else [[]])
        hw = np.array([1.0 if i in one else ctx.real("hw%d" % i) for i in range(L)])
        for i in range(L):
            if i not in one:
                ctx.assume(hw[i] > 1.001 if ctx.choice("sign", [0, 1]) else hw[i] < 0.999)
    s = make_system(ctx, nmts=nmts, ffs=ffs, comps=comps_for(L), nbeads=nb,
                    bcomp=[fcomp("bias")] if bw else None, bweights=np.array(bw), hweights=hw)
    s.ctx = ctx
    r = Ref(s, nmts)

    def extra(q):
        f = np.zeros(q.shape)
        for b in range(nb):
            if bw:
                f[b] = f[b] + bw[0] * ffs["bias"].value(q[b], r.h)[1]
            if hw is not None:
                for i in range(L):
                    f[b] = f[b] + (hw[i] - 1) * ffs["ff%d" % i].value(q[b], r.h)[1]
        return f
    r.extra = extra
    # econs counts the same energies
    u = 0.0
    for b in range(nb):
        q = val(s.beads.q)[b]
        for i in range(L):
            u = u + (hw[i] if hw is not None else 1.0) * ffs["ff%d" % i].value(q, r.h)[0]
        if bw:
            u = u + bw[0] * ffs["bias"].value(q, r.h)[0]
    ctx.ensure_eq("potential in the conserved quantity", s.forces.pot + s.ensemble.bias.pot, u)
    r.prop(0, s.dt)
    s.motion.step()
    ctx.ensure_eq("positions", s.beads.q, r.q)
    ctx.ensure_eq("momenta", s.beads.p, r.p)


@contract("P09", "conserved-quantity-definition", ["ipi/engine/ensembles.py:Ensemble.get_econs",
                                                   "ipi/engine/ensembles.py:Ensemble.get_lpens"], limit=90)
def _econs(ctx):
    """conserved energy = kinetic + spring + potential + bias + thermostat + recorded exchanged energy; the ensemble
    log-probability is minus the corresponding Hamiltonian over P kB T"""
    np = ctx.np
    nb = ctx.choice("nbeads", [1, 2, 3])
    th = ipi.engine.thermostats.ThermoLangevin(tau=ctx.real("tau", pos=True), ethermo=ctx.real("eth"))
    s = build(ctx, (1,), nbeads=nb, mode="nvt", thermostat=th)
    s.ensemble.eens = ctx.real("eens")
    q, p, m3, h = val(s.beads.q), val(s.beads.p), val(s.beads.m3), val(s.cell.h)
    u = 0.0
    w2 = (s.temp * nb) ** 2
    for b in range(nb):
        u = u + s.fflist["ff0"].value(q[b], h)[0]
        u = u + 0.5 * (p[b] ** 2 / m3[b]).sum()
        if nb > 1:
            d = q[b] - q[(b + 1) % nb]
            u = u + 0.5 * w2 * (m3[b] * d * d).sum()
    ctx.ensure_eq("conserved energy", s.ensemble.econs, u + th.ethermo + s.ensemble.eens)
    ctx.ensure_eq("log probability", s.ensemble.lpens * s.temp * nb, -u)
