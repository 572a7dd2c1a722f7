"""P08: free ring-polymer evolution, spring energy and forces, mode masses and frequencies."""
from pyvc.contracts import contract
from checks.build import make_system, val, ZeroPRNG

F = "ipi/engine/normalmodes.py:NormalModes."
ASSUMPTIONS = ["bead numbers are enumerated (1..6), atom number, masses, coordinates, temperature and time step are symbolic"]

MODES = ["rpmd", "manual", "pa-cmd", "wmax-cmd"]


def freqs(ctx, mode, n):
    if mode == "manual":
        return [ctx.real("w%d" % i, pos=True) for i in range(n - 1)]
    if mode == "pa-cmd":
        return [ctx.real("w0", pos=True)]
    if mode == "wmax-cmd":
        return [ctx.real("w0", pos=True), ctx.real("w1", pos=True)]
    return []


def mk(ctx, n, mode="rpmd", propagator="exact", **kw):
    return make_system(ctx, nbeads=n, nm_mode=mode, freqs=ctx.np.array(freqs(ctx, mode, n)), propagator=propagator, **kw)


@contract("P08", "spring-energy-and-force", [F + "get_vspring_and_fspring", F + "get_omegan", F + "get_omegan2", F + "get_omegak"])
def _spring(ctx):
    """springs between neighbouring beads only, constant m (P kB T / hbar)^2, forces = minus gradient; closed rings"""
    n = ctx.choice("n", [1, 2, 3, 4, 6])
    s = mk(ctx, n)
    q, m = val(s.beads.q), val(s.beads.m3)
    w2 = (s.temp * n) ** 2
    ctx.ensure_eq("omegan", s.nm.omegan ** 2, w2)
    ctx.ensure_eq("omegan2", s.nm.omegan2, w2)
    v = 0.0
    f = ctx.np.zeros((n, 3 * s.natoms))
    for b in range(n):
        c = (b + 1) % n
        if c != b:
            d = q[b] - q[c]
            v = v + 0.5 * w2 * (m[0] * d * d).sum()
            f[b] = f[b] - m[0] * d * w2
            f[c] = f[c] + m[0] * d * w2
    ctx.ensure_eq("vspring", s.nm.vspring, v)
    ctx.ensure_eq("fspring", s.nm.fspring, f)


@contract("P08", "spring-energy-open", [F + "get_vspring_and_fspring", F + "get_o_omegak"])
def _spring_open(ctx):
    """an open path lacks exactly the spring that joins its two ends, in energy and in forces"""
    n = ctx.choice("n", [2, 3, 4])
    op = ctx.choice("open", [[0], [1], [0, 1]])
    s = mk(ctx, n, natoms=2, open_paths=op)
    q, m = val(s.beads.q), val(s.beads.m)
    w2 = (s.temp * n) ** 2
    v = 0.0
    f = ctx.np.zeros((n, 6))
    for a in range(2):
        sl = slice(3 * a, 3 * a + 3)
        for b in range(n if a not in op else n - 1):
            c = (b + 1) % n
            d = q[b, sl] - q[c, sl]
            v = v + 0.5 * w2 * m[a] * (d * d).sum()
            f[b, sl] = f[b, sl] - m[a] * d * w2
            f[c, sl] = f[c, sl] + m[a] * d * w2
    ctx.ensure_eq("vspring", s.nm.vspring, v)
    ctx.ensure_eq("fspring", s.nm.fspring, f)


@contract("P08", "mode-masses", [F + "get_nmm", F + "get_o_nmm", F + "get_dynwk", F + "get_dynm3"])
def _masses(ctx):
    """requested internal-mode frequencies are the ones the fictitious masses produce, for closed and open paths"""
    n = ctx.choice("n", [2, 3, 4])
    mode = ctx.choice("mode", MODES)
    op = ctx.choice("open", [[], [1]])
    s = mk(ctx, n, mode, natoms=2, open_paths=op)
    nm = s.nm
    wf = val(nm.nm_freqs)
    ctx.ensure_eq("centroid mass", nm.nm_factor[0], 1.0)
    for om, fac in ((nm.omegak, nm.nm_factor), (nm.o_omegak, nm.o_nm_factor)):
        om, fac = val(om), val(fac)
        for b in range(1, n):
            if mode == "rpmd":
                ctx.ensure_eq("rpmd masses are physical", fac[b], 1.0)
            elif mode == "manual":
                ctx.ensure_eq("manual frequency", om[b] ** 2, wf[b - 1] ** 2 * fac[b])
            elif mode == "pa-cmd":
                ctx.ensure_eq("pa-cmd frequency", om[b] ** 2, wf[0] ** 2 * fac[b])
            else:
                # scaled frequency is increasing towards wmax and equals wtarget for the first mode
                ctx.ensure_eq("wmax-cmd frequency", fac[b] * wf[1] ** 2 * (om[1] ** 2 + wf[0] ** 2), om[1] ** 2 * (om[b] ** 2 + wf[0] ** 2))
    for b in range(n):
        ctx.ensure_eq("scaled frequency", nm.dynomegak[b] ** 2 * nm.nm_factor[b], nm.omegak[b] ** 2)
        for a in range(2):
            fac = nm.o_nm_factor if a in op else nm.nm_factor
            for k in range(3):
                ctx.ensure_eq("dynamical mass", nm.dynm3[b, 3 * a + k], s.beads.m[a] * fac[b])


def mode_state(s):
    return val(s.nm.qnm), val(s.nm.pnm)


@contract("P08", "free-step-conserves-and-reverses",
          [F + "free_qstep", F + "get_prop_pq", F + "get_prop_pq_ms"], limit=150)
def _free(ctx):
    """free evolution for one step, any mode-mass scaling, exact or Cayley: conserves every mode's energy, leaves the
    centroid alone, undoes itself when momenta are flipped, and preserves phase-space volume"""
    n = ctx.choice("n", [1, 2, 3, 4])
    mode = ctx.choice("mode", MODES)
    prop = ctx.choice("propagator", ["exact", "cayley"])
    if mode != "rpmd" and n > 2:
        n = 3
    s = mk(ctx, n, mode, prop)
    nm = s.nm
    m3, fac, om = val(s.beads.m3), val(nm.nm_factor), val(nm.omegak)
    q0, p0 = mode_state(s)
    nm.free_qstep()
    q1, p1 = mode_state(s)
    ctx.ensure_eq("centroid position", q1[0], q0[0])
    ctx.ensure_eq("centroid momentum", p1[0], p0[0])
    for b in range(1, n):
        e0 = p0[b] ** 2 / (m3[b] * fac[b]) + m3[b] * om[b] ** 2 * q0[b] ** 2
        e1 = p1[b] ** 2 / (m3[b] * fac[b]) + m3[b] * om[b] ** 2 * q1[b] ** 2
        ctx.ensure_eq("energy of mode %d" % b, e1, e0)
    ctx.ensure_eq("beads follow modes", s.beads.q.sum(axis=0), val(s.beads.q).sum(axis=0))
    # the opposite path
    nm.pnm[:] = -p1
    nm.free_qstep()
    q2, p2 = mode_state(s)
    ctx.ensure_eq("reversed position", q2, q0)
    ctx.ensure_eq("reversed momentum", -p2, p0)


@contract("P08", "exact-propagator-is-the-flow", [F + "free_qstep", F + "get_prop_pq", F + "get_o_prop_pq"], limit=120)
def _flow(ctx):
    """the exact propagator is the harmonic flow for the step length in force: rotation by w dt"""
    np = ctx.np
    n = ctx.choice("n", [2, 3])
    mode = ctx.choice("mode", ["rpmd", "manual"])
    op = ctx.choice("open", [[], [1]])
    s = mk(ctx, n, mode, "exact", natoms=2, open_paths=op)
    nm = s.nm
    t = val(nm.dt)
    q0, p0 = mode_state(s)
    nm.free_qstep()
    q1, p1 = mode_state(s)
    for b in range(1, n):
        for a in range(2):
            w0, fac = (nm.o_omegak, nm.o_nm_factor) if a in op else (nm.omegak, nm.nm_factor)
            M = s.beads.m[a] * fac[b]
            w = w0[b] / np.sqrt(fac[b])
            c, sn = np.cos(w * t), np.sin(w * t)
            sl = slice(3 * a, 3 * a + 3)
            ctx.ensure_eq("position", q1[b, sl], q0[b, sl] * c + p0[b, sl] / (M * w) * sn)
            ctx.ensure_eq("momentum", p1[b, sl], p0[b, sl] * c - M * w * sn * q0[b, sl])


@contract("P08", "free-step-open", [F + "free_qstep", F + "get_o_prop_pq", F + "get_o_prop_pq_ms"], limit=120)
def _open(ctx):
    """the same conservation and reversal with open paths, exact and Cayley"""
    n = ctx.choice("n", [2, 3])
    mode = ctx.choice("mode", ["rpmd", "pa-cmd"])
    prop = ctx.choice("propagator", ["exact", "cayley"])
    op = ctx.choice("open", [[0], [1], [0, 1]])
    s = mk(ctx, n, mode, prop, natoms=2, open_paths=op)
    nm = s.nm
    q0, p0 = mode_state(s)
    nm.free_qstep()
    q1, p1 = mode_state(s)
    ctx.ensure_eq("centroid", q1[0], q0[0])
    for a in range(2):
        w, fac = (val(nm.o_omegak), val(nm.o_nm_factor)) if a in op else (val(nm.omegak), val(nm.nm_factor))
        m = s.beads.m[a]
        for b in range(1, n):
            for k in range(3 * a, 3 * a + 3):
                e0 = p0[b, k] ** 2 / (m * fac[b]) + m * w[b] ** 2 * q0[b, k] ** 2
                e1 = p1[b, k] ** 2 / (m * fac[b]) + m * w[b] ** 2 * q1[b, k] ** 2
                ctx.ensure_eq("mode energy", e1, e0)
    nm.pnm[:] = -p1
    nm.free_qstep()
    q2, p2 = mode_state(s)
    ctx.ensure_eq("reversed position", q2, q0)
    ctx.ensure_eq("reversed momentum", -p2, p0)


@contract("P08", "cartesian-propagator", [F + "free_babstep", F + "free_qstep"], limit=120)
def _bab(ctx):
    """the Cartesian propagator: together with the centroid drift it is a reversible velocity-Verlet step under the
    springs alone, with the requested number of substeps"""
    n = ctx.choice("n", [2, 3, 4])
    nmts = ctx.choice("nmts", [1, 2, 3] if n < 4 else [1])
    s = mk(ctx, n, "rpmd", "bab", nm_nmts=nmts)
    nm, it = s.nm, s.motion.integrator
    q0, p0 = val(s.beads.q), val(s.beads.p)
    m3 = val(s.beads.m3)
    it.qcstep()
    nm.free_qstep()
    q1, p1 = val(s.beads.q), val(s.beads.p)
    w2 = (s.temp * n) ** 2
    t = val(nm.dt) / nmts
    rq, rp = q0, p0

    def f(q):
        g = ctx.np.zeros(q0.shape)
        for b in range(n):
            c = (b + 1) % n
            d = (q[b] - q[c]) * m3[0] * w2
            g[b] = g[b] - d
            g[c] = g[c] + d
        return g
    for _ in range(nmts):
        rp = rp + f(rq) * (t / 2)
        rq = rq + rp / m3 * t
        rp = rp + f(rq) * (t / 2)
    ctx.ensure_eq("positions", q1, rq)
    ctx.ensure_eq("momenta", p1, rp)


@contract("P08", "kinetic-energy", [F + "get_kins", F + "get_kin", F + "get_kstress"])
def _kin(ctx):
    """fictitious kinetic energy and kinetic stress use the dynamical masses; for plain RPMD they are the bead sums"""
    np = ctx.np
    n = ctx.choice("n", [1, 2, 3, 4])
    mode = ctx.choice("mode", MODES if n > 1 else ["rpmd", "pa-cmd", "manual"])
    op = ctx.choice("open", [[], [1]] if n > 1 else [[]])
    s = mk(ctx, n, mode, **(dict(natoms=2, open_paths=op) if op else {}))
    nm = s.nm
    pn, m3, fac = val(nm.pnm), val(s.beads.m3), val(nm.nm_factor)
    if op:
        # the masses of an open path follow from its own frequencies
        m3 = m3.copy()
        of = val(nm.o_nm_factor)
        for b in range(n):
            for a in op:
                m3[b, 3 * a:3 * a + 3] = m3[b, 3 * a:3 * a + 3] * of[b] / fac[b]
    tot = 0.0
    K = np.zeros((3, 3))
    for b in range(n):
        k = 0.5 * (pn[b] ** 2 / m3[b]).sum() / fac[b]
        ctx.ensure_eq("kins", nm.kins[b], k)
        tot = tot + k
    ctx.ensure_eq("kin", nm.kin, tot)
    ks = val(nm.kstress)
    ctx.ensure_eq("kstress trace", ks[0, 0] + ks[1, 1] + ks[2, 2], 2 * tot)
    for i in range(3):
        for j in range(3):
            e = 0.0
            for b in range(n):
                e = e + (pn[b, i::3] * pn[b, j::3] / m3[b, i::3]).sum() / fac[b]
            ctx.ensure_eq("kstress %d%d" % (i, j), ks[i, j], e)
    if mode == "rpmd":
        p = val(s.beads.p)
        ctx.ensure_eq("bead kinetic energy", nm.kin, 0.5 * (p * p / m3).sum())
