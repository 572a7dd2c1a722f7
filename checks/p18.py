"""P18: bosonic exchange."""
import itertools
import math

import numpy as _np

from pyvc.contracts import contract
from checks.build import make_system, val, grad
from checks import p22 as EST
from ipi.utils.units import Constants
from ipi.utils.exchange import ExchangePotential

T = "ipi/utils/exchange.py:ExchangePotential."
N_ = "ipi/engine/normalmodes.py:NormalModes."
ASSUMPTIONS = ["at least two beads (a classical simulation has no springs)", "1 to 4 bosons and 2 to 4 beads enumerated"]
KB, HBAR = Constants.kb, Constants.hbar


def setup(ctx, cases, temp=None, **kw):
    nat, bos, P = ctx.choice("case", cases)
    s = make_system(ctx, natoms=nat, nbeads=P, bosons=_np.array(bos), propagator="bab", temp=temp, **kw)
    m = val(s.beads.m)
    for i in bos:
        m[i] = m[bos[0]]
    s.beads.m[:] = m
    s.m = m
    s.bos, s.P, s.q = bos, P, val(s.beads.q)
    s.w2 = (P * KB * s.temp / HBAR) ** 2
    s.bP = 1.0 / (P * KB * s.temp)
    return s


def cycle(s, q, u, v):
    """spring energy of the single ring running through bosons u..v in order"""
    ids = s.bos[u:v + 1]
    m = s.m[s.bos[0]]
    e = 0.0
    for k, i in enumerate(ids):
        nxt = ids[(k + 1) % len(ids)]
        for c in range(3):
            for b in range(s.P - 1):
                e = e + (q[b + 1, 3 * i + c] - q[b, 3 * i + c]) ** 2
            e = e + (q[0, 3 * nxt + c] - q[s.P - 1, 3 * i + c]) ** 2
    return 0.5 * m * s.w2 * e


def weights(ctx, s, q, shift=None):
    """W_m = 1/m sum_u W_u exp(-beta_P E(u..m-1)), multiplied by exp(beta_P shift) overall is not needed here"""
    np = ctx.np
    n = len(s.bos)
    W = [1.0]
    for m in range(1, n + 1):
        W.append(sum(W[u] * np.exp(-s.bP * cycle(s, q, u, m - 1)) for u in range(m)) * (1.0 / m))
    return W


def segments(n):
    """all ways of cutting 0..n-1 into consecutive cycles, with weight and cycle lengths"""
    if n == 0:
        return [([], 1.0)]
    r = []
    for u in range(n):
        for seg, w in segments(u):
            r.append((seg + [(u, n - 1)], w / n))
    return r


SMALL = [(1, [0], 2), (2, [0, 1], 2), (3, [2, 0], 3), (2, [1], 3)]
MORE = SMALL + [(3, [0, 1, 2], 2), (3, [0, 1, 2], 4), (5, [1, 3, 4, 0], 3)]


@contract("P18", "energies of exchange rings", [T + "get_cycle_energies", T + "get_boson_mass", T + "bind"], samples=(14, 60))
def cycles(ctx):
    """The energy of every ring of consecutive bosons is that of its harmonic springs."""
    s = setup(ctx, MORE)
    E = val(s.nm.exchange_potential.cycle_energies)
    n = len(s.bos)
    for u in range(n):
        for v in range(u, n):
            ctx.ensure_eq("ring %d-%d" % (u, v), E[u, v], cycle(s, s.q, u, v))
    # after a move
    q2 = ctx.array("q2", (s.P, 3 * s.natoms))
    s.beads.q[:] = q2
    E = val(s.nm.exchange_potential.cycle_energies)
    for u in range(n):
        for v in range(u, n):
            ctx.ensure_eq("ring after a move %d-%d" % (u, v), E[u, v], cycle(s, q2, u, v))


@contract("P18", "exchange potential", [T + "get_prefix_V", N_ + "get_vspring_and_fspring"], samples=(20, 80), limit=120)
def potential(ctx):
    """The Boltzmann factor of the spring potential is the average over the exchange rings, and distinguishable atoms keep their own springs."""
    np = ctx.np
    s = setup(ctx, MORE if not ctx.sym else SMALL + [(3, [0, 1, 2], 2)])
    W = weights(ctx, s, s.q)
    pv = val(s.nm.exchange_potential.prefix_V)
    for k in range(len(s.bos) + 1):
        ctx.ensure_eq("weight %d" % k, np.exp(-s.bP * pv[k]), W[k])
    rest = [i for i in range(s.natoms) if i not in s.bos]
    ring = sum(0.5 * s.m[i] * s.w2 * (s.q[b, 3 * i + c] - s.q[b - 1, 3 * i + c]) ** 2 for i in rest for b in range(s.P) for c in range(3))
    ctx.ensure_eq("total spring energy", s.nm.vspring, pv[len(s.bos)] + ring)


@contract("P18", "exchange forces", [T + "get_vspring_and_fspring", T + "get_suffix_V", N_ + "get_vspring_and_fspring"], samples=(10, 40), limit=240,
          tol=2e-6)
def forces(ctx):
    """The spring forces of bosons are minus the gradient of the exchange potential; distinguishable atoms feel only their own springs."""
    np = ctx.np
    s = setup(ctx, MORE if not ctx.sym else SMALL + [(3, [0, 1, 2], 2)])
    n = len(s.bos)
    F = val(s.nm.fspring)
    if ctx.sym:
        W = weights(ctx, s, s.q)[n]
        from pyvc import sym
        for i in s.bos:
            for c in range(3):
                for b in range(s.P):
                    d = sym.diff(W, s.q[b, 3 * i + c], {})
                    ctx.ensure_eq("force %d %d %d" % (b, i, c), F[b, 3 * i + c] * W * s.bP, d)
    else:
        def V(x):
            q = x.reshape(s.P, -1)
            E = [[cycle(s, q, u, v) for v in range(n)] for u in range(n)]
            L = [0.0]
            for m in range(1, n + 1):
                t = [L[u] - s.bP * E[u][m - 1] for u in range(m)]
                k = max(t)
                L.append(k + math.log(sum(math.exp(x - k) for x in t) / m))
            return -L[n] / s.bP
        g = grad(ctx, V, s.q.reshape(-1)).reshape(s.P, -1)
        sc = max(1.0, abs(F).max())
        for i in s.bos:
            ctx.ensure_eq("force on boson %d" % i, F[:, 3 * i:3 * i + 3] / sc, -g[:, 3 * i:3 * i + 3] / sc)
    for i in range(s.natoms):
        if i not in s.bos:
            for c in range(3):
                for b in range(s.P):
                    j = 3 * i + c
                    ctx.ensure_eq("distinguishable", F[b, j], -s.m[i] * s.w2 * (2 * s.q[b, j] - s.q[b - 1, j] - s.q[(b + 1) % s.P, j]))


@contract("P18", "exchange estimators", [T + "get_kinetic_td", T + "get_distinct_probability", T + "get_longest_probability", T + "get_fermionic_sign",
                                         "ipi/engine/properties.py:Properties.get_kintd"], samples=(20, 80), limit=240, tol=1e-6)
def estimators(ctx):
    """Kinetic energy, exchange probabilities and fermionic sign are averages over the exchange rings with their weights."""
    np = ctx.np
    s = setup(ctx, MORE if not ctx.sym else SMALL)
    x = s.nm.exchange_potential
    n = len(s.bos)
    E = {(u, v): cycle(s, s.q, u, v) for u in range(n) for v in range(u, n)}
    Z = Ek = Sg = 0.0
    for seg, w in segments(n):
        e = sum(E[c] for c in seg)
        b = w * np.exp(-s.bP * e)
        Z = Z + b
        Ek = Ek + b * e
        Sg = Sg + b * (-1) ** sum(v - u for u, v in seg)
    if not ctx.sym:
        ctx.assume(Z > 1e-250)
    ctx.ensure_eq("kinetic energy", (x.kinetic_td - 1.5 * n * s.P * KB * s.temp) * Z, -Ek / s.P)
    ctx.ensure_eq("distinct", x.distinct_probability * Z, np.exp(-s.bP * sum(E[(u, u)] for u in range(n))) * (1.0 / math.factorial(n)))
    ctx.ensure_eq("longest", x.longest_probability * Z, np.exp(-s.bP * E[(0, n - 1)]))
    ctx.ensure_eq("fermionic sign", x.fermionic_sign * Z, Sg)


@contract("P18", "bosons far apart", [T + "get_prefix_V", T + "get_suffix_V", T + "get_vspring_and_fspring", T + "get_kinetic_td", T + "get_distinct_probability",
                                      T + "get_longest_probability", T + "get_fermionic_sign"], samples=(120, 800), sym=False, tol=1e-6,
          why="about the range of floating-point numbers")
def far(ctx):
    """However unlikely exchange is, the potential, the forces and the estimators are the averages over the exchange rings."""
    scale = ctx.choice("distance", [1.0, 10.0, 100.0, 1e4])
    spread = ctx.choice("spread", [0.01, 1.0, 20.0])
    s = setup(ctx, MORE[1:], temp=ctx.choice("temp", [0.1, 0.001]))
    n = len(s.bos)
    q = s.q * spread
    for k, i in enumerate(s.bos):
        q[:, 3 * i:3 * i + 3] += scale * _np.array([ctx.rng.choice([0.0, 1.0, -1.0, 2.0]) for _ in range(3)])
    s.beads.q[:] = q
    E = {(u, v): cycle(s, q, u, v) for u in range(n) for v in range(u, n)}
    seg = [(w, c, sum(E[x] for x in c)) for c, w in segments(n)]
    low = min(e for _, _, e in seg)
    ws = [w * math.exp(-s.bP * (e - low)) for w, _, e in seg]
    Z = sum(ws)
    big = max(1.0, max(E.values()))

    def gring(u, v):
        g = _np.zeros_like(q)
        ids = s.bos[u:v + 1]
        f = s.m[s.bos[0]] * s.w2
        for k, i in enumerate(ids):
            a, nx = slice(3 * i, 3 * i + 3), ids[(k + 1) % len(ids)]
            for b in range(s.P):
                b2, a2 = (b + 1, a) if b < s.P - 1 else (0, slice(3 * nx, 3 * nx + 3))
                d = f * (q[b2, a2] - q[b, a])
                g[b2, a2] += d
                g[b, a] -= d
        return g
    rest = [i for i in range(s.natoms) if i not in s.bos]
    ring = sum(0.5 * s.m[i] * s.w2 * ((q[:, 3 * i:3 * i + 3] - _np.roll(q, 1, axis=0)[:, 3 * i:3 * i + 3]) ** 2).sum() for i in rest)
    x = s.nm.exchange_potential
    ctx.ensure_eq("potential", s.nm.vspring / big, (low - math.log(Z) / s.bP + ring) / big)
    F = val(s.nm.fspring)
    G = sum(w / Z * sum(gring(*r) for r in c) for w, (_, c, _) in zip(ws, seg) if w > 0)
    fs = max(1.0, abs(G).max())
    # weights lost to rounding of the energies
    loose = s.bP * big * 1e-15 * n * n < 1e-8
    for i in s.bos:
        if loose:
            ctx.ensure_eq("force on boson %d" % i, F[:, 3 * i:3 * i + 3] / fs, -G[:, 3 * i:3 * i + 3] / fs)
        ctx.ensure("finite forces", bool(_np.isfinite(F).all()))
    ek = 1.5 * n * s.P * KB * s.temp - sum(w * e for w, (_, _, e) in zip(ws, seg)) / Z / s.P
    ctx.ensure_eq("kinetic energy", x.kinetic_td / big, ek / big)
    if loose:
        ctx.ensure_eq("distinct", x.distinct_probability, math.exp(-s.bP * (sum(E[(u, u)] for u in range(n)) - low)) / math.factorial(n) / Z)
        ctx.ensure_eq("longest", x.longest_probability, math.exp(-s.bP * (E[(0, n - 1)] - low)) / Z)
        ctx.ensure_eq("sign", x.fermionic_sign, sum(w * (-1) ** sum(v - u for u, v in c) for w, (_, c, _) in zip(ws, seg)) / Z)


@contract("P18", "bosons in the printed kinetic energy", ["ipi/engine/properties.py:Properties.get_kintd", "ipi/engine/properties.py:Properties."
                                                          "_atom_property_distinguishability_well_defined", "ipi/engine/properties.py:Properties.get_kincv"],
          samples=(12, 40), sym=False, why="refusals (exceptions) are part of the clause")
def printed(ctx):
    """The primitive kinetic energy adds bosons and distinguishable atoms; quantities not defined for bosons or for part of them are refused."""
    P = ctx.choice("P", [2, 4])
    bos = ctx.choice("bos", [[0, 2], [1], [0, 1, 2]])
    s = EST.build(ctx, P, bosons=_np.array(bos), propagator="bab")
    m = val(s.beads.m)
    m[:] = m[0]
    s.beads.m[:] = m
    s.m = m
    td = [1.5 * P * s.kT - 0.5 * s.m[i] * s.w2 / P * EST.ring(s, i) for i in range(3)]
    kb = val(s.nm.exchange_potential.kinetic_td)
    rest = [i for i in range(3) if i not in bos]
    ctx.ensure_eq("total", EST.ask(s, "kinetic_td"), kb + sum(td[i] for i in rest))
    for sel in EST.SEL[1:]:
        ids = EST.atoms_of(sel)
        inb = [i for i in ids if i in bos]
        try:
            v = EST.ask(s, "kinetic_td", sel)
            ok = True
        except IndexError:
            ok = False
        if inb and len(inb) < len(bos):
            ctx.ensure("part of the bosons refused", not ok)
        else:
            ctx.ensure("accepted", ok)
            if ok:
                ctx.ensure_eq("selection", v, sum(td[i] for i in ids if i not in bos) + (kb if inb else 0.0))
        try:
            EST.ask(s, "kinetic_cv", sel)
            ok = True
        except IndexError:
            ok = False
        ctx.ensure("centroid virial refused for bosons", ok == (not inb))


@contract("P18", "choice of bosons", [N_ + "resolve_bosons"], samples=(12, 40), sym=False, why="labels and refusals")
def resolve(ctx):
    """Bosons are the atoms named by index or label; unknown ones, and unequal masses, are refused."""
    names = ["H", "O", "H", "D"]

    def mk(b):
        import ipi.engine.beads as B
        s = None
        from checks import build
        orig = build.make_beads

        def mb(*a, **k):
            r = orig(*a, **k)
            r.names[:] = _np.array(names)
            r.m[:] = [1.0, 2.0, 1.0, 1.0]
            return r
        build.make_beads = mb
        try:
            return make_system(ctx, natoms=4, nbeads=2, bosons=b, propagator="bab")
        finally:
            build.make_beads = orig
    for spec, want in (((_np.array(["H"]), "label"), [0, 2]), ((_np.array(["H", "D"]), "label"), [0, 2, 3]), ((_np.array(["3", "0"]), "index"), [3, 0]),
                       ((_np.array([2.0]), "index"), [2])):
        s = mk(spec)
        ctx.ensure("bosons", list(_np.asarray(val(s.nm.bosons))) == want)
        ctx.ensure_eq("mass", s.nm.exchange_potential.boson_m, 1.0)
    for spec in ((_np.array(["X"]), "label"), (_np.array(["4"]), "index"), (_np.array([-1.0]), "index")):
        try:
            mk(spec)
            ok = True
        except ValueError:
            ok = False
        ctx.ensure("refused", not ok)
    s = mk((_np.array([0, 1]), "index"))
    try:
        s.nm.vspring
        ok = True
    except ValueError:
        ok = False
    ctx.ensure("unequal masses refused", not ok)
    for d in (4e-4, -4e-4):
        s = mk((_np.array([0, 2, 3]), "index"))
        s.beads.m[3] = 1.0 + d
        try:
            s.nm.vspring
            ok = True
        except ValueError:
            ok = False
        ctx.ensure("slightly unequal masses refused", not ok)


@contract("P18", "Cartesian ring-polymer step with bosons", [N_ + "free_babstep", N_ + "free_qstep"], samples=(8, 30), tol=1e-7, sym=False,
          why="forces between the half steps are nested exponentials")
def step(ctx):
    """One free step with exchange is a sequence of velocity-Verlet steps under the exchange forces and is undone by reversing momenta."""
    np = ctx.np
    n = ctx.choice("nmts", [1, 3])
    s = setup(ctx, SMALL[1:] + [(4, [3, 1, 2], 3)], nm_nmts=n, temp=0.01, dt=0.5)
    q0, p0 = val(s.beads.q), val(s.beads.p)
    m3 = val(s.beads.m3)
    dt = val(s.nm.dt) / n
    q, p = q0.copy(), p0.copy()

    def force(x):
        s.beads.q[:] = x
        return val(s.nm.fspring)
    for _ in range(n):
        p = p + 0.5 * dt * force(q)
        q = q + dt * p / m3
        p = p + 0.5 * dt * force(q)
    s.beads.q[:] = q0
    s.beads.p[:] = p0

    def free():
        # the centroid has been advanced separately before the ring-polymer step, which takes that back
        s.nm.qnm[0, :] = val(s.nm.qnm)[0] + val(s.nm.pnm)[0] / m3[0] * val(s.nm.dt)
        s.nm.free_qstep()
    free()
    ctx.ensure_eq("momenta", s.beads.p, p)
    ctx.ensure_eq("positions", s.beads.q, q)
    s.beads.p[:] = -val(s.beads.p)
    free()
    ctx.ensure_eq("positions back", s.beads.q, q0)
    ctx.ensure_eq("momenta back", s.beads.p, -p0)
