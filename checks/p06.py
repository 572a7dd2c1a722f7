"""P06: how the answers of the force providers are combined."""
import numpy as _np

from pyvc.contracts import contract
from checks.build import make_system, make_beads, upper_h, val, OpaqueFF, fcomp
import ipi.engine.forces as FO
import ipi.engine.cell
import ipi.engine.beads
from ipi.engine.normalmodes import NormalModes
from ipi.utils.nmtransform import nm_rescale
from ipi.utils.depend import dstrip

F = "ipi/engine/forces.py:"
ASSUMPTIONS = ["force providers are arbitrary functions of positions and cell; contraction and expansion of paths obey their contract (P07)",
               "requests of one force object are gathered by one thread"]


def build(ctx, natoms, P, comps, nff, extras=None, open_paths=None, tag=""):
    """a bound Forces object over nff opaque providers; comps = [(ff, nbeads, weight, mts, interpolate)]"""
    b = make_beads(ctx, natoms, P, suffix=tag, zero_p=True)
    c = ipi.engine.cell.Cell(upper_h(ctx, "h" + tag))
    ffs = {"ff%d" % i: OpaqueFF(ctx, "ff%d" % i, extras=(extras or {}).get(i)) for i in range(nff)}
    fc = [FO.ForceComponent("ff%d" % i, nbeads=n, weight=w, mts_weights=m, interpolate_extras=ie, name="c%d" % k)
          for k, (i, n, w, m, ie) in enumerate(comps)]
    f = FO.Forces()
    f.bind(b, c, fc, ffs, open_paths=[] if open_paths is None else open_paths, output_maker=None)
    return b, c, ffs, f


def tri(v):
    v = v.copy()
    v[1, 0] = v[2, 0] = v[2, 1] = 0.0
    return v


def component(ctx, b, c, ff, n, P, open_paths=()):
    """what one component must give on all P beads, from the provider and the contraction contract"""
    np = ctx.np
    n = P if n == 0 or n > P else n
    rpc = nm_rescale(P, n, open_paths=list(open_paths))
    qc = rpc.b1tob2(val(b.q))
    h = val(c.h)
    u, f, v, x = [], [], [], []
    for i in range(n):
        ui, fi, vi = ff.value(qc[i].copy(), h)
        u.append(ui)
        f.append(fi)
        v.append(tri(vi))
    fa = np.zeros((n, 3 * b.natoms))
    va = np.zeros((n, 3, 3))
    ua = np.zeros(n)
    for i in range(n):
        fa[i], va[i], ua[i] = f[i], v[i], u[i]
    return dict(n=n, u=ua, f=fa, v=va, U=rpc.b2tob1(ua), FF=rpc.b2tob1(fa), V=rpc.b2tob1(va), qc=qc, rpc=rpc)


LAYOUTS = {
    "one": [(0, 0, [1.0])],
    "two": [(0, 0, [1.0]), (1, 0, [1.0])],
    "same-provider": [(0, 0, [1.0]), (0, 0, [1.0])],
    "contracted": [(0, 0, [1.0]), (1, 1, [1.0])],
    "contracted2": [(0, 2, [1.0]), (1, 0, [1.0])],
    "toomany": [(0, 9, [1.0])],
    "mts": [(0, 0, [1.0, 0.0]), (1, 1, [0.0, 1.0])],
    "mts-diff": [(0, 0, [0.0, 1.0]), (1, 0, [1.0, -1.0]), (1, 0, [0.0, 1.0])],
    "mts-frac": [(0, 0, [0.25, 0.5]), (1, 2, [0.5, 1.5])],
}


def weighted(ctx, layout):
    ws = ctx.array("w", (len(layout),))
    for i in range(len(layout)):
        ctx.assume(ws[i] != 0)
    zero = ctx.choice("zero", [None] + (["first"] if len(layout) > 1 else []))
    out = []
    for k, (i, n, m) in enumerate(layout):
        w = 0.0 if zero == "first" and k == 0 else ws[k]
        out.append((i, n, w, m, None))
    return out


def check_totals(ctx, tag, b, c, ffs, f, comps, P, ws=None, open_paths=()):
    np = ctx.np
    U, FF, V = np.zeros(P), np.zeros((P, 3 * b.natoms)), np.zeros((P, 3, 3))
    L = len(comps[0][3])
    lev = [(np.zeros((P, 3 * b.natoms)), np.zeros((P, 3, 3))) for _ in range(L)]
    for k, (i, n, w, m, _) in enumerate(comps):
        w = ws[k] if ws is not None else w
        d = component(ctx, b, c, ffs["ff%d" % i], n, P, open_paths)
        s = sum(m)
        U = U + w * s * d["U"]
        FF = FF + w * s * d["FF"]
        V = V + w * s * d["V"]
        for l in range(L):
            lev[l] = (lev[l][0] + w * m[l] * d["FF"], lev[l][1] + w * m[l] * d["V"])
        for wt in (True, False):
            for ip in (True, False):
                g = w if wt else 1.0
                ctx.ensure_eq("%s component %d energies" % (tag, k), f.pots_component(k, wt, ip), g * (d["U"] if ip else d["u"]))
                ctx.ensure_eq("%s component %d forces" % (tag, k), f.forces_component(k, wt, ip), g * (d["FF"] if ip else d["f"]))
                ctx.ensure_eq("%s component %d virials" % (tag, k), f.virs_component(k, wt, ip), g * (d["V"] if ip else d["v"]))
    ctx.ensure_eq(tag + " energies", val(f.pots), U)
    ctx.ensure_eq(tag + " energy", val(f.pot), U.sum())
    ctx.ensure_eq(tag + " forces", val(f.f), FF)
    ctx.ensure_eq(tag + " virials", val(f.virs), V)
    ctx.ensure_eq(tag + " virial", val(f.vir), V.sum(axis=0))
    tf, tv = np.zeros((P, 3 * b.natoms)), np.zeros((P, 3, 3))
    for l in range(L):
        g = f.mts_forces[l]
        ctx.ensure_eq("%s level %d forces" % (tag, l), val(g.f), lev[l][0])
        ctx.ensure_eq("%s level %d virials" % (tag, l), val(g.virs), lev[l][1])
        ctx.ensure_eq("%s level %d virial" % (tag, l), val(g.vir), lev[l][1].sum(axis=0))
        tf, tv = tf + val(g.f), tv + val(g.virs)
    ctx.ensure_eq(tag + " levels add up to the total force", tf, val(f.f))
    ctx.ensure_eq(tag + " levels add up to the total virial", tv, val(f.virs))


@contract("P06", "weighted-sum", [F + "Forces." + x for x in ("bind", "f_combine", "pot_combine", "vir_combine", "get_vir", "queue",
          "pots_component", "forces_component", "virs_component", "get_nmtslevels")] + [F + "ForceComponent." + x for x in (
          "bind", "queue", "pot_gather", "f_gather", "vir_gather", "get_vir")] + [F + "ForceBead." + x for x in (
          "bind", "queue", "get_all", "get_pot", "get_f", "get_vir")] + [F + "MTSForces." + x for x in (
          "get_forces_mts", "get_vir_mts", "get_virs_mts", "queue_mts")], limit=200, samples=(30, 300))
def _sum(ctx):
    """energies, forces and virials are the sums over components of weight x multiple-time-step weight x the provider's answer on the
    contracted path expanded to all beads, for the total and for each level; the levels add up to the total; the per-component views
    give each contribution with or without weight and expansion"""
    name = ctx.choice("layout", sorted(LAYOUTS))
    P = ctx.choice("P", [1, 2, 4] if name != "contracted2" and name != "mts-frac" else [2, 3, 4])
    lay = LAYOUTS[name]
    comps = weighted(ctx, lay)
    b, c, ffs, f = build(ctx, ctx.dim("N"), P, comps, 1 + max(x[0] for x in lay))
    ctx.ensure("levels", int(f.nmtslevels) == len(lay[0][2]))
    check_totals(ctx, name, b, c, ffs, f, comps, P)


@contract("P06", "open-paths", [F + "Forces.bind", F + "Forces.f_combine"], limit=120)
def _open(ctx):
    """the same with open paths: the contraction of each component treats the open atoms as open"""
    P = 4
    comps = [(0, 0, ctx.real("w0"), [1.0], None), (1, 2, ctx.real("w1"), [1.0], None)]
    ctx.assume(comps[0][2] != 0)
    ctx.assume(comps[1][2] != 0)
    op = ctx.choice("open", [[0], [1], [0, 1]])
    b, c, ffs, f = build(ctx, 2, P, comps, 2, open_paths=op)
    check_totals(ctx, "open", b, c, ffs, f, comps, P, open_paths=op)


@contract("P06", "updates", [F + "Forces.bind", F + "MTSForces.__init__", F + "ForceComponent.bind", F + "ForceBead.bind"], limit=200,
          samples=(20, 200))
def _upd(ctx):
    """after positions, cell or weights change in any order every combined quantity follows, and nothing that did not change is evaluated again"""
    np = ctx.np
    name = ctx.choice("layout", ["one", "contracted", "mts", "mts-diff"])
    what = ctx.choice("what", ["q", "q1", "h", "w", "wq"])
    P = 2
    lay = LAYOUTS[name]
    w = ctx.array("w", (len(lay),))
    w2 = ctx.array("v", (len(lay),))
    for i in range(len(lay)):
        ctx.assume(w[i] != 0)
        ctx.assume(w2[i] != 0)
    comps = [(i, n, w[k], m, None) for k, (i, n, m) in enumerate(lay)]
    N = ctx.dim("N")
    b, c, ffs, f = build(ctx, N, P, comps, 1 + max(x[0] for x in lay))
    check_totals(ctx, "before", b, c, ffs, f, comps, P)
    calls = sum(x.calls for x in ffs.values())
    ctx.ensure("one evaluation per bead of each component", calls == sum(m.nbeads for m in f.mforces))
    if what in ("q", "wq"):
        b.q[:] = ctx.array("qn", (P, 3 * N))
    if what == "q1":
        b.q[1] = ctx.array("qn", (3 * N,))
    if what == "h":
        c.h = upper_h(ctx, "hn")
    if what in ("w", "wq"):
        for k in range(len(lay)):
            f.mforces[k].weight = w2[k]
    check_totals(ctx, "after", b, c, ffs, f, comps, P, ws=w2 if what in ("w", "wq") else None)
    new = sum(x.calls for x in ffs.values()) - calls
    if what == "w":
        ctx.ensure("weights alone need no new evaluation", new == 0)
    elif what == "q1":
        ctx.ensure("at most one new evaluation per bead", 1 <= new <= calls)
    else:
        ctx.ensure("one new evaluation per bead", new == calls)


@contract("P06", "zero-weight", [F + "Forces.queue", F + "MTSForces.queue_mts", F + "Forces.f_combine"], samples=(10, 60))
def _zw(ctx):
    """components of weight zero are never evaluated for the totals and contribute nothing; giving them a weight later brings them in"""
    P = 2
    comps = [(0, 0, ctx.real("w0"), [1.0], None), (1, 0, 0.0, [1.0], None)]
    ctx.assume(comps[0][2] != 0)
    b, c, ffs, f = build(ctx, ctx.dim("N"), P, comps, 2)
    d = component(ctx, b, c, ffs["ff0"], 0, P)
    ctx.ensure_eq("forces", val(f.f), comps[0][2] * d["FF"])
    ctx.ensure_eq("energy", val(f.pots), comps[0][2] * d["U"])
    ctx.ensure_eq("virials", val(f.virs), comps[0][2] * d["V"])
    ctx.ensure_eq("level", val(f.mts_forces[0].f), comps[0][2] * d["FF"])
    ctx.ensure_eq("level virial", val(f.mts_forces[0].virs), comps[0][2] * d["V"])
    ctx.ensure("not evaluated", ffs["ff1"].calls == 0)
    w1 = ctx.real("w1")
    ctx.assume(w1 != 0)
    f.mforces[1].weight = w1
    check_totals(ctx, "later", b, c, ffs, f, comps, P, ws=[comps[0][2], w1])


@contract("P06", "scaled-component", [F + "ScaledForceComponent.__init__", F + "ScaledForceComponent.get_pots", F + "ScaledForceComponent.get_vir",
                                      F + "Forces.add_component"], samples=(20, 100))
def _scaled(ctx):
    """a scaled copy of a component contributes scaling x weight x the component, follows changes of either factor, and with scaling zero
    contributes nothing"""
    np = ctx.np
    P = 2
    n = ctx.choice("n", [0, 1])
    w = ctx.real("w")
    ctx.assume(w != 0)
    N = ctx.dim("N")
    b, c, ffs, f = build(ctx, N, P, [(0, n, w, [1.0], None)], 1)
    d = component(ctx, b, c, ffs["ff0"], n, P)
    g = FO.Forces()
    g.bind(b, c, [], ffs, open_paths=[], output_maker=None)
    zero = ctx.choice("zero", [0, 1])
    s = 0.0 if zero else ctx.real("s")
    if not zero:
        ctx.assume(s != 0)
    sc = FO.ScaledForceComponent(f.mforces[0], s)
    g.add_component(f.mbeads[0], f.mrpc[0], sc)
    for k in range(3):
        if k == 1:
            w = ctx.real("w2")
            ctx.assume(w != 0)
            f.mforces[0].weight = w
        if k == 2:
            s = ctx.real("s2")
            ctx.assume(s != 0)
            sc.scaling = s
        ctx.ensure_eq("energies %d" % k, val(g.pots), s * w * d["U"])
        ctx.ensure_eq("forces %d" % k, val(g.f), s * w * d["FF"])
        ctx.ensure_eq("virials %d" % k, val(g.virs), s * w * d["V"])
        ctx.ensure_eq("own energies %d" % k, val(sc.pots), s * d["u"])
        ctx.ensure_eq("own energy %d" % k, val(sc.pot), s * d["u"].sum())
        ctx.ensure_eq("own virial %d" % k, val(sc.vir), s * d["v"].sum(axis=0))
        ctx.ensure("extras only when scaled %d" % k, bool(sc.extras) == (not (zero and k < 2)))
        ctx.ensure_eq("base unchanged %d" % k, val(f.f), w * d["FF"])


@contract("P06", "extras", [F + "ForceComponent.extra_gather", F + "Forces.extra_combine", F + "Forces.extras_component"], samples=(20, 100))
def _extras(ctx):
    """extras declared as physical quantities are summed over components with weights and expansion like forces; other numbers are
    collected bead by bead, raw text is joined bead by bead, and non-interpolated extras of contracted components are left out; changing a
    weight updates them and the components' own extras are never altered"""
    np = ctx.np
    P = 2
    n1 = ctx.choice("n1", [0, 1])
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    b, c, ffs, f = build(ctx, ctx.dim("N"), P, [(0, 0, w[0], [1.0], ["dip"]), (1, n1, w[1], [0.5, ], ["dip"])], 2,
                         extras={0: ["dip", "chg"], 1: ["dip", "other"]})
    n = P if n1 == 0 else n1

    def raw(k, i):
        return "c%d-b%d;" % (k, i)
    for k in range(2):
        old = ffs["ff%d" % k].queue
        cnt = {}

        def q(atoms, cell, reqid=-1, template=None, old=old, k=k):
            r = old(atoms, cell, reqid)
            i = [m.uid for m in f.mforces[k]._forces].index(reqid)
            r["result"][3]["raw"] = raw(k, i)
            return r
        ffs["ff%d" % k].queue = q
    for it in range(2):
        if it:
            w = ctx.array("v", (2,))
            ctx.assume(w[0] != 0)
            ctx.assume(w[1] != 0)
            f.mforces[0].weight = w[0]
            f.mforces[1].weight = w[1]
        h = val(c.h)
        dips = []
        for k, nn in ((0, P), (1, n)):
            rpc = nm_rescale(P, nn)
            qc = rpc.b1tob2(val(b.q))
            a = np.zeros((nn, 2))
            for i in range(nn):
                a[i] = ctx.opaque("ff%d_dip" % k, [qc[i].copy(), h], shape=(2,))
            dips.append((a, rpc.b2tob1(a)))
        e = f.extras
        ctx.ensure_eq("interpolated %d" % it, e["dip"], w[0] * dips[0][1] + 0.5 * w[1] * dips[1][1])
        q0 = val(b.q)
        for i in range(P):
            ctx.ensure_eq("collected %d" % it, e["chg"][i], ctx.opaque("ff0_chg", [q0[i].copy(), h], shape=(2,)))
            if n == P:
                ctx.ensure_eq("collected from the second %d" % it, e["other"][i], ctx.opaque("ff1_other", [q0[i].copy(), h], shape=(2,)))
        ctx.ensure("contracted left out %d" % it, ("other" in e) == (n == P))
        want = [raw(0, i) + (raw(1, i) if n == P else "") for i in range(P)]
        ctx.ensure("raw text %d" % it, list(e["raw"]) == want)
        for k in range(2):
            own = f.extras_component(k)
            ctx.ensure_eq("own extras %d %d" % (k, it), own["dip"], dips[k][0])
            ctx.ensure("own raw %d %d" % (k, it), list(own["raw"]) == [raw(k, i) for i in range([P, n][k])])


@contract("P06", "extras-mismatch", [F + "ForceComponent.extra_gather"], sym=False, samples=(10, 40), why="control flow on dictionary keys")
def _exmis(ctx):
    """a promoted extra that a provider does not return is refused, not silently dropped"""
    b, c, ffs, f = build(ctx, 1, 2, [(0, 0, 1.0, [1.0], ["nothere"])], 1, extras={0: ["dip"]})
    try:
        f.extras
        ok = False
    except KeyError:
        ok = True
    ctx.ensure("missing extra refused", ok)


@contract("P06", "clone", [F + "Forces.clone"], samples=(20, 100))
def _clone(ctx):
    """a copy of the force object on other beads and another cell gives the forces there, and neither object disturbs the other"""
    P = 2
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    N = ctx.dim("N")
    comps = [(0, 0, w[0], [1.0], None), (1, 1, w[1], [1.0], None)]
    b, c, ffs, f = build(ctx, N, P, comps, 2)
    nb = ctx.choice("nb", [1, 2, 4])
    b2 = make_beads(ctx, N, nb, suffix="B", zero_p=True)
    c2 = ipi.engine.cell.Cell(upper_h(ctx, "hB"))
    check_totals(ctx, "original", b, c, ffs, f, comps, P)
    g = f.clone(b2, c2)
    check_totals(ctx, "copy", b2, c2, ffs, g, comps, nb)
    n0 = sum(x.calls for x in ffs.values())
    b2.q[:] = ctx.array("qC", (nb, 3 * N))
    check_totals(ctx, "original again", b, c, ffs, f, comps, P)
    ctx.ensure("original not evaluated again", sum(x.calls for x in ffs.values()) == n0)
    check_totals(ctx, "copy moved", b2, c2, ffs, g, comps, nb)
    b.q[:] = ctx.array("qD", (P, 3 * N))
    n0 = sum(x.calls for x in ffs.values())
    check_totals(ctx, "copy again", b2, c2, ffs, g, comps, nb)
    ctx.ensure("copy not evaluated again", sum(x.calls for x in ffs.values()) == n0)
    check_totals(ctx, "original moved", b, c, ffs, f, comps, P)


@contract("P06", "transfer", [F + "Forces.transfer_forces", F + "Forces.dump_state", F + "Forces.load_state"], samples=(20, 100))
def _transfer(ctx):
    """moving to positions whose forces another force object knows, and taking them over, needs no evaluation and gives the forces of the
    new positions; out-of-date forces stay out of date; later moves are noticed; a stored state is not altered by what happens afterwards"""
    P = 2
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    N = ctx.dim("N")
    comps = [(0, 0, w[0], [1.0], None), (1, 1, w[1], [1.0], None)]
    b, c, ffs, f = build(ctx, N, P, comps, 2)
    b2 = b.clone()
    c2 = c.clone()
    g = f.clone(b2, c2)
    check_totals(ctx, "start", b, c, ffs, f, comps, P)
    b2.q[:] = ctx.array("qn", (P, 3 * N))
    way = ctx.choice("way", ["transfer", "state", "restore"])
    stale = ctx.choice("stale", [0, 1])
    if way == "restore":
        st = f.dump_state()
        q0 = val(b.q)
        b.q[:] = ctx.array("qn", (P, 3 * N))
        check_totals(ctx, "moved", b, c, ffs, f, comps, P)
        n0 = sum(x.calls for x in ffs.values())
        b.q[:] = q0
        f.load_state(st)
        check_totals(ctx, "back", b, c, ffs, f, comps, P)
        ctx.ensure("nothing evaluated on the way back", sum(x.calls for x in ffs.values()) == n0)
        b.q[:] = ctx.array("qn", (P, 3 * N))
        check_totals(ctx, "moved again", b, c, ffs, f, comps, P)
        ctx.ensure("evaluated after moving again", sum(x.calls for x in ffs.values()) > n0)
        return
    if not stale:
        check_totals(ctx, "other", b2, c2, ffs, g, comps, P)
    n0 = sum(x.calls for x in ffs.values())
    b.q[:] = val(b2.q)
    if way == "transfer":
        f.transfer_forces(g)
    else:
        f.load_state(g.dump_state())
    if not stale:
        b2.q[:] = ctx.array("qm", (P, 3 * N))
        check_totals(ctx, "taken over", b, c, ffs, f, comps, P)
        ctx.ensure("nothing evaluated", sum(x.calls for x in ffs.values()) == n0)
    else:
        check_totals(ctx, "not known", b, c, ffs, f, comps, P)
    b.q[:] = ctx.array("qk", (P, 3 * N))
    check_totals(ctx, "moved on", b, c, ffs, f, comps, P)
    c.h = upper_h(ctx, "hn")
    check_totals(ctx, "cell changed", b, c, ffs, f, comps, P)


@contract("P06", "transfer-manual", [F + "Forces.transfer_forces_manual"], samples=(20, 100))
def _transman(ctx):
    """energies and forces handed over by hand for given positions are what is read afterwards, without evaluation, until something moves"""
    np = ctx.np
    P = 2
    N = ctx.dim("N")
    w = ctx.array("w", (2,))
    ctx.assume(w[0] != 0)
    ctx.assume(w[1] != 0)
    comps = [(0, 0, w[0], [1.0], None), (1, 0, w[1], [1.0], None)]
    b, c, ffs, f = build(ctx, N, P, comps, 2)
    started = ctx.choice("started", [0, 1])
    if started:
        val(f.f)
    q = ctx.array("qn", (P, 3 * N))
    us = [ctx.array("u%d" % k, (P,)) for k in range(2)]
    fs = [ctx.array("f%d" % k, (P, 3 * N)) for k in range(2)]
    n0 = sum(x.calls for x in ffs.values())
    b.q[:] = q
    f.transfer_forces_manual([q.copy(), q.copy()], [u.copy() for u in us], [x.copy() for x in fs])
    ctx.ensure_eq("positions", val(b.q), q)
    ctx.ensure_eq("energies", val(f.pots), w[0] * us[0] + w[1] * us[1])
    ctx.ensure_eq("forces", val(f.f), w[0] * fs[0] + w[1] * fs[1])
    ctx.ensure("nothing evaluated", sum(x.calls for x in ffs.values()) == n0)
    b.q[:] = ctx.array("qk", (P, 3 * N))
    check_totals(ctx, "moved on", b, c, ffs, f, comps, P)


class LinearFF(OpaqueFF):
    """harmonic provider whose stiffness depends on the cell: f = -k q, u = k q^2/2, virial linear in the positions"""

    def __init__(self, ctx, name, k):
        OpaqueFF.__init__(self, ctx, name)
        self.kk = k

    def value(self, q, h):
        np = self.ctx.np
        v = np.zeros((3, 3))
        k = self.kk * h[0, 0]
        v[0, 0] = q[0] * k
        v[0, 1] = q[1] * 2
        v[1, 2] = q[2] - q[0]
        return (0.5 * k * q * q).sum(), -k * q, v


@contract("P06", "suzuki-chin", [F + "Forces." + x for x in (
    "get_potssc", "get_fsc_part_1", "get_fsc_part_2", "get_virssc_part_1", "get_virssc_part_2", "get_fsc", "get_virssc", "get_coeffsc_part_1",
    "get_coeffsc_part_2", "fvir_4th_order_combine", "forcesvirs_4th_order")], samples=(40, 300), tol=1e-6, limit=200)
def _sc(ctx):
    """the Suzuki-Chin potential is -/+ 1/3 of the potential on even/odd beads plus alpha (even) and 1-alpha (odd) times |f|^2/(9 m omega_P^2);
    its forces are minus its gradient and its virial the corresponding derivative, exactly for harmonic forces (where the finite difference
    is exact), for forward and centred differences, two components with weights, and after any change of positions, cell, weights, alpha or frequency"""
    np = ctx.np
    P = ctx.choice("P", [2, 4])
    N = 1 if ctx.sym else 2
    alpha0 = ctx.choice("alpha0", [0, 1])
    sgn = ctx.choice("eps", [-1, 1])
    change = ctx.choice("change", ["none", "q", "w", "omega", "cell"] if P == 2 else ["none"])
    ks = [ctx.real("k%d" % i, pos=True) for i in range(2)]
    b = make_beads(ctx, N, P, zero_p=True)
    c = ipi.engine.cell.Cell(upper_h(ctx))
    ffs = {"ff%d" % i: LinearFF(ctx, "ff%d" % i, ks[i]) for i in range(2)}
    w = [ctx.real("w%d" % i, pos=True) for i in range(2)]
    f = FO.Forces()
    f.bind(b, c, [FO.ForceComponent("ff%d" % i, weight=w[i], mts_weights=[[1.0, 0.0], [0.5, 0.25]][i], epsilon=sgn * 0.001) for i in range(2)], ffs,
           open_paths=[], output_maker=None)
    om2 = ctx.real("om2", pos=True)
    f.omegan2 = om2
    al = 0.0 if alpha0 else ctx.real("alpha", pos=True)
    f.alpha = al
    for it in range(1 if change == "none" else 2):
        if it and change == "q":
            b.q[:] = ctx.array("qn", (P, 3 * N))
        if it and change == "w":
            w = [ctx.real("v%d" % i, pos=True) for i in range(2)]
            for i in range(2):
                f.mforces[i].weight = w[i]
        if it and change == "omega":
            om2 = ctx.real("om2n", pos=True)
            f.omegan2 = om2
        if it and change == "cell":
            c.h = upper_h(ctx, "hn")
        h = val(c.h)
        wk = [w[0], 0.75 * w[1]]
        K = (wk[0] * ks[0] + wk[1] * ks[1]) * h[0, 0]
        q, m3 = val(b.q), val(b.m3)
        ft = -K * q
        U = np.zeros(P)
        V = np.zeros((P, 3, 3))
        dV = np.zeros((P, 3, 3))
        for i in range(P):
            U[i] = (0.5 * K * q[i] * q[i]).sum()
            for l in range(2):
                V[i] = V[i] + wk[l] * tri(ffs["ff%d" % l].value(q[i], h)[2])
                dV[i] = dV[i] + wk[l] * tri(ffs["ff%d" % l].value(ft[i] / m3[i], h)[2])
        us, fs, vs = np.zeros(P), np.zeros((P, 3 * N)), np.zeros((P, 3, 3))
        for i in range(P):
            s = -1.0 / 3.0 if i % 2 == 0 else 1.0 / 3.0
            a = (al if i % 2 == 0 else 1 - al) / om2 / 9.0
            us[i] = s * U[i] + a * (ft[i] * ft[i] / m3[i]).sum()
            fs[i] = s * ft[i] + a * 2 * K * ft[i] / m3[i]
            f3 = ft[i].reshape((N, 3))
            fm3 = (ft[i] / m3[i]).reshape((N, 3))
            vs[i] = s * V[i] - a * 2 * dV[i] + a * 2 * np.dot(f3.T, fm3)
        ctx.ensure_eq("potential", val(f.potssc).reshape(-1), us)
        ctx.ensure_eq("total potential", val(f.potsc), us.sum())
        ctx.ensure_eq("forces", val(f.fsc), fs)
        ctx.ensure_eq("virials", val(f.virssc), vs)
        ctx.ensure_eq("virial", val(f.virsc), vs.sum(axis=0))


@contract("P06", "virial-is-strain-derivative", [F + "Forces.vir_combine", F + "Forces.get_virssc", F + "Forces.forcesvirs_4th_order"], sym=False,
          samples=(24, 150), why="finite differences of the Suzuki-Chin energy with respect to strain")
def _strain(ctx):
    """with a provider whose virial is minus the strain derivative of its energy, the combined virial is minus the strain derivative of the
    combined energy at fixed scaled positions, including the Suzuki-Chin terms"""
    import numpy as np
    from checks.p12 import CellFF
    P = ctx.choice("P", [2, 4])
    N = 2
    al = ctx.choice("alpha", [0.0, 0.3])
    b = make_beads(ctx, N, P, zero_p=True)
    h0 = upper_h(ctx)
    c = ipi.engine.cell.Cell(h0.copy())
    L = ctx.choice("components", [1, 2])
    ffs = {"ff%d" % i: CellFF(ctx, "ff%d" % i, i, N) for i in range(L)}
    f = FO.Forces()
    f.bind(b, c, [FO.ForceComponent("ff%d" % i, weight=[1.0, 0.7][i], epsilon=-0.001) for i in range(L)], ffs, open_paths=[], output_maker=None)
    f.omegan2 = 0.8
    f.alpha = al
    q0 = val(b.q)
    vir, virsc = val(f.vir), val(f.virsc)
    i, j = ctx.choice("component", [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)])
    d, e = 1e-4, []
    for s in (d, -d):
        F1 = np.eye(3)
        F1[i, j] += s
        c.h = F1.dot(h0)
        b.q[:] = q0.reshape(P, N, 3).dot(F1.T).reshape(P, 3 * N)
        e.append((float(f.pot), float(f.potsc)))
    ctx.ensure_eq("virial", vir[i, j], -(e[0][0] - e[1][0]) / (2 * d), tol=1e-5 * (1 + abs(vir).max()))
    ctx.ensure_eq("Suzuki-Chin virial", virsc[i, j], -(e[0][1] - e[1][1]) / (2 * d), tol=1e-5 * (1 + abs(virsc).max()))
