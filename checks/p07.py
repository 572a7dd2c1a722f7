"""P07: ring-polymer normal-mode transforms and bead-number contraction."""
from pyvc.contracts import contract
from checks.build import val
import ipi.utils.nmtransform as nmt

F = "ipi/utils/nmtransform.py:"
ASSUMPTIONS = ["numpy.fft is an external function: nm_fft is compared with the matrix transform on concrete inputs",
               "bead numbers are enumerated, not symbolic (exact for 1,2,3,4,6,12; floating-point tables otherwise)"]

EXACT = [1, 2, 3, 4, 6]
NB = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12]


@contract("P07", "nm-matrix-orthogonal", [F + "mk_nm_matrix", F + "mk_o_nm_matrix"])
def _orth(ctx):
    """C C^T = 1; row 0 is the constant mode; C diag(w^2) C^T is the spring matrix of the ring / open chain."""
    np = ctx.np
    n = ctx.choice("n", NB)
    kind = ctx.choice("kind", ["closed", "open"])
    C = nmt.mk_nm_matrix(n) if kind == "closed" else nmt.mk_o_nm_matrix(n)
    ctx.ensure_eq("C C^T = 1", np.dot(C, C.T), np.identity(n))
    ctx.ensure_eq("C^T C = 1", np.dot(C.T, C), np.identity(n))
    for j in range(n):
        ctx.ensure_eq("centroid row", C[0, j] * np.sqrt(n), 1.0)


@contract("P07", "frequencies-diagonalise-springs", [F + "nm_eva", F + "o_nm_eva", F + "mk_nm_matrix", F + "mk_o_nm_matrix"])
def _spring(ctx):
    """the listed mode frequencies are those of the harmonic ring (open chain) with unit spring constant"""
    np = ctx.np
    n = ctx.choice("n", NB)
    kind = ctx.choice("kind", ["closed", "open"])
    if kind == "closed":
        C, w = nmt.mk_nm_matrix(n), nmt.nm_eva(n)
    else:
        C, w = nmt.mk_o_nm_matrix(n), nmt.o_nm_eva(n)
    K = np.zeros((n, n))
    links = [(i, (i + 1) % n) for i in range(n)] if kind == "closed" else [(i, i + 1) for i in range(n - 1)]
    for i, j in links:
        if i != j:
            K[i, i] = K[i, i] + 1
            K[j, j] = K[j, j] + 1
            K[i, j] = K[i, j] - 1
            K[j, i] = K[j, i] - 1
    D = np.zeros((n, n))
    for i in range(n):
        D[i, i] = w[i] ** 2
    ctx.ensure_eq("C^T w^2 C = K", np.dot(C.T, np.dot(D, C)), K)
    ctx.ensure_eq("zero mode", w[0], 0.0)


def _mk(ctx, n, natoms, open_paths, which):
    if which == "matrix":
        return nmt.nm_trans(n, open_paths=open_paths)
    if which == "noop":
        return nmt.nm_noop(n)
    return nmt.nm_fft(n, natoms, open_paths=open_paths)


@contract("P07", "transform-roundtrip", [F + "nm_trans.b2nm", F + "nm_trans.nm2b", F + "nm_noop.b2nm", F + "nm_noop.nm2b"])
def _round(ctx):
    """nm2b(b2nm(q)) = q, b2nm(nm2b(x)) = x, and sum of squares is preserved, for every path of any number of atoms"""
    np = ctx.np
    n = ctx.choice("n", EXACT + [5, 8])
    N = ctx.dim("N")
    q = ctx.array("q", (n, 3 * N))
    q0 = q.copy()
    t = _mk(ctx, n, N, None, "noop" if n == 1 else "matrix")
    x = t.b2nm(q)
    ctx.ensure_eq("nm2b(b2nm(q))", t.nm2b(x), q0)
    ctx.ensure_eq("b2nm(nm2b(q))", t.b2nm(t.nm2b(q0)), q0)
    ctx.ensure_eq("input untouched", q, q0)
    ctx.ensure_eq("norm per column", (x * x).sum(axis=0), (q0 * q0).sum(axis=0))
    ctx.ensure_eq("mode 0 is the scaled centroid", x[0] * np.sqrt(n), q0.sum(axis=0))


@contract("P07", "transform-roundtrip-open", [F + "nm_trans.b2nm", F + "nm_trans.nm2b"])
def _round_open(ctx):
    """the same with any subset of atoms open: each atom uses its own orthogonal transform"""
    np = ctx.np
    n = ctx.choice("n", [2, 3, 4])
    op = ctx.choice("open", [[0], [2], [0, 2], [0, 1, 2]])
    N = 3
    q = ctx.array("q", (n, 3 * N))
    t = nmt.nm_trans(n, open_paths=op)
    x = t.b2nm(q)
    ctx.ensure_eq("nm2b(b2nm(q))", t.nm2b(x), q)
    ctx.ensure_eq("b2nm(nm2b(q))", t.b2nm(t.nm2b(q)), q)
    Cc, Co = nmt.mk_nm_matrix(n), nmt.mk_o_nm_matrix(n)
    for a in range(N):
        C = Co if a in op else Cc
        ctx.ensure_eq("atom %d" % a, x[:, 3 * a:3 * a + 3], np.dot(C, q[:, 3 * a:3 * a + 3]))


@contract("P07", "fft-equals-matrix", [F + "nm_fft.b2nm", F + "nm_fft.nm2b"], sym=False, samples=(160, 1500), tol=1e-9,
          why="numpy.fft is compiled code")
def _fft(ctx):
    """the FFT transform agrees with the matrix transform in both directions, closed and open paths"""
    n = ctx.choice("n", list(range(1, 18)) + [32])
    N = ctx.choice("N", [1, 2, 4])
    op = ctx.choice("open", [None, [0], [N - 1]])
    q = ctx.array("q", (n, 3 * N))
    q0 = q.copy()
    a = nmt.nm_fft(n, N, open_paths=op)
    b = nmt.nm_trans(n, open_paths=op)
    x = val(a.b2nm(q))
    ctx.ensure_eq("b2nm", x, b.b2nm(q))
    x0 = x.copy()
    ctx.ensure_eq("nm2b", val(a.nm2b(x)), b.nm2b(x))
    ctx.ensure_eq("nm2b(b2nm)", val(a.nm2b(x)), q0)
    ctx.ensure_eq("inputs untouched", q, q0)
    ctx.ensure_eq("modes untouched", x, x0)
    # repeated use with other data must not see the previous call
    y = ctx.array("y", (n, 3 * N))
    r1 = val(a.nm2b(a.b2nm(y)))
    ctx.ensure_eq("second use", r1, y)


PAIRS = [(1, 1), (2, 1), (3, 1), (4, 1), (6, 1), (3, 2), (4, 2), (6, 2), (4, 3), (6, 3), (6, 4), (8, 3), (8, 5),
         (5, 5), (1, 3), (2, 4), (3, 6), (5, 7), (8, 4), (16, 5), (9, 6)]


@contract("P07", "contraction", [F + "mk_rs_matrix", F + "nm_rescale.b1tob2", F + "nm_rescale.b2tob1"])
def _contract(ctx):
    """contraction keeps the centroid and the constant path; expansion is its scaled adjoint, so the work
    sum_b f_b.dq_b is the same on both paths; contracting the expanded path gives it back (odd target)"""
    np = ctx.np
    n1, n2 = ctx.choice("n", PAIRS)
    N = ctx.dim("N")
    t = nmt.nm_rescale(n1, n2)
    q = ctx.array("q", (n1, 3 * N))
    q0 = q.copy()
    g = ctx.array("g", (n2, 3 * N))
    g0 = g.copy()
    c = val(t.b1tob2(q))
    e = val(t.b2tob1(g))
    ctx.ensure_eq("centroid kept by contraction", c.sum(axis=0) * n1, q0.sum(axis=0) * n2)
    ctx.ensure_eq("centroid kept by expansion", e.sum(axis=0) * n2, g0.sum(axis=0) * n1)
    ctx.ensure_eq("adjoint", (c * g0).sum(axis=0) * n1, (q0 * e).sum(axis=0) * n2)
    if n1 == n2:
        ctx.ensure_eq("same size: identity", c, q0)
        c[:] = 0
        ctx.ensure_eq("same size: a copy", q, q0)
        e2 = t.b2tob1(g)
        e2[:] = 0
    if (n1 >= n2 and n2 % 2 == 1) or n1 == n2:
        ctx.ensure_eq("contract(expand)", val(t.b1tob2(e)), g0)
    if n2 >= n1 and n1 % 2 == 1:
        ctx.ensure_eq("expand then back", val(t.b2tob1(val(t.b1tob2(q0)))), q0)
    ctx.ensure_eq("inputs untouched", q, q0)
    ctx.ensure_eq("inputs untouched", g, g0)


@contract("P07", "contraction-shapes", [F + "nm_rescale.b1tob2", F + "nm_rescale.b2tob1"])
def _cshape(ctx):
    """per-bead scalars (potentials) and tensors (virials) are contracted with the same matrix"""
    np = ctx.np
    n1, n2 = ctx.choice("n", [(4, 2), (3, 1), (6, 4), (4, 4), (8, 3)])
    op = ctx.choice("open", [None, [0]])
    t = nmt.nm_rescale(n1, n2, open_paths=op)
    v = ctx.array("v", (n2,))
    e = val(t.b2tob1(v))
    ctx.ensure_eq("sum of potentials", e.sum() * n2, v.sum() * n1)
    u = ctx.array("u", (n1,))
    ctx.ensure_eq("scalars: adjoint", (val(t.b1tob2(u)) * v).sum() * n1, (u * e).sum() * n2)
    w = ctx.array("w", (n2, 3, 3))
    W = val(t.b2tob1(w))
    for i in range(3):
        for j in range(3):
            ctx.ensure_eq("virial component", W[:, i, j], t.b2tob1(w[:, i, j]))


@contract("P07", "contraction-open", [F + "nm_rescale.b1tob2", F + "nm_rescale.b2tob1", F + "mk_o_rs_matrix"])
def _copen(ctx):
    """with open paths only the open atoms use the open-path contraction; both directions stay adjoint"""
    np = ctx.np
    n1, n2 = ctx.choice("n", [(4, 2), (3, 1), (4, 3), (3, 3), (1, 3), (2, 4), (2, 3)])
    op = ctx.choice("open", [[0], [1], [0, 1]])
    t, tc = nmt.nm_rescale(n1, n2, open_paths=op), nmt.nm_rescale(n1, n2)
    ta = nmt.nm_rescale(n1, n2, open_paths=[0, 1, 2])
    N = 3
    q = ctx.array("q", (n1, 3 * N))
    g = ctx.array("g", (n2, 3 * N))
    c, e = val(t.b1tob2(q)), val(t.b2tob1(g))
    ctx.ensure_eq("adjoint", (c * g).sum(axis=0) * n1, (q * e).sum(axis=0) * n2)
    ctx.ensure_eq("centroid kept", c.sum(axis=0) * n1, q.sum(axis=0) * n2)
    cc, ec = val(tc.b1tob2(q)), val(tc.b2tob1(g))
    ca, ea = val(ta.b1tob2(q)), val(ta.b2tob1(g))
    for a in range(N):
        s = slice(3 * a, 3 * a + 3)
        ctx.ensure_eq("atom contracted", c[:, s], (ca if a in op else cc)[:, s])
        ctx.ensure_eq("atom expanded", e[:, s], (ea if a in op else ec)[:, s])


@contract("P07", "contraction-keeps-soft-modes", [F + "mk_rs_matrix", F + "mk_o_rs_matrix"])
def _soft(ctx):
    """contraction leaves the slowest modes of the path alone and discards the stiffest ones"""
    np = ctx.np
    n1, n2 = ctx.choice("n", [(2, 1), (3, 1), (4, 1), (3, 2), (4, 2), (4, 3), (6, 3), (6, 4), (8, 3), (12, 5)])
    kind = ctx.choice("kind", ["closed", "open"])
    if kind == "closed":
        T, C1, C2, w = nmt.mk_rs_matrix(n1, n2), nmt.mk_nm_matrix(n1), nmt.mk_nm_matrix(n2), nmt.nm_eva(n2)
    else:
        T, C1, C2, w = nmt.mk_o_rs_matrix(n1, n2), nmt.mk_o_nm_matrix(n1), nmt.mk_o_nm_matrix(n2), nmt.o_nm_eva(n2)
    M = np.dot(C2, np.dot(T, C1.T)) * np.sqrt(n1) / np.sqrt(n2)     # in mode space
    for i in range(n2):
        if kind == "open" or i == 0:
            j = i
        elif 2 * i < n2:
            j = i
        elif 2 * i > n2:
            j = n1 - (n2 - i)
        else:
            j = i           # the single stiffest mode of an even ring: the one that alternates between the beads
        for k in range(n1):
            ctx.ensure_eq("mode %d" % i, M[i, k], 1.0 if k == j else 0.0)


@contract("P07", "registered-transform", ["ipi/engine/normalmodes.py:NormalModes.bind"], samples=(40, 200), sym=False,
          why="both the FFT and the matrix implementation are exercised through the bound system")
def _reg(ctx):
    """the bound system exposes consistent bead and mode pictures: modes <-> beads after writing either one,
    for positions, momenta and forces, whichever implementation is selected"""
    _pictures(ctx, ["fft", "matrix"], [1, 2, 3, 4, 5, 8])


@contract("P07", "bound-pictures", ["ipi/engine/normalmodes.py:NormalModes.bind", F + "nm_trans.b2nm", F + "nm_trans.nm2b"])
def _bound(ctx):
    """the same for all values, with the matrix implementation"""
    _pictures(ctx, ["matrix"], [1, 2, 3, 4, 6])


def _pictures(ctx, transforms, beads):
    from checks.build import make_system
    n = ctx.choice("n", beads)
    tr = ctx.choice("transform", transforms)
    N = ctx.choice("N", [1, 3])
    op = ctx.choice("open", [[], [0]])
    s = make_system(ctx, natoms=N, nbeads=n, transform=tr, open_paths=op)
    ref = nmt.nm_trans(n, open_paths=op)
    ctx.ensure_eq("qnm", s.nm.qnm, ref.b2nm(val(s.beads.q)))
    ctx.ensure_eq("pnm", s.nm.pnm, ref.b2nm(val(s.beads.p)))
    ctx.ensure_eq("fnm", s.nm.fnm, ref.b2nm(val(s.forces.f)))
    x = ctx.array("x", (n, 3 * N))
    s.nm.qnm = x
    ctx.ensure_eq("q from qnm", s.beads.q, ref.nm2b(x))
    y = ctx.array("y", (3 * N,))
    s.nm.pnm[0] = y
    pn = ref.b2nm(val(s.beads.p))
    ctx.ensure_eq("p from pnm", pn[0], y)
    s.beads.q[n - 1] = y
    qq = ref.nm2b(x)
    qq[n - 1] = y
    ctx.ensure_eq("qnm after bead write", s.nm.qnm, ref.b2nm(qq))
    ctx.ensure_eq("centroid", s.beads.qc, qq.mean(axis=0))
    # one bead, written through that bead, by assignment and in place, after the modes were the ones written last
    k = n // 2
    for name, nm in (("q", "qnm"), ("p", "pnm")):
        for how in ("assign", "in place"):
            x = ctx.array("x" + name + how[:2], (n, 3 * N))
            setattr(s.nm, nm, x)
            z = ctx.array("z" + name + how[:2], (3 * N,))
            want = ref.nm2b(x)
            want[k] = z
            if how == "assign":
                setattr(s.beads[k], name, z)
            else:
                getattr(s.beads[k], name)[:] = z
            ctx.ensure_eq("%s after writing %s of one bead (%s)" % (nm, name, how), getattr(s.nm, nm), ref.b2nm(want))
            ctx.ensure_eq("%s after writing %s of one bead (%s)" % (name, name, how), getattr(s.beads, name), want)
