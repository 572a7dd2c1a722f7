"""P20: the simulation starts from what the input asks for."""
import contextlib
import io as _io
import math
import os
import shutil
import tempfile

import numpy as _np

from pyvc.contracts import contract
from checks.build import val, upper_h, patched, StubPRNG, Sys
from checks.p15 import R, rnd_cell, rnd_label, bare_mass
import ipi.engine.atoms as AT
import ipi.engine.cell as CE
import ipi.engine.beads as BE
import ipi.engine.initializer as INI
import ipi.engine.normalmodes as NM
import ipi.engine.ensembles as EN
import ipi.engine.motion as MO
import ipi.inputs.initializer as II
import ipi.utils.units as U
import ipi.utils.io as IO
from ipi.utils.io.inputs.io_xml import xml_parse_string

E = "ipi/engine/initializer.py:"
ASSUMPTIONS = ["reading a file or a checkpoint is a callee under contract (P15, P16) in the symbolic contracts; the bounded contract "
               "from-text goes through real files"]


def new_system(ctx, natoms=0, nbeads=0, full=False, suffix="0"):
    s = Sys()
    s.beads = BE.Beads(natoms, nbeads)
    s.cell = CE.Cell(upper_h(ctx, "hc") if full else None)
    s.prng = StubPRNG(ctx)
    s.ensemble = EN.Ensemble(temp=ctx.real("temp", pos=True))
    s.nm = NM.NormalModes(mode="rpmd", transform_method="matrix", freqs=_np.zeros(0))
    if full:
        s.beads.q[:] = ctx.array("q" + suffix, (nbeads, 3 * natoms))
        s.beads.p[:] = ctx.array("p" + suffix, (nbeads, 3 * natoms))
        s.beads.m[:] = ctx.array("m" + suffix, natoms, pos=True)
        s.beads.names[:] = ["H", "O", "C"][:natoms]
    return s


def fourier(n):
    """rows: orthonormal normal modes of n beads, ordered centroid, cos/sin pairs ..., alternating"""
    C = [[1 / math.sqrt(n)] * n]
    for k in range(1, n // 2 + 1):
        if 2 * k == n:
            C.append([(-1) ** j / math.sqrt(n) for j in range(n)])
        else:
            C.append([math.sqrt(2 / n) * math.cos(2 * math.pi * k * j / n) for j in range(n)])
            C.append([math.sqrt(2 / n) * math.sin(2 * math.pi * k * j / n) for j in range(n)])
    return _np.array(C)


def path_map(n, P):
    """P x n matrix: the path of P beads with the low normal modes of the n-bead path (the definition of expansion and contraction)"""
    if n == P:
        return _np.identity(n)
    A, Bm = fourier(n), fourier(P)
    k = min(n, P)
    if k % 2 == 0 and n < P:      # the alternating mode of an even path splits over a cosine (and a sine that vanishes on the old beads)
        return None
    return Bm[:k].T @ A[:k] * math.sqrt(P / n)


FAM = {"positions": "length", "momenta": "momentum", "velocities": "velocity", "masses": "mass", "cell": "length"}
UN = {"positions": ["automatic", "angstrom", "nanometer"], "momenta": ["automatic", "atomic_unit"], "velocities": ["automatic", "m/s"],
      "masses": ["", "dalton"], "cell": ["", "angstrom"]}


def order1(u):
    """scale that keeps symbolic coefficients of order one"""
    return 1.0 / u if not (1e-6 < u < 1e6) else 1.0


@contract("P20", "explicit-values", [E + "Initializer.init_stage1", E + "init_vector", E + "set_vector"], max_paths=2000)
def _manual(ctx):
    """explicit positions, masses, labels, cell and momenta (or velocities), in any unit, are what the system starts from"""
    P = ctx.choice("P", [1, 2, 3])
    n = 2
    vel = ctx.choice("motion", ["momenta", "velocities", "none"])
    un = {k: UN[k][ctx.choice("u_" + k, list(range(len(UN[k]))))] for k in ("positions", "momenta", "velocities", "masses", "cell")
          if k in ("positions", vel, "masses") or (k == "cell")}
    f = {k: U.unit_to_internal(FAM[k], u, 1.0) for k, u in un.items()}
    s = new_system(ctx)
    q, m, h = ctx.array("q", (P, 3 * n)), ctx.array("m", (n,), pos=True), upper_h(ctx, "h")
    v = ctx.array("v", (P, 3 * n))
    k = {x: order1(f[x]) for x in f}
    # the description is validated before it is used; an arbitrary order of the independent entries
    queue = [("positions", INI.InitIndexed(value=(q * k["positions"]).reshape(-1), mode="manual", units=un["positions"])),
             ("masses", INI.InitIndexed(value=m * k["masses"], mode="manual", units=un["masses"])),
             ("labels", INI.InitIndexed(value=["H", "D"], mode="manual")),
             ("cell", INI.InitBase(value=(h * k["cell"]).reshape(-1), mode="manual", units=un["cell"]))]
    if vel != "none":
        queue.append((vel, INI.InitIndexed(value=(v * k[vel]).reshape(-1), mode="manual", units=un[vel])))
    if ctx.choice("order", [0, 1]):
        queue = [queue[3], queue[0], queue[2], queue[1]] + queue[4:]
    INI.Initializer(P, queue).init_stage1(s)
    ctx.ensure("size", s.beads.nbeads == P and s.beads.natoms == n)
    ctx.ensure_eq("positions", s.beads.q, q * (f["positions"] * k["positions"]))
    ctx.ensure_eq("masses", s.beads.m, m * (f["masses"] * k["masses"]))
    ctx.ensure("labels", [str(x) for x in val(s.beads.names)] == ["H", "D"])
    ctx.ensure_eq("cell", s.cell.h, h * (f["cell"] * k["cell"]))
    m3 = ctx.np.array([m[0], m[0], m[0], m[1], m[1], m[1]]) * (f["masses"] * k["masses"])
    for b in range(P):
        want = v[b] * (f[vel] * k[vel]) if vel != "none" else v[b] * 0.0
        if vel == "velocities":
            want = want * m3
        ctx.ensure_eq("momenta", val(s.beads.p)[b], want)


@contract("P20", "one-bead-or-one-atom", [E + "Initializer.init_stage1", E + "init_vector", E + "set_vector"], max_paths=2000)
def _single(ctx):
    """values given for one bead, one atom or one atom of one bead are set as given, and nothing else changes"""
    P, n = 3, 2
    s = new_system(ctx, n, P, full=True)
    q0, p0, m0 = val(s.beads.q), val(s.beads.p), val(s.beads.m)
    what = ctx.choice("what", ["positions", "momenta", "velocities"])
    bead = ctx.choice("bead", [-1, 0, 2])
    index = ctx.choice("index", [-1, 0, 1])
    u = UN[what][1]
    f = U.unit_to_internal(FAM[what], u, 1.0)
    k = order1(f)
    nb, na = (P if bead < 0 else 1), (n if index < 0 else 1)
    v = ctx.array("v", (nb, 3 * na))
    given = (v * k).reshape(-1)
    INI.Initializer(P, [(what, INI.InitIndexed(value=given, mode="manual", units=u, index=index, bead=bead))]).init_stage1(s)
    q, p = q0.copy(), p0.copy()
    t = q if what == "positions" else p
    for b in range(P):
        for i in range(n):
            if (bead < 0 or b == bead) and (index < 0 or i == index):
                for c in range(3):
                    x = v[b if bead < 0 else 0, 3 * (i if index < 0 else 0) + c] * (f * k)
                    t[b, 3 * i + c] = x * m0[i] if what == "velocities" else x
    ctx.ensure_eq("positions", s.beads.q, q)
    ctx.ensure_eq("momenta", s.beads.p, p)
    ctx.ensure_eq("masses", s.beads.m, m0)


@contract("P20", "labels-and-masses", [E + "Initializer.init_stage1"], max_paths=2000)
def _labels(ctx):
    """labels or masses of one or all atoms change only what they name; when masses change after the momenta are known, the momenta keep
    their kinetic energy"""
    P, n = 2, 3
    s = new_system(ctx, n, P, full=True)
    q0, p0, m0 = val(s.beads.q), val(s.beads.p), val(s.beads.m)
    index = ctx.choice("index", [-1, 0, 2])
    what = ctx.choice("what", ["masses", "labels"])
    if what == "masses":
        m = ctx.array("m", (n if index < 0 else 1,), pos=True)
        INI.Initializer(P, [("masses", INI.InitIndexed(value=m.copy(), mode="manual", units="atomic_unit", index=index))]).init_stage1(s)
        want = m.copy() if index < 0 else m0.copy()
        if index >= 0:
            want[index] = m[0]
        lab = ["H", "O", "C"]
        ctx.ensure_eq("masses", s.beads.m, want)
        for b in range(P):
            for i in range(3 * n):
                x = val(s.beads.p)[b, i]
                ctx.ensure_eq("kinetic energy", x * x * m0[i // 3], p0[b, i] * p0[b, i] * want[i // 3])
                ctx.ensure("direction", x * p0[b, i] >= 0)
    else:
        lab = ["Cl", "D", "Na"]
        INI.Initializer(P, [("labels", INI.InitIndexed(value=lab if index < 0 else lab[index], mode="manual", index=index))]).init_stage1(s)
        if index >= 0:
            lab = [lab[i] if i == index else ["H", "O", "C"][i] for i in range(3)]
        ctx.ensure_eq("masses", s.beads.m, m0)
        ctx.ensure_eq("momenta", s.beads.p, p0)
    ctx.ensure("labels", [str(x) for x in val(s.beads.names)] == lab)
    ctx.ensure_eq("positions", s.beads.q, q0)


@contextlib.contextmanager
def frame_file(ctx, data, h, names, masses, asked):
    """a file whose frames are the given arrays, through the contract of the reader"""
    fd, fn = tempfile.mkstemp()
    os.close(fd)
    state = {}

    def read(mode, rfile, dimension="automatic", units="automatic", cell_units="automatic", **kw):
        k = state.setdefault(id(rfile), [0, rfile])
        asked.append((mode, dimension, units, cell_units))
        if k[0] >= len(data):
            raise EOFError
        a = AT.Atoms(len(names))
        a.q[:], a.names[:], a.m[:] = data[k[0]], names, masses
        k[0] += 1
        # the box may change along the file: only the last one counts
        return {"atoms": a, "cell": CE.Cell(h * (1.0 + 0.5 * (len(data) - k[0]))), "comment": ""}

    try:
        with patched(INI, read_file=read):
            yield fn
    finally:
        for _, f in state.values():
            f.close()
        os.remove(fn)


@contract("P20", "from-frames", [E + "Initializer.init_stage1", E + "init_file", E + "init_beads", E + "init_vector", E + "set_vector"], max_paths=2000)
def _frames(ctx):
    """a file with n frames starts a path of P beads: the frames themselves when n = P, the same low normal modes otherwise; momenta are also
    scaled to the temperature of the path"""
    n, P = ctx.choice("frames", [1, 2, 3, 4]), ctx.choice("P", [1, 2, 3, 4, 5])
    what = ctx.choice("what", ["file", "momenta", "velocities"])
    M = path_map(n, P)
    if M is None:
        return
    N = 2
    mode = ctx.choice("mode", ["xyz", "pdb", "ase"]) if what == "file" else "xyz"
    data = ctx.array("x", (n, 3 * N))
    m = ctx.array("mf", N, pos=True)
    h = upper_h(ctx, "h")
    asked = []
    s = new_system(ctx, 0, 0) if what == "file" else new_system(ctx, N, P, full=True)
    q0, m0 = val(s.beads.q), val(s.beads.m)
    with frame_file(ctx, data, h, ["H", "O"], m, asked) as fn:
        if what == "file":
            inp = II.InputInitializer()
            inp.parse(xml_parse_string("<initialize nbeads='%d'><file mode='%s' units='angstrom' cell_units='nanometer'>%s</file></initialize>" % (P, mode, fn)).fields[0][1])
            INI.Initializer(P, inp.fetch().queue).init_stage1(s)
        else:
            INI.Initializer(P, [(what, INI.InitIndexed(value=fn, mode=mode, units="atomic_unit"))]).init_stage1(s)
    want = ctx.np.array([[sum(float(M[b, j]) * data[j, i] for j in range(n)) for i in range(3 * N)] for b in range(P)])
    if what == "file":
        ctx.ensure_eq("positions", s.beads.q, want)
        ctx.ensure_eq("masses", s.beads.m, m)
        ctx.ensure("labels", [str(x) for x in val(s.beads.names)] == ["H", "O"])
        ctx.ensure_eq("cell", s.cell.h, h)
        ctx.ensure_eq("momenta", s.beads.p, want * 0.0)
        ctx.ensure("positions read in the unit asked for", (mode, "length", "angstrom", "automatic") in asked)
        ctx.ensure("cell read in the unit asked for", (mode, "length", "automatic", "nanometer") in asked)
    else:
        want = want * math.sqrt(P / n)
        if what == "velocities":
            want = want * ctx.np.array([m0[0]] * 3 + [m0[1]] * 3)
        ctx.ensure_eq("momenta", s.beads.p, want)
        ctx.ensure_eq("positions", s.beads.q, q0)
        ctx.ensure_eq("masses", s.beads.m, m0)
        ctx.ensure("read as", set(asked) == {(mode, FAM[what], "atomic_unit", "automatic")})


@contract("P20", "part-of-the-system-from-frames", [E + "Initializer.init_stage1", E + "init_beads", E + "init_vector", E + "set_vector"], max_paths=2000)
def _part(ctx):
    """positions, momenta or velocities of one atom, of one bead, or of one atom of one bead, and masses, labels and cell alone, taken from a
    file: exactly what is named changes, with the path rescaled (and momenta brought to its temperature) when the file has another number
    of frames; masses are those that go with the file whatever units are written beside them"""
    P, N = 3, 2
    s = new_system(ctx, N, P, full=True)
    q0, p0, m0, h0 = val(s.beads.q), val(s.beads.p), val(s.beads.m), val(s.cell.h)
    what = ctx.choice("what", ["positions", "momenta", "velocities", "masses", "labels", "cell"])
    bead = ctx.choice("bead", [-1, 1]) if what in ("positions", "momenta", "velocities") else -1
    index = ctx.choice("index", [-1, 0, 1]) if what != "cell" else -1
    n = ctx.choice("frames", [1, 3, 5]) if bead < 0 else 1
    na = N if index < 0 else 1
    data, h = ctx.array("x", (n, 3 * na)), upper_h(ctx, "h")
    m = ctx.array("mf", na, pos=True)
    lab = ["Na", "Cl"][:na]
    unit = {"masses": ctx.choice("unit of the masses", ["", "atomic_unit", "dalton"]), "labels": "", "cell": "angstrom"}.get(what, "atomic_unit")
    asked = []
    with frame_file(ctx, data, h, lab, m, asked) as fn:
        if what == "cell":
            init = INI.InitBase(value=fn, mode="xyz", units=unit)
        else:
            init = INI.InitIndexed(value=fn, mode="xyz", units=unit, index=index, bead=bead)
        INI.Initializer(P, [(what, init)]).init_stage1(s)
    M = path_map(n, P) if bead < 0 else _np.ones((P, 1))
    q, p, mm, names = q0.copy(), p0.copy(), m0.copy(), ["H", "O"]
    t = q if what == "positions" else p
    sel = [i for i in range(N) if index < 0 or i == index]
    for e, i in enumerate(sel):
        if what in ("positions", "momenta", "velocities"):
            for b in range(P):
                if bead >= 0 and b != bead:
                    continue
                for c in range(3):
                    x = sum(float(M[b, j]) * data[j, 3 * e + c] for j in range(n))
                    if what != "positions" and bead < 0:
                        x = x * math.sqrt(P / n)
                    t[b, 3 * i + c] = x * m0[i] if what == "velocities" else x
        elif what == "masses":
            mm[i] = m[e]
        elif what == "labels":
            names[i] = lab[e]
    if what == "masses":
        for b in range(P):
            for i in range(3 * N):
                x = val(s.beads.p)[b, i]
                ctx.ensure_eq("kinetic energy", x * x * m0[i // 3], p0[b, i] * p0[b, i] * mm[i // 3])
    else:
        ctx.ensure_eq("momenta", s.beads.p, p)
    ctx.ensure_eq("positions", s.beads.q, q)
    ctx.ensure_eq("masses", s.beads.m, mm)
    ctx.ensure("labels", [str(x) for x in val(s.beads.names)] == names)
    ctx.ensure_eq("cell", s.cell.h, h if what == "cell" else h0)


@contract("P20", "from-checkpoint", [E + "Initializer.init_stage1", E + "init_beads", E + "init_vector", E + "set_vector"], max_paths=2000)
def _chk(ctx):
    """positions, momenta, velocities, masses, labels and cell taken from a checkpoint are those of the checkpoint"""
    n, P = ctx.choice("beads of the checkpoint", [1, 2, 3]), ctx.choice("P", [1, 2, 3, 5])
    M = path_map(n, P)
    if M is None:
        return
    N = 2
    what = ctx.choice("what", ["file", "positions", "momenta", "velocities"])
    b = BE.Beads(N, n)
    b.q[:], b.p[:], b.m[:] = ctx.array("cq", (n, 3 * N)), ctx.array("cp", (n, 3 * N)), ctx.array("cm", N, pos=True)
    b.names[:] = ["H", "O"]
    cq, cp, cm = val(b.q), val(b.p), val(b.m)
    h = upper_h(ctx, "h")
    s = new_system(ctx, 0, 0) if what == "file" else new_system(ctx, N, P, full=True)
    q0, p0, m0 = val(s.beads.q), val(s.beads.p), val(s.beads.m)

    def chk(fn):
        c = BE.Beads(N, n)
        c.q[:], c.p[:], c.m[:], c.names[:] = cq, cp, cm, ["H", "O"]
        return c, CE.Cell(h.copy()), None

    def rescale(x, k=1.0):
        return ctx.np.array([[sum(float(M[a, j]) * k * x[j, i] for j in range(n)) for i in range(3 * N)] for a in range(P)])

    with patched(INI, init_chk=chk):
        if what == "file":
            inp = II.InputInitializer()
            inp.parse(xml_parse_string("<initialize nbeads='%d'><file mode='chk'>somewhere</file></initialize>" % P).fields[0][1])
            INI.Initializer(P, inp.fetch().queue).init_stage1(s)
        else:
            INI.Initializer(P, [(what, INI.InitIndexed(value="somewhere", mode="chk", units="automatic"))]).init_stage1(s)
    q, p, m = q0, p0, m0
    k = math.sqrt(P / n)
    if what in ("file", "positions"):
        q = rescale(cq)
    if what in ("file", "momenta"):
        p = rescale(cp, k)
    if what == "velocities":
        p = rescale(cp, k)
        for i in range(3 * N):
            p[:, i] = p[:, i] / cm[i // 3] * m0[i // 3]
    if what == "file":
        m = cm
        ctx.ensure("labels", [str(x) for x in val(s.beads.names)] == ["H", "O"])
        ctx.ensure_eq("cell", s.cell.h, h)
    ctx.ensure_eq("positions", s.beads.q, q)
    ctx.ensure_eq("momenta", s.beads.p, p)
    ctx.ensure_eq("masses", s.beads.m, m)


@contract("P20", "thermal-momenta", [E + "Initializer.init_stage1"], max_paths=500)
def _thermal(ctx):
    """thermal momenta are normal-mode Gaussians of variance (dynamical mass) x P k T, at the temperature asked for or, if none is, at that
    of the ensemble; a single atom leaves the others alone"""
    P, N = ctx.choice("P", [1, 2, 3]), 2
    s = new_system(ctx, N, P, full=True)
    p0, m0, q0 = val(s.beads.p), val(s.beads.m), val(s.beads.q)
    index = ctx.choice("index", [-1, 0, 1])
    what = ctx.choice("what", ["momenta", "velocities"])
    nmm = ctx.choice("masses", ["rpmd", "pa-cmd"]) if P > 1 else "rpmd"
    if nmm == "pa-cmd":
        w = ctx.real("w", pos=True)
        s.nm = NM.NormalModes(mode="pa-cmd", transform_method="matrix", freqs=ctx.np.array([w]))
    kind = ctx.choice("temperature", ["given", "ensemble", "zero"])
    if kind == "given":
        T = ctx.real("T", pos=True)
        t = T
    else:
        T, t = (-1.0 if kind == "ensemble" else 0.0), s.ensemble.temp
    INI.Initializer(P, [(what, INI.InitIndexed(value=T, mode="thermal", units="atomic_unit", index=index))]).init_stage1(s)
    xi = s.prng.draws
    ctx.ensure("one draw per degree of freedom", len(xi) == 1 and xi[0].shape == (P, 3 * (N if index < 0 else 1)))
    A = fourier(P)
    p = val(s.beads.p)
    for i in range(3 * N):
        if index >= 0 and i // 3 != index:
            for b in range(P):
                ctx.ensure_eq("other atoms", p[b, i], p0[b, i])
            continue
        x = xi[0][:, i if index < 0 else i - 3 * index]
        c = [sum(float(A[k, b]) * p[b, i] for b in range(P)) for k in range(P)]
        # modes of one frequency together: a rotation inside a degenerate pair is a convention
        for g in [[0]] + [[k for k in range(1, P) if (k + 1) // 2 == j] for j in range(1, P // 2 + 1)]:
            fac = 1.0
            if nmm == "pa-cmd" and g != [0]:
                om = 2.0 * P * s.ensemble.temp * math.sin(math.pi * ((g[0] + 1) // 2) / P)
                fac = om * om / (w * w)
            ctx.ensure_eq("modes %s" % g, sum(c[k] * c[k] for k in g), sum(x[k] * x[k] for k in g) * m0[i // 3] * t * P * fac)
    ctx.ensure_eq("positions", s.beads.q, q0)


@contract("P20", "refusals", [E + "Initializer.init_stage1", E + "set_vector"], max_paths=500)
def _refuse(ctx):
    """a description that does not determine a system, or does not fit it, is refused"""
    P, N = 2, 2
    case = ctx.choice("case", ["atom-first", "velocities-first", "velocities-before-masses", "thermal-before-masses", "masses-first", "labels-first",
                               "other-size", "bead-range", "atom-range", "no-masses", "no-labels", "no-cell", "no-positions", "thermal-bead",
                               "mass-of-a-bead", "unknown-label"])
    full = case in ("other-size", "bead-range", "atom-range", "thermal-bead", "mass-of-a-bead")
    s = new_system(ctx, N if full else 0, P if full else 0, full=full)
    q, m = ctx.array("q", (P * 3 * N,)), ctx.array("m", (N,), pos=True)
    I = lambda k, v, mode="manual", **kw: (k, INI.InitIndexed(value=v, mode=mode, units="atomic_unit", **kw))
    pos, mas, lab = I("positions", q), I("masses", m), I("labels", ["H", "O"])
    cell = ("cell", INI.InitBase(value=upper_h(ctx, "h").reshape(-1), mode="manual", units="atomic_unit"))
    vel = I("velocities", ctx.array("v", (P * 3 * N,)))
    therm = I("momenta", 1.0, mode="thermal")
    Q = {"atom-first": [I("positions", q[:6], index=0), mas, lab, cell],
         "velocities-first": [vel, pos, mas, lab, cell],
         "velocities-before-masses": [pos, vel, mas, lab, cell],
         "thermal-before-masses": [pos, therm, mas, lab, cell],
         "masses-first": [mas, pos, lab, cell],
         "labels-first": [lab, pos, mas, cell],
         "other-size": [I("positions", ctx.array("w", (P * 3 * 3,)))],
         "bead-range": [I("positions", q[:6], bead=P)],
         "atom-range": [I("positions", q[:6], index=N)],
         "no-masses": [pos, lab, cell],
         "no-labels": [pos, mas, cell],
         "no-cell": [pos, mas, lab],
         "no-positions": [cell],
         "thermal-bead": [I("momenta", 1.0, mode="thermal", bead=0)],
         "mass-of-a-bead": [I("masses", m, bead=0)],
         "unknown-label": [pos, I("masses", -m), lab, cell]}[case]
    try:
        INI.Initializer(P, Q).init_stage1(s)
    except ValueError:
        refused = True
    else:
        refused = False
    ctx.ensure("refused: " + case, refused)


# ------------------------------------------------------------------------------------------------------------------------- through real text
@contract("P20", "from-text", [E + "Initializer.init_stage1", E + "init_file", "ipi/inputs/initializer.py:InputInitBase.getval",
                               "ipi/inputs/initializer.py:InputInitCell.fetch", "ipi/inputs/initializer.py:InputInitMomenta.fetch",
                               "ipi/inputs/initializer.py:InputInitializer.fetch"], sym=False, samples=(80, 1500), why="text parsing and files")
def _text(ctx):
    """the <initialize> block of an input file, with real files beside it"""
    rng = R(ctx)
    N, P = int(rng.integers(1, 6)), int(rng.integers(1, 5))
    n = rng.choice([1, P])
    lab = [rng.choice(["H", "O", "C13", "D", "Cl"]) for _ in range(N)]
    gu = lambda d, u: U.unit_to_internal(d, u, 1.0)
    d = tempfile.mkdtemp()
    try:
        q = rng.uniform(-50, 50, (n, 3 * N))
        h = rnd_cell(rng)
        mode = rng.choice(["xyz", "pdb"])
        u = rng.choice(["angstrom", "atomic_unit", "nanometer"]) if mode == "xyz" else "angstrom"
        cu = rng.choice(["angstrom", "atomic_unit"]) if mode == "xyz" else "angstrom"
        ann = mode == "pdb" or rng.random() < 0.5
        with open(os.path.join(d, "x." + mode), "w") as f:
            for k in range(n):
                a = AT.Atoms(N)
                a.q[:], a.names[:] = q[k] * gu("length", u), lab
                t = _io.StringIO()
                IO.print_file(mode, a, CE.Cell(h * gu("length", cu)), t, key="positions", units=u, cell_units=cu)
                t = t.getvalue()
                f.write(t if ann else t.replace("positions{%s}  cell{%s}" % (u, cu), ""))
        num = lambda x: "[" + rng.choice([", ", ","]).join("%.12e" % y for y in _np.asarray(x).flatten()) + "]"
        attr = "" if ann and rng.random() < 0.5 else " units='%s' cell_units='%s'" % (u, cu)
        x = ["<file mode='%s'%s> %s </file>" % (mode, attr, os.path.join(d, "x." + mode))]
        q1 = _np.repeat(q, P // n, axis=0) * gu("length", u) if n != P else q * gu("length", u)
        h1 = h * gu("length", cu)
        p1 = _np.zeros((P, 3 * N))
        m1 = _np.array([bare_mass(y) for y in lab])
        tolh = 1e-2 * gu("length", cu)
        if rng.random() < 0.5:
            kind, hu = rng.choice(["manual", "abc", "abcABC"]), rng.choice(["angstrom", "atomic_unit"])
            hh = rnd_cell(rng)
            L = [_np.linalg.norm(hh[:, i]) for i in range(3)]
            ang = lambda i, j: math.degrees(math.acos(hh[:, i] @ hh[:, j] / L[i] / L[j]))
            if kind == "manual":
                v = hh
            elif kind == "abc":
                v, hh = L, _np.diag(L)
            else:
                v = L + [ang(1, 2), ang(0, 2), ang(0, 1)]
            x.append("<cell mode='%s' units='%s'> %s </cell>" % (kind, hu, num(v)))
            h1 = hh * gu("length", hu)
            tolh = 1e-7
        if rng.random() < 0.6:
            k, w = ("momenta", rng.normal(size=(P, 3 * N))) if rng.random() < 0.5 else ("velocities", rng.normal(size=(P, 3 * N)))
            wu = rng.choice(["atomic_unit", "m/s"]) if k == "velocities" else "atomic_unit"
            p1 = w * gu(FAM[k], wu) * (_np.repeat(m1, 3) if k == "velocities" else 1.0)
            if rng.random() < 0.5:
                x.append("<%s mode='manual' units='%s'> %s </%s>" % (k, wu, num(w), k))
            else:
                for b in range(P):
                    x.append("<%s mode='manual' units='%s' bead='%d'> %s </%s>" % (k, wu, b, num(w[b]), k))
        if rng.random() < 0.4:
            i = int(rng.integers(0, N))
            mm = float(rng.uniform(1, 50))
            x.append("<masses mode='manual' units='dalton' index='%d'> [%.12e] </masses>" % (i, mm))
            new = mm * gu("mass", "dalton")
            p1[:, 3 * i:3 * i + 3] *= math.sqrt(new / m1[i])
            m1[i] = new
        if rng.random() < 0.4:
            i = int(rng.integers(0, N))
            lab = list(lab)
            lab[i] = rnd_label(rng, 6)
            x.append("<labels mode='manual' index='%d'> [%s] </labels>" % (i, lab[i]))
        if rng.random() < 0.4:
            i, b = int(rng.integers(0, N)), int(rng.integers(0, P))
            y = rng.uniform(-50, 50, 3)
            x.append("<positions mode='manual' units='angstrom' index='%d' bead='%d'> %s </positions>" % (i, b, num(y)))
            q1[b, 3 * i:3 * i + 3] = y * gu("length", "angstrom")
        inp = II.InputInitializer()
        inp.parse(xml_parse_string("<initialize nbeads='%d'>%s</initialize>" % (P, "".join(x))).fields[0][1])
        s = Sys()
        s.beads, s.cell = BE.Beads(0, 0), CE.Cell()
        inp.fetch().init_stage1(s)
    finally:
        shutil.rmtree(d)
    tol = 1.2e-3 * gu("length", u)
    ctx.ensure("positions", _np.allclose(val(s.beads.q), q1, rtol=1e-5, atol=tol))
    ctx.ensure("momenta", _np.allclose(val(s.beads.p), p1, rtol=1e-6, atol=1e-10))
    ctx.ensure("masses", _np.allclose(val(s.beads.m), m1, rtol=1e-9))
    ctx.ensure("labels", [str(y) for y in val(s.beads.names)] == lab)
    ctx.ensure("cell", _np.allclose(val(s.cell.h), h1, rtol=1e-5, atol=tolh * abs(h).max()))
