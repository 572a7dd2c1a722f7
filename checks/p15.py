"""P15: configuration files are read back as they were written."""
import contextlib
import io as _io
import re
import math
import os
import sys
import tempfile
import types

import numpy as _np

from pyvc.contracts import contract
from checks.build import val, upper_h
import ipi.engine.atoms as AT
import ipi.engine.cell as CE
import ipi.engine.beads as BE
import ipi.utils.io as IO
import ipi.utils.io.io_units as IU
import ipi.utils.units as U
import ipi.engine.properties as PR
import ipi.utils.io.backends as BK
from checks.p14 import PHYS

B = "ipi/utils/io/backends/"
ASSUMPTIONS = ["the text layer is decided on sampled frames (bounded); values are compared to the printed precision"]

TRAJ = {k: v["dimension"] for k, v in PR.Trajectories().traj_dict.items() if v.get("dimension")}
ALPHA = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"


def units_of(dim):
    """units of a dimension, spelt in the documented ways (the symbolic proof goes through each of them)"""
    return sorted(PHYS.get(dim, {})) + ["atomic_unit", "automatic"] + (["nanometer"] if dim == "length" else [])


@contextlib.contextmanager
def memory_backend(ctx):
    """A file format that keeps the numbers as they are: what the unit layer is proved against, for every format."""
    mod = types.ModuleType("ipi.utils.io.backends.io_vpmem")
    frames = []

    def print_vpmem(atoms, cell, filedesc=None, title="", cell_conv=1.0, atoms_conv=1.0):
        filedesc.append((title, val(cell.h) * cell_conv, val(atoms.q) * atoms_conv, [str(x) for x in val(atoms.names)]))

    def read_vpmem(filedesc):
        if not filedesc:
            raise EOFError
        t, h, q, n = filedesc.pop(0)
        return t, h.copy(), q.copy(), n, ctx.np.ones(len(n))

    mod.print_vpmem, mod.read_vpmem = print_vpmem, read_vpmem
    sys.modules[mod.__name__] = mod
    BK.io_vpmem = mod
    try:
        yield frames
    finally:
        sys.modules.pop(mod.__name__, None)
        del BK.io_vpmem


@contract("P15", "units-travel-with-the-file", ["ipi/utils/io/__init__.py:print_file", "ipi/utils/io/__init__.py:print_file_raw",
                                                "ipi/utils/io/__init__.py:read_file", "ipi/utils/io/__init__.py:read_file_raw",
                                                "ipi/utils/io/__init__.py:iter_file", "ipi/utils/io/io_units.py:process_units",
                                                "ipi/utils/io/io_units.py:auto_units"], max_paths=4000, limit=700)
def _units(ctx):
    """whatever quantity, unit and cell unit a frame is written in, it is read back in internal units without being told"""
    key = ctx.choice("key", sorted(TRAJ))
    dim = TRAJ[key]
    cunit = ctx.choice("cell", ["angstrom", "nanometer", "atomic_unit", "automatic"])
    title = ctx.choice("title", ["", "Step:          12  Bead:       3 "])
    n = 2
    h = upper_h(ctx, "h")
    q = ctx.array("q", (3 * n,))
    us = units_of(dim)
    u = us[ctx.choice("unit", list(range(8))) % len(us)]
    g = U.unit_to_internal(dim, u, 1.0)
    s = g if dim != "number" else 1.0          # keeps the coefficients of order one
    if ctx.sym and not (1e-8 < s < 1e8):
        q = q * s
    with memory_backend(ctx) as f:
        a = AT.Atoms(n)
        a.q[:] = q
        a.names[:] = ["H", "C13"]
        IO.print_file("vpmem", a, CE.Cell(h.copy()), f, title=title, key=key, dimension=dim, units=u, cell_units=cunit)
        IO.print_file("vpmem", a, CE.Cell(h.copy()), f, title=title, key=key, dimension=dim, units=u, cell_units=cunit)
        ctx.ensure_eq("values in the requested unit", f[0][2] * s, q * (s / g) if dim != "number" else q)
        r = IO.read_file("vpmem", f)
        ctx.ensure_eq("read back", r["atoms"].q, q)
        ctx.ensure_eq("cell", r["cell"].h, h)
        ctx.ensure("labels", [str(x) for x in val(r["atoms"].names)] == ["H", "C13"])
        rs = list(IO.iter_file("vpmem", f))
        ctx.ensure("frames", len(rs) == 1)
        ctx.ensure_eq("iterated", rs[0]["atoms"].q, q)
        ctx.ensure_eq("iterated cell", rs[0]["cell"].h, h)


@contract("P15", "requested-units-against-the-file", ["ipi/utils/io/io_units.py:auto_units", "ipi/utils/io/io_units.py:process_units"], max_paths=4000, limit=700)
def _req(ctx):
    """a unit, cell unit or quantity asked for explicitly is used when the file says nothing and refused when the file says otherwise"""
    key = ctx.choice("key", ["positions", "velocities", "forces", "momenta", "x_centroid"])
    said = ctx.choice("said", [True, False])
    funit = ctx.choice("funit", ["atomic_unit", "other"])
    ask = ctx.choice("ask", ["right", "wrong-unit", "wrong-dimension", "wrong-cell"])
    other = {"length": "angstrom", "velocity": "m/s", "force": "ev/ang", "momentum": "atomic_unit"}
    dim = TRAJ[key]
    u = other[dim] if funit == "other" else "atomic_unit"
    if ask == "wrong-unit" and dim == "momentum":
        return
    h, q = upper_h(ctx, "h"), ctx.array("q", (6,))
    comment = "# a title " + ("%s{%s}  cell{angstrom}" % (key, u) if said else "") + "\n"
    rdim = dim if ask != "wrong-dimension" else ("energy" if dim != "energy" else "length")
    ru = u if ask != "wrong-unit" else ("atomic_unit" if u != "atomic_unit" else other[dim])
    if ask == "wrong-dimension":
        ru = "atomic_unit"
    rc = "angstrom" if ask != "wrong-cell" else "nanometer"
    try:
        r = IU.process_units(comment, h.copy(), q.copy(), ["H", "O"], ctx.np.ones(2), 2, dimension=rdim, units=ru, cell_units=rc)
    except ValueError:
        ctx.ensure("refused only when it contradicts the file", said and ask != "right")
        return
    ctx.ensure("a contradiction is refused", not said or ask == "right")
    ctx.ensure_eq("values", r["atoms"].q, q * U.unit_to_internal(rdim, ru, 1.0))
    ctx.ensure_eq("cell", r["cell"].h, h * U.unit_to_internal("length", rc, 1.0))
    ctx.ensure_eq("masses", r["atoms"].m, ctx.np.ones(2))


# ----------------------------------------------------------------------------------------------------------------------------------- text
def rnd_cell(rng):
    """a cell without extreme angles, so that the printed precision determines it"""
    while True:
        al, be, ga = [rng.choice([90.0, rng.uniform(55, 125)]) * math.pi / 180 for _ in range(3)]
        a, b, c = [float(10 ** rng.uniform(0.3, 2.3)) for _ in range(3)]
        ca, cb, cg, sg = math.cos(al), math.cos(be), math.cos(ga), math.sin(ga)
        w = 1 - cb ** 2 - ((ca - cb * cg) / sg) ** 2
        if w > 0.15:
            break
    return _np.array([[a, b * cg, c * cb], [0, b * sg, c * (ca - cb * cg) / sg], [0, 0, c * math.sqrt(w)]])


def rnd_label(rng, n):
    if rng.random() < 0.5:
        return rng.choice([x for x in ("H", "C", "O", "He", "Cl", "C13", "O17", "D", "T", "Si", "X") if len(x) <= n])
    return rng.choice(ALPHA[:52]) + "".join(rng.choice(list(ALPHA)) for _ in range(int(rng.integers(0, n))))


class R:
    """random numbers of a concrete run through one seed"""

    def __init__(self, ctx):
        self.g = _np.random.default_rng(int(ctx.integer("seed", 0, 10 ** 9)))

    def __getattr__(self, k):
        return getattr(self.g, k)

    def choice(self, xs):
        return xs[int(self.g.integers(0, len(xs)))]


def hclose(ctx, name, h, g, dl, da):
    """cells agree to printed lengths (dl) and angles (da, degrees)"""
    h, g = _np.asarray(h), _np.asarray(g)
    L = [_np.linalg.norm(h[:, i]) for i in range(3)]
    M = [_np.linalg.norm(g[:, i]) for i in range(3)]
    for i in range(3):
        ctx.ensure(name + " length", abs(L[i] - M[i]) <= dl * 1.01 + 1e-12 * L[i])
        j = (i + 1) % 3
        x = math.degrees(math.acos(h[:, i] @ h[:, j] / L[i] / L[j]))
        y = math.degrees(math.acos(g[:, i] @ g[:, j] / M[i] / M[j]))
        ctx.ensure(name + " angle", abs(x - y) <= da * 1.01 + 1e-9)
    ctx.ensure(name + " orientation", g[1, 0] == 0 and g[2, 0] == 0 and g[2, 1] == 0 and min(g[0, 0], g[1, 1], g[2, 2]) > 0)


def frames(ctx, rng, mode):
    fr = []
    for _ in range(int(rng.integers(1, 5))):
        n = int(rng.integers(1, 30))
        if mode == "xyz":
            ex = rng.choice([0, 0, 0, 3, -4, 30, -30, 99])
            q = rng.uniform(-1, 1, 3 * n) * 10.0 ** ex * 10.0 ** rng.uniform(-1, 2, 3 * n)
        elif mode == "json":
            q = rng.uniform(-1, 1, 3 * n) * 10.0 ** rng.uniform(-9, 9, 3 * n)
        else:
            q = rng.uniform(-1, 1, 3 * n) * 10.0 ** rng.uniform(-1, 2.99, 3 * n)
            k = rng.random(3 * n)
            q = _np.where(k < 0.1, rng.uniform(1000, 9999, 3 * n), q)
            q = _np.where(k > 0.9, rng.uniform(-999, -100, 3 * n), q)
        fr.append((n, q, [rnd_label(rng, 6 if mode == "xyz" else 4) for _ in range(n)], rnd_cell(rng)))
    return fr


def bare_mass(label):
    m = U.Elements.mass_list.get(label)
    return m * U.Constants.amu if m is not None else -1.0


def text(mode):
    tg = {"xyz": ["io_xyz.py:print_xyz", "io_xyz.py:read_xyz"], "pdb": ["io_pdb.py:print_pdb", "io_pdb.py:read_pdb"],
          "json": ["io_json.py:print_json", "io_json.py:read_json"]}[mode]

    @contract("P15", "text-" + mode, [B + t for t in tg] + ["ipi/utils/io/__init__.py:iter_file_raw"], sym=False, samples=(150, 3000),
              why="text formatting and parsing")
    def _t(ctx):
        rng = R(ctx)
        if mode == "pdb":
            key, u = "positions", rng.choice(["automatic", "angstrom"])
        else:
            key = rng.choice(sorted(TRAJ))
            u = rng.choice(units_of(TRAJ[key]))
        dim = TRAJ[key]
        cu = rng.choice(["automatic", "angstrom", "atomic_unit", "nanometer"]) if mode != "pdb" else rng.choice(["automatic", "angstrom"])
        fr = frames(ctx, rng, mode)
        f = _io.StringIO()
        default = "angstrom" if mode == "pdb" else "atomic_unit"
        gu = U.unit_to_internal(dim, default if u == "automatic" else u, 1.0)
        gc = U.unit_to_internal("length", default if cu == "automatic" else cu, 1.0)
        title = rng.choice(["", "Step:  %10d  Bead:   %5d " % (rng.integers(0, 10 ** 6), rng.integers(0, 64))])
        for n, q, lab, h in fr:
            a = AT.Atoms(n)
            a.q[:], a.names[:] = q * gu, lab
            IO.print_file(mode, a, CE.Cell(h * gc), f, title=title, key=key, dimension=dim, units=u, cell_units=cu)
        f.seek(0)
        how = rng.choice(["iter", "read"])
        if how == "iter":
            got = list(IO.iter_file(mode, f))
        else:
            got = []
            while True:
                try:
                    got.append(IO.read_file(mode, f))
                except EOFError:
                    break
        ctx.ensure("number of frames", len(got) == len(fr))
        for (n, q, lab, h), r in zip(fr, got):
            at = r["atoms"]
            ctx.ensure("atoms", at.natoms == n)
            ctx.ensure("labels", [str(x) for x in val(at.names)] == lab)
            if mode != "json":
                ctx.ensure("masses from labels", _np.allclose(val(at.m), [bare_mass(x) for x in lab], rtol=1e-12))
            x = _np.asarray(val(at.q)) / gu
            tol = {"xyz": 5.1e-6 * 10 ** _np.floor(_np.log10(_np.maximum(abs(q), 1e-300))) + abs(q) * 1e-12, "json": abs(q) * 1e-12, "pdb": 5.1e-4 + 0 * q}[mode]
            ctx.ensure("values", bool(_np.all(abs(x - q) <= tol * 1.01)))
            dl, da = {"xyz": (5e-6, 5e-6), "json": (1e-9, 1e-9), "pdb": (5e-4, 5e-3)}[mode]
            hclose(ctx, "cell", h, _np.asarray(val(r["cell"].h)) / gc, dl, da)
    _t.__doc__ = "frames written in the %s format are read back one by one with the same atoms, labels, masses, values and cell" % mode


for _m in ("xyz", "pdb", "json"):
    text(_m)


def numbers_close(a, b):
    """two texts differ at most in the last printed digit of their numbers"""
    num = r"[-+]?\d+\.\d+(?:[eE][-+]?\d+)?"
    if re.sub(r"\s+", " ", re.sub(num, "#", a)) != re.sub(r"\s+", " ", re.sub(num, "#", b)):
        return False
    for x, y in zip(re.findall(num, a), re.findall(num, b)):
        m = x.split("e")[0]
        last = 10.0 ** (-len(m.split(".")[1])) * (10.0 ** int(x.split("e")[1]) if "e" in x else 1.0)
        if abs(float(x) - float(y)) > 1.5 * last:
            return False
    return True


@contract("P15", "text-path", [B + "io_xyz.py:print_xyz_path", B + "io_pdb.py:print_pdb_path", "ipi/utils/io/__init__.py:print_file_path"],
          sym=False, samples=(60, 600), why="text formatting and parsing")
def _path(ctx):
    """a path printed bead by bead contains every bead of it, in order"""
    rng = R(ctx)
    mode = rng.choice(["xyz", "pdb"])
    n, P = int(rng.integers(1, 8)), int(rng.integers(1, 6))
    b = BE.Beads(n, P)
    gu = 1.0 if mode == "xyz" else U.unit_to_internal("length", "angstrom", 1.0)
    q = rng.uniform(-1, 1, (P, 3 * n)) * rng.choice([1, 90, 900])
    lab = [rnd_label(rng, 4) for _ in range(n)]
    b.q[:], b.names[:] = q * gu, lab
    h = rnd_cell(rng)
    f = _io.StringIO()
    IO.print_file_path(mode, b, CE.Cell(h * gu), f)
    pu, cu = rng.choice(["angstrom", "nanometer", "atomic_unit"]), rng.choice(["angstrom", "nanometer", "atomic_unit"])
    gp, gc = U.unit_to_internal("length", pu, 1.0), U.unit_to_internal("length", cu, 1.0)
    b2 = BE.Beads(n, P)
    b2.q[:], b2.names[:] = q * gp, lab
    f2 = _io.StringIO()
    IO.print_file_path(mode, b2, CE.Cell(h * gc), f2, units=pu, cell_units=cu)
    ctx.ensure("the numbers are those of the units asked for", f2.getvalue() == f.getvalue() or numbers_close(f2.getvalue(), f.getvalue()))
    if mode == "xyz":
        f.seek(0)
        got = [(r["cell"].h, [str(x) for x in val(r["atoms"].names)], _np.asarray(val(r["atoms"].q))) for r in IO.iter_file("xyz", f)]
        tol = 5.1e-6 * 10 ** _np.floor(_np.log10(abs(q)))
    else:
        t = "".join(ln for ln in f.getvalue().splitlines(True) if not ln.startswith("CONECT"))
        r = IO.read_file("pdb", _io.StringIO(t))
        x, nm = _np.asarray(val(r["atoms"].q)) / gu, [str(y) for y in val(r["atoms"].names)]
        ctx.ensure("all beads", len(nm) == n * P)
        got = [(_np.asarray(val(r["cell"].h)) / gu, nm[i * n:(i + 1) * n], x[3 * n * i:3 * n * (i + 1)]) for i in range(P)]
        tol = 5.1e-4 + 0 * q
    ctx.ensure("number of beads", len(got) == P)
    for i, (hh, nm, x) in enumerate(got):
        ctx.ensure("labels", nm == lab)
        ctx.ensure("values", bool(_np.all(abs(x - q[i]) <= tol[i] * 1.01)))
        hclose(ctx, "cell", h, val(hh), *((5e-6, 5e-6) if mode == "xyz" else (5e-4, 5e-3)))


@contract("P15", "text-cell-conventions", [B + "io_xyz.py:read_xyz", "ipi/utils/mathtools.py:genh2abc", "ipi/utils/mathtools.py:abc2h"], sym=False,
          samples=(120, 2000), why="text parsing")
def _cell(ctx):
    """a cell given by sides and angles, by its matrix or by arbitrary lattice vectors; in the last case the atoms turn with the cell, so that
    fractional coordinates and distances stay"""
    rng = R(ctx)
    kind = rng.choice(["abcABC", "H", "GENH", "none"])
    n = int(rng.integers(1, 6))
    h = rnd_cell(rng)
    q = rng.uniform(-30, 30, (n, 3))
    o, c = rng.choice(["()", "[]", "{}"])
    br = lambda s: "CELL%s%s%s: " % (o, s, c)
    if kind == "abcABC":
        L = [_np.linalg.norm(h[:, i]) for i in range(3)]
        ang = lambda i, j: math.degrees(math.acos(h[:, i] @ h[:, j] / L[i] / L[j]))
        nf = rng.choice(["%.12f", "%.12e", "%+.12f", "%.12E", "%15.10f"])
        com = br(kind) + " ".join(nf % x for x in L + [ang(1, 2), ang(0, 2), ang(0, 1)])
    elif kind == "H":
        com = br(kind) + " ".join("%.12e" % x for x in h.flatten())
    elif kind == "GENH":
        Q, _ = _np.linalg.qr(rng.normal(size=(3, 3)))
        if _np.linalg.det(Q) < 0:
            Q[:, 0] *= -1
        G = (Q @ h).T              # rows are lattice vectors, turned by Q
        com = br(kind) + " ".join("%.12e" % x for x in G.flatten())
    else:
        com = "nothing to say"
    qf = q @ Q.T if kind == "GENH" else q
    cu, pu = rng.choice(["angstrom", "atomic_unit"]), rng.choice(["angstrom", "atomic_unit"])
    t = "%d\n# %s  positions{%s}  cell{%s}\n" % (n, com, pu, cu) + "".join("H %.12e %.12e %.12e\n" % tuple(x) for x in qf)
    if rng.random() < 0.5:
        t = t + t
    if rng.random() < 0.3:             # the file is silent and the units are asked for
        t = t.replace("positions{%s}  cell{%s}" % (pu, cu), "")
        kw = dict(dimension="length", units=pu, cell_units=cu)
    else:
        kw = {}
    if rng.random() < 0.5:
        rs = list(IO.iter_file("xyz", _io.StringIO(t), **kw))
        ctx.ensure("all frames", len(rs) == 1 + (t.count("CELL") == 2 or t.count("nothing to say") == 2))
        r = rs[-1]
    else:
        r = IO.read_file("xyz", _io.StringIO(t), **kw)
    gp, gc = U.unit_to_internal("length", pu, 1.0), U.unit_to_internal("length", cu, 1.0)
    got = _np.asarray(val(r["atoms"].q)).reshape(n, 3) / gp
    ctx.ensure("positions", _np.allclose(got, q, atol=1e-6))
    hh = _np.asarray(val(r["cell"].h)) / gc
    ctx.ensure("cell", _np.allclose(hh, h if kind != "none" else -_np.identity(3), atol=1e-6 * abs(h).max()))


@contract("P15", "text-truncated", [B + "io_xyz.py:read_xyz"], sym=False, samples=(80, 800), why="text parsing")
def _trunc(ctx):
    """an xyz file cut after any line gives the complete frames and then an error, never a frame with invented atoms"""
    rng = R(ctx)
    fr = frames(ctx, rng, "xyz")
    f = _io.StringIO()
    ends = [0]
    for n, q, lab, h in fr:
        a = AT.Atoms(n)
        a.q[:], a.names[:] = q, lab
        IO.print_file("xyz", a, CE.Cell(h), f, key="positions")
        ends.append(ends[-1] + n + 2)
    ln = f.getvalue().splitlines(True)
    cut = int(rng.integers(0, len(ln) + 1))
    g = _io.StringIO("".join(ln[:cut]))
    got, err = [], None
    try:
        for r in IO.iter_file("xyz", g):
            got.append(r)
    except (ValueError, RuntimeError, IndexError, StopIteration) as e:
        err = e
    whole = max(i for i, e in enumerate(ends) if e <= cut)
    ctx.ensure("complete frames only", len(got) == whole)
    ctx.ensure("error iff cut inside a frame", (err is not None) == (cut not in ends))
    for (n, q, lab, h), r in zip(fr, got):
        ctx.ensure("values", _np.allclose(val(r["atoms"].q), q, rtol=1e-5))


@contract("P15", "binary", [B + "io_binary.py:print_binary", B + "io_binary.py:read_binary"], sym=False, samples=(40, 400), why="binary file")
def _bin(ctx):
    """a frame written in binary form is read back exactly"""
    rng = R(ctx)
    n = int(rng.integers(1, 30))
    q, lab, h = rng.normal(size=3 * n) * 10.0 ** rng.uniform(-30, 30), [rnd_label(rng, 6) for _ in range(n)], rnd_cell(rng)
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "x.bin")
    try:
        a = AT.Atoms(n)
        a.q[:], a.names[:] = q, lab
        with open(fn, "wb") as f:
            IO.print_file("bin", a, CE.Cell(h), f, key="positions", units="angstrom", cell_units="nanometer")
        with open(fn, "rb") as f:
            r = IO.read_file("bin", f)
    finally:
        if os.path.exists(fn):
            os.remove(fn)
        os.rmdir(d)
    ctx.ensure("values", _np.allclose(val(r["atoms"].q), q, rtol=1e-12, atol=0))
    ctx.ensure("labels", [str(x) for x in val(r["atoms"].names)] == lab)
    ctx.ensure("cell", _np.allclose(val(r["cell"].h), h, rtol=1e-12))
