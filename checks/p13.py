"""P13: simulation cell geometry."""
from pyvc.contracts import contract
from checks.build import val, upper_h
import ipi.engine.cell as CE
import ipi.engine.atoms as AT
import ipi.utils.mathtools as mt
import ipi.inputs.cell as IC
import ipi.inputs.initializer as II

C = "ipi/engine/cell.py:"
M = "ipi/utils/mathtools.py:"
ASSUMPTIONS = ["rounding to the nearest integer is an integer-valued function with |x - round(x)| <= 1/2"]


@contract("P13", "inverse-and-volume", [C + "Cell.get_ih", C + "Cell.get_volume", M + "invert_ut3x3", M + "det_ut3x3"])
def _inv(ctx):
    """the inverse cell is the inverse matrix and the volume is the determinant, also after the cell is changed in place or replaced"""
    np = ctx.np
    h = upper_h(ctx, "h")
    c = CE.Cell(h.copy())
    g = upper_h(ctx, "g")
    how = ctx.choice("change", ["none", "replace", "scale", "element", "row"])
    val(c.ih), val(c.V)
    if how == "replace":
        c.h = g.copy()
        h = g
    elif how == "scale":
        k = ctx.real("k", pos=True)
        c.h *= k
        h = h * k
    elif how == "element":
        c.h[0, 2] = g[0, 2]
        h[0, 2] = g[0, 2]
    elif how == "row":
        c.h[1] = g[1]
        h[1] = g[1]
    ctx.ensure_eq("cell", c.h, h)
    ctx.ensure_eq("h ih = 1", np.dot(h, val(c.ih)), np.identity(3))
    ctx.ensure_eq("ih h = 1", np.dot(val(c.ih), h), np.identity(3))
    det = (h[0, 0] * (h[1, 1] * h[2, 2] - h[1, 2] * h[2, 1]) - h[0, 1] * (h[1, 0] * h[2, 2] - h[1, 2] * h[2, 0])
           + h[0, 2] * (h[1, 0] * h[2, 1] - h[1, 1] * h[2, 0]))
    ctx.ensure_eq("volume", c.V, det)
    d = c.clone()
    ctx.ensure_eq("clone", d.h, h)
    d.h[0, 0] = 5.0
    ctx.ensure_eq("clone is independent", c.h, h)


@contract("P13", "generic-cell", [C + "GenericCell.get_ih", C + "GenericCell.get_volume", C + "GenericCell.clone"], sym=False,
          samples=(40, 400), why="general matrix inverse of numpy")
def _gen(ctx):
    """same for a cell that is not upper triangular"""
    import numpy as np
    h = np.asarray(ctx.array("h", (3, 3)))
    ctx.assume(abs(np.linalg.det(h)) > 0.05)
    c = CE.GenericCell(h.copy())
    ctx.ensure_eq("h ih = 1", np.dot(h, val(c.ih)), np.identity(3))
    ctx.ensure_eq("volume", c.V, np.linalg.det(h))
    d = c.clone()
    ctx.ensure("clone keeps the kind of cell", type(d) is CE.GenericCell)
    ctx.ensure_eq("clone", d.ih, c.ih)


@contract("P13", "sides-and-angles", [M + "abc2h", M + "h2abc", M + "h2abc_deg", M + "genh2abc"])
def _abc(ctx):
    """lengths and angles describe the cell: the metric of the built cell is the requested one, it is upper triangular with positive
    diagonal, and conversion back and forth is the identity"""
    np = ctx.np
    way = ctx.choice("way", ["matrix-first", "angles-first"])
    if way == "matrix-first":
        h = upper_h(ctx, "h")
        a, b, c, al, be, ga = mt.h2abc(h)
        G = np.dot(h.T, h)
        ctx.ensure_eq("a", a * a, G[0, 0])
        ctx.ensure_eq("b", b * b, G[1, 1])
        ctx.ensure_eq("c", c * c, G[2, 2])
        ctx.ensure_eq("gamma", a * b * np.cos(ga), G[0, 1])
        ctx.ensure_eq("beta", a * c * np.cos(be), G[0, 2])
        ctx.ensure_eq("alpha", b * c * np.cos(al), G[1, 2])
        d = mt.h2abc_deg(h)
        for i, (x, y) in enumerate(zip(d, (a, b, c, al, be, ga))):
            ctx.ensure_eq("degrees", x, y if i < 3 else y * 180 / np.pi)
        if not ctx.sym:
            ctx.ensure_eq("general form", np.array(mt.genh2abc(h.T)), np.array((a, b, c, al, be, ga)))
            ctx.ensure_eq("back", mt.abc2h(a, b, c, al, be, ga), h)
            ctx.ensure("positive", min(a, b, c) > 0)
    else:
        h0 = upper_h(ctx, "h")
        if ctx.sym:
            a, b, c = ctx.real("a", pos=True), ctx.real("b", pos=True), ctx.real("c", pos=True)
            al, be, ga = ctx.real("al", pos=True), ctx.real("be", pos=True), ctx.real("ga", pos=True)
        else:
            import math
            G = h0.T.dot(h0)
            a, b, c = [math.sqrt(G[i, i]) for i in range(3)]
            al, be, ga = math.acos(G[1, 2] / b / c), math.acos(G[0, 2] / a / c), math.acos(G[0, 1] / a / b)
        h = mt.abc2h(a, b, c, al, be, ga)
        G = np.dot(h.T, h)
        ctx.ensure_eq("a", G[0, 0], a * a)
        ctx.ensure_eq("b", G[1, 1], b * b)
        ctx.ensure_eq("c", G[2, 2], c * c)
        ctx.ensure_eq("gamma", G[0, 1], a * b * np.cos(ga))
        ctx.ensure_eq("beta", G[0, 2], a * c * np.cos(be))
        ctx.ensure_eq("alpha", G[1, 2], b * c * np.cos(al))
        for i, j in [(1, 0), (2, 0), (2, 1)]:
            ctx.ensure_eq("upper triangular", h[i, j], 0.0)
        if not ctx.sym:
            ctx.ensure_eq("same cell", h, h0)


@contract("P13", "periodic-images", [C + "Cell.array_pbc", C + "Cell.apply_pbc", C + "Cell.minimum_distance"])
def _pbc(ctx):
    """wrapping moves every atom by the lattice vectors that bring its fractional coordinates closest to zero, and changes nothing else"""
    np = ctx.np
    h = upper_h(ctx, "h")
    c = CE.Cell(h.copy())
    q = ctx.array("q", (2, 3))
    pos = q.copy().reshape(6)
    kind = ctx.choice("kind", ["array", "atom", "pair"])

    def image(x):
        s = [(x * val(c.ih)[i]).sum() for i in range(3)]
        s = [y - round(y) for y in s]
        return np.array([sum(h[i, j] * s[j] for j in range(3)) for i in range(3)])
    if kind == "array":
        c.array_pbc(pos)
        for i in range(2):
            ctx.ensure_eq("image", pos[3 * i:3 * i + 3], image(q[i]))
    else:
        at = AT.Atoms(2)
        at.q = pos.copy()
        if kind == "atom":
            ctx.ensure_eq("image", c.apply_pbc(at[1]), image(q[1]))
        else:
            ctx.ensure_eq("separation", c.minimum_distance(at[0], at[1]), image(q[0] - q[1]))
        ctx.ensure_eq("positions untouched", at.q, pos)
    if not ctx.sym:
        import numpy
        if kind == "array":
            s = (numpy.linalg.inv(h).dot((q - pos.reshape(2, 3)).T)).T
            ctx.ensure_eq("lattice translation", s, numpy.round(s))
            w = numpy.linalg.inv(h).dot(pos.reshape(2, 3).T)
            ctx.ensure("inside the cell", numpy.abs(w).max() <= 0.5 + 1e-9)


@contract("P13", "cell-input", ["ipi/inputs/cell.py:InputCell.check", "ipi/inputs/cell.py:InputCell.store", "ipi/inputs/cell.py:InputCell.fetch",
                               "ipi/inputs/initializer.py:InputInitCell.fetch"], sym=False, samples=(60, 400),
          why="text parsing")
def _in(ctx):
    """cells are read as upper-triangular column matrices: other matrices are refused or have their lower part dropped; side lengths and
    angles in degrees give the cell with that metric, in the units of the input"""
    import numpy as np
    h = upper_h(ctx, "h")
    w = ctx.choice("what", ["cell", "bad", "abc", "abcABC", "manual", "manual-bad"])
    if w in ("cell", "bad"):
        i = IC.InputCell()
        if w == "cell":
            i.store(CE.Cell(h.copy()))
            ctx.ensure_eq("stored cell", i.fetch().h, h)
            i.check()
        else:
            g = h.copy()
            k = ctx.choice("k", [(1, 0), (2, 0), (2, 1)])
            g[k] = 0.3
            i.store(CE.Cell(g))
            try:
                i.check()
                ok = False
            except ValueError:
                ok = True
            ctx.ensure("lower triangle refused", ok)
        return
    i = II.InputInitCell()
    deg = np.array(mt.h2abc_deg(h))
    if w == "abc":
        text, want = deg[:3], np.diag(deg[:3])
    elif w == "abcABC":
        text, want = deg, h
    elif w == "manual":
        text, want = h.reshape(9), h
    else:
        g = h.copy()
        g[2, 1] = 0.2
        g[1, 0] = -0.1
        text, want = g.reshape(9), h
    from ipi.utils.io.inputs.io_xml import xml_parse_string
    body = "[" + ",".join("%.17g" % x for x in text) + "]"
    node = xml_parse_string("<cell mode='%s' units='angstrom'> %s </cell>" % (w.replace("-bad", ""), body))
    i.parse(dict(node.fields)["cell"])
    v = i.fetch()
    got = np.array(v.value).reshape(3, 3)
    ctx.ensure_eq("cell matrix", got, want)
    ctx.ensure("units", v.units == "angstrom")
