"""P14: units."""
from pyvc.contracts import contract
from checks.build import val
import ipi.utils.units as U
import ipi.utils.inputvalue as IV
import ipi.engine.properties as PR
from ipi.utils.io.inputs.io_xml import xml_parse_string

F = "ipi/utils/units.py:"
I = "ipi/utils/inputvalue.py:"
P = "ipi/engine/properties.py:"
ASSUMPTIONS = ["CODATA 2018 values of the atomic units are the oracle, to 2e-6 relative (5e-5 for debye and pressures); calories are International Table calories (4.1868 J), as tabulated in the code"]

# CODATA 2018, SI
HA, BOHR, ME, TAU = 4.3597447222071e-18, 5.29177210903e-11, 9.1093837015e-31, 2.4188843265857e-17
EV, KB, NA, AMU, CLIGHT, HBAR = 1.602176634e-19, 1.380649e-23, 6.02214076e23, 1.66053906660e-27, 299792458.0, 1.054571817e-34
PI = 3.141592653589793
PHYS = {
    "undefined": {}, "ms-momentum": {}, "momentum": {},
    "energy": {"electronvolt": EV / HA, "j/mol": 1 / NA / HA, "cal/mol": 4.1868 / NA / HA, "kelvin": KB / HA},
    "temperature": {"kelvin": KB / HA},
    "time": {"second": 1 / TAU},
    "frequency": {"inversecm": 2 * PI * CLIGHT * 100 * TAU, "hertz*rad": TAU, "hertz": 2 * PI * TAU, "hz": 2 * PI * TAU,
                  "thz": 2 * PI * TAU * 1e12},
    "electric-field": {"v/ang": EV / 1e-10 / (HA / BOHR)},
    "electric-dipole": {"eang": 1e-10 / BOHR, "debye": 3.33564095e-30 / (EV * BOHR)},
    "length": {"angstrom": 1e-10 / BOHR, "meter": 1 / BOHR, "radian": 1.0, "degree": PI / 180},
    "action": {"joule*second": 1 / HBAR},
    "volume": {"angstrom3": (1e-10 / BOHR) ** 3},
    "velocity": {"m/s": TAU / BOHR},
    "mass": {"dalton": AMU / ME, "electronmass": 1.0},
    "pressure": {"bar": 1e5 * BOHR ** 3 / HA, "atmosphere": 101325 * BOHR ** 3 / HA, "pascal": BOHR ** 3 / HA,
                 "ev/ang3": EV / HA * (BOHR * 1e10) ** 3},
    "density": {"g/cm3": 1000 * BOHR ** 3 / ME},
    "force": {"newton": BOHR / HA, "ev/ang": EV / HA * BOHR * 1e10},
    "hessian": {"ev/ang^2": EV / HA * (BOHR * 1e10) ** 2},
}
PREFIX = {"": 0, "yotta": 24, "zetta": 21, "exa": 18, "peta": 15, "tera": 12, "giga": 9, "mega": 6, "kilo": 3, "milli": -3,
          "micro": -6, "nano": -9, "pico": -12, "femto": -15, "atto": -18, "zepto": -21, "yocto": -24}


def ambiguous(prefix, base):
    """prefix+base spells something else when read greedily (none in the current tables)"""
    return False


@contract("P14", "conversion", [F + "unit_to_internal", F + "unit_to_user"])
def _conv(ctx):
    """x unit -> internal -> unit is x; every unit has its physical value; prefixes multiply by powers of ten; the spelling of the base
    unit is case-insensitive"""
    fam = ctx.choice("family", sorted(PHYS))
    x = ctx.real("x")
    A = ctx.array("A", (2, 2))
    for b, v in sorted(PHYS[fam].items()):
        for p, e in PREFIX.items():
            got = U.unit_to_internal(fam, p + b, 1.0)
            ctx.ensure("value of %s%s" % (p, b), abs(got / (v * 10.0 ** e) - 1) < (5e-5 if fam in ("pressure", "electric-dipole") else 2e-6))
            if p in ("", "kilo", "femto"):
                k, j = (1.0, got) if got > 1 else (1 / got, 1.0)        # keep all coefficients of order one
                ctx.ensure_eq("linear", U.unit_to_internal(fam, p + b, x * k) / j, x)
                ctx.ensure_eq("array", U.unit_to_internal(fam, p + b, A * k) / j, A)
                ctx.ensure_eq("there and back", U.unit_to_user(fam, p + b, U.unit_to_internal(fam, p + b, x * k) / j) * got, x)
                ctx.ensure_eq("spelling", U.unit_to_internal(fam, p + b.capitalize(), x * k) / j, x)
    for b in ("", "automatic", "atomic_unit"):
        ctx.ensure_eq("internal units", U.unit_to_internal(fam, b, x), x)
        ctx.ensure_eq("internal units", U.unit_to_user(fam, b, x), x)
    ctx.ensure_eq("pure number", U.unit_to_internal("number", "whatever", x), x)


@contract("P14", "conversion-precision", [F + "unit_to_internal", F + "unit_to_user"], sym=False, samples=(300, 2000),
          why="whole numbers, numpy types and the last digits are below the real-number abstraction of the proof above")
def _prec(ctx):
    """conversions keep every digit of the number, whether it is a whole number or a fraction, a scalar or an array, small or large"""
    import numpy as np
    fam = ctx.choice("family", [k for k in sorted(PHYS) if PHYS[k]])
    b = sorted(PHYS[fam])[ctx.choice("k", [0, 1, 2, 3]) % len(PHYS[fam])]
    p = ctx.choice("p", sorted(PREFIX))
    x = float(ctx.real("x")) * 10.0 ** ctx.choice("e", [-12, -3, 0, 5, 14])
    n = ctx.choice("n", [0, 1, 3, -7, 12345])
    kind = ctx.choice("kind", ["float", "int", "array", "int array", "numpy", "numpy int"])
    v = {"float": x, "int": n, "array": np.array([x, n, -x]), "int array": np.array([n, 2, -5]), "numpy": np.float64(x), "numpy int": np.int64(n)}[kind]
    keep = np.array(v)
    f = U.unit_to_internal(fam, p + b, 1.0)
    r = float(U.unit_to_user(fam, p + b, 1.0))
    ctx.ensure("one over", abs(f * r - 1) < 1e-14)
    ref = np.array(v, float)
    big = np.abs(ref).max() + 1e-300
    a = np.array(U.unit_to_internal(fam, p + b, v), float)
    c = np.array(U.unit_to_user(fam, p + b, v), float)
    ctx.ensure("to internal, every digit (%s)" % kind, np.abs(a / f - ref).max() < 1e-14 * big)
    ctx.ensure("to user, every digit (%s)" % kind, np.abs(c * f - ref).max() < 1e-14 * big)
    ctx.ensure("the argument is not changed", (np.array(v) == keep).all())


@contract("P14", "unknown-units-refused", [F + "unit_to_internal"], sym=False, samples=(200, 1000), why="text processing")
def _bad(ctx):
    """a unit that is not one of the family (misspelt, or of another family) is refused, never silently taken as something else"""
    fam = ctx.choice("family", sorted(PHYS))
    other = ctx.choice("other", sorted(PHYS))
    us = sorted(PHYS[other]) + ["foo", "kg", "angstrm", "kilo", "milliatomic", "1", "ev"]
    u = us[ctx.choice("k", list(range(40))) % len(us)]
    p = ctx.choice("p", sorted(PREFIX))
    if u in PHYS[fam] or (p + u) in PHYS[fam] or (u == "kilo" and p == ""):
        return
    if u in PREFIX:      # a bare prefix means a multiple of the internal unit
        return
    import io
    import contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            U.unit_to_internal(fam, p + u, 1.0)
        ok = False
    except (TypeError, ValueError, IndexError):
        ok = True
    ctx.ensure("refused: %s %s" % (fam, p + u), ok)
    q = ctx.choice("case", ["upper", "capital", "mixed"])
    w = p.upper() if q == "upper" else p.capitalize() if q == "capital" else p[:1] + p[1:2].upper() + p[2:]
    for bb in list(PHYS[fam])[:2]:
        if w == p:
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                y = U.unit_to_internal(fam, w + bb, 1.0)
            ok = abs(y / (U.unit_to_internal(fam, bb, 1.0) * 10.0 ** PREFIX[p]) - 1) < 1e-9
        except (TypeError, ValueError, IndexError):
            ok = True
        ctx.ensure("a prefix spelt in another case is refused or means the same: " + w + bb, ok)
    try:
        U.unit_to_internal(fam + "x", "", 1.0)
        ok = False
    except IndexError:
        ok = True
    ctx.ensure("unknown kind refused", ok)


WEIGHTS = """H 1.008 D 2.0141 T 3.016 He 4.0026 Li 6.94 Be 9.0122 B 10.81 C 12.011 N 14.007 O 15.999 F 18.998 Ne 20.180 Na 22.990
Mg 24.305 Al 26.982 Si 28.085 P 30.974 S 32.06 Cl 35.45 Ar 39.948 K 39.098 Ca 40.078 Sc 44.956 Ti 47.867 V 50.942 Cr 51.996 Mn 54.938
Fe 55.845 Co 58.933 Ni 58.693 Cu 63.546 Zn 65.38 Ga 69.723 Ge 72.630 As 74.922 Se 78.971 Br 79.904 Kr 83.798 Rb 85.468 Sr 87.62
Y 88.906 Zr 91.224 Nb 92.906 Mo 95.95 Ru 101.07 Rh 102.91 Pd 106.42 Ag 107.87 Cd 112.41 In 114.82 Sn 118.71 Sb 121.76 Te 127.60
I 126.90 Xe 131.29 Cs 132.91 Ba 137.33 La 138.91 Ce 140.12 Pr 140.91 Nd 144.24 Sm 150.36 Eu 151.96 Gd 157.25 Tb 158.93 Dy 162.50
Ho 164.93 Er 167.26 Tm 168.93 Yb 173.05 Lu 174.97 Hf 178.49 Ta 180.95 W 183.84 Re 186.21 Os 190.23 Ir 192.22 Pt 195.08 Au 196.97
Hg 200.59 Tl 204.38 Pb 207.2 Bi 208.98 Th 232.04 Pa 231.04 U 238.03""".split()


@contract("P14", "element-masses", [F + "Elements.mass"], sym=False, samples=(1, 1), why="finite table, checked exhaustively")
def _mass(ctx):
    """the default mass of an atom is the atomic weight of its element in internal units; an unknown label gives no mass"""
    for el, w in zip(WEIGHTS[::2], WEIGHTS[1::2]):
        ctx.ensure("mass of " + el, abs(U.Elements.mass(el) / (AMU / ME) - float(w)) < max(0.12 if float(w) > 30 else 0.02, 0))
    ctx.ensure("unknown element", U.Elements.mass("Qq") < 0)


@contract("P14", "input-units", [I + "InputValue.fetch", I + "InputValue.store", I + "InputValue.parse", I + "InputArray.fetch",
                                 I + "InputArray.store", I + "InputArray.parse"], sym=False, samples=(120, 800), why="text parsing")
def _inp(ctx):
    """a number or array read from the input with units is the internal value of that quantity; storing and fetching return what was
    stored whatever units are asked for in the file"""
    import numpy as np
    fam = ctx.choice("family", [k for k in sorted(PHYS) if PHYS[k]])
    b = sorted(PHYS[fam])[ctx.choice("k", [0, 1, 2, 3]) % len(PHYS[fam])]
    p = ctx.choice("p", sorted(PREFIX))
    u = p + b
    f = U.unit_to_internal(fam, u, 1.0)
    arr = ctx.choice("array", [0, 1, 2])
    x = np.asarray(ctx.array("x", (2, 3)))
    if arr:
        v = IV.InputArray(dtype=float, dimension=fam)
        shape = " shape='(2, 3)'" if arr == 1 else ""
        node = xml_parse_string("<a units='%s'%s> [%s] </a>" % (u, shape, ", ".join("%.17g" % y for y in x.flatten())))
        v.parse(dict(node.fields)["a"])
        got = v.fetch()
        ctx.ensure("shape", got.shape == ((2, 3) if arr == 1 else (6,)))
        ctx.ensure_eq("read", got / f, x if arr == 1 else x.flatten())
        w = IV.InputArray(dtype=float, dimension=fam)
        w.store(x * f, units=u)
        ctx.ensure_eq("stored", w.fetch() / f, x)
        ctx.ensure_eq("held in the units", w.value, x.flatten())
    else:
        v = IV.InputValue(dtype=float, dimension=fam)
        node = xml_parse_string("<a units='%s'> %.17g </a>" % (u, x[0, 0]))
        v.parse(dict(node.fields)["a"])
        ctx.ensure_eq("read", v.fetch() / f, x[0, 0])
        w = IV.InputValue(dtype=float, dimension=fam)
        w.store(x[0, 1] * f, units=u)
        ctx.ensure_eq("stored", w.fetch() / f, x[0, 1])
    w2 = IV.InputValue(dtype=float, dimension=fam)
    w2.store(x[1, 1])
    ctx.ensure_eq("stored plainly", w2.fetch(), x[1, 1])


@contract("P14", "output-specification", [P + "getall", P + "getkey"], sym=False, samples=(200, 1500), why="text processing")
def _spec(ctx):
    """the name, units, positional and keyword arguments of a requested output are what the user wrote, in any spacing and order"""
    r = ctx.rng
    name = r.choice(["kinetic_cv", "temperature", "positions", "atom_x", "x"])
    unit = r.choice(["", "kelvin", "electronvolt", "kilocal/mol", "ev/ang^2", "automatic"])
    pos = [r.choice(["0", "O", "-1", "H2", "0.5"]) for _ in range(r.randint(0, 2))]
    pos = list(dict.fromkeys(pos))
    kw = dict((k, r.choice(["1", "3", "nope"])) for k in r.sample(["atom", "bead", "nm"], r.randint(0, 2)))
    sp = lambda: r.choice(["", " "])
    args = pos + ["%s%s=%s%s" % (k, sp(), sp(), v) for k, v in kw.items()]
    text = sp() + name + sp()
    a = "(" + ";".join(sp() + x + sp() for x in args) + ")" if args else ""
    un = "{" + unit + "}" if unit else ""
    text += r.choice([a + sp() + un, un + sp() + a]) + sp()
    n, u, al, kl = PR.getall(text)
    ctx.ensure("name of %r" % text, n == name and PR.getkey(text) == name)
    ctx.ensure("units of %r" % text, u == unit)
    ctx.ensure("arguments of %r: %r" % (text, al), [x.strip() for x in al] == pos)
    ctx.ensure("keywords of %r: %r" % (text, kl), kl == kw)
