"""P19: the output files hold the quantities asked for, at the steps asked for, and nothing that was there is lost."""
import io as _io
import os
import random as _random
import re
import types

import numpy as _np

from pyvc.contracts import contract
from checks.build import val, patched
from checks import p22 as EST, p16 as RUN, p15 as FIL
import ipi.engine.outputs as O
import ipi.utils.io as IO
import ipi.utils.io.inputs.io_xml as XML
import ipi.utils.units as U
from ipi.utils.softexit import softexit
from ipi.utils.messages import verbosity

verbosity.level = "quiet"
F = "ipi/engine/outputs.py:"
ASSUMPTIONS = ["numbers written with full precision in the bounded whole runs; one thread", "at most three systems, five beads, twelve steps",
               "the unprocessed (raw) additional data of a force provider are not compared"]


class Stream:
    """a file kept in memory"""
    def __init__(self, name, mode):
        self.l = []
        self.name, self.mode, self.open, self.safe, self.pending = name, mode, True, 0, 0

    def write(self, t):
        self.l.append(t)

    append = write

    def __len__(self):
        return len(self.l)

    def text(self):
        return "".join(x for x in self.l if isinstance(x, str))

    def frames(self):
        return [x for x in self.l if isinstance(x, tuple)]

    def flush(self):
        self.pending = len(self)

    def fileno(self):
        return self

    def close(self):
        self.open = False


class Disk:
    """stands for the file system: remembers every file opened"""
    def __init__(self):
        self.files = {}

    def open(self, name, mode="r", buffering=-1):
        s = Stream(name, mode)
        self.files[name] = s
        return s

    def fsync(self, s):
        s.safe = s.pending


def disk():
    d = Disk()
    o = types.SimpleNamespace(**{k: getattr(os, k) for k in dir(os) if not k.startswith("_")})
    o.fsync = d.fsync
    return d, patched(O, open_backup=d.open, os=o, np=_np)


class Tokens:
    """numbers are written as marks, so that the text of a row can be taken apart for any value"""
    def __init__(self, ctx):
        self.v, self.ctx = [], ctx

    def put(self, x):
        self.v.append(x)
        return "@%d@" % (len(self.v) - 1)

    def row(self, line):
        w = line.split()
        return [self.v[int(t[1:-1])] if t.startswith("@") else float(t) for t in w]


KINDS = [("energy", ""), ("energy", "electronvolt"), ("", ""), ("pressure", "megapascal"), ("temperature", "kelvin"), ("length", "angstrom"), ("undefined", "")]


@contract("P19", "rows of a property file", [F + "PropertyOutput.write", F + "BaseOutput.active", F + "PropertyOutput.bind"], max_paths=4000)
def rows(ctx):
    """After every stride-th step one line is written, with the values of the quantities asked for in that order and in the units asked for; else nothing."""
    n = ctx.choice("shift", list(range(len(KINDS))))
    stride = ctx.choice("stride", [1, 2, 3, 7] if ctx.sym else [1, 2, 3, 7, 14, 100])
    flush = ctx.choice("flush", [0, 1, 2])
    shapes = [None, 1, 3, None, 9, 6]
    asked, table = [], {}
    for k, sh in enumerate(shapes):
        asked.append("q%d" % k)
        dim, unit = KINDS[(k + n) % len(KINDS)]
        table["q%d" % k] = (sh, dim, unit)
    sysm = types.SimpleNamespace(simul=types.SimpleNamespace(step=-1))
    now = {}

    class Props:
        property_dict = {k: {"dimension": d, "size": s or 1} for k, (s, d, u) in table.items()}

        def __getitem__(self, key):
            return now[key], table[key][1], table[key][2]
    sysm.properties = Props()
    d, p = disk()
    tk = Tokens(ctx)
    with p, patched(XML, writetype_funcs={**XML.writetype_funcs, float: tk.put} if ctx.sym else XML.writetype_funcs):
        o = O.PropertyOutput(filename="f", stride=stride, flush=flush, outlist=asked)
        o.bind(sysm)
        out = d.files["f"]
        done = 0
        for step in (-1, 0, 1, 2, 3, 5, 6, 13) + (() if ctx.sym else (99, 100, 1399)):
            sysm.simul.step = step
            for k, (sh, dim, unit) in table.items():
                now[k] = ctx.real("v%d%s" % (step, k)) if sh is None else ctx.array("v%d%s" % (step, k), (sh,))
            before = len(out.text().splitlines())
            o.write()
            lines = out.text().splitlines()
            due = (step + 1) % stride == 0
            ctx.ensure("one line when it is due (step %d stride %d)" % (step, stride), len(lines) == before + (1 if due else 0))
            if not due:
                continue
            done += 1
            want = []
            for k, (sh, dim, unit) in table.items():
                f = U.unit_to_user(dim, unit, 1.0) if dim and unit else 1.0
                want += [now[k] * f] if sh is None else [x * f for x in now[k]]
            got = tk.row(lines[-1])
            ctx.ensure("number of columns", len(got) == len(want))
            for i, (a, b) in enumerate(zip(got, want)):
                if ctx.sym:
                    ctx.ensure_eq("column %d" % (i + 1), a, b)
                else:
                    ctx.ensure("column %d" % (i + 1), abs(a - b) <= 1e-6 * max(1e-6, abs(b)))
            if flush and done % flush == 0:
                ctx.ensure("everything written is on disk after %d lines" % done, out.safe == len(out))
        o.close_stream()
        ctx.ensure("closed", not out.open)


PERBEAD = ["positions", "velocities", "momenta", "forces", "forces_spring", "forces_sc", "Eforces"]
SINGLE = ["x_centroid", "v_centroid", "p_centroid", "f_centroid", "kinetic_cv", "kinetic_od", "r_gyration", "x_centroid_even", "v_centroid_odd", "isotope_zetatd(alpha=2)",
          "forces_component(0)", "forces_component(0;bead=1)", "forces_component_raw(0)"]
UNIT = {"length": "angstrom", "velocity": "m/s", "force": "ev/ang", "energy": "electronvolt"}


def _digits(n):
    return len(str(n))


@contract("P19", "frames of a trajectory file", [F + "TrajectoryOutput.open_stream", F + "TrajectoryOutput.write", F + "TrajectoryOutput.write_traj", F + "TrajectoryOutput.bind",
                                                 "ipi/utils/io/__init__.py:print_file", "ipi/utils/io/__init__.py:print_file_raw"], samples=(60, 300), max_paths=4000, limit=240)
def frames(ctx):
    """One file per bead asked for (or one for quantities of the whole path); each frame holds the values of that bead, in the units asked for, and the cell."""
    P = ctx.choice("P", [2, 4])
    what = ctx.choice("what", PERBEAD + SINGLE)
    other = ctx.choice("unit", [False, True])
    sel = ctx.choice("bead", [-1, -2, 0, 1, "last"] if what in PERBEAD else [-1, 1])
    sel = P - 1 if sel == "last" else sel
    stride = 1 if ctx.sym else ctx.choice("stride", [1, 2])
    flush = 1 if ctx.sym else ctx.choice("flush", [1, 2])
    if ctx.sym and other and sel != -1:
        return
    s = EST.build(ctx, P, mode="sc", thermostat=EST.PRth())
    s.trajs = s.tr
    dim = s.tr.traj_dict[O.getkey(what)]["dimension"]
    u = UNIT.get(dim, "") if other else ""
    ask = what + ("{%s}" % u if u else "")
    if u and "(" in what:
        ask = what.replace("(", "{%s}(" % u)
    with FIL.memory_backend(ctx):
        d, p = disk()
        with p:
            o = O.TrajectoryOutput(filename="t", stride=stride, flush=flush, what=ask, format="vpmem", cell_units="angstrom" if other else "", ibead=sel)
            o.bind(s)
            per = what in PERBEAD
            beads = [b for b in range(P) if (sel < 0 and b % -sel == 0) or b == sel] if per else [0]
            names = {"t_%s.vpmem" % str(b).zfill(_digits(P)): b for b in beads} if per else {"t.vpmem": 0}
            ctx.ensure("files " + ask, set(d.files) == set(names))
            nf = 0
            for step in ((3,) if ctx.sym else (-1, 0, 1, 2)):
                s.simul.step = step
                if step == 1:
                    s.beads.q[:] = val(s.beads.q) + 0.1
                    s.cell.h[:] = val(s.cell.h) * 1.1
                    s.beads.names[:] = ["N", "C", "He"]
                o.write()
                due = (step + 1) % stride == 0
                nf += due
                data = val(s.tr[what][0])
                g = U.unit_to_user(dim, u, 1.0) if u else 1.0
                gc = U.unit_to_user("length", "angstrom", 1.0) if other else 1.0
                for f, b in names.items():
                    if f not in d.files:
                        continue
                    fr = d.files[f].frames()
                    ctx.ensure("frames in " + f, len(fr) == nf)
                    if not due or not fr:
                        continue
                    t, h, q, lab = fr[-1]
                    w = data[b] if per and what != "Eforces" else data
                    ctx.ensure_eq("values in %s" % f, q, w * g)
                    ctx.ensure_eq("cell in %s" % f, h, val(s.cell.h) * gc)
                    ctx.ensure("labels", lab == [str(x) for x in s.beads.names])
                    ctx.ensure("step and bead in the title", [int(x) for x in re.findall(r"(?:Step|Bead):\s*(\d+)", t)] == [step + 1, b])
                    ctx.ensure("units in the title", "%s{%s}" % (O.getkey(what), u or "atomic_unit") in t and "cell{%s}" % ("angstrom" if other else "atomic_unit") in t)
                    if nf % flush == 0:
                        ctx.ensure("on disk", d.files[f].safe == len(d.files[f]))
            o.close_stream()
            ctx.ensure("all closed", not any(x.open for x in d.files.values()))
            softexit.flist = []


@contract("P19", "a file for every bead in any format", [F + "TrajectoryOutput.open_stream"], sym=False, samples=(60, 200), why="names of files")
def perbead(ctx):
    """Whatever the format and the number of beads, each bead asked for has a file of its own that names it, and the files of two quantities differ."""
    P = ctx.choice("P", [1, 2, 9, 10, 11, 100, 128])
    fmt = ctx.choice("format", ["xyz", "pdb", "ase", "json", "bin"])
    sel = ctx.choice("bead", [-1, -2, 0, P - 1])
    beads = [b for b in range(P) if (sel < 0 and b % -sel == 0) or b == sel]
    d, p = disk()
    sysm = types.SimpleNamespace(beads=types.SimpleNamespace(nbeads=P, natoms=1, names=_np.array(["H"])), simul=types.SimpleNamespace(step=0))
    with p:
        for what in ("positions", "forces", "extras"):
            o = O.TrajectoryOutput(filename="t." + what, what=what, format=fmt, ibead=sel)
            o.system = sysm
            o.open_stream("w")
            mine = [n for n in d.files if n.startswith("t." + what + "_")]
            ctx.ensure("as many files as beads", len(mine) == len(beads))
            ctx.ensure("each named after its bead", [int(re.match(r"t\.%s_(\d+)" % what, n).group(1)) for n in mine] == beads)
            ctx.ensure("and opened once", [x is not None for x in o.out] == [b in beads for b in range(P)])
    softexit.flist = []


@contract("P19", "beads and quantities that do not exist", [F + "TrajectoryOutput.write", F + "TrajectoryOutput.bind", F + "PropertyOutput.bind", F + "PropertyOutput.print_header"],
          sym=False, samples=(12, 30), why="refusals")
def refuse(ctx):
    """A bead that does not exist and a quantity that is not known are refused."""
    P = ctx.choice("P", [2, 4])
    s = EST.build(ctx, P)
    s.trajs, s.properties = s.tr, s.pr
    d, p = disk()

    def no(f):
        try:
            with RUN.contextlib.redirect_stdout(_io.StringIO()):
                f()
        except (ValueError, KeyError, IndexError, TypeError):
            return True
        return False
    with p, FIL.memory_backend(ctx):
        def far():
            o = O.TrajectoryOutput(filename="t", what="positions", format="vpmem", ibead=P + ctx.choice("more", [0, 3]))
            o.bind(s)
            o.write()
        ctx.ensure("bead out of range", no(far))
        ctx.ensure("unknown trajectory", no(lambda: O.TrajectoryOutput(filename="t", what="nonsense").bind(s)))
        ctx.ensure("unknown property", no(lambda: O.PropertyOutput(filename="t", outlist=["step", "nonsense"]).bind(s)))
        ctx.ensure("unknown unit", no(lambda: s.pr["potential{nonsense}"] and O.unit_to_user("energy", "nonsense", 1.0)))
    softexit.flist = []


@contract("P19", "additional data of force providers", [F + "TrajectoryOutput.write_traj", F + "TrajectoryOutput.open_stream"], sym=False, samples=(60, 400), why="text")
def extras(ctx):
    """The named additional data are written for each bead in the file of that bead, side by side if several are named; unknown names are refused."""
    rng = ctx.rng
    P = rng.choice([1, 2, 3, 12])
    key = rng.choice(["extras", "extras_bias", "extras_component_raw(0)"])
    two = rng.random() < 0.5
    sel = rng.choice([-1, -2, 0, P - 1])
    step = rng.choice([-1, 0, 4])
    r = _np.random.RandomState(rng.randint(0, 10 ** 6))
    rank = rng.choice([1, 2])
    data = {"dipole": r.normal(size=(P, 3) if rank == 1 else (P, 2, 3)), "charge": r.normal(size=(P, 2) if rank == 1 else (P, 2, 2)), "raw": ["x"] * P}
    sysm = types.SimpleNamespace(beads=types.SimpleNamespace(nbeads=P, natoms=1, names=_np.array(["H"])), simul=types.SimpleNamespace(step=step))

    class Tr:
        traj_dict = {"extras": {}, "extras_bias": {}, "extras_component_raw": {}}

        def __getitem__(self, k):
            return data, "", ""
    sysm.trajs = Tr()
    names = ["dipole", "charge"] if two else ["dipole"]
    d, p = disk()
    comp = key.startswith("extras_component")
    if comp and P > 1:
        rank = 2
        data = {k: (v[:, 0] if v.ndim == 3 else v) if k != "raw" else v for k, v in data.items()}
    with p:
        o = O.TrajectoryOutput(filename="x", what=key, ibead=sel, extra_type=", ".join(names))
        o.bind(sysm)
        o.write()
        if comp:
            ctx.ensure("one file", set(d.files) == {"x"})
            want = {"x": _np.hstack([_np.asarray(data[k]).squeeze() for k in names])}
        else:
            bs = [b for b in range(P) if (sel < 0 and b % -sel == 0) or b == sel]
            want = {"x_" + str(b).zfill(_digits(P)): _np.hstack([data[k][b] for k in names]) for b in bs}
            ctx.ensure("files", set(d.files) == set(want))
        for f, w in want.items():
            t = d.files[f].text().splitlines() if f in d.files else [""]
            ctx.ensure("step in the header", re.search(r"Step:\s+%d\b" % (step + 1), t[0]) is not None)
            got = [[float(x) for x in l.split()] for l in t[1:] if l.strip()]
            w = _np.atleast_2d(w)
            ctx.ensure("shape in " + f, [len(x) for x in got] == [w.shape[1]] * w.shape[0])
            ctx.ensure("numbers in " + f, _np.allclose(_np.array(got), w, atol=1e-6))
        try:
            o.extra_type = "absent"
            o.write()
            ctx.ensure("unknown name refused", False)
        except KeyError:
            pass
    softexit.flist = []


@contract("P19", "nothing is overwritten", ["ipi/utils/io/__init__.py:open_backup", F + "OutputMaker.get_output", F + "BaseOutput.open_stream"], sym=False, samples=(80, 500),
          why="file system; sampled histories in a scratch folder")
def backup(ctx):
    """Whatever was in a file before is still there, under that name or as a backup, whatever sequence of runs writes or continues it."""
    rng = ctx.rng
    with RUN.sandbox() as d:
        os.mkdir("sub")
        held = {}
        folder = rng.choice(["", "sub/", d + "/sub/"])
        n = 0
        for _ in range(rng.randint(2, 9)):
            name = folder + rng.choice(["a", "b.xyz", "a_0"])
            mode = rng.choice(["w", "w", "a", "maker"])
            text = "<%d>" % n
            n += 1
            if mode == "maker":
                new = rng.random() < 0.5
                pre = rng.choice(["pre", ""]) if folder == "" else "pre"
                mk = O.OutputMaker(folder + pre, new)
                o = mk.get_output("tail")
                o.write(text)
                o.force_flush()
                o.close_stream()
                name, mode = folder + (pre + "." if pre else "") + "tail", "w" if new else "a"
            else:
                f = IO.open_backup(name, mode)
                f.write(text)
                f.close()
            if mode == "w":
                held[name] = [text] + [x for x in held.get(name, [])]
            else:
                h = held.setdefault(name, [""])
                h[0] = h[0] + text
            all_ = [open(os.path.join(r, f)).read() for r, _, fs in os.walk(".") for f in fs]
            for nm, h in held.items():
                ctx.ensure("the file itself", open(nm).read() == h[0])
                for x in h:
                    ctx.ensure("still there: %r" % x, all_.count(x) >= 1)
            ctx.ensure("no other files", len(all_) == sum(len(h) for h in held.values()))


@contract("P19", "nothing is written once the run is ending", [F + "PropertyOutput.write", F + "TrajectoryOutput.write"], sym=False, samples=(4, 8), why="enumerated")
def ending(ctx):
    """After the request to exit, no output is added to any file."""
    s = EST.build(ctx, 2)
    s.trajs, s.properties = s.tr, s.pr
    d, p = disk()
    with p, FIL.memory_backend(ctx):
        a = O.PropertyOutput(filename="p", outlist=["step", "potential"])
        b = O.TrajectoryOutput(filename="t", what="positions", format="vpmem")
        c = O.TrajectoryOutput(filename="c", what="x_centroid", format="vpmem")
        for o in (a, b, c):
            o.bind(s)
        softexit.triggered = True
        try:
            for o in (a, b, c):
                o.write()
        finally:
            softexit.triggered = False
        ctx.ensure("empty", all(len(f) == 0 for f in d.files.values()))
        for o in (a, b, c):
            o.write()
        ctx.ensure("written otherwise", all(len(f) > 0 for f in d.files.values()))
    softexit.flist = []


# --------------------------------------------------------------- whole runs

PROPS = ["step", "time{picosecond}", "conserved", "temperature{kelvin}", "potential{electronvolt}", "kinetic_cv", "atom_x{angstrom}(1)", "virial_md", "cell_h", "volume", "pot_component(0)",
         "kinetic_td{kelvin}", "r_gyration", "spring", "atom_f(2;1)", "scaledcoords(fd_delta=0.02)", "temperature(nm=1)"]


class Watch:
    """an observer among the outputs: notes what the system has at the moment outputs are written"""
    def __init__(self, sim):
        self.sim, self.seen = sim, {}

    def active(self):
        return True

    def write(self):
        k = self.sim.step + 1
        r = []
        for s in self.sim.syslist:
            v = []
            for w in PROPS:
                q, dim, u = s.properties[w]
                if dim and u:
                    q = U.unit_to_user(dim, u, q)
                v.append([float(x) for x in _np.atleast_1d(_np.asarray(q)).flatten()])
            r.append(dict(props=v, q=val(s.beads.q).copy(), v=val(s.beads.p) / val(s.beads.m3), h=val(s.cell.h).copy(), qc=val(s.beads.qc).copy(), f=val(s.forces.f).copy(),
                          names=[str(x) for x in s.beads.names]))
        self.seen[k] = r

    def close_stream(self):
        pass


@contract("P19", "files of a whole run", [F + "PropertyOutput.print_header", F + "PropertyOutput.write", F + "TrajectoryOutput.write", F + "CheckpointOutput.write",
                                          "ipi/engine/simulation.py:Simulation.bind", "ipi/engine/simulation.py:Simulation.run", "ipi/inputs/outputs.py:InputOutputs.fetch"],
          sym=False, samples=(10, 40), limit=300, why="whole simulations with text files")
def whole(ctx):
    """The files of a run hold, for the beginning and every stride-th step, the values the system had then; headers name the columns; old files are kept."""
    rng = ctx.rng
    s1, s2, s3 = rng.choice([1, 2, 3]), rng.choice([1, 2, 5]), rng.choice([1, 3, 4])
    nb, nsys = rng.choice([2, 3]), rng.choice([1, 2])
    sel = rng.choice([-1, -2, 1])
    fl = rng.choice([1, 3])
    outs = ("<properties stride='%d' filename='many' flush='%d'> [%s] </properties>" % (s1, fl, ", ".join(PROPS))
            + "<trajectory filename='q' stride='%d' format='xyz' bead='%d'> positions{angstrom} </trajectory>" % (s2, sel)
            + "<trajectory filename='v' stride='%d' format='xyz' bead='0'> velocities </trajectory>" % s3
            + "<trajectory filename='c' stride='%d' format='xyz' cell_units='angstrom'> x_centroid{nanometer} </trajectory>" % s3)
    text = RUN.xml(rng.choice([RUN.D, RUN.dyn("npt", RUN.th("pile_l"), RUN.ba("isotropic"))]), nb=nb, nsys=nsys, ens=RUN.PE, outputs=outs, steps=6)
    with RUN.sandbox():
        pre = ["s%d_" % i if nsys > 1 else "" for i in range(nsys)]
        old = {}
        for p in pre:
            old[p + "sim.many"] = "old%s" % p
            open(p + "sim.many", "w").write(old[p + "sim.many"])
        sim = RUN.load(text)
        w = Watch(sim)
        sim.outputs.insert(0, w)
        sim.run()
        RUN.close(sim)
        ctx.ensure("every step seen", sorted(w.seen) == list(range(7)))
        for i, p in enumerate(pre):
            ctx.ensure("the old file is kept", open("#%ssim.many#0#" % p).read() == old[p + "sim.many"])
            lines = open(p + "sim.many").read().splitlines()
            head = [l for l in lines if l.startswith("#")]
            body = [[float(x) for x in l.split()] for l in lines if not l.startswith("#")]
            due = [k for k in range(7) if k % s1 == 0]
            ctx.ensure("rows", len(body) == len(due))
            col = []
            for h in head:
                m = re.match(r"# (?:column|cols\.)\s+(\d+)(?:-(\d+))?\s+--> (\S+)", h)
                ctx.ensure("header line", m is not None)
                a = int(m.group(1))
                col.append((m.group(3), a, int(m.group(2) or a)))
            ctx.ensure("headers in order", [c[0] for c in col] == PROPS)
            for k, row in zip(due, body):
                v = w.seen[k][i]["props"]
                flat = [x for y in v for x in y]
                ctx.ensure("columns", len(row) == len(flat))
                for (name, a, b), y in zip(col, v):
                    got = row[a - 1:b]
                    ctx.ensure("%s at step %d in columns %d-%d: %r, has %r" % (name, k, a, b, got, y), len(got) == len(y) and all(
                        abs(x - z) <= 1e-9 * max(1e-6, abs(z)) for x, z in zip(got, y)))

            def traj(f, stride, key, conv, cconv=1.0, b=None):
                due = [k for k in range(7) if k % stride == 0]
                got = list(IO.iter_file("xyz", open(f)))
                raw = list(IO.iter_file_raw("xyz", open(f)))
                ctx.ensure("%s: frames" % f, len(got) == len(due))
                for k, g, r in zip(due, got, raw):
                    x = w.seen[k][i][key]
                    x = x if b is None else x[b]
                    ctx.ensure("%s: step %d" % (f, k), bool(_np.allclose(val(g["atoms"].q), x, atol=1e-5 * max(1.0, abs(x).max()))))
                    ctx.ensure("%s: step %d in the unit asked for" % (f, k), bool(_np.allclose(r["data"], x * conv, atol=1e-5 * max(1.0, abs(x * conv).max()))))
                    ctx.ensure("%s: cell" % f, bool(_np.allclose(val(g["cell"].h), w.seen[k][i]["h"], atol=1e-4)) and bool(_np.allclose(r["cell"], w.seen[k][i]["h"] * cconv, atol=1e-4)))
                    ctx.ensure("%s: labels" % f, [str(x) for x in g["atoms"].names] == w.seen[k][i]["names"])
                    ctx.ensure("%s: step in the title" % f, re.search(r"Step:\s+%d\s" % k, r["comment"]) is not None)
            for b in range(nb):
                f = p + "sim.q_%d.xyz" % b
                want = (sel < 0 and b % -sel == 0) or b == sel
                ctx.ensure("file of bead %d" % b, os.path.exists(f) == want)
                if want:
                    traj(f, s2, "q", U.unit_to_user("length", "angstrom", 1.0), b=b)
            traj(p + "sim.v_0.xyz", s3, "v", 1.0, b=0)
            traj(p + "sim.c.xyz", s3, "qc", U.unit_to_user("length", "nanometer", 1.0), U.unit_to_user("length", "angstrom", 1.0))
