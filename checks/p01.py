"""P01: quantities are always up to date (lazy evaluation machinery)."""
import threading
import time
import weakref

import numpy as _np

from pyvc.contracts import contract
from checks.build import val
import ipi.utils.depend as D

F = "ipi/utils/depend.py:"
ASSUMPTIONS = ["functions of computed quantities read only quantities declared as dependencies (that is property P02)",
               "no two threads write at the same time"]


# ------------------------------------------------------------------ graph invariant, any number of dependants
class Node:
    """An arbitrary neighbour in the dependency graph under the contract of taint(): afterwards it and everything below it is
    stale.  `below` is the ghost statement 'everything that depends on me is stale'."""

    def __init__(self, flag):
        self._tainted = _np.array([flag])
        self.below = flag               # precondition (closure): a stale node has only stale dependants

    def taint(self, taintme=True):
        self._tainted[0] = taintme
        self.below = True


def crowd(ctx, generic, dead=True):
    """Any number of dependants: an arbitrary one, with others (current, stale or already deleted) before and after it.  The loops over
    dependants act on each element alone, so what holds for the arbitrary element holds for all."""
    others = [Node(False), Node(True), Node(False)]
    where = ctx.choice("place among the dependants", [0, 1, 2, 3, 4])
    gone = Node(False)
    l = [weakref.ref(others[0]), weakref.ref(gone), weakref.ref(others[1]), weakref.ref(others[2])]
    l.insert(where, weakref.ref(generic))
    del gone
    return l, others


@contract("P01", "taint", [F + "depend_base.taint", F + "depend_value.set", F + "depend_array.set", F + "depend_array.__setitem__",
                           F + "depend_base._taint_synchro", F + "depend_base._refresh"])
def _taint(ctx):
    """after a write to, or a recomputation of, any quantity, each thing that depends on it (arbitrary graph, arbitrary staleness
    before, closed downwards) is stale together with all that depends on that, and the written quantity itself is current;
    recomputing makes nothing else current"""
    kind = ctx.choice("kind", ["value", "array"])
    stale = ctx.choice("stale", [False, True])
    flag = ctx.choice("dependant stale", [False, True])
    op = ctx.choice("op", ["taint", "set", "item", "refresh", "synchro"])
    ctx.assume(not (stale and not flag))            # closure invariant
    new = ctx.array("new", (2,))
    old = ctx.array("old", (2,))
    calls = []
    dep = Node(flag)

    def f():
        calls.append(1)
        return new if kind == "array" else new[0]
    func = f if op == "refresh" else None
    if kind == "array":
        x = D.depend_array(name="x", value=old.copy(), func=func)
    else:
        x = D.depend_value(name="x", value=old[0], func=func)
    peer = None
    if op == "synchro":
        sy = D.synchronizer()
        peer = D.depend_value(name="y", value=ctx.real("peer"), synchro=sy, func={"x": lambda: 0.0})
        x.add_synchro(sy)
        sy.manual = "x"
        pd = Node(flag)
        peer._tainted[0] = stale and flag
        l, pkeep = crowd(ctx, pd)
        peer._dependants.extend(l)
        x._func = {"y": f}
    l, keep = crowd(ctx, dep)
    x._dependants.extend(l)
    x._tainted[0] = stale or op == "refresh"
    if x._tainted[0] and not flag:
        return                                       # outside the invariant
    if op == "taint":
        x.taint()
        ctx.ensure("itself stale", bool(x._tainted[0]))
    elif op in ("set", "synchro"):
        x.set(new if kind == "array" else new[0])
        ctx.ensure("itself current", not x._tainted[0])
        ctx.ensure_eq("value", val(x), new if kind == "array" else new[0])
    elif op == "item":
        if kind != "array":
            return
        x[0] = new[0]
        ctx.ensure("itself current", not x._tainted[0])
        ctx.ensure_eq("value", x[0], new[0])
        ctx.ensure_eq("other elements", x[1], old[1])
    else:
        got = x.get()
        ctx.ensure_eq("recomputed", val(got) if kind == "array" else got, new if kind == "array" else new[0])
        x.get()
        ctx.ensure("computed once", len(calls) == 1)
        ctx.ensure("itself current", not x._tainted[0])
    ctx.ensure("dependants stale", bool(dep._tainted[0]))
    ctx.ensure("and all below", dep.below)
    if op == "synchro":
        ctx.ensure("other representation stale", bool(peer._tainted[0]))
        ctx.ensure("its dependants stale", bool(pd._tainted[0]) and pd.below)


@contract("P01", "connect", [F + "depend_base.__init__", F + "depend_base.add_dependency", F + "depend_base.add_dependant",
                             F + "dpipe", F + "dcopy"])
def _conn(ctx):
    """however a dependency is declared (at construction from either side, afterwards from either side, or by piping), a later
    write to the source makes the dependant stale and reading it recomputes it"""
    how = ctx.choice("how", ["dependencies", "dependants", "add_dependency", "add_dependant", "pipe", "pipe item", "pipe first"])
    kind = ctx.choice("kind", ["value", "array"])
    n = ctx.choice("n", [1, 2])
    a = ctx.array("a", (2,))
    b = ctx.array("b", (2,))
    two = []
    for k in range(n):
        f = (lambda k=k: ctx.opaque("f%d" % k, [val(src.get())]))
        two.append(D.depend_value(name="t%d" % k, func=f, value=0.0))
        two[-1]._tainted[0] = False
    args = dict(name="s", value=a.copy() if kind == "array" else a[0])
    if how == "dependants":
        args["dependants"] = list(two)
    src = (D.depend_array if kind == "array" else D.depend_value)(**args)
    if how == "dependencies":
        two = [D.depend_value(name="t%d" % k, func=(lambda k=k: ctx.opaque("f%d" % k, [val(src.get())])), dependencies=[src]) for k in range(n)]
    for t in two:
        if how == "add_dependency":
            t.add_dependency(src)
        elif how == "add_dependant":
            src.add_dependant(t)
        elif how == "pipe":
            D.dpipe(src, t)
        elif how in ("pipe item", "pipe first"):
            if kind != "array":
                return
            D.dpipe(src, t, item=1 if how == "pipe item" else 0)

    def ref(k, x):
        if how == "pipe":
            return x
        if how == "pipe item":
            return x[1]
        if how == "pipe first":
            return x[0]
        return ctx.opaque("f%d" % k, [x])
    cur = a if kind == "array" else a[0]
    ctx.ensure("pending", all(bool(t._tainted[0]) for t in two))
    for k, t in enumerate(two):
        ctx.ensure_eq("first read", val(t.get()), ref(k, cur))
    cur = b if kind == "array" else b[0]
    src.set(cur)
    for k, t in enumerate(two):
        ctx.ensure_eq("after a write", val(t.get()), ref(k, cur))
    if how.startswith("pipe"):
        try:
            two[0].set(a[0])
            ok = False
        except NameError:
            ok = True
        ctx.ensure("a piped value cannot be set by hand", ok)
        ctx.ensure_eq("and the refused write leaves no trace", val(two[0].get()), ref(0, cur))


# ------------------------------------------------------------------ whole histories against a model
class Sysm:
    """a: number, b: 2x3 array, s/t: two linked representations (t = M s), c..g computed, p piped, h: held handles"""

    def __init__(self, ctx):
        self.ctx = ctx
        np = ctx.np
        self.M = _np.array([[2.0, 1.0], [1.0, 1.0]])
        self.Mi = _np.array([[1.0, -1.0], [-1.0, 2.0]])
        self.model = dict(a=ctx.real("a"), b=ctx.array("b", (2, 3)), s=ctx.array("s", (2, 3)))
        self.model["t"] = np.dot(self.M, self.model["s"])
        m = self.model
        self.calls = {}
        self.a = D.depend_value(name="a", value=m["a"])
        self.b = D.depend_array(name="b", value=m["b"].copy())
        sy = D.synchronizer()
        self.s = D.depend_array(name="s", value=m["s"].copy(), synchro=sy, func={"t": lambda: np.dot(self.Mi, val(self.t.get()))})
        self.t = D.depend_array(name="t", value=m["t"].copy(), synchro=sy, func={"s": lambda: np.dot(self.M, val(self.s.get()))})
        sy.manual = "s"
        o = ctx.opaque
        rd = lambda k: val(getattr(self, k).get())

        def f(name, args, shape=None):
            def g():
                self.calls[name] = self.calls.get(name, 0) + 1
                return o("F" + name, [rd(k) for k in args], shape)
            return g
        self.defs = dict(c=("ab", None), d=("cs", (2, 3)), e=("tc", None), g=("de", (2,)), k=("b", (2, 3)))
        for n, (args, shape) in self.defs.items():
            deps = [getattr(self, x) for x in args]
            if shape is None:
                setattr(self, n, D.depend_value(name=n, func=f(n, args), dependencies=deps))
            else:
                setattr(self, n, D.depend_array(name=n, value=np.zeros(shape), func=f(n, args, shape), dependencies=deps))
        self.p = D.depend_value(name="p")
        D.dpipe(self.a, self.p)
        self.r = D.depend_value(name="r", func=f("r", "p"), dependencies=[self.p])
        self.defs["r"] = ("p", None)
        self.h = dict(b1=self.b[1], s1=self.s[1], sc=self.s[:, 1], t0=self.t[0], b=self.b.get(), s=self.s.get(), t=self.t.get(), k0=self.k[0],
                      sr=self.s.reshape((3, 2)), bf=self.b.flatten())
        # declared when the handles above were already there
        self.defs["l"] = ("bs", None)
        self.l = D.depend_value(name="l", func=f("l", "bs"), dependencies=[self.b, self.s])

    def oracle(self):
        m = dict(self.model)
        m["p"] = m["a"]
        for n in ("c", "k", "d", "e", "g", "r", "l"):
            args, shape = self.defs[n]
            m[n] = self.ctx.opaque("F" + n, [m[x] for x in args], shape)
        return m

    def linked(self, which):
        np = self.ctx.np
        if which == "s":
            self.model["t"] = np.dot(self.M, self.model["s"])
        else:
            self.model["s"] = np.dot(self.Mi, self.model["t"])

    def write(self, op, k):
        """one write; k numbers the fresh values"""
        ctx, m, np = self.ctx, self.model, self.ctx.np
        v = ctx.array("w%d" % k, (2, 3))
        m = self.model
        m["b"], m["s"], m["t"] = m["b"].copy(), m["s"].copy(), m["t"].copy()
        if op == "a":
            self.a.set(v[0, 0])
            m["a"] = v[0, 0]
        elif op == "b":
            self.b.set(v)
            m["b"] = v.copy()
        elif op == "b[0]":
            self.b[0] = v[0]
            m["b"][0] = v[0]
        elif op == "b[1,2]":
            self.b[1, 2] = v[1, 2]
            m["b"][1, 2] = v[1, 2]
        elif op == "held b[1][:]":
            self.h["b1"][:] = v[1]
            m["b"][1] = v[1]
        elif op == "held b[1].set":
            self.h["b1"].set(v[1])
            m["b"][1] = v[1]
        elif op == "flat b":
            self.h["bf"][4] = v[1, 1]
            m["b"][1, 1] = v[1, 1]
        elif op == "s":
            self.s.set(v)
            m["s"] = v.copy()
            self.linked("s")
        elif op == "t":
            self.t.set(v)
            m["t"] = v.copy()
            self.linked("t")
        elif op == "s[0]":
            self.s[0] = v[0]
            m["s"][0] = v[0]
            self.linked("s")
        elif op == "t[:,1]":
            self.t[:, 1] = v[:, 1]
            m["t"][:, 1] = v[:, 1]
            self.linked("t")
        elif op == "held s[1][0]":
            self.h["s1"][0] = v[1, 0]
            m["s"][1, 0] = v[1, 0]
            self.linked("s")
        elif op == "held t[0].set":
            self.h["t0"].set(v[0])
            m["t"][0] = v[0]
            self.linked("t")
        elif op == "held column":
            self.h["sc"][:] = v[:, 1]
            m["s"][:, 1] = v[:, 1]
            self.linked("s")
        elif op == "reshaped s":
            self.h["sr"][1] = v[0, :2]
            m["s"] = m["s"].reshape(6)
            m["s"][2:4] = v[0, :2]
            m["s"] = m["s"].reshape((2, 3))
            self.linked("s")
        elif op == "ufunc out":
            if ctx.sym:
                return
            np.add(v, 1.0, out=self.b)
            m["b"] = v + 1.0
        elif op == "ufunc out linked":
            if ctx.sym:
                return
            np.multiply(v, 2.0, out=self.t)
            m["t"] = v * 2.0
            self.linked("t")
        elif op.startswith("refused"):
            x = {"c": self.c, "k": self.k, "view": self.k}[op.split()[1]]
            try:
                if op.endswith("item"):
                    x[0] = v[0]
                elif op.endswith("write"):
                    self.h["k0"][1] = v[0, 0]
                else:
                    x.set(v if x is self.k else v[0, 0])
                ok = False
            except NameError:
                ok = True
            ctx.ensure("writing to a computed quantity is refused (%s)" % op, ok)

    def read(self, what):
        ctx = self.ctx
        m = self.oracle()
        if what in m:
            ctx.ensure_eq("read " + what, val(getattr(self, what).get()), m[what])
        elif what == "held":
            np = ctx.np
            H = self.h
            ctx.ensure_eq("held b[1]", H["b1"] + 0.0, m["b"][1])
            ctx.ensure_eq("held s[1]", H["s1"] * 1.0, m["s"][1])
            ctx.ensure_eq("held s column", H["sc"] * 1.0, m["s"][:, 1])
            ctx.ensure_eq("held t[0]", np.asarray(H["t0"]) if not ctx.sym else H["t0"] - 0.0, m["t"][0])
            ctx.ensure_eq("held computed row", H["k0"] + 0.0, m["k"][0])
        elif what == "both held":
            H = self.h
            ctx.ensure_eq("difference of held handles", H["b"] - H["t"], m["b"] - m["t"])
            ctx.ensure_eq("sum of held handles", H["b1"] + H["s1"], m["b"][1] + m["s"][1])
        elif what == "reshape" and not ctx.sym:
            ctx.ensure_eq("reshaped", _np.asarray(self.h["t"].reshape((3, 2))), m["t"].reshape((3, 2)))
            ctx.ensure_eq("and not spoilt", _np.asarray(self.h["t"]), m["t"])
        elif what == "flat" and not ctx.sym:
            ctx.ensure_eq("flattened", _np.asarray(self.h["s"].flatten()), m["s"].flatten())
            ctx.ensure_eq("and not spoilt", _np.asarray(self.h["s"]), m["s"])
        elif what == "methods" and not ctx.sym:
            h = self.h["t"]
            w = ctx.choice("method", list(range(16)))
            r, ref = [lambda: (h.T, m["t"].T), lambda: (h.sum(), m["t"].sum()), lambda: (h.copy(), m["t"]),
                      lambda: (list(h.flat), list(m["t"].flat)), lambda: (_np.dot(self.M, h), self.M.dot(m["t"])),
                      lambda: (_np.sqrt(h * h), abs(m["t"])), lambda: (h.real, m["t"]), lambda: (h.max(axis=0), m["t"].max(axis=0)),
                      lambda: (_np.array(list(h)), m["t"]), lambda: (-h, -m["t"]), lambda: (1.0 - h, 1.0 - m["t"]),
                      lambda: (h > 0.1, m["t"] > 0.1), lambda: (_np.linalg.norm(h), _np.linalg.norm(m["t"])),
                      lambda: (h.astype(complex).real, m["t"]), lambda: (h[0, 1], m["t"][0, 1]), lambda: (_np.add(h, h), 2 * m["t"])][w]()
            ctx.ensure_eq("held handle, way %d" % w, _np.array(r, dtype=float), _np.array(ref, dtype=float))
        elif what == "copies" and not ctx.sym:
            for n in "btk":
                x = getattr(self, n)
                for way, mk in (("np.array", _np.array), ("np.copy", _np.copy), ("copy method", lambda y: y.copy()),
                                ("flatten", lambda y: y.flatten()), ("np.array of a view", lambda y: _np.array(y[0])),
                                ("astype", lambda y: y.astype(float))):
                    c = mk(x)
                    if not isinstance(c, _np.ndarray) or (n == "k" and way == "flatten"):
                        continue
                    c[:] = 7.25
                    ctx.ensure_eq("a copy (%s of %s) is not tied to the quantity" % (way, n), val(x.get()), m[n])


WRITES = ["a", "b", "b[0]", "b[1,2]", "held b[1][:]", "held b[1].set", "flat b", "s", "t", "s[0]", "t[:,1]", "held s[1][0]", "held t[0].set",
          "held column", "reshaped s", "ufunc out", "ufunc out linked", "refused c set", "refused k set", "refused k item", "refused view write"]
READS = list("abstcdegkprl") + ["held", "both held", "reshape", "flat", "methods", "copies"]
TS = [F + x for x in ("depend_value.set", "depend_value.__get__", "depend_array.set", "depend_array.__setitem__", "depend_array.__getitem__",
                      "depend_array._refresh", "depend_array.__array__", "depend_array.__array_ufunc__", "depend_array.reshape",
                      "depend_array.flatten", "depend_base.update_auto", "depend_base.update_man", "depend_base._taint_synchro",
                      "depend_base.taint", "dpipe", "depend_array.__getattr__")]


@contract("P01", "write-then-read", TS, samples=(300, 3000), limit=120, max_paths=1500)
def _wr(ctx):
    """after any write through any handle, from a state where everything is current or (after another write) partly stale, every
    quantity read in any order is what its definition gives for the current inputs (all values symbolic, definitions arbitrary)"""
    s = Sysm(ctx)
    pre = ctx.choice("state before", ["fresh", "all read", "s stale", "t stale", "b stale"])
    if pre != "fresh":
        for r in READS[:12]:
            getattr(s, r).get()
    if pre == "s stale":
        s.write("t", 90)
    elif pre == "t stale":
        s.write("s", 91)
    elif pre == "b stale":
        s.write("b", 92)
    s.write(ctx.choice("write", WRITES), 1)
    for r in READS[::-1] if ctx.choice("order", [0, 1]) else READS:
        s.read(r)


@contract("P01", "histories", TS, sym=False, samples=(600, 6000), limit=150, why="histories of up to 25 writes and reads are sampled; the invariant contracts cover one step from any state")
def _hist(ctx):
    """any interleaving of writes and reads"""
    s = Sysm(ctx)
    for k in range(ctx.rng.randint(2, 25)):
        if ctx.rng.random() < 0.5:
            s.write(ctx.choice("w%d" % k, WRITES), k)
        else:
            s.read(ctx.choice("r%d" % k, READS))
    for r in READS:
        s.read(r)


@contract("P01", "no-needless-work", [F + "depend_base.taint", F + "depend_base._refresh"], sym=False, samples=(200, 1000), why="sampled histories")
def _once(ctx):
    """reading twice computes once, and a write to something it does not depend on causes no recomputation"""
    s = Sysm(ctx)
    for r in READS[:12]:
        s.read(r)
    n = dict(s.calls)
    for r in READS[:12]:
        s.read(r)
    ctx.ensure("second reads compute nothing", s.calls == n)
    s.write("t", 1)
    for r in READS[:12]:
        s.read(r)
    for x in "ckr":
        ctx.ensure("untouched %s not recomputed" % x, s.calls[x] == n[x])
    for x in "deg":
        ctx.ensure("%s recomputed exactly once" % x, s.calls[x] == n[x] + 1)


@contract("P01", "two readers", [F + "depend_base._refresh", F + "depend_array._refresh"], sym=False, samples=(12, 40), limit=60,
          why="two or three threads; the schedule in which the others ask while the first is computing")
def _threads(ctx):
    """several threads reading the same stale quantity, directly or through a slice, compute it once and all get the current value"""
    kind = ctx.choice("kind", ["value", "array", "slice", "linked"])
    n = ctx.choice("readers", [2, 3])
    inside, go = threading.Event(), threading.Event()
    calls, got = [], []
    want = _np.array([ctx.rng.random() for _ in range(3)])

    def f():
        calls.append(1)
        inside.set()
        go.wait(10)
        return want if kind != "value" else want[0]
    src = D.depend_value(name="s", value=1.0)
    if kind == "value":
        x = D.depend_value(name="x", value=0.0, func=f, dependencies=[src])
    elif kind == "linked":
        sy = D.synchronizer()
        y = D.depend_array(name="y", value=_np.zeros(3), synchro=sy, func={"x": lambda: _np.zeros(3)})
        x = D.depend_array(name="x", value=_np.zeros(3), synchro=sy, func={"y": f})
        y.set(_np.ones(3))
    else:
        x = D.depend_array(name="x", value=_np.zeros(3), func=f, dependencies=[src])
    if kind == "slice":
        go.set()
        x.get()
        h = x[1:]
        calls.clear()
        inside.clear()
        go.clear()
        want = want + 1.0
        src.set(2.0)
    read = (lambda: got.append(_np.array(val(x.get()) * 1.0))) if kind != "slice" else (lambda: got.append(_np.array(h * 1.0)))
    ts = [threading.Thread(target=read, daemon=True) for _ in range(n)]
    ts[0].start()
    inside.wait(10)
    for t in ts[1:]:
        t.start()
    time.sleep(0.02)
    go.set()
    for t in ts:
        t.join(10)
    ctx.ensure("computed once", len(calls) == 1)
    ctx.ensure("all answered", len(got) == n)
    w = {"value": want[0], "slice": want[1:]}.get(kind, want)
    for g in got:
        ctx.ensure("current value", bool(_np.array_equal(g, w)))


class Obj:
    def __init__(self):
        self._x = D.depend_value(name="x", value=1.0)
        self._v = D.depend_array(name="v", value=_np.zeros(3))
        self._y = D.depend_value(name="y", func=lambda: self.x * 2, dependencies=[self._x])


D.dproperties(Obj, ["x", "v", "y"])


@contract("P01", "attributes", [F + "dproperties", F + "_inject_depend_property", F + "dstrip"])
def _attr(ctx):
    """attributes declared as quantities read and write them: plain values for numbers, tracked arrays for arrays"""
    o = Obj()
    a, b = ctx.real("a"), ctx.array("b", (3,))
    if ctx.sym:
        o._v._value = ctx.np.zeros(3)
    o.x = a
    ctx.ensure_eq("computed", o.y, 2 * a)
    o.v = b
    ctx.ensure_eq("array", D.dstrip(o.v) * 1.0, b)
    o2 = Obj()
    ctx.ensure_eq("instances are separate", o2.x, 1.0)
    try:
        o.y = a
        ok = False
    except NameError:
        ok = True
    ctx.ensure("computed attribute cannot be set", ok)
    ctx.ensure_eq("and keeps its value", o.y, 2 * a)
