"""Path exploration, proof obligations, and the two execution modes of a contract harness.

A contract harness is a Python function h(ctx).  It creates inputs through ctx,
states preconditions with ctx.assume, runs *the real code of /repo*, and states
postconditions with ctx.ensure / ctx.ensure_eq.

* SymCtx runs it with symbolic inputs.  Every branch on a symbolic condition
  splits the path; the harness is re-executed once per feasible path, so the
  obligations collected cover all inputs admitted by the preconditions.
* ConcCtx runs the very same harness with ordinary numbers and real numpy.  It
  replays counterexamples, cross-checks the engine, and is the bounded stand-in
  where the symbolic run meets something the engine has no rule for.
"""
import math
import random
import time
import traceback
from fractions import Fraction

import numpy as np

from . import sym, arr
from .sym import E, SymBool, Unsupported, PathDone, lift, _ATOMS

CUR = None            # current symbolic context


class Reject(Exception):
    """A concrete sample does not satisfy the preconditions."""


class Refuted(Exception):
    """A postcondition is false on a concrete run."""

    def __init__(self, label, msg):
        Exception.__init__(self, "%s: %s" % (label, msg))
        self.label, self.msg = label, msg


def decide(b):
    if CUR is None:
        raise Unsupported("branch outside a symbolic run")
    return CUR.decide(b)


# ------------------------------------------------------------------ z3 back end
class Z3:
    def __init__(self, timeout_ms=3000):
        import z3
        self.z3 = z3
        self.timeout = timeout_ms
        self.time = 0.0
        self.queries = 0
        self.results = {"sat": 0, "unsat": 0, "unknown": 0}

    def session(self):
        return _Trans(self)


class _Trans:
    """One translation unit: atoms -> z3 constants plus their defining facts."""

    def __init__(self, owner):
        self.o = owner
        self.z3 = owner.z3
        self.c = {}
        self.facts = []

    def num(self, v):
        z = self.z3
        if isinstance(v, float):
            v = Fraction(v)
        return z.RealVal(str(v))

    def atom(self, a):
        z = self.z3
        if a in self.c:
            return self.c[a]
        at = _ATOMS[a]
        v = z.Real("a%d" % a)
        self.c[a] = v
        k = at.kind
        if at.isint:
            iv = z.Int("i%d" % a)
            self.facts.append(v == z.ToReal(iv))
            if at.pos:
                self.facts.append(v >= 1)
        elif at.pos and k not in ("sqrt", "acos"):
            self.facts.append(v > 0)
        if k == "sqrt":
            x = self.e(at.args[0])
            self.facts.append(v >= 0)
            self.facts.append(v * v == x)
        elif k == "inv":
            x = self.e(at.args[0])
            self.facts.append(v * x == 1)
        elif k == "exp":
            x = self.e(at.args[0])
            self.facts.append(z.Implies(x > 0, v > 1))
            self.facts.append(z.Implies(x < 0, v < 1))
            self.facts.append(z.Implies(x == 0, v == 1))
            self.facts.append(v >= 1 + x)
        elif k == "log":
            x = self.e(at.args[0])
            self.facts.append(z.Implies(x > 1, v > 0))
            self.facts.append(z.Implies(x < 1, v < 0))
            self.facts.append(z.Implies(x == 1, v == 0))
        elif k in ("cos", "sin"):
            self.facts.append(z.And(v >= -1, v <= 1))
        elif k == "acos":
            self.facts.append(z.And(v >= 0, v <= self.num(3.1415926536)))
        elif k == "pi":
            self.facts.append(z.And(v > self.num(3.14159265358), v < self.num(3.14159265359)))
        elif k == "prime":
            x = z.Real("q%d" % a)
            self.facts.append(z.And(v == at.extra))
        elif k == "chi":
            self.facts.append(z.Or(v == 0, v == 1))
            if at.args and isinstance(at.args[0], SymBool) and not at.args[0].free():
                self.facts.append((v == 1) == self.b(at.args[0]))
        elif k == "rint":
            x = self.e(at.args[0])
            self.facts.append(z.And(v - x <= self.num(0.5), x - v <= self.num(0.5)))
        elif k == "mod":
            x, y = self.e(at.args[0]), self.e(at.args[1])
            q = z.Int("q%d" % a)
            self.facts.append(z.Implies(y > 0, z.And(v >= 0, v < y, x == z.ToReal(q) * y + v)))
        elif k == "fdiv":
            x, y = self.e(at.args[0]), self.e(at.args[1])
            r = z.Real("r%d" % a)
            self.facts.append(z.Implies(y > 0, z.And(r >= 0, r < y, x == v * y + r)))
        return v

    def mono(self, m, c):
        z = self.z3
        r = self.num(c)
        for a, e in m:
            v = self.atom(a)
            if isinstance(e, Fraction):
                # rational power of a positive atom: a dedicated root constant
                den = e.denominator
                key = ("root", a, den)
                if key not in self.c:
                    w = z.Real("root%d_%d" % (a, den))
                    self.c[key] = w
                    p = w
                    for _ in range(den - 1):
                        p = p * w
                    self.facts.append(z.And(w > 0, p == v))
                v = self.c[key]
                e = e.numerator
            f = v
            for _ in range(abs(e) - 1):
                f = f * v
            r = r * f if e > 0 else r / f
        return r

    def e(self, x):
        z = self.z3
        x = lift(x)
        terms = [self.mono(m, c) for m, c in x.t.items()]
        if not terms:
            return z.RealVal(0)
        r = terms[0]
        for t in terms[1:]:
            r = r + t
        return r

    def b(self, p):
        z = self.z3
        if isinstance(p, (bool, np.bool_)):
            return z.BoolVal(bool(p))
        if p.op == "not":
            return z.Not(self.b(p.a[0]))
        if p.op == "and":
            return z.And(*[self.b(x) for x in p.a])
        if p.op == "or":
            return z.Or(*[self.b(x) for x in p.a])
        if p.op == "implies":
            return z.Implies(self.b(p.a[0]), self.b(p.a[1]))
        if p.op == "z3":
            return p.a[0]
        d = self.e(p.a[0])
        return {"==": d == 0, "!=": d != 0, "<": d < 0, "<=": d <= 0, ">": d > 0, ">=": d >= 0}[p.op]

    def check(self, props, timeout=None):
        z = self.z3
        fs = [self.b(p) for p in props]
        s = z.Solver()
        s.set("timeout", timeout or self.o.timeout)
        for f in self.facts:
            s.add(f)
        for f in fs:
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.o.time += time.time() - t0
        self.o.queries += 1
        self.o.results[str(r)] += 1
        self.solver = s
        return str(r)

    def model_values(self):
        """{variable name (with indices): float}"""
        m = self.solver.model()
        out = {}
        for a, v in list(self.c.items()):
            if isinstance(a, tuple):
                continue
            at = _ATOMS[a]
            if at.kind not in ("var", "fn") or isinstance(at.extra, tuple):
                continue
            val = m.eval(v, model_completion=True)
            try:
                if self.z3.is_algebraic_value(val):
                    val = val.approx(20)
                f = float(val.numerator_as_long()) / float(val.denominator_as_long())
            except Exception:
                continue
            out[(at.name, tuple(at.args))] = f
        return out


# ------------------------------------------------------------------ numeric evaluation of terms
def evaluate(e, env, rng, idx=None, dims=None):
    """Numeric value of a term; unknown atoms get random values, remembered in env."""
    idx = idx or {}
    dims = dims if dims is not None else {}
    s = 0.0
    for m, c in e.t.items():
        v = float(c)
        for a, x in m:
            v *= _eval_atom(a, env, rng, idx, dims) ** float(x)
        s += v
    return s


def _eval_atom(a, env, rng, idx, dims):
    at = _ATOMS[a]
    k = at.kind
    fr = tuple((d, idx.get(d, 0)) for d in sorted(at.free))
    key = (a, fr)
    if key in env:
        return env[key]
    sub = lambda i=0: evaluate(at.args[i], env, rng, idx, dims)
    if k == "var" and at.isint and not at.free and not isinstance(at.extra, tuple):
        v = dims.setdefault(at.name, rng.choice((2, 3)))
    elif k == "fn" and at.args:
        sig = ("fnval", at.name, fr, tuple(_sig(x, env, rng, idx, dims) for x in at.args))
        if sig not in env:
            env[sig] = math.exp(rng.gauss(0, 0.4)) if at.pos else rng.gauss(0, 1)
        v = env[sig]
    elif k in ("var", "fn"):
        v = math.exp(rng.gauss(0, 0.4)) if at.pos else rng.gauss(0, 1)
    elif k == "chi":
        v = float(rng.random() < 0.5)
    elif k == "prime":
        v = float(at.extra)
    elif k == "pi":
        v = math.pi
    elif k == "sqrt":
        v = sub()
        if v < 0:
            raise ArithmeticError("sqrt of negative")
        v = math.sqrt(v)
    elif k == "inv":
        v = 1.0 / sub()
    elif k == "exp":
        v = math.exp(sub())
    elif k == "log":
        v = math.log(sub())
    elif k == "cos":
        v = math.cos(sub())
    elif k == "sin":
        v = math.sin(sub())
    elif k == "acos":
        v = math.acos(sub())
    elif k == "rint":
        v = float(round(sub()))
    elif k == "mod":
        v = sub(0) % sub(1)
    elif k == "fdiv":
        v = sub(0) // sub(1)
    elif k == "sum":
        n = dims.setdefault(at.name, rng.choice((2, 3)))
        v = 0.0
        for i in range(int(n)):
            v += evaluate(at.args[0], env, rng, {**idx, at.name: i}, dims)
    else:
        raise ArithmeticError("no value for %s" % k)
    env[key] = v
    return v


def _sig(x, env, rng, idx, dims):
    """Rounded numeric values of the arguments of an opaque function (so that equal arguments read equal)."""
    if isinstance(x, (str, bytes)) or x is None:
        return x
    if isinstance(x, E):
        return _rnd(evaluate(x, env, rng, idx, dims))
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "all":
            e = E(dict(x[1]))
            ds = sorted(e.free)
            vals = []
            for d in ds:
                dims.setdefault(d, rng.choice((2, 3)))
            import itertools
            for ii in itertools.product(*[range(int(dims[d])) for d in ds]):
                vals.append(_rnd(evaluate(e, env, rng, {**idx, **dict(zip(ds, ii))}, dims)))
            return tuple(vals)
        if all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], tuple) and not isinstance(y[1], tuple) for y in x):
            return _rnd(evaluate(E(dict(x)), env, rng, idx, dims))
        return tuple(_sig(y, env, rng, idx, dims) for y in x)
    return x


def _rnd(v):
    return float("%.6e" % v) if abs(v) > 1e-9 else 0.0


# ------------------------------------------------------------------ obligations
class Obligation:
    __slots__ = ("label", "status", "by", "detail", "path", "model")

    def __init__(self, label, status, by, detail="", path="", model=None):
        self.label, self.status, self.by, self.detail, self.path, self.model = (
            label, status, by, detail, path, model)


class _Base:
    def implies(self, a, b):
        return sym.disj(sym.negate(a), b) if isinstance(a, SymBool) or isinstance(b, SymBool) else ((not a) or b)


class SymCtx(_Base):
    sym = True

    def __init__(self, prefix, z3o, deadline, tier="quick"):
        self.prefix = list(prefix)
        self.taken = []
        self.work = []
        self.assumes = []
        self.obls = []
        self.z3o = z3o
        self.deadline = deadline
        self.tier = tier
        self.ghost = {}
        self.choicelog = []
        from . import shim
        self.np = shim.NP

    # -- inputs
    def dim(self, name, lo=1, hi=4):
        return sym.dimvar(name)

    def real(self, name, pos=False, lo=None, hi=None):
        v = sym.var(name, pos=pos or (lo is not None and lo > 0))
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def integer(self, name, lo=0, hi=5):
        v = sym.var(name, isint=True, pos=(lo >= 1))
        if lo < 1:
            self.assume(v >= lo)
        return v

    def array(self, name, shape, pos=False):
        return arr.new_array(name, shape, pos)

    def dofset(self, name, dim, C):
        (m, c), = dim.t.items()
        return arr.DofSet(name, _ATOMS[m[0][0]].name, C)

    def choice(self, name, options):
        options = list(options)
        k = self._take(len(options))
        self.choicelog.append(k)
        return options[k]

    def _take(self, n):
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for j in range(1, n):
                self.work.append(self.taken + [j])
        self.taken.append(k)
        return k

    # -- branching
    def decide(self, b):
        if isinstance(b, (bool, np.bool_)):
            return bool(b)
        if b.free():
            raise Unsupported("branch on a condition that depends on a symbolic index: %s" % b)
        if time.time() > self.deadline:
            raise Unsupported("time limit")
        # decisions already implied do not count as branches (checked first, so that replaying a prefix of choices stays aligned)
        if any(isinstance(x, SymBool) and x.key() == b.key() for x in self.assumes):
            return True
        if any(isinstance(x, SymBool) and x.key() == sym.negate(b).key() for x in self.assumes):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            k = self.prefix[i]
            self.taken.append(k)
        else:
            s = self.z3o.session()
            t = s.check(self.assumes + [b], 500)
            if t == "unsat":
                k = 1
            else:
                s = self.z3o.session()
                f = s.check(self.assumes + [sym.negate(b)], 500)
                k = 0
                if f != "unsat":
                    self.work.append(self.taken + [1])
            self.taken.append(k)
        self.assumes.append(b if k == 0 else sym.negate(b))
        return k == 0

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathDone()
            return
        if isinstance(cond, np.ndarray) or isinstance(cond, arr.SymArray):
            for x in (cond.data if isinstance(cond, arr.SymArray) else cond).flat:
                self.assume(x)
            return
        self.assumes.append(cond)

    def feasible(self):
        s = self.z3o.session()
        return s.check([a for a in self.assumes if not a.free()])

    # -- obligations
    def _add(self, label, status, by, detail="", model=None):
        self.obls.append(Obligation(label, status, by, detail, str(self.choicelog), model))

    def ensure(self, label, cond):
        if isinstance(cond, (bool, np.bool_)):
            self._add(label, "proved" if cond else "refuted", "evaluation", "" if cond else "false")
            return
        if isinstance(cond, (np.ndarray, arr.SymArray)):
            d = cond.data if isinstance(cond, arr.SymArray) else cond
            for x in d.flat:
                self.ensure(label, x)
            return
        s = self.z3o.session()
        r = s.check(self.assumes + [sym.negate(cond)], 10000)
        if r == "unsat":
            self._add(label, "proved", "z3")
        elif r == "sat":
            self._add(label, "refuted", "z3", "counter-model for %s" % cond, s.model_values())
        else:
            self._add(label, "unknown", "z3", "no answer for %s" % cond)

    def ensure_eq(self, label, a, b, tol=None):
        a, b = _plain(a), _plain(b)
        if isinstance(a, (list, tuple, np.ndarray, arr.SymArray)) or isinstance(b, (list, tuple, np.ndarray, arr.SymArray)):
            A, B = arr.as_sym(a), arr.as_sym(b)
            if [x for x in A.axes] != [x for x in B.axes] and A.ndim and B.ndim:
                self._add(label, "refuted", "shape", "shapes %s and %s differ" % (A.axes, B.axes))
                return
            D = (A - B).data
            sub = [(i, x) for i, x in enumerate(A.axes if A.ndim else B.axes)
                   if isinstance(x, arr.SymAxis) and x.subset is not None]
            for ii in np.ndindex(D.shape):
                d = lift(D[ii])
                for i, x in sub:            # equality is claimed on the members of the subset only
                    d = d * arr.subset_weight(x.subset, ii[i] % x.C)
                self._eq0("%s%s" % (label, list(ii) if ii else ""), d)
            return
        if isinstance(a, (str, bytes, bool)) or a is None or isinstance(b, (str, bytes)) or b is None:
            self.ensure(label, a == b)
            return
        self._eq0(label, lift(a) - lift(b))

    def _eq0(self, label, d):
        if d.iszero():
            self._add(label, "proved", "normal form")
            return
        try:
            if sym.iszero_field(d):
                self._add(label, "proved", "normal form")
                return
        except Unsupported:
            pass
        if (any(isinstance(c, float) for c in d.t.values()) or all(abs(c) < 1e-13 for c in d.t.values())) and _collapsed_zero(d):
            self._add(label, "proved", "normal form (floating-point coefficients)")
            return
        if self._by_assumed_equalities(d):
            self._add(label, "proved", "normal form")
            return
        if not d.free and len(d.t) < 400:
            s = self.z3o.session()
            try:
                r = s.check([x for x in self.assumes if not x.free()] + [SymBool("!=", (d,))], 4000)
            except Unsupported:
                r = "unknown"
            if r == "unsat":
                self._add(label, "proved", "z3")
                return
        else:
            r = "unknown"
        # numeric reading of the difference term
        bad = 0
        ok = 0
        rng = random.Random(7)
        t0 = time.time()
        for _ in range(6):
            if time.time() - t0 > 2.0 or len(d.t) > 2000:
                break
            try:
                v = evaluate(d, {}, rng)
                scale = sum(abs(float(c)) for c in d.t.values()) + 1
                if abs(v) > 1e-7 * scale:
                    bad += 1
                else:
                    ok += 1
            except (ArithmeticError, OverflowError, ValueError):
                pass
        model = None
        if r == "sat":
            try:
                model = s.model_values()
            except Exception:
                model = None
        if bad and not ok and (r != "unknown" or not self.assumes):
            self._add(label, "refuted", "normal form", "difference is not identically zero: %s" % sym.estr(d, 6), model)
        else:
            self._add(label, "unknown", "normal form", "%s (numerically %s)" % (
                sym.estr(d, 6), "zero" if ok and not bad else "nonzero"), model)

    def _by_assumed_equalities(self, d):
        """Use path conditions of the form  var - t == 0  as rewrites."""
        for p in self.assumes:
            if isinstance(p, SymBool) and p.op == "==":
                e = p.a[0]
                # linear in some atom with constant coefficient
                for m, c in e.t.items():
                    if len(m) == 1 and m[0][1] == 1:
                        a = m[0][0]
                        if sum(1 for mm in e.t for x, _ in mm if x == a) == 1:
                            t = -(e - E({m: c})) / c
                            try:
                                d2 = replace_atom(d, a, t)
                            except (Unsupported, ZeroDivisionError):
                                continue
                            if d2.iszero() or sym.iszero_field(d2):
                                return True
        return False

    def note(self, s):
        pass

    # opaque function of given inputs
    def opaque(self, name, args, shape=None, pos=False):
        flat = []
        free = set()

        def rec(x):
            x = _plain(x)
            if isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
            elif isinstance(x, arr.SymArray):
                for y in x.data.flat:
                    flat.append(("all", sym.canon(y).key))
            elif isinstance(x, np.ndarray):
                for y in x.flat:
                    rec(y)
            elif isinstance(x, (str, bytes)) or x is None:
                flat.append(x)
            else:
                flat.append(sym.canon(x).key)
        rec(args)
        key = tuple(flat)
        if shape is None:
            return sym.fn(name, [key], idx=(), pos=pos)
        axes = [arr.parse_dim(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        fr = tuple(a.dim for a in axes if isinstance(a, arr.SymAxis))
        d = np.empty([arr.stored(a) for a in axes], object)
        for ii in np.ndindex(d.shape):
            d[ii] = sym.fn(name, [key], free=frozenset(fr), idx=ii, pos=pos)
        return arr.SymArray(d, axes) if fr else d


def _collapsed_zero(d):
    """Evaluate numeric atoms (roots of primes, pi); are all remaining coefficients rounding noise?"""
    acc, scale = {}, 1.0
    for m, c in d.t.items():
        v, rest = float(c), []
        for a, e in m:
            at = _ATOMS[a]
            if at.kind == "prime":
                v *= float(at.extra) ** float(e)
            elif at.kind == "pi":
                v *= math.pi ** float(e)
            else:
                rest.append((a, e))
        k = tuple(rest)
        acc[k] = acc.get(k, 0.0) + v
        scale = max(scale, abs(v))
    return all(abs(v) <= 1e-10 * scale for v in acc.values())


def replace_atom(d, a, t):
    r = sym.ZERO
    for m, c in d.t.items():
        x = E({(): c})
        for b, e in m:
            if b == a:
                x = x * (t ** e)
            else:
                at = _ATOMS[b]
                if at.kind in ("sqrt", "inv", "exp", "log", "cos", "sin") and _mentions(at.args[0], a):
                    y = replace_atom(at.args[0], a, t)
                    f = {"sqrt": sym.sqrt, "exp": sym.exp, "log": sym.log, "cos": sym.cos, "sin": sym.sin,
                         "inv": lambda z: z.recip()}[at.kind](y)
                    x = x * f ** e
                else:
                    x = x * E({((b, e),): 1})
        r = r + x
    return r


def _mentions(e, a):
    for m in e.t:
        for b, _ in m:
            if b == a:
                return True
            for y in _ATOMS[b].args:
                if isinstance(y, E) and _mentions(y, a):
                    return True
    return False


def _plain(x):
    """Unwrap depend objects."""
    if hasattr(x, "_tainted") and hasattr(x, "_value"):
        return arr._unwrap(x)
    return x


class ConcCtx(_Base):
    sym = False

    def __init__(self, seed, values=None, choices=None, tol=1e-8):
        self.rng = random.Random(seed)
        self.values = values or {}
        self.choices = list(choices) if choices else None
        self.nchoice = 0
        self.seed = seed
        self.tol = tol
        self.np = np
        self.checked = 0
        self.log = {}
        self.ghost = {}

    def _val(self, name, idx, pos, scale=1.0):
        if (name, idx) in self.values:
            v = self.values[(name, idx)]
            if pos and v <= 0:
                v = abs(v) or 0.5
            return v
        if pos:
            return math.exp(self.rng.gauss(0, 0.5))
        return self.rng.gauss(0, 1) * scale

    def dim(self, name, lo=1, hi=4):
        v = self.rng.randint(lo, hi)
        self.log[name] = v
        return v

    def real(self, name, pos=False, lo=None, hi=None):
        if (name, ()) in self.values:
            v = self._val(name, (), pos)
        elif lo is not None and hi is not None:
            v = self.rng.uniform(lo, hi)
        elif lo is not None:
            v = lo + abs(self.rng.gauss(0, 1))
        elif hi is not None:
            v = hi - abs(self.rng.gauss(0, 1))
        else:
            v = self._val(name, (), pos)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        self.log[name] = v
        return v

    def integer(self, name, lo=0, hi=5):
        if (name, ()) in self.values:
            v = int(round(self.values[(name, ())]))
            v = min(max(v, lo), max(hi, lo) + 50)
        else:
            v = self.rng.randint(lo, hi)
        self.log[name] = v
        return v

    def array(self, name, shape, pos=False):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        a = np.zeros([int(s) for s in shape])
        for ii in np.ndindex(a.shape):
            a[ii] = self._val(name, ii, pos)
        self.log[name] = a.tolist()
        return a

    def dofset(self, name, dim, C):
        n = int(dim)
        k = self.rng.randint(1, n)
        at = sorted(self.rng.sample(range(n), k))
        return np.array([C * i + j for i in at for j in range(C)], int)

    def choice(self, name, options):
        options = list(options)
        i = self.nchoice
        self.nchoice += 1
        if self.choices is not None and i < len(self.choices):
            k = min(self.choices[i], len(options) - 1)
        else:
            k = self.rng.randrange(len(options))
        self.log["choice:" + name] = repr(options[k])
        return options[k]

    def assume(self, cond):
        if not np.all(cond):
            raise Reject()

    def ensure(self, label, cond):
        self.checked += 1
        if not np.all(cond):
            raise Refuted(label, "condition is false")

    def ensure_eq(self, label, a, b, tol=None):
        self.checked += 1
        a, b = _plain(a), _plain(b)
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
            if a != b:
                raise Refuted(label, "%r != %r" % (a, b))
            return
        A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if A.shape != B.shape and A.ndim and B.ndim:
            raise Refuted(label, "shapes %s and %s differ" % (A.shape, B.shape))
        tol = tol or self.tol
        fa, fb = A[np.isfinite(A)], B[np.isfinite(B)]
        scale = 1.0 + max(np.max(np.abs(fa), initial=0.0), np.max(np.abs(fb), initial=0.0))
        D = np.abs(A - B)
        if not np.all(D <= tol * scale):
            raise Refuted(label, "got %s, contract requires %s (max difference %s)" % (
                np.array2string(A, precision=10, threshold=20), np.array2string(B, precision=10, threshold=20),
                np.nanmax(D) if D.size else "nan"))

    def note(self, s):
        self.log.setdefault("notes", []).append(s)

    def opaque(self, name, args, shape=None, pos=False):
        h = []

        def rec(x):
            x = _plain(x)
            if isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
            elif isinstance(x, np.ndarray):
                for y in x.flat:
                    rec(y)
            elif isinstance(x, (str, bytes)) or x is None:
                h.append(x)
            else:
                h.append(float(x))
        rec(args)
        # a smooth deterministic function of the numeric arguments
        num = [y for y in h if isinstance(y, float)]
        r = random.Random(name + repr([y for y in h if not isinstance(y, float)]))

        def val():
            s = 0.0
            for y in num:
                s += r.uniform(-1, 1) * y
            s = s + r.uniform(-1, 1)
            return math.exp(0.3 * math.sin(s)) if pos else math.sin(s) + 0.3 * math.cos(2.3 * s)
        if shape is None:
            return val()
        a = np.zeros([int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))])
        for ii in np.ndindex(a.shape):
            a[ii] = val()
        return a


# ------------------------------------------------------------------ exploration
def explore(h, tier="quick", time_limit=60.0, max_paths=400):
    """Run harness h symbolically on all paths.  -> dict with obligations and statistics."""
    global CUR
    from . import shim
    z3o = Z3()
    deadline = time.time() + time_limit
    work = [[]]
    obls, unsupported, npaths, infeasible = [], [], 0, 0
    pathmodels = []
    t0 = time.time()
    sym.reset_atoms()
    cov = 0
    while work:
        if npaths >= max_paths or time.time() > deadline:
            unsupported.append("path/time limit reached (%d paths)" % npaths)
            break
        pre = work.pop()
        ctx = SymCtx(pre, z3o, deadline, tier)
        CUR = ctx
        npaths += 1
        try:
            with shim.symbolic_mode():
                h(ctx)
        except PathDone:
            pass
        except Unsupported as ex:
            unsupported.append("%s [path %s]" % (ex, ctx.taken))
        except RecursionError:
            unsupported.append("recursion limit")
        except (Refuted, AssertionError) as ex:
            ctx._add("assertion", "unknown", "execution", repr(ex))
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            unsupported.append("%s: %s at %s [path %s]" % (type(ex).__name__, ex, ' < '.join('%s:%s' % (t.filename.split('/')[-1], t.lineno) for t in tb[::-1][:6]), ctx.taken))
        finally:
            CUR = None
        work.extend(ctx.work)
        # vacuity: the path condition must be satisfiable (or at least not refuted)
        if ctx.assumes:
            s = z3o.session()
            try:
                r = s.check([a for a in ctx.assumes if not a.free()], 2000)
            except Unsupported:
                r = "unknown"
            if r == "unsat":
                infeasible += 1
                continue
            if r == "sat" and len(pathmodels) < 40:
                try:
                    pathmodels.append((s.model_values(), list(ctx.choicelog)))
                except Exception:
                    pass
        else:
            pathmodels.append(({}, list(ctx.choicelog)))
        obls.extend(ctx.obls)
    return dict(obls=obls, unsupported=unsupported, paths=npaths, infeasible=infeasible,
                z3_time=z3o.time, z3_queries=z3o.queries, z3_results=z3o.results,
                wall=time.time() - t0, models=pathmodels)


def run_concrete(h, seed, values=None, choices=None, tol=1e-8):
    """-> ('ok', nchecks) | ('reject', None) | ('fail', Refuted) | ('error', (exc, in_repo, text))"""
    ctx = ConcCtx(seed, values, choices, tol)
    try:
        with np.errstate(all="ignore"):
            h(ctx)
        return "ok", ctx
    except Reject:
        return "reject", ctx
    except PathDone:
        return "ok", ctx
    except Refuted as ex:
        return "fail", (ctx, ex)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        files = [f.filename for f in tb]
        in_repo = bool(files) and any("/ipi/" in f for f in files[-1:])
        # innermost frame in numpy & co called from /repo counts as /repo
        if not in_repo:
            for f in reversed(files):
                if "/verif/" in f:
                    break
                if "/ipi/" in f:
                    in_repo = True
                    break
        return "error", (ctx, ex, in_repo, "".join(traceback.format_exception(type(ex), ex, ex.__traceback__))[-3000:])
