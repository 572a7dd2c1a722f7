"""Symbolic reals: normal-form terms used as *values* while /repo's code runs.

E is a multivariate polynomial (Laurent, with rational exponents on atoms that
are known positive) over atoms.  Atoms are declared variables, opaque function
applications, square roots, exponentials, logarithms, sines/cosines,
reciprocals of polynomials, indicator (0/1) atoms and binder atoms
Sum_{0<=i<n} body(i).  Equality of normal forms decides the equational
obligations; z3 is asked about orderings and case splits.
"""
import math
from fractions import Fraction

import numpy as np

TOL = 1e-10          # a float coefficient this much smaller than the two it was summed from is rounding residue
RESIDUE = 1e-14      # long-decimal floats of numpy arrays below this are rounding residue of table entries (0 computed as 6e-17)


class Unsupported(Exception):
    """The code under contract did something the verifier has no rule for."""


class PathDone(BaseException):
    """Current symbolic path is finished (cut point reached, or infeasible)."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "name", "args", "pos", "free", "extra", "isint", "depth")

    def __init__(self, id, kind, name, args, pos, free, extra=None, isint=False):
        self.id, self.kind, self.name, self.args = id, kind, name, args
        self.pos, self.free, self.extra, self.isint = pos, free, extra, isint

    def __repr__(self):
        return _atom_str(self)


_ATOMS = []
_BYKEY = {}


def _mk_atom(key, kind, name, args=(), pos=False, free=frozenset(), extra=None, isint=False):
    a = _BYKEY.get(key)
    if a is None:
        a = Atom(len(_ATOMS), kind, name, args, pos, free, extra, isint)
        _ATOMS.append(a)
        _BYKEY[key] = a
    return a


def reset_atoms():
    _ATOMS.clear()
    _BYKEY.clear()
    _PRIMES.clear()
    _ANGLES.clear()


def _atom_str(a):
    if a.kind == "var":
        return a.name + ("[" + ",".join(map(str, a.args)) + "]" if a.args else "")
    if a.kind == "sum":
        return "Sum_%s(%s)" % (a.name, a.args[0])
    if a.kind == "prime":
        return "sqrt-base(%d)" % a.extra
    return "%s(%s)" % (a.name, ", ".join(map(str, a.args)))


# ------------------------------------------------------------------ numbers
_SIMPLE_DEN = 5040


def conv_number(x):
    """Machine number -> exact rational when it is evidently a rounded rational."""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, Fraction)):
        return x
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        table = isinstance(x, np.floating)
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported("non-finite constant %r" % x)
        if x.is_integer() and abs(x) < 2**60:
            return int(x)
        fr = Fraction(x).limit_denominator(_SIMPLE_DEN)
        if fr != 0 and abs(float(fr) - x) <= 2 * math.ulp(x):
            return fr
        r = repr(x)
        if len(r.split("e")[0].replace(".", "").replace("-", "").lstrip("0")) <= 14:
            return Fraction(r)
        if table and abs(x) < RESIDUE:
            return 0
        return x
    raise Unsupported("not a number: %r" % (type(x),))


def _isnum(x):
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def _fix(c):
    if isinstance(c, float):
        if 0.5 < abs(c) < 1e6 and abs(c - round(c)) < 1e-13:
            return int(round(c))
        return c
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _plus(v, c):
    s = v + c
    if isinstance(s, float) and abs(s) < TOL * max(abs(v), abs(c)):
        return 0
    return _fix(s)


def _ckey(c):
    return float("%.9g" % c) if isinstance(c, float) else c


# ------------------------------------------------------------------ E
class E:
    __slots__ = ("t", "_key", "_free")

    def __init__(self, terms):
        self.t = terms
        self._key = None
        self._free = None

    # -- construction helpers
    @staticmethod
    def const(c):
        c = conv_number(c)
        return E({(): c}) if c != 0 else E({})

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(((m, _ckey(c)) for m, c in self.t.items()), key=repr))
        return self._key

    def __hash__(self):
        return hash(self.key)

    @property
    def free(self):
        if self._free is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= _ATOMS[a].free
            self._free = frozenset(s)
        return self._free

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def constval(self):
        return self.t.get((), 0)

    def iszero(self):
        return not self.t

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.t:
            return self
        if not self.t:
            return o
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = _plus(v, c)
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return E(r)

    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not self.t or not o.t:
            return E({})
        if o.is_const():
            c0 = o.constval()
            if c0 == 1:
                return self
            return E({m: _fix(c * c0) for m, c in self.t.items() if _fix(c * c0) != 0})
        if self.is_const():
            return o * self
        if len(self.t) * len(o.t) > LIMIT:
            raise Unsupported("term too large")
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                _acc_mul(r, m1, c1, m2, c2)
        return E(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self * o.recip()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o * self.recip()

    def recip(self):
        if not self.t:
            raise ZeroDivisionError("symbolic division by zero")
        if len(self.t) == 1:
            (m, c), = self.t.items()
            c = Fraction(1) / c if not isinstance(c, float) else 1.0 / c
            r = E({(): _fix(c)})
            for a, e in m:
                at = _ATOMS[a]
                if at.kind == "exp":
                    r = r * exp(-(at.args[0] * e))
                elif at.kind == "inv":
                    r = r * at.args[0] ** e
                elif at.kind == "chi":
                    raise Unsupported("division by an indicator")
                elif at.kind == "prime":
                    q = math.floor(-e)
                    rem = -e - q
                    r = r * E({((a, _fe(rem)),) if rem else (): _fix(Fraction(at.extra) ** q)})
                else:
                    r = r * E({((a, -e),): 1})
            return r
        # common factor extraction: 1/(c*m*P') with P' monic-normalised
        c0, m0, P = _normal_poly(self)
        at = _mk_atom(("inv", P.key), "inv", "inv", (P,), is_pos(P), P.free)
        base = E({m0: c0}).recip() if m0 or c0 != 1 else E({(): 1})
        return base * E({((at.id, 1),): 1})

    def __pow__(self, k):
        if isinstance(k, E):
            if k.is_const():
                k = k.constval()
            else:
                return exp(k * log(self))
        k = conv_number(k)
        if isinstance(k, int):
            if k == 0:
                return ONE
            if k < 0:
                return (self ** (-k)).recip()
            r = None
            b = self
            while k:
                if k & 1:
                    r = b if r is None else r * b
                k >>= 1
                if k:
                    b = b * b
            return r
        if isinstance(k, Fraction):
            if k.denominator == 2:
                s = sqrt(self)
                return s ** k.numerator
            if len(self.t) == 1:
                (m, c), = self.t.items()
                if c == 1 and all(_ATOMS[a].pos for a, _ in m):
                    return E({tuple((a, _fe(e * k)) for a, e in m): 1})
        raise Unsupported("power %r" % (k,))

    def __rpow__(self, b):
        if _isnum(b) and b > 0:
            return exp(self * log(lift(b)))
        raise Unsupported("power with symbolic exponent")

    def __abs__(self):
        if self.is_const():
            return E.const(abs(self.constval()))
        if is_nonneg(self):
            return self
        from . import core
        if core.decide(ge(self, 0)):
            return self
        return -self

    def __mod__(self, o):
        if self.is_const() and _isnum(o):
            return E.const(self.constval() % conv_number(o))
        return imod(self, o)

    def __rmod__(self, o):
        return imod(lift(o), self)

    def __floordiv__(self, o):
        if self.is_const() and _isnum(o):
            return E.const(self.constval() // conv_number(o))
        return ifloordiv(self, o)

    # -- numpy ufunc hooks on object arrays
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return exp(self)

    def log(self):
        return log(self)

    def cos(self):
        return cos(self)

    def sin(self):
        return sin(self)

    def sinh(self):
        return sinh(self)

    def cosh(self):
        return cosh(self)

    def arccos(self):
        return arccos(self)

    def tan(self):
        return sin(self) / cos(self)

    def rint(self):
        return rint(self)

    def conjugate(self):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def T(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def __round__(self, nd=None):
        return rint(self)

    def isfinite(self):
        return True

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return compare(self, o, op)

    def __eq__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return False
        return self._cmp(o, "==")

    def __ne__(self, o):
        if o is None or isinstance(o, (str, bytes)):
            return True
        return self._cmp(o, "!=")

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.is_const():
            return float(self.constval())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        if self.is_const():
            return int(self.constval())
        raise Unsupported("int() of a symbolic value")

    def __index__(self):
        if self.is_const() and isinstance(self.constval(), int):
            return self.constval()
        raise Unsupported("index from a symbolic value")

    def __repr__(self):
        return estr(self)


LIMIT = 4_000_000


def _fe(e):
    if isinstance(e, Fraction) and e.denominator == 1:
        return e.numerator
    return e


_SPECIAL = frozenset(("exp", "sqrt", "sin", "chi", "prime", "inv"))


def _acc_mul(r, m1, c1, m2, c2):
    """r += c1*m1 * c2*m2 with atom reduction rules."""
    c = c1 * c2
    if not m1 or not m2:
        m = m1 or m2
        _accum(r, m, c)
        return
    d = dict(m1)
    special = False
    for a, e in m2:
        v = d.get(a)
        if v is None:
            d[a] = e
        else:
            v = _fe(v + e)
            if v == 0:
                del d[a]
            else:
                d[a] = v
                if _ATOMS[a].kind in _SPECIAL:
                    special = True
    nexp = 0
    for a in d:
        k = _ATOMS[a].kind
        if k == "exp":
            nexp += 1
            if d[a] != 1:
                special = True
        elif k == "inv":
            pass
    if nexp > 1:
        special = True
    if not special:
        _accum(r, tuple(sorted(d.items())), c)
        return
    # slow path
    plain = []
    extra = []          # factors as E
    earg = None
    for a, e in d.items():
        at = _ATOMS[a]
        if at.kind == "exp":
            earg = at.args[0] * e if earg is None else earg + at.args[0] * e
        elif at.kind == "sqrt" and isinstance(e, int) and (e >= 2 or e <= -2):
            q, rem = divmod(abs(e), 2)
            f = at.args[0] ** q
            extra.append(f if e > 0 else f.recip())
            if rem:
                plain.append((a, 1 if e > 0 else -1))
        elif at.kind == "prime":
            q = math.floor(e)
            rem = e - q
            c = c * (Fraction(at.extra) ** q)
            if rem:
                plain.append((a, _fe(rem)))
        elif at.kind == "sin" and isinstance(e, int) and e >= 2:
            q, rem = divmod(e, 2)
            extra.append((ONE - cos(at.args[0]) ** 2) ** q)
            if rem:
                plain.append((a, 1))
        elif at.kind == "chi":
            plain.append((a, 1))
        else:
            plain.append((a, e))
    res = E({tuple(sorted(plain)): _fix(c)}) if _fix(c) != 0 else E({})
    if earg is not None:
        ee = exp(earg)
        if plain:
            # ee is a monomial c*m (or const); merge without re-entering on exp
            for m, cc in ee.t.items():
                dd = dict(plain)
                for a, e in m:
                    dd[a] = _fe(dd.get(a, 0) + e)
                res = E({tuple(sorted((a, e) for a, e in dd.items() if e != 0)): _fix(c * cc)})
        else:
            res = E({m: _fix(cc * c) for m, cc in ee.t.items()})
    for f in extra:
        res = res * f
    for m, cc in res.t.items():
        _accum(r, m, cc)


def _accum(r, m, c):
    v = r.get(m)
    if v is None:
        c = _fix(c)
        if c != 0:
            r[m] = c
    else:
        v = _plus(v, c)
        if v == 0:
            del r[m]
        else:
            r[m] = v


def lift(x):
    if isinstance(x, E):
        return x
    if _isnum(x):
        return E.const(x)
    if isinstance(x, SymBool):
        return ite(x, ONE, ZERO)
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return lift(x.item())
        return NotImplemented
    return NotImplemented


def _normal_poly(P):
    """P = c0 * m0 * P' with P' having leading coefficient 1 and no common monomial."""
    ms = list(P.t.keys())
    common = None
    for m in ms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(common[a], d[a]) for a in common if a in d}
    common = {a: e for a, e in (common or {}).items()
              if e != 0 and _ATOMS[a].kind not in ("chi", "exp", "sin", "sqrt")}
    m0 = tuple(sorted(common.items()))
    Q = {}
    for m, c in P.t.items():
        d = dict(m)
        for a, e in common.items():
            d[a] = _fe(d[a] - e)
            if d[a] == 0:
                del d[a]
        Q[tuple(sorted(d.items()))] = c
    lead = min(Q.keys(), key=lambda m: (len(m), m))
    c0 = Q[lead]
    inv = Fraction(1) / c0 if not isinstance(c0, float) else 1.0 / c0
    Q = {m: _fix(c * inv) for m, c in Q.items()}
    return c0, m0, E(Q)


# ------------------------------------------------------------------ functions
_PRIMES = {}


def _prime_atom(p):
    return _mk_atom(("prime", p), "prime", "p%d" % p, (), True, frozenset(), p)


def _factor(n):
    f = {}
    p = 2
    while p * p <= n and p < 2000:
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _sqrt_num(c):
    if isinstance(c, float):
        return E({(): math.sqrt(c)}) if c >= 0 else None
    c = Fraction(c)
    if c < 0:
        return None
    if c == 0:
        return ZERO
    if c.numerator > 10**9 or c.denominator > 10**9:
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return E.const(Fraction(rn, rd))
        return E({(): math.sqrt(c)})
    coef = Fraction(1)
    mono = {}
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(n).items():
            k *= sgn
            q = k // 2
            coef *= Fraction(p) ** q
            if k - 2 * q:
                mono[_prime_atom(p).id] = Fraction(1, 2)
    return E({tuple(sorted(mono.items())): _fix(coef)})


def sqrt(x):
    x = lift(x)
    if x.is_const():
        r = _sqrt_num(x.constval())
        if r is None:
            raise ValueError("sqrt of a negative number")
        return r
    if len(x.t) == 1:
        (m, c), = x.t.items()
        ok = []
        rest = {}
        for a, e in m:
            at = _ATOMS[a]
            if at.kind == "exp":
                ok.append(exp(at.args[0] * e * Fraction(1, 2)))
            elif at.pos:
                ok.append(E({((a, _fe(Fraction(e) / 2)),): 1}))
            elif at.kind == "inv" and is_nonneg(at.args[0]):
                ok.append(sqrt(at.args[0]).recip() ** 1 if e == 1 else None)
            else:
                rest[a] = e
        if None in ok:
            ok = [o for o in ok if o is not None]
            rest = dict(m)
            ok = []
        cneg = c < 0
        rc = _sqrt_num(-c if cneg else c)
        if not rest and not cneg:
            for f in ok:
                rc = rc * f
            return rc
        body = E({tuple(sorted(rest.items())): -1 if cneg else 1})
        if rest and not cneg and all(isinstance(e, int) and e % 2 == 0 for e in rest.values()):
            root = E({tuple(sorted((a, e // 2) for a, e in rest.items())): 1})
            rr = abs(root)
            for f in ok:
                rc = rc * f
            return rc * rr
        at = _mk_atom(("sqrt", body.key), "sqrt", "sqrt", (body,), True, body.free)
        r = rc * E({((at.id, 1),): 1})
        for f in ok:
            r = r * f
        return r
    c0, m0, P = _normal_poly(x)
    # keep sign-definite content outside the root
    out = ONE
    inner_c, inner_m = c0, []
    if c0 > 0:
        out = _sqrt_num(c0)
        inner_c = 1
    elif c0 < 0:
        out = _sqrt_num(-c0)
        inner_c = -1
    for a, e in m0:
        if _ATOMS[a].pos:
            out = out * E({((a, _fe(Fraction(e) / 2)),): 1})
        else:
            inner_m.append((a, e))
    body = P * E({tuple(inner_m): inner_c})
    sq = _perfect_square(body)
    if sq is not None:
        return out * abs(sq)
    at = _mk_atom(("sqrt", body.key), "sqrt", "sqrt", (body,), True, body.free)
    return out * E({((at.id, 1),): 1})


def _perfect_square(P):
    """Recognise P == R**2 for binomials/short R (exact coefficients only)."""
    n = len(P.t)
    if n not in (3, 6, 10) or any(isinstance(c, float) for c in P.t.values()):
        return None
    roots = []
    for m, c in P.t.items():
        if c > 0 and all(isinstance(e, int) and e % 2 == 0 for _, e in m):
            r = _sqrt_num(c)
            if r.is_const():
                roots.append(E({tuple((a, e // 2) for a, e in m): r.constval()}))
    want = {3: 2, 6: 3, 10: 4}[n]
    if len(roots) < want:
        return None
    import itertools
    for combo in itertools.combinations(roots, want):
        for signs in itertools.product((1, -1), repeat=want - 1):
            R = combo[0]
            for s, q in zip(signs, combo[1:]):
                R = R + q * s
            if (R * R - P).iszero():
                return R
    return None


def exp(x):
    x = lift(x)
    if x.iszero():
        return ONE
    # exp(c*log(y)) -> y**c for the log part
    fac = ONE
    rest = dict(x.t)
    for m, c in list(x.t.items()):
        if len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == "log":
            y = _ATOMS[m[0][0]].args[0]
            if isinstance(c, int) or (isinstance(c, Fraction) and c.denominator == 2):
                try:
                    fac = fac * y ** c
                    del rest[m]
                except Unsupported:
                    pass
    if len(rest) != len(x.t):
        return fac * exp(E(rest))
    at = _mk_atom(("exp", x.key), "exp", "exp", (x,), True, x.free)
    return E({((at.id, 1),): 1})


def log(x):
    x = lift(x)
    if x.is_const():
        c = x.constval()
        if c == 1:
            return ZERO
        if c <= 0:
            raise ValueError("log of a non-positive number")
        if isinstance(c, float):
            return E.const(math.log(c))
        r = ZERO
        c = Fraction(c)
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            for p, k in _factor(n).items():
                at = _mk_atom(("log", p), "log", "log", (E.const(p),), False, frozenset())
                r = r + E({((at.id, 1),): s * k})
        return r
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c > 0 and all(_ATOMS[a].pos for a, _ in m):
            r = log(E.const(c)) if c != 1 else ZERO
            for a, e in m:
                at = _ATOMS[a]
                if at.kind == "exp":
                    r = r + at.args[0] * e
                elif at.kind == "prime":
                    r = r + log(E.const(at.extra)) * e
                else:
                    b = E({((a, 1),): 1})
                    la = _mk_atom(("log", b.key), "log", "log", (b,), False, b.free)
                    r = r + E({((la.id, 1),): e})
            return r
    if len(x.t) > 1:
        c0, m0, P = _normal_poly(x)
        if (c0 > 0) and all(_ATOMS[a].pos for a, _ in m0):
            la = _mk_atom(("log", P.key), "log", "log", (P,), False, P.free)
            return (log(E({m0: c0})) if (m0 or c0 != 1) else ZERO) + E({((la.id, 1),): 1})
    la = _mk_atom(("log", x.key), "log", "log", (x,), False, x.free)
    return E({((la.id, 1),): 1})


def pi():
    return E({((_mk_atom(("pi",), "pi", "pi", (), True).id, 1),): 1})


def _sign_norm(x):
    """(sign, |x|-representative) picking a canonical sign of the leading term."""
    lead = min(x.t.keys(), key=lambda m: (len(m), m))
    return (-1, -x) if x.t[lead] < 0 else (1, x)


def _split_pi(x):
    """x = r*pi + rest, r rational."""
    pm = ((_mk_atom(("pi",), "pi", "pi", (), True).id, 1),)
    r = x.t.get(pm, 0)
    if r == 0 or isinstance(r, float):
        return 0, x
    d = dict(x.t)
    del d[pm]
    return r, E(d)


def _cos_rational(r):
    """cos(r*pi) exactly for r a multiple of 1/12, else a float."""
    r = Fraction(r) % 2
    if r > 1:
        r = 2 - r
    sgn = 1
    if r > Fraction(1, 2):
        r, sgn = 1 - r, -1
    tab = {Fraction(0): ONE, Fraction(1, 2): ZERO,
           Fraction(1, 3): E.const(Fraction(1, 2)),
           Fraction(1, 4): _sqrt_num(2) * Fraction(1, 2),
           Fraction(1, 6): _sqrt_num(3) * Fraction(1, 2),
           Fraction(1, 12): (_sqrt_num(6) + _sqrt_num(2)) * Fraction(1, 4),
           Fraction(5, 12): (_sqrt_num(6) - _sqrt_num(2)) * Fraction(1, 4)}
    if r in tab:
        return tab[r] * sgn
    return E({(): sgn * math.cos(math.pi * float(r))})


def cos(x):
    x = lift(x)
    if x.iszero():
        return ONE
    if x.is_const():
        return E({(): math.cos(float(x.constval()))})
    r, rest = _split_pi(x)
    if r != 0:
        if rest.iszero():
            return _cos_rational(r)
        return _cos_rational(r) * cos(rest) - _cos_rational(Fraction(1, 2) - r) * sin(rest)
    # cos(arccos(y)) = y
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == "acos":
            return _ATOMS[m[0][0]].args[0]
    _, y = _sign_norm(x)
    at = _mk_atom(("cos", y.key), "cos", "cos", (y,), False, y.free)
    return E({((at.id, 1),): 1})


def sin(x):
    x = lift(x)
    if x.iszero():
        return ZERO
    if x.is_const():
        return E({(): math.sin(float(x.constval()))})
    r, rest = _split_pi(x)
    if r != 0:
        sr = _cos_rational(Fraction(1, 2) - r)
        if rest.iszero():
            return sr
        return sr * cos(rest) + _cos_rational(r) * sin(rest)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == "acos":
            y = _ATOMS[m[0][0]].args[0]
            return sqrt(ONE - y * y)
    s, y = _sign_norm(x)
    at = _mk_atom(("sin", y.key), "sin", "sin", (y,), False, y.free)
    return E({((at.id, 1),): s})


def arccos(x):
    x = lift(x)
    if len(x.t) == 1:
        (m, c), = x.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and _ATOMS[m[0][0]].kind == "cos":
            a = _ATOMS[m[0][0]].args[0]
            if getattr(a, "t", None) is not None and _angle_in_0_pi(a):
                return a
    at = _mk_atom(("acos", x.key), "acos", "acos", (x,), True, x.free)
    return E({((at.id, 1),): 1})


_ANGLES = set()


def declare_angle(e):
    """e is a variable known to lie in (0, pi)."""
    _ANGLES.add(e.key)
    return e


def _angle_in_0_pi(a):
    return a.key in _ANGLES


def sinh(x):
    x = lift(x)
    return (exp(x) - exp(-x)) * Fraction(1, 2)


def cosh(x):
    x = lift(x)
    return (exp(x) + exp(-x)) * Fraction(1, 2)


def rint(x):
    """Nearest integer, as an opaque integer-valued atom r(x) with |x - r(x)| <= 1/2."""
    x = lift(x)
    if x.is_const():
        return E.const(round(x.constval()))
    at = _mk_atom(("rint", x.key), "rint", "rint", (x,), False, x.free, isint=True)
    return E({((at.id, 1),): 1})


def imod(x, o):
    o = lift(o)
    at = _mk_atom(("mod", x.key, o.key), "mod", "mod", (x, o), False, x.free | o.free, isint=True)
    return E({((at.id, 1),): 1})


def ifloordiv(x, o):
    o = lift(o)
    at = _mk_atom(("fdiv", x.key, o.key), "fdiv", "fdiv", (x, o), False, x.free | o.free, isint=True)
    return E({((at.id, 1),): 1})


def var(name, pos=False, isint=False, free=(), args=()):
    a = _mk_atom(("var", name, tuple(args), tuple(sorted(free))), "var", name, tuple(args), pos,
                 frozenset(free), None, isint)
    return E({((a.id, 1),): 1})


def chi(name, free=(), args=()):
    """0/1 indicator."""
    a = _mk_atom(("chi", name, tuple(args), tuple(sorted(free))), "chi", name, tuple(args), False,
                 frozenset(free))
    return E({((a.id, 1),): 1})


def fn(name, args, free=frozenset(), idx=(), pos=False):
    """Opaque function application: equal argument normal forms give equal results."""
    key = ("fn", name, tuple(a.key if isinstance(a, E) else a for a in args), tuple(idx), tuple(sorted(free)))
    a = _mk_atom(key, "fn", name + "".join("_%s" % i for i in idx), tuple(args), pos, frozenset(free))
    return E({((a.id, 1),): 1})


def ite(c, a, b):
    """if c then a else b, as chi*a + (1-chi)*b."""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ch = chi_of(c)
    return ch * a + (ONE - ch) * b


def chi_of(c):
    free = c.free()
    at = _mk_atom(("chib", c.key()), "chi", "chi", (c,), False, free)
    return E({((at.id, 1),): 1})


# ------------------------------------------------------------------ sums
def sum_over(dim, e):
    """Sum_{0<=i_dim<n} e ; dim is the name of the index set, n = var(dim)."""
    e = lift(e)
    r = ZERO
    n = dimvar(dim)
    groups = {}
    for m, c in e.t.items():
        out, inn = [], []
        for a, x in m:
            (inn if dim in _ATOMS[a].free else out).append((a, x))
        groups.setdefault(tuple(inn), {})[tuple(out)] = c
    for inn, outs in groups.items():
        if not inn:
            s = n
        else:
            body = E({inn: 1})
            at = _mk_atom(("sum", dim, body.key), "sum", dim, (body,), is_pos(body),
                          frozenset(body.free - {dim}))
            s = E({((at.id, 1),): 1})
        o = E({})
        for om, oc in outs.items():
            o = o + E({om: oc})
        r = r + s * o
    return r


def dimvar(dim):
    return var(dim, pos=True, isint=True)


def subst_index(e, dim, new):
    """Replace the free index of `dim` in e by `new` (a label: int or E)."""
    if dim not in e.free:
        return e
    r = ZERO
    for m, c in e.t.items():
        t = E({(): c})
        for a, x in m:
            t = t * _subst_atom(a, dim, new) ** x if dim in _ATOMS[a].free else t * E({((a, x),): 1})
        r = r + t
    return r


def _subst_atom(a, dim, new):
    at = _ATOMS[a]
    if at.kind in ("var", "chi", "fn") and not (at.kind == "chi" and at.args and isinstance(at.args[0], SymBool)):
        lab = (dim, new.key if isinstance(new, E) else new)
        key = ("at", a, lab)
        na = _mk_atom(key, at.kind, "%s@%s" % (at.name, new), at.args, at.pos,
                      frozenset(at.free - {dim}), ("at", a, dim, new), at.isint)
        return E({((na.id, 1),): 1})
    if at.kind in ("sqrt", "exp", "log", "cos", "sin", "inv", "acos", "rint"):
        y = subst_index(at.args[0], dim, new)
        return {"sqrt": sqrt, "exp": exp, "log": log, "cos": cos, "sin": sin, "acos": arccos,
                "rint": rint, "inv": lambda z: z.recip()}[at.kind](y)
    raise Unsupported("index substitution in %s" % at.kind)


# ------------------------------------------------------------------ sign
def is_pos(e):
    if not e.t:
        return False
    for m, c in e.t.items():
        if c <= 0:
            return False
        for a, x in m:
            if not _ATOMS[a].pos:
                return False
    return True


def is_nonneg(e):
    for m, c in e.t.items():
        if c < 0:
            return False
        for a, x in m:
            at = _ATOMS[a]
            if not (at.pos or at.kind == "chi" or (isinstance(x, int) and x % 2 == 0)):
                return False
    return True


# ------------------------------------------------------------------ booleans
class SymBool:
    """A proposition; truth-testing it splits the current path."""
    __slots__ = ("op", "a", "_f")

    def __init__(self, op, a):
        self.op, self.a = op, a
        self._f = None

    def key(self):
        return (self.op, tuple(x.key if isinstance(x, E) else (x.key() if isinstance(x, SymBool) else x)
                               for x in self.a))

    def free(self):
        s = frozenset()
        for x in self.a:
            s |= x.free if isinstance(x, E) else (x.free() if isinstance(x, SymBool) else frozenset())
        return s

    def __bool__(self):
        from . import core
        return core.decide(self)

    def __invert__(self):
        return negate(self)

    def logical_not(self):
        return negate(self)

    def __and__(self, o):
        return conj(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return disj(self, o)

    __ror__ = __or__

    def __mul__(self, o):
        return lift(self) * o

    __rmul__ = __mul__

    def __add__(self, o):
        return lift(self) + o

    __radd__ = __add__

    def __repr__(self):
        return "(%s %s)" % (self.op, " ".join(map(str, self.a)))


def negate(b):
    if isinstance(b, (bool, np.bool_)):
        return not b
    if b.op == "not":
        return b.a[0]
    inv = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", "<=": ">", ">": "<="}
    if b.op in inv:
        return SymBool(inv[b.op], b.a)
    return SymBool("not", (b,))


def conj(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if not b:
                return False
        else:
            out.append(b)
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool("and", tuple(out))


def disj(*bs):
    out = []
    for b in bs:
        if isinstance(b, (bool, np.bool_)):
            if b:
                return True
        else:
            out.append(b)
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool("or", tuple(out))


def compare(a, b, op):
    d = a - b
    if d.is_const():
        c = d.constval()
        return {"==": c == 0, "!=": c != 0, "<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0}[op]
    if is_pos(d):
        return op in (">", ">=", "!=")
    if is_pos(-d):
        return op in ("<", "<=", "!=")
    if is_nonneg(d) and op in (">=", "<"):
        return op == ">="
    if is_nonneg(-d) and op in ("<=", ">"):
        return op == "<="
    if op in ("==", "!="):
        z = iszero_field(d)
        if z:
            return op == "=="
    return SymBool(op, (d,))


def ge(a, b):
    return compare(lift(a), lift(b), ">=")


def _lead(P):
    """Leading monomial (highest total degree) of a reciprocal's polynomial, or None if not a plain polynomial."""
    best = None
    for m in P.t:
        if any(not isinstance(e, int) or e < 0 for _, e in m):
            return None
        k = (sum(e for _, e in m), m)
        if best is None or k > best:
            best = k
    return best[1] if best and best[0] > 0 else None


def canon(e, limit=4000):
    """Reduce lead(P)*inv(P) -> (1 - (P-lead)*inv(P))/lc, so that equal rational terms get equal normal forms."""
    e = lift(e)
    if not any(_ATOMS[a].kind == "inv" for m in e.t for a, _ in m):
        return e
    leads = {}
    for _ in range(200):
        out, again = {}, False
        for m, c in e.t.items():
            d = dict(m)
            hit = None
            for a, k in m:
                if _ATOMS[a].kind == "inv":
                    if a not in leads:
                        leads[a] = _lead(_ATOMS[a].args[0])
                    L = leads[a]
                    if L is not None and all(isinstance(d.get(b, 0), (int, Fraction)) and d.get(b, 0) >= x for b, x in L):
                        hit = a, L
                        break
            if hit is None:
                _accum(out, m, c)
                continue
            again = True
            a, L = hit
            P = _ATOMS[a].args[0]
            for b, x in L:
                d[b] = _fe(d[b] - x)
                if d[b] == 0:
                    del d[b]
            lc = P.t[L]
            c2 = c / lc if isinstance(c, float) or isinstance(lc, float) else Fraction(c) / lc
            with_inv = E({tuple(sorted(d.items())): _fix(c2)})
            d1 = dict(d)
            d1[a] -= 1
            if d1[a] == 0:
                del d1[a]
            r = E({tuple(sorted(d1.items())): _fix(c2)}) - with_inv * (P - E({L: lc}))
            for mm, cc in r.t.items():
                _accum(out, mm, cc)
        e = E(out)
        if not again or len(out) > limit:
            break
    return e


def iszero_field(d):
    """d == 0 after clearing reciprocals of polynomials."""
    d = lift(d)
    for _ in range(12):
        if not d.t:
            return True
        invs = {}
        for m in d.t:
            for a, e in m:
                at = _ATOMS[a]
                if at.kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
                elif at.kind == "sqrt" and e < 0:
                    invs[a] = max(invs.get(a, 0), -e)
        if not invs:
            return not d.t or all(isinstance(c, float) and abs(c) < 1e-9 for c in d.t.values())
        # clear the deepest (largest id) first
        a = max(invs)
        at = _ATOMS[a]
        k = invs[a]
        r = ZERO
        if at.kind == "inv":
            P = at.args[0]
            pw = {}
            for m, c in d.t.items():
                md = dict(m)
                e = md.pop(a, 0)
                if k - e not in pw:
                    pw[k - e] = P ** (k - e) if k - e else ONE
                r = r + E({tuple(sorted(md.items())): c}) * pw[k - e]
        else:
            mul = E({((a, int(k)),): 1})
            r = d * mul if k == int(k) else d * (E({((a, 1),): 1}) ** math.ceil(k))
            # multiplying by sqrt^k may re-reduce; accept
        d = r
    return not d.t


ZERO = E({})
ONE = E({(): 1})


def estr(e, maxterms=12):
    if not e.t:
        return "0"
    out = []
    for i, (m, c) in enumerate(sorted(e.t.items(), key=lambda t: (len(t[0]), t[0]))):
        if i >= maxterms:
            out.append("... (%d terms)" % len(e.t))
            break
        f = []
        for a, x in m:
            f.append(_atom_str(_ATOMS[a]) + ("" if x == 1 else "^%s" % x))
        s = "*".join(f)
        if c == 1 and s:
            out.append(s)
        elif c == -1 and s:
            out.append("-" + s)
        else:
            out.append(("%s*%s" % (c, s)) if s else str(c))
    return " + ".join(out)


# ------------------------------------------------------------------ derivatives
def tanh(x):
    x = lift(x)
    e = exp(x * 2)
    return (e - 1) / (e + 1)


def diff(e, v, _memo=None):
    """Derivative of the term e with respect to the variable v (an E holding one variable)."""
    e = lift(e)
    (m, c), = lift(v).t.items()
    (aid, k), = m
    if c != 1 or k != 1 or _ATOMS[aid].kind != "var":
        raise Unsupported("derivative with respect to something that is not a variable")
    return _diff(e, aid, {} if _memo is None else _memo)


def _diff(e, aid, memo):
    r = ZERO
    for m, c in e.t.items():
        for i, (a, k) in enumerate(m):
            d = _diff_atom(a, aid, memo)
            if d.iszero():
                continue
            rest = E({m[:i] + m[i + 1:]: c})
            base = E({((a, 1),): 1})
            r = r + rest * d * (base ** (k - 1) if k != 1 else ONE) * k
    return r


def _diff_atom(a, aid, memo):
    if a == aid:
        return ONE
    if a in memo:
        return memo[a]
    at = _ATOMS[a]
    if at.kind in ("var", "prime", "rint", "chi", "pi"):
        if at.kind == "var" or not at.args:
            r = ZERO
        elif at.kind in ("rint", "chi"):
            r = ZERO          # piecewise constant: the derivative where it exists
        else:
            r = ZERO
    elif at.kind == "inv":
        x = at.args[0]
        d = _diff(x, aid, memo)
        r = ZERO if d.iszero() else -(d * E({((a, 2),): 1}))
    elif at.kind == "sqrt":
        d = _diff(at.args[0], aid, memo)
        r = ZERO if d.iszero() else d * E({((a, 1),): 1}).recip() * Fraction(1, 2)
    elif at.kind == "exp":
        r = _diff(at.args[0], aid, memo) * E({((a, 1),): 1})
    elif at.kind == "log":
        d = _diff(at.args[0], aid, memo)
        r = ZERO if d.iszero() else d / at.args[0]
    elif at.kind == "cos":
        r = -(_diff(at.args[0], aid, memo) * sin(at.args[0]))
    elif at.kind == "sin":
        r = _diff(at.args[0], aid, memo) * cos(at.args[0])
    elif all(isinstance(x, E) and _diff(x, aid, memo).iszero() for x in at.args) and at.kind != "sum":
        r = ZERO
    else:
        raise Unsupported("derivative of %s" % at.kind)
    memo[a] = r
    return r
