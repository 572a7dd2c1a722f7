"""numpy / math / builtins as seen by /repo's modules during a symbolic run.

Nothing in /repo is edited: in symbolic mode the module globals `np`, `math`,
`len`, `range`, `float`, `int` of every loaded ipi module are bound to the
objects below and restored afterwards.
"""
import builtins
import contextlib
import math
import sys

import numpy as np

from . import sym, arr
from .arr import SymArray, as_sym, strip, const_array, has_sym, _unwrap
from .sym import E, SymBool, Unsupported, lift


def issym(x):
    x = _unwrap(x) if hasattr(x, "_tainted") else x
    if isinstance(x, (E, SymBool, SymArray)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(issym(y) for y in x)
    return False


def _arr(x):
    x = _unwrap(x)
    if isinstance(x, (SymArray, np.ndarray)):
        return x
    if isinstance(x, (list, tuple)):
        return np.array([_arr(y) if isinstance(y, (list, tuple)) else _unwrap(y) for y in x], dtype=object)
    return x


def emap(f):
    def g(x, *rest, **kw):
        x = _arr(x)
        if isinstance(x, SymArray):
            r = x._map(f)
        elif isinstance(x, np.ndarray):
            r = np.empty(x.shape, object)
            for ii in np.ndindex(x.shape):
                r[ii] = f(lift(x[ii]))
            if r.ndim == 0:
                r = r.item()
        else:
            r = f(lift(x))
        out = kw.get("out")
        if out is not None:
            (out.data if isinstance(out, SymArray) else out)[...] = r.data if isinstance(r, SymArray) else r
            return out
        return r
    return g


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (np.ndarray, SymArray))


class NdArray(metaclass=_NdMeta):
    def __new__(cls, shape, *a, **k):
        return NP.zeros(shape)


class NumArr(np.ndarray):
    """Integer array; real-valued results of operations on it become exact terms."""

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        ins = [x.view(np.ndarray) if isinstance(x, NumArr) else x for x in inputs]
        out = kw.get("out")
        if out is not None:
            kw["out"] = tuple(x.view(np.ndarray) if isinstance(x, NumArr) else x for x in out)
        r = getattr(ufunc, method)(*ins, **kw)
        if isinstance(r, np.ndarray):
            if r.dtype.kind == "f":
                return emap(lift)(r)
            if r.dtype.kind in "iu":
                return r.view(NumArr)
        return r


def _num(a):
    return a.view(NumArr) if isinstance(a, np.ndarray) and a.dtype.kind in "iu" else a


def _dt(dtype):
    return int if dtype is _int else dtype


def _keep_dtype(dtype):
    """integer/bool/str arrays stay ordinary numpy arrays"""
    if dtype is None or dtype is float or dtype is _float or dtype is object:
        return False
    if dtype is _int:
        return True
    try:
        k = np.dtype(dtype).kind
    except TypeError:
        return False
    return k in "iubSU"


class Linalg:
    LinAlgError = np.linalg.LinAlgError

    def inv(self, a):
        a = _obj(a)
        n = a.shape[0]
        if n == 1:
            return np.array([[lift(1) / a[0, 0]]], dtype=object)
        if n == 2:
            d = self.det(a)
            return np.array([[a[1, 1] / d, -a[0, 1] / d], [-a[1, 0] / d, a[0, 0] / d]], dtype=object)
        if n == 3:
            c = np.empty((3, 3), object)
            for i in range(3):
                for j in range(3):
                    i1, i2 = [k for k in range(3) if k != i]
                    j1, j2 = [k for k in range(3) if k != j]
                    m = a[i1, j1] * a[i2, j2] - a[i1, j2] * a[i2, j1]
                    c[j, i] = m if (i + j) % 2 == 0 else -m
            d = a[0, 0] * c[0, 0] + a[0, 1] * c[1, 0] + a[0, 2] * c[2, 0]
            for ii in np.ndindex(3, 3):
                c[ii] = c[ii] / d
            return c
        return self._num("inv", a)

    def det(self, a):
        a = _obj(a)
        n = a.shape[0]
        if n == 1:
            return a[0, 0]
        if n == 2:
            return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
        if n == 3:
            return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1])
                    - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                    + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
        return self._num("det", a)

    def norm(self, a, *r, **kw):
        a = _arr(a)
        axis = kw.pop("axis", None)
        if kw.pop("ord", None) not in (None, 2) or (r and r[0] not in (None, 2)) or len(r) > 1 or kw.pop("keepdims", False) or kw:
            raise Unsupported("norm with options")
        if axis is not None:
            return emap(sym.sqrt)((a * a).sum(axis=axis))
        if isinstance(a, SymArray):
            return sym.sqrt(lift((a * a).sum()))
        return sym.sqrt(lift(sum(lift(x) * x for x in a.flat)))

    def _num(self, name, *a):
        conv = []
        for x in a:
            x = _obj(x)
            if not all(lift(v).is_const() for v in x.flat):
                raise Unsupported("linalg.%s of a symbolic matrix" % name)
            conv.append(np.array([float(lift(v)) for v in x.flat]).reshape(x.shape))
        r = getattr(np.linalg, name)(*conv)
        return r

    def __getattr__(self, name):
        def f(*a, **k):
            if any(issym(x) for x in a):
                return self._num(name, *a)
            return getattr(np.linalg, name)(*a, **k)
        return f


def _obj(a):
    a = _arr(a)
    if isinstance(a, SymArray):
        a = strip(a)
        if isinstance(a, SymArray):
            raise Unsupported("matrix operation over a symbolic axis")
    return a


class NpShim:
    ndarray = NdArray
    newaxis = None
    linalg = Linalg()
    float64 = None

    def __init__(self):
        self.sqrt = emap(sym.sqrt)
        self.exp = emap(sym.exp)
        self.log = emap(sym.log)
        self.cos = emap(sym.cos)
        self.sin = emap(sym.sin)
        self.tan = emap(lambda x: sym.sin(x) / sym.cos(x))
        self.sinh = emap(sym.sinh)
        self.cosh = emap(sym.cosh)
        self.tanh = emap(lambda x: sym.sinh(x) / sym.cosh(x))
        self.arccos = emap(sym.arccos)
        self.abs = self.absolute = self.fabs = emap(lambda x: abs(lift(x)))
        self.rint = self.round = self.around = emap(sym.rint)
        self.square = emap(lambda x: lift(x) * lift(x))
        self.logical_not = emap(lambda x: sym.negate(x))
        self.float64 = _float
        self.isfinite = lambda x: True
        self.isnan = lambda x: False

    @property
    def pi(self):
        return sym.pi()

    # construction
    def zeros(self, shape, dtype=None, **k):
        if _keep_dtype(dtype) and not (np.dtype(_dt(dtype)).kind in "SU" and has_sym(shape)):
            return _num(np.zeros(_conc_shape(shape), _dt(dtype)))
        return const_array(_shape(shape), 0)

    def ones(self, shape, dtype=None, **k):
        if _keep_dtype(dtype):
            return _num(np.ones(_conc_shape(shape), _dt(dtype)))
        return const_array(_shape(shape), 1)

    def empty(self, shape, dtype=None, **k):
        if dtype is object or _keep_dtype(dtype):
            return np.empty(_conc_shape(shape), _dt(dtype))
        return const_array(_shape(shape), 0)

    def full(self, shape, v, dtype=None, **k):
        if isinstance(shape, (list, tuple)) and builtins.any(isinstance(n, builtins.int) and n == 0 for n in shape):
            return np.zeros(_conc_shape(shape))
        if _keep_dtype(dtype):
            return np.full(_conc_shape(shape), v, _dt(dtype))
        return const_array(_shape(shape), v)

    def identity(self, n, dtype=None):
        return self.eye(n)

    def eye(self, n, *a, **k):
        n = int(n)
        r = const_array((n, n), 0)
        for i in range(n):
            r[i, i] = lift(1)
        return r

    def resize(self, a, shape):
        if shape in (0, (0,)):
            return np.resize(np.zeros(0), 0)
        raise Unsupported("numpy.resize on symbolic values")

    def zeros_like(self, a, dtype=None, **k):
        a = _arr(a)
        if isinstance(a, np.ndarray) and (a.dtype.kind in "iubSU"):
            return np.zeros_like(a)
        return const_array(a.shape if hasattr(a, "shape") else (), 0)

    def empty_like(self, a, dtype=None, **k):
        return self.zeros_like(a)

    def ones_like(self, a, dtype=None, **k):
        a = _arr(a)
        return const_array(a.shape, 1)

    def array(self, a, dtype=None, copy=True, **k):
        a = _unwrap(a)
        if isinstance(a, SymArray):
            return a.copy() if copy else a
        if isinstance(a, arr.DofSet):
            return a
        if _keep_dtype(dtype):
            return _num(np.array(_conc_list(a), _dt(dtype)))
        if isinstance(a, np.ndarray):
            if a.dtype.kind == "f":
                r = emap(lift)(a)
                if not isinstance(r, np.ndarray):
                    q = np.empty((), object)
                    q[()] = r
                    r = q
                return r
            return a.copy() if copy else a
        if isinstance(a, (list, tuple)) and any(isinstance(_unwrap(x), SymArray) for x in a):
            xs = [as_sym(x) for x in a]
            d = np.array([x.data for x in xs], dtype=object)
            return SymArray(d, [len(xs)] + list(xs[0].axes))
        if issym(a):
            if isinstance(a, (E, SymBool)):
                r = np.empty((), object)
                r[()] = a
                return r
            r = np.array(_nest(a), dtype=object)
            return r
        r = np.array(a, dtype) if dtype is not None and dtype is not _float else np.array(a)
        if dtype is _float and r.dtype.kind in "iub":
            r = r.astype(float)
        r = _num(r)
        if r.dtype.kind == "f":
            r = emap(lift)(r)
            if not isinstance(r, np.ndarray):
                q = np.empty((), object)
                q[()] = r
                r = q
        return r

    def asarray(self, a, dtype=None, **k):
        a = _unwrap(a)
        if isinstance(a, SymArray):
            return a
        if isinstance(a, np.ndarray) and a.dtype == object:
            return a
        return self.array(a, dtype)

    asanyarray = asarray
    ascontiguousarray = asarray

    def asmatrix(self, a, dtype=None):
        """as a two-dimensional array; only used to build columns that are stored into depend arrays"""
        a = self.asarray(a)
        return a.reshape((1, -1)) if len(a.shape) == 1 else a

    def atleast_1d(self, a):
        a = self.asarray(a)
        if isinstance(a, SymArray):
            return a
        return np.atleast_1d(a)

    def copy(self, a):
        return self.array(a)

    def arange(self, *a, **k):
        if any(isinstance(x, E) and not x.is_const() for x in a):
            if len(a) == 1:
                ax = arr.parse_dim(a[0])
                if isinstance(ax, arr.SymAxis) and ax.B == 1:
                    return arr.AllIndex(ax.dim, ax.C)
            raise Unsupported("arange over a symbolic range")
        a = [int(x) if isinstance(x, E) else x for x in a]
        if k.get("dtype") is _int:
            k["dtype"] = int
        return _num(np.arange(*a, **k))

    def linspace(self, *a, **k):
        return np.linspace(*a, **k)

    # shape
    def reshape(self, a, shape, **k):
        return _arr(a).reshape(shape)

    def transpose(self, a, axes=None):
        a = _arr(a)
        return a.transpose(axes) if axes is not None else a.T

    def ravel(self, a):
        return _arr(a).reshape(-1)

    def shape(self, a):
        return _arr(a).shape

    def concatenate(self, xs, axis=0):
        xs = list(xs)
        if xs and all(isinstance(x, np.ndarray) and x.dtype.kind in "iubUS" for x in xs):
            return np.concatenate(xs, axis)
        return arr.concat(list(xs), axis)

    def hstack(self, xs):
        xs = list(xs)
        return arr.concat(xs, 0 if as_sym(xs[0]).ndim == 1 else 1)

    def vstack(self, xs):
        return arr.concat([as_sym(x).reshape(1, -1) if as_sym(x).ndim == 1 else x for x in xs], 0)

    def moveaxis(self, a, i, j):
        a = as_sym(a)
        p = list(np.moveaxis(np.empty(list(range(1, a.ndim + 1))), i, j).shape)
        return strip(a.transpose([x - 1 for x in p]))

    def swapaxes(self, a, i, j):
        a = as_sym(a)
        p = list(range(a.ndim))
        p[i], p[j] = p[j], p[i]
        return strip(a.transpose(p))

    def expand_dims(self, a, axis):
        a = as_sym(a)
        axis = axis % (a.ndim + 1)
        ix = [slice(None)] * a.ndim
        ix.insert(axis, None)
        return strip(SymArray(a.data[tuple(ix)], a.axes[:axis] + [1] + a.axes[axis:]))

    def broadcast_to(self, a, shape):
        z = const_array(_shape(shape), 0)
        return strip(as_sym(z) + as_sym(a))

    def tile(self, a, reps):
        a = _arr(a)
        if isinstance(a, SymArray) or any(isinstance(r, E) for r in (reps if isinstance(reps, (tuple, list)) else [reps])):
            raise Unsupported("tile")
        return np.tile(a, reps)

    def diag(self, a, *r):
        a = _obj(a)
        if a.ndim == 1:
            n = len(a)
            z = const_array((n, n), 0)
            for i in range(n):
                z[i, i] = lift(a[i])
            return z
        return np.array([a[i, i] for i in range(min(a.shape))], dtype=object)

    def diagonal(self, a):
        return self.diag(a)

    def trace(self, a):
        a = _obj(a)
        r = lift(0)
        for i in range(min(a.shape)):
            r = r + a[i, i]
        return r

    def triu(self, a, k=0):
        a = _obj(a)
        r = const_array(a.shape, 0)
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                if j - i >= k:
                    r[i, j] = lift(a[i, j])
        return r

    # products / reductions
    def dot(self, a, b, out=None):
        r = arr.dot(_arr(a), _arr(b))
        if out is not None:
            (out.data if isinstance(out, SymArray) else out)[...] = r.data if isinstance(r, SymArray) else r
            return out
        return r

    def vdot(self, a, b):
        return arr.dot(as_sym(a).reshape(-1), as_sym(b).reshape(-1))

    inner = dot
    matmul = dot

    def outer(self, a, b):
        return arr.outer(_arr(a), _arr(b))

    def cross(self, a, b):
        a, b = _obj(a), _obj(b)
        return np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object)

    def tensordot(self, a, b, axes=2):
        return arr.tensordot(_arr(a), _arr(b), axes)

    def einsum(self, spec, *ops, **k):
        spec = spec.replace(" ", "")
        lhs, rhs = spec.split("->") if "->" in spec else (spec, None)
        ins = lhs.split(",")
        if rhs is None:
            alll = "".join(ins)
            rhs = "".join(sorted(c for c in set(alll) if alll.count(c) == 1))
        return _einsum(ins, rhs, [as_sym(o) for o in ops])

    def sum(self, a, axis=None, keepdims=False, **k):
        a = _arr(a)
        if isinstance(a, SymArray):
            return arr.reduce_sum(a, axis, keepdims)
        if isinstance(a, np.ndarray):
            return a.sum(axis=axis, keepdims=keepdims)
        return a

    def mean(self, a, axis=None, **k):
        a = _arr(a)
        if isinstance(a, SymArray):
            return a.mean(axis)
        n = a.size if axis is None else a.shape[axis]
        return a.sum(axis=axis) * sym.Fraction(1, n)

    def var(self, a, axis=None, ddof=0, **k):
        a = _arr(a)
        if isinstance(a, SymArray) or axis not in (None, 0):
            raise Unsupported("var over a symbolic axis")
        n = a.shape[0] if axis == 0 else a.size
        if n - ddof <= 0:
            raise Unsupported("variance of too few values")
        d = a - self.mean(a, axis)
        return (d * d).sum(axis=axis) * sym.Fraction(1, n - ddof)

    def std(self, a, axis=None, ddof=0, **k):
        return emap(sym.sqrt)(self.var(a, axis, ddof))

    def size(self, a, axis=None):
        a = _arr(a)
        if not hasattr(a, "shape"):
            return 1
        return a.shape[axis] if axis is not None else a.size

    def stack(self, xs, axis=0):
        xs = [_arr(x) for x in xs]
        if axis != 0:
            raise Unsupported("stack along another axis")
        return self.array(xs)

    def kron(self, a, b):
        a, b = _obj(a), _obj(b)
        if not (hasattr(a, "ndim") and a.ndim) :
            return b * a
        if a.ndim != 1 or b.ndim != 1:
            raise Unsupported("kron of matrices")
        return np.array([lift(x) * y for x in a for y in b], dtype=object)

    def prod(self, a, axis=None):
        if not issym(a):
            return np.prod(_arr(a), axis=axis)
        a = _obj(a)
        r = lift(1)
        if axis is not None:
            raise Unsupported("prod axis")
        for x in a.flat:
            r = r * x
        return r

    def cumsum(self, a):
        return np.cumsum(_obj(a))

    def add(self, a, b, out=None):
        return self._out(_arr(a) + _arr(b), out)

    def subtract(self, a, b, out=None):
        return self._out(_arr(a) - _arr(b), out)

    def multiply(self, a, b, out=None):
        return self._out(_arr(a) * _arr(b), out)

    def divide(self, a, b, out=None):
        return self._out(_arr(a) / _arr(b), out)

    true_divide = divide

    def power(self, a, b):
        return _arr(a) ** b

    def _out(self, r, out):
        if out is not None:
            o = out
            if hasattr(o, "_value"):
                o = o._value
            (o.data if isinstance(o, SymArray) else o)[...] = r.data if isinstance(r, SymArray) else r
            return out
        return r

    def copyto(self, dst, src):
        src = _arr(src)
        (dst.data if isinstance(dst, SymArray) else dst)[...] = src.data if isinstance(src, SymArray) else src

    def where(self, c, *ab):
        if not ab:
            if isinstance(c, SymArray):
                raise Unsupported("where over a symbolic axis")
            return np.where(np.array([bool(x) for x in _arr(c).flat]).reshape(_arr(c).shape))
        a, b = ab
        c = _arr(c)
        if isinstance(c, (SymBool, bool)):
            return sym.ite(c, a, b)
        cs = as_sym(c)
        o = np.empty(cs.data.shape, object)
        A = np.broadcast_to(as_sym(a).data, cs.data.shape)
        B = np.broadcast_to(as_sym(b).data, cs.data.shape)
        for ii in np.ndindex(o.shape):
            o[ii] = sym.ite(cs.data[ii], lift(A[ii]), lift(B[ii]))
        return strip(SymArray(o, cs.axes))

    def maximum(self, a, b):
        return self.where(_arr(a) >= _arr(b), a, b)

    def minimum(self, a, b):
        return self.where(_arr(a) <= _arr(b), a, b)

    def max(self, a, axis=None):
        a = _obj(a)
        if axis is not None:
            raise Unsupported("max with axis")
        r = None
        for x in a.flat:
            r = x if r is None else (x if bool(x > r) else r)
        return r

    amax = max

    def min(self, a, axis=None):
        a = _obj(a)
        if axis is not None:
            raise Unsupported("min with axis")
        r = None
        for x in a.flat:
            r = x if r is None else (x if bool(x < r) else r)
        return r

    amin = min

    def any(self, a, **k):
        a = _arr(a)
        if isinstance(a, SymArray):
            return a.any()
        return builtins.any(bool(x) for x in np.asarray(a).flat)

    def all(self, a, **k):
        a = _arr(a)
        if isinstance(a, SymArray):
            return a.all()
        return builtins.all(bool(x) for x in np.asarray(a).flat)

    def isin(self, a, b, invert=False, **k):
        if isinstance(a, arr.AllIndex) and isinstance(b, arr.DofSet) and a.dim == b.dim and a.C == b.C:
            return ~b if invert else b
        if issym(a) or issym(b) or isinstance(a, arr.AllIndex) or isinstance(b, arr.DofSet):
            raise Unsupported("isin")
        return np.isin(a, b, invert=invert, **k)

    def setdiff1d(self, a, b, **k):
        if isinstance(a, arr.AllIndex) and isinstance(b, arr.DofSet) and a.dim == b.dim and a.C == b.C:
            return ~b
        if issym(a) or issym(b) or isinstance(a, arr.AllIndex) or isinstance(b, arr.DofSet):
            raise Unsupported("setdiff1d")
        return np.setdiff1d(a, b, **k)

    def logical_not(self, a):
        if isinstance(a, arr.DofSet):
            return ~a
        if issym(a):
            raise Unsupported("logical_not")
        return np.logical_not(a)

    def diff(self, a, n=1, axis=-1):
        a = _obj(a)
        if n != 1:
            raise Unsupported("higher differences")
        ix = [slice(None)] * a.ndim
        hi, lo = list(ix), list(ix)
        hi[axis], lo[axis] = slice(1, None), slice(None, -1)
        return a[tuple(hi)] - a[tuple(lo)]

    def roll(self, a, shift, axis=None):
        return np.roll(_obj(a), shift, axis=axis)

    def diag_indices_from(self, a):
        return np.diag_indices(_obj(a).shape[0], _obj(a).ndim)

    def reciprocal(self, a):
        return 1 / _arr(a)

    def isfinite(self, a):
        a = _arr(a)
        return True if not isinstance(a, (np.ndarray, SymArray)) else np.ones(a.shape, bool)

    def isscalar(self, a):
        return isinstance(a, E) or np.isscalar(a)

    def isclose(self, a, b, **k):
        return _arr(a) == _arr(b)

    def allclose(self, a, b, **k):
        return self.all(_arr(a) == _arr(b))

    def array_equal(self, a, b):
        return self.all(_arr(a) == _arr(b))

    def __getattr__(self, name):
        v = getattr(np, name)
        if callable(v) and not isinstance(v, type):
            def f(*a, **k):
                if any(issym(x) for x in a) or any(issym(x) for x in k.values()):
                    raise Unsupported("numpy.%s on symbolic values" % name)
                return v(*a, **k)
            return f
        return v


def _conc_list(a):
    if isinstance(a, E):
        return int(a)
    if isinstance(a, (list, tuple)):
        return [_conc_list(x) for x in a]
    if isinstance(a, np.ndarray) and a.dtype == object:
        return np.array([int(x) for x in a.flat]).reshape(a.shape)
    return a


def _nest(a):
    if isinstance(a, (list, tuple)):
        return [_nest(x) for x in a]
    a = _unwrap(a)
    if isinstance(a, np.ndarray):
        return a.tolist() if a.dtype != object else _nest(list(a))
    return a


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in s)
    return (s,)


def _conc_shape(s):
    s = _shape(s)
    if any(isinstance(x, E) and not x.is_const() for x in s):
        raise Unsupported("integer array with a symbolic dimension")
    return tuple(int(x) for x in s)


def _einsum(ins, rhs, ops):
    import itertools
    lab = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise Unsupported("einsum %s" % ins)
        for c, ax in zip(s, o.axes):
            if c in lab and lab[c] != ax:
                raise Unsupported("einsum axes %s %s" % (lab[c], ax))
            lab[c] = ax
    symlabs = [c for c in lab if isinstance(lab[c], arr.SymAxis)]
    if len({lab[c].dim for c in symlabs}) != len(symlabs):
        raise Unsupported("einsum with two copies of one symbolic index")
    rest = [c for c in lab if c not in rhs]
    st = {c: arr.stored(lab[c]) for c in lab}
    out = np.empty([st[c] for c in rhs], object)
    for ii in np.ndindex(out.shape):
        env = dict(zip(rhs, ii))
        acc = lift(0)
        for jj in itertools.product(*[range(st[c]) for c in rest]):
            env.update(zip(rest, jj))
            t = lift(1)
            for s, o in zip(ins, ops):
                t = t * o.data[tuple(env[c] for c in s)]
                if t.iszero():
                    break
            acc = acc + t
        for c in rest:
            if isinstance(lab[c], arr.SymAxis):
                acc = sym.sum_over(lab[c].dim, acc)
        out[ii] = acc
    r = strip(SymArray(out, [lab[c] for c in rhs]))
    return r


class MathShim:
    def __getattr__(self, name):
        f = {"sqrt": sym.sqrt, "exp": sym.exp, "log": sym.log, "cos": sym.cos, "sin": sym.sin,
             "acos": sym.arccos, "fabs": abs, "sinh": sym.sinh, "cosh": sym.cosh}.get(name)
        if name == "pi":
            return sym.pi()
        if name == "pow":
            return lambda a, b: lift(a) ** b
        g = getattr(math, name)
        if f is None:
            return g

        def h(x, *r):
            return f(lift(_unwrap(x)))
        return h


def _len(x):
    if isinstance(x, SymArray):
        return x.symlen()
    v = getattr(x, "_value", None)
    if isinstance(v, SymArray):
        return v.symlen()
    if isinstance(x, arr.DofSet):
        return x.size
    return builtins.len(x)


class SymRange:
    """range() with a symbolic bound.  Only usable through a loop rule."""

    def __init__(self, *a):
        self.a = a

    def __iter__(self):
        from . import loops
        return loops.iterate_range(self.a)


def _range(*a):
    if builtins.any(isinstance(x, E) and not x.is_const() for x in a):
        return SymRange(*a)
    return builtins.range(*[int(x) if isinstance(x, E) else x for x in a])


class _FloatMeta(type):
    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, E))

    def __call__(cls, x=0.0):
        x = _unwrap(x)
        if isinstance(x, (E, SymArray)):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.item()
        return builtins.float(x)


class _float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)

    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *r):
        if isinstance(x, E):
            if x.is_const():
                return builtins.int(x)
            if arr._is_int(x):
                return x
            raise Unsupported("int() of a symbolic real")
        return builtins.int(x, *r)


class _int(metaclass=_IntMeta):
    pass


NP = NpShim()
MATH = MathShim()
_BUILTINS = {"len": _len, "range": _range, "float": _float, "int": _int}
_NPFUNC = (type(np.dot), type(np.sqrt), type(np.trace))
EXTRA = {}              # module name -> {global name: replacement}, set by harnesses


@contextlib.contextmanager
def symbolic_mode(modules=None):
    saved = []
    missing = object()
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name == "ipi" or name.startswith("ipi.")):
            continue
        d = vars(mod)
        repl = dict(_BUILTINS)
        for k, v in list(d.items()):
            if v is np:
                repl[k] = NP
            elif v is math:
                repl[k] = MATH
            elif v is np.linalg:
                repl[k] = NP.linalg
            elif type(v) in _NPFUNC and getattr(v, "__name__", None) and getattr(np, v.__name__, None) is v:
                repl[k] = getattr(NP, v.__name__)
        repl.update(EXTRA.get(name, {}))
        for k, v in repl.items():
            saved.append((d, k, d.get(k, missing)))
            d[k] = v
    try:
        yield
    finally:
        for d, k, v in reversed(saved):
            if v is missing:
                d.pop(k, None)
            else:
                d[k] = v
