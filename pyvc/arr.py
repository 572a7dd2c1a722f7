"""Arrays whose axes may have symbolic length.

A symbolic axis has length B*C*n for a symbolic n (>=1) and is stored as its B*C
*phases*: position blk*(C*n) + C*i + k is represented by one term with the free
index i.  All element-wise code therefore runs unchanged on the phases, and sums
over the axis become binder terms, so results hold for every n.
"""
import numpy as np

from .sym import (E, SymBool, Unsupported, lift, sum_over, subst_index, dimvar, chi, ONE, ZERO,
                  var, _ATOMS, conv_number, fn)
from . import sym


class SymAxis:
    __slots__ = ("dim", "B", "C", "subset")

    def __init__(self, dim, B=1, C=1, subset=None):
        self.dim, self.B, self.C, self.subset = dim, B, C, subset

    @property
    def phases(self):
        return self.B * self.C

    def length(self):
        if self.subset is not None:
            return var("len:" + self.subset, pos=True, isint=True)
        return dimvar(self.dim) * (self.B * self.C)

    def __eq__(self, o):
        return (isinstance(o, SymAxis) and (self.dim, self.B, self.C, self.subset) ==
                (o.dim, o.B, o.C, o.subset))

    def __hash__(self):
        return hash((self.dim, self.B, self.C, self.subset))

    def __repr__(self):
        return "%s*%d*%d%s" % (self.dim, self.B, self.C, "|" + self.subset if self.subset else "")


SUBSETS = {}            # subset name -> membership terms (0 or 1), one per phase of the axis


def subset_weight(name, k):
    return SUBSETS[name][k]


class DofSet:
    """A symbolic set of positions on an axis of length C*n (e.g. the fixed degrees of freedom).

    Stands for a sorted index array or for a boolean mask; membership is one 0/1 term per phase."""

    def __init__(self, name, dim, C, terms=None):
        self.name, self.dim, self.C = name, dim, C
        self.terms = terms if terms is not None else [chi(name, free=(dim,), args=(k,)) for k in range(C)]
        SUBSETS[name] = self.terms

    @staticmethod
    def of_terms(dim, terms):
        terms = [lift(t) for t in terms]
        name = "S" + repr([t.key for t in terms])
        for k, v in SUBSETS.items():
            if len(v) == len(terms) and all((x - y).iszero() for x, y in zip(v, terms)):
                name = k
        return DofSet(name, dim, len(terms), terms)

    def chi(self, k):
        return self.terms[k]

    def __invert__(self):
        return DofSet.of_terms(self.dim, [ONE - t for t in self.terms])

    def __and__(self, o):
        return DofSet.of_terms(self.dim, [x * y for x, y in zip(self.terms, o.terms)])

    def __or__(self, o):
        return DofSet.of_terms(self.dim, [x + y - x * y for x, y in zip(self.terms, o.terms)])

    def _inrange(self, o):
        L = dimvar(self.dim) * self.C
        if isinstance(o, E) and (o - L).iszero():
            return "end"
        if isinstance(o, (int, np.integer)) and o == 0:
            return "zero"
        raise Unsupported("comparison of a symbolic index set with %s" % (o,))

    def __ge__(self, o):
        return {"end": False, "zero": True}[self._inrange(o)]

    def __lt__(self, o):
        return {"end": True, "zero": False}[self._inrange(o)]

    def __len__(self):
        raise Unsupported("len of a symbolic index set")

    @property
    def shape(self):
        return (var("len:" + self.name, pos=True, isint=True),)

    @property
    def size(self):
        return self.shape[0]

    def copy(self):
        return self

    def flatten(self):
        return self

    def astype(self, *a, **k):
        return self


class AllIndex:
    """arange over a whole symbolic axis"""

    def __init__(self, dim, C):
        self.dim, self.C = dim, C


def _is01(x):
    if isinstance(x, (bool, np.bool_)):
        return True
    x = lift(x)
    return (x * x - x).iszero()


def parse_dim(d):
    """int or E -> int | SymAxis"""
    if isinstance(d, E):
        if d.is_const():
            return int(d.constval())
        if len(d.t) == 1:
            (m, c), = d.t.items()
            if len(m) == 1 and m[0][1] == 1 and isinstance(c, int) and _ATOMS[m[0][0]].kind == "var" \
                    and _ATOMS[m[0][0]].isint and not _ATOMS[m[0][0]].name.startswith("len:"):
                return SymAxis(_ATOMS[m[0][0]].name, 1, c)
        raise Unsupported("array dimension %r" % d)
    return int(d)


def stored(ax):
    return ax.phases if isinstance(ax, SymAxis) else ax


def has_sym(shape):
    if isinstance(shape, E):
        return not shape.is_const()
    if isinstance(shape, (tuple, list)):
        return any(has_sym(s) for s in shape)
    return False


class SymArray:
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, data, axes):
        self.data = data
        self.axes = list(axes)
        assert data.ndim == len(self.axes), (data.shape, axes)

    # ---- structure
    @property
    def shape(self):
        return tuple(a.length() if isinstance(a, SymAxis) else a for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = ONE
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return np.dtype(float)

    @property
    def T(self):
        return SymArray(self.data.T, self.axes[::-1])

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = tuple(ax[0])
        if not ax:
            return self.T
        return SymArray(self.data.transpose(ax), [self.axes[i] for i in ax])

    def copy(self, *a, **k):
        return SymArray(self.data.copy(), self.axes)

    def astype(self, *a, **k):
        return self.copy()

    def symaxes(self):
        return [i for i, a in enumerate(self.axes) if isinstance(a, SymAxis)]

    def __len__(self):
        a = self.axes[0]
        if isinstance(a, SymAxis):
            raise Unsupported("len() of a symbolic axis outside the shim")
        return a

    def symlen(self):
        a = self.axes[0]
        return a.length() if isinstance(a, SymAxis) else a

    def __iter__(self):
        if isinstance(self.axes[0], SymAxis):
            raise Unsupported("iteration over a symbolic axis")
        return (self[i] for i in range(self.axes[0]))

    def __repr__(self):
        return "SymArray(%s)" % (self.axes,)

    def item(self):
        if self.ndim == 0:
            return self.data.item()
        raise Unsupported("item() of array")

    # ---- reshape
    def flatten(self, *a):
        return self.reshape(-1).copy()

    def ravel(self, *a):
        return self.reshape(-1)

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = [s if isinstance(s, E) else int(s) for s in shape]
        sa = self.symaxes()
        if len(sa) != 1:
            if not sa:
                return SymArray(self.data.reshape([int(s) for s in shape]), [int(s) for s in shape])
            raise Unsupported("reshape of several symbolic axes")
        k = sa[0]
        ax = self.axes[k]
        if ax.subset is not None:
            if shape == [-1] and all(x == 1 for i, x in enumerate(self.axes) if i != k):
                return SymArray(self.data.reshape(-1), [ax])
            if shape == [-1]:
                # (nb, subset) flattened: keep as blocks of the subset
                if k == self.ndim - 1:
                    B = int(np.prod([a for a in self.axes[:-1]]))
                    return SymArray(self.data.reshape(-1), [SymAxis(ax.dim, ax.B * B, ax.C, ax.subset)])
            raise Unsupported("reshape of a subset axis")
        pre = [a for a in self.axes[:k]]
        post = [a for a in self.axes[k + 1:]]
        nd = dimvar(ax.dim)
        total = lift(int(np.prod(pre + post)) if pre + post else 1) * ax.phases   # times n
        # resolve -1
        known = ONE
        unk = None
        for i, s in enumerate(shape):
            if isinstance(s, int) and s == -1:
                unk = i
            else:
                known = known * s
        if unk is not None:
            shape[unk] = (total * nd) / known
        tgt = [parse_dim(s) for s in shape]
        tk = [i for i, s in enumerate(tgt) if isinstance(s, SymAxis)]
        if len(tk) != 1:
            raise Unsupported("reshape to %s" % (shape,))
        tk = tk[0]
        tpre = int(np.prod(tgt[:tk])) if tgt[:tk] else 1
        tpost = int(np.prod(tgt[tk + 1:])) if tgt[tk + 1:] else 1
        # canonical order of positions: [pre blocks][B][i][C][post]
        P = int(np.prod(pre)) if pre else 1
        Q = int(np.prod(post)) if post else 1
        full_pre, full_post = P * ax.B, ax.C * Q
        tax = tgt[tk]
        tot = tax.C                        # parse_dim gives B=1, C=total phases
        if tpost > full_post or full_post % tpost:
            raise Unsupported("reshape %s -> %s" % (self.axes, shape))
        C = full_post // tpost
        if tot % C:
            raise Unsupported("reshape %s -> %s" % (self.axes, shape))
        B = tot // C
        if tpre * B != full_pre:
            raise Unsupported("reshape %s -> %s" % (self.axes, shape))
        data = self.data.reshape([P * ax.B * ax.C * Q])
        newshape = [stored(s) for s in tgt[:tk]] + [B * C] + [stored(s) for s in tgt[tk + 1:]]
        data = data.reshape(newshape)
        return SymArray(data, tgt[:tk] + [SymAxis(ax.dim, B, C)] + tgt[tk + 1:])

    # ---- indexing
    def _norm_index(self, index):
        if not isinstance(index, tuple):
            index = (index,)
        out = []
        nspec = sum(1 for i in index if i is not None and i is not Ellipsis)
        for i in index:
            if i is Ellipsis:
                out.extend([slice(None)] * (self.ndim - nspec))
            else:
                out.append(i)
        while sum(1 for i in out if i is not None) < self.ndim:
            out.append(slice(None))
        return out

    def _plan(self, index):
        """-> (numpy index on data, new axes, mask) ; mask=(data axis, per-phase chi) or subst info"""
        idx = self._norm_index(index)
        nidx, naxes, subst, mask = [], [], None, None
        ax_i = 0
        for i in idx:
            if i is None:
                nidx.append(None)
                naxes.append(1)
                continue
            ax = self.axes[ax_i]
            if not isinstance(ax, SymAxis):
                if isinstance(i, E):
                    i = int(i)
                if isinstance(i, slice):
                    i = slice(*[int(v) if isinstance(v, E) else v for v in (i.start, i.stop, i.step)])
                    naxes.append(len(range(*i.indices(ax))))
                elif isinstance(i, (int, np.integer)):
                    pass
                elif isinstance(i, (list, np.ndarray)):
                    i = np.asarray(i)
                    if i.dtype == bool:
                        naxes.append(int(i.sum()))
                    else:
                        naxes.append(len(i))
                else:
                    raise Unsupported("index %r" % (i,))
                nidx.append(i)
            else:
                if isinstance(i, SymArray) and i.ndim == 1 and i.axes[0] == ax and all(
                        _is01(x) for x in i.data.flat) and ax.B == 1:
                    i = DofSet.of_terms(ax.dim, [lift(x) for x in i.data.flat])
                if isinstance(i, DofSet):
                    if ax.subset is not None or ax.C != i.C:
                        raise Unsupported("set index on this axis")
                    mask = (ax_i, [i.chi(p % ax.C) for p in range(ax.phases)])
                    nidx.append(slice(None))
                    naxes.append(SymAxis(ax.dim, ax.B, ax.C, i.name))
                elif isinstance(i, slice):
                    st, sp, step = i.start, i.stop, i.step
                    st = 0 if st is None else st
                    step = 1 if step is None else step
                    L = ax.length()
                    full_stop = sp is None or (isinstance(sp, E) and (sp - L).iszero())
                    if isinstance(st, E) and st.is_const():
                        st = int(st)
                    if st == 0 and full_stop and step == 1 and not isinstance(st, E):
                        nidx.append(slice(None))
                        naxes.append(ax)
                    elif ax.subset is not None:
                        raise Unsupported("slice of a subset axis")
                    elif isinstance(st, int) and full_stop and step == ax.C and 0 <= st < ax.C:
                        nidx.append(slice(st, None, ax.C))
                        naxes.append(SymAxis(ax.dim, ax.B, 1))
                    elif ax.B == 1 and step == 1 and sp is not None:
                        # one particle: [C*a, C*a+C)
                        a = lift(st) * sym.Fraction(1, ax.C)
                        w = lift(sp) - lift(st)
                        if not (w.is_const() and w.constval() == ax.C) or not _is_int(a):
                            raise Unsupported("slice %r of a symbolic axis" % (i,))
                        subst = (ax_i, ax.dim, _lab(a))
                        nidx.append(slice(None))
                        naxes.append(ax.C)
                    else:
                        raise Unsupported("slice %r of a symbolic axis" % (i,))
                elif isinstance(i, (int, np.integer, E)):
                    if ax.B != 1 or ax.subset is not None:
                        raise Unsupported("scalar index on a blocked axis")
                    e = lift(i)
                    c = e.constval()
                    if isinstance(c, int) and c < 0 and e.is_const():
                        raise Unsupported("negative index on a symbolic axis")
                    k = c % ax.C
                    a = (e - k) * sym.Fraction(1, ax.C)
                    if not _is_int(a):
                        raise Unsupported("index %r" % (i,))
                    subst = (ax_i, ax.dim, _lab(a))
                    nidx.append(k)
                else:
                    raise Unsupported("index %r on a symbolic axis" % (type(i),))
            ax_i += 1
        return tuple(nidx), naxes, subst, mask

    def __getitem__(self, index):
        nidx, naxes, subst, mask = self._plan(index)
        d = self.data[nidx]
        if not isinstance(d, np.ndarray):
            if subst:
                return subst_index(d, subst[1], subst[2])
            return d
        if subst:
            out = np.empty(d.shape, object)
            for ii in np.ndindex(d.shape):
                out[ii] = subst_index(lift(d[ii]), subst[1], subst[2])
            d = out
        if any(isinstance(a, SymAxis) for a in naxes):
            return SymArray(d, naxes)
        return d

    def __setitem__(self, index, value):
        value = _unwrap(value)
        if (isinstance(value, SymArray) and (index is Ellipsis or isinstance(index, slice) and index == slice(None)) and self.ndim == 1
                and value.ndim == 1 and self.axes != value.axes
                and isinstance(self.axes[0], SymAxis) and isinstance(value.axes[0], SymAxis)
                and self.axes[0].subset is None and value.axes[0].subset is None
                and self.axes[0].dim == value.axes[0].dim and self.axes[0].phases == value.axes[0].phases
                and all(not isinstance(x, E) and x == 0 or isinstance(x, E) and not x.t
                                                   for x in self.data.flat)):
            # a freshly allocated zero vector of the same length takes over the block layout of what is stored in it
            self.axes = list(value.axes) if isinstance(self.axes, list) else tuple(value.axes)
        nidx, naxes, subst, mask = self._plan(index)
        if isinstance(value, SymArray):
            v = value
            _check_broadcast(v.axes, naxes)
            vd = v.data
        else:
            vd = np.asarray(value, dtype=object) if isinstance(value, (list, tuple, np.ndarray)) else value
            if isinstance(vd, np.ndarray):
                _check_broadcast(list(vd.shape), naxes)
        if subst:
            ch = chi("idx", free=(subst[1],), args=(str(subst[2]),))
            old = self.data[nidx]
            new = ch * vd + (ONE - ch) * old if not isinstance(old, np.ndarray) else None
            if new is None:
                vb = np.broadcast_to(np.asarray(vd, dtype=object), old.shape)
                new = np.empty(old.shape, object)
                for ii in np.ndindex(old.shape):
                    new[ii] = ch * vb[ii] + (ONE - ch) * old[ii]
            self.data[nidx] = new
            return
        if mask is not None:
            axi, chis = mask
            # position of that axis in the *data* (no ints before it are dropped from nidx slices)
            old = self.data[nidx]
            vb = np.broadcast_to(np.asarray(vd, dtype=object), old.shape)
            # axis position in old
            pos = 0
            for t in range(axi):
                if not isinstance(nidx[t], (int, np.integer)):
                    pos += 1
            new = np.empty(old.shape, object)
            for ii in np.ndindex(old.shape):
                ch = chis[ii[pos]]
                new[ii] = ch * vb[ii] + (ONE - ch) * old[ii]
            self.data[nidx] = new
            return
        self.data[nidx] = vd

    # ---- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, (str, bytes)) or o is None:
            return NotImplemented
        if hasattr(o, "_tainted") and hasattr(o, "_value"):
            return NotImplemented
        if isinstance(o, SymArray):
            axes = _broadcast_axes(self.axes, o.axes)
            od = o.data
        elif isinstance(o, np.ndarray):
            axes = _broadcast_axes(self.axes, list(o.shape))
            od = o if o.dtype == object else o.astype(object)
        elif isinstance(o, (list, tuple)):
            od = np.asarray(o, dtype=object)
            axes = _broadcast_axes(self.axes, list(od.shape))
        else:
            od = lift(o)
            if od is NotImplemented:
                return NotImplemented
            axes = self.axes
        r = op(od, self.data) if rev else op(self.data, od)
        return SymArray(r, axes)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: a / b, True)

    def __pow__(self, k):
        return self._map(lambda e: lift(e) ** k)

    def __neg__(self):
        return self._map(lambda e: -lift(e))

    def __abs__(self):
        return self._map(lambda e: abs(lift(e)))

    def _inplace(self, o, op):
        o = _unwrap(o)
        r = self._bin(o, op)
        if r is NotImplemented:
            return r
        if r.data.shape != self.data.shape:
            raise ValueError("non-broadcastable output operand")
        self.data[...] = r.data
        return self

    def __iadd__(self, o):
        return self._inplace(_unwrap(o), lambda a, b: a + b)

    def __isub__(self, o):
        return self._inplace(_unwrap(o), lambda a, b: a - b)

    def __imul__(self, o):
        return self._inplace(_unwrap(o), lambda a, b: a * b)

    def __itruediv__(self, o):
        return self._inplace(_unwrap(o), lambda a, b: a / b)

    def __matmul__(self, o):
        return dot(self, _unwrap(o))

    def __rmatmul__(self, o):
        return dot(_unwrap(o), self)

    def _map(self, f):
        out = np.empty(self.data.shape, object)
        for ii in np.ndindex(self.data.shape):
            out[ii] = f(self.data[ii])
        return SymArray(out, self.axes)

    def _cmp(self, o, f):
        if isinstance(o, SymArray):
            _broadcast_axes(self.axes, o.axes)
            od = np.broadcast_to(o.data, self.data.shape)
        else:
            od = np.broadcast_to(np.asarray(o, dtype=object), self.data.shape)
        out = np.empty(self.data.shape, object)
        for ii in np.ndindex(self.data.shape):
            out[ii] = f(lift(self.data[ii]), lift(od[ii]))
        return SymArray(out, self.axes)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def all(self, *a):
        vals = [v for v in self.data.flat]
        if all(isinstance(v, (bool, np.bool_)) for v in vals):
            return all(vals)
        raise Unsupported("all() over a symbolic axis")

    def any(self, *a):
        vals = [v for v in self.data.flat]
        if all(isinstance(v, (bool, np.bool_)) for v in vals):
            return any(vals)
        raise Unsupported("any() over a symbolic axis")

    # ---- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return reduce_sum(self, axis, keepdims)

    def mean(self, axis=None, **k):
        s = reduce_sum(self, axis)
        if axis is None:
            cnt = ONE
            for l in self.shape:
                cnt = cnt * l
        else:
            cnt = self.shape[axis]
        return s / cnt

    def dot(self, o):
        return dot(self, o)

    def fill(self, v):
        self.data[...] = v

    def tolist(self):
        raise Unsupported("tolist of a symbolic array")


def _unwrap(o):
    if hasattr(o, "_tainted") and hasattr(o, "_value"):
        if o._tainted[0]:
            o._refresh()
        return o._value
    return o


def _is_int(a):
    return all(isinstance(c, int) for c in a.t.values()) and all(
        _ATOMS[x].isint for m in a.t for x, _ in m)


def _lab(a):
    return a.constval() if a.is_const() else a


def _broadcast_axes(A, B):
    A, B = list(A), list(B)
    n = max(len(A), len(B))
    A = [1] * (n - len(A)) + A
    B = [1] * (n - len(B)) + B
    out = []
    for a, b in zip(A, B):
        if isinstance(a, SymAxis) or isinstance(b, SymAxis):
            if a == b:
                out.append(a)
            elif not isinstance(a, SymAxis) and a == 1:
                out.append(b)
            elif not isinstance(b, SymAxis) and b == 1:
                out.append(a)
            else:
                raise Unsupported("operands with axes %s and %s" % (A, B))
        else:
            if a == b or b == 1:
                out.append(a)
            elif a == 1:
                out.append(b)
            else:
                raise ValueError("shape mismatch %s %s" % (A, B))
    return out


def _check_broadcast(src, dst):
    r = _broadcast_axes(src, dst)
    if len(r) > len(dst):
        if any(x != 1 for x in r[:len(r) - len(dst)]):
            raise ValueError("could not broadcast input array")


def reduce_sum(a, axis=None, keepdims=False):
    if isinstance(axis, (tuple, list)):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = reduce_sum(a, ax)
        return a
    if axis is None:
        r = a
        for ax in range(a.ndim - 1, -1, -1):
            r = reduce_sum(r, ax) if isinstance(r, SymArray) else (r.sum() if isinstance(r, np.ndarray) else r)
            if not isinstance(r, (SymArray, np.ndarray)):
                break
        if isinstance(r, np.ndarray):
            r = r.sum()
        return r
    axis = axis % a.ndim
    ax = a.axes[axis]
    d = a.data
    if isinstance(ax, SymAxis):
        if ax.subset is not None:
            d = d.copy()
            w = [subset_weight(ax.subset, p % ax.C) for p in range(ax.phases)]
            sh = [1] * d.ndim
            sh[axis] = ax.phases
            d = d * np.array(w, dtype=object).reshape(sh)
        s = d.sum(axis=axis)
        if isinstance(s, np.ndarray):
            out = np.empty(s.shape, object)
            for ii in np.ndindex(s.shape):
                out[ii] = sum_over(ax.dim, s[ii])
            s = out
        else:
            return sum_over(ax.dim, s)
    else:
        s = d.sum(axis=axis)
    axes = a.axes[:axis] + a.axes[axis + 1:]
    if keepdims:
        s = np.expand_dims(s, axis)
        axes = a.axes[:axis] + [1] + a.axes[axis + 1:]
    if not isinstance(s, np.ndarray):
        return s
    if any(isinstance(x, SymAxis) for x in axes):
        return SymArray(s, axes)
    return s


def as_sym(x):
    x = _unwrap(x)
    if isinstance(x, SymArray):
        return x
    d = np.asarray(x, dtype=object)
    return SymArray(d, list(d.shape))


def strip(a):
    """SymArray without symbolic axes -> plain object ndarray / scalar"""
    if isinstance(a, SymArray) and not a.symaxes():
        return a.data if a.ndim else a.data.item()
    return a


def tensordot(a, b, axes):
    a, b = as_sym(a), as_sym(b)
    if isinstance(axes, int):
        axa = list(range(a.ndim - axes, a.ndim))
        axb = list(range(axes))
    else:
        axa, axb = axes
        axa = [axa] if isinstance(axa, (int, np.integer)) else list(axa)
        axb = [axb] if isinstance(axb, (int, np.integer)) else list(axb)
    axa = [x % a.ndim for x in axa]
    axb = [x % b.ndim for x in axb]
    dims = []
    subset_w = None
    for x, y in zip(axa, axb):
        A, B = a.axes[x], b.axes[y]
        if A != B:
            raise Unsupported("contraction of axes %s and %s" % (A, B))
        if isinstance(A, SymAxis):
            dims.append(A)
    ra = [i for i in range(a.ndim) if i not in axa]
    rb = [i for i in range(b.ndim) if i not in axb]
    sa = {a.axes[i].dim for i in ra if isinstance(a.axes[i], SymAxis)}
    sb = {b.axes[i].dim for i in rb if isinstance(b.axes[i], SymAxis)}
    cd = {d.dim for d in dims}
    if (sa & sb) or (sa & cd) or (sb & cd):
        raise Unsupported("two free copies of the same symbolic index")
    ad = a.data
    for x in axa:
        A = a.axes[x]
        if isinstance(A, SymAxis) and A.subset is not None:
            w = np.array([subset_weight(A.subset, p % A.C) for p in range(A.phases)], dtype=object)
            sh = [1] * ad.ndim
            sh[x] = A.phases
            ad = ad * w.reshape(sh)
    d = np.tensordot(ad, b.data, axes=(axa, axb))
    d = np.asarray(d, dtype=object)
    if dims:
        out = np.empty(d.shape, object)
        for ii in np.ndindex(d.shape):
            v = d[ii]
            for ax in dims:
                v = sum_over(ax.dim, v)
            out[ii] = v
        d = out
    return strip(SymArray(d, [a.axes[i] for i in ra] + [b.axes[i] for i in rb]))


def dot(a, b):
    a, b = _unwrap(a), _unwrap(b)
    if not isinstance(a, (SymArray, np.ndarray, list, tuple)) or not isinstance(b, (SymArray, np.ndarray, list, tuple)):
        return a * b
    a, b = as_sym(a), as_sym(b)
    if a.ndim == 0 or b.ndim == 0:
        return strip(a) * strip(b)
    return tensordot(a, b, ([a.ndim - 1], [max(0, b.ndim - 2)]))


def outer(a, b):
    a, b = as_sym(a), as_sym(b)
    return strip(a.reshape(-1, 1) * b.reshape(1, -1)) if not (a.symaxes() or b.symaxes()) else tensordot(a, b, 0)


def concat(arrs, axis=0):
    arrs = [as_sym(a) for a in arrs]
    if axis is None:
        arrs, axis = [as_sym(a.reshape(-1)) for a in arrs], 0
    n = arrs[0].ndim
    axis %= n
    if any(isinstance(a.axes[axis], SymAxis) for a in arrs):
        raise Unsupported("concatenation along a symbolic axis")
    d = np.concatenate([a.data for a in arrs], axis=axis)
    axes = list(arrs[0].axes)
    axes[axis] = d.shape[axis]
    return strip(SymArray(d, axes))


def new_array(name, shape, pos=False):
    """Array of fresh variables."""
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    axes = [parse_dim(s) for s in shape]
    free = tuple(a.dim for a in axes if isinstance(a, SymAxis))
    d = np.empty([stored(a) for a in axes], object)
    for ii in np.ndindex(d.shape):
        d[ii] = var(name, pos=pos, free=free, args=ii)
    return SymArray(d, axes) if free else d


def const_array(shape, v):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    axes = [parse_dim(s) for s in shape]
    d = np.empty([stored(a) for a in axes], object)
    d[...] = lift(v)
    if d.ndim == 0:
        d = np.array(lift(v), dtype=object)
    return SymArray(d, axes) if any(isinstance(a, SymAxis) for a in axes) else d
