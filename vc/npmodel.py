"""Contracts of the numpy / scipy / pandas functions used by the repository
(trusted, assumed): exact index-wise definitions over mathematical reals."""
import types
from fractions import Fraction

import numpy as _np
import pandas as _pd

from . import sym as Y
from . import terms as T
from .sym import Dim, SArr, SBool, SList, SNum, any_sym, elementwise, kind_of, lift, num, ton, tob, wrap
from .terms import Unsupported

M = {}  # numpy function models
USED = set()  # names of modelled functions exercised (reported as trusted)


def model(*names):
    def deco(f):
        for n in names:
            M[n] = f
        return f

    return deco


def _ew(name, f, kind=None):
    def g(*xs, out=None, where=True, **kw):
        _no_kw(name, kw)
        return _into(elementwise(f, *xs, kind=kind), out, where, name)

    M[name] = g


def _into(r, out, where, name):
    """ufunc arguments out= and where=: masked-out entries keep the value of out"""
    if isinstance(out, tuple):
        (out,) = out
    if where is not True:
        if out is None:
            raise Unsupported(f"np.{name}(where=...) without out")
        r = M["where"](where, r, out)
    if out is not None:
        Y.setitem(out, Ellipsis, r)
        return out
    return r


def _no_kw(name, kw):
    for k, v in kw.items():
        if k == "out" and v is not None or k == "where" and v is not True:
            raise Unsupported(f"np.{name}({k}=...)")
        if k not in ("out", "where", "dtype", "casting"):
            raise Unsupported(f"np.{name}({k}=...)")
    return None


def _arith(op):
    def f(a, b, out=None, where=True, **kw):
        if op == "/" and where is not True and out is not None:
            # masked-out entries are not divided
            def div(w, x, y, o):
                w = tob(w)
                return ton(o) if w == T.FALSE else T.div(ton(x), ton(y)) if w == T.TRUE else T.ite(w, T.div(ton(x), ton(y)), ton(o))

            out = out[0] if isinstance(out, tuple) else out
            Y.setitem(out, Ellipsis, elementwise(div, where, _unlist(a), _unlist(b), out, kind="f"))
            return out
        return _into(Y.arith(op, _unlist(a), _unlist(b)), out, where, op)

    return f


def _unlist(a):
    return lift(a) if type(a) in (list, tuple) or hasattr(type(a), "__vc_array__") else a


for _n, _o in [("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"), ("floor_divide", "//"), ("mod", "%"), ("float_power", "**")]:
    M[_n] = _arith(_o)
for _n, _o in [("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">=")]:
    M[_n] = lambda a, b, _o=_o: Y.compare(_o, _unlist(a), _unlist(b))
M["logical_and"] = lambda a, b: elementwise(lambda x, y: T.band(tob(x), tob(y)), a, b, kind="b")
M["logical_or"] = lambda a, b: elementwise(lambda x, y: T.bor(tob(x), tob(y)), a, b, kind="b")
M["logical_xor"] = lambda a, b: elementwise(lambda x, y: T.bxor(tob(x), tob(y)), a, b, kind="b")
M["logical_not"] = lambda a: elementwise(lambda x: T.bnot(tob(x)), a, kind="b")
M["bitwise_and"] = lambda a, b: Y.logic("and", a, b)
M["bitwise_or"] = lambda a, b: Y.logic("or", a, b)
M["invert"] = M["bitwise_not"] = lambda a: Y.logic("not", a)
_ew("square", lambda x: T.mul(ton(x), ton(x)))
_ew("sqrt", lambda x: T.sqrt(ton(x)))
_ew("exp", lambda x: T.app("exp", ton(x)))
_ew("log", lambda x: T.app("log", ton(x)))
_ew("negative", lambda x: T.neg(ton(x)))
_ew("reciprocal", lambda x: T.inv(ton(x)))
_ew("isnan", lambda x: T.FALSE if not isinstance(x, T.Poly) else T.isnan(x), kind="b")
_ew("isfinite", lambda x: T.TRUE if not isinstance(x, T.Poly) else T.bnot(T.isnan(x)), kind="b")
_ew("isinf", lambda x: T.FALSE, kind="b")
_ew("floor", lambda x: T.app("floor", ton(x), sort="I") if not ton(x).is_int() else ton(x))
_ew("ceil", lambda x: T.app("ceil", ton(x), sort="I") if not ton(x).is_int() else ton(x))


def _absolute(x, **kw):
    return elementwise(lambda v: T.pabs(ton(v)), x, kind=kind_of(x) if kind_of(x) != "b" else "b")


M["abs"] = M["absolute"] = M["fabs"] = _absolute


@model("sign")
def _sign(x):
    def f(v):
        v = ton(v)
        return T.sub(T.ind(T.bnot(T.le0(v))), T.ind(T.bnot(T.le0(T.neg(v)))))

    return elementwise(f, x, kind=kind_of(x))


@model("maximum", "fmax")
def _maximum(a, b):
    if Y._isinf(a) or Y._isinf(b):
        inf, o = (a, b) if Y._isinf(a) else (b, a)
        if inf < 0:
            return o
        raise Unsupported("maximum with +inf")
    return elementwise(lambda x, y: T.pmax(ton(x), ton(y)), a, b, kind=Y._kind2(a, b))


@model("minimum", "fmin")
def _minimum(a, b):
    if Y._isinf(a) or Y._isinf(b):
        inf, o = (a, b) if Y._isinf(a) else (b, a)
        if inf > 0:
            return o
        raise Unsupported("minimum with -inf")
    return elementwise(lambda x, y: T.pmin(ton(x), ton(y)), a, b, kind=Y._kind2(a, b))


def _clip_axiom(x, l, h):
    """defining axiom of clip with constant bounds l <= h"""
    v = T.app("clip", x, l, h)
    return [
        T.band(T.le(l, v), T.le(v, h)),
        T.bor(T.band(T.le(x, l), T.eq(v, l)), T.band(T.le(h, x), T.eq(v, h)), T.band(T.lt(l, x), T.lt(x, h), T.eq(v, x))),
    ]


@model("clip")
def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if isinstance(lo, (int, float)) and isinstance(hi, (int, float)) and type(lo) is not Y.SNum and type(hi) is not Y.SNum and lo <= hi and not Y._isinf(lo) and not Y._isinf(hi):
        l, h = Y.num(lo), Y.num(hi)
        th = Y.st().theory
        if "clip" not in th.schemas:
            th.schema("clip", _clip_axiom)

        def f(x):
            x = ton(x)
            if x.const() is not None or T.has_nan(x):
                return T.pmin(T.pmax(x, l), h)
            if T.le(l, x) is T.TRUE and T.le(x, h) is T.TRUE:
                return x
            return T.app("clip", x, l, h)

        r = elementwise(f, a, kind=Y._kind2(a, lo))
        if out is not None:
            Y.setitem(out, Ellipsis, r)
            return out
        return r
    r = a
    if lo is not None:
        r = _maximum(r, lo)
    if hi is not None:
        r = _minimum(r, hi)
    if out is not None:
        Y.setitem(out, Ellipsis, r)
        return out
    return r


SArr.clip = lambda s, min=None, max=None, **k: _clip(s, min, max, **k)


@model("isclose")
def _isclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    return elementwise(
        lambda x, y: T.le(T.pabs(T.sub(ton(x), ton(y))), T.add(T.C(atol), T.mul(T.C(rtol), T.pabs(ton(y))))), a, b, kind="b"
    )


@model("allclose")
def _allclose(a, b, rtol=1e-05, atol=1e-08, **kw):
    r = _isclose(a, b, rtol, atol)
    return Y.aall(r)


@model("array_equal")
def _array_equal(a, b, **kw):
    a, b = lift(a), lift(b)
    if a.ndim != b.ndim or not all(Y.same_dim(x, y) for x, y in zip(a.dims, b.dims)):
        if a.ndim == b.ndim and any(
            Y.known(T.bnot(T.eq(x.length(), y.length()))) for x, y in zip(a.dims, b.dims)
        ):
            return False
        if a.ndim != b.ndim:
            return False
        raise Unsupported("array_equal with undetermined shapes")
    return Y.aall(Y.compare("==", a, b))


def _nanparts(a):
    """(values with NaN replaced by 0, 0/1 validity)"""

    def val(v):
        v = ton(v)
        if not T.has_nan(v):
            return v
        ok = T.bnot(T.isnan(v))
        return T.ZERO if ok is T.FALSE else T._mul(T.ind(ok), Y._under(T.strip_nan(v), ok))

    def w(v):
        v = ton(v)
        return T.ind(T.bnot(T.isnan(v))) if T.has_nan(v) else T.ONE

    return elementwise(val, a), elementwise(w, a)


@model("nanmean")
def _nanmean(a, axis=None, keepdims=False, **kw):
    _chk(kw, "nanmean")
    v, w = _nanparts(_listed(a))
    # nothing to average: NaN
    q = lambda x, y: T.NAN if T.is_zero(ton(y)) else T.div(ton(x), ton(y))  # noqa: E731
    return elementwise(q, Y.asum(v, axis, bool(keepdims)), Y.asum(w, axis, bool(keepdims)))


@model("nansum")
def _nansum(a, axis=None, keepdims=False, **kw):
    _chk(kw, "nansum")
    v, w = _nanparts(_listed(a))
    return Y.asum(v, axis, bool(keepdims))


@model("nan_to_num")
def _nan_to_num(a, copy=True, nan=0.0, **kw):
    if kw or nan != 0.0:
        raise Unsupported("nan_to_num options")
    return _nanparts(a)[0]


@model("sum")
def _sum(a, axis=None, keepdims=False, **kw):
    _chk(kw, "sum")
    if type(a) is SList:
        return bi_sum(a)
    return Y.asum(_listed(a), axis, bool(keepdims))


def _chk(kw, name):
    for k, v in kw.items():
        if k in ("dtype", "out", "where", "initial") and v is not None:
            raise Unsupported(f"np.{name}({k})")
        if k not in ("dtype", "out", "where", "initial"):
            raise Unsupported(f"np.{name}({k})")


def _listed(a):
    if type(a) is SList:
        return slist_array(a)
    return lift(a)


def slist_array(a):
    """np.array of a symbolic list of scalars/arrays."""
    probe = a.item(T.fresh("p"))
    pl = lift(probe)
    item = a.item

    def fn(k, *idx):
        return lift(item(k)).fn(*idx)

    return SArr((Dim(a.n),) + tuple(pl.dims), Y._memo(fn), pl.kind)


@model("mean")
def _mean(a, axis=None, keepdims=False, **kw):
    _chk(kw, "mean")
    return Y.mean(_listed(a), axis, bool(keepdims))


@model("average")
def _average(a, axis=None, weights=None):
    if weights is None:
        return _mean(a, axis)
    a, w = lift(a), lift(weights)
    if axis is not None and w.ndim == 1 and a.ndim == 2:
        w = Y.reshape(w, (-1, 1)) if axis % 2 == 0 else w
    return Y.asum(a * w, axis) / Y.asum(w + 0 * a if w.ndim != a.ndim else w, axis)


@model("var")
def _var(a, axis=None, ddof=0, keepdims=False, **kw):
    a = _listed(a)
    mu = Y.mean(a, axis, True if axis is not None else False)
    dev = a - mu
    s = Y.asum(dev * dev, axis, bool(keepdims))
    n = T.ONE
    for k in Y._axes(a, axis):
        n = T.mul(n, a.dims[k].length())
    return elementwise(lambda v: T.div(v, T.sub(n, ton(num(ddof)))), s)


@model("std")
def _std(a, axis=None, ddof=0, keepdims=False, **kw):
    return M["sqrt"](_var(a, axis, ddof, keepdims))


SArr.var = lambda s, axis=None, ddof=0: _var(s, axis, ddof)
SArr.std = lambda s, axis=None, ddof=0: _std(s, axis, ddof)


@model("median")
def _median(a, axis=None, keepdims=False, **kw):
    a = _listed(a)
    if axis is None and a.ndim > 1:
        a = Y.flatten(a)
    return Y.reduce_fun("median", a, axis if axis is not None else 0, (), bool(keepdims))


@model("max", "amax")
def _max(a, axis=None, keepdims=False, **kw):
    return Y.reduce_fun("max", _listed(a), axis, (), bool(keepdims))


@model("min", "amin")
def _min(a, axis=None, keepdims=False, **kw):
    return Y.reduce_fun("min", _listed(a), axis, (), bool(keepdims))


@model("quantile")
def _quantile(a, q, axis=None, keepdims=False, **kw):
    if kw:
        raise Unsupported("np.quantile options")
    a = _listed(a)
    ql = lift(q)
    if ql.ndim == 0:
        if axis is None and a.ndim > 1:
            a = Y.flatten(a)
        return Y.reduce_fun("quantile", a, axis if axis is not None else 0, (num(q),), bool(keepdims))
    if ql.ndim == 1 and ql.dims[0].const() is not None:
        return Y.stack([_quantile(a, ql[i], axis) for i in range(ql.dims[0].const())], 0)
    raise Unsupported("quantile with symbolic q array")


@model("percentile")
def _percentile(a, q, axis=None, **kw):
    return _quantile(a, Y.arith("/", q, 100), axis, **kw)


@model("any")
def _any(a, axis=None, keepdims=False, **kw):
    if type(a) is SBool:
        return a
    return Y.aany(_listed(a), axis, bool(keepdims))


@model("all")
def _all(a, axis=None, keepdims=False, **kw):
    if type(a) is SBool:
        return a
    return Y.aall(_listed(a), axis, bool(keepdims))


@model("count_nonzero")
def _count(a, axis=None):
    return Y.asum(Y.astype(lift(a), bool), axis)


@model("where")
def _where(c, *args):
    return Y.where(c, *args)


@model("nonzero", "flatnonzero")
def _nonzero(c):
    return Y.where(Y.astype(lift(c), bool))


M["flatnonzero"] = lambda c: Y.where(Y.astype(lift(c), bool))[0]
M["argwhere"] = lambda c: Y.reshape(Y.where(Y.astype(lift(c), bool))[0], (-1, 1))


@model("reshape")
def _reshape(a, newshape=None, shape=None, **kw):
    return Y.reshape(a, newshape if newshape is not None else shape)


M["transpose"] = lambda a, axes=None: Y.transpose(a) if axes is None else Y.transpose(a, axes)
M["squeeze"] = lambda a, axis=None: Y.squeeze(a, axis)
M["ravel"] = lambda a, **k: Y.flatten(a)
M["copy"] = lambda a, **k: a.snap() if type(a) is SArr else a
M["dot"] = M["matmul"] = M["inner"] = lambda a, b: Y.dot(a, b)
M["vdot"] = lambda a, b: Y.dot(a, b)
M["outer"] = lambda a, b: Y.outer(a, b)
M["repeat"] = lambda a, repeats, axis=None: Y.repeat(a, repeats, axis)
M["tile"] = lambda A, reps: Y.tile(A, reps)
M["ndim"] = lambda a: lift(a).ndim
M["shape"] = lambda a: lift(a).shape
M["size"] = lambda a, axis=None: lift(a).size if axis is None else lift(a).shape[axis]


@model("swapaxes")
def _swap(a, i, j):
    ax = list(range(a.ndim))
    ax[i], ax[j] = ax[j], ax[i]
    return Y.transpose(a, *ax)


@model("moveaxis")
def _moveaxis(a, s, d):
    ax = list(range(a.ndim))
    s = s % a.ndim
    ax.remove(s)
    ax.insert(d % a.ndim, s)
    return Y.transpose(a, *ax)


@model("expand_dims")
def _expand(a, axis):
    a = lift(a)
    key = [slice(None)] * a.ndim
    key.insert(axis % (a.ndim + 1), None)
    return a[tuple(key)]


M["atleast_1d"] = lambda a: lift(a) if lift(a).ndim else Y.reshape(a, (1,))


@model("atleast_2d")
def _atleast_2d(a):
    a = lift(a)
    return a if a.ndim >= 2 else (a[None, :] if a.ndim == 1 else Y.reshape(a, (1, 1)))


@model("concatenate")
def _concatenate(xs, axis=0, **kw):
    if type(xs) is SList:
        raise Unsupported("concatenate of a symbolic list")
    return Y.concatenate(list(xs), axis)


@model("vstack", "row_stack")
def _vstack(xs, **kw):
    xs = [_atleast_2d(x) for x in xs]
    if all(x.dims[0].const() == 1 for x in xs):
        return Y.stack([x[0] for x in xs], 0)
    return Y.concatenate(xs, 0)


@model("hstack")
def _hstack(xs, **kw):
    xs = [M["atleast_1d"](x) for x in xs]
    return Y.concatenate(xs, 0 if xs[0].ndim == 1 else 1)


@model("column_stack")
def _column_stack(xs):
    cols = []
    for x in xs:
        x = lift(x)
        cols.append(Y.reshape(x, (-1, 1)) if x.ndim == 1 else x)
    if all(c.dims[1].const() == 1 for c in cols):
        return Y.stack([c[:, 0] for c in cols], 1)
    return Y.concatenate(cols, 1)


@model("stack")
def _stack(xs, axis=0, **kw):
    if type(xs) is SList:
        a = slist_array(xs)
        return a if axis == 0 else _moveaxis(a, 0, axis)
    return Y.stack(list(xs), axis)


@model("array", "asarray", "asanyarray", "ascontiguousarray")
def _array(x, dtype=None, copy=None, **kw):
    if type(x) is SList:
        r = slist_array(x)
    elif type(x) is Y.SRange:
        r = slist_array(x.as_list())
    elif type(x) is SArr:
        r = x.snap()
    else:
        r = lift(x)
    if dtype is not None:
        r = Y.astype(r, dtype)
    return r


M["asarray"] = lambda x, dtype=None, **k: x if type(x) is SArr and dtype in (None, x.dtype) else _array(x, dtype)


def _shape(shape):
    if type(shape) in (tuple, list):
        return [Y._dimlike(s) for s in shape]
    return [Y._dimlike(shape)]


def _kind_dtype(dtype, default):
    if dtype is None:
        return default
    if dtype in (float, "float", _np.float64) or dtype == _np.dtype(float):
        return "f"
    if dtype in (bool, _np.bool_) or dtype == _np.dtype(bool):
        return "b"
    if dtype in (int, _np.int64) or dtype == _np.dtype(int):
        return "i"
    raise Unsupported(f"dtype {dtype}")


@model("full")
def _full(shape, fill_value, dtype=None, **kw):
    v = lift(fill_value)
    kind = _kind_dtype(dtype, v.kind)
    dims = _shape(shape)
    if v.ndim == 0:
        x = Y._cast(v.fn(), kind)
        return SArr(dims, lambda *i: x, kind)
    r = SArr(dims, lambda *i: T.ZERO, kind)
    Y.setitem(r, Ellipsis, v)
    return r


M["zeros"] = lambda shape, dtype=None, **k: _full(shape, 0.0 if _kind_dtype(dtype, "f") != "b" else False, dtype or float)
M["ones"] = lambda shape, dtype=None, **k: _full(shape, 1.0 if _kind_dtype(dtype, "f") != "b" else True, dtype or float)
_emptyc = [0]


@model("empty")
def _empty(shape, dtype=None, **k):
    _emptyc[0] += 1
    name = f"empty!{_emptyc[0]}"
    kind = _kind_dtype(dtype, "f")
    return SArr(_shape(shape), lambda *i: T.app(name, *i) if kind != "b" else T.pred(name, *i), kind)


def _like(v, kind_default=None):
    def f(a, dtype=None, shape=None, **k):
        a = lift(a)
        kind = _kind_dtype(dtype, a.kind)
        x = Y._cast(T.C(v), kind)
        return SArr(a.dims, lambda *i: x, kind)

    return f


M["zeros_like"] = _like(0)
M["ones_like"] = _like(1)
M["empty_like"] = lambda a, dtype=None, **k: _empty([Y.sz(d) for d in lift(a).dims], dtype or lift(a).dtype)


@model("full_like")
def _full_like(a, fill_value, dtype=None, **k):
    a = lift(a)
    kind = _kind_dtype(dtype, a.kind)
    v = lift(fill_value)
    if v.ndim:
        raise Unsupported("full_like with array fill")
    x = v.fn()
    if kind == "i" and isinstance(x, T.Poly) and T.has_nan(x):
        raise Unsupported("NaN cast to an integer array")
    x = Y._cast(x, kind)
    return SArr(a.dims, lambda *i: x, kind)


@model("arange")
def _arange(*args, dtype=None, **kw):
    if len(args) == 1:
        lo, hi = T.ZERO, num(args[0])
    elif len(args) == 2:
        lo, hi = num(args[0]), num(args[1])
    else:
        raise Unsupported("arange step")
    return SArr((Dim(T.sub(hi, lo)),), lambda i: T.add(lo, i), "i")


M["eye"] = M["identity"] = lambda n, **k: SArr((Dim(num(n)), Dim(num(n))), lambda i, j: T.ind(T.eq(i, j)), "f")


@model("diag", "diagonal")
def _diag(a, *r):
    a = lift(a)
    fn = a.fn
    if a.ndim == 1:
        return SArr((a.dims[0], a.dims[0]), lambda i, j: T._mul(T.ind(T.eq(i, j)), ton(fn(i))), a.kind)
    return SArr((a.dims[0],), lambda i: fn(i, i), a.kind)


M["intersect1d"] = lambda a, b, **k: Y.intersect1d(a, b)
M["setdiff1d"] = lambda a, b, **k: Y.setdiff1d(a, b)
M["isin"] = M["in1d"] = lambda a, b, **k: Y.isin(a, b) if not k.get("invert") else Y.logic("not", Y.isin(a, b))


@model("unique")
def _unique(a, **kw):
    """only for label variables whose set of values the contract fixes"""
    if kw:
        raise Unsupported("np.unique options")
    a = lift(a)
    labs = getattr(Y.st(), "labels", {})
    probe = a.fn(*[T.fresh("q") for _ in a.dims])
    if isinstance(probe, T.Poly) and all(d.mask is None for d in a.dims):
        at = T.the_atom_or_none(probe)
        if at is not None and at.kind == "app" and at.data[0] in labs:
            if isinstance(labs[at.data[0]], T.Poly):
                return Y.SArr((Y.Dim(labs[at.data[0]]),), lambda i: i, "i")
            return Y.lift_ndarray(_np.unique(_np.array(labs[at.data[0]], dtype=float)))
    raise Unsupported("np.unique of an unlabelled symbolic array")


@model("delete")
def _delete(a, obj, axis=None):
    a = lift(a)
    if axis is None:
        a, axis = Y.flatten(a), 0
    c = a.dims[axis].const()
    if c is None or any_sym(obj):
        raise Unsupported("np.delete with symbolic extent or indices")
    keep = _np.delete(_np.arange(c), obj)
    return Y.getitem(a, (slice(None),) * (axis % a.ndim) + (keep,))


@model("cumsum")
def _cumsum(a, axis=None):
    a = lift(a)
    if a.ndim != 1:
        raise Unsupported("cumsum n-d")
    fn = a.fn
    return SArr(a.dims, lambda i: T.mk_sum(a.dims[0].n, lambda j: T._mul(T.ind(T.le(j, i)), ton(fn(j)))), a.kind)


@model("einsum")
def _einsum(spec, *ops):
    raise Unsupported("einsum")


M["iscomplexobj"] = lambda a: False
M["isscalar"] = lambda a: type(a) in (SNum, SBool)
M["issubdtype"] = None
del M["issubdtype"]


_CREATE = {"full", "zeros", "ones", "empty", "full_like", "zeros_like", "ones_like", "empty_like"}
_VIEWS = _CREATE | {"asarray", "ascontiguousarray", "squeeze", "reshape", "ravel", "swapaxes", "transpose", "moveaxis", "expand_dims", "array", "copy"}


class NPProxy(types.ModuleType):
    """Stands for the numpy module inside the instrumented package."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, name):
        real = getattr(_np, name)
        if name == "random":
            return RANDOM
        if name == "linalg":
            return _guard_ns(real, "np.linalg")
        if isinstance(real, type) or not callable(real):
            if name in ("float64", "int64", "float32", "int32", "bool_"):
                return real
            return real
        m = M.get(name)

        def f(*args, **kw):
            if any_sym(args) or any_sym(kw):
                if name not in _VIEWS:
                    args2, kw2 = Y.concretize(args), Y.concretize(kw)
                    if (args2 is not args or kw2 is not kw) and not any_sym(args2) and not any_sym(kw2):
                        return f(*args2, **kw2)
                if m is None:
                    raise Unsupported(f"np.{name} on symbolic values")
                USED.add(f"np.{name}")
                return m(*args, **kw)
            if name in _CREATE and Y._state is not None:
                r = real(*args, **kw)
                if r.dtype.kind == "f" and r.size <= 4096 and not _np.isinf(r).any():
                    # a verification run may store symbolic values here
                    if name.startswith("empty"):
                        return _empty(r.shape)
                    r = Y.lift_ndarray(r)
                    r.tag = "created"
                    return r
                return r
            if name in ("array", "asarray", "stack", "concatenate", "vstack", "hstack") and _deep_sym(args):
                return m(*args, **kw)
            return real(*args, **kw)

        f.__name__ = name
        return f


def _deep_sym(args):
    return any_sym(args, 8)


class _GuardNS:
    def __init__(self, ns, name):
        self._ns = ns
        self._name = name

    def __getattr__(self, a):
        v = getattr(self._ns, a)
        if callable(v) and not isinstance(v, type):
            return guard(v, f"{self._name}.{a}")
        return v


def _guard_ns(ns, name):
    return _GuardNS(ns, name)


def guard(f, name, mdl=None):
    """Wrap a foreign callable: symbolic arguments only through a model."""

    def g(*args, **kw):
        if any_sym(args, 6) or any_sym(kw, 6):
            a2, k2 = Y.concretize(args, 6), Y.concretize(kw, 6)
            if (a2 is not args or k2 is not kw) and not any_sym(a2, 6) and not any_sym(k2, 6):
                return f(*a2, **k2)
            if mdl is None:
                raise Unsupported(f"{name} called with symbolic arguments")
            USED.add(name)
            return mdl(*args, **kw)
        return f(*args, **kw)

    g.__name__ = getattr(f, "__name__", name)
    g.__wrapped__ = f
    return g


_rnd = [0]


class _Random:
    """np.random: draws are fresh uninterpreted values (nothing assumed)."""

    def __getattr__(self, a):
        real = getattr(_np.random, a)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*args, **kw):
            if any_sym(args) or any_sym(kw):
                if a in ("normal", "exponential", "uniform", "standard_normal", "random"):
                    size = kw.get("size")
                    if size is None and a in ("normal", "uniform") and len(args) > 2:
                        size = args[2]
                    if size is None and a == "exponential" and len(args) > 1:
                        size = args[1]
                    _rnd[0] += 1
                    nm = f"rnd_{a}!{_rnd[0]}"
                    Y.st().log.append(("random", a, args, kw, nm))
                    USED.add(f"np.random.{a}")
                    arr = SArr(_shape(size), lambda *i: T.app(nm, *i), "f")
                    loc, scale = kw.get("loc", 0.0), kw.get("scale", 1.0)
                    if a == "normal":
                        if args:
                            loc = args[0]
                        if len(args) > 1:
                            scale = args[1]
                        return loc + scale * arr if (loc, scale) != (0.0, 1.0) else arr
                    return scale * arr if a == "exponential" and scale != 1.0 else arr
                raise Unsupported(f"np.random.{a} symbolic")
            return real(*args, **kw)

        return f


RANDOM = _Random()
NP = NPProxy()


# ------------------------------------------------------------------ scipy.stats.norm


class NormProxy:
    """Standard normal: ppf/cdf/pdf uninterpreted with symmetry and
    monotonicity facts supplied on demand (see harness.norm_facts)."""

    def __init__(self, real):
        self._r = real

    def __getattr__(self, a):
        real = getattr(self._r, a)
        if a in ("ppf", "cdf", "sf", "pdf", "isf"):

            def f(x=None, *args, **kw):
                if x is None:
                    x = kw.pop("q", kw.pop("x", None))
                loc = args[0] if args else kw.get("loc", 0)
                scale = args[1] if len(args) > 1 else kw.get("scale", 1)
                if any_sym(x) or any_sym((loc, scale)):
                    USED.add(f"scipy.stats.norm.{a}")
                    if a in ("ppf",):
                        return elementwise(lambda v: norm_ppf(ton(v)), x) * scale + loc
                    if a == "isf":
                        return elementwise(lambda v: T.neg(norm_ppf(ton(v))), x) * scale + loc
                    z = (x - loc) / scale if not (not any_sym(loc) and loc == 0) or any_sym(scale) or scale != 1 else x
                    if a == "cdf":
                        return elementwise(lambda v: norm_cdf(ton(v)), z)
                    if a == "sf":
                        return elementwise(lambda v: norm_cdf(T.neg(ton(v))), z)
                    return elementwise(lambda v: T.app("npdf", ton(v)), z) / scale
                return real(x, *args, **kw)

            return f
        if callable(real):
            return guard(real, f"norm.{a}")
        return real


def _orient(p):
    """canonical sign: leading non-constant coefficient positive."""
    ms = {m: c for m, c in p.d.items() if m != ()}
    if not ms:
        return p.const() >= 0
    m = T._lead(T.Poly(ms))
    return ms[m] > 0


def norm_ppf(v):
    """ppf(1-v) = -ppf(v): canonical orientation around 1/2."""
    w = T.sub(v, T.C(Fraction(1, 2)))
    c = w.const()
    if c == 0:
        return T.ZERO
    if _orient(w):
        return T.app("nppf", v)
    return T.neg(T.app("nppf", T.sub(T.ONE, v)))


def norm_cdf(v):
    if v.const() == 0:
        return T.C(Fraction(1, 2))
    if _orient(v):
        return T.app("ncdf", v)
    return T.sub(T.ONE, T.app("ncdf", T.neg(v)))


# ------------------------------------------------------------------ pandas


class SIndex(list):
    @property
    def is_unique(self):
        return len(set(self)) == len(self)

    @property
    def values(self):
        return list(self)

    def tolist(self):
        return list(self)


class SFrame:
    """pd.DataFrame over a symbolic 2-d array (columns/index concrete)."""

    def __init__(self, data, columns=None, index=None, **kw):
        if isinstance(data, dict):
            cols = list(data)
            arr = M["column_stack"]([lift(v) for v in data.values()])
            columns = columns or cols
        else:
            arr = lift(data)
            if arr.ndim == 1:
                arr = Y.reshape(arr, (-1, 1))
        if columns is not None and arr.dims[1].const() is not None and len(list(columns)) != arr.dims[1].const():
            raise ValueError("Shape of passed values does not match columns")
        self.arr = arr
        self.columns = SIndex(list(columns)) if columns is not None else SIndex(range(arr.dims[1].const() or 0))
        self.index = index

    def keys(self):
        return self.columns

    def __iter__(self):
        return iter(self.columns)

    @property
    def dtypes(self):
        import numpy as _n

        r = _n.empty(len(self.columns), dtype=object)
        r[:] = [_n.dtype({"b": bool, "i": int}.get(self.arr.kind, float))] * len(self.columns)
        return r

    def sum(self, axis=0):
        return M["sum"](self.arr, axis=axis)

    def assign(self, **kw):
        cols = list(self.columns)
        arrs = [self.arr[:, j] for j in range(len(cols))]
        for k, v in kw.items():
            v = lift(v.arr if type(v) is SSeries else v)
            if k in cols:
                arrs[cols.index(k)] = v
            else:
                cols.append(k)
                arrs.append(v)
        return SFrame(M["column_stack"](arrs), cols, self.index)

    def __vc_array__(self):
        return self.arr

    @property
    def values(self):
        return self.arr

    def to_numpy(self):
        return self.arr

    @property
    def shape(self):
        return self.arr.shape

    def set_index(self, idx, inplace=False):
        if inplace:
            self.index = idx
            return None
        r = SFrame(self.arr, self.columns, idx)
        return r

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def T(self):
        return SFrame(Y.transpose(self.arr), self.index, self.columns)

    def __getitem__(self, c):
        if isinstance(c, list):
            return SFrame(Y.stack([self[x].arr for x in c], 1), c, self.index)
        if c not in self.columns:
            raise KeyError(c)
        j = self.columns.index(c)
        return SSeries(self.arr[:, j], c)

    def __setitem__(self, c, v):
        f = self.assign(**{c: v})
        self.arr, self.columns = f.arr, f.columns

    def join(self, other):
        ix = [None if x.index is None else list(x.index) for x in (self, other)]
        n = self.arr.dims[0].const()
        ix = [list(range(n)) if x is None and n is not None else x for x in ix]
        if ix[0] != ix[1] or (ix[0] is not None and len(set(ix[0])) != len(ix[0])):
            raise Unsupported("join of frames with different row labels")
        USED.add("pd.DataFrame.join (equal row labels)")
        a = Y.concatenate([self.arr, other.arr], 1)
        return SFrame(a, list(self.columns) + list(other.columns), self.index)

    @property
    def loc(self):
        return _Loc(self)

    def copy(self):
        return SFrame(self.arr.snap(), list(self.columns), self.index)

    def _op(self, f, o):
        if type(o) is SSeries:
            raise Unsupported("frame and series arithmetic")
        return SFrame(f(self.arr, getattr(o, "arr", o)), list(self.columns), self.index)

    def __mul__(self, o):
        return self._op(lambda a, b: a * b, o)

    __rmul__ = __mul__

    def __add__(self, o):
        return self._op(lambda a, b: a + b, o)

    def __sub__(self, o):
        return self._op(lambda a, b: a - b, o)

    def mul(self, o, axis="columns"):
        if axis in (0, "index"):
            o = Y.reshape(lift(o), (-1, 1))
        return self._op(lambda a, b: a * b, o)

    multiply = mul


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, key):
        f = self.f
        if isinstance(key, tuple):
            r, k = key
            if isinstance(k, slice):
                cols = list(f.columns)[k]
            elif isinstance(k, list):
                cols = [f.columns[j] for j in k]
            else:
                a = f.arr[:, k]
                return a[r] if isinstance(r, int) or type(r) is SNum else SSeries(a[r], f.columns[k])
            return SFrame(f[cols].arr[r, :], cols)
        if isinstance(key, int) or type(key) is SNum:
            return SSeries(f.arr[key, :])
        return SFrame(f.arr[key, :], list(f.columns))


class _Loc:
    def __init__(self, f):
        self.f = f

    def _row(self, r):
        if isinstance(r, str) and self.f.index is not None:
            return list(self.f.index).index(r)
        raise Unsupported("SFrame.loc")

    def __getitem__(self, key):
        if isinstance(key, tuple):
            if isinstance(key[0], slice) and key[0] == slice(None):
                return self.f[key[1] if isinstance(key[1], str) else list(key[1])]
            return self.f[key[1]].arr[self._row(key[0])]
        return SSeries(self.f.arr[self._row(key), :], key)


class SSeries:
    def __init__(self, arr, name=None):
        self.arr = arr
        self.name = name

    def _op(self, f):
        return SSeries(f(self.arr), self.name)

    def __add__(self, o):
        return self._op(lambda a: a + getattr(o, "arr", o))

    def __radd__(self, o):
        return self._op(lambda a: o + a)

    def __sub__(self, o):
        return self._op(lambda a: a - getattr(o, "arr", o))

    def __rsub__(self, o):
        return self._op(lambda a: o - a)

    def __mul__(self, o):
        return self._op(lambda a: a * getattr(o, "arr", o))

    def __rmul__(self, o):
        return self._op(lambda a: o * a)

    @property
    def shape(self):
        return self.arr.shape

    def __vc_array__(self):
        return self.arr

    @property
    def values(self):
        return self.arr

    def to_numpy(self):
        return self.arr

    def max(self):
        return M["max"](self.arr)

    def min(self):
        return M["min"](self.arr)

    def mean(self):
        return M["mean"](self.arr)

    def __getitem__(self, k):
        if isinstance(k, str):
            raise Unsupported("series label")
        return self.arr[k]

    def _cmp(f):
        return lambda self, o: SSeries(f(self.arr, getattr(o, "arr", o)), self.name)

    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _cmp(lambda a, b: a != b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    __hash__ = None
    del _cmp


class PDProxy(types.ModuleType):
    def __init__(self):
        super().__init__("pandas")

    def __getattr__(self, name):
        real = getattr(_pd, name)
        if name == "DataFrame":
            return PDDataFrame
        if name == "concat":
            return _pd_concat
        if isinstance(real, type):
            return real
        if callable(real):
            return guard(real, f"pd.{name}")
        return real


def _pd_concat(objs, axis=0, **kw):
    objs = list(objs)
    if not any(type(o) in (SFrame, SSeries) for o in objs):
        return _pd.concat(objs, axis=axis, **kw)
    if kw or axis not in (1, "columns") or not all(type(o) is SFrame for o in objs):
        raise Unsupported("pd.concat options")
    USED.add("pd.concat (columns, same row order)")
    cols = [c for o in objs for c in o.columns]
    return SFrame(M["column_stack"]([o.arr[:, j] for o in objs for j in range(len(o.columns))]), cols, objs[0].index)


class _PDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _pd.DataFrame) or type(x) is SFrame


class PDDataFrame(metaclass=_PDMeta):
    def __new__(cls, data=None, *args, **kw):
        if any_sym(data) or (isinstance(data, dict) and any_sym(list(data.values()))):
            USED.add("pd.DataFrame")
            cols = kw.pop("columns", None)
            idx = kw.pop("index", args[0] if args else None)
            return SFrame(data, cols, idx)
        return _pd.DataFrame(data, *args, **kw)

    @staticmethod
    def from_records(*a, **k):
        return _pd.DataFrame.from_records(*a, **k)


PD = PDProxy()


# ------------------------------------------------------------------ builtins


def bi_len(x):
    t = type(x)
    if t is SArr:
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return Y.sz(x.dims[0])
    if t is SList:
        c = x.n.const()
        return int(c) if c is not None else SNum(x.n, True)
    if t is Y.SRange:
        return SNum(T.sub(x.hi, x.lo), True)
    if t is SFrame:
        return Y.sz(x.arr.dims[0])
    return len(x)


def bi_range(*args):
    if any_sym(args):
        if len(args) == 1:
            r = Y.SRange(T.ZERO, num(args[0]))
        elif len(args) == 2:
            r = Y.SRange(num(args[0]), num(args[1]))
        else:
            raise Unsupported("symbolic range step")
        c = T.sub(r.hi, r.lo).const()
        lo = r.lo.const()
        if c is not None and lo is not None:
            return range(int(lo), int(lo + c))
        return r
    return range(*args)


def bi_enumerate(it, start=0):
    s = Y.as_slist(it)
    if s is not None:
        st = num(start)
        return SList(s.n, lambda k: (wrap(T.add(st, k), np_=False), s.item(k)))
    return enumerate(it, start)


def bi_zip(*its, **kw):
    ss = [Y.as_slist(x) for x in its]
    if any(s is not None for s in ss):
        n = None
        for s in ss:
            if s is not None:
                n = s.n if n is None else n
                if not (T.is_zero(T.sub(n, s.n)) or Y.known(T.eq(n, s.n))):
                    raise Unsupported("zip of symbolic lists of different lengths")
        if any(s is None for s in ss):
            raise Unsupported("zip of symbolic and concrete")
        return SList(n, lambda k: tuple(s.item(k) for s in ss))
    return zip(*its, **kw)


def bi_sum(it, start=0):
    s = Y.as_slist(it) if not isinstance(it, SGen) else it.slist
    if s is not None:
        probe = lift(s.item(T.fresh("p")))
        if probe.ndim == 0:
            return wrap(T.mk_sum(s.n, lambda k: num(s.item(k)))) + start
        return Y.asum(slist_array(s), 0) + start
    if isinstance(it, SGen):
        it = iter(it)
    return sum(it, start)


class SGen:
    """Symbolic generator expression."""

    def __init__(self, slist):
        self.slist = slist

    def __iter__(self):
        return iter(self.slist)


def _bool_fn(s):
    def f(k):
        v = s.item(k)
        if type(v) in (bool, _np.bool_):
            return T.TRUE if v else T.FALSE
        return Y._b_of(v)

    return f


def bi_any(it):
    if isinstance(it, SGen):
        return wrap(T.mk_any(it.slist.n, _bool_fn(it.slist)))
    s = Y.as_slist(it)
    if s is not None:
        return wrap(T.mk_any(s.n, _bool_fn(s)))
    if type(it) is SArr:
        return Y.aany(it) if it.ndim == 1 else any(it)
    return any(it)


def bi_all(it):
    if isinstance(it, SGen):
        return wrap(T.mk_all(it.slist.n, _bool_fn(it.slist)))
    s = Y.as_slist(it)
    if s is not None:
        return wrap(T.mk_all(s.n, _bool_fn(s)))
    if type(it) is SArr:
        return Y.aall(it) if it.ndim == 1 else all(it)
    return all(it)


def bi_max(*args, **kw):
    if not kw and len(args) > 1 and any_sym(args):
        r = args[0]
        for x in args[1:]:
            r = _maximum(r, x)
        return r
    if not kw and len(args) == 1:
        if type(args[0]) is SArr:
            return Y.reduce_fun("max", args[0], None)
        if type(args[0]) in (list, tuple) and any_sym(args[0]):
            return bi_max(*args[0]) if len(args[0]) > 1 else args[0][0]
    return max(*args, **kw)


def bi_min(*args, **kw):
    if not kw and len(args) > 1 and any_sym(args):
        r = args[0]
        for x in args[1:]:
            r = _minimum(r, x)
        return r
    if not kw and len(args) == 1:
        if type(args[0]) is SArr:
            return Y.reduce_fun("min", args[0], None)
        if type(args[0]) in (list, tuple) and any_sym(args[0]):
            return bi_min(*args[0]) if len(args[0]) > 1 else args[0][0]
    return min(*args, **kw)


def bi_list(it=()):
    if isinstance(it, SGen):
        return it.slist
    s = Y.as_slist(it)
    if s is not None:
        return SList(s.n, s.item)
    return list(it)


def bi_tuple(it=()):
    if isinstance(it, SGen):
        return it.slist
    s = Y.as_slist(it)
    if s is not None:
        return SList(s.n, s.item, "tuple")
    return tuple(it)


def bi_set(it=()):
    if isinstance(it, SGen) or Y.as_slist(it) is not None:
        raise Unsupported("set() of a symbolic sequence")
    return set(it)


def bi_float(x=0.0):
    if Y.is_sym(x):
        if type(x) is SArr:
            x = x.item()
        return SNum(num(x), False)
    return float(x)


def bi_int(x=0, *a):
    if Y.is_sym(x):
        p = num(x)
        if p.is_int():
            return SNum(p, True)
        raise Unsupported("int() of symbolic real")
    return int(x, *a) if a else int(x)


def bi_bool(x=False):
    if type(x) is SBool:
        return x
    if Y.is_sym(x):
        return SBool(Y._b_of(x)) if type(x) is not SList else bool(x)
    return bool(x)


def bi_round(x, *a):
    if Y.is_sym(x):
        raise Unsupported("round")
    return round(x, *a)


class _TypeMeta(type):
    pass


BUILTINS = {
    "len": bi_len,
    "range": bi_range,
    "enumerate": bi_enumerate,
    "zip": bi_zip,
    "sum": bi_sum,
    "any": bi_any,
    "all": bi_all,
    "max": bi_max,
    "min": bi_min,
}


class _ShimType:
    """Callable stand-in for a builtin type that keeps isinstance/== working."""


# calls to these names are rewritten by the loader (the names keep denoting the types)
CALLS = {"list": bi_list, "tuple": bi_tuple, "set": bi_set, "float": bi_float, "int": bi_int, "bool": bi_bool, "round": bi_round}


@model("argsort")
def _argsort(a, axis=-1, kind=None, **kw):
    """short vectors: the order is decided by case distinction (ties: first index first)"""
    a = lift(a)
    c = a.dims[0].const() if a.ndim == 1 and a.dims[0].mask is None else None
    if kw or c is None or c > 4:
        raise Unsupported("argsort of a long symbolic array")
    order = []
    for j in range(c):
        v = a[j]
        k = len(order)
        while k > 0 and bool(v < a[order[k - 1]]):
            k -= 1
        order.insert(k, j)
    return _np.array(order, dtype=int)
