"""Symbolic values and path exploration.

The functions of /repo are *executed* by CPython on these values (see
loader.py): control flow on symbolic conditions forks the path, arithmetic
builds terms, array operations build index-wise terms.  One run of a harness
explores every path."""
import contextlib
import itertools
import operator
from fractions import Fraction

import numpy as _np

from . import solver as S
from . import terms as T
from .terms import B, Poly, Unsupported


class PathEnd(BaseException):
    """The current path is infeasible / finished."""


class State:
    """State of one path."""

    def __init__(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pending = []
        self.theory = S.Theory()
        self.loopvars = []  # active parallel loops
        self.poison = {}  # escaped loop variables (atoms)
        self.signs = {}
        self.ranges = {}  # see terms.RANGES
        self.log = []
        self.forks = 0
        self.forklevel = {}
        self.proving = True


_state = None


def st():
    if _state is None:
        raise Unsupported("symbolic value used outside of a verification run")
    return _state


def set_state(s):
    global _state
    _state = s
    T.RANGES = {} if s is None else s.ranges


def choose(n, label=None):
    """n-ary decision; explores all alternatives."""
    s = st()
    i = len(s.decisions)
    if i < len(s.prefix):
        d = s.prefix[i]
    else:
        d = 0
        for alt in range(n - 1, 0, -1):
            s.pending.append(s.decisions + [alt])
    s.decisions.append(d)
    return d


def assume(b):
    s = st()
    if b is T.FALSE:
        raise PathEnd()
    s.theory.add(b)


def decide(b):
    """Truth value of formula b on this path (forks when both are possible)."""
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    s = st()
    facts = s.theory.facts
    nb = T.bnot(b)
    for f in facts:
        if f is b:
            return True
        if f is nb:
            return False
    for lv in reversed(s.loopvars):
        if lv.mentions(b):
            return lv.decide(b)
    i = len(s.decisions)
    if i < len(s.prefix):
        d = s.prefix[i]
        s.decisions.append(d)
        f = b if d in (0, 2) else nb
        assume(f)
        if d < 2:
            s.forklevel[f] = 0
        return d in (0, 2)
    can_t = S.feasible(s.theory, b)
    can_f = S.feasible(s.theory, nb) if can_t else True
    s.forks += 1
    if s.forks > 400:
        raise Unsupported("too many forks on one path")
    if can_t and can_f:
        s.pending.append(s.decisions + [1])
        s.decisions.append(0)
        s.forklevel[b] = 0
        assume(b)
        return True
    # entailed (possibly only by loop-local facts): recorded as forced (2/3)
    if can_t:
        s.decisions.append(2)
        s.theory.add(b)
        return True
    s.decisions.append(3)
    s.theory.add(nb)
    return False


def known(b, timeout=400):
    """b is entailed by the path facts (used for shape reasoning)."""
    if b is T.TRUE:
        return True
    if b is T.FALSE:
        return False
    if b in st().theory.facts:
        return True
    return not S.feasible(st().theory, T.bnot(b), timeout)


# ------------------------------------------------------------------ scalars


class Sym:
    __array_ufunc__ = None
    __slots__ = ()


def is_sym(x):
    return type(x) in _SYMTYPES


def concretize(x, depth=4):
    """replace all-constant symbolic arrays by real ones"""
    t = type(x)
    if t is SArr:
        if (x.base if x.base is not None else x).tag != "created":
            return x
        r = x.concrete()
        return x if r is None else r
    if depth and t in (list, tuple):
        ys = [concretize(y, depth - 1) for y in x]
        return t(ys) if any(a is not b for a, b in zip(x, ys)) else x
    if depth and t is dict:
        ys = {k: concretize(v, depth - 1) for k, v in x.items()}
        return ys if any(ys[k] is not x[k] for k in x) else x
    return x


def any_sym(x, depth=4):
    t = type(x)
    if t in _SYMTYPES or hasattr(t, "__vc_array__"):
        return True
    if depth and t in (list, tuple, set, frozenset):
        return any(any_sym(y, depth - 1) for y in x)
    if depth and t is dict:
        return any(any_sym(y, depth - 1) for y in x.values())
    if t is slice:
        return any_sym(x.start, 0) or any_sym(x.stop, 0) or any_sym(x.step, 0)
    return False


class SNum(Sym):
    __slots__ = ("p", "isint", "np_")

    def __init__(self, p, isint=None, np_=False):
        self.p = p
        self.isint = p.is_int() if isint is None else isint
        self.np_ = np_

    @property
    def __class__(self):
        if self.np_:
            return _np.int64 if self.isint else _np.float64
        return int if self.isint else float

    def __bool__(self):
        return decide(T.bnot(T.eq0(self.p)))

    def __repr__(self):
        return f"<{T.show(self.p)}>"

    def __str__(self):
        return f"<{T.show(self.p)}>"[:60]

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        c = self.p.const()
        if c is not None:
            return hash(c)
        raise Unsupported("hash of symbolic number")

    def __index__(self):
        c = self.p.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported(f"symbolic integer used as a concrete index: {self}")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = self.p.const()
        if c is not None:
            return float(c)
        raise Unsupported("float() of a symbolic number")

    def __neg__(self):
        return SNum(T.neg(self.p), self.isint, self.np_)

    def __pos__(self):
        return self

    def __abs__(self):
        return SNum(T.pabs(self.p), self.isint, self.np_)

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __round__(self, *a):
        raise Unsupported("round")

    # numpy scalar look-alikes
    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @property
    def size(self):
        return 1

    def item(self):
        return SNum(self.p, self.isint)

    def copy(self):
        return self

    def mean(self):
        return self

    def sum(self):
        return self

    @property
    def T(self):
        return self

    def is_integer(self):
        if self.isint:
            return True
        raise Unsupported("is_integer")

    @property
    def dtype(self):
        return _np.dtype(int if self.isint else float)

    def astype(self, t):
        return astype(self, t)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SBool(Sym):
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return decide(self.b)

    def __repr__(self):
        return f"<{T.show_b(self.b)}>"

    __str__ = __repr__

    def __format__(self, spec):
        return str(self)

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __invert__(self):
        return SBool(T.bnot(self.b))

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    def all(self, *a):
        return self

    def any(self, *a):
        return self

    def item(self):
        return self

    @property
    def dtype(self):
        return _np.dtype(bool)

    def astype(self, t):
        return astype(self, t)

    def __index__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def num(x):
    """-> Poly of a scalar (python/numpy/sym)."""
    if isinstance(x, Poly):
        return x
    t = type(x)
    if t is SNum:
        return x.p
    if t is SBool:
        return T.ind(x.b)
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return num(x.item())
    if t is SArr and x.ndim == 0:
        return num(x.fn())
    if isinstance(x, B):
        return T.ind(x)
    if isinstance(x, (float, _np.floating)) and x != x:
        return T.NAN
    return T.C(x)


def isintlike(x):
    t = type(x)
    if t is SNum:
        return x.isint
    return isinstance(x, (int, _np.integer)) and not isinstance(x, bool)


def wrap(v, np_=True, isint=None):
    if isinstance(v, B):
        if v is T.TRUE:
            return _np.True_
        if v is T.FALSE:
            return _np.False_
        return SBool(v)
    return SNum(v, isint, np_)


# ------------------------------------------------------------------ dims


class Dim:
    """0 <= i < n restricted to mask(i) (mask None: all)."""

    # perm: token of an unspecified enumeration order (concatenated index sets);
    # such a dimension only matches dimensions in the same order
    __slots__ = ("n", "mask", "perm")

    def __init__(self, n, mask=None, perm=None):
        self.n = n if isinstance(n, Poly) else T.as_poly(num(n))
        self.mask = mask
        self.perm = perm

    def length(self):
        if self.mask is None:
            return self.n
        return T.mk_sum(self.n, lambda i: T.ind(self.mask(i)))

    def const(self):
        if self.mask is not None:
            return None
        c = self.n.const()
        return None if c is None else int(c)

    def __repr__(self):
        return f"Dim({T.show(self.n)}{'' if self.mask is None else '|mask'})"


def same_dim(a, b):
    if a is b:
        return True
    if a.perm is not b.perm:
        if not known(T.eq(a.length(), b.length())):
            return False
        raise Unsupported("arrays in different enumeration orders")
    if a.mask is None and b.mask is None:
        if a.n == b.n or T.is_zero(T.sub(a.n, b.n)):
            return True
        if a.n.const() is not None and b.n.const() is not None:
            return False
        return known(T.eq(a.n, b.n))
    if a.n != b.n and not T.is_zero(T.sub(a.n, b.n)):
        return False
    i = T.fresh("q")
    ma = a.mask(i) if a.mask else T.TRUE
    mb = b.mask(i) if b.mask else T.TRUE
    if ma is mb:
        return True
    rng = T.band(T.le0(T.neg(i)), T.lt(i, a.n))
    th = st().theory.copy()
    th.add(rng)
    return S.prove(th, T.biff(ma, mb), depth=1, timeout=2000).ok


def sz(dim):
    c = dim.const()
    if c is not None:
        return c
    return SNum(dim.length(), True)


# ------------------------------------------------------------------ arrays


def _dt(kind):
    return {"f": _np.dtype(float), "i": _np.dtype(int), "b": _np.dtype(bool), "o": _np.dtype(object)}[kind]


class SArr(Sym):
    """Symbolic ndarray: dims + index function to terms."""

    __slots__ = ("dims", "_fn", "kind", "base", "bmap", "tag", "writable", "ver")

    def __init__(self, dims, fn, kind="f", base=None, bmap=None, tag=None):
        self.dims = tuple(dims)
        self._fn = fn
        self.kind = kind
        self.base = base
        self.bmap = bmap
        self.tag = tag
        self.writable = True
        self.ver = 0

    # dynamic lookup so that views observe writes to their base
    @property
    def fn(self):
        if self.base is not None:
            bfn = self.base.fn
            bm = self.bmap
            return lambda *idx: bfn(*bm(idx))
        return self._fn

    @property
    def __class__(self):
        return _np.ndarray

    @property
    def shape(self):
        return tuple(sz(d) for d in self.dims)

    @property
    def ndim(self):
        return len(self.dims)

    @property
    def size(self):
        r = T.ONE
        for d in self.dims:
            r = T.mul(r, d.length())
        c = r.const()
        return int(c) if c is not None else SNum(r, True)

    @property
    def dtype(self):
        return _dt(self.kind)

    @property
    def T(self):
        return transpose(self)

    @property
    def values(self):
        return self

    def __len__(self):
        c = self.dims[0].const()
        if c is None:
            raise Unsupported("len() of symbolic array must go through the loader's len")
        return c

    def __bool__(self):
        if self.size == 1:
            v = self.fn(*[T.ZERO] * self.ndim)
            return bool(wrap(v))
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __iter__(self):
        c = self.dims[0].const() if self.dims else None
        if c is None:
            raise Unsupported("iteration over a symbolic-length array outside of a transformed loop")
        return iter([self[i] for i in range(c)])

    def __repr__(self):
        return f"SArr{self.shape}"

    def __hash__(self):
        return id(self)

    def snap(self):
        fn = self.fn
        return SArr(self.dims, fn, self.kind)

    def copy(self, order=None):
        return self.snap()

    def __deepcopy__(self, memo):
        return self.snap()

    def __copy__(self):
        return self.snap()

    def concrete(self):
        """real ndarray when every entry is a constant, else None"""
        dims = [d.const() if d.mask is None else None for d in self.dims]
        if any(d is None for d in dims):
            return None
        tot = 1
        for d in dims:
            tot *= d
        if tot > 4096:
            return None
        out = _np.empty(dims, dtype=_dt(self.kind))
        fn = self.fn
        for ix in _np.ndindex(*dims):
            v = fn(*[T.C(k) for k in ix])
            if isinstance(v, B):
                if v is T.TRUE or v is T.FALSE:
                    out[ix] = v is T.TRUE
                    continue
                return None
            if T.isnan(v) is T.TRUE:
                out[ix] = _np.nan
                continue
            k = v.const()
            if k is None:
                return None
            out[ix] = int(k) if self.kind == "i" else float(k)
        return out

    def __array__(self, dtype=None, copy=None):
        r = self.concrete()
        if r is None:
            raise Unsupported("a symbolic array reached code outside the verified package")
        return r if dtype is None else r.astype(dtype)

    def __getattr__(self, name):
        if hasattr(_np.ndarray, name) and not name.startswith("__"):
            raise Unsupported(f"ndarray.{name} on a symbolic array")
        raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")

    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def astype(self, t, copy=True):
        return astype(self, t)

    def item(self):
        c = self.size
        if c == 1:
            return wrap(self.fn(*[T.ZERO] * self.ndim), np_=False)
        raise Unsupported("item() on non-scalar symbolic array")

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and type(shape[0]) in (tuple, list):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def flatten(self):
        return flatten(self)

    ravel = flatten

    def squeeze(self, axis=None):
        return squeeze(self, axis)

    def transpose(self, *axes):
        return transpose(self, *axes)

    def mean(self, axis=None, keepdims=False):
        return mean(self, axis, keepdims)

    def sum(self, axis=None, keepdims=False):
        return asum(self, axis, keepdims)

    def any(self, axis=None):
        return aany(self, axis)

    def all(self, axis=None):
        return aall(self, axis)

    def min(self, axis=None):
        return reduce_fun("min", self, axis)

    def max(self, axis=None):
        return reduce_fun("max", self, axis)

    def std(self, *a, **k):
        raise Unsupported("std")

    def dot(self, o):
        return dot(self, o)

    def fill(self, v):
        self[...] = v

    def tolist(self):
        c = self.dims[0].const()
        if c is None:
            raise Unsupported("tolist on symbolic length")
        if self.ndim == 1:
            return [wrap(self.fn(T.C(i)), np_=False) for i in range(c)]
        return [self[i].tolist() for i in range(c)]

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    def __contains__(self, x):
        return bool(wrap(aany(compare("==", self, x)).b if False else _b_of(aany(compare("==", self, x)))))


_SYMTYPES = {SNum, SBool, SArr}


def register_symtype(t):
    _SYMTYPES.add(t)


def _b_of(x):
    """Formula of a boolean-like."""
    if isinstance(x, B):
        return x
    t = type(x)
    if t is SBool:
        return x.b
    if t is SNum:
        return T.bnot(T.eq0(x.p))
    if t is SArr:
        if x.size == 1:
            return _b_of(x.fn(*[T.ZERO] * x.ndim))
        raise Unsupported("truth value of array")
    if isinstance(x, Poly):
        return T.bnot(T.eq0(x))
    return T.TRUE if bool(x) else T.FALSE


def tob(v):
    return v if isinstance(v, B) else T.bnot(T.eq0(v))


def ton(v):
    return T.ind(v) if isinstance(v, B) else v


def lift(x):
    """-> SArr (0-d for scalars)."""
    t = type(x)
    if t is SArr:
        return x
    if t is SNum:
        p = x.p
        return SArr((), lambda: p, "i" if x.isint else "f")
    if t is SBool:
        b = x.b
        return SArr((), lambda: b, "b")
    if isinstance(x, (bool, _np.bool_)):
        b = T.TRUE if x else T.FALSE
        return SArr((), lambda: b, "b")
    if isinstance(x, (int, float, _np.number)):
        p = num(x)
        return SArr((), lambda: p, "i" if isintlike(x) else "f")
    if isinstance(x, _np.ndarray):
        return lift_ndarray(x)
    if t in (list, tuple):
        if t is list and len(x) and not any_sym(x):
            return lift_ndarray(_np.array(x))
        return from_nested(x)
    if hasattr(x, "__vc_array__"):
        return x.__vc_array__()
    import pandas as pd

    if isinstance(x, (pd.Series, pd.DataFrame)):
        return lift_ndarray(x.values)
    raise Unsupported(f"cannot lift {t}")


def lift_ndarray(x):
    if x.dtype.kind not in "fiub":
        raise Unsupported(f"array dtype {x.dtype}")
    kind = {"f": "f", "i": "i", "u": "i", "b": "b"}[x.dtype.kind]
    x = x.copy()
    dims = [Dim(T.C(n)) for n in x.shape]

    def elem(*idx):
        cs = [i.const() for i in idx]
        if all(c is not None for c in cs):
            v = x[tuple(int(c) for c in cs)]
            if kind == "b":
                return T.TRUE if v else T.FALSE
            return T.NAN if v != v else T.C(v)
        if x.size and kind != "b" and (x == x.flat[0]).all():
            return T.C(x.flat[0])
        if x.size and kind != "b" and _np.isnan(x).all():
            return T.NAN
        if x.size > 64:
            raise Unsupported("symbolic index into a large concrete array")
        # ite chain
        res = None
        for pos in itertools.product(*[range(n) for n in x.shape]):
            v = x[pos]
            tv = (T.TRUE if v else T.FALSE) if kind == "b" else (T.NAN if v != v else T.C(v))
            if res is None:
                res = tv
                continue
            c = T.band(*[T.eq(i, T.C(p)) for i, p in zip(idx, pos)])
            res = T.bite(c, tv, res) if kind == "b" else T.ite(c, tv, res)
        return res

    return SArr(dims, elem, kind)


def from_nested(x):
    """np.array(list of sym / nested)"""
    items = [lift(v) for v in x]
    if not items:
        return SArr((Dim(T.ZERO),), lambda i: T.ZERO, "f")
    return stack(items, 0)


# ---- elementwise


def broadcast(arrs):
    nd = max(a.ndim for a in arrs)
    dims = []
    for pos in range(nd):
        cand = None
        for a in arrs:
            k = pos - (nd - a.ndim)
            if k < 0:
                continue
            d = a.dims[k]
            if d.mask is None and d.n.const() == 1:
                continue
            if cand is None:
                cand = d
            elif not same_dim(cand, d):
                raise ValueError(f"operands could not be broadcast together: {cand} {d}")
        dims.append(cand if cand is not None else Dim(T.ONE))
    fns = []
    for a in arrs:
        off = nd - a.ndim
        fn = a.fn
        ones = tuple(d.mask is None and d.n.const() == 1 for d in a.dims)

        def f(*idx, fn=fn, off=off, ones=ones):
            return fn(*[T.ZERO if o else idx[off + k] for k, o in enumerate(ones)])

        fns.append(f)
    return dims, fns


def _memo(fn):
    cache = {}

    def g(*idx):
        r = cache.get(idx)
        if r is None:
            r = fn(*idx)
            cache[idx] = r
        return r

    return g


def elementwise(op, *xs, kind=None):
    """op on terms; xs scalars/arrays.  Returns scalar Sym or SArr."""
    arrs = [lift(x) for x in xs]
    dims, fns = broadcast(arrs)

    def fn(*idx):
        return op(*[f(*idx) for f in fns])

    if not dims:
        return wrap(fn(), isint=None if kind != "i" else True)
    if kind is None:
        kind = "f"
    return SArr(dims, _memo(fn), kind)


def _kind2(a, b):
    ka, kb = kind_of(a), kind_of(b)
    if "f" in (ka, kb):
        return "f"
    return "i"


def kind_of(x):
    t = type(x)
    if t is SArr:
        return x.kind
    if t is SNum:
        return "i" if x.isint else "f"
    if t is SBool or isinstance(x, (bool, _np.bool_)):
        return "b"
    if isintlike(x):
        return "i"
    if isinstance(x, _np.ndarray):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind, "o")
    return "f"


def _isinf(x):
    return not is_sym(x) and isinstance(x, (float, _np.floating)) and bool(_np.isinf(x))


def arith(op, a, b):
    ok_types = (int, float, _np.number, _np.ndarray, _np.bool_, Sym)
    for x in (a, b):
        if not (is_sym(x) or isinstance(x, ok_types)):
            if type(x) in (list, tuple):
                continue
            return NotImplemented
    if _isinf(a) or _isinf(b):
        raise Unsupported("arithmetic with infinity")
    k = _kind2(a, b)
    if op == "+":
        r = elementwise(lambda x, y: T.add(ton(x), ton(y)), a, b, kind=k)
    elif op == "-":
        r = elementwise(lambda x, y: T.sub(ton(x), ton(y)), a, b, kind=k)
    elif op == "*":
        r = elementwise(lambda x, y: T.mul(ton(x), ton(y)), a, b, kind=k)
    elif op == "/":
        r = elementwise(lambda x, y: T.div(ton(x), ton(y)), a, b, kind="f")
        k = "f"
    elif op == "//":
        r = elementwise(_floordiv, a, b, kind=k)
    elif op == "%":
        r = elementwise(_mod, a, b, kind=k)
    elif op == "**":
        return power(a, b)
    else:
        raise Unsupported(op)
    if type(r) is SNum:
        r.isint = k in ("i", "b") and op != "/"
        r.np_ = any(type(x) is SNum and x.np_ or isinstance(x, _np.generic) for x in (a, b))
    return r


def _floordiv(x, y):
    x, y = ton(x), ton(y)
    c = y.const()
    if x.is_int() and c is not None and c > 0 and c.denominator == 1:
        if x.const() is not None:
            return T.C(x.const() // c)
        q = T.app("floordiv", x, y, sort="I")
        th = st().theory
        th.add(T.le(T.mul(q, y), x))
        th.add(T.lt(x, T.mul(T.add(q, T.ONE), y)))
        return q
    raise Unsupported("floor division")


def _mod(x, y):
    x, y = ton(x), ton(y)
    return T.sub(x, T.mul(_floordiv(x, y), y))


def power(a, b):
    k = b
    if type(b) is SNum and b.p.const() is not None:
        k = b.p.const()
        k = int(k) if k.denominator == 1 else float(k)
    if isinstance(k, (int, _np.integer)) or (isinstance(k, (float, _np.floating)) and float(k).is_integer()):
        k = int(k)
        return elementwise(lambda x: T.power(ton(x), k), a, kind=kind_of(a))
    if k == 0.5:
        return elementwise(lambda x: T.sqrt(ton(x)), a)
    if k == -0.5:
        return elementwise(lambda x: T.inv(T.sqrt(ton(x))), a)
    if isinstance(k, (float, _np.floating)):
        if float(k * 2).is_integer():
            kk = int(k * 2)
            return elementwise(lambda x: T.power(T.sqrt(ton(x)), kk), a)
    raise Unsupported(f"power with exponent {k!r}")


_CMP = {
    "==": lambda x, y: _eqv(x, y),
    "!=": lambda x, y: T.bnot(_eqv(x, y)),
    "<": lambda x, y: T.lt(ton(x), ton(y)),
    "<=": lambda x, y: T.le(ton(x), ton(y)),
    ">": lambda x, y: T.lt(ton(y), ton(x)),
    ">=": lambda x, y: T.le(ton(y), ton(x)),
}


def _eqv(x, y):
    if isinstance(x, B) and isinstance(y, B):
        return T.biff(x, y)
    return T.eq(ton(x), ton(y))


def compare(op, a, b):
    for x in (a, b):
        if not (is_sym(x) or isinstance(x, (int, float, _np.number, _np.ndarray, _np.bool_)) or type(x) in (list, tuple)):
            if op == "==":
                return False
            if op == "!=":
                return True
            return NotImplemented
    if _isinf(b):
        pos = b > 0
        v = {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        return elementwise(lambda x: T.TRUE if v else T.FALSE, a, kind="b")
    if _isinf(a):
        pos = a > 0
        v = {"<": not pos, "<=": not pos, ">": pos, ">=": pos, "==": False, "!=": True}[op]
        return elementwise(lambda x: T.TRUE if v else T.FALSE, b, kind="b")
    if type(a) in (list, tuple) and type(b) is not SArr or type(b) in (list, tuple) and type(a) is not SArr:
        return op == "!="
    try:
        return elementwise(_CMP[op], a, b, kind="b")
    except ValueError:
        if op in ("==", "!="):
            raise Unsupported("array comparison with mismatching shapes")
        raise


def logic(op, a, b=None):
    for x in (a, b):
        if x is not None and not is_sym(x) and not isinstance(x, (bool, _np.bool_, _np.ndarray, int, _np.integer)):
            return NotImplemented
    if op == "not":
        return elementwise(lambda x: T.bnot(tob(x)), a, kind="b")
    if op in ("and", "or", "xor"):
        for x in (a, b):
            if kind_of(x) == "i":
                raise Unsupported("bitwise operation on integers")
        f = {"and": T.band, "or": T.bor, "xor": T.bxor}[op]
        return elementwise(lambda x, y: f(tob(x), tob(y)), a, b, kind="b")
    raise Unsupported(op)


def _install(cls):
    for name, op in [("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**")]:
        setattr(cls, f"__{name}__", lambda s, o, op=op: arith(op, s, o))
        setattr(cls, f"__r{name}__", lambda s, o, op=op: arith(op, o, s))
    for name, op in [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]:
        setattr(cls, f"__{name}__", lambda s, o, op=op: compare(op, s, o))
    for name, op in [("and", "and"), ("or", "or"), ("xor", "xor")]:
        setattr(cls, f"__{name}__", lambda s, o, op=op: logic(op, s, o))
        setattr(cls, f"__r{name}__", lambda s, o, op=op: logic(op, o, s))


for _c in (SNum, SBool, SArr):
    _h = _c.__hash__
    _install(_c)
    _c.__hash__ = _h
SArr.__neg__ = lambda s: arith("-", 0, s) if s.kind != "f" else elementwise(lambda x: T.neg(x), s)
SArr.__pos__ = lambda s: s
SArr.__abs__ = lambda s: elementwise(lambda x: T.pabs(ton(x)), s, kind=s.kind)
SArr.__invert__ = lambda s: logic("not", s) if s.kind == "b" else _unsup("~ on ints")
SArr.__matmul__ = lambda s, o: dot(s, o)
SArr.__rmatmul__ = lambda s, o: dot(o, s)


def _inplace(op):
    def f(s, o):
        r = arith(op, s.snap(), o)
        if r is NotImplemented:
            return r
        if not (len(r.dims) == s.ndim and all(same_dim(x, y) for x, y in zip(r.dims, s.dims))):
            raise ValueError("non-broadcastable output operand")
        setitem(s, Ellipsis, r)
        return s

    return f


for _n, _o in [("iadd", "+"), ("isub", "-"), ("imul", "*"), ("itruediv", "/")]:
    setattr(SArr, f"__{_n}__", _inplace(_o))


def _unsup(m):
    raise Unsupported(m)


def astype(x, t):
    k = None
    if t in (float, "float", "float64", _np.float64) or t == _np.dtype(float):
        k = "f"
    elif t in (int, "int", "int64", _np.int64) or t == _np.dtype(int):
        k = "i"
    elif t in (bool, "bool", _np.bool_) or t == _np.dtype(bool):
        k = "b"
    if k is None:
        raise Unsupported(f"astype {t}")
    kk = kind_of(x)
    if kk == k:
        return x.snap() if type(x) is SArr else x
    if k == "b":
        return elementwise(tob, x, kind="b")
    if k == "i" and kk == "f":
        def trunc(v):
            v = ton(v)
            if v.is_int():
                return v
            raise Unsupported("float->int cast")
        return elementwise(trunc, x, kind="i")
    r = elementwise(ton, x, kind=k)
    if type(r) is SNum:
        r.isint = k == "i"
    return r


# ---- indexing


class _Sel:
    __slots__ = ("t", "a", "b", "c")

    def __init__(self, t, a=None, b=None, c=None):
        self.t, self.a, self.b, self.c = t, a, b, c


def norm_key(arr, key):
    if type(key) is not tuple:
        key = (key,)
    nd = arr.ndim
    used = 0
    for k in key:
        if k is None or k is Ellipsis:
            continue
        if type(k) is SArr and k.kind == "b":
            used += k.ndim
        elif isinstance(k, _np.ndarray) and type(k) is not SArr and k.dtype == bool:
            used += k.ndim
        else:
            used += 1
    if used > nd:
        raise IndexError("too many indices for array")
    out = []
    seen = False
    for k in key:
        if k is Ellipsis:
            if seen:
                raise IndexError("only one ellipsis")
            seen = True
            out.extend([slice(None)] * (nd - used))
        else:
            out.append(k)
    if not seen:
        out.extend([slice(None)] * (nd - used))
    return out


def idx_poly(i, dim):
    p = num(i)
    c = p.const()
    if c is not None:
        if c < 0:
            n = dim.n
            return T.add(n, p)
        n = dim.const()
        if n is not None and c >= n:
            raise IndexError(f"index {c} is out of bounds for axis with size {n}")
        return p
    # symbolic ints are used as non-negative indices (bounds are checked)
    return p


def check_bounds(p, dim):
    c = p.const()
    n = dim.const()
    if c is not None and n is not None:
        if not (0 <= c < n):
            raise IndexError("index out of bounds")
        return
    if any(lv.iv in p.fv for lv in st().loopvars if lv.range_is(dim.n, p)):
        return
    b = T.band(T.le0(T.neg(p)), T.lt(p, dim.n))
    # negative symbolic indices wrap around in numpy; we require a proof of bounds
    if not known(b):
        if known(T.le0(T.neg(p))):
            # may exceed: numpy raises IndexError
            if decide(T.lt(p, dim.n)):
                return
            raise IndexError("index out of bounds")
        raise Unsupported(f"cannot establish index bounds of {T.show(p)} in {dim}")


def getitem(arr, key):
    if type(key) is SArr and key.kind == "b" and key.ndim > 1:
        if key.ndim == arr.ndim == 2:
            if key.shape[0] == 1 and arr.shape[0] == 1 and key.dims[0].mask is None and arr.dims[0].mask is None:
                return getitem(getitem(arr, (0, slice(None))), getitem(key, (0, slice(None))))
            raise Unsupported("2-d boolean selection")
    sels = norm_key(arr, key)
    dims = []  # result dims
    maps = []  # per source dim: function(result idx)-> Poly
    src = 0
    adv = []
    rpos = 0
    copy = False
    adv_dim_pos = None
    for k in sels:
        if k is None:
            dims.append(Dim(T.ONE))
            rpos += 1
            continue
        dim = arr.dims[src]
        if type(k) is slice:
            if k.start is None and k.stop is None and k.step in (None, 1):
                maps.append((lambda idx, r=rpos: idx[r]))
                dims.append(dim)
                rpos += 1
            else:
                lo, n, stp = slice_range(k, dim)
                maps.append((lambda idx, r=rpos, lo=lo, stp=stp: T.add(lo, T.scale(idx[r], stp))))
                dims.append(Dim(n))
                rpos += 1
        elif isintlike(k) or (type(k) is SArr and k.ndim == 0 and k.kind == "i"):
            p = idx_poly(k if type(k) is not SArr else SNum(k.fn(), True), dim)
            if dim.mask is not None:
                raise Unsupported("integer index into a filtered dimension")
            check_bounds(p, dim)
            maps.append((lambda idx, p=p: p))
        elif isinstance(k, (SBool, bool, _np.bool_)) or type(k) is SBool:
            raise Unsupported("boolean scalar index")
        else:
            a = lift(k)
            copy = True
            if a.ndim == 0:
                raise Unsupported("0-d index array")
            if a.ndim != 1:
                raise Unsupported("n-d advanced index")
            if a.kind == "b":
                if not same_dim(dim, a.dims[0]):
                    raise IndexError("boolean index did not match indexed array")
                afn = a.fn
                dm = dim.mask
                mask = (lambda i, afn=afn, dm=dm: T.band(dm(i), tob(afn(i))) if dm else tob(afn(i)))
                nd = Dim(dim.n, mask, dim.perm)
                if adv_dim_pos is not None:
                    raise Unsupported("two advanced indices")
                adv_dim_pos = rpos
                maps.append((lambda idx, r=rpos: idx[r]))
                dims.append(nd)
                rpos += 1
            elif a.kind == "i":
                afn = a.fn
                if dim.mask is not None:
                    raise Unsupported("gather from a filtered dimension")
                ad = a.dims[0]
                q = T.fresh("g")
                th_ok = True
                val = afn(q)
                # bounds of gathered indices: identity sets and declared index arrays are in range
                if val != q:
                    rng = T.band(T.le0(T.neg(q)), T.lt(q, ad.n), ad.mask(q) if ad.mask else T.TRUE)
                    th = st().theory.copy()
                    th.add(rng)
                    th_ok = S.prove(th, T.band(T.le0(T.neg(val)), T.lt(val, dim.n)), depth=0, timeout=1000).ok
                else:
                    th_ok = T.is_zero(T.sub(ad.n, dim.n)) or known(T.le(ad.n, dim.n))
                if not th_ok:
                    raise Unsupported("cannot establish bounds of an index array")
                if adv:
                    # joint advanced indexing (same length): pairs
                    if not same_dim(adv[0], ad):
                        raise Unsupported("two advanced indices")
                    maps.append((lambda idx, r=adv_dim_pos, afn=afn: afn(idx[r])))
                else:
                    maps.append((lambda idx, r=rpos, afn=afn: afn(idx[r])))
                    dims.append(ad)
                    adv_dim_pos = rpos
                    adv.append(ad)
                    rpos += 1
            else:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
        src += 1

    def bmap(idx, maps=tuple(maps)):
        return [m(idx) for m in maps]

    if not dims:
        return wrap(arr.fn(*bmap(())), isint=(arr.kind == "i") if arr.kind != "b" else None)
    if copy:
        fn = arr.fn
        return SArr(dims, lambda *idx: fn(*bmap(idx)), arr.kind)
    v = SArr(dims, None, arr.kind, base=arr, bmap=bmap)
    return v


def slice_range(k, dim):
    if dim.mask is not None:
        raise Unsupported("slice of a filtered dimension")
    stp = 1 if k.step is None else k.step
    if not isinstance(stp, int):
        raise Unsupported("symbolic step")
    n = dim.n
    nc = dim.const()
    if nc is not None and not any_sym(k):
        lo, hi, stp = k.indices(nc)
        cnt = len(range(lo, hi, stp))
        return T.C(lo), T.C(cnt), Fraction(stp)
    if stp == -1 and k.start is None and k.stop is None:
        return T.sub(n, T.ONE), n, Fraction(-1)
    if stp != 1:
        raise Unsupported("slice step")
    lo = T.ZERO if k.start is None else num(k.start)
    hi = n if k.stop is None else num(k.stop)
    if lo.const() is not None and lo.const() < 0:
        lo = T.add(n, lo)
    if hi.const() is not None and hi.const() < 0:
        hi = T.add(n, hi)
    if not known(T.band(T.le0(T.neg(lo)), T.le(lo, hi), T.le(hi, n))):
        raise Unsupported("cannot establish slice bounds")
    return lo, T.sub(hi, lo), Fraction(1)


def setitem(arr, key, val):
    if not arr.writable:
        raise ValueError("assignment destination is read-only")
    if arr.tag is not None and any_sym(val):
        val = concretize(val)
        if any_sym(val):
            arr.tag = None
    if arr.base is not None:
        # write through a view: only whole-view or selector writes that map back
        return _set_view(arr, key, val)
    if type(key) is SArr and key.kind == "b" and key.ndim == arr.ndim and arr.ndim > 1:
        conds = key.fn
        v = lift(val)
        if v.ndim != 0:
            raise Unsupported("n-d masked assignment of an array")
        old = arr._fn
        vf = v.fn
        _commit(arr, lambda *idx: _ite(tob(conds(*idx)), _cast(vf(), arr.kind), old(*idx)))
        return
    sels = norm_key(arr, key)
    conds = []  # per source dim: (idx_k)->B or None
    rdims = []
    rmap = []  # for each result dim: function(full src idx) -> Poly
    src = 0
    for k in sels:
        if k is None:
            rdims.append(Dim(T.ONE))
            rmap.append(lambda idx: T.ZERO)
            continue
        dim = arr.dims[src]
        if type(k) is slice:
            if k.start is None and k.stop is None and k.step in (None, 1):
                rdims.append(dim)
                rmap.append(lambda idx, s=src: idx[s])
            else:
                lo, n, stp = slice_range(k, dim)
                if stp not in (1, -1):
                    raise Unsupported("strided assignment")
                rdims.append(Dim(n))
                if stp == 1:
                    conds.append(lambda idx, s=src, lo=lo, n=n: T.band(T.le(lo, idx[s]), T.lt(idx[s], T.add(lo, n))))
                    rmap.append(lambda idx, s=src, lo=lo: T.sub(idx[s], lo))
                else:
                    rmap.append(lambda idx, s=src, lo=lo: T.sub(lo, idx[s]))
        elif isintlike(k):
            if dim.mask is not None:
                raise Unsupported("int index into a filtered dimension")
            p = idx_poly(k, dim)
            check_bounds(p, dim)
            conds.append(lambda idx, s=src, p=p: T.eq(idx[s], p))
        else:
            a = lift(k)
            if a.ndim != 1:
                raise Unsupported("n-d advanced assignment")
            if a.kind == "b":
                if not same_dim(dim, a.dims[0]):
                    raise IndexError("boolean index did not match indexed array")
                afn = a.fn
                conds.append(lambda idx, s=src, afn=afn: tob(afn(idx[s])))
                dm = dim.mask
                rdims.append(Dim(dim.n, lambda i, afn=afn, dm=dm: T.band(dm(i) if dm else T.TRUE, tob(afn(i))), dim.perm))
                rmap.append(lambda idx, s=src: idx[s])
            elif a.kind == "i":
                q = T.fresh("g")
                if a.fn(q) != q:
                    raise Unsupported("scatter through a non-identity index array")
                ad = a.dims[0]
                if not (T.is_zero(T.sub(ad.n, dim.n)) or known(T.le(ad.n, dim.n))):
                    raise Unsupported("index bounds of scatter")
                conds.append(
                    lambda idx, s=src, ad=ad: T.band(
                        ad.mask(idx[s]) if ad.mask else T.TRUE, T.TRUE if T.is_zero(T.sub(ad.n, dim.n)) else T.lt(idx[s], ad.n)
                    )
                )
                rdims.append(ad)
                rmap.append(lambda idx, s=src: idx[s])
            else:
                raise IndexError("bad index")
        src += 1
    if val is None and arr.kind == "f":
        val = _np.nan
    v = lift(val)
    # broadcast v against rdims
    if v.ndim > len(rdims):
        # numpy allows leading 1-dims
        extra = v.ndim - len(rdims)
        if all(d.mask is None and d.n.const() == 1 for d in v.dims[:extra]):
            vf0 = v.fn
            v = SArr(v.dims[extra:], lambda *i, vf0=vf0, extra=extra: vf0(*([T.ZERO] * extra), *i), v.kind)
        else:
            raise ValueError("could not broadcast input array")
    off = len(rdims) - v.ndim
    ones = []
    for j, d in enumerate(v.dims):
        one = d.mask is None and d.n.const() == 1
        ones.append(one)
        if not one and not same_dim(d, rdims[off + j]):
            raise ValueError(f"could not broadcast input array from shape {v.dims} into {rdims}")
    vf = v.fn
    old = arr._fn
    kind = arr.kind
    if kind == "i" and v.kind == "f":
        raise Unsupported("assignment of floats into an integer array")
    conds = tuple(conds)
    rmap = tuple(rmap)

    def new(*idx):
        c = T.band(*[f(idx) for f in conds])
        if c is T.FALSE:
            return old(*idx)
        x = _cast(vf(*[T.ZERO if o else rmap[off + j](idx) for j, o in enumerate(ones)]), kind)
        if c is T.TRUE:
            return x
        return _ite(c, x, old(*idx))

    _commit(arr, _memo(new), (conds, rmap))


def _ite(c, x, y):
    if isinstance(x, B) or isinstance(y, B):
        return T.bite(c, tob(x), tob(y))
    return T.ite(c, x, y)


def _cast(x, kind):
    if kind == "b":
        return tob(x)
    return ton(x)


def _commit(arr, fn, info=None):
    for lv in st().loopvars:
        lv.note_write(arr, info)
    arr._fn = fn
    arr.ver += 1


def _set_view(arr, key, val):
    """Write through a basic-index view: translate for int/full-slice views."""
    base = arr.base
    # determine mapping by probing: each base index is either a constant or a view index
    probes = [T.fresh("v") for _ in arr.dims]
    mapped = arr.bmap(tuple(probes))
    newkey = []
    sels = norm_key(arr, key)
    if any(k is None for k in sels):
        raise Unsupported("newaxis write through view")
    for m in mapped:
        hit = [j for j, p in enumerate(probes) if m == p]
        if hit:
            newkey.append(sels[hit[0]])
        elif not any(T.the_atom(p) in m.fv for p in probes):
            newkey.append(SNum(m, True))
        else:
            raise Unsupported("write through a strided view")
    order = [next((j for j, p in enumerate(probes) if m == p), None) for m in mapped]
    order = [o for o in order if o is not None]
    if order != sorted(order) or len(order) != len(probes):
        raise Unsupported("write through a transposed view")
    setitem(base, tuple(newkey), val)


# ---- shape manipulation


def transpose(a, *axes):
    a = lift(a)
    nd = a.ndim
    if len(axes) == 1 and type(axes[0]) in (tuple, list):
        axes = tuple(axes[0])
    if not axes or axes == (None,):
        axes = tuple(reversed(range(nd)))
    if nd < 2:
        return a
    dims = [a.dims[i] for i in axes]

    def bmap(idx):
        out = [None] * nd
        for k, ax in enumerate(axes):
            out[ax] = idx[k]
        return out

    return SArr(dims, None, a.kind, base=a, bmap=bmap)


def _dimlike(s, arr=None):
    """shape entry -> Dim; recognises lengths of filtered dims of arr."""
    if type(s) is SNum and arr is not None:
        for d in arr.dims:
            if d.mask is not None and d.length() == s.p:
                return d
    return Dim(num(s))


def reshape(a, shape):
    a = lift(a)
    if isintlike(shape):
        shape = (shape,)
    shape = tuple(shape)
    fn = a.fn
    if a.ndim == 1:
        d = a.dims[0]
        big = []
        for k, s in enumerate(shape):
            if isintlike(s) and type(s) is not SNum and s == 1:
                continue
            big.append(k)
        if len(big) == 1:
            k = big[0]
            s = shape[k]
            if (type(s) is not SNum and s == -1) or T.is_zero(T.sub(num(s), d.length())) or known(T.eq(num(s), d.length())):
                dims = [Dim(T.ONE)] * len(shape)
                dims[k] = d
                return SArr(dims, None, a.kind, base=a, bmap=lambda idx, k=k: [idx[k]])
        if len(big) == 0:
            return SArr([Dim(T.ONE)] * len(shape), None, a.kind, base=a, bmap=lambda idx: [T.ZERO])
    if a.ndim == 0:
        return SArr([Dim(T.ONE)] * len(shape), lambda *i: fn(), a.kind)
    if a.ndim >= 2:
        nontriv = [k for k, d in enumerate(a.dims) if not (d.mask is None and d.n.const() == 1)]
        if len(nontriv) <= 1:
            k = nontriv[0] if nontriv else 0
            one = SArr(
                [a.dims[k]],
                None,
                a.kind,
                base=a,
                bmap=lambda idx, k=k: [idx[0] if j == k else T.ZERO for j in range(len(a.dims))],
            )
            if len(shape) == 1:
                return one
            return reshape(one, shape)
        # same shape?
        if len(shape) == a.ndim:
            ok = True
            for s, d in zip(shape, a.dims):
                if type(s) is not SNum and s == -1:
                    continue
                if not (T.is_zero(T.sub(num(s), d.length())) or known(T.eq(num(s), d.length()))):
                    ok = False
            if ok:
                return SArr(a.dims, None, a.kind, base=a, bmap=lambda idx: list(idx))
        # add/drop unit axes
        keep = [d for d in a.dims if not (d.mask is None and d.n.const() == 1)]
        sh = [s for s in shape if not (type(s) is not SNum and s == 1)]
        if len(sh) == len(keep) and all(
            (type(s) is not SNum and s == -1) or T.is_zero(T.sub(num(s), d.length())) or known(T.eq(num(s), d.length()))
            for s, d in zip(sh, keep)
        ):
            srcpos = nontriv
            respos = [k for k, s in enumerate(shape) if not (type(s) is not SNum and s == 1)]
            dims = [Dim(T.ONE)] * len(shape)
            for sp, rp in zip(srcpos, respos):
                dims[rp] = a.dims[sp]
            mp = dict(zip(srcpos, respos))
            return SArr(
                dims, None, a.kind, base=a, bmap=lambda idx: [idx[mp[j]] if j in mp else T.ZERO for j in range(a.ndim)]
            )
        if len(shape) == 1 and not all(d.const() is not None for d in a.dims):
            return flatten(a)
    # 1-d to 2-d with concrete columns etc.
    if all(d.const() is not None for d in a.dims) and not any_sym(shape):
        n = 1
        for d in a.dims:
            n *= d.const()
        idxs = _np.arange(n).reshape(tuple(d.const() for d in a.dims))
        flat = [fn(*[T.C(i) for i in pos]) for pos in itertools.product(*[range(d.const()) for d in a.dims])]
        new = idxs.reshape(-1).reshape(shape)
        return _from_table(new.shape, [flat[j] for j in new.reshape(-1)], a.kind)
    raise Unsupported(f"reshape {a.dims} -> {shape}")


def _from_table(shape, flat, kind):
    strides = []
    acc = 1
    for s in reversed(shape):
        strides.append(acc)
        acc *= s
    strides.reverse()

    def fn(*idx):
        cs = [i.const() for i in idx]
        if all(c is not None for c in cs):
            return flat[sum(int(c) * s for c, s in zip(cs, strides))]
        if len(flat) > 64:
            raise Unsupported("symbolic index into table")
        res = None
        for pos, v in zip(itertools.product(*[range(s) for s in shape]), flat):
            if res is None:
                res = v
            else:
                c = T.band(*[T.eq(i, T.C(p)) for i, p in zip(idx, pos)])
                res = _ite(c, v, res)
        return res

    return SArr([Dim(T.C(s)) for s in shape], fn, kind)


def flatten(a):
    a = lift(a)
    if a.ndim == 1:
        return a.snap()
    nontriv = [k for k, d in enumerate(a.dims) if not (d.mask is None and d.n.const() == 1)]
    if len(nontriv) <= 1:
        return reshape(a, (-1,)).snap()
    if all(d.const() is not None for d in a.dims):
        return reshape(a, (int(_np.prod([d.const() for d in a.dims])),))
    raise Unsupported("flatten of a symbolic 2-d array")


def squeeze(a, axis=None):
    a = lift(a)
    keep = [k for k, d in enumerate(a.dims) if not (d.mask is None and d.n.const() == 1 and (axis is None or k == axis % a.ndim))]
    if axis is not None and len(keep) == a.ndim:
        raise ValueError("cannot select an axis to squeeze out which has size not equal to one")
    pos = {k: j for j, k in enumerate(keep)}
    v = SArr([a.dims[k] for k in keep], None, a.kind, base=a, bmap=lambda idx: [idx[pos[j]] if j in pos else T.ZERO for j in range(a.ndim)])
    return v


def stack(items, axis=0):
    items = [lift(x) for x in items]
    nd = items[0].ndim
    for it in items[1:]:
        if it.ndim != nd or not all(same_dim(x, y) for x, y in zip(it.dims, items[0].dims)):
            raise ValueError("all input arrays must have the same shape")
    axis = axis % (nd + 1)
    fns = [it.fn for it in items]
    kinds = {it.kind for it in items}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    dims = list(items[0].dims)
    dims.insert(axis, Dim(T.C(len(items))))

    def fn(*idx):
        k = idx[axis]
        rest = idx[:axis] + idx[axis + 1 :]
        c = k.const()
        if c is not None:
            return _cast(fns[int(c)](*rest), kind)
        res = _cast(fns[0](*rest), kind)
        for j in range(1, len(fns)):
            res = _ite(T.eq(k, T.C(j)), _cast(fns[j](*rest), kind), res)
        return res

    return SArr(dims, _memo(fn), kind)


def concatenate(items, axis=0):
    items = [lift(x) for x in items]
    nd = items[0].ndim
    if axis is None:
        items = [flatten(x) for x in items]
        axis = 0
        nd = 1
    axis = axis % nd
    for it in items[1:]:
        if it.ndim != nd:
            raise ValueError("all the input array dimensions must match")
        for k in range(nd):
            if k != axis and not same_dim(it.dims[k], items[0].dims[k]):
                raise ValueError("all the input array dimensions except for the concatenation axis must match exactly")
    if any(it.dims[axis].mask is not None for it in items):
        if all(is_index_set(it) for it in items):
            return _concat_sets(items)
        raise Unsupported("concatenate along a filtered dimension")
    if any(it.dims[axis].perm is not None for it in items):
        raise Unsupported("concatenate along an unordered dimension")
    offs = [T.ZERO]
    for it in items:
        offs.append(T.add(offs[-1], it.dims[axis].n))
    kinds = {it.kind for it in items}
    kind = "f" if "f" in kinds else ("i" if "i" in kinds else "b")
    dims = list(items[0].dims)
    dims[axis] = Dim(offs[-1])
    fns = [it.fn for it in items]

    def fn(*idx):
        k = idx[axis]

        def at(j):
            i2 = idx[:axis] + (T.sub(k, offs[j]),) + idx[axis + 1 :]
            return _cast(fns[j](*i2), kind)

        c = k.const()
        if c is not None:
            for j in range(len(fns)):
                o = offs[j + 1].const()
                if o is None:
                    break
                if c < o:
                    return at(j)
        res = at(len(fns) - 1)
        for j in range(len(fns) - 2, -1, -1):
            cc = T.lt(k, offs[j + 1])
            res = _ite(cc, at(j), res)
        return res

    return SArr(dims, _memo(fn), kind)


def _concat_sets(items):
    """concatenation of pairwise disjoint index sets: their union in an unspecified order"""
    n = items[0].dims[0].n
    if not all(T.is_zero(T.sub(it.dims[0].n, n)) for it in items):
        raise Unsupported("concatenate index sets over different ranges")
    q = T.fresh("u")
    th = st().theory.copy()
    th.add(T.band(T.le0(T.neg(q)), T.lt(q, n)))
    masks = [it.dims[0].mask or (lambda i: T.TRUE) for it in items]
    for a in range(len(items)):
        for b in range(a):
            if not S.prove(th, T.bnot(T.band(masks[a](q), masks[b](q))), depth=1, timeout=2000).ok:
                raise Unsupported("concatenate possibly overlapping index sets")
    mask = lambda i: T.bor(*[m(i) for m in masks])  # noqa: E731
    if S.prove(th, mask(q), depth=1, timeout=2000).ok:
        mask = None
    return SArr((Dim(n, mask, object()),), lambda i: i, "i")


def repeat(a, k, axis=None):
    a = lift(a)
    if a.ndim == 0:
        fn = a.fn
        return SArr((Dim(num(k)),), lambda i: fn(), a.kind)
    if axis is None:
        a = flatten(a)
        axis = 0
    axis = axis % a.ndim
    d = a.dims[axis]
    fn = a.fn
    if d.mask is None and d.n.const() == 1:
        dims = list(a.dims)
        dims[axis] = Dim(num(k))
        return SArr(dims, lambda *idx: fn(*[T.ZERO if j == axis else x for j, x in enumerate(idx)]), a.kind)
    if num(k).const() == 1:
        return a.snap()
    kc = num(k).const()
    if kc is not None and d.const() is not None:
        parts = []
        for j in range(d.const()):
            key = [slice(None)] * a.ndim
            key[axis] = slice(j, j + 1)
            parts.extend([a[tuple(key)]] * int(kc))
        return concatenate(parts, axis)
    raise Unsupported("repeat of a symbolic-length axis")


def tile(a, reps):
    a = lift(a)
    if not type(reps) in (tuple, list):
        reps = (reps,)
    reps = list(reps)
    nd = max(a.ndim, len(reps))
    reps = [1] * (nd - len(reps)) + reps
    fn = a.fn
    dims = [Dim(T.ONE)] * (nd - a.ndim) + list(a.dims)
    off = nd - a.ndim
    out = []
    ones = []
    for d, r in zip(dims, reps):
        if d.mask is None and d.n.const() == 1:
            out.append(Dim(num(r)))
            ones.append(True)
        elif num(r).const() == 1:
            out.append(d)
            ones.append(False)
        else:
            raise Unsupported("tile of a non-unit axis")
    return SArr(out, lambda *idx: fn(*[T.ZERO if ones[off + j] else idx[off + j] for j in range(a.ndim)]), a.kind)


# ---- reductions


def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if type(axis) in (tuple, list):
        return sorted(x % a.ndim for x in axis)
    if not -a.ndim <= axis < a.ndim:
        raise ValueError(f"axis {axis} is out of bounds for array of dimension {a.ndim}")
    return [axis % a.ndim]


def _sumdim(dim, fn):
    if dim.mask is None:
        return T.mk_sum(dim.n, fn)

    def g(i):
        m = T.ind(dim.mask(i))
        v = fn(i)
        if T.has_nan(v):
            # the selection must rule NaN out: simplify under the mask
            v = _under(v, dim.mask(i))
        return T._mul(m, v)

    return T.mk_sum(dim.n, g)


def _under(v, cond):
    """Simplify v knowing cond."""
    bm = {}
    lits = cond.args if cond.op == "and" else (cond,)
    for l in lits:
        if l.op == "not" and l.args[0].op != "and":
            bm[l.args[0]] = T.FALSE
        elif l.op in ("le", "eq", "pred", "any"):
            bm[l] = T.TRUE
            if l.op == "eq" and isinstance(v, T.Poly):
                # p + c == 0 excludes p + c' == 0
                for m in v.d:
                    for a, _ in m:
                        if a.kind == "ind" and a.data is not l and a.data.op == "eq" and T.sub(a.data.args[0], l.args[0]).const() is not None:
                            bm[a.data] = T.FALSE
    return T.subst(v, {}, bm) if bm else v


def asum(a, axis=None, keepdims=False):
    a = lift(a)
    if a.ndim == 0:
        return wrap(ton(a.fn()))
    axes = _axes(a, axis)
    fn = a.fn
    rest = [k for k in range(a.ndim) if k not in axes]

    def red(*idx):
        env = dict(zip(rest, idx))

        def go(level):
            if level == len(axes):
                return ton(fn(*[env[k] for k in range(a.ndim)]))

            def f(i):
                env[axes[level]] = i
                return go(level + 1)

            return _sumdim(a.dims[axes[level]], f)

        return go(0)

    kind = "f" if a.kind == "f" else "i"
    return _finish(a, axes, rest, red, kind, keepdims)


def _finish(a, axes, rest, red, kind, keepdims):
    if keepdims:
        dims = [Dim(T.ONE) if k in axes else a.dims[k] for k in range(a.ndim)]
        return SArr(dims, _memo(lambda *idx: red(*[idx[k] for k in rest])), kind)
    if not rest:
        return wrap(red(), isint=None if kind == "b" else kind == "i")
    return SArr([a.dims[k] for k in rest], _memo(red), kind)


def mean(a, axis=None, keepdims=False):
    a = lift(a)
    if a.ndim == 0:
        return wrap(ton(a.fn()))
    axes = _axes(a, axis)
    n = T.ONE
    for k in axes:
        n = T.mul(n, a.dims[k].length())
    s = asum(a, axis, keepdims)
    return elementwise(lambda v: T.div(v, n), s)


def aany(a, axis=None, keepdims=False):
    a = lift(a)
    if a.ndim == 0:
        return wrap(tob(a.fn()))
    axes = _axes(a, axis)
    rest = [k for k in range(a.ndim) if k not in axes]
    fn = a.fn

    def red(*idx):
        env = dict(zip(rest, idx))

        def go(level):
            if level == len(axes):
                return tob(fn(*[env[k] for k in range(a.ndim)]))
            d = a.dims[axes[level]]

            def f(i):
                env[axes[level]] = i
                r = go(level + 1)
                return T.band(d.mask(i), r) if d.mask else r

            return T.mk_any(d.n, f)

        return go(0)

    return _finish(a, axes, rest, red, "b", keepdims)


def aall(a, axis=None, keepdims=False):
    return logic("not", aany(logic("not", a if is_sym(a) else lift(a)), axis, keepdims))


def reduce_fun(name, a, axis=None, params=(), keepdims=False):
    a = lift(a)
    axes = _axes(a, axis)
    rest = [k for k in range(a.ndim) if k not in axes]
    fn = a.fn
    if len(axes) != 1:
        raise Unsupported(f"{name} over several axes")
    d = a.dims[axes[0]]
    c = d.const()

    def red(*idx):
        env = dict(zip(rest, idx))

        def f(i):
            env[axes[0]] = i
            v = ton(fn(*[env[k] for k in range(a.ndim)]))
            return v

        if d.mask is not None:
            return T.mk_fun(name + "|sub", d.n, lambda i: T.app("sel", T.ind(d.mask(i)), _under(f(i), d.mask(i))), params)
        if c is not None and c <= 8 and name in ("max", "min"):
            if c == 0:
                raise ValueError(f"zero-size array to reduction operation {name}")
            return (T.mk_max if name == "max" else T.mk_min)([f(T.C(j)) for j in range(c)])
        if c == 1 and name in ("median", "quantile"):
            return f(T.ZERO)
        if c == 2 and name == "median":
            return T.scale(T.add(f(T.ZERO), f(T.ONE)), Fraction(1, 2))
        if c is not None and c <= 8:
            try:
                nan = T.has_nan(f(T.fresh()))
            except Unsupported:
                nan = True
            if nan:
                # entries written one by one over a NaN-initialised array
                vs = [f(T.C(j)) for j in range(c)]

                def tab(i):
                    r = T.ZERO
                    for j, v in enumerate(vs):
                        r = T.add(r, T._mul(T.ind(T.eq(i, T.C(j))), v))
                    return r

                return T.mk_fun(name, d.n, tab, params)
        return T.mk_fun(name, d.n, f, params)

    return _finish(a, axes, rest, red, "i" if name in ("max", "min") and a.kind == "i" else "f", keepdims)


def dot(a, b):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return arith("*", a, b)
    fa, fb = a.fn, b.fn
    da, db = a.dims[-1], b.dims[0 if b.ndim == 1 else -2]
    if not same_dim(da, db):
        raise ValueError("shapes not aligned")
    na = a.ndim - 1
    dims = list(a.dims[:-1]) + ([] if b.ndim == 1 else list(b.dims[:-2]) + [b.dims[-1]])

    def fn(*idx):
        ia, ib = idx[:na], idx[na:]

        def f(k):
            y = fb(k) if b.ndim == 1 else fb(*ib[:-1], k, ib[-1])
            return T.mul(ton(fa(*ia, k)), ton(y))

        return _sumdim(da, f)

    if not dims:
        return wrap(fn())
    return SArr(dims, _memo(fn), "f")


def outer(a, b):
    a, b = flatten(a), flatten(b)
    fa, fb = a.fn, b.fn
    return SArr((a.dims[0], b.dims[0]), lambda i, j: T.mul(ton(fa(i)), ton(fb(j))), _kind2(a, b))


def where(cond, *args):
    cond = lift(cond)
    if not args:
        if cond.ndim != 1:
            raise Unsupported("np.where(cond) on n-d")
        fn = cond.fn
        d = cond.dims[0]
        if d.mask is not None or d.perm is not None:
            raise Unsupported("positions within a filtered dimension")
        return (SArr((Dim(d.n, lambda i: tob(fn(i))),), lambda i: i, "i"),)
    a, b = args
    k = kind_of(a) if kind_of(a) == kind_of(b) else _kind2(a, b)
    if _isinf(a) or _isinf(b):
        raise Unsupported("where with infinity")
    if k == "b":
        return elementwise(lambda c, x, y: T.bite(tob(c), tob(x), tob(y)), cond, a, b, kind="b")
    return elementwise(lambda c, x, y: T.ite(tob(c), ton(x), ton(y)), cond, a, b, kind=k)


def is_index_set(a):
    if type(a) is not SArr or a.ndim != 1 or a.kind != "i":
        return False
    q = T.fresh("t")
    return a.fn(q) == q


def set_mask(a, i):
    """membership formula of i in the index array a."""
    a = lift(a)
    d = a.dims[0]
    if is_index_set(a):
        return T.band(T.le0(T.neg(i)), T.lt(i, d.n), d.mask(i) if d.mask else T.TRUE)
    fn = a.fn
    c = d.const()
    if c is not None:
        return T.bor(*[T.eq(ton(fn(T.C(j))), i) for j in range(c)])
    return T.mk_any(d.n, lambda j: T.band(d.mask(j) if d.mask else T.TRUE, T.eq(ton(fn(j)), i)))


def intersect1d(a, b):
    a, b = lift(a), lift(b)
    if not is_index_set(a):
        a, b = b, a
    if not is_index_set(a):
        raise Unsupported("intersect1d of general arrays")
    d = a.dims[0]
    return SArr((Dim(d.n, lambda i: T.band(d.mask(i) if d.mask else T.TRUE, set_mask(b, i))),), lambda i: i, "i")


def setdiff1d(a, b):
    a, b = lift(a), lift(b)
    if not is_index_set(a):
        raise Unsupported("setdiff1d of general arrays")
    d = a.dims[0]
    return SArr((Dim(d.n, lambda i: T.band(d.mask(i) if d.mask else T.TRUE, T.bnot(set_mask(b, i)))),), lambda i: i, "i")


def isin(a, b):
    return elementwise(lambda v: set_mask(b, ton(v)), a, kind="b")


# ------------------------------------------------------------------ symbolic sequences


class SList(Sym):
    """Symbolic-length python list: n items, item(k) python object."""

    __slots__ = ("n", "item", "kindname")

    def __init__(self, n, item, kindname="list"):
        self.n = n if isinstance(n, Poly) else num(n)
        self.item = item
        self.kindname = kindname

    @property
    def __class__(self):
        return tuple if self.kindname == "tuple" else list

    def __bool__(self):
        return decide(T.lt(T.ZERO, self.n))

    def __len__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("len of symbolic list")
        return int(c)

    def __iter__(self):
        c = self.n.const()
        if c is None:
            raise Unsupported("iteration over symbolic list outside of a transformed loop")
        return iter([self.item(T.C(k)) for k in range(int(c))])

    def __getitem__(self, k):
        if type(k) is slice:
            raise Unsupported("slice of a symbolic list")
        p = num(k)
        if p.const() is not None and p.const() < 0:
            p = T.add(self.n, p)
        check_bounds(p, Dim(self.n))
        return self.item(p)

    def __mul__(self, o):
        raise Unsupported("repetition of symbolic list")

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported("comparison of symbolic lists")

    def __hash__(self):
        return id(self)

    def __deepcopy__(self, memo):
        return self


register_symtype(SList)


class SRange(Sym):
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def as_list(self):
        return SList(T.sub(self.hi, self.lo), lambda k: SNum(T.add(self.lo, k), True))

    def __iter__(self):
        n = T.sub(self.hi, self.lo).const()
        if n is None:
            raise Unsupported("iteration over a symbolic range outside of a transformed loop")
        return iter([SNum(T.add(self.lo, T.C(k)), True) for k in range(int(n))])

    def __eq__(self, o):
        raise Unsupported("range comparison")

    def __hash__(self):
        return id(self)


register_symtype(SRange)


def as_slist(it):
    """Symbolic iterable -> SList or None when concrete."""
    t = type(it)
    if t is SList:
        return it
    if t is SRange:
        return it.as_list()
    if t is SArr:
        if it.dims[0].const() is not None:
            return None
        if it.dims[0].mask is not None:
            raise Unsupported("loop over a filtered array")
        arr = it
        return SList(arr.dims[0].n, lambda k: getitem_nocheck(arr, k))
    return None


def getitem_nocheck(arr, k):
    fn = arr.fn
    if arr.ndim == 1:
        return wrap(fn(k), isint=(arr.kind == "i") if arr.kind != "b" else None)
    return SArr(arr.dims[1:], None, arr.kind, base=arr, bmap=lambda idx: [k, *idx])
