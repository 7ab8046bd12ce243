"""Shared builders.  Objects are built through the public constructors; in the
symbolic reading the data arrays of the finished object are then replaced by
symbolic ones (arbitrary content, arbitrary number of observations)."""
import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from vc.errors import SkipSample, TargetMissing  # noqa: F401


class Reg(RegressorMixin, BaseEstimator):
    def __init__(self, a=0.0):
        self.a = a

    def fit(self, X, y, sample_weight=None):
        self.m_ = float(np.mean(y))
        return self

    def predict(self, X):
        return np.full(X.shape[0], self.m_)


class Clf(ClassifierMixin, BaseEstimator):
    def __init__(self, a=0.0):
        self.a = a

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.array([0.0, 1.0])
        self.m_ = float(np.mean(y))
        return self

    def predict_proba(self, X):
        return np.column_stack([np.full(X.shape[0], 1 - self.m_), np.full(X.shape[0], self.m_)])

    def predict(self, X):
        return (self.predict_proba(X)[:, 1] > 0.5).astype(float)


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


_FIX = np.random.RandomState(7)
_N = 60
_X = _FIX.normal(size=(_N, 3))
_Y = _FIX.normal(size=_N)
_B = np.tile([0.0, 1.0], _N // 2)
_B2 = np.tile([0.0, 0.0, 1.0, 1.0], _N // 4)


class _V:
    def __init__(self, a):
        self.values = a


def data(c, n, y=None, d=None, x=None, z=None, t=None, s=None, p=2, binary_d=False, binary_y=False, cluster=None, binary_z=False, names=None):
    """DoubleMLData whose arrays are the given ones.  d, z: list of 1-d arrays."""
    import doubleml as dml

    if x is None:
        x = c.arr("x", n, p)
    d = list(d)
    k = len(d)
    if not c.symbolic:
        D = np.column_stack([np.asarray(v, dtype=float) for v in d])
        Z = None if z is None else np.column_stack([np.asarray(v, dtype=float) for v in z])
        kw = dict(x=np.asarray(x), y=np.asarray(y), d=D if k > 1 else D[:, 0])
        if Z is not None:
            kw["z"] = Z if Z.shape[1] > 1 else Z[:, 0]
        if cluster is not None:
            kw["cluster_vars"] = np.column_stack([np.asarray(v) for v in cluster])
            return dml.DoubleMLClusterData.from_arrays(**kw)
        if t is not None:
            kw["t"] = np.asarray(t)
        if s is not None:
            kw["s"] = np.asarray(s)
        obj = dml.DoubleMLData.from_arrays(**kw)
        # integer columns stay integer columns
        for cols, vals in (([obj.y_col], [y]), (obj.d_cols, d), (obj.z_cols or [], z or [])):
            for cname, v in zip(cols, vals):
                if np.asarray(v).dtype.kind == "i":
                    obj._data[cname] = np.asarray(v)
        obj._set_y_z_t_s()
        obj.set_x_d(obj.d_cols[0])
        # a sample may by chance hold one arm (or two values) only; the flags are about the variables
        for cname in obj.d_cols:
            obj._binary_treats[cname] = binary_d
        obj._binary_outcome = binary_y
        return obj
    pp = x.shape[1] if isinstance(x.shape[1], int) and not type(x.shape[1]).__name__ == "SNum" else 2
    base = np.random.RandomState(3).normal(size=(_N, pp))
    D0 = np.column_stack([_B if binary_d else _FIX.normal(size=_N) for _ in d])
    kw = dict(x=base, y=_B2 if binary_y else _Y, d=D0 if k > 1 else D0[:, 0])
    if z is not None:
        Z0 = np.column_stack([_B2 if binary_z else _FIX.normal(size=_N) for _ in z])
        kw["z"] = Z0 if len(z) > 1 else Z0[:, 0]
    if t is not None:
        kw["t"] = _B2
    if s is not None:
        kw["s"] = _B2 * 1.0
    if cluster is not None:
        kw["cluster_vars"] = np.column_stack([np.repeat(np.arange(_N // 4), 4), np.tile(np.arange(4), _N // 4)][: len(cluster)])
        obj = dml.DoubleMLClusterData.from_arrays(**kw)
    else:
        obj = dml.DoubleMLData.from_arrays(**kw)
    cls = type(obj)

    def set_x_d(self, treatment_var):
        j = self.d_cols.index(treatment_var)
        self._d = _V(d[j])
        # the other treatments are covariates (C14)
        self._X = _V(x) if self.n_treat == 1 else _V(c.np.column_stack([x] + [v for q, v in enumerate(d) if q != j]))

    sub = type(
        cls.__name__,
        (cls,),
        dict(
            __module__=cls.__module__,
            n_obs=property(lambda self: n),
            x=property(lambda self: self._X.values),
            y=property(lambda self: self._y.values),
            d=property(lambda self: self._d.values),
            z=property(lambda self: None if self.z_cols is None else self._z.values),
            t=property(lambda self: None if self.t_col is None else self._t.values),
            s=property(lambda self: None if self.s_col is None else self._s.values),
            set_x_d=set_x_d,
        ),
    )
    obj.__class__ = sub
    obj._y = _V(y)
    obj._d = _V(d[0])
    obj._X = _V(x)
    if z is not None:
        obj._z = _V(c.np.column_stack(z) if len(z) > 1 else z[0].reshape(-1, 1))
    if t is not None:
        obj._t = _V(t)
    if s is not None:
        obj._s = _V(s)
    if cluster is not None:
        obj._cluster_vars = _V(c.np.column_stack(cluster) if len(cluster) > 1 else cluster[0].reshape(-1, 1))
    return obj


def close(c, a, b):
    return a == b


def npmean(c, x, axis=None):
    return c.np.mean(x, axis=axis)


def col(c, dims, f):
    return c.table(dims, f)


def framework(c, name="", n=None, J=2, R=2, vs=None, sens=False, bench=False, treat=None, cluster=None):
    """A DoubleMLFramework over arbitrary arrays (the class invariant is only
    the documented shapes and nonnegative standard errors)."""
    from doubleml import DoubleMLFramework

    n = c.n("n", 2) if n is None else n
    dd = {
        "thetas": c.arr(name + "thetas", J),
        "ses": c.arr(name + "ses", J, kind="pos"),
        "all_thetas": c.arr(name + "all_thetas", J, R),
        "all_ses": c.arr(name + "all_ses", J, R, kind="pos"),
        "var_scaling_factors": c.arr(name + "vs", J, kind="pos") if vs is None else vs,
        "scaled_psi": c.arr(name + "psi", n, J, R),
        "is_cluster_data": False,
    }
    if sens:
        dd["sensitivity_elements"] = {
            "max_bias": c.arr(name + "mb", 1, J, R, kind="nonneg"),
            "psi_max_bias": c.arr(name + "pmb", n, J, R),
        }
        if bench:
            dd["sensitivity_elements"]["sigma2"] = c.arr(name + "sigma2", 1, J, R, kind="pos")
            dd["sensitivity_elements"]["nu2"] = c.arr(name + "nu2", 1, J, R, kind="pos")
    if treat is not None:
        dd["treatment_names"] = treat
    if cluster is not None:
        dd["is_cluster_data"] = True
        dd["cluster_dict"] = cluster
    return DoubleMLFramework(dd), dd, n


def values(x):
    """array behind a (modelled) DataFrame/Series"""
    return x.values if hasattr(x, "values") else x


def stub_random(c):
    """np.random.normal / exponential replaced by arbitrary draws; records them."""
    draws = []

    def mk(kind):
        def f(loc=0.0, scale=1.0, size=None):
            if kind == "exponential":
                scale, loc = (loc if loc != 0.0 else scale), 0.0
            nm = f"draw{len(draws)}"
            a = c.arr(nm, *size) if kind == "normal" else c.arr(nm, *size, kind="nonneg")
            draws.append((kind, a))
            if (loc, scale) != (0.0, 1.0):
                a = loc + scale * a
            return a

        return f

    if c.symbolic:
        from vc import npmodel

        tgt = npmodel.RANDOM
    else:
        tgt = np.random
    for k in ("normal", "exponential"):
        c.patch(tgt, k, mk(k))
    return draws


class Delegate:
    """stands for a model's inference object: remembers how it was asked (arguments by the names and
    defaults of the real method) and answers with the given value"""

    def __init__(self, cls, method, answer, **attrs):
        import inspect

        self.calls = []
        self.__dict__.update(attrs)
        sig = inspect.signature(getattr(cls, method))

        def f(*a, **k):
            b = sig.bind(self, *a, **k)
            b.apply_defaults()
            self.calls.append({q: v for q, v in b.arguments.items() if q != "self"})
            return answer

        setattr(self, method, f)


def delegation(c, method, kwargs, returns, kinds=("plr", "irm", "apos", "qte")):
    """`method` of a model refuses without an inference object, otherwise asks it exactly once with
    the arguments given (defaults: the documented ones) and hands on its answer"""
    import inspect

    from .c12_propensity import construct

    kind = c.choice("model", list(kinds))
    m = construct(kind)
    from doubleml.double_ml_framework import DoubleMLFramework

    c.raises(f"{method} without a fit", ValueError, getattr(m, method))
    how = c.choice("arguments", ["defaults", "all", "positional"])
    answer = returns()
    fw = Delegate(DoubleMLFramework, method, answer)
    m._framework = fw
    f = getattr(m, method)
    names = [q for q in inspect.signature(f).parameters]
    if how == "defaults":
        got, want = f(), {q: p.default for q, p in inspect.signature(getattr(DoubleMLFramework, method)).parameters.items() if q != "self"}
    elif how == "all":
        got, want = f(**kwargs), dict(kwargs)
    else:
        got, want = f(*[kwargs[q] for q in names]), dict(kwargs)
    c.same("asked once", len(fw.calls), 1)
    if len(fw.calls) == 1:
        ok = set(fw.calls[0]) == set(want) and all(fw.calls[0][q] is want[q] or fw.calls[0][q] == want[q] for q in want)
        c.same("with the given arguments", ok or (fw.calls[0], want), True)
    return m, got, answer
