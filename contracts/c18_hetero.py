"""Group and conditional effects: projections of the orthogonal signal."""
import numpy as _np
import pandas as _pd
from scipy.stats import norm as _norm

from vc.harness import contract

from . import models as MD
from .common import stub_random, values

_S = ["statsmodels OLS (coefficients solve the normal equations; covariance, intervals and predictions are those of its coefficients)", "scipy sqrtm (an arbitrary matrix)"]


class Res:
    """callee contract of a fitted OLS model"""

    def __init__(self, c, i, y, X, kw):
        self.y, self.X, self.kw, self.np = y, X, kw, c.np
        from vc import npmodel as N

        self.N = N
        self.k = k = len(list(X.columns))
        self.b = c.arr(f"beta{i}", k)
        V = c.arr(f"omega{i}", k, k)
        self.V = c.table((k, k), lambda p, q: V[p, q] + V[q, p])
        self.se = c.arr(f"bse{i}", k, kind="pos")

    params = property(lambda s: s.N.SSeries(s.b))
    bse = property(lambda s: s.N.SSeries(s.se))
    tvalues = property(lambda s: s.N.SSeries(s.b / s.se))
    pvalues = property(lambda s: s.N.SSeries(2 * (1 - s.N.NormProxy(_norm).cdf(s.np.abs(s.b / s.se)))))

    def cov_params(self):
        return self.N.SFrame(self.V)

    def conf_int(self, alpha=0.05):
        z = _norm.ppf(1 - alpha / 2)
        return self.N.SFrame(self.np.column_stack([self.b - z * self.se, self.b + z * self.se]))

    def predict(self, exog=None):
        X = self.X if exog is None else exog
        return self.N.SSeries(self.np.dot(X.values * 1.0, self.b))


def stub(c):
    """records the regressions; in the concrete reading statsmodels itself runs"""
    import doubleml.utils.blp as P

    log = []
    sm = c.target(P, "sm")
    real = sm.OLS

    class Proxy:
        OLS = None

    class OLS:
        def __init__(self, y, X, **k):
            self.a = (y, X, k)

        def fit(self, cov_type="nonrobust", **kw):
            y, X, k = self.a
            kw = dict(kw, cov_type=cov_type, **k)
            r = Res(c, len(log), y, X, kw) if c.symbolic else real(y, X, **k).fit(cov_type=cov_type, **{a: b for a, b in kw.items() if a != "cov_type" and a not in k})
            log.append((y, X, kw, r))
            return r

    Proxy.OLS = OLS
    c.patch(P, "sm", Proxy)
    if c.symbolic and hasattr(P, "sqrtm"):
        c.patch(P, "sqrtm", lambda V: c.arr("root", *V.shape))
    return log


def coefs(c, r):
    return (r.b, r.V, r.se) if c.symbolic else (r.params.to_numpy(), r.cov_params().to_numpy(), r.bse.to_numpy())


def blp(c, gate=False, k=2):
    from doubleml.utils.blp import DoubleMLBLP

    log = stub(c)
    n = c.n("n", 12)
    s = c.arr("signal", n)
    if gate:
        # k mutually exclusive groups
        np = c.np
        g, h = c.arr("g", n, kind="bool"), c.arr("h", n, kind="bool")
        no = np.logical_not(g)
        G = [g, no] if k == 2 else [g, np.logical_and(no, h), np.logical_and(no, np.logical_not(h))]
        X = c.frame(np.column_stack(G), ["Group_" + "abc"[j] for j in range(k)])
    else:
        X = c.frame(c.arr("basis", n, k), ["b1", "b2", "b3"][:k])
        g = None
    m = DoubleMLBLP(s, X, is_gate=gate)
    return m, log, s, X, g, n


def regression(c, log, s, X, kw):
    c.same("one regression", len(log), 1)
    y, Z, k, r = log[0]
    c.eq("response is the signal", y, s)
    c.same("regressors", list(Z.columns), list(X.columns))
    c.eq("regressor values", Z.values, X.values)
    c.same("covariance options", k, kw)
    return r


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.fit"], stubs=_S)
def projection(c):
    """the signal is regressed on the basis as given, with the requested covariance; the model and its covariance are that regression's"""
    m, log, s, X, g, n = blp(c, gate=c.choice("gate", [False, True]))
    kw = c.choice("cov", [{}, {"cov_type": "HC1"}, {"cov_type": "nonrobust", "use_t": True}])
    c.same("no regression before fit", log, [])
    c.raises("no intervals before fit", ValueError, m.confint)
    c.same("empty summary before fit", m.summary.shape[0], 0)
    c.same("fit returns the model", m.fit(**kw) is m, True)
    r = regression(c, log, s, X, {"cov_type": "HC0", **kw})
    c.same("reported model", m.blp_model is r, True)
    b, V, se = coefs(c, r)
    c.eq("reported covariance", m.blp_omega, V)
    c.eq("reported signal", m.orth_signal, s)
    c.eq("reported basis", m.basis.values, X.values)
    sm = m.summary
    c.same("summary columns", list(sm.columns), ["coef", "std err", "t", "P>|t|", "[0.025", "0.975]"])
    c.eq("summary estimates", sm["coef"].values, b)
    c.eq("summary errors", sm["std err"].values, se)
    ci = values(r.conf_int())
    c.eq("summary lower", sm["[0.025"].values, ci[:, 0])
    c.eq("summary upper", sm["0.975]"].values, ci[:, 1])
    if not c.symbolic:
        Z = _np.asarray(X.values, dtype=float)
        c.eq("normal equations", Z.T @ (s - Z @ b), _np.zeros(Z.shape[1]))


def limits(c, label, df, basis, b, V, z, level, index):
    np = c.np
    B = basis * 1.0
    eff = np.dot(B, b)
    se = np.sqrt(np.sum(np.dot(B, V) * B, axis=1))
    a = (1 - level) / 2
    v = values(df)
    c.same(f"{label} columns", list(df.columns), ["{:.1f} %".format(a * 100), "effect", "{:.1f} %".format((1 - a) * 100)])
    if index is not None:
        c.same(f"{label} rows", [str(x) for x in df.index], [str(x) for x in index])
    c.eq(f"{label} effect", v[:, 1], eff)
    if z is None:
        c.eq(f"{label} symmetric", v[:, 2] - v[:, 1], v[:, 1] - v[:, 0])
        return (v[:, 2] - v[:, 1]) / se
    c.eq(f"{label} limit lower", v[:, 0], eff - z * se)
    c.eq(f"{label} limit upper", v[:, 2], eff + z * se)


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def interval(c):
    """at every row of a new basis: projected effect -/+ normal quantile * standard error implied by the coefficient covariance"""
    k = c.choice("columns", [1, 2, 3])
    m, log, s, X, g, n = blp(c, k=k, gate=k > 1 and c.choice("gate", [False, True]))
    level = c.choice("level", [0.95, 0.9, 0.5])
    m.fit()
    b, V, se = coefs(c, log[0][3])
    q = c.n("q", 1)
    Q = c.frame(c.arr("at", q, k), list(X.columns))
    limits(c, "at", m.confint(Q, level=level), Q.values, b, V, _norm.ppf(1 - (1 - level) / 2), level, None)


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def groups(c):
    """group effects: one row per group in column order, the coefficients of the group dummies and their intervals"""
    k = c.choice("groups", [2, 3])
    m, log, s, X, g, n = blp(c, gate=True, k=k)
    level = c.choice("level", [0.95, 0.8])
    m.fit()
    b, V, se = coefs(c, log[0][3])
    df = m.confint(level=level)
    limits(c, "group", df, _np.eye(k), b, V, _norm.ppf(1 - (1 - level) / 2), level, list(X.columns))


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def means(c):
    """the reported effect of a group is the mean of the signal over that group (from the normal equations of the regression on the group dummies)"""
    k = c.choice("groups", [2, 3])
    j = c.choice("group", [0, 1, 2][:k])
    m, log, s, X, g, n = blp(c, gate=True, k=k)
    m.fit()
    b, V, se = coefs(c, log[0][3])
    np = c.np
    G = X.values * 1.0
    e = values(m.confint())[j, 1]
    res = np.sum(G[:, j] * (s - np.dot(G, b)))
    if c.symbolic:
        # contract of least squares: residuals are orthogonal to every regressor
        c.assume(res == 0)
    else:
        c.eq("normal equation", res, 0.0)
    c.eq("mean of the signal", e * np.sum(G[:, j]), np.sum(G[:, j] * s))


def _joint(c, gate):
    k = 2
    m, log, s, X, g, n = blp(c, gate=gate, k=k)
    level = 0.9
    m.fit()
    b, V, se = coefs(c, log[0][3])
    draws = stub_random(c)
    R = c.n("R", 1)
    if gate:
        B, Q = _np.eye(k), None
    else:
        at = c.choice("rows", [2, 3])
        Q = c.frame(c.arr("at", at, k), list(X.columns))
        B = Q.values
    df = m.confint(Q, joint=True, level=level, n_rep_boot=R)
    return k, b, V, draws, B, df, level


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def joint(c):
    """joint bands use the level quantile over draws of the largest absolute studentised deviation over the rows of the basis"""
    k, b, V, draws, B, df, level = _joint(c, False)
    np = c.np
    root = c.arr("root", k, k) if c.symbolic else _root(V)
    (kind, Z), = draws
    dev = np.dot(B, np.dot(root, Z))
    sd = np.sqrt(np.sum(np.dot(B, V) * B, axis=1))
    z = np.quantile(np.max(np.abs(dev / sd.reshape(-1, 1)), axis=0), level)
    limits(c, "joint", df, B, b, V, z, level, None)


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def joint_shape(c):
    """joint bands: centred at the projected effect, one critical value for all rows, from standard normal draws of the documented size"""
    k, b, V, draws, B, df, level = _joint(c, c.choice("groups", [False, True]))
    z = limits(c, "joint", df, B, b, V, None, level, None)
    c.same("one set of draws", len(draws), 1)
    c.same("normal draws", draws[0][0], "normal")
    c.same("draws per coefficient", draws[0][1].shape[0], k)
    for j in range(1, B.shape[0]):
        c.eq(f"common critical value {j}", z[j], z[0])


def _root(V):
    from scipy.linalg import sqrtm

    return sqrtm(V)


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP.confint"], stubs=_S)
def coefficients(c):
    """without a basis: intervals of the basis coefficients at the requested level"""
    m, log, s, X, g, n = blp(c)
    level = c.choice("level", [0.95, 0.8])
    m.fit()
    b, V, se = coefs(c, log[0][3])
    df = m.confint(level=level)
    v = values(df)
    z = _norm.ppf(1 - (1 - level) / 2)
    c.same("rows", list(df.index), list(X.columns))
    c.eq("effect", v[:, 1], b)
    c.eq("symmetric", v[:, 1] - v[:, 0], v[:, 2] - v[:, 1])
    c.same("columns", list(df.columns), ["{:.1f} %".format(100 * (1 - level) / 2), "effect", "{:.1f} %".format(100 * (1 + level) / 2)])
    c.eq("limits lower", v[:, 0], b - z * se)
    c.eq("limits upper", v[:, 2], b + z * se)


@contract("C18", targets=["doubleml.irm.irm.DoubleMLIRM.cate", "doubleml.irm.irm.DoubleMLIRM.gate", "doubleml.irm.apo.DoubleMLAPO.capo", "doubleml.irm.apo.DoubleMLAPO.gapo",
                          "doubleml.plm.plr.DoubleMLPLR.cate", "doubleml.plm.plr.DoubleMLPLR.gate"], stubs=_S, weight=4)
def from_model(c):
    """models project their own orthogonal signal: the score's psi_b (interactive models) or the partialled out outcome on basis times partialled out treatment"""
    log = stub(c)
    kind = c.choice("model", ["irm", "apo", "plr", "plr_iv"])
    what = c.choice("what", ["basis", "bool groups", "int groups"])
    kw = c.choice("cov", [{}, {"cov_type": "HC3"}])
    o = {"irm": lambda: MD.irm(c), "apo": lambda: MD.apo(c), "plr": lambda: MD.plr(c), "plr_iv": lambda: MD.plr(c, score="IV-type")}[kind]()
    n, np = o.n, c.np
    if what == "basis":
        X = c.frame(c.arr("basis", n, 2), ["b1", "b2"])
        m = o.m.capo(X, **kw) if kind == "apo" else o.m.cate(X, **kw)
    else:
        g = c.arr("g", n, kind="bool")
        G = np.column_stack([g, np.logical_not(g)])
        if what == "int groups":
            G = G.astype(int)
        X = c.frame(G, ["ga", "gb"])
        m = o.m.gapo(X, **kw) if kind == "apo" else o.m.gate(X, **kw)
    if kind in ("irm", "apo"):
        s, B = o.m.psi_elements["psi_b"][:, 0, 0], X.values * 1.0
    else:
        p = {k: v[:, 0, 0] for k, v in o.m.predictions.items()}
        d = o.d - p["ml_m"]
        s = o.y - (p["ml_l"] if kind == "plr" else o.m.coef[0] * p["ml_m"] + p["ml_g"])
        B = X.values * d.reshape(-1, 1)
    y, Z, k, r = log[0]
    c.same("one regression", len(log), 1)
    c.eq("signal", y, s)
    c.eq("basis", Z.values * 1.0, B)
    c.same("covariance options", k, {"cov_type": "HC0", **kw})
    c.same("names", list(m.basis.columns), list(X.columns))
    df = m.confint()
    c.same("rows", [str(x) for x in df.index], list(X.columns) if what != "basis" else ["b1", "b2"])
    if what != "basis":
        b, V, se = coefs(c, r)
        limits(c, "group", df, _np.eye(2), b, V, _norm.ppf(1 - 0.05 / 2), 0.95, list(X.columns))


@contract("C18", targets=["doubleml.utils.blp.DoubleMLBLP", "doubleml.irm.irm.DoubleMLIRM.gate", "doubleml.irm.apo.DoubleMLAPO.gapo", "doubleml.plm.plr.DoubleMLPLR.gate"], stubs=_S, samples=40)
def refused(c):
    """signals, bases, groups, levels and models the projection is not defined for are refused before any regression"""
    from doubleml.utils.blp import DoubleMLBLP

    f = _pd.DataFrame({"a": [0.0, 1.0, 2.0, 5.0], "b": [1.0, 0.0, 4.0, 1.0]})
    s = _np.array([1.0, -1.0, 2.0, 0.5])
    E = (TypeError, ValueError, NotImplementedError)
    k = c.choice("case", ["construct", "confint", "groups", "model"])
    if k == "construct":
        log = stub(c)
        for lab, a in {"list": ([1.0, -1.0], f), "2d": (s.reshape(-1, 1), f), "array": (s, f.to_numpy()), "duplicate": (s, f.set_axis(["a", "a"], axis=1))}.items():
            c.raises(lab, E, DoubleMLBLP, *a)
        c.same("no regression", log, [])
    elif k == "confint":
        m = DoubleMLBLP(s, f).fit()
        for lab, kw in {"joint": dict(joint=1), "level int": dict(level=1), "level 0": dict(level=0.0), "level 1": dict(level=1.0), "level > 1": dict(level=1.5), "boot float": dict(n_rep_boot=5.0), "boot 0": dict(n_rep_boot=0),
                        "columns": dict(basis=f[["a"]]), "order": dict(basis=f[["b", "a"]]), "names": dict(basis=f.rename(columns={"a": "x"}))}.items():
            c.raises(lab, E, m.confint, **kw)
    elif k == "groups":
        log = stub(c)
        kind = c.choice("model", ["irm", "apo", "plr"])
        o = {"irm": MD.irm, "apo": MD.apo, "plr": MD.plr}[kind](c)
        h = o.m.gapo if kind == "apo" else o.m.gate
        for lab, g in {"array": f.to_numpy(), "number": 3, "real columns": f, "mixed": _pd.DataFrame({"a": [True, False], "b": [0.3, 1.0]}), "strings": _pd.DataFrame({"a": ["x", "y"], "b": ["z", "w"]})}.items():
            c.raises(lab, E, h, g)
        c.same("no regression", log, [])
    else:
        log = stub(c)
        kind = c.choice("model", ["irm", "apo", "plr", "ATTE"])
        o = {"irm": lambda: MD.irm(c, R=2), "apo": lambda: MD.apo(c, R=2), "plr": lambda: MD.plr(c, R=2), "ATTE": lambda: MD.irm(c, score="ATTE")}[kind]()
        g = c.frame(c.arr("gg", o.n, 2, kind="bool"), ["a", "b"])
        x = c.frame(c.arr("bb", o.n, 2), ["a", "b"])
        c.raises("groups", E, o.m.gapo if kind == "apo" else o.m.gate, g)
        c.raises("basis", E, o.m.capo if kind == "apo" else o.m.cate, x)
        c.same("no regression", log, [])
