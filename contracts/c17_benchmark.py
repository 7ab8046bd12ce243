"""Benchmarking: gain statistics of the full against the reduced model."""
import copy

import numpy as _np

from vc.harness import contract

from .common import NS, values

_G = ["doubleml.utils.gain_statistics.gain_statistics"]


def _el(c, name, J, R):
    return {"sigma2": c.arr(name + "s2", 1, J, R, kind="pos"), "nu2": c.arr(name + "nu2", 1, J, R, kind="pos")}


def _model(y, e, th):
    return NS(framework=NS(sensitivity_elements=e), all_coef=th, _dml_data=NS(y=y))


def expected(np, var_y, ls, ln, ss, sn, tl, ts):
    """documented gains of one repetition (arrays over parameters)"""
    r2l, r2s = 1 - ls / var_y, 1 - ss / var_y
    cf_y = np.clip((r2l - r2s) / (1 - r2l), 0, 1)
    rr = sn / ln
    cf_d = np.clip((1 - rr) / rr, 0, 1)
    delta = ts - tl
    both = np.logical_and(ss > ls, ln > sn)
    dn = np.where(both, np.sqrt(np.where(both, (ss - ls) * (ln - sn), 1.0)), 1.0)
    rho = np.where(both, np.sign(delta) * np.clip(np.abs(delta) / dn, 0, 1), np.sign(delta))
    return cf_y, cf_d, rho, delta


_K = ["cf_y", "cf_d", "rho", "delta_theta"]


@contract("C17", targets=_G, weight=3)
def gains(c):
    """clipped relative changes in residual and representer variation, implied correlation, change in the estimate; median over repetitions"""
    f = c.target(_G[0])
    R, J = c.choice("repetitions", [1, 2]), c.n("J", 1)
    j = c.int("j", 0, J - 1)  # an arbitrary parameter
    n = c.n("n", 2)
    y = c.arr("y", n)
    np = c.np
    var_y = np.mean((y - np.mean(y)) ** 2)
    c.assume(var_y > 0)
    L, S = _el(c, "long_", J, R), _el(c, "short_", J, R)
    tl, ts = c.arr("long", J, R), c.arr("short", J, R)
    for r in range(R):
        c.split(c.land(S["sigma2"][0, j, r] > L["sigma2"][0, j, r], L["nu2"][0, j, r] > S["nu2"][0, j, r]))
        c.split(ts[j, r] > tl[j, r])
    got = f(_model(y, L, tl), _model(y, S, ts))
    c.same("reported statistics", sorted(got), sorted(_K))
    per = [expected(np, var_y, L["sigma2"][0, j, r], L["nu2"][0, j, r], S["sigma2"][0, j, r], S["nu2"][0, j, r], tl[j, r], ts[j, r]) for r in range(R)]
    for q, k in enumerate(_K):
        v = per[0][q]
        for r in range(1, R):
            v = v + per[r][q]
        c.eq(k, got[k][j], v / R)
    if R == 2:
        return  # averages of these
    for k in ("cf_y", "cf_d"):
        c.true(f"{k} is nonnegative", got[k][j] >= 0)
        c.true(f"{k} is at most one", got[k][j] <= 1)
    c.true("the implied correlation lies in [-1, 1]", np.abs(got["rho"][j]) <= 1)


@contract("C17", targets=_G)
def same_model(c):
    """the same model twice: no gain, no change"""
    f = c.target(_G[0])
    J, R, n = c.n("J", 1), c.choice("repetitions", [1, 2]), c.n("n", 2)
    y = c.arr("y", n)
    c.assume(c.np.mean((y - c.np.mean(y)) ** 2) > 0)
    m = _model(y, _el(c, "m_", J, R), c.arr("th", J, R))
    got = f(m, m)
    for k in _K:
        c.eq(k, got[k], c.np.zeros(J))


@contract("C17", targets=_G)
def malformed(c):
    """models without suitable sensitivity elements or estimates are refused"""
    f = c.target(_G[0])
    J, R = 2, 3
    a = lambda *s: _np.full(s, 0.5)  # noqa: E731
    ok = lambda: {"sigma2": a(1, J, R), "nu2": a(1, J, R)}  # noqa: E731
    good = lambda: _model(a(4), ok(), a(J, R))  # noqa: E731
    which = c.choice("model", ["long", "short"])
    key = c.choice("element", ["sigma2", "nu2"])
    how = c.choice("malformed", ["none", "type", "missing", "not array", "two dimensions", "first dimension", "shape", "coefficients", "coefficient shape"])
    bad = good()
    e = bad.framework.sensitivity_elements
    err = ValueError
    if how == "none":
        bad.framework.sensitivity_elements, err = None, TypeError
    elif how == "type":
        bad.framework.sensitivity_elements, err = [1.0], TypeError
    elif how == "missing":
        del e[key]
    elif how == "not array":
        e[key], err = 1.0, TypeError
    elif how == "two dimensions":
        e[key] = a(J, R)
    elif how == "first dimension":
        e[key] = a(2, J, R)
    elif how == "shape":
        e[key] = a(1, J, R + 1)
    elif how == "coefficients":
        bad.all_coef, err = [0.5], TypeError
    else:
        bad.all_coef = a(R, J)
    args = (bad, good()) if which == "long" else (good(), bad)
    c.raises("refused", err, f, *args)


# ---------------------------------------------------------------- the refit


def _fitted(c, kind, rng, dx, R, K=2):
    import doubleml as dml
    import pandas as pd
    from sklearn.linear_model import LinearRegression, LogisticRegression

    n = 60
    X = rng.normal(size=(n, 4))
    cols = ["u", "v", "w", "q"]
    df = pd.DataFrame(X, columns=cols)
    df["y"] = X @ [1.0, -1.0, 0.5, 0.2] + rng.normal(size=n)
    binary = kind != "plr"
    for j in range(dx):
        df[f"d{j}"] = (_np.tile([0.0, 1.0], n // 2) if binary and kind != "apos" else _np.tile([0.0, 1.0, 2.0], n // 3)) if binary else X[:, j] + rng.normal(size=n)
    dcols = [f"d{j}" for j in range(dx)]
    perms = [rng.permutation(n) for _ in range(R)]
    sm = [[(_np.sort(p[30:]), _np.sort(p[:30])), (_np.sort(p[:30]), _np.sort(p[30:]))] for p in perms]
    if kind in ("irm", "apo", "apos"):
        L = LogisticRegression(C=0.5)
    else:
        L = LinearRegression()

    def make(xc):
        dd = dml.DoubleMLData(df.copy(), "y", dcols if dx > 1 else dcols[0], x_cols=xc)
        lin = LinearRegression()
        if kind == "plr":
            m = dml.DoubleMLPLR(dd, lin, lin, n_folds=2, draw_sample_splitting=False)
        elif kind == "irm":
            m = dml.DoubleMLIRM(dd, lin, L, n_folds=2, draw_sample_splitting=False, trimming_threshold=0.05)
        elif kind == "apo":
            m = dml.DoubleMLAPO(dd, lin, L, treatment_level=1.0, n_folds=2, draw_sample_splitting=False, trimming_threshold=0.05)
        else:
            m = dml.DoubleMLAPOS(dd, lin, L, treatment_levels=[2.0, 0.0], n_folds=2, draw_sample_splitting=False, trimming_threshold=0.05)
        m.set_sample_splitting(sm)
        return m

    return make, cols, df, dcols


def _state(m):
    return repr([m.all_coef.tolist(), m.all_se.tolist(), {k: v.tolist() for k, v in m.framework.sensitivity_elements.items()}, m._dml_data.x_cols, m._dml_data.x.tolist(), values(m.confint()).tolist()])


@contract("C17", targets=["doubleml.double_ml.DoubleML.sensitivity_benchmark", "doubleml.irm.apos.DoubleMLAPOS.sensitivity_benchmark"], mode="bounded", samples=45, weight=2,
          why_bounded="refits a deep copy on another data frame; concrete data and scikit-learn learners")
def refit(c):
    """the reduced model is the same model, same splitting, without the chosen covariates; the original is untouched"""
    rng = c.rng
    kind = c.choice("model", ["plr", "irm", "apo", "apos"])
    dx = c.choice("treatments", [1, 2]) if kind == "plr" else 1
    R = c.choice("repetitions", [1, 2, 3])
    make, cols, df, dcols = _fitted(c, kind, rng, dx, R)
    drop = c.choice("benchmark set", [["v"], ["q", "u"], ["u", "v", "w"]])
    m = make(cols)
    m.fit()
    before = _state(m)
    out = m.sensitivity_benchmark(drop)
    c.same("original model unchanged", _state(m) == before, True)
    short = make([x for x in cols if x not in drop])
    short.fit()
    L, S = m.framework.sensitivity_elements, short.framework.sensitivity_elements
    per = [expected(_np, _np.var(df["y"].values), L["sigma2"][0, :, r], L["nu2"][0, :, r], S["sigma2"][0, :, r], S["nu2"][0, :, r], m.all_coef[:, r], short.all_coef[:, r]) for r in range(R)]
    for q, k in enumerate(_K):
        c.eq(k, out[k].values, _np.median(_np.stack([p[q] for p in per], axis=1), axis=1))
    c.same("one row per treatment", list(out.index), dcols if kind != "apos" else [2.0, 0.0])
    for bad, err in (("v", TypeError), ([], ValueError), (["nope"], ValueError), (["y"], ValueError)):
        c.raises(f"benchmarking set {bad!r} refused", err, m.sensitivity_benchmark, bad)
    c.raises("fit arguments refused", TypeError, m.sensitivity_benchmark, ["v"], fit_args=[True])


@contract("C17", targets=["doubleml.double_ml.DoubleML.sensitivity_benchmark", "doubleml.irm.apos.DoubleMLAPOS.sensitivity_benchmark"], samples=12,
          stubs=["fit (any estimates and sensitivity elements)", "gain_statistics (own contract: gains)"])
def refit_protocol(c):
    """benchmarking fits one deep copy, with the remaining covariates in their order, the same splitting
    and the given fit arguments, and reports the gains of the original over that copy, whatever the fits
    result in; the original keeps its data, splitting and results"""
    kind = c.choice("model", ["plr", "irm", "apo", "apos"])
    dx = c.choice("treatments", [1, 2]) if kind == "plr" else 1
    drop = c.choice("benchmark set", [["v"], ["q", "u"], ["u", "v", "w", "q"][:3]])
    args = c.choice("fit_args", [None, {}, {"n_jobs_cv": 1, "store_predictions": False}])
    make, cols, df, dcols = _fitted(c, kind, _np.random.RandomState(5), dx, 1)
    order = c.choice("order", [1, -1])
    m = make(cols[::order])
    J = 2 if kind == "apos" else dx
    np = c.np
    L, S, tl, ts = _el(c, "long_", J, 1), _el(c, "short_", J, 1), c.arr("long", J, 1), c.arr("short", J, 1)

    def give(o, e, th):
        o._framework = NS(sensitivity_elements=e, all_thetas=th)
        if kind != "apos":
            o._all_coef, o._sensitivity_elements = th, {"sigma2": None}

    give(m, L, tl)
    before = [m._dml_data.x_cols, m._dml_data.x.tolist(), m._dml_data.d_cols, repr(m._smpls)]
    calls = []

    def fit(self, *a, **k):
        calls.append((self, a, k, list(self._dml_data.x_cols), self._dml_data.x.shape[1], repr(self._smpls)))
        if kind == "apos":
            calls[-1] += (all(x._dml_data.x_cols == self._dml_data.x_cols for x in self._modellist),)
        give(self, S, ts)
        return self

    mod = c.target("doubleml.irm.apos") if kind == "apos" else c.target("doubleml.double_ml")
    c.patch(mod.DoubleMLAPOS if kind == "apos" else mod.DoubleML, "fit", fit)
    gains = {key: c.arr("gain_" + key, J) for key in _K}
    asked = []

    def gain_statistics(dml_long, dml_short):
        asked.append((dml_long, dml_short))
        return gains

    if c.symbolic:
        c.patch(mod, "gain_statistics", gain_statistics)
    out = m.sensitivity_benchmark(drop) if args is None and c.choice("omitted", [False, True]) else m.sensitivity_benchmark(drop, fit_args=args)
    c.same("one refit", len(calls), 1)
    if len(calls) != 1:
        return
    o, a, k, xc, px, sm = calls[0][:6]
    c.same("of another object of the same class", o is not m and type(o) is type(m), True)
    c.same("with the given arguments", (a, k), ((), args or {}))
    c.same("on the remaining covariates", xc, [x for x in cols[::order] if x not in drop])
    c.same("covariate matrix without the dropped columns", px, len(xc) + (dx - 1))
    c.same("on the same splitting", sm, before[3])
    if kind == "apos":
        c.same("in every component model", calls[0][6], True)
        c.same("components are copies", all(x is not y for x, y in zip(o._modellist, m._modellist)), True)
    c.same("original keeps data and splitting", [m._dml_data.x_cols, m._dml_data.x.tolist(), m._dml_data.d_cols, repr(m._smpls)] == before, True)
    c.same("original keeps its results", m._framework.sensitivity_elements is L and m._framework.all_thetas is tl, True)
    if c.symbolic:
        c.same("gains of the original over the copy", len(asked) == 1 and asked[0][0] is m and asked[0][1] is o, True)
    want = [gains[key] for key in _K] if c.symbolic else expected(np, float(_np.var(df["y"].values)), L["sigma2"][0, :, 0], L["nu2"][0, :, 0], S["sigma2"][0, :, 0], S["nu2"][0, :, 0], tl[:, 0], ts[:, 0])
    c.same("columns", list(out.columns), _K)
    c.same("one row per treatment", list(out.index), dcols if kind != "apos" else [2.0, 0.0])
    for q, key in enumerate(_K):
        for j in range(J):
            c.eq(f"{key} in row {j}", values(out[key])[j], want[q][j])


@contract("C17", targets=_G, weight=2)
def gains_repetitions(c):
    """any number of repetitions: each statistic is the median over the repetitions of that of the repetition"""
    f = c.target(_G[0])
    R, J, n = c.n("R", 1), c.n("J", 1), c.n("n", 2)
    j = c.int("j", 0, J - 1)  # an arbitrary parameter
    y = c.arr("y", n)
    np = c.np
    var_y = np.mean((y - np.mean(y)) ** 2)
    c.assume(var_y > 0)
    L, S = _el(c, "long_", J, R), _el(c, "short_", J, R)
    tl, ts = c.arr("long", J, R), c.arr("short", J, R)
    got = f(_model(y, L, tl), _model(y, S, ts))
    ls, ln, ss, sn = (e[k][0, j, :] for e in (L, S) for k in ("sigma2", "nu2"))
    dth = ts[j, :] - tl[j, :]
    c.eq("delta_theta", got["delta_theta"][j], np.median(dth))
    c.eq("cf_y", got["cf_y"][j], np.median(np.clip((1 - ls / var_y - (1 - ss / var_y)) / (1 - (1 - ls / var_y)), 0, 1)))
    c.eq("cf_d", got["cf_d"][j], np.median(np.clip((1 - sn / ln) / (sn / ln), 0, 1)))
    vg, vr = ss - ls, ln - sn
    den = np.sqrt(vg * vr, out=np.zeros_like(vg), where=(vg > 0) & (vr > 0))
    size = np.divide(np.abs(dth), den, out=np.ones_like(dth), where=den != 0)
    c.eq("rho", got["rho"][j], np.median(np.clip(size, 0.0, 1.0) * np.sign(dth)))
