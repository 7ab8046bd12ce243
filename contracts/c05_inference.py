"""Confidence intervals, t-statistics and p-values."""
from scipy.stats import norm as _norm

from vc.harness import contract

from .c02_estimate import stub_fit
from .common import delegation, framework, values


def _norm_of(c):
    if not c.symbolic:
        return _norm
    from vc import npmodel

    return npmodel.NormProxy(_norm)


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def pointwise_interval(c):
    """theta -/+ z_{1-(1-level)/2} * se, median over repetitions"""
    J, R = c.choice("J", [1, 3]), c.choice("R", [1, 2])
    level = c.choice("level", [0.95, 0.5, 0.9])
    fw, dd, n = framework(c, J=J, R=R)
    ci = values(fw.confint(level=level))
    z = _norm.ppf(1 - (1 - level) / 2)
    np = c.np
    th, se = dd["all_thetas"], dd["all_ses"]
    for j in range(J):
        c.eq(f"lower bound {j}", ci[j, 0], np.median(th[j, :] - z * se[j, :]))
        c.eq(f"upper bound {j}", ci[j, 1], np.median(th[j, :] + z * se[j, :]))
    if R == 1:
        for j in range(J):
            c.true(f"point estimate inside {j}", c.land(ci[j, 0] <= th[j, 0], th[j, 0] <= ci[j, 1]))
            c.eq(f"symmetric {j}", ci[j, 0] + ci[j, 1], 2 * th[j, 0])


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.all_pvals"])
def statistics(c):
    J, R = c.n("J", 1), c.n("R", 1)
    fw, dd, n = framework(c, J=J, R=R)
    np, N = c.np, _norm_of(c)
    c.eq("t statistic", fw.t_stats, dd["thetas"] / dd["ses"])
    t = dd["all_thetas"] / dd["all_ses"]
    c.eq("t statistic per repetition", fw.all_t_stats, t)
    p = 2 * (1 - N.cdf(np.abs(t)))
    c.eq("two-sided p-value per repetition", fw.all_pvals, p)
    c.eq("p-value is the median over repetitions", fw.pvals, np.median(p, axis=1))


@contract("C05", targets=["doubleml.double_ml.DoubleML.fit", "doubleml.double_ml.DoubleML.confint"], stubs=["_nuisance_est (arbitrary score elements)"], weight=5)
def model_reports_framework(c):
    """coef/se/t/p/confint of a fitted model agree with its own estimates"""
    R, J = c.choice("R", [1, 2]), 2
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    for j in range(J):
        for r in range(R):
            c.assume(m.all_se[j, r] > 0)
        c.assume(m.se[j] > 0)
    np, N = c.np, _norm_of(c)
    c.eq("t statistic", m.t_stat, m.coef / m.se)
    c.eq("p-value", m.pval, 2 * (1 - N.cdf(np.abs(m.coef / m.se))))
    level = c.choice("level", [0.9, 0.95])
    ci = values(m.confint(level=level))
    z = _norm.ppf(1 - (1 - level) / 2)
    for j in range(J):
        c.eq(f"lower {j}", ci[j, 0], np.median(m.all_coef[j, :] - z * m.all_se[j, :]))
        c.eq(f"upper {j}", ci[j, 1], np.median(m.all_coef[j, :] + z * m.all_se[j, :]))


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def level_monotone(c):
    """a higher level gives a wider interval"""
    fw, dd, n = framework(c, J=2, R=1)
    l0, l1 = c.choice("levels", [(0.5, 0.8), (0.9, 0.95), (0.95, 0.99)])
    a, b = values(fw.confint(level=l0)), values(fw.confint(level=l1))
    for j in range(2):
        c.true(f"nested {j}", c.land(b[j, 0] <= a[j, 0], a[j, 1] <= b[j, 1]))


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def inadmissible_level(c):
    fw, dd, n = framework(c, J=1, R=1)
    v = c.choice("level", [0.0, 1.0, -0.1, 1.5])
    c.raises("level outside (0,1) is rejected", ValueError, fw.confint, level=v)
    c.raises("non-float level is rejected", TypeError, fw.confint, level=1)
    c.raises("non-bool joint is rejected", TypeError, fw.confint, joint=1)
    c.raises("joint needs bootstrap", ValueError, fw.confint, joint=True)


def check_table(c, tab, names, coef, se, t, p, ci):
    """one row per parameter in order, labelled; the same numbers as the attributes"""
    v = values(tab)
    c.same("row labels", list(tab.index) if tab.index is not None else list(range(v.shape[0])), list(names))
    c.same("columns of estimate, error, t and p", list(tab.columns)[:4], ["coef", "std err", "t", "P>|t|"])
    c.same("two limits", len(list(tab.columns)), 6)
    for j in range(len(names)):
        for k, (lab, x) in enumerate([("estimate", coef[j]), ("standard error", se[j]), ("t statistic", t[j]), ("p-value", p[j]), ("lower limit", ci[j][0]), ("upper limit", ci[j][1])]):
            c.eq(f"{lab} in row {j}", v[j, k], x)


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.summary", "doubleml.utils._descriptive.generate_summary"])
def summary_framework(c):
    """summary tables of combined results, quantile effects and potential outcomes: 95 % limits of the framework"""
    import doubleml as dml
    from doubleml.irm import apos, qte

    J, R = c.choice("J", [1, 3]), c.choice("R", [1, 2])
    fw, dd, n = framework(c, J=J, R=R)
    np, N = c.np, _norm_of(c)
    t = dd["all_thetas"] / dd["all_ses"]
    p = np.median(2 * (1 - N.cdf(np.abs(t))), axis=1)
    z = _norm.ppf(0.975)
    ci = [[np.median(dd["all_thetas"][j, :] + s * z * dd["all_ses"][j, :]) for s in (-1, 1)] for j in range(J)]
    kind = c.choice("table of", ["framework", "named framework", "quantile effects", "potential outcomes"])
    names = list(range(J))
    if kind == "framework":
        o = fw
    elif kind == "named framework":
        names = ["b", "a", "c"][:J]
        o = fw
        o.treatment_names = names
    elif kind == "quantile effects":
        o = dml.DoubleMLQTE.__new__(c.target("doubleml.irm.qte").DoubleMLQTE)
        names = [0.75, 0.25, 0.5][:J]
        import numpy

        o._quantiles, o._framework = numpy.array(names), fw
    else:
        o = dml.DoubleMLAPOS.__new__(c.target("doubleml.irm.apos").DoubleMLAPOS)
        names = [2, 0, 1][:J]
        o._treatment_levels, o._framework = names, fw
    check_table(c, o.summary, names, dd["thetas"], dd["ses"], dd["thetas"] / dd["ses"], p, ci)


@contract("C05", targets=["doubleml.double_ml.DoubleML.summary"], stubs=["_nuisance_est (arbitrary score elements)"], weight=5)
def summary_model(c):
    """the summary table of a fitted model reports the fitted numbers with 95 % limits; before a fit it is empty"""
    R, J = c.choice("R", [1, 2]), 2
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    c.same("empty before the fit", len(m.summary.index), 0)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    for j in range(J):
        for r in range(R):
            c.assume(m.all_se[j, r] > 0)
        c.assume(m.se[j] > 0)
    N, np = _norm_of(c), c.np
    z = _norm.ppf(0.975)
    ci = [[np.median(m.all_coef[j, :] + s * z * m.all_se[j, :]) for s in (-1, 1)] for j in range(J)]
    t = [m.coef[j] / m.se[j] for j in range(J)]
    check_table(c, m.summary, dd.d_cols, m.coef, m.se, t, [2 * (1 - N.cdf(abs(x))) for x in t], ci)


@contract("C05", targets=["doubleml.double_ml.DoubleML.confint", "doubleml.irm.apos.DoubleMLAPOS.confint", "doubleml.irm.qte.DoubleMLQTE.confint"], stubs=["DoubleMLFramework.confint (any table)"])
def wrappers(c):
    """intervals of a model are those of its inference object, labelled by treatment, level or quantile"""
    import pandas as pd

    def table():
        return pd.DataFrame([[1.0, 2.0]] * 2, columns=["2.5 %", "97.5 %"])

    m, got, ans = delegation(c, "confint", {"joint": True, "level": 0.7}, table, kinds=("apos",))
    c.same("table", got.values.tolist(), [[1.0, 2.0]] * 2)
    c.same("labels", list(got.index), [0.0, 1.0])


@contract("C05", targets=["doubleml.double_ml.DoubleML.confint", "doubleml.irm.qte.DoubleMLQTE.confint"], stubs=["DoubleMLFramework.confint (any table)"])
def wrappers_single(c):
    import pandas as pd

    m, got, ans = delegation(c, "confint", {"joint": True, "level": 0.7}, lambda: pd.DataFrame([[1.0, 2.0]], columns=["2.5 %", "97.5 %"]), kinds=("plr", "irm", "pq", "qte"))
    c.same("table", got.values.tolist(), [[1.0, 2.0]])
    c.same("labels", list(got.index), [0.5] if hasattr(m, "quantiles") else m._dml_data.d_cols)


@contract("C05", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def interval_any_size(c):
    """any number of parameters and repetitions"""
    J, R = c.n("J", 1), c.n("R", 1)
    level = c.choice("level", [0.95, 0.5, 0.9])
    fw, dd, n = framework(c, J=J, R=R)
    ci = values(fw.confint(level=level))
    z = _norm.ppf(1 - (1 - level) / 2)
    np = c.np
    th, se = dd["all_thetas"], dd["all_ses"]
    c.eq("lower bounds", ci[:, 0], np.median(th - z * se, axis=1))
    c.eq("upper bounds", ci[:, 1], np.median(th + z * se, axis=1))
