"""Multiple-testing adjustment."""
from vc.harness import contract

from .common import delegation, framework, values


def _romano_wolf(c, J, R):
    B = c.n("B", 2)
    np = c.np
    fw, dd, n = framework(c, J=J, R=R)
    T = c.arr("boot", B, J, R)
    fw._boot_t_stat = T
    _, allp = fw.p_adjust(method="romano-wolf")
    t = dd["all_thetas"] / dd["all_ses"]
    for r in range(R):
        a = [np.abs(t[j, r]) for j in range(J)]
        # distinct statistics: the step-down order is then unambiguous
        for i in range(J):
            for j in range(i):
                c.assume(a[i] != a[j])
        order = []
        rest = list(range(J))
        while rest:
            best = rest[0]
            for j in rest[1:]:
                if c.split(a[j] > a[best]):
                    best = j
            order.append(best)
            rest.remove(best)
        prev = None
        for s, j in enumerate(order):
            left = order[s:]
            crit = np.max(np.abs(T[:, left, r]), axis=1)
            p = np.mean(np.where(crit >= a[j], 1.0, 0.0))
            p = p if prev is None else np.maximum(p, prev)
            c.eq(f"step-down p-value rank{s} rep{r}", allp[j, r], p)
            c.true(f"p-value in [0,1] rank{s} rep{r}", c.land(allp[j, r] >= 0, allp[j, r] <= 1))
            prev = p


@contract("C07", targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"])
def romano_wolf(c):
    """step-down maxima of bootstrap statistics over the hypotheses not yet rejected"""
    _romano_wolf(c, *c.choice("JR", [(1, 1), (1, 2), (2, 1)]))


@contract(
    "C07",
    targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"],
    mode="bounded",
    samples=120,
    why_bounded="three or more hypotheses: the case distinction over orders and maxima exceeds the solver budget",
)
def romano_wolf_many(c):
    _romano_wolf(c, c.choice("J", [3, 4, 6]), c.choice("R", [1, 2]))


@contract("C07", targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"], samples=60)
def romano_wolf_reports_median(c):
    J, R = 2, c.choice("R", [1, 2, 3])
    B = c.n("B", 2)
    fw, dd, n = framework(c, J=J, R=R)
    fw._boot_t_stat = c.arr("boot", B, J, R)
    df, allp = fw.p_adjust(method=c.choice("m", ["rw", "romano-wolf"]))
    v = values(df)
    c.eq("reported estimates", v[:, 0], dd["thetas"])
    for j in range(J):
        c.eq(f"reported p-value is the median over repetitions {j}", v[j, 1], c.np.median(allp[j, :]))


@contract(
    "C07",
    targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"],
    mode="bounded",
    samples=150,
    why_bounded="checks the assumed contract of a dependency, statsmodels multipletests, against the textbook formulas",
)
def classical_methods(c):
    import numpy as np

    J, R = c.choice("J", [1, 2, 3, 5]), c.choice("R", [1, 3])
    fw, dd, n = framework(c, J=J, R=R)
    method = c.choice("m", ["bonferroni", "holm"])
    df, allp = fw.p_adjust(method=method)
    P = fw.all_pvals
    for r in range(R):
        p = P[:, r]
        if method == "bonferroni":
            s = np.minimum(p * J, 1)
        else:
            o = np.argsort(p)
            s = np.empty(J)
            s[o] = np.minimum(np.maximum.accumulate(p[o] * (J - np.arange(J))), 1)
        c.eq(f"{method} rep{r}", allp[:, r], s)
    c.eq("median over repetitions", df["pval"].values, np.median(allp, axis=1))


@contract("C07", targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"], stubs=["statsmodels multipletests (any map of one column of p-values)"])
def classical_columns(c):
    """any number of hypotheses and repetitions: each repetition's p-values, and only those, go through the requested
    correction; the reported p-value is the median over repetitions"""
    import doubleml.double_ml_framework as M

    J, R = c.n("J", 1), c.n("R", 1)
    fw, dd, n = framework(c, J=J, R=R)
    method, w = c.choice("m", [("bonferroni", 2.0), ("holm", 3.0), ("fdr_bh", 5.0), ("sidak", 7.0)])

    def correct(pvals, alpha=0.05, method="hs", **kw):
        return None, pvals * {"bonferroni": 2.0, "holm": 3.0, "fdr_bh": 5.0, "sidak": 7.0}[method] + pvals[0], None, None

    c.patch(M, "multipletests", correct)
    df, allp = fw.p_adjust(method=method)
    P = fw.all_pvals
    j, r = c.int("j", 0, J - 1), c.int("r", 0, R - 1)
    c.eq("adjusted p-value of repetition r", allp[j, r], P[j, r] * w + P[0, r])
    v = values(df)
    c.eq("reported estimates", v[:, 0], dd["thetas"])
    c.eq("reported p-value is the median over repetitions", v[:, 1], c.np.median(allp, axis=1))


@contract("C07", targets=["doubleml.double_ml_framework.DoubleMLFramework.p_adjust"])
def needs_bootstrap(c):
    fw, dd, n = framework(c, J=2, R=1)
    c.raises("romano-wolf needs bootstrap", ValueError, fw.p_adjust, method="romano-wolf")
    c.raises("method must be a string", TypeError, fw.p_adjust, method=1)


@contract("C07", targets=["doubleml.double_ml.DoubleML.p_adjust", "doubleml.irm.qte.DoubleMLQTE.p_adjust"], stubs=["DoubleMLFramework.p_adjust (any table)"])
def wrappers(c):
    """adjusted p-values of a model are those of its inference object, labelled by treatment or quantile"""
    import pandas as pd

    tab = pd.DataFrame([[1.0, 0.25]], columns=["thetas", "pval"])
    m, got, ans = delegation(c, "p_adjust", {"method": "holm"}, lambda: (tab, object()), kinds=("plr", "irm", "pq", "qte"))
    c.same("table", got.values.tolist(), [[1.0, 0.25]])
    c.same("labels", list(got.index), [0.5] if hasattr(m, "quantiles") else m._dml_data.d_cols)
