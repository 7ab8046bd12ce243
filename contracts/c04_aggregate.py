"""Aggregation over repetitions: medians, variance corrected by the spread."""
from vc.harness import contract

from .c02_estimate import stub_fit


def _spec(c, th, se, vs, j):
    np = c.np
    m = np.median(th[j, :])
    return m, np.sqrt(np.median(se[j, :] ** 2 + (th[j, :] - m) ** 2 / vs[j]))


@contract("C04", targets=["doubleml.utils._estimation._aggregate_coefs_and_ses"])
def aggregate(c):
    """any number of coefficients and repetitions"""
    f = c.target("doubleml.utils._estimation._aggregate_coefs_and_ses")
    J, R = c.n("J", 1), c.n("R", 1)
    th, se, vs = c.arr("th", J, R), c.arr("se", J, R, kind="nonneg"), c.arr("vs", J, kind="pos")
    coef, ses = f(th, se, vs)
    np = c.np
    med = np.median(th, axis=1)
    c.eq("coefficient is the median over repetitions", coef, med)
    var = np.median(se * se + (th - med.reshape(-1, 1)) ** 2 / vs.reshape(-1, 1), axis=1)
    c.eq("squared standard error is the median of the spread-corrected variances", ses * ses, var)
    c.true("standard error is nonnegative", ses >= 0)


@contract("C04", targets=["doubleml.utils._estimation._aggregate_coefs_and_ses"])
def aggregate_one_repetition(c):
    f = c.target("doubleml.utils._estimation._aggregate_coefs_and_ses")
    J = c.n("J", 1)
    th, se, vs = c.arr("th", J, 1), c.arr("se", J, 1, kind="nonneg"), c.arr("vs", J, kind="pos")
    coef, ses = f(th, se, vs)
    c.eq("one repetition: coefficient unchanged", coef, th[:, 0])
    c.eq("one repetition: standard error unchanged", ses, se[:, 0])


@contract("C04", targets=["doubleml.utils._estimation._aggregate_coefs_and_ses"])
def aggregate_per_repetition_scaling(c):
    f = c.target("doubleml.utils._estimation._aggregate_coefs_and_ses")
    J, R = 2, c.choice("R", [1, 3, 4])
    th, se, vs = c.arr("th", J, R), c.arr("se", J, R, kind="nonneg"), c.arr("vs", J, R, kind="pos")
    coef, ses = f(th, se, vs)
    np = c.np
    med = np.median(th, axis=1)
    c.eq("coefficient", coef, med)
    c.eq("standard error squared", ses * ses, np.median(se * se + (th - med.reshape(-1, 1)) ** 2 / vs, axis=1))


@contract("C04", targets=["doubleml.double_ml.DoubleML.fit"], stubs=["_nuisance_est (arbitrary score elements)"], weight=5)
def fit_aggregates(c):
    R, J = c.choice("R", [1, 2, 3]), 2
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    np = c.np
    for j in range(J):
        med = np.median(m.all_coef[j, :])
        c.eq(f"coef treat{j}", m.coef[j], med)
        c.eq(f"se^2 treat{j}", m.se[j] ** 2, np.median(m.all_se[j, :] ** 2 + (m.all_coef[j, :] - med) ** 2 / n))
    c.eq("framework thetas", m.framework.thetas, m.coef)
    c.eq("framework ses", m.framework.ses, m.se)
