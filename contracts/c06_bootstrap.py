"""Multiplier bootstrap of the framework and joint confidence bands."""
from vc.harness import contract

from .common import delegation, framework, stub_random, values
from .c02_estimate import stub_fit

METHODS = ["normal", "Bayes", "wild"]


def weights(c, method, ds):
    if method == "normal":
        return ds[0][1]
    if method == "Bayes":
        return ds[0][1] - 1.0
    return ds[0][1] / c.np.sqrt(2.0) + (ds[1][1] ** 2 - 1.0) / 2.0


KINDS = {"normal": ["normal"], "Bayes": ["exponential"], "wild": ["normal", "normal"]}


@contract("C06", targets=["doubleml.double_ml_framework.DoubleMLFramework.bootstrap"])
def boot_statistics(c):
    """t*_b = sum_i w_bi psi_i / (n_scale * se), same weights for all parameters, fresh ones per repetition"""
    method = c.choice("method", METHODS)
    J, R, B = c.n("J", 1), c.choice("R", [1, 2]), c.n("B", 1)
    fw, dd, n = framework(c, J=J, R=R)
    draws = stub_random(c)
    fw.bootstrap(method=method, n_rep_boot=B)
    k = len(KINDS[method])
    c.same("one set of draws per repetition", [d[0] for d in draws], KINDS[method] * R)
    np = c.np
    for r in range(R):
        W = weights(c, method, draws[k * r : k * r + k])
        spec = np.matmul(W, dd["scaled_psi"][:, :, r] / (dd["var_scaling_factors"] * dd["all_ses"][:, r]))
        c.eq(f"bootstrap statistics rep{r}", fw.boot_t_stat[:, :, r], spec)
    c.same("method recorded", fw.boot_method, method)
    c.eq("replications recorded", fw.n_rep_boot, B)


@contract("C06", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def joint_interval(c):
    """joint band: theta -/+ quantile_level(max_j |t*_j|) * se"""
    J, R = c.choice("J", [1, 2, 3]), c.choice("R", [1, 2])
    B = c.n("B", 2)
    fw, dd, n = framework(c, J=J, R=R)
    T = c.arr("boot", B, J, R)
    fw._boot_t_stat = T
    level = c.choice("level", [0.95, 0.8])
    ci = values(fw.confint(joint=True, level=level))
    np = c.np
    cr = [np.quantile(np.max(np.abs(T[:, :, r]), axis=1), level) for r in range(R)]
    for j in range(J):
        lo = [dd["all_thetas"][j, r] - cr[r] * dd["all_ses"][j, r] for r in range(R)]
        up = [dd["all_thetas"][j, r] + cr[r] * dd["all_ses"][j, r] for r in range(R)]
        c.eq(f"lower {j}", ci[j, 0], sum(lo[1:], lo[0]) / R)
        c.eq(f"upper {j}", ci[j, 1], sum(up[1:], up[0]) / R)


@contract("C06", targets=["doubleml.double_ml.DoubleML.bootstrap"], stubs=["_nuisance_est (arbitrary score elements)"], weight=4)
def model_bootstrap(c):
    """a fitted model bootstraps its own scores"""
    method = c.choice("method", METHODS)
    R, J = 1, 2
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    for j in range(J):
        c.assume(m.all_se[j, 0] > 0)
    draws = stub_random(c)
    B = c.n("B", 1)
    m.bootstrap(method=method, n_rep_boot=B)
    np = c.np
    W = weights(c, method, draws)
    for j in range(J):
        pa, pb = el[(0, j)]
        psi = (pa * m.all_coef[j, 0] + pb) / np.mean(pa)
        c.eq(f"bootstrap statistics treat{j}", m.boot_t_stat[:, j, 0], np.matmul(W, psi / (n * m.all_se[j, 0])))


@contract("C06", targets=["doubleml.double_ml_framework.DoubleMLFramework.bootstrap"])
def boot_arguments(c):
    fw, dd, n = framework(c, J=1, R=1)
    c.raises("unknown method", ValueError, fw.bootstrap, method=c.choice("m", ["bayes", "Wild", "", "gauss"]))
    c.raises("non-integer replications", TypeError, fw.bootstrap, n_rep_boot=10.0)
    c.raises("non-positive replications", ValueError, fw.bootstrap, n_rep_boot=c.choice("b", [0, -1]))


@contract("C06", targets=["doubleml.double_ml.DoubleML.bootstrap", "doubleml.irm.apos.DoubleMLAPOS.bootstrap", "doubleml.irm.qte.DoubleMLQTE.bootstrap", "doubleml.double_ml.DoubleML.boot_method", "doubleml.double_ml.DoubleML.n_rep_boot"],
          stubs=["DoubleMLFramework.bootstrap"])
def wrappers(c):
    """bootstrapping a model bootstraps its inference object with the given method and number of draws"""
    m, got, _ = delegation(c, "bootstrap", {"method": "wild", "n_rep_boot": 77}, lambda: None)
    c.same("returns the model", got is m, True)
    fw = m._framework
    fw.n_rep_boot, fw.boot_method, fw.boot_t_stat = object(), object(), object()
    c.same("number of draws", m.n_rep_boot is fw.n_rep_boot, True)
    c.same("method", m.boot_method is fw.boot_method, True)
    c.same("statistics", m.boot_t_stat is fw.boot_t_stat, True)
    m._framework = None
    c.same("nothing before a fit", (m.n_rep_boot, m.boot_method, m.boot_t_stat), (None, None, None))


@contract("C06", targets=["doubleml.double_ml_framework.DoubleMLFramework.confint"])
def joint_any_size(c):
    """joint bands for any number of parameters and repetitions"""
    J, R = c.n("J", 1), c.n("R", 1)
    B = c.n("B", 2)
    fw, dd, n = framework(c, J=J, R=R)
    T = c.arr("boot", B, J, R)
    fw._boot_t_stat = T
    level = c.choice("level", [0.95, 0.8])
    ci = values(fw.confint(joint=True, level=level))
    np = c.np
    cr = np.quantile(np.max(np.abs(T), axis=1), level, axis=0)
    c.eq("lower", ci[:, 0], np.median(dd["all_thetas"] - cr * dd["all_ses"], axis=1))
    c.eq("upper", ci[:, 1], np.median(dd["all_thetas"] + cr * dd["all_ses"], axis=1))
