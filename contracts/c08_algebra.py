"""Linear combinations and concatenation of inference frameworks."""
from vc.harness import contract

from .common import framework
from .c05_inference import _norm_of


def snapshot(c, fw):
    keys = ["thetas", "ses", "all_thetas", "all_ses", "scaled_psi", "var_scaling_factors"]
    return {k: getattr(fw, k) + 0.0 for k in keys}


def unchanged(c, name, fw, snap):
    for k, v in snap.items():
        c.eq(f"{name} operand keeps its {k}", getattr(fw, k), v)


def aggregated(c, fw, th, se, vs, J, R, tag=""):
    """thetas/ses are the documented median aggregation"""
    np = c.np
    for j in range(J):
        m = np.median(th[j, :])
        c.eq(f"aggregated estimate {tag}{j}", fw.thetas[j], m)
        dev = [se[j, r] ** 2 + (th[j, r] - m) ** 2 / vs[j] for r in range(R)]
        # squared standard error is the median of the adjusted variances
        c.eq(f"aggregated standard error {tag}{j}", fw.ses[j] ** 2, np.median(np.stack(dev)) if R > 1 else dev[0])
        c.true(f"aggregated standard error is nonnegative {tag}{j}", fw.ses[j] >= 0)


def combine(c, sub, sens):
    J, R = c.choice("J", [1, 2]), c.choice("R", [1, 2])
    n = c.n("n", 2)
    vs = c.arr("vs", J, kind="pos")
    f, fd, _ = framework(c, "f_", n, J, R, vs=vs, sens=sens, bench=sens)
    g, gd, _ = framework(c, "g_", n, J, R, vs=vs, sens=sens, bench=sens)
    sf, sg = snapshot(c, f), snapshot(c, g)
    h = (f - g) if sub else (f + g)
    s = -1.0 if sub else 1.0
    psi = fd["scaled_psi"] + s * gd["scaled_psi"]
    th = fd["all_thetas"] + s * gd["all_thetas"]
    np = c.np
    c.eq("estimates per repetition", h.all_thetas, th)
    c.eq("scores", h.scaled_psi, psi)
    var = [[np.mean(psi[:, j, r] ** 2) / vs[j] for r in range(R)] for j in range(J)]
    for j in range(J):
        for r in range(R):
            c.eq(f"variance from the combined score {j} {r}", h.all_ses[j, r] ** 2, var[j][r])
            c.true(f"standard error nonnegative {j} {r}", h.all_ses[j, r] >= 0)
        if R == 1:
            c.eq(f"aggregated estimate {j}", h.thetas[j], th[j, 0])
            c.eq(f"aggregated variance {j}", h.ses[j] ** 2, var[j][0])
        else:
            c.eq(f"aggregated estimate {j}", h.thetas[j], (th[j, 0] + th[j, 1]) / 2)
            m = (th[j, 0] + th[j, 1]) / 2
            c.eq(f"aggregated variance {j}", h.ses[j] ** 2, (var[j][0] + var[j][1] + ((th[j, 0] - m) ** 2 + (th[j, 1] - m) ** 2) / vs[j]) / 2)
    c.eq("scaling factors", h.var_scaling_factors, vs)
    c.true("dimensions", h.n_thetas == J and h.n_rep == R)
    c.eq("observations", h.n_obs, n)
    if sens:
        for k in ("max_bias", "psi_max_bias"):
            c.eq(f"worst-case {k} adds up", h.sensitivity_elements[k], fd["sensitivity_elements"][k] + gd["sensitivity_elements"][k])
    else:
        c.true("no sensitivity elements", h.sensitivity_elements is None)
    c.true("a new object without bootstrap results", h is not f and h is not g and h.boot_t_stat is None)
    unchanged(c, "left", f, sf)
    unchanged(c, "right", g, sg)


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__add__"])
def addition(c):
    combine(c, False, c.choice("sens", [True, False]))


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__sub__"])
def subtraction(c):
    combine(c, True, c.choice("sens", [True, False]))


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__mul__", "doubleml.double_ml_framework.DoubleMLFramework.__rmul__"])
def scaling(c):
    J, R = c.choice("J", [1, 2]), c.choice("R", [1, 2])
    sens = c.choice("sens", [True, False])
    f, fd, n = framework(c, "f_", None, J, R, sens=sens, bench=sens)
    a = c.choice("factor", [2.0, -1, 0.5, -3.25, 0, 1])
    left = c.choice("side", ["left", "right"])
    sf = snapshot(c, f)
    h = a * f if left == "left" else f * a
    c.eq("estimates", h.thetas, a * fd["thetas"])
    c.eq("estimates per repetition", h.all_thetas, a * fd["all_thetas"])
    c.eq("scores", h.scaled_psi, a * fd["scaled_psi"])
    c.eq("standard errors scale by the absolute value", h.ses, abs(a) * fd["ses"])
    c.eq("standard errors per repetition scale by the absolute value", h.all_ses, abs(a) * fd["all_ses"])
    c.eq("scaling factors", h.var_scaling_factors, fd["var_scaling_factors"])
    if sens:
        e = fd["sensitivity_elements"]
        c.eq("max_bias", h.sensitivity_elements["max_bias"], abs(a) * e["max_bias"])
        c.eq("psi_max_bias", h.sensitivity_elements["psi_max_bias"], abs(a) * e["psi_max_bias"])
        c.eq("sigma2", h.sensitivity_elements["sigma2"], e["sigma2"])
        c.eq("nu2", h.sensitivity_elements["nu2"], a * a * e["nu2"])
    unchanged(c, "the", f, sf)


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__sub__"])
def inverse_laws(c):
    """f - f is exactly zero, (f + g) - g has the estimates and scores of f"""
    J, R = 2, c.choice("R", [1, 2])
    n = c.n("n", 2)
    vs = c.arr("vs", J, kind="pos")
    f, fd, _ = framework(c, "f_", n, J, R, vs=vs)
    g, gd, _ = framework(c, "g_", n, J, R, vs=vs)
    z = f - f
    c.eq("zero estimate", z.all_thetas, 0 * fd["all_thetas"])
    c.eq("zero score", z.scaled_psi, 0 * fd["scaled_psi"])
    c.eq("zero standard error", z.all_ses, 0 * fd["all_ses"])
    k = (f + g) - g
    c.eq("estimates restored", k.all_thetas, fd["all_thetas"])
    c.eq("scores restored", k.scaled_psi, fd["scaled_psi"])
    d = f - g
    e = f + (-1) * g
    c.eq("difference is the sum with the negative: estimates", d.all_thetas, e.all_thetas)
    c.eq("difference is the sum with the negative: standard errors", d.all_ses, e.all_ses)


@contract("C08", targets=["doubleml.double_ml_framework.concat"])
def concatenation(c):
    from doubleml import concat

    R = c.choice("R", [1, 2])
    n = c.n("n", 2)
    J1, J2 = c.choice("J1", [1, 2]), c.choice("J2", [1, 2])
    sens = c.choice("sens", ["both", "one", "bench-one", "none"])
    f, fd, _ = framework(c, "f_", n, J1, R, sens=sens != "none", bench=sens == "both")
    g, gd, _ = framework(c, "g_", n, J2, R, sens=sens in ("both", "bench-one"), bench=sens in ("both", "bench-one"))
    sf, sg = snapshot(c, f), snapshot(c, g)
    h = concat([f, g])
    for k, ax in [("thetas", 0), ("ses", 0), ("all_thetas", 0), ("all_ses", 0), ("var_scaling_factors", 0)]:
        v = getattr(h, k)
        c.eq(f"{k}: first part", v[:J1], fd[k])
        c.eq(f"{k}: second part", v[J1:], gd[k])
    c.eq("scores: first part", h.scaled_psi[:, :J1, :], fd["scaled_psi"])
    c.eq("scores: second part", h.scaled_psi[:, J1:, :], gd["scaled_psi"])
    c.true("number of parameters", h.n_thetas == J1 + J2)
    if sens in ("both", "bench-one"):
        for k in ("max_bias", "psi_max_bias") + (("sigma2", "nu2") if sens == "both" else ()):
            c.eq(f"{k}: first part", h.sensitivity_elements[k][:, :J1, :], fd["sensitivity_elements"][k])
            c.eq(f"{k}: second part", h.sensitivity_elements[k][:, J1:, :], gd["sensitivity_elements"][k])
    if sens == "bench-one":
        c.true("no partial benchmark elements", "sigma2" not in h.sensitivity_elements and "nu2" not in h.sensitivity_elements)
    if sens in ("one", "none"):
        c.true("no partial sensitivity elements", h.sensitivity_elements is None)
    unchanged(c, "first", f, sf)
    unchanged(c, "second", g, sg)


@contract("C08", targets=["doubleml.utils._checks._check_framework_compatibility"])
def incompatible(c):
    """frameworks over different samples, repetitions or parameters are refused"""
    from doubleml import concat

    n = c.n("n", 2)
    vs2 = c.arr("vs", 2, kind="pos")
    f, _, _ = framework(c, "f_", n, 2, 2, vs=vs2)
    g1, _, _ = framework(c, "g1_", n + 1, 2, 2, vs=vs2)
    g2, _, _ = framework(c, "g2_", n, 2, 1, vs=vs2)
    g3, _, _ = framework(c, "g3_", n, 1, 2, vs=vs2[:1])
    for nm, g in (("observations", g1), ("repetitions", g2)):
        c.raises(f"different {nm}: sum", ValueError, lambda: f + g)
        c.raises(f"different {nm}: difference", ValueError, lambda: f - g)
        c.raises(f"different {nm}: concatenation", ValueError, lambda: concat([f, g]))
    c.raises("different parameters: sum", ValueError, lambda: f + g3)
    c.raises("different parameters: difference", ValueError, lambda: f - g3)
    bad = c.choice("operand", [1.0, "a", None, (1,)])
    c.raises("sum with another type", TypeError, lambda: f + bad)
    c.raises("difference with another type", TypeError, lambda: f - bad)
    c.raises("product with another framework", TypeError, lambda: f * f)
    c.raises("concatenation of another type", TypeError, lambda: concat([f, bad]))
    c.raises("empty concatenation", TypeError, lambda: concat([]))


def cluster_fw(c, name, n, psi, vs, cd):
    from doubleml import DoubleMLFramework

    return DoubleMLFramework(
        {
            "thetas": c.arr(name + "th", 1),
            "ses": c.arr(name + "se", 1, kind="pos"),
            "all_thetas": c.arr(name + "ath", 1, 1),
            "all_ses": c.arr(name + "ase", 1, 1, kind="pos"),
            "var_scaling_factors": vs,
            "scaled_psi": psi,
            "is_cluster_data": True,
            "cluster_dict": cd,
        }
    )


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__add__"], samples=40)
def clustered_combination(c):
    """one-way clusters: the variance of a sum/difference is the cluster sandwich of the combined score"""
    n, G, K = c.n("n", 4), 4, 2
    np = c.np
    cl = c.labels("cl", n, range(G))
    fold0 = (cl == 0) | (cl == 1)
    I = [np.array([0.0, 1.0]), np.array([2.0, 3.0])]
    smpls = [(np.where(~fold0)[0], np.where(fold0)[0]), (np.where(fold0)[0], np.where(~fold0)[0])]
    sc = [([I[1]], [I[0]]), ([I[0]], [I[1]])]
    cd = {"smpls": [smpls], "smpls_cluster": [sc], "cluster_vars": cl.reshape(-1, 1), "n_folds_per_cluster": K}
    vs = np.array([4.0])
    p1, p2 = c.arr("p1", n, 1, 1), c.arr("p2", n, 1, 1)
    f, g = cluster_fw(c, "f", n, p1, vs, cd), cluster_fw(c, "g", n, p2, vs, cd)
    op = c.choice("op", ["+", "-"])
    h = f + g if op == "+" else f - g
    psi = (p1 + p2 if op == "+" else p1 - p2)[:, 0, 0]
    sg = [np.sum(np.where(cl == k, psi, 0.0)) for k in range(G)]
    gam = (sg[0] ** 2 + sg[1] ** 2 + sg[2] ** 2 + sg[3] ** 2) / 2 / K
    jj = n / 2 / K  # mean over folds of (observations per test cluster)
    c.eq("cluster sandwich of the combined score", h.all_ses[0, 0] ** 2, gam / (G * jj**2))
    c.true("clustering is kept", h._is_cluster_data is True)


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__add__"])
def sums_any_size(c):
    """sums and differences for any number of parameters and repetitions"""
    J, R = c.n("J", 1), c.n("R", 1)
    sens = c.choice("sens", [True, False])
    n = c.n("n", 2)
    vs = c.arr("vs", J, kind="pos")
    f, fd, _ = framework(c, "f_", n, J, R, vs=vs, sens=sens, bench=sens)
    g, gd, _ = framework(c, "g_", n, J, R, vs=vs, sens=sens, bench=sens)
    sub = c.choice("operation", ["sum", "difference"]) == "difference"
    h = (f - g) if sub else (f + g)
    s = -1.0 if sub else 1.0
    psi = fd["scaled_psi"] + s * gd["scaled_psi"]
    th = fd["all_thetas"] + s * gd["all_thetas"]
    np = c.np
    c.eq("estimates per repetition", h.all_thetas, th)
    c.eq("scores", h.scaled_psi, psi)
    var = np.mean(psi ** 2, axis=0) / vs.reshape(-1, 1)
    c.eq("variance", h.all_ses ** 2, var)
    med = np.median(th, axis=1)
    c.eq("aggregated estimates", h.thetas, med)
    c.eq("aggregated variances", h.ses ** 2, np.median(var + (th - med.reshape(-1, 1)) ** 2 / vs.reshape(-1, 1), axis=1))
    c.eq("scaling factors", h.var_scaling_factors, vs)
    if sens:
        for k in ("max_bias", "psi_max_bias"):
            c.eq(f"worst-case {k} adds up", h.sensitivity_elements[k], fd["sensitivity_elements"][k] + gd["sensitivity_elements"][k])


@contract("C08", targets=["doubleml.double_ml_framework.DoubleMLFramework.__mul__"])
def scaling_any_size(c):
    """multiples for any number of parameters and repetitions"""
    J, R = c.n("J", 1), c.n("R", 1)
    sens = c.choice("sens", [True, False])
    f, fd, n = framework(c, "f_", None, J, R, sens=sens, bench=sens)
    a = c.choice("factor", [2.0, -1, 0.5, -3.25, 0, 1])
    left = c.choice("side", ["left", "right"])
    h = a * f if left == "left" else f * a
    c.eq("estimates", h.thetas, a * fd["thetas"])
    c.eq("estimates per repetition", h.all_thetas, a * fd["all_thetas"])
    c.eq("scores", h.scaled_psi, a * fd["scaled_psi"])
    c.eq("standard errors scale by the absolute value", h.ses, abs(a) * fd["ses"])
    c.eq("standard errors per repetition scale by the absolute value", h.all_ses, abs(a) * fd["all_ses"])
    if sens:
        e = fd["sensitivity_elements"]
        c.eq("max_bias", h.sensitivity_elements["max_bias"], abs(a) * e["max_bias"])
        c.eq("psi_max_bias", h.sensitivity_elements["psi_max_bias"], abs(a) * e["psi_max_bias"])
        c.eq("sigma2", h.sensitivity_elements["sigma2"], e["sigma2"])
        c.eq("nu2", h.sensitivity_elements["nu2"], a * a * e["nu2"])


@contract("C08", targets=["doubleml.double_ml_framework.concat"])
def concat_any_size(c):
    """concatenation of up to three results with any numbers of parameters and repetitions"""
    from doubleml import concat
    R, n = c.n("R", 1), c.n("n", 2)
    k = c.choice("objects", [1, 2, 3])
    J = [c.n(f"J{q}", 1) for q in range(k)]
    sens = [c.choice(f"elements {q}", ["full", "bias", "none"] if k == 1 else ["bias", "none"]) for q in range(k)]
    F = [framework(c, f"f{q}_", n, J[q], R, sens=sens[q] != "none", bench=sens[q] == "full") for q in range(k)]
    snaps = [snapshot(c, f[0]) for f in F]
    h = concat([f[0] for f in F])
    lo = 0
    for q, (f, fd, _) in enumerate(F):
        hi = lo + J[q]
        for key in ("thetas", "ses", "all_thetas", "all_ses", "var_scaling_factors"):
            c.eq(f"{key}: part {q}", getattr(h, key)[lo:hi], fd[key])
        c.eq(f"scores: part {q}", h.scaled_psi[:, lo:hi, :], fd["scaled_psi"])
        if all(x != "none" for x in sens):
            for key in ("max_bias", "psi_max_bias") + (("sigma2", "nu2") if all(x == "full" for x in sens) else ()):
                c.eq(f"{key}: part {q}", h.sensitivity_elements[key][:, lo:hi, :], fd["sensitivity_elements"][key])
        unchanged(c, f"object {q}", f, snaps[q])
        lo = hi
    c.eq("number of parameters", h.n_thetas, lo)
    if "none" in sens:
        c.true("no partial sensitivity elements", h.sensitivity_elements is None)
    elif "bias" in sens:
        c.true("no partial benchmark elements", "sigma2" not in h.sensitivity_elements and "nu2" not in h.sensitivity_elements)
