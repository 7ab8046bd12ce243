"""Sensitivity analysis: bounds, robustness values, sensitivity elements."""
from scipy.stats import norm as _norm

from vc.harness import contract

from . import elements as EL
from . import models as MD
from .common import delegation, NS, framework


def strength(c, cf_y, cf_d, rho):
    return abs(rho) * (cf_y * cf_d / (1.0 - cf_d)) ** 0.5


GRID = [(0.03, 0.03, 1.0), (0.1, 0.2, -0.5), (0.0, 0.3, 1.0), (0.25, 0.04, 0.0), (0.5, 0.9, -1.0)]


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_analysis"], stubs=["scipy minimize_scalar (arbitrary result)"], weight=3)
def bounds(c):
    """bounds theta -/+ S*max_bias, S = |rho| sqrt(cf_y cf_d / (1 - cf_d)); one-sided CIs from the perturbed score"""
    import doubleml.double_ml_framework as M

    J, R = c.choice("J", [1, 2]), c.choice("R", [1, 2])
    cf_y, cf_d, rho = c.choice("scenario", GRID)
    level = c.choice("level", [0.95, 0.8])
    n = c.n("n", 2)
    fw, dd, n = framework(c, n=n, J=J, R=R, sens=True, bench=True)
    c.patch(M, "minimize_scalar", lambda *a, **k: NS(x=0.5))
    fw.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho, level=level)
    p = fw.sensitivity_params
    np = c.np
    S = strength(c, cf_y, cf_d, rho)
    z = _norm.ppf(level)
    e = dd["sensitivity_elements"]
    th, psi, vs = dd["all_thetas"], dd["scaled_psi"], dd["var_scaling_factors"]
    for j in range(J):
        for sgn, key in ((-1.0, "lower"), (1.0, "upper")):
            b = [th[j, r] + sgn * S * e["max_bias"][0, j, r] for r in range(R)]
            v = [np.mean((psi[:, j, r] + sgn * S * e["psi_max_bias"][:, j, r]) ** 2) / n for r in range(R)]
            med = sum(b[1:], b[0]) / R
            c.eq(f"{key} bound {j}", p["theta"][key][j], med)
            agg = [v[r] + (b[r] - med) ** 2 / vs[j] for r in range(R)]
            c.eq(f"variance of the {key} bound {j}", p["se"][key][j] ** 2, sum(agg[1:], agg[0]) / R)
            c.true(f"standard error of the {key} bound is nonnegative {j}", p["se"][key][j] >= 0)
            ci = [b[r] + sgn * z * np.sqrt(v[r]) for r in range(R)]
            c.eq(f"one-sided {key} confidence limit {j}", p["ci"][key][j], sum(ci[1:], ci[0]) / R)
        c.le(f"lower bound does not exceed the upper bound {j}", p["theta"]["lower"][j], p["theta"]["upper"][j])
    c.same("scenario recorded", [p["input"][k] for k in ("cf_y", "cf_d", "rho", "level")], [cf_y, cf_d, rho, level])


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_analysis"], stubs=["scipy minimize_scalar (arbitrary result)"], weight=3)
def bounds_repetitions(c):
    """the same bounds, with the median over any number of repetitions"""
    import doubleml.double_ml_framework as M

    J, R = 2, c.n("R", 1)
    cf_y, cf_d, rho = c.choice("scenario", GRID)
    level = c.choice("level", [0.95, 0.8])
    n = c.n("n", 2)
    fw, dd, n = framework(c, n=n, J=J, R=R, sens=True, bench=True)
    c.patch(M, "minimize_scalar", lambda *a, **k: NS(x=0.5))
    fw.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho, level=level)
    p = fw.sensitivity_params
    np = c.np
    S = strength(c, cf_y, cf_d, rho)
    z = _norm.ppf(level)
    e = dd["sensitivity_elements"]
    th, psi, vs = dd["all_thetas"], dd["scaled_psi"], dd["var_scaling_factors"]
    for j in range(J):
        for sgn, key in ((-1.0, "lower"), (1.0, "upper")):
            b = th[j, :] + sgn * S * e["max_bias"][0, j, :]
            v = np.mean((psi[:, j, :] + sgn * S * e["psi_max_bias"][:, j, :]) ** 2, axis=0) / n
            med = np.median(b)
            c.eq(f"{key} bound {j}", p["theta"][key][j], med)
            c.eq(f"variance of the {key} bound {j}", p["se"][key][j] ** 2, np.median(v + (b - med) ** 2 / vs[j]))
            c.eq(f"one-sided {key} confidence limit {j}", p["ci"][key][j], np.median(b + sgn * z * np.sqrt(v)))


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_analysis"], stubs=["scipy minimize_scalar (arbitrary result)"])
def no_confounding(c):
    """zero confounding strength leaves the estimate and its variance untouched"""
    import doubleml.double_ml_framework as M

    fw, dd, n = framework(c, J=2, R=1, sens=True)
    c.patch(M, "minimize_scalar", lambda *a, **k: NS(x=0.5))
    cf_y, cf_d, rho = c.choice("scenario", [(0.0, 0.3, 1.0), (0.3, 0.0, 1.0), (0.2, 0.2, 0.0)])
    fw.sensitivity_analysis(cf_y=cf_y, cf_d=cf_d, rho=rho)
    p = fw.sensitivity_params
    for key in ("lower", "upper"):
        c.eq(f"{key} bound is the estimate", p["theta"][key], dd["all_thetas"][:, 0])
        for j in range(2):
            c.eq(f"{key} variance is that of the score {j}", p["se"][key][j] ** 2, c.np.mean(dd["scaled_psi"][:, j, 0] ** 2) / n)


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework._calc_robustness_value"], stubs=["scipy minimize_scalar (objective recorded, result arbitrary)"], weight=3)
def robustness(c):
    """the robustness value minimises (bound(v, v) - H0)^2 over [0, 1) on the side of the hypothesis"""
    import doubleml.double_ml_framework as M

    J, R = 2, c.choice("repetitions", [1, 2])
    rho = c.choice("rho", [1.0, -0.5])
    level = c.choice("level", [0.95, 0.8])
    fw, dd, n = framework(c, J=J, R=R, sens=True)
    th = [sum(dd["all_thetas"][j, r] for r in range(R)) / R for j in range(J)]
    fw._thetas = c.np.array(th)
    ask = []

    def ms(fun, *a, **k):
        ask.append((fun, a, k))
        return NS(x=0.125 * len(ask))

    c.patch(M, "minimize_scalar", ms)
    h0 = [c.choice("h0", [0.0, 1.5]), -2.0]
    fw.sensitivity_analysis(rho=rho, level=level, null_hypothesis=c.np.array(h0))
    p = fw.sensitivity_params
    c.same("one search per parameter and kind", len(ask), 2 * J)
    if len(ask) != 2 * J:
        return
    c.eq("robustness values", p["rv"], c.np.array([0.125, 0.375]))
    c.eq("robustness values with statistical uncertainty", p["rva"], c.np.array([0.25, 0.5]))
    np = c.np
    z = _norm.ppf(level)
    e = dd["sensitivity_elements"]
    for q, (fun, a, k) in enumerate(ask):
        j, kind = q // 2, ("theta", "ci")[q % 2]
        c.same(f"search interval {q}", [float(x) for x in k.get("bounds", ())], [0.0, 0.9999])
        for v in (0.0, 0.2, 0.75):
            S = strength(c, v, v, rho)
            val = fun(v, *k.get("args", ()))
            up = bool(h0[j] > th[j])
            sgn = 1.0 if up else -1.0
            got = []
            for r in range(R):
                b = dd["all_thetas"][j, r] + sgn * S * e["max_bias"][0, j, r]
                if kind == "ci":
                    s2 = np.sqrt(np.mean((dd["scaled_psi"][:, j, r] + sgn * S * e["psi_max_bias"][:, j, r]) ** 2) / n)
                    b = b + sgn * z * s2
                got.append(b)
            b = sum(got[1:], got[0]) / R
            c.eq(f"objective {kind} parameter {j} at {v}", val, (b - h0[j]) ** 2)


@contract("C09", targets=["doubleml.utils._sensitivity._compute_sensitivity_bias"])
def bias_elements(c):
    """max_bias = sqrt(sigma2 nu2) and its influence function"""
    f = c.target("doubleml.utils._sensitivity._compute_sensitivity_bias")
    n, J, R = c.n("n", 1), c.n("J", 1), c.n("R", 1)
    s2, nu2 = c.arr("s2", 1, J, R, kind="pos"), c.arr("nu2", 1, J, R, kind="pos")
    ps, pn = c.arr("ps", n, J, R), c.arr("pn", n, J, R)
    mb, pmb = f(sigma2=s2, nu2=nu2, psi_sigma2=ps, psi_nu2=pn)
    c.eq("max_bias squared is sigma2 * nu2", mb * mb, s2 * nu2)
    c.true("max_bias is nonnegative", c.np.all(mb >= 0))
    c.eq("influence function by the chain rule", 2 * mb * pmb, s2 * pn + nu2 * ps)


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_analysis"])
def invalid_scenarios(c):
    fw, dd, n = framework(c, J=2, R=1, sens=True)
    S = fw.sensitivity_analysis
    bad = c.choice("value", [1.0, -0.01, 1.5])
    c.raises("cf_y outside [0,1)", ValueError, S, cf_y=bad)
    c.raises("cf_d outside [0,1)", ValueError, S, cf_d=bad)
    c.raises("rho outside [-1,1]", ValueError, S, rho=c.choice("rho", [1.01, -2.0]))
    c.raises("level outside (0,1)", ValueError, S, level=c.choice("level", [0.0, 1.0, 1.5]))
    t = c.choice("type", [1, "a", None])
    c.raises("cf_y not a float", TypeError, S, cf_y=t)
    c.raises("cf_d not a float", TypeError, S, cf_d=t)
    c.raises("rho not a float", TypeError, S, rho=t)
    c.raises("level not a float", TypeError, S, level=t)
    c.raises("null hypothesis not a float", TypeError, S, null_hypothesis=t)
    c.raises("null hypothesis of the wrong length", ValueError, S, null_hypothesis=c.np.array([0.0, 1.0, 2.0]))
    c.true("no result recorded", fw.sensitivity_params is None)
    g, _, _ = framework(c, "g_", J=2, R=1)
    c.raises("no sensitivity elements", NotImplementedError, g.sensitivity_analysis)


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework._check_sensitivity_benchmark"])
def negative_elements_refused(c):
    from doubleml import DoubleMLFramework

    fw, dd, n = framework(c, J=1, R=2, sens=True, bench=True)
    which = c.choice("element", ["sigma2", "nu2"])
    bad = c.arr("bad", 1, 1, 2)
    c.assume(bad[0, 0, 1] < 0)
    d2 = dict(dd)
    d2["sensitivity_elements"] = dict(dd["sensitivity_elements"])
    d2["sensitivity_elements"][which] = bad
    c.raises(f"negative {which}", ValueError, DoubleMLFramework, d2)


# ---------------------------------------------------------------- elements of the models

_E = ["doubleml.double_ml.DoubleML.fit", "doubleml.double_ml.DoubleML.sensitivity_elements"]


@contract("C09", targets=["doubleml.plm.plr.DoubleMLPLR._sensitivity_element_est", *_E], weight=2)
def plr_elements(c):
    """partially linear model: residual of the outcome equation, treatment residual over its mean square"""
    np = c.np
    score = c.choice("score", ["partialling out", "IV-type"])
    o = MD.plr(c, R=2, score=score, sens=True, fit=False)
    for r in range(o.R):
        c.assume(np.mean((o.d - o.ext["ml_m"][:, r]) ** 2) > 0)
    o.m.fit(external_predictions={"d": o.ext})
    e = o.m.sensitivity_elements
    for r in range(o.R):
        th = o.m.all_coef[0, r]
        v = o.d - o.ext["ml_m"][:, r]
        u = o.y - o.ext["ml_l"][:, r] - th * v if score == "partialling out" else o.y - o.ext["ml_g"][:, r] - th * o.d
        c.eq(f"sigma2 rep{r}", e["sigma2"][0, r, 0], np.mean(u * u))
        c.eq(f"psi_sigma2 rep{r}", e["psi_sigma2"][:, r, 0], u * u - np.mean(u * u))
        c.eq(f"nu2 rep{r}", e["nu2"][0, r, 0] * np.mean(v * v), 1.0)
        nu2 = e["nu2"][0, r, 0]
        c.eq(f"psi_nu2 rep{r}", e["psi_nu2"][:, r, 0], nu2 - v * v * nu2 * nu2)
        c.eq(f"riesz representer rep{r}", e["riesz_rep"][:, r, 0], v * nu2)


@contract("C09", targets=["doubleml.irm.irm.DoubleMLIRM._sensitivity_element_est", *_E], weight=3)
def irm_elements(c):
    score = c.choice("score", ["ATE", "ATTE"])
    nrm = c.choice("normalize", [False, True])
    o = MD.irm(c, R=1, score=score, normalize=nrm, lo=0.05, sens=True)
    EL.irm(c, o, score, None, nrm)


@contract("C09", targets=["doubleml.irm.apo.DoubleMLAPO._sensitivity_element_est", *_E], weight=3)
def apo_elements(c):
    nrm = c.choice("normalize", [False, True])
    lev = c.choice("level", [0, 2])
    o = MD.apo(c, R=1, normalize=nrm, lo=0.05, level=lev, sens=True)
    EL.apo(c, o, None, nrm)


@contract("C09", targets=["doubleml.did.did.DoubleMLDID._sensitivity_element_est", *_E], weight=3)
def did_elements(c):
    score = c.choice("score", ["observational", "experimental"])
    nrm = c.choice("in_sample_normalization", [True, False])
    o = MD.did(c, R=1, score=score, norm=nrm, lo=0.05, sens=True)
    EL.did(c, o, score, nrm)


@contract("C09", targets=["doubleml.did.did_cs.DoubleMLDIDCS._sensitivity_element_est", *_E], weight=3)
def did_cs_elements(c):
    score = c.choice("score", ["observational", "experimental"])
    nrm = c.choice("in_sample_normalization", [True, False])
    o = MD.did_cs(c, R=1, score=score, norm=nrm, lo=0.05, sens=True)
    EL.did_cs(c, o, score, nrm)


# ---------------------------------------------------------------- contour plot

def _contour(c, dd, n, j, cf_y, cf_d, rho, level, value, bound):
    np = c.np
    sgn = 1.0 if bound == "upper" else -1.0
    S = strength(c, cf_y, cf_d, rho)
    e = dd["sensitivity_elements"]
    th, psi = dd["all_thetas"], dd["scaled_psi"]
    R = th.shape[1]
    b = [th[j, r] + sgn * S * e["max_bias"][0, j, r] for r in range(R)]
    if value == "theta":
        return sum(b[1:], b[0]) / R
    v = [np.mean((psi[:, j, r] + sgn * S * e["psi_max_bias"][:, j, r]) ** 2) / n for r in range(R)]
    ci = [b[r] + sgn * _norm.ppf(level) * np.sqrt(v[r]) for r in range(R)]
    return sum(ci[1:], ci[0]) / R


@contract("C09", targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_plot"], stubs=["scipy minimize_scalar (arbitrary result)", "plotly drawing routine (arguments recorded)"], weight=2)
def plot(c):
    """the values handed to the drawing routine are the bounds at the grid points, the scenario and the benchmarks"""
    import inspect

    import numpy as _np

    import doubleml.double_ml_framework as M

    J = 2
    j, R, value = c.choice("treatment, repetitions, value", [(0, 1, "theta"), (1, 1, "theta"), (1, 1, "ci"), (1, 2, "theta"), (0, 2, "ci")])
    rho, level = -0.5, 0.9
    fw, dd, n = framework(c, J=J, R=R, sens=True)
    c.patch(M, "minimize_scalar", lambda *a, **k: NS(x=0.5))
    got = {}
    sig = inspect.signature(c.target("doubleml.utils._plots._sensitivity_contour_plot"))

    def draw(*a, **k):
        ba = sig.bind(*a, **k)
        ba.apply_defaults()
        got.update(ba.arguments)
        return "figure"

    c.patch(M, "_sensitivity_contour_plot", draw)
    h = c.real("null hypothesis")
    scenario = c.choice("scenario", [False, True])
    if scenario:
        fw.sensitivity_analysis(cf_y=0.1, cf_d=0.2, rho=0.5, level=0.8)
    bench = dict(cf_y=[0.05, 0.1], cf_d=[0.2, 0.0], name=["a", "b"]) if scenario else None
    fig = fw.sensitivity_plot(idx_treatment=j, value=value, rho=rho, level=level, null_hypothesis=h, include_scenario=scenario, benchmarks=bench, grid_bounds=(0.3, 0.2), grid_size=10, fill=False)
    c.same("figure returned", fig, "figure")
    th = fw.thetas[j]
    bound = "upper" if bool(h > th) else "lower"
    c.true("axes", bool(_np.allclose(got["x"], _np.linspace(0, 0.3, 10)) and _np.allclose(got["y"], _np.linspace(0, 0.2, 10))))
    for a, b in ((0, 0), (0, 9), (9, 0), (9, 9), (3, 5), (6, 2)):
        c.eq(f"grid value at cf_d {a}, cf_y {b}", got["contour_values"][b, a], _contour(c, dd, n, j, float(got["y"][b]), float(got["x"][a]), rho, level, value, bound))
    if value == "theta":
        c.eq("unadjusted", got["unadjusted_value"], th)
    else:
        ci = fw.confint(level=level)
        c.eq("unadjusted", got["unadjusted_value"], ci.iloc[j, 1 if bound == "upper" else 0])
    if scenario:
        c.same("scenario", (got["scenario_x"], got["scenario_y"]), (0.2, 0.1))
        c.eq("scenario value", got["scenario_value"], _contour(c, dd, n, j, 0.1, 0.2, 0.5, 0.8, value, bound))
    if bench is not None:
        for k in (0, 1):
            c.eq(f"benchmark {k}", got["benchmarks"]["value"][k], _contour(c, dd, n, j, bench["cf_y"][k], bench["cf_d"][k], rho, level, value, bound))
        c.same("benchmark argument untouched", bench, dict(cf_y=[0.05, 0.1], cf_d=[0.2, 0.0], name=["a", "b"]))


@contract("C09", mode="bounded", samples=6, targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_plot", "doubleml.utils._plots._sensitivity_contour_plot"], why_bounded="plotly objects; numbers of observations from the sampler")
def figure(c):
    """the drawn figure shows those values at those coordinates"""
    import numpy as np

    fw, dd, n = framework(c, J=2, R=1, sens=True)
    fw.sensitivity_analysis(cf_y=0.1, cf_d=0.2, rho=0.5, level=0.8)
    bench = dict(cf_y=[0.05, 0.1], cf_d=[0.2, 0.0], name=["a", "b"])
    for j in (0, 1):
        for value in ("theta", "ci"):
            for h in (-1e6, 1e6):
                bound = "upper" if h > 0 else "lower"
                f = fw.sensitivity_plot(idx_treatment=j, value=value, rho=-0.7, level=0.9, null_hypothesis=h, include_scenario=True, benchmarks=bench, grid_bounds=(0.3, 0.2), grid_size=12)
                tr = {t.name: t for t in f.data}
                ct = tr["Contour"]
                x, y = np.linspace(0, 0.3, 12), np.linspace(0, 0.2, 12)
                c.true("axes", np.allclose(ct.x, x) and np.allclose(ct.y, y))
                for a in range(12):
                    for b in range(12):
                        c.eq(f"contour {a} {b}", float(np.asarray(ct.z)[b, a]), _contour(c, dd, n, j, y[b], x[a], -0.7, 0.9, value, bound))
                c.same("scenario point", (list(tr["Scenario"].x), list(tr["Scenario"].y)), ([0.2], [0.1]))
                c.same("benchmark points", (list(tr["Benchmarks"].x), list(tr["Benchmarks"].y)), (bench["cf_d"], bench["cf_y"]))
                for k in (0, 1):
                    c.eq(f"benchmark {k}", float(np.asarray(tr["Benchmarks"].customdata)[k, 0]), _contour(c, dd, n, j, bench["cf_y"][k], bench["cf_d"][k], -0.7, 0.9, value, bound))
                c.same("axis titles", (f.layout.xaxis.title.text.strip(), f.layout.yaxis.title.text.strip()), ("cf_d", "cf_y"))
    for bad, err in ((dict(idx_treatment=2), ValueError), (dict(idx_treatment=-1), ValueError), (dict(idx_treatment=0.0), TypeError), (dict(value="se"), ValueError), (dict(value=1), TypeError), (dict(null_hypothesis=1), TypeError), (dict(include_scenario=1), TypeError), (dict(grid_bounds=(0.1, 1.0)), ValueError), (dict(grid_bounds=(0.0, 0.1)), ValueError), (dict(grid_size=9), ValueError), (dict(grid_size=10.0), TypeError), (dict(benchmarks=dict(cf_y=[0.1], cf_d=[0.1])), ValueError), (dict(benchmarks=dict(cf_y=[0.1], cf_d=[1.0], name=["a"])), ValueError), (dict(benchmarks=dict(cf_y=[0.1, 0.2], cf_d=[0.1], name=["a"])), ValueError), (dict(fill=1), TypeError)):
        c.raises(f"{bad}", (err,), lambda: fw.sensitivity_plot(**bad))
    fresh, _, _ = framework(c, J=1, R=1, sens=True)
    c.raises("scenario before the analysis", (ValueError,), fresh.sensitivity_plot)


_ARGS = {
    "sensitivity_analysis": {"cf_y": 0.11, "cf_d": 0.12, "rho": -0.13, "level": 0.7, "null_hypothesis": 1.5},
    "sensitivity_plot": {"idx_treatment": 0, "value": "ci", "rho": -0.13, "level": 0.7, "null_hypothesis": 1.5, "include_scenario": False, "benchmarks": {"cf_y": [0.1], "cf_d": [0.2], "name": ["u"]},
                         "fill": False, "grid_bounds": (0.21, 0.22), "grid_size": 33},
}


@contract("C09", targets=[f"doubleml.{k}.{f}" for k in ("double_ml.DoubleML", "irm.apos.DoubleMLAPOS") for f in ("sensitivity_analysis", "sensitivity_plot", "sensitivity_params", "sensitivity_summary")],
          stubs=["DoubleMLFramework.sensitivity_analysis / sensitivity_plot"])
def wrappers(c):
    """the sensitivity analysis of a model is that of its inference object with the same scenario"""
    method = c.choice("method", list(_ARGS))
    m, got, ans = delegation(c, method, _ARGS[method], object, kinds=("plr", "irm", "apos"))
    c.same("returned", got is (m if method == "sensitivity_analysis" else ans), True)
    fw = m._framework
    fw.sensitivity_params, fw.sensitivity_summary = object(), object()
    c.same("parameters", m.sensitivity_params is fw.sensitivity_params, True)
    c.same("summary", m.sensitivity_summary is fw.sensitivity_summary, True)
    m._framework = None
    c.same("no parameters before a fit", m.sensitivity_params is None, True)
    c.raises("no summary before a fit", ValueError, lambda: m.sensitivity_summary)


@contract("C09", mode="bounded", samples=8, targets=["doubleml.double_ml_framework.DoubleMLFramework.sensitivity_summary"], why_bounded="formatted text")
def summary_text(c):
    """the printed analysis shows scenario, bounds and robustness values of every parameter in its row"""
    import re

    J, R = c.choice("J", [1, 2]), c.choice("R", [1, 2])
    fw, dd, n = framework(c, J=J, R=R, sens=True)
    named = c.choice("named", [False, True])
    if named:
        fw.treatment_names = ["first", "second"][:J]
    c.true("asks for the analysis", "Apply sensitivity_analysis()" in fw.sensitivity_summary)
    fw.sensitivity_analysis(cf_y=0.04, cf_d=0.07, rho=0.6, level=0.85, null_hypothesis=0.25)
    t, p = fw.sensitivity_summary, fw.sensitivity_params
    c.true("scenario", "level=0.85" in t and "cf_y=0.04; cf_d=0.07, rho=0.6" in t)
    b, r = t.split("Bounds with CI")[1].split("Robustness Values")
    c.same("order of the bounds", re.findall("CI lower|theta lower|theta upper|CI upper| theta(?= )", b.replace("  theta lower", " theta lower"))[:1], ["CI lower"])
    head = b.strip("-\n ").splitlines()[0]
    pos = [head.index(x) for x in ("CI lower", "theta lower", "theta upper", "CI upper")]
    c.same("columns of the bounds", pos, sorted(pos))
    for j in range(J):
        lab = ["first", "second"][j] if named else str(j)
        for txt, want in ((b, [p["ci"]["lower"][j], p["theta"]["lower"][j], fw.thetas[j], p["theta"]["upper"][j], p["ci"]["upper"][j]]), (r, [0.25, 100 * p["rv"][j], 100 * p["rva"][j]])):
            row = [x for x in txt.splitlines() if x.split()[:1] == [lab]]
            c.same(f"one row for {lab}", len(row), 1)
            if len(row) == 1:
                got = [float(x) for x in row[0].split()[1:]]
                c.true(f"numbers of {lab}", len(got) == len(want) and all(abs(x - y) <= 1e-4 * (1 + abs(y)) for x, y in zip(got, want)))
