from vc.harness import contract

from .common import NS


@contract("C02", targets=["doubleml.double_ml_score_mixins.LinearScoreMixin._est_coef"])
def linear_root(c):
    """mean(psi_a * coef + psi_b) == 0 for every score array"""
    from doubleml.double_ml_score_mixins import LinearScoreMixin

    class Toy(LinearScoreMixin):
        _is_cluster_data = False

    n = c.n("n", 1)
    pa, pb = c.arr("pa", n), c.arr("pb", n)
    o = Toy()
    coef = c.call(o, "_est_coef", {"psi_a": pa, "psi_b": pb})
    psi = c.call(o, "_compute_score", {"psi_a": pa, "psi_b": pb}, coef)
    c.eq("score is psi_a*theta+psi_b", psi, pa * coef + pb)
    c.eq("score derivative is psi_a", c.call(o, "_compute_score_deriv", {"psi_a": pa, "psi_b": pb}, coef), pa)
    c.assume(c.np.sum(pa) != 0)
    c.eq("moment condition", c.np.mean(psi), 0)


@contract("C02", targets=["doubleml.double_ml_score_mixins.LinearScoreMixin._est_coef"])
def linear_root_subset(c):
    from doubleml.double_ml_score_mixins import LinearScoreMixin

    class Toy(LinearScoreMixin):
        _is_cluster_data = False

    n = c.n("n", 2)
    pa, pb = c.arr("pa", n), c.arr("pb", n)
    inds = c.sel("inds", n)
    c.assume(c.np.sum(c.np.ones(n)[inds]) > 0)
    c.assume(c.np.sum(pa[inds]) != 0)
    coef = c.call(Toy(), "_est_coef", {"psi_a": pa, "psi_b": pb}, inds=inds)
    c.eq("moment condition on the subset", c.np.sum((pa * coef + pb)[inds]), 0)


@contract("C02", targets=["doubleml.double_ml_score_mixins.LinearScoreMixin._est_coef"])
def linear_root_cluster(c):
    """Clustered data: sum_k s_k sum_{i in fold k} psi_i == 0, any number of folds."""
    from doubleml.double_ml_score_mixins import LinearScoreMixin

    class Toy(LinearScoreMixin):
        _is_cluster_data = True

    n, K = c.n("n", 1), c.n("K", 1)
    pa, pb = c.arr("pa", n), c.arr("pb", n)
    sf = c.arr("sf", K, kind="pos")
    smpls = c.partition("fold", n, K)
    coef = c.call(Toy(), "_est_coef", {"psi_a": pa, "psi_b": pb}, smpls=smpls, scaling_factor=sf)
    f = c.folds("fold", n, K)
    den = c.sum(K, lambda k: sf[k] * c.np.sum(c.np.where(f == k, pa, 0.0)))
    c.assume(den != 0)
    c.eq("weighted moment condition", c.sum(K, lambda k: sf[k] * c.np.sum(c.np.where(f == k, pa * coef + pb, 0.0))), 0)


def stub_fit(c, R=2, J=2, n=None, sensitivity=False):
    """A real DoubleMLPLR object whose learners are replaced by an arbitrary
    score-element producer (callee contract of _nuisance_est)."""
    import doubleml as dml

    from .common import Reg, data

    n = c.n("n", 4) if n is None else n
    d = [c.arr(f"d{j}", n) for j in range(J)]
    obj_data = data(c, n, y=c.arr("y", n), d=d)
    smpls = [c.partition(f"fold{r}", n, 2) for r in range(R)]
    m = dml.DoubleMLPLR(obj_data, Reg(), Reg(), n_folds=2, n_rep=R, draw_sample_splitting=False)
    m._smpls = smpls
    el = {(r, j): (c.arr(f"pa_{r}{j}", n), c.arr(f"pb_{r}{j}", n)) for r in range(R) for j in range(J)}
    pr = {(r, j): (c.arr(f"l_{r}{j}", n), c.arr(f"m_{r}{j}", n)) for r in range(R) for j in range(J)}
    if not sensitivity:
        m._sensitivity_implemented = False
    calls = []

    def nuisance_est(smpls_, n_jobs_cv, return_models=False, external_predictions=None, **kw):
        r = [q for q in range(R) if smpls_ is m._smpls[q]]
        j = [q for q in range(J) if obj_data.d_cols[q] == obj_data.d_cols[m._i_treat]]
        key = (r[0], j[0])
        calls.append(key)
        pa, pb = el[key]
        preds = {
            "predictions": {"ml_l": pr[key][0], "ml_m": pr[key][1]},
            "targets": {"ml_l": obj_data.y, "ml_m": obj_data.d},
            "models": {"ml_l": None, "ml_m": None},
        }
        return {"psi_a": pa, "psi_b": pb}, preds

    m._nuisance_est = nuisance_est
    return m, obj_data, n, el, pr, calls, d


@contract(
    "C02",
    targets=["doubleml.double_ml.DoubleML.fit", "doubleml.double_ml.DoubleML._est_causal_pars"],
    stubs=["_nuisance_est (arbitrary score elements)"],
    weight=5,
)
def fit_moment_condition(c):
    R, J = 2, 3
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    for r in range(R):
        for j in range(J):
            pa, pb = el[(r, j)]
            th = m.all_coef[j, r]
            c.eq(f"moment condition rep{r} treat{j}", c.np.mean(pa * th + pb), 0)
            c.eq(f"stored score rep{r} treat{j}", m.psi[:, r, j], pa * th + pb)
            c.eq(f"stored score derivative rep{r} treat{j}", m.psi_deriv[:, r, j], pa)
            c.eq(f"stored element a rep{r} treat{j}", m.psi_elements["psi_a"][:, r, j], pa)
            c.eq(f"stored element b rep{r} treat{j}", m.psi_elements["psi_b"][:, r, j], pb)
    c.same("every repetition and treatment is estimated once", sorted(calls), sorted(el))


@contract(
    "C02",
    targets=["doubleml.double_ml_score_mixins.NonLinearScoreMixin._est_coef"],
    stubs=[
        "scipy.optimize.root_scalar (the returned point is a root of the function it is given)",
        "scipy.optimize.fmin_l_bfgs_b (some point inside the bounds)",
        "_get_bracket_guess (arbitrary bracket; own contract)",
    ],
    samples=16,
)
def nonlinear_root(c):
    """The score function handed to the root finder is the (weighted) average score over
    the requested observations, and the estimate is the root it returns; with bounds, a
    second search starts where the squared score is smallest, and only then is the
    absolute score minimised instead."""
    import numpy as np

    M = c.target("doubleml.double_ml_score_mixins")
    data = c.choice("data", ["all", "subset", "cluster"])
    bounds = c.choice("bounds", ["none", "left infinite", "right infinite", "finite"])
    sym = c.symbolic

    def scalar(t):
        return t[0] if hasattr(t, "shape") and len(t.shape) == 1 else t

    def G(t):
        t = scalar(t)
        return c.fun("G", t) if sym else t + 0.2 * np.sin(t)

    def dG(t):
        t = scalar(t)
        return c.fun("dG", t) if sym else 1 + 0.2 * np.cos(t)

    class Toy(M.NonLinearScoreMixin):
        _is_cluster_data = data == "cluster"
        _score_element_names = ["u", "v"]

        def _compute_score(self, el, theta):
            return el["u"] * G(theta) + el["v"]

        def _compute_score_deriv(self, el, theta):
            return el["u"] * dG(theta)

    n = c.n("n", 2)
    u, v = c.arr("u", n, kind="pos"), c.arr("v", n)
    kw, K = {}, 1
    w = c.np.ones(n)
    if data == "subset":
        kw["inds"] = c.sel("inds", n)
        c.assume(c.np.sum(w[kw["inds"]]) > 0)
    if data == "cluster":
        K = c.n("K", 1)
        kw["smpls"], kw["scaling_factor"] = c.partition("fold", n, K), c.arr("sf", K, kind="pos")
        f = c.folds("fold", n, K)

    def S(t):
        psi = u * G(t) + v
        if data == "all":
            return c.np.mean(psi)
        if data == "subset":
            return c.np.mean(psi[kw["inds"]])
        return c.sum(K, lambda k: kw["scaling_factor"][k] * c.np.sum(c.np.where(f == k, psi, 0.0)))

    def dS(t):
        psi = u * dG(t)
        if data == "all":
            return c.np.mean(psi)
        if data == "subset":
            return c.np.mean(psi[kw["inds"]])
        return c.sum(K, lambda k: kw["scaling_factor"][k] * c.np.sum(c.np.where(f == k, psi, 0.0)))

    o = Toy()
    start = c.real("start", -1, 1)
    lo, hi = c.real("lo", -3, -1), c.real("hi", 1, 3)
    o._coef_start_val = start
    o._coef_bounds = {
        "none": None,
        "left infinite": (-np.inf, hi),
        "right infinite": (lo, np.inf),
        "finite": (lo, hi),
    }[bounds]
    el = {"u": u, "v": v}
    if not sym:
        import warnings

        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            est = o._est_coef(el, **kw)
        scale = abs(S(0.0)) + abs(dS(0.0)) + 1e-12
        if bounds != "finite" or S(lo) * S(hi) < 0:
            c.true("the estimate is a root", abs(S(est)) <= 1e-5 * scale)
        else:
            # no root inside the bounds: the end point where the score is closest to zero
            best = lo if abs(S(lo)) < abs(S(hi)) else hi
            c.true("without a root the score closest to zero", abs(est - best) <= 1e-4 * (hi - lo))
            c.true("a missing root is reported", any("Could not find a root" in str(x.message) for x in caught))
        c.true("estimate inside the bounds", bounds != "finite" or lo - 1e-9 <= est <= hi + 1e-9)
        return

    probe, root = c.real("probe"), c.real("root")
    alt, last = c.real("alt", -3, 3, strict=False), c.real("last", -3, 3, strict=False)
    found = [c.bool("found1"), c.bool("found2")]
    log, guesses, mins = [], [], []

    class Res:
        pass

    def root_scalar(fun, bracket=None, method=None, x0=None, fprime=None, **extra):
        c.true("no unexpected root finder options", not extra)
        c.eq("root finder is given the average score", fun(probe), S(probe))
        if bracket is None:
            c.true("newton needs derivative and start", method == "newton" and fprime is not None)
            c.eq("root finder is given the derivative", fprime(probe), dS(probe))
            c.eq("root finder starts at the start value", x0, start)
        else:
            c.true("bracketing method", method in ("brentq", "brenth", "ridder", "bisect", "toms748"))
            c.true("bracket of the last search", bracket is guesses[-1][1])
            c.assume(guesses[-1][0])
        log.append("root")
        c.assume(S(root) == 0)
        r = Res()
        r.root, r.converged, r.flag = root, True, "converged"
        return r

    def bracket_guess(fun, x0, bnds):
        k = len(guesses)
        c.true("at most two bracket searches", k < 2)
        c.eq("search is given the average score", fun(probe), S(probe))
        c.true("search is given the bounds", bnds is o._coef_bounds or (bnds[0] is lo and bnds[1] is hi))
        c.eq("search %d starts at" % (k + 1), scalar(x0), start if k == 0 else alt)
        b = (c.real(f"a{k}"), c.real(f"b{k}"))
        guesses.append((found[k], b))
        return found[k], b

    def fmin(func, x0, fprime=None, approx_grad=False, bounds=None, **extra):
        c.true("gradient is approximated", fprime is None and approx_grad)
        c.true("one bound pair", len(bounds) == 1)
        c.eq("lower bound of the minimisation", bounds[0][0], lo)
        c.eq("upper bound of the minimisation", bounds[0][1], hi)
        mins.append((func(probe), scalar(x0)))
        res = alt if len(mins) == 1 else last
        return c.np.array([res]), func(res), {"warnflag": 0}

    c.patch(M, "root_scalar", root_scalar)
    c.patch(M, "_get_bracket_guess", bracket_guess)
    c.patch(M, "fmin_l_bfgs_b", fmin)
    est = c.call(o, "_est_coef", el, **kw)
    if bounds != "finite":
        c.true("one unbounded search", log == ["root"] and not guesses and not mins)
        c.eq("the estimate is a root", S(est), 0)
        return
    if log:
        c.true("one root finder call", log == ["root"])
        c.eq("the estimate is a root", S(est), 0)
    if len(guesses) == 1:
        c.true("a bracket found at once needs no minimisation", not mins)
    else:
        c.true("second search only if the first fails", c.lnot(found[0]))
        c.eq("second start minimises the squared score", mins[0][0], S(probe) * S(probe))
        c.eq("minimisation starts at the start value", mins[0][1], start)
    if not log:
        c.true("no root only if both searches fail", c.land(c.lnot(found[0]), c.lnot(found[1])))
        c.true("two minimisations", len(mins) == 2)
        c.eq("the estimate is the last minimiser", est, last)
        pos = S(alt) > 0
        c.eq("absolute score is minimised", mins[1][0], c.ite(pos, S(probe), -S(probe)))


@contract("C02", targets=["doubleml.utils._estimation._get_bracket_guess"], samples=30)
def bracket_guess(c):
    """a reported bracket lies inside the bounds, around the start value, and the function
    changes sign on it; a monotone function with a root in the half-wide interval is bracketed"""
    E = c.target("doubleml.utils._estimation")
    lo = c.real("lo", -2, 2)
    w = c.real("width", 0.5, 4)
    hi = lo + w
    start = c.real("start", 0, 1) * w + lo
    r = c.real("rootpos", -0.4, 1.4) * w + lo
    sgn = c.choice("sign", [1, -1])

    def score(t):
        return sgn * (t - r)

    found, b = c.call(E, "_get_bracket_guess", score, start, (lo, hi))
    c.le("lower end inside the bounds", lo, b[0])
    c.le("upper end inside the bounds", b[1], hi)
    c.le("lower end at most the start", b[0], start)
    c.le("upper end at least the start", start, b[1])
    half = 0.5 * w
    a1, b1 = c.np.maximum(start - half, lo), c.np.minimum(start + half, hi)
    c.true("no root outside is bracketed", c.implies(found, c.land(b[0] <= r, r <= b[1])))
    c.true("a root inside is bracketed", c.implies(c.land(a1 < r, r < b1), found))


@contract("C02", targets=["doubleml.double_ml.DoubleML._est_causal_pars_and_se"], weight=3)
def re_estimate(c):
    """re-estimation from stored score elements: every estimate is the root of its own score"""
    R, J = 2, 3
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for (r, j), (pa, pb) in el.items():
        c.assume(c.np.sum(pa) != 0)
        m._set_score_elements({"psi_a": pa, "psi_b": pb}, r, j)
    c.call(m, "_est_causal_pars_and_se")
    for (r, j), (pa, pb) in el.items():
        th = m.all_coef[j, r]
        c.eq(f"moment condition rep{r} treat{j}", c.np.mean(pa * th + pb), 0)
        c.eq(f"stored score rep{r} treat{j}", m.psi[:, r, j], pa * th + pb)
        c.eq(f"stored score derivative rep{r} treat{j}", m.psi_deriv[:, r, j], pa)
        c.eq(f"squared error rep{r} treat{j}", m.all_se[j, r] ** 2, c.np.mean((pa * th + pb) ** 2) / (n * c.np.mean(pa) ** 2))
    for j in range(J):
        c.eq(f"median over repetitions {j}", m.coef[j], c.np.median(m.all_coef[j, :]))
    c.same("no learner is fitted", calls, [])


@contract("C02", targets=["doubleml.utils._estimation._solve_ipw_score"], stubs=["scipy.optimize.minimize_scalar (some minimiser)"])
def preliminary_root(c):
    """the preliminary quantile minimises the absolute moment, searched from the given bracket"""
    E = c.target("doubleml.utils._estimation")
    r, s = c.real("root", -1, 1), c.choice("slope", [1.5, -0.5])

    def score(t):
        return s * (t - r)

    if not c.symbolic:
        est = E._solve_ipw_score(score, (r - 0.3, r + 0.5))
        c.true("the moment vanishes", abs(est - r) < 1e-5)
        return
    probe, found = c.real("probe"), c.real("found")
    a, b = c.real("a"), c.real("b")
    seen = []

    class Res:
        x = found

    def minimize_scalar(fun, bracket=None, method="brent", **k):
        seen.append(bracket)
        c.eq("objective", fun(probe), c.ite(score(probe) >= 0, score(probe), -score(probe)))
        return Res()

    c.patch(E, "minimize_scalar", minimize_scalar)
    c.eq("the minimiser", c.call(E, "_solve_ipw_score", score, (a, b)), found)
    c.same("one search", len(seen), 1)
    c.true("from the bracket", c.land(seen[0][0] == a, seen[0][1] == b))
