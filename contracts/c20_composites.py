"""Collections of component models: potential outcomes per treatment level, quantile effects.

The component classes are replaced by recording stand-ins whose fit result is an arbitrary
inference framework (callee contract: C01-C05 of the components); the composite is constructed
and used through its public interface."""
import numpy as _np

from vc.harness import contract

from .common import Clf, Reg, framework, values

_SB = ["component models (arbitrary inference frameworks, arbitrary sensitivity elements)"]


class Parts:
    """stand-ins for the component classes of one composite"""

    def __init__(self, c, n, R, sens=False):
        self.c, self.n, self.R, self.made = c, n, R, []
        outer = self

        class Part:
            def __init__(self, *args, **kw):
                self.kw = kw
                self.args = args
                self.id = len(outer.made)
                self.splits, self.fits, self.framework = [], [], None
                outer.made.append(self)

            def set_sample_splitting(self, all_smpls, *a, **k):
                self.splits.append(all_smpls)
                self.framework = None
                return self

            def fit(self, *a, **k):
                assert not a
                self.fits.append(k)
                c_ = outer.c
                nm = f"m{self.id}f{len(self.fits)}_"
                self.framework, self.dict, _ = framework(c_, nm, n=outer.n, J=1, R=outer.R, vs=c_.np.array([1.0 * outer.n]) if not c_.symbolic else c_.np.stack([outer.n * 1.0]), sens=sens, bench=sens)
                if sens:
                    R_ = outer.R
                    self.sensitivity_elements = {
                        "sigma2": c_.arr(nm + "es2", 1, R_, 1, kind="pos"), "nu2": c_.arr(nm + "enu2", 1, R_, 1, kind="pos"),
                        "psi_sigma2": c_.arr(nm + "eps", outer.n, R_, 1), "psi_nu2": c_.arr(nm + "epn", outer.n, R_, 1),
                    }
                return self

        self.Part = Part


_X = _np.random.RandomState(5).normal(size=(60, 2))
_Y = _np.random.RandomState(6).normal(size=60)


def _splits(seed, R, K=2):
    """a stratified splitting of the 60 observations"""
    rs = _np.random.RandomState(seed)
    out = []
    for _ in range(R):
        f = _np.concatenate([rs.permutation(12) % K for _ in range(5)])
        out.append([(_np.where(f != k)[0], _np.where(f == k)[0]) for k in range(K)])
    return out


def apos(c, levels, R=1, sens=False, **kw):
    import doubleml as dml
    import doubleml.irm.apos as M

    n = c.n("n", 3)
    P = Parts(c, n, R, sens)
    c.patch(M, "DoubleMLAPO", P.Part)
    dd = dml.DoubleMLData.from_arrays(_X, _Y, _np.tile([0.0, 1.0, 2.0, 3.0, 4.0], 12))
    m = dml.DoubleMLAPOS(dd, Reg(), Clf(), levels, n_folds=2, n_rep=R, **kw)
    return m, P, dd


_LEV = [[0.0, 1.0, 2.0], [3.0, 1.0], [2.0, 4.0, 0.0, 1.0], (1.0, 0.0), [2.0]]
_TA = ["doubleml.irm.apos.DoubleMLAPOS.fit", "doubleml.irm.apos.DoubleMLAPOS._initialize_models"]


@contract("C20", targets=_TA, stubs=_SB)
def apos_components(c):
    """one model per treatment level in the given order, all options passed on, all on the model's splitting"""
    levels = c.choice("levels", _LEV)
    R = c.choice("repetitions", [1, 2])
    opt = c.choice("options", [dict(), dict(trimming_threshold=0.1, normalize_ipw=True)])
    w = c.choice("weights", [None, "array", "dict"])
    rs = _np.random.RandomState(1)
    kw = dict(opt)
    if w == "array":
        kw["weights"] = rs.uniform(size=60)
    elif w == "dict":
        kw["weights"] = {"weights": rs.uniform(size=60), "weights_bar": rs.uniform(size=(60, R))}
    m, P, dd = apos(c, levels, R, **kw)
    c.same("levels", list(m.treatment_levels), list(levels))
    c.same("levels of the models", [p.kw["treatment_level"] for p in m.modellist], list(levels))
    for i, p in enumerate(m.modellist):
        k = p.kw
        c.same(f"data {i}", (p.args[0] if p.args else k["obj_dml_data"]) is dd, True)
        c.same(f"options {i}", [k.get("n_folds"), k.get("n_rep"), k.get("trimming_threshold"), k.get("normalize_ipw"), k.get("trimming_rule"), k.get("score", "APO")],
               [2, R, opt.get("trimming_threshold", 0.01), opt.get("normalize_ipw", False), "truncate", "APO"])
        c.same(f"learners {i}", [type(k["ml_g"]), type(k["ml_m"])], [Reg, Clf])
        want = _np.ones(60) if w is None else kw["weights"]
        got = k["weights"]
        if w == "dict":
            c.same(f"weights {i}", all(_np.array_equal(got[q], want[q]) for q in want), True)
        else:
            c.same(f"weights {i}", _np.array_equal(got, want), True)
        c.same(f"splitting {i}", bool(p.splits) and p.splits[-1] is m.smpls, True)


@contract("C20", targets=_TA, stubs=_SB, weight=2)
def apos_fit(c):
    """results are those of the component models in the order of the levels"""
    levels = c.choice("levels", _LEV)
    R = c.choice("repetitions", [1, 2])
    m, P, dd = apos(c, levels, R, sens=True)
    store = c.choice("store", [(True, False), (False, True)])
    c.same("fit returns the model", m.fit(store_predictions=store[0], store_models=store[1], n_jobs_cv=1) is m, True)
    L = m.modellist
    c.same("every component fitted once", [len(p.fits) for p in L], [1] * len(levels))
    for p in L:
        f = p.fits[0]
        c.same(f"fit options {p.id}", [f.get("store_predictions"), f.get("store_models"), f.get("n_jobs_cv"), f.get("external_predictions")], [*store, 1, None])
    for i, p in enumerate(L):
        c.eq(f"estimate {i}", m.coef[i], p.dict["thetas"][0])
        c.eq(f"standard error {i}", m.se[i], p.dict["ses"][0])
        c.eq(f"estimates per repetition {i}", m.all_coef[i, :], p.dict["all_thetas"][0, :])
        c.eq(f"standard errors per repetition {i}", m.all_se[i, :], p.dict["all_ses"][0, :])
        c.eq(f"score {i}", m.framework.scaled_psi[:, i, :], p.dict["scaled_psi"][:, 0, :])
        c.eq(f"max bias {i}", m.framework.sensitivity_elements["max_bias"][0, i, :], p.dict["sensitivity_elements"]["max_bias"][0, 0, :])
    ci = values(m.confint(level=0.9))
    for i, p in enumerate(L):
        c.eq(f"interval {i}", ci[i, :], values(p.framework.confint(level=0.9))[0, :])


@contract("C20", targets=["doubleml.irm.apos.DoubleMLAPOS.causal_contrast"], stubs=_SB, weight=2)
def contrast(c):
    """level minus reference for every pair with a requested reference, exactly once; worst case sensitivity elements of the pair"""
    R = c.choice("repetitions", [1, 2])
    levels, refs = c.choice("levels and references", [
        ([0.0, 1.0, 2.0], 0.0), ([0.0, 1.0, 2.0], [2.0]), ([2.0, 0.0, 1.0], [0.0, 2.0]), ([2.0, 0.0, 1.0], [1.0, 2.0, 0.0]), ([1.0, 3.0], (3.0,)), ([4.0, 2.0, 0.0, 1.0], [0.0, 1.0]), ([0.0, 1.0, 2.0], [2.0, 0.0]),
    ])
    m, P, dd = apos(c, levels, R, sens=True)
    c.raises("before fit", ValueError, m.causal_contrast, refs)
    m.fit()
    L = {lv: p for lv, p in zip(levels, m.modellist)}
    snap = [values(p.framework.thetas) + 0.0 for p in m.modellist]
    acc = m.causal_contrast(refs)
    seen, want = [], []
    for ref in refs if isinstance(refs, (list, tuple)) else [refs]:
        seen.append(ref)
        want += [(lv, ref) for lv in levels if lv not in seen]
    names = [f"{a} vs {b}" for a, b in want]
    c.same("pairs", sorted(acc.treatment_names), sorted(names))
    if sorted(acc.treatment_names) != sorted(names):
        return
    np = c.np
    for nm, (a, b) in zip(names, want):
        q = list(acc.treatment_names).index(nm)
        A, B = L[a], L[b]
        c.eq(f"{nm}: estimates", acc.all_thetas[q, :], A.dict["all_thetas"][0, :] - B.dict["all_thetas"][0, :])
        c.eq(f"{nm}: score", acc.scaled_psi[:, q, :], A.dict["scaled_psi"][:, 0, :] - B.dict["scaled_psi"][:, 0, :])
        ea, eb = A.sensitivity_elements, B.sensitivity_elements
        s2, nu2 = (ea["sigma2"] + eb["sigma2"])[0, :, 0] / 2, (ea["nu2"] + eb["nu2"])[0, :, 0]
        e = acc.sensitivity_elements
        c.eq(f"{nm}: sigma2", e["sigma2"][0, q, :], s2)
        c.eq(f"{nm}: nu2", e["nu2"][0, q, :], nu2)
        c.eq(f"{nm}: max bias squared", e["max_bias"][0, q, :] ** 2, s2 * nu2)
        ps, pn = (ea["psi_sigma2"] + eb["psi_sigma2"])[:, :, 0] / 2, (ea["psi_nu2"] + eb["psi_nu2"])[:, :, 0]
        for r in range(R):
            c.eq(f"{nm}: influence of the max bias rep{r}", 2 * e["max_bias"][0, q, r] * e["psi_max_bias"][:, q, r], s2[r] * pn[:, r] + nu2[r] * ps[:, r])
    for p, s in zip(m.modellist, snap):
        c.eq(f"component {p.id} untouched", p.framework.thetas, s)
    for bad in (5.0, [0.5], [levels[0], 9.0], "a"):
        c.raises(f"reference {bad!r} refused", ValueError, m.causal_contrast, bad)


@contract("C20", targets=["doubleml.irm.apos.DoubleMLAPOS.causal_contrast"], stubs=_SB)
def single_level(c):
    m, P, dd = apos(c, c.choice("level", [[2.0], 3.0]), 1, sens=True)
    m.fit()
    c.raises("no contrast with one level", ValueError, m.causal_contrast, m.treatment_levels[0])


@contract("C20", targets=["doubleml.irm.apos.DoubleMLAPOS.set_sample_splitting", "doubleml.irm.apos.DoubleMLAPOS.draw_sample_splitting"], stubs=_SB)
def apos_splitting(c):
    """a drawn or supplied splitting reaches the models of all levels; further results need a new fit"""
    levels = c.choice("levels", _LEV[:3])
    R = c.choice("repetitions", [1, 2])
    start = c.choice("drawn at construction", [True, False])
    m, P, dd = apos(c, levels, R, draw_sample_splitting=start)
    if not start:
        c.same("no model before a splitting", [p for p in P.made if p.splits], [])
    ops = c.choice("splittings", [("draw",), ("set",), ("draw", "set"), ("set", "draw"), ("draw", "draw")])
    fitted = c.choice("fit before", [False, True]) and start
    if fitted:
        m.fit()
    for q, op in enumerate(ops):
        if op == "draw":
            c.same("returns the model", m.draw_sample_splitting() is m, True)
        else:
            sm = _splits(3 + q, R)
            c.same("returns the model", m.set_sample_splitting(sm) is m, True)
            c.same("the supplied splitting", [[sorted(map(int, t)) for _, t in s] for s in m.smpls], [[sorted(map(int, t)) for _, t in s] for s in sm])
        c.same(f"levels after {op} {q}", [p.kw["treatment_level"] for p in m.modellist], list(levels))
        c.same(f"all models on the splitting after {op} {q}", [bool(p.splits) and p.splits[-1] is m.smpls for p in m.modellist], [True] * len(levels))
        c.raises(f"confint after {op} {q}", ValueError, m.confint)
        c.raises(f"bootstrap after {op} {q}", ValueError, m.bootstrap)
    m.fit()
    for i, p in enumerate(m.modellist):
        c.eq(f"estimate {i}", m.coef[i], p.dict["thetas"][0])
        c.same(f"fitted on the last splitting {i}", p.splits[-1] is m.smpls, True)


@contract("C20", targets=_TA + ["doubleml.irm.apos.DoubleMLAPOS._rename_external_predictions"], stubs=_SB)
def apos_external(c):
    """supplied predictions reach the model of their treatment level, under the treatment column; others get none"""
    levels = c.choice("levels", [[0.0, 1.0, 2.0], [2.0, 0.0]])
    m, P, dd = apos(c, levels, 1)
    which = c.choice("supplied for", [(0,), (1,), (0, 1)])
    keys = c.choice("nuisances", [("ml_m",), ("ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"), ("ml_g_d_lvl1",), ()])
    ext = {levels[i]: {k: _np.full((60, 1), i + 0.1 * q) for q, k in enumerate(keys)} for i in which}
    m.fit(external_predictions=ext)
    col = dd.d_cols[0]
    for i, p in enumerate(m.modellist):
        got = p.fits[0].get("external_predictions") or {col: {}}
        got = {k: v for k, v in got.get(col, {}).items() if v is not None}
        want = ext.get(levels[i], {})
        c.same(f"nuisances of level {levels[i]}", sorted(got), sorted(want))
        c.same(f"arrays of level {levels[i]}", all(got[k] is want[k] or _np.array_equal(got[k], want[k]) for k in got if k in want), True)
    for bad, err in (([1], TypeError), ({9.0: {}}, ValueError), ({levels[0]: [1]}, TypeError), ({levels[0]: {"ml_g": 1}}, ValueError)):
        c.raises(f"external predictions {bad!r} refused", err, m.fit, external_predictions=bad)


@contract("C20", targets=["doubleml.irm.apos.DoubleMLAPOS._check_treatment_levels"], stubs=_SB)
def levels_refused(c):
    import doubleml as dml

    bad = c.choice("levels", [[0.0, 7.0], 9.0, [0.5], ["a"], [0.0, 1.0, 2.0, 3.0, 4.0, 5.0]])
    c.raises("levels not in the data refused", ValueError, apos, c, bad)


# ---------------------------------------------------------------- quantile treatment effects


def qte(c, score, quantiles, R=1, **kw):
    import doubleml as dml
    import doubleml.irm.qte as M

    n = c.n("n", 3)
    P = {}
    cls = {"PQ": "DoubleMLPQ", "LPQ": "DoubleMLLPQ", "CVaR": "DoubleMLCVAR"}
    made = Parts(c, n, R)
    for s, nm in cls.items():
        P[s] = type(nm, (made.Part,), {"kind": s})
        c.patch(M, nm, P[s])
    d = _np.tile([0.0, 1.0], 30)
    dd = dml.DoubleMLData.from_arrays(_X, _Y, d, *([_np.tile([0.0, 0.0, 1.0, 1.0], 15)] if score == "LPQ" else []))
    m = dml.DoubleMLQTE(dd, Reg() if score == "CVaR" else Clf(), Clf(), quantiles=quantiles, n_folds=2, n_rep=R, score=score, **kw)
    return m, made, dd


_QS = [[0.25, 0.5, 0.75], [0.9, 0.1], 0.3, _np.array([0.5, 0.2])]
_TQ = ["doubleml.irm.qte.DoubleMLQTE.fit", "doubleml.irm.qte.DoubleMLQTE._initialize_models"]


@contract("C20", targets=_TQ, stubs=_SB)
def qte_components(c):
    """per quantile one untreated and one treated model of the score's class, on the common splitting"""
    score = c.choice("score", ["PQ", "LPQ", "CVaR"])
    q = c.choice("quantiles", _QS)
    R = c.choice("repetitions", [1, 2])
    opt = c.choice("options", [dict(), dict(trimming_threshold=0.1, normalize_ipw=False, kde=lambda u, w: 1.0)])
    m, P, dd = qte(c, score, q, R, **opt)
    want = [float(x) for x in _np.atleast_1d(q)]
    c.same("quantiles", [float(x) for x in m.quantiles], want)
    for t, L in ((0, m.modellist_0), (1, m.modellist_1)):
        c.same(f"quantiles of the models of arm {t}", [float(p.kw["quantile"]) for p in L], want)
        c.same(f"arm {t}", [p.kw["treatment"] for p in L], [t] * len(want))
        c.same(f"class of arm {t}", [p.kind for p in L], [score] * len(want))
        for p in L:
            k = p.kw
            c.same(f"options {p.id}", [k.get("n_folds"), k.get("n_rep"), k.get("trimming_threshold"), k.get("normalize_ipw")], [2, R, opt.get("trimming_threshold", 0.01), opt.get("normalize_ipw", True)])
            c.same(f"data {p.id}", (p.args[0] if p.args else k["obj_dml_data"]) is dd, True)
            c.same(f"learners {p.id}", [type(k["ml_g"]), type(k["ml_m"])], [Reg if score == "CVaR" else Clf, Clf])
            c.same(f"splitting {p.id}", bool(p.splits) and p.splits[-1] is m.smpls, True)
            if score != "CVaR" and "kde" in opt:
                c.same(f"kernel density estimate {p.id}", k.get("kde") is opt["kde"], True)
    c.same("distinct models", len({id(p) for p in m.modellist_0 + m.modellist_1}), 2 * len(want))


@contract("C20", targets=_TQ, stubs=_SB, weight=2)
def qte_fit(c):
    """per quantile: treated minus untreated estimates and scores"""
    q = c.choice("quantiles", _QS)
    R = c.choice("repetitions", [1, 2])
    m, P, dd = qte(c, c.choice("score", ["PQ", "CVaR"]), q, R)
    for k in range(c.choice("fits", [1, 2])):
        store = [(True, False), (False, True)][k]
        c.same("fit returns the model", m.fit(store_predictions=store[0], store_models=store[1]) is m, True)
        for i, (a, b) in enumerate(zip(m.modellist_0, m.modellist_1)):
            c.same(f"fitted once more {i}", [len(a.fits), len(b.fits)], [k + 1] * 2)
            for p in (a, b):
                c.same(f"fit options {p.id}", [p.fits[-1].get("store_predictions"), p.fits[-1].get("store_models")], list(store))
            c.eq(f"estimates {i} fit{k}", m.all_coef[i, :], b.dict["all_thetas"][0, :] - a.dict["all_thetas"][0, :])
            c.eq(f"score {i} fit{k}", m.framework.scaled_psi[:, i, :], b.dict["scaled_psi"][:, 0, :] - a.dict["scaled_psi"][:, 0, :])
            d = b.framework - a.framework
            c.eq(f"estimate {i} fit{k}", m.coef[i], d.thetas[0])
            c.eq(f"standard errors {i} fit{k}", m.all_se[i, :], d.all_ses[0, :])
    ci = m.confint(level=0.9)
    for i, (a, b) in enumerate(zip(m.modellist_0, m.modellist_1)):
        c.eq(f"interval {i}", values(ci)[i, :], values((b.framework - a.framework).confint(level=0.9))[0, :])
    c.raises("external predictions refused", NotImplementedError, m.fit, external_predictions={"d": {}})


@contract("C20", targets=["doubleml.irm.qte.DoubleMLQTE.set_sample_splitting", "doubleml.irm.qte.DoubleMLQTE.draw_sample_splitting", "doubleml.irm.apos.DoubleMLAPOS.set_sample_splitting"], stubs=_SB)
def splitting_resets(c):
    """a drawn or supplied splitting replaces the models of both arms; further results need a new fit"""
    q = c.choice("quantiles", _QS[:2])
    R = c.choice("repetitions", [1, 2])
    start = c.choice("drawn at construction", [True, False])
    m, P, dd = qte(c, c.choice("score", ["PQ", "LPQ"]), q, R, draw_sample_splitting=start)
    if start and c.choice("fit before", [False, True]):
        m.fit()
    for k, op in enumerate(c.choice("splittings", [("draw",), ("set",), ("draw", "set"), ("set", "draw")])):
        if op == "draw":
            c.same("returns the model", m.draw_sample_splitting() is m, True)
        else:
            sm = _splits(3 + k, R)
            c.same("returns the model", m.set_sample_splitting(sm) is m, True)
            c.same("the supplied splitting", [[sorted(map(int, t)) for _, t in s] for s in m.smpls], [[sorted(map(int, t)) for _, t in s] for s in sm])
        L = m.modellist_0 + m.modellist_1
        c.same(f"all models on the splitting after {op} {k}", [bool(p.splits) and p.splits[-1] is m.smpls for p in L], [True] * len(L))
        c.raises(f"confint after {op} {k}", ValueError, m.confint)
        c.raises(f"bootstrap after {op} {k}", ValueError, m.bootstrap)
    m.fit()
    for i, (a, b) in enumerate(zip(m.modellist_0, m.modellist_1)):
        c.eq(f"estimates {i}", m.all_coef[i, :], b.dict["all_thetas"][0, :] - a.dict["all_thetas"][0, :])


@contract("C20", targets=["doubleml.irm.apos.DoubleMLAPOS.bootstrap", "doubleml.irm.qte.DoubleMLQTE.bootstrap"], stubs=_SB, weight=2)
def inference(c):
    """bootstrap, joint intervals and adjustment act on all components with common multipliers"""
    from .common import stub_random

    kind = c.choice("model", ["apos", "qte"])
    if kind == "apos":
        m, P, dd = apos(c, [2.0, 0.0, 1.0])
    else:
        m, P, dd = qte(c, "PQ", [0.7, 0.2])
    for f in ("confint", "bootstrap", "p_adjust") if hasattr(m, "p_adjust") else ("confint", "bootstrap"):
        c.raises(f"{f} before fit", ValueError, getattr(m, f))
    m.fit()
    draws = stub_random(c)
    B = 3
    m.bootstrap(method="normal", n_rep_boot=B)
    c.same("one set of multipliers", len(draws), 1)
    c.same("replications", [m.n_rep_boot, m.boot_method], [B, "normal"])
    np = c.np
    w = draws[0][1]
    for i in range(len(m.coef)):
        for b in range(B):
            s = np.mean(w[b, :] * m.framework.scaled_psi[:, i, 0]) / m.all_se[i, 0]
            c.eq(f"statistic {i} {b}", m.boot_t_stat[b, i, 0], s)


@contract("C20", targets=["doubleml.irm.qte.DoubleMLQTE._check_quantile"], stubs=_SB)
def quantiles_refused(c):
    bad = c.choice("quantiles", [0.0, 1.0, [0.5, 1.0], [-0.1, 0.5], 2, [0.2, 0.0, 0.4]])
    c.raises("quantiles outside (0, 1) refused", ValueError, qte, c, "PQ", bad)
    c.raises("unknown score refused", ValueError, qte, c, "quantile", 0.5)
