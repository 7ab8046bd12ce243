"""Fitted state: every reported quantity belongs to the most recent fit and splitting."""
import re

from vc.harness import contract

from . import crossfit as CF
from .c12_propensity import _MODELS, construct
from .common import Clf, Reg, values

_T = ["doubleml.double_ml.DoubleML.fit", "doubleml.double_ml.DoubleML._initalize_fit"]
_S = ["cross_val_predict (scikit-learn's contract: a fresh clone per split)", "variance estimator (C03)"]
_REFUSE = ["confint", "bootstrap", "p_adjust", "sensitivity_analysis"]


class Var:
    """callee contract of the variance estimator (C03): a positive number of the score it is given"""

    def __init__(self, c, n):
        self.c, self.n, self.calls = c, n, []
        if c.symbolic:
            import doubleml.double_ml as D

            def var_est(psi, psi_deriv, *a, **kw):
                k = len(self.calls)
                self.calls.append((psi, psi_deriv))
                return c.real(f"variance_{k}", lo=0), n

            c.patch(D, "_var_est", var_est)

    def check(self, lab, se, psi, dpsi, mark):
        c = self.c
        if not c.symbolic:
            np = c.np
            c.eq(f"{lab} standard error is that of the stored score", se**2, np.mean(psi**2) / (self.n * np.mean(dpsi) ** 2))
            return
        from vc import sym as Y
        from vc import terms as T

        ids = {int(x) for x in re.findall(r"\bvariance_(\d+)\b", T.show(Y.num(se)))}
        if len(ids) != 1 or min(ids) < mark:
            c.fail(f"{lab} standard error is that of the stored score", f"variance estimates involved: {sorted(ids)}, current fit starts at {mark}")
            return
        (k,) = ids
        p, dp = self.calls[k]
        c.eq(f"{lab} standard error is that of the stored score", c.land(c.np.all(p == psi), c.np.all(dp == dpsi)), True)


def fresh(c, lab, a, mark, before):
    """a is made of copies fitted in the current fit only"""
    if not c.symbolic:
        import numpy as np

        if before is not None and before.shape == a.shape and a.size:
            c.true(f"{lab} is from the last fit", bool(np.any(before != a)))
        return
    from vc import sym as Y
    from vc import terms as T

    a = Y.lift(a)
    k = T.fresh("i")
    ids = {int(x) for x in re.findall(r"\bfit(\d+)\(", T.show(Y.ton(a.fn(k))))}
    c.true(f"{lab} is from the last fit", bool(ids) and min(ids) >= mark)


def state(c, w, o, v, mark, vmark, stored=True, models=False, before=None):
    m, R, J = o.m, o.R, len(o.d)
    np = c.np
    c.same("one entry per treatment and repetition", [m.psi.shape[1:], m.psi_deriv.shape[1:], m.all_coef.shape, m.all_se.shape], [(R, J), (R, J), (J, R), (J, R)])
    c.same("predictions stored on request", m.predictions is not None, stored)
    c.same("models stored on request", m.models is not None, models)
    fw = m.framework
    for r in range(R):
        for j in range(J):
            lab = f"rep{r} treatment{j}"
            pa, pb = (m.psi_elements[k][:, r, j] for k in ("psi_a", "psi_b"))
            fresh(c, f"{lab} score", pb, mark, before and before.get((r, j)))
            if stored:
                for s in o.specs(r, j):
                    for rec in w.check(f"{lab} {s.key}", m.predictions[s.key][:, r, j], m._smpls[r], s.name, s.target, s.X, s.cond, s.post):
                        c.true(f"{lab} {s.key} is from the last fit", rec.u >= mark)
                    if s.cond is None and not callable(s.target):
                        c.eq(f"{lab} {s.key} stored targets", m.nuisance_targets[s.key][:, r, j], s.target)
                a, b = o.score(r, j)
                c.eq(f"{lab} stored predictions are those of the score a", pa, a)
                c.eq(f"{lab} stored predictions are those of the score b", pb, b)
            if models:
                for s in o.specs(r, j):
                    got = m.models[s.key][o.dd.d_cols[j]]
                    c.same(f"{lab} {s.key}: one list of models per repetition", len(got), R)
                    c.same(f"{lab} {s.key}: models of the last fit", all(e.uid_ >= mark for e in got[r]), True)
                    if stored:
                        for k, (tr, te) in enumerate(m._smpls[r]):
                            c.eq(f"{lab} {s.key} fold{k}: model made the prediction", m.predictions[s.key][te, r, j], s.post(w.predict(got[r][k].uid_, s.X[te, :])))
            th = m.all_coef[j, r]
            c.eq(f"{lab} stored score", m.psi[:, r, j], pa * th + pb)
            c.eq(f"{lab} stored derivative", m.psi_deriv[:, r, j], pa)
            c.eq(f"{lab} estimate solves the stored score", th, -np.mean(pb) / np.mean(pa))
            v.check(lab, m.all_se[j, r], m.psi[:, r, j], m.psi_deriv[:, r, j], vmark)
            c.eq(f"{lab} inference uses the stored score", fw.scaled_psi[:, j, r], m.psi[:, r, j] / np.mean(pa))
    for j in range(J):
        c.eq(f"estimate treatment{j}", m.coef[j], np.median(m.all_coef[j, :]))
    c.eq("inference uses the estimates", fw.all_thetas, m.all_coef)
    c.eq("inference uses the standard errors", fw.all_ses, m.all_se)
    c.eq("inference uses the aggregated estimates", fw.thetas, m.coef)
    c.eq("inference uses the aggregated standard errors", fw.ses, m.se)
    c.same("no bootstrap of an earlier fit", m.boot_t_stat, None)


def plr(c, w, R, J=1):
    o = CF.plr(c, w, R=R, J=J)

    def score(r, j):
        l, mm = o.m.predictions["ml_l"][:, r, j], o.m.predictions["ml_m"][:, r, j]
        return -((o.d[j] - mm) ** 2), (o.d[j] - mm) * (o.y - l)

    o.score = score
    return o


def irm(c, w, R):
    o = CF.irm(c, w, R=R)

    def score(r, j):
        g0, g1, p = (o.m.predictions[k][:, r, j] for k in ("ml_g0", "ml_g1", "ml_m"))
        d = o.d[0]
        return -c.np.ones_like(o.y), g1 - g0 + d * (o.y - g1) / p - (1 - d) * (o.y - g0) / (1 - p)

    o.score = score
    return o


def elements(o, key="psi_b"):
    return {(r, j): o.m.psi_elements[key][:, r, j] + 0.0 for r in range(o.R) for j in range(len(o.d))}


FULL = ([(True, True), (True, False), (False, False)], [(True, True), (True, False), (False, False), (False, True)], [False, True])


def history(name, build, R, weight=3, opts=FULL):
    @contract("C16", name=name, targets=_T, stubs=_S, weight=weight)
    def fn(c):
        """fit; (bootstrap;) fit again, with and without storing"""
        w = CF.World(c)
        o = build(c, w, R)
        v = Var(c, o.n)
        first = c.choice("first", opts[0])
        second = c.choice("second", opts[1])
        boot = c.choice("bootstrap between", opts[2])
        m = o.m
        m.fit(store_predictions=first[0], store_models=first[1])
        before = elements(o)
        if boot:
            for j in range(len(o.d)):
                for r in range(R):
                    c.assume(m.all_se[j, r] > 0)
            m.bootstrap(n_rep_boot=3)
            c.true("bootstrap available", m.boot_t_stat is not None)
        mark, vmark = len(w.fits), len(v.calls)
        m.fit(store_predictions=second[0], store_models=second[1])
        state(c, w, o, v, mark, vmark, *second, before=before)
        c.raises("joint interval needs a new bootstrap", ValueError, m.confint, joint=True)
        c.raises("stepdown adjustment needs a new bootstrap", ValueError, m.p_adjust)

    return fn


history("refit", lambda c, w, R: plr(c, w, R, J=2), 2)
history("refit_many", lambda c, w, R: plr(c, w, R, J=4), 3, opts=([(True, True)], [(True, True)], [False]))
history("refit_one", lambda c, w, R: plr(c, w, R), 1)
history("refit_interactive", irm, 2, opts=([(True, True)], [(True, True), (True, False)], [False]))


def resplit(c, o, R, K, tag):
    """set a new, arbitrary splitting (validated as C10 requires)"""
    import doubleml.double_ml as D

    m = o.m
    if c.symbolic:
        new = [c.partition(f"{tag}{r}", o.n, K) for r in range(R)]
        c.patch(D, "_check_sample_splitting", lambda smpls, cl, *a, **k: (smpls, cl, len(smpls), len(smpls[0])))
    else:
        new = [c.partition(f"{tag}{r}", o.n, K) for r in range(R)]
    m.set_sample_splitting(new)
    o.R = R


def refusing(c, m, lab, names=_REFUSE):
    for nm in names:
        c.raises(f"{lab}: {nm} refuses", ValueError, getattr(m, nm))
    c.true(f"{lab}: no estimates", c.np.all(c.np.isnan(m.coef)))
    c.true(f"{lab}: no standard errors", c.np.all(c.np.isnan(m.se)))
    c.true(f"{lab}: no scores", c.np.all(c.np.isnan(m.psi)))
    c.same(f"{lab}: no bootstrap", m.boot_t_stat, None)


@contract("C16", targets=["doubleml.double_ml.DoubleML.set_sample_splitting", *_T], stubs=_S + ["_check_sample_splitting (C10)"], weight=4)
def splitting(c):
    """fit, set another splitting (other numbers of folds and repetitions), fit"""
    w = CF.World(c)
    R0, R1, K1 = c.choice("reps", [(1, 2, 2), (2, 1, 3), (2, 2, 2)])
    J = c.choice("treatments", [1, 2])
    o = plr(c, w, R0, J)
    v = Var(c, o.n)
    m = o.m
    m.fit(store_models=True)
    before = elements(o)
    resplit(c, o, R1, K1, "new")
    c.same("folds and repetitions of the new splitting", (m.n_rep, m.n_folds, len(m.smpls), [len(s) for s in m.smpls]), (R1, K1, R1, [K1] * R1))
    refusing(c, m, "new splitting", _REFUSE[:3])
    mark, vmark = len(w.fits), len(v.calls)
    m.fit(store_models=True)
    state(c, w, o, v, mark, vmark, True, True, before=before)


@contract("C16", targets=["doubleml.double_ml.DoubleML.fit"], stubs=_S, weight=2)
def operations(c):
    """inference leaves the fitted state alone, and repeating it answers the same"""
    w = CF.World(c)
    o = plr(c, w, 1, 2)
    v = Var(c, o.n)
    m = o.m
    m.fit()
    for j in range(2):
        c.assume(m.all_se[j, 0] > 0)
    snap = [m.coef + 0.0, m.se + 0.0, m.psi + 0.0, m.psi_deriv + 0.0, m.all_coef + 0.0, m.predictions["ml_l"] + 0.0]
    ci = values(m.confint())
    ops = c.choice("operations", [("bootstrap",), ("bootstrap", "confint joint"), ("bootstrap", "bootstrap", "confint joint")])
    nb = 3
    for op in ops:
        if op == "bootstrap":
            nb += 1
            m.bootstrap(n_rep_boot=nb)
        elif op == "confint joint":
            m.confint(joint=True)
    c.same("statistics of the last bootstrap", m.boot_t_stat.shape, (nb, 2, 1))
    for a, b, lab in zip(snap, [m.coef, m.se, m.psi, m.psi_deriv, m.all_coef, m.predictions["ml_l"]], ["estimate", "standard error", "score", "derivative", "estimates", "predictions"]):
        c.eq(f"{lab} unchanged", b, a)
    c.eq("interval unchanged", values(m.confint()), ci)


@contract("C16", targets=["doubleml.double_ml.DoubleML.confint", "doubleml.double_ml.DoubleML.bootstrap"], weight=2)
def before_fit(c):
    """every model refuses inference before the first fit"""
    kind = c.choice("model", [*_MODELS, "plr", "pliv"])
    import doubleml as dml
    from .c12_propensity import _concrete

    if kind == "plr":
        m = dml.DoubleMLPLR(_concrete("irm"), Reg(), Reg())
    elif kind == "pliv":
        m = dml.DoubleMLPLIV(_concrete("iivm"), Reg(), Reg(), Reg())
    else:
        m = construct(kind)
    names = [n for n in _REFUSE if hasattr(m, n)]
    for nm in names:
        c.raises(f"{nm} refuses", (ValueError, NotImplementedError), getattr(m, nm))
    if hasattr(m, "evaluate_learners"):
        c.raises("evaluate_learners refuses", ValueError, m.evaluate_learners)


@contract("C16", targets=["doubleml.irm.apos.DoubleMLAPOS.fit", "doubleml.irm.qte.DoubleMLQTE.fit"], mode="bounded", samples=6, weight=2,
          why_bounded="composite models over concrete data; their components are proved above")
def composites(c):
    """collections of models: a refit or a new splitting replaces everything"""
    import numpy as np

    from sklearn.linear_model import LinearRegression, LogisticRegression

    kind = c.choice("model", ["apos", "qte"])
    rs = np.random.RandomState(c.seed % 2**31)
    n = 80
    import doubleml as dml

    dd = dml.DoubleMLData.from_arrays(x=rs.normal(size=(n, 2)), y=rs.normal(size=n), d=np.tile([0.0, 1.0], n // 2))
    if kind == "apos":
        m = dml.DoubleMLAPOS(dd, LinearRegression(), LogisticRegression(), treatment_levels=[1.0, 0.0], n_folds=2)
        comps = lambda: m.modellist  # noqa: E731
    else:
        m = dml.DoubleMLQTE(dd, Clf(), Clf(), quantiles=[0.4, 0.6], n_folds=2)
        comps = lambda: m.modellist_0 + m.modellist_1  # noqa: E731
    m.fit()
    m.bootstrap(n_rep_boot=5)
    c0 = np.array(m.coef)
    perm = rs.permutation(n)
    # stratified halves
    h = np.concatenate([perm[perm % 2 == 0][:20], perm[perm % 2 == 1][:20]])
    g = np.setdiff1d(np.arange(n), h)
    m.set_sample_splitting([[(g, h), (h, g)]])
    c.raises("confint refuses", ValueError, m.confint)
    c.raises("bootstrap refuses", ValueError, m.bootstrap)
    c.same("components share the splitting", all(np.array_equal(np.sort(q.smpls[0][0][1]), np.sort(h)) and np.array_equal(q.smpls[0][0][0], g) for q in comps()), True)
    m.fit()
    c.same("bootstrap of the earlier fit is gone", m.boot_t_stat, None)
    if kind == "apos":
        c.eq("estimates are those of the components", m.coef, np.array([q.coef[0] for q in comps()]))
        c.eq("intervals are those of the components", values(m.confint()), np.vstack([values(q.confint()) for q in comps()]))
    else:
        c.eq("estimates are those of the components", m.coef, np.array([b.coef[0] - a.coef[0] for a, b in zip(m.modellist_0, m.modellist_1)]))
    if kind == "apos":
        c.true("estimates are of the new splitting", not np.array_equal(c0, m.coef))


@contract("C16", targets=["doubleml.double_ml.DoubleML.draw_sample_splitting", "doubleml.irm.apos.DoubleMLAPOS.draw_sample_splitting", "doubleml.irm.qte.DoubleMLQTE.draw_sample_splitting"], mode="bounded", samples=8,
          why_bounded="scikit-learn draws the new splitting; models over concrete data")
def redrawn(c):
    """a newly drawn splitting leaves no results of the earlier one to report"""
    kind = c.choice("model", ["plr", "irm", "apo", "apos", "qte", "did"])
    m = construct(kind, n_folds=2)
    m.fit()
    m.bootstrap(n_rep_boot=4)
    m.draw_sample_splitting()
    for nm in _REFUSE:
        if hasattr(m, nm):
            c.raises(f"{nm} refuses", (ValueError, NotImplementedError), getattr(m, nm))
    m.fit()
    c.same("refitted", m.confint().shape[1], 2)
