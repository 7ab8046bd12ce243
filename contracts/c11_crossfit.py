"""Cross-fitting: what every stored prediction was learned from."""
from vc.harness import contract

from . import crossfit as CF
from . import models as MD

_T = "doubleml.utils._estimation._dml_cv_predict"
DEFAULT = {"a": 0.0, "b": 0}
_S = ["cross_val_predict (scikit-learn's contract: a fresh clone per split)", "variance estimator (C03)"]


def run(c, w, o, **fit):
    o.m.fit(**fit)
    o.recs = {}
    for r in range(o.R):
        got = {}
        for j in range(len(o.d)):
            for s in o.specs(r, j):
                X = s.X(got) if callable(s.X) else s.X
                target = s.target(got) if callable(s.target) else s.target
                lab = f"{s.key} rep{r}" + (f" treatment{j}" if len(o.d) > 1 else "")
                got[s.key] = w.check(lab, o.m.predictions[s.key][:, r, j], o.m._smpls[r], s.name, target, X, s.cond, s.post, s.rows)
                if fit.get("store_models") and got[s.key]:
                    models(c, w, o, r, j, s, X)
        o.recs[r] = got
    w.check_users()


def models(c, w, o, r, j, s, X):
    """stored models are the copies that made the stored predictions, fold by fold"""
    got = o.m.models[s.key][o.dd.d_cols[j]][r]
    c.same(f"models {s.key} rep{r}: one per fold", len(got), len(o.m._smpls[r]))
    for k, (tr, te) in enumerate(o.m._smpls[r]):
        Xk = X[k] if isinstance(X, list) else X
        p = w.predict(got[k].uid_, Xk[te, :])
        c.eq(f"model {s.key} rep{r} fold{k} made the prediction", o.m.predictions[s.key][te, r, j], s.post(p))


def simple(name, build, weight=2, **opts):
    @contract("C11", name=name, targets=[_T, f"doubleml {name}._nuisance_est"], stubs=_S, weight=weight)
    def fn(c):
        w = CF.World(c)
        k = {o: c.choice(o, v) for o, v in opts.items()}
        o = build(c, w, R=2, **k)
        run(c, w, o, store_models=c.choice("store_models", [False, True]))

    return fn


simple("plr", CF.plr, score=["partialling out", "IV-type"], binary_d=[False, True])
simple("plr_two_treatments", lambda c, w, **k: CF.plr(c, w, J=3, **k), score=["partialling out", "IV-type"])
simple("pliv", CF.pliv, score=["partialling out", "IV-type"])
simple("irm", CF.irm, score=["ATE", "ATTE"])
simple("irm_binary_outcome", lambda c, w, **k: CF.irm(c, w, binary_y=True, **k))
simple("apo", CF.apo)
simple("iivm", CF.iivm, at=[True, False], nt=[True, False])
simple("did", CF.did, score=["observational", "experimental"])
simple("did_cs", CF.did_cs, score=["observational", "experimental"])
simple("ssm", CF.ssm_mar, binary_y=[False, True])
simple("ssm_nonignorable", CF.ssm_non)
simple("ssm_nonignorable_classifier", lambda c, w, **k: CF.ssm_non(c, w, binary_y=True, **k))
simple("pq", CF.pq, treatment=[0, 1])
simple("cvar", lambda c, w, **k: CF.pq(c, w, cvar=True, **k), treatment=[0, 1])
simple("lpq", CF.lpq, treatment=[0, 1])
simple("pliv_partial", CF.pliv_partial, which=["Z", "XZ"])


@contract("C11", targets=[_T], stubs=_S[:1], weight=2)
def cv_predict(c):
    """the helper itself, for every combination of its options: one copy per split, fitted on the
    split's training rows with the split's parameters, predicts the split's test rows"""
    E = c.target("doubleml.utils._estimation")
    w = CF.World(c)
    n, K = c.n("n", 6), 2
    X = c.np.column_stack([c.arr("x1", n), c.arr("x2", n)])
    clf = c.choice("classifier", [False, True])
    per_fold = not clf and c.choice("target per fold", [False, True])
    y = c.arr("y", n, kind="binary" if clf else "real")
    full = [y, c.arr("y2", n)] if per_fold else [y] * K
    smpls = c.partition("fold", n, K)
    if clf:  # both classes in every training set, as classifiers need them
        for k, (tr, te) in enumerate(smpls):
            for v in (0, 1):
                i = c.int(f"w{k}{v}", 0, n - 1)
                if c.symbolic:
                    c.assume(c.land(c.np.where(c.folds("fold", n, K) == k, 0, 1)[i] == 1, y[i] == v))
        if not c.symbolic:
            c.assume(all(len(set(y[tr])) == 2 for tr, _ in smpls))
    elif not c.symbolic:
        c.assume(all(len(te) for _, te in smpls))
    par = c.choice("parameters", ["none", "one dict", "per fold"])
    params = {"none": None, "one dict": {"a": 3.0}, "per fold": [{"a": 1.0}, {"b": 2}]}[par]
    want = [dict(DEFAULT, **p) for p in {"none": [{}] * K, "one dict": [params] * K, "per fold": params}[par]]
    train = not clf and not per_fold and c.choice("train predictions", [False, True])
    mod = c.choice("return_models", [False, True])
    est = w.clf("m") if clf else w.reg("m")
    res = c.call(
        E, "_dml_cv_predict", est, X, [full[k][smpls[k][0]] for k in range(K)] if per_fold else y, smpls=smpls, est_params=params,
        method="predict_proba" if clf else "predict", return_train_preds=train, return_models=mod,
    )
    target = [full[k][smpls[k][0]] for k in range(K)] if per_fold else y
    got = w.check("predictions", res["preds"], smpls, "m", target, X, params=want)
    if per_fold:
        c.same("no common target", res["targets"] is None, True)
    else:
        c.eq("targets are the given ones", res["targets"], y)
    if train and len(got) == K:
        for k, (tr, te) in enumerate(smpls):
            c.eq(f"training predictions fold{k}", res["train_preds"][k], w.predict(got[k].u, X[tr, :]))
            c.eq(f"training targets fold{k}", res["train_targets"][k], y[tr])
    if mod and len(got) == K:
        c.same("one model per fold, in order", [m.uid_ for m in res["models"]], [r.u for r in got])
    if not mod:
        c.same("no models unless asked for", res["models"] is None, True)
    w.check_users()


# ---------------------------------------------------------------- preliminary quantiles


def prelim(c, w, o, k, name, X, y, lo):
    """out-of-fold propensities on the first half of the training rows, from one copy per inner fold"""
    pairs = [(X[tr, :], y[tr]) for tr, _ in o.sp.kfolds[k]]
    recs = w.copies(o.ipw_score[k], name, pairs)
    c.same(f"half {k}: one copy of {name} per inner fold", recs is not None, True)
    if recs is None:
        return None
    p = c.np.zeros_like(y)
    for (tr, te), rec, (Xk, yk) in zip(o.sp.kfolds[k], recs, pairs):
        if c.symbolic:
            c.eq(f"half {k}: preliminary features", rec.X, Xk)
            c.eq(f"half {k}: preliminary target", rec.y, yk)
        p[te] = w.predict(rec.u, X[te, :])
    return c.np.clip(p, lo, 1 - lo)


def quantile(cvar, name):
    t = "cvar.DoubleMLCVAR" if cvar else "pq.DoubleMLPQ"

    @contract("C11", name=name, targets=[f"doubleml.irm.{t}._nuisance_est", f"doubleml.irm.{t}._compute_ipw_score"], stubs=_S + ["root finding and bracketing of the preliminary moment (the function handed to them is evaluated at an arbitrary point)"], weight=3)
    def fn(c):
        """the outcome model's target uses a preliminary quantile learned on one half of the training
        rows only: the moment handed to the root finder averages over that half, with propensities
        learned out of fold on it, and the outcome model is fitted on the other half"""
        np = c.np
        w = CF.World(c)
        a, nrm = c.choice("treatment", [0, 1]), c.choice("normalize", [False, True])
        o = CF.pq(c, w, R=1, cvar=cvar, treatment=a, normalize=nrm)
        o.m.fit()
        c.same("one preliminary quantile per fold", len(o.ipw), 2)
        for k in range(2):
            h = o.sp.halves[k][0]
            x1, d1, y1 = o.x[h, :], o.d[0][h], o.y[h]
            p = prelim(c, w, o, k, "m", x1, d1, o.lo)
            if p is None:
                continue
            if nrm:
                p = MD.normalised(c, p, d1)
            if a == 0:
                p = 1 - p
            c.eq(f"half {k}: preliminary moment", o.ipw_score[k], np.mean((d1 == a) / p * (y1 <= o.theta) - o.quantile))

    return fn


quantile(False, "pq_preliminary")
quantile(True, "cvar_preliminary")


@contract("C11", targets=["doubleml.irm.lpq.DoubleMLLPQ._nuisance_est", "doubleml.irm.lpq.DoubleMLLPQ._compute_ipw_score"], stubs=_S + ["root finding and bracketing of the preliminary moment (the function handed to them is evaluated at an arbitrary point)"], weight=3)
def lpq_preliminary(c):
    """as for the quantile models; the preliminary share of compliers is learned on the same half"""
    np = c.np
    w = CF.World(c)
    a, nrm = c.choice("treatment", [0, 1]), c.choice("normalize", [False, True])
    o = CF.lpq(c, w, R=1, treatment=a, normalize=nrm)
    o.m.fit()
    c.same("one preliminary quantile per fold", len(o.ipw), 2)
    sign = 2.0 * a - 1.0
    for k in range(2):
        h = o.sp.halves[k][0]
        x1, d1, y1, z1 = o.x[h, :], o.d[0][h], o.y[h], o.z[0][h]
        pairs = [(x1[tr, :], z1[tr]) for tr, _ in o.sp.kfolds[k]] + [(x1[z1 == v, :], d1[z1 == v]) for v in (0, 1)]
        recs = w.copies(o.ipw_score[k], "m", pairs)
        c.same(f"half {k}: copies of the propensity learner", recs is not None, True)
        if recs is None:
            continue
        if c.symbolic:
            for rec, (Xk, yk) in zip(recs, pairs):
                c.eq(f"half {k}: preliminary features", rec.X, Xk)
                c.eq(f"half {k}: preliminary target", rec.y, yk)
        p = np.zeros_like(y1)
        for (tr, te), rec in zip(o.sp.kfolds[k], recs):
            p[te] = w.predict(rec.u, x1[te, :])
        p = np.clip(p, o.lo, 1 - o.lo)
        if nrm:
            p = MD.normalised(c, p, z1)
        d0, dd1 = w.predict(recs[2].u, x1), w.predict(recs[3].u, x1)
        share = np.mean(dd1 - d0 + z1 / p * (d1 - dd1) - (1 - z1) / (1 - p) * (d1 - d0))
        wt = sign * (z1 / p - (1 - z1) / (1 - p)) / share
        c.eq(f"half {k}: preliminary moment", o.ipw_score[k], np.mean(wt * ((d1 == a) * (y1 <= o.theta)) - o.quantile))
