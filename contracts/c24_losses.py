"""Reported losses: stored predictions against the documented targets of the same observations."""
from vc.harness import contract

from . import crossfit as CF
from .c02_estimate import stub_fit

_T = ["doubleml.double_ml.DoubleML._calc_nuisance_loss"]
_S = ["cross_val_predict (scikit-learn's contract: a fresh clone per split)", "variance estimator (C03)"]


def loss_of(c, target, cond, p, clf):
    np = c.np
    t = target * 1.0
    if cond is not None:
        t[np.logical_not(cond)] = float("nan")  # undefined there
    if clf:
        q = np.clip(p, 1e-15, 1 - 1e-15)
        return -np.nanmean(t * np.log(q) + (1 - t) * np.log(1 - q))
    return np.sqrt(np.nanmean((t - p) ** 2))


def defined(c, o, s, r, got):
    """(target, observations it is defined for)"""
    if hasattr(o, "loss"):
        v = o.loss(s.key, r)
        if v is not None:
            return v
    t = s.target(got) if callable(s.target) else s.target
    return t, s.cond


def run(c, w, o):
    o.m.fit()
    for r in range(o.R):
        for j in range(len(o.d)):
            for s in o.specs(r, j):
                lab = f"{s.key} rep{r}" + (f" treatment{j}" if len(o.d) > 1 else "")
                t, cond = defined(c, o, s, r, None)
                p = o.m.predictions[s.key][:, r, j]
                clf = any(e.name == s.name and isinstance(e, CF.WClf) for e, _ in w.users)
                if cond is not None:
                    c.assume(c.np.sum(c.np.where(cond, 1.0, 0.0)) > 0)
                c.eq(f"{lab} loss", o.m.nuisance_loss[s.key][r, j], loss_of(c, t, cond, p, clf))
                st = o.m.nuisance_targets[s.key][:, r, j]
                if cond is None:
                    c.eq(f"{lab} stored target", st, t)
                else:
                    c.eq(f"{lab} stored target where defined", st[cond], t[cond])
                    c.true(f"{lab} no target elsewhere", c.np.all(c.np.isnan(st[c.np.logical_not(cond)])))
        c.same("losses per nuisance function", sorted(o.m.nuisance_loss), sorted(o.m.params_names))
    for k in o.m.params_names:
        c.same(f"{k}: one loss per repetition and treatment", o.m.nuisance_loss[k].shape, (o.R, len(o.d)))


def simple(name, build, weight=2, R=2, **opts):
    @contract("C24", name=name, targets=_T + [f"doubleml {name}._nuisance_est"], stubs=_S, weight=weight)
    def fn(c):
        w = CF.World(c)
        k = {o: c.choice(o, v) for o, v in opts.items()}
        run(c, w, build(c, w, R=R, **k))

    return fn


simple("plr", CF.plr, score=["partialling out", "IV-type"], binary_d=[False, True])
simple("plr_two_treatments", lambda c, w, **k: CF.plr(c, w, J=3, **k))
simple("pliv", CF.pliv, score=["partialling out", "IV-type"])
simple("irm", CF.irm, score=["ATE", "ATTE"])
simple("irm_binary_outcome", lambda c, w, **k: CF.irm(c, w, binary_y=True, **k), R=1)
simple("apo", CF.apo)
simple("iivm", CF.iivm, at=[True, False], nt=[True, False])
simple("did", CF.did, score=["observational", "experimental"])
simple("did_cs", CF.did_cs, score=["observational", "experimental"])
simple("ssm", CF.ssm_mar)


def nonignorable(c, w, **k):
    o = CF.ssm_non(c, w, **k)
    o.loss = lambda key, r: (o.y, (o.d[0] == int(key[-1])) & (o.s == 1)) if key.startswith("ml_g") else None
    return o


simple("ssm_nonignorable", nonignorable)


def quantile(build, key="ml_g"):
    """targets of quantile-type models depend on the preliminary estimate of the fold"""

    def b(c, w, R=1, **k):
        o = build(c, w, R=R, **k)
        cvar = "cvar" in getattr(build, "__name__", "")

        def loss(kk, r):
            if not kk.startswith("ml_g"):
                return (o.d[0], o.z[0] == int(kk[-1])) if kk.startswith("ml_m_d") else None
            np = c.np
            sm = o.m._smpls[r]
            q = o.ipw[2 * r : 2 * r + 2]
            t = np.zeros_like(o.y)
            for k2 in range(2):
                te = sm[k2][1]
                if cvar:
                    v = np.max(np.column_stack((np.ones_like(o.y) * q[k2], (o.y - o.quantile * q[k2]) / (1 - o.quantile))), axis=1)
                else:
                    v = np.where(o.y <= q[k2], 1.0, 0.0)
                    if o.__dict__.get("z") is not None:
                        v = v * np.where(o.d[0] == o.treatment, 1.0, 0.0)
                t[te] = v[te]
            if o.__dict__.get("z") is not None:
                return t, o.z[0] == int(kk[-1])
            return t, o.d[0] == o.treatment

        o.loss = loss
        return o

    return b


def cvar(c, w, **k):
    return CF.pq(c, w, cvar=True, **k)


simple("pq", quantile(CF.pq), treatment=[0, 1])
simple("cvar", quantile(cvar), treatment=[0, 1])
simple("lpq", quantile(CF.lpq), treatment=[0, 1])


@contract("C24", targets=["doubleml.double_ml.DoubleML.evaluate_learners"], stubs=_S, weight=2)
def user_metric(c):
    """a user metric receives targets and predictions of the same observations, treatment and repetition"""
    w = CF.World(c)
    kind = c.choice("model", ["plr", "irm"])
    o = CF.plr(c, w, R=2, J=3) if kind == "plr" else CF.irm(c, w, R=2)
    m = o.m
    m.fit()
    J = len(o.d)
    keys = ["ml_l", "ml_m"] if kind == "plr" else ["ml_g0", "ml_g1", "ml_m"]
    sel = c.choice("learners", [None, keys[::-1], keys[:1], keys[-1:]])
    calls = []

    def metric(y_true, y_pred):
        calls.append((y_true, y_pred))
        return float(len(calls))

    got = m.evaluate_learners(learners=sel, metric=metric)
    want = keys if sel is None else sel
    c.same("requested learners", sorted(got), sorted(want))
    c.same("one evaluation each", len(calls), len(want) * 2 * J)
    for k in want:
        for r in range(2):
            for j in range(J):
                v = got[k][r, j]
                q = int(v.__float__() if not hasattr(v, "const") else v) if not c.symbolic else as_int(v)
                if not 1 <= q <= len(calls):
                    c.fail(f"{k} rep{r} treatment{j} is a value of the metric", repr(v))
                    continue
                yt, yp = calls[q - 1]
                c.same(f"{k} rep{r} treatment{j} shape", yt.shape[0], 1)
                c.eq(f"{k} rep{r} treatment{j} predictions", yp[0, :], m.predictions[k][:, r, j])
                t = m.nuisance_targets[k][:, r, j]
                s = [x for x in o.specs(r, j) if x.key == k][0]
                if s.cond is None:
                    c.eq(f"{k} rep{r} treatment{j} targets", yt[0, :], s.target)
                else:
                    c.eq(f"{k} rep{r} treatment{j} targets", yt[0, :][s.cond], s.target[s.cond])
                    c.true(f"{k} rep{r} treatment{j} undefined targets", c.np.all(c.np.isnan(yt[0, :][c.np.logical_not(s.cond)])))


def as_int(v):
    from vc import sym as Y

    k = Y.num(v).const()
    return int(k) if k is not None else -1


@contract("C24", targets=["doubleml.double_ml.DoubleML.evaluate_learners"], stubs=_S, weight=2)
def default_metric(c):
    """the default evaluation is the root mean squared error where the target is defined"""
    w = CF.World(c)
    o = CF.irm(c, w, R=1)
    for s in (o.d[0], 1 - o.d[0]):
        c.assume(c.np.sum(s) > 0)
    o.m.fit()
    got = o.m.evaluate_learners()
    for s in o.specs(0, 0):
        c.eq(f"{s.key} rmse", got[s.key][0, 0], loss_of(c, s.target, s.cond, o.m.predictions[s.key][:, 0, 0], False))


@contract("C24", targets=["doubleml.double_ml.DoubleML.evaluate_learners"], weight=2)
def evaluation_refused(c):
    w = CF.World(c)
    o = CF.plr(c, w, R=1)
    c.raises("before fit", ValueError, o.m.evaluate_learners)
    o.m.fit()
    c.raises("unknown learner", ValueError, o.m.evaluate_learners, learners=["ml_l", "ml_zz"])
    c.raises("metric is not callable", TypeError, o.m.evaluate_learners, metric="rmse")
    v = c.choice("value", [float("nan"), float("inf")])
    c.raises("metric is not finite", ValueError, o.m.evaluate_learners, metric=lambda y_true, y_pred: v)


@contract("C24", targets=["doubleml.utils._estimation._logloss"], stubs=["sklearn.metrics.log_loss (the documented log loss)"])
def log_loss_metric(c):
    """the log loss metric uses targets and predictions of the observations with a defined target"""
    E = c.target("doubleml.utils._estimation")
    n = c.n("n", 4)
    y, p, miss = c.arr("y", n, kind="binary"), c.arr("p", n, kind="unit", lo=0.05, hi=0.95), c.arr("missing", n, kind="bool")
    np = c.np
    keep = np.logical_not(miss)
    for v in (0, 1):
        i = c.int(f"w{v}", 0, n - 1)
        c.assume(c.land(y[i] == v, keep[i]))
    t = np.where(miss, float("nan"), y)
    want = -np.nanmean(t * np.log(p) + (1 - t) * np.log(1 - p))
    if c.symbolic:
        c.patch(E, "log_loss", lambda y_true, y_pred: -np.mean(y_true * np.log(y_pred) + (1 - y_true) * np.log(1 - y_pred)))
    c.eq("log loss", c.call(E, "_logloss", t, p), want)
