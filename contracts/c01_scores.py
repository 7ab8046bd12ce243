"""Scores: the stored score elements are those of the documented orthogonal score,
evaluated at the stored (trimmed, C12) predictions."""
from vc.harness import contract

from . import crossfit as CF
from . import models as MD


def elements(c, o, r, a, b):
    c.eq(f"psi_a rep{r}", o.m.psi_elements["psi_a"][:, r, 0], a)
    c.eq(f"psi_b rep{r}", o.m.psi_elements["psi_b"][:, r, 0], b)


def stored(c, o, r, **k):
    """stored predictions are the ones the score was evaluated at"""
    for name, v in k.items():
        c.eq(f"stored {name} rep{r}", o.m.predictions[name][:, r, 0], v)


@contract("C01", targets=["doubleml.plm.plr.DoubleMLPLR._score_elements", "doubleml.plm.plr.DoubleMLPLR._nuisance_est"])
def plr(c):
    score = c.choice("score", ["partialling out", "IV-type"])
    o = MD.plr(c, R=2, score=score, binary_d=c.choice("binary_d", [False, True]))
    for r in range(o.R):
        l, m = o.ext["ml_l"][:, r], o.ext["ml_m"][:, r]
        if score == "IV-type":
            g = o.ext["ml_g"][:, r]
            elements(c, o, r, -(o.d - m) * o.d, (o.d - m) * (o.y - g))
        else:
            elements(c, o, r, -((o.d - m) ** 2), (o.d - m) * (o.y - l))
        stored(c, o, r, ml_l=l, ml_m=m)


@contract("C01", targets=["doubleml.plm.pliv.DoubleMLPLIV._score_elements"])
def pliv(c):
    score = c.choice("score", ["partialling out", "IV-type"])
    o = MD.pliv(c, R=2, score=score)
    for r in range(o.R):
        l, m, t = (o.ext[k][:, r] for k in ("ml_l", "ml_m", "ml_r"))
        if score == "IV-type":
            g = o.ext["ml_g"][:, r]
            elements(c, o, r, -(o.z - m) * o.d, (o.z - m) * (o.y - g))
        else:
            elements(c, o, r, -(o.d - t) * (o.z - m), (o.y - l) * (o.z - m))
        stored(c, o, r, ml_l=l, ml_m=m, ml_r=t)


@contract("C01", targets=["doubleml.irm.irm.DoubleMLIRM._score_elements", "doubleml.irm.irm.DoubleMLIRM._get_weights"], weight=3)
def irm(c):
    np = c.np
    score = c.choice("score", ["ATE", "ATTE"])
    w = c.choice("weights", [None, "array", "dict"] if score == "ATE" else [None, "binary"])
    nrm = c.choice("normalize", [False, True])
    lo = c.choice("threshold", [0.01, 0.2])
    o = MD.irm(c, R=2, score=score, weights=w, normalize=nrm, lo=lo)
    y, d = o.y, o.d
    for r in range(o.R):
        g0, g1 = o.ext["ml_g0"][:, r], o.ext["ml_g1"][:, r]
        p0 = o.m.predictions["ml_m"][:, r, 0]
        p = MD.normalised(c, p0, d) if nrm else p0
        if score == "ATE":
            w1 = np.ones_like(y) if w is None else o.w
            w2 = o.wb[:, r] if w == "dict" else w1
        else:
            u = np.ones_like(y) if w is None else o.w
            w1 = u * d / np.mean(u * d)
            w2 = p * u / np.mean(u * d)
        elements(c, o, r, -w1 / np.mean(w1), w1 * (g1 - g0) + w2 * (d * (y - g1) / p - (1 - d) * (y - g0) / (1 - p)))
        stored(c, o, r, ml_g0=g0, ml_g1=g1)


@contract("C01", targets=["doubleml.irm.apo.DoubleMLAPO._score_elements"], weight=3)
def apo(c):
    np = c.np
    w = c.choice("weights", [None, "array", "dict"])
    nrm = c.choice("normalize", [False, True])
    lo = c.choice("threshold", [0.01, 0.2])
    lev = c.choice("level", [0, 2])
    o = MD.apo(c, R=2, weights=w, normalize=nrm, lo=lo, level=lev)
    y, t = o.y, o.t
    for r in range(o.R):
        g0, g1 = o.ext["ml_g_d_lvl0"][:, r], o.ext["ml_g_d_lvl1"][:, r]
        p0 = o.m.predictions["ml_m"][:, r, 0]
        p = MD.normalised(c, p0, t) if nrm else p0
        w1 = np.ones_like(y) if w is None else o.w
        w2 = o.wb[:, r] if w == "dict" else w1
        elements(c, o, r, -w1 / np.mean(w1), w1 * g1 + w2 * t * (y - g1) / p)
        stored(c, o, r, ml_g_d_lvl1=g1)


@contract("C01", targets=["doubleml.irm.iivm.DoubleMLIIVM._score_elements"], weight=3)
def iivm(c):
    np = c.np
    nrm = c.choice("normalize", [False, True])
    at, nt = c.choice("subgroups", [(True, True), (True, False), (False, True), (False, False)])
    lo = c.choice("threshold", [0.01, 0.2])
    o = MD.iivm(c, R=1, normalize=nrm, at=at, nt=nt, lo=lo)
    y, d, z, r = o.y, o.d, o.z, 0
    g0, g1 = o.ext["ml_g0"][:, r], o.ext["ml_g1"][:, r]
    r0 = o.ext["ml_r0"][:, r] if at else np.zeros_like(y)
    r1 = o.ext["ml_r1"][:, r] if nt else np.ones_like(y)
    p0 = o.m.predictions["ml_m"][:, r, 0]
    stored(c, o, r, ml_g0=g0, ml_g1=g1, ml_r0=r0, ml_r1=r1)

    def sc(p):
        return (
            -(r1 - r0 + z * (d - r1) / p - (1 - z) * (d - r0) / (1 - p)),
            g1 - g0 + z * (y - g1) / p - (1 - z) * (y - g0) / (1 - p),
        )

    if not nrm:
        elements(c, o, r, *sc(p0))
    else:
        # which indicator the normalisation groups by is C12's subject (known finding there)
        pa, pb = o.m.psi_elements["psi_a"][:, r, 0], o.m.psi_elements["psi_b"][:, r, 0]
        alt = []
        for ind in (z, d):
            a, b = sc(MD.normalised(c, p0, ind))
            near = (lambda u, v: u == v) if c.symbolic else np.isclose
            alt.append(c.land(np.all(near(pa, a)), np.all(near(pb, b))))
        c.true("score at normalised propensities", c.lor(*alt))


@contract("C01", targets=["doubleml.did.did.DoubleMLDID._score_elements", "doubleml.did.did.DoubleMLDID._nuisance_est"], weight=3)
def did(c):
    np = c.np
    score = c.choice("score", ["observational", "experimental"])
    nrm = c.choice("in_sample_normalization", [True, False])
    o = MD.did(c, R=2, score=score, norm=nrm, lo=0.05)
    y, d = o.y, o.d
    one = np.ones_like(y)
    for r in range(o.R):
        g0, g1 = o.ext["ml_g0"][:, r], o.ext["ml_g1"][:, r]
        stored(c, o, r, ml_g0=g0, ml_g1=g1)
        q = np.mean(d) * one if nrm else MD.fold_means(c, o, d, r)
        if score == "observational":
            m = o.m.predictions["ml_m"][:, r, 0]
            u = (1 - d) * m / (1 - m)
            b = (d / q - (u / np.mean(u) if nrm else u / q)) * (y - g0)
            elements(c, o, r, -d / q, b)
        else:
            q0 = np.mean(1 - d) * one if nrm else 1 - q
            b = (d / q - (1 - d) / q0) * (y - g0) + (1 - d / q) * (g1 - g0)
            elements(c, o, r, -one, b)


@contract("C01", targets=["doubleml.did.did_cs.DoubleMLDIDCS._score_elements", "doubleml.did.did_cs.DoubleMLDIDCS._nuisance_est"], weight=3)
def did_cs(c):
    np = c.np
    score = c.choice("score", ["observational", "experimental"])
    nrm = c.choice("in_sample_normalization", [True, False])
    o = MD.did_cs(c, R=1, score=score, norm=nrm, lo=0.05)
    y, d, t, r = o.y, o.d, o.t, 0
    one = np.ones_like(y)
    g = {(a, b): o.ext[f"ml_g_d{a}_t{b}"][:, r] for a in (0, 1) for b in (0, 1)}
    stored(c, o, r, **{f"ml_g_d{a}_t{b}": v for (a, b), v in g.items()})
    obs = score == "observational"
    ind = {(a, b): (d if a else 1 - d) * (t if b else 1 - t) for a in (0, 1) for b in (0, 1)}
    if obs:
        m = o.m.predictions["ml_m"][:, r, 0]
        for b in (0, 1):
            ind[0, b] = ind[0, b] * m / (1 - m)
    if nrm:
        w = {k: v / np.mean(v) for k, v in ind.items()}
        wd = d / np.mean(d)
    else:
        p, l = MD.fold_means(c, o, d, r), MD.fold_means(c, o, t, r)
        w = {(a, b): v / ((p if a or obs else 1 - p) * (l if b else 1 - l)) for (a, b), v in ind.items()}
        wd = d / p
    if not obs:
        wd = one
    b = wd * (g[1, 1] - g[1, 0] - (g[0, 1] - g[0, 0]))
    for (a, s), v in w.items():
        b = b + (1 if a == s else -1) * v * (y - g[a, s])
    elements(c, o, r, -wd, b)


# ---------------------------------------------------------------- models whose predictions are always learned


@contract("C01", targets=["doubleml.irm.ssm.DoubleMLSSM._score_elements", "doubleml.irm.ssm.DoubleMLSSM._nuisance_est"], weight=3)
def ssm(c):
    """selection: group outcome regressions plus selected, inverse probability weighted residuals"""
    np = c.np
    w = CF.World(c)
    score = c.choice("score", ["missing-at-random", "nonignorable"])
    nrm = c.choice("normalize", [False, True])
    o = (CF.ssm_mar if score == "missing-at-random" else CF.ssm_non)(c, w, R=2, normalize=nrm)
    o.m.fit()
    y, d, s = o.y, o.d[0], o.s
    for r in range(o.R):
        g0, g1, pi, m = (o.m.predictions[k][:, r, 0] for k in ("ml_g_d0", "ml_g_d1", "ml_pi", "ml_m"))
        t1, t0 = (d == 1) * s, (d == 0) * s
        w1 = np.sum(d == 1) / np.sum(t1 / (pi * m)) if nrm else 1.0
        w0 = np.sum(d == 0) / np.sum(t0 / (pi * (1 - m))) if nrm else 1.0
        b = w1 * (t1 * (y - g1) / (m * pi)) + g1 - (w0 * (t0 * (y - g0) / ((1 - m) * pi)) + g0)
        elements(c, o, r, -np.ones_like(b), b)


@contract("C01", targets=["doubleml.irm.cvar.DoubleMLCVAR._score_elements", "doubleml.irm.cvar.DoubleMLCVAR._nuisance_est"], weight=3)
def cvar(c):
    np = c.np
    w = CF.World(c)
    a, nrm = c.choice("treatment", [0, 1]), c.choice("normalize", [False, True])
    o = CF.pq(c, w, R=2, cvar=True, treatment=a, normalize=nrm)
    o.m.fit()
    y, d, q = o.y, o.d[0], o.quantile
    for r in range(o.R):
        g, p = (o.m.predictions[k][:, r, 0] for k in ("ml_g", "ml_m"))
        if nrm:
            p = MD.normalised(c, p, d)
        if a == 0:
            p = 1 - p
        pq = (o.ipw[2 * r] + o.ipw[2 * r + 1]) / 2
        tgt = np.max(np.column_stack((np.ones_like(y) * pq, (y - q * pq) / (1 - q))), axis=1)
        elements(c, o, r, -np.ones_like(g), (d == a) * (tgt - g) / p + g)


@contract("C01", targets=["doubleml.irm.pq.DoubleMLPQ._compute_score", "doubleml.irm.pq.DoubleMLPQ._compute_score_deriv", "doubleml.irm.pq.DoubleMLPQ._nuisance_est"], stubs=["kernel density estimate (arguments recorded)", "root finding (arbitrary result)"], weight=3)
def pq(c):
    w = CF.World(c)
    a, nrm = c.choice("treatment", [0, 1]), c.choice("normalize", [False, True])
    o = CF.pq(c, w, R=2, treatment=a, normalize=nrm)
    o.m.fit()
    y, d = o.y, o.d[0]
    c.same("one density estimate per repetition", len(o.kde), o.R)
    for r in range(o.R):
        g, p = (o.m.predictions[k][:, r, 0] for k in ("ml_g", "ml_m"))
        if nrm:
            p = MD.normalised(c, p, d)
        if a == 0:
            p = 1 - p
        th = o.m.all_coef[0, r]
        c.eq(f"score rep{r}", o.m.psi[:, r, 0], (d == a) * ((y <= th) - g) / p + g - o.quantile)
        c.eq(f"density at rep{r}", o.kde[r][0][:, 0], y - th)
        c.eq(f"density weights rep{r}", o.kde[r][1], (d == a) / p)


@contract("C01", targets=["doubleml.irm.lpq.DoubleMLLPQ._compute_score", "doubleml.irm.lpq.DoubleMLLPQ._compute_score_deriv", "doubleml.irm.lpq.DoubleMLLPQ._nuisance_est"], stubs=["kernel density estimate (arguments recorded)", "root finding (arbitrary result)"], weight=3)
def lpq(c):
    """at propensities inside the trimming bounds (the trimming itself: C12)"""
    np = c.np
    w = CF.World(c)
    a, nrm = c.choice("treatment", [0, 1]), c.choice("normalize", [False, True])
    o = CF.lpq(c, w, R=2, treatment=a, normalize=nrm)
    n, R = o.n, o.R
    ext = {k: c.arr(k, n, R, kind="unit") for k in ("ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1")}
    ext["ml_m_z"] = c.arr("ml_m_z", n, R, kind="unit", lo=0.05, hi=0.95)
    o.m.fit(external_predictions={"d": ext})
    y, d, z = o.y, o.d[0], o.z[0]
    sign = 2.0 * a - 1.0
    for r in range(R):
        p, d0, d1, g0, g1 = (ext[k][:, r] for k in ("ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"))
        if nrm:
            p = MD.normalised(c, p, z)
        share = np.mean(d1 - d0 + z / p * (d - d1) - (1 - z) / (1 - p) * (d - d0))
        comp = o.m.psi_elements["comp_prob"][:, r, 0]
        c.eq(f"complier share rep{r}", comp, share * np.ones_like(p))
        th = o.m.all_coef[0, r]
        u = (d == a) * (y <= th)
        c.eq(f"score rep{r}", o.m.psi[:, r, 0], sign * (g1 - g0 + z / p * (u - g1) - (1 - z) / (1 - p) * (u - g0)) / comp - o.quantile)
        c.eq(f"density at rep{r}", o.kde[r][0][:, 0], y - th)
        c.eq(f"density weights rep{r}", o.kde[r][1], sign * (z / p - (1 - z) / (1 - p)) * (d == a) / comp)


# ---------------------------------------------------------------- PLIV with several instruments or partialled-out variants


@contract("C01", targets=["doubleml.plm.pliv.DoubleMLPLIV._score_elements", "doubleml.plm.pliv.DoubleMLPLIV._nuisance_est_partial_x"], stubs=["LinearRegression (recorded; arbitrary fitted values)"])
def pliv_instruments(c):
    """several instruments: the optimal instrument is the linear projection of the treatment residual
    on the instrument residuals"""
    import doubleml.plm.pliv as mod

    np = c.np
    w = CF.World(c)
    Q = c.choice("instruments", [2, 3])
    o = CF.pliv(c, w, R=2, Z=Q)
    n, R = o.n, o.R
    zc = o.dd.z_cols
    ext = {k: c.arr(k, n, R) for k in ["ml_l", "ml_r"] + [f"ml_m_{z}" for z in zc]}
    regs = []

    class Projection:
        def __init__(self, fit_intercept=True):
            self.k, self.icpt = len(regs), fit_intercept
            regs.append(self)

        def fit(self, X, y):
            self.X, self.y = X, y
            return self

        def predict(self, X):
            self.at = X
            return c.arr(f"fitted{self.k}", X.shape[0])

    if c.symbolic:
        c.patch(mod, "LinearRegression", Projection)
    o.m.fit(external_predictions={"d": ext})
    if c.symbolic and len(regs) != R:
        from vc.errors import Unsupported

        raise Unsupported("another projection routine")
    for r in range(R):
        u, wd = o.y - ext["ml_l"][:, r], o.d[0] - ext["ml_r"][:, r]
        v = np.column_stack([o.z[q] - ext[f"ml_m_{zc[q]}"][:, r] for q in range(Q)])
        if c.symbolic:
            p = regs[r]
            c.same("projection with intercept", p.icpt, True)
            c.eq(f"projected on rep{r}", p.X, v)
            c.eq(f"projected rep{r}", p.y, wd)
            c.eq(f"evaluated at rep{r}", p.at, v)
            pr = c.arr(f"fitted{r}", n)
        else:
            X = np.column_stack([np.ones(n), v])
            pr = X @ np.linalg.lstsq(X, wd, rcond=None)[0]
        elements(c, o, r, -wd * pr, pr * u)
        stored(c, o, r, **{k: a[:, r] for k, a in ext.items()})


@contract("C01", targets=["doubleml.plm.pliv.DoubleMLPLIV._nuisance_est_partial_z", "doubleml.plm.pliv.DoubleMLPLIV._nuisance_est_partial_xz"])
def pliv_partial(c):
    which = c.choice("variant", ["Z", "XZ"])
    o = CF.pliv_partial(c, CF.World(c), R=2, which=which)
    o.m.fit()
    for r in range(o.R):
        p = {k: v[:, r, 0] for k, v in o.m.predictions.items() if v is not None}
        if which == "Z":
            elements(c, o, r, -p["ml_r"] * o.d[0], p["ml_r"] * o.y)
        else:
            v = p["ml_m"] - p["ml_r"]
            elements(c, o, r, -(o.d[0] - p["ml_r"]) * v, v * (o.y - p["ml_l"]))


# ---------------------------------------------------------------- user-supplied scores


@contract("C01", targets=["doubleml.plm.plr.DoubleMLPLR._score_elements", "doubleml.plm.pliv.DoubleMLPLIV._score_elements", "doubleml.irm.irm.DoubleMLIRM._score_elements", "doubleml.irm.iivm.DoubleMLIIVM._score_elements"], stubs=["the user's score function (arguments recorded, arbitrary components returned)"], weight=3)
def user_scores(c):
    """a score supplied as a function receives the data and the stored predictions; the components it
    returns are the model's"""
    model = c.choice("model", ["plr", "plr_g", "pliv", "pliv_g", "irm", "iivm"])
    calls, outs = [], []

    def score(**kw):
        calls.append(kw)
        n = kw["y"].shape[0]
        k = len(calls)
        outs.append((c.arr(f"psi_a{k}", n, lo=-3, hi=-0.5), c.arr(f"psi_b{k}", n)))
        return outs[-1]

    kw = dict(R=2, score=score)
    if model in ("irm", "iivm"):
        # normalised propensities of the IIVM: C12
        kw["normalize"] = model == "irm" and c.choice("normalize", [False, True])
        o = getattr(MD, model)(c, **kw)
    else:
        o = getattr(MD, model.split("_")[0])(c, with_g=model.endswith("_g"), **kw)
    c.same("called once per repetition", len(calls), o.R)
    for r in range(o.R):
        got = calls[r]
        p = {k: o.m.predictions["ml_" + k][:, r, 0] for k in [q[3:] for q in o.ext]}
        if kw.get("normalize"):
            p["m"] = MD.normalised(c, p["m"], o.d)
        exp = {"y": o.y, "d": o.d}
        if model in ("pliv", "pliv_g", "iivm"):
            exp["z"] = o.z
        for k, v in p.items():
            exp[k[0] + "_hat" + k[1:]] = v
        if model in ("plr", "pliv"):
            c.same("no predictions of an unused learner", got["g_hat"] is None, True)
        for k, v in exp.items():
            c.eq(f"argument {k} rep{r}", got[k], v)
        c.same(f"arguments rep{r}", sorted(got), sorted(set(exp) | {"smpls"} | ({"g_hat"} if model in ("plr", "pliv") else set())))
        c.same(f"folds rep{r}", got["smpls"] is o.m.smpls[r], True)
        elements(c, o, r, *outs[r])


@contract("C01", mode="bounded", samples=20, targets=["doubleml.utils._estimation._default_kde"], why_bounded="statsmodels' kernel density estimator")
def default_density(c):
    """the default density estimate in the quantile scores: weighted Gaussian kernel, Silverman's bandwidth, at zero"""
    import numpy as np

    from doubleml.utils._estimation import _default_kde

    n = c.choice("n", [30, 57])
    u, w = c.rng.normal(loc=c.rng.uniform(-1, 1), size=n), c.rng.uniform(0.1, 3.0, size=n)
    iqr = np.subtract(*np.percentile(u, [75, 25])) / 1.349
    h = 0.9 * min(np.std(u, ddof=1), iqr) * n ** (-0.2)
    k = np.exp(-0.5 * (u / h) ** 2) / np.sqrt(2 * np.pi) / h
    c.true("density at zero", abs(float(np.ravel(_default_kde(u, w))[0]) - np.sum(w * k) / np.sum(w)) < 0.02 * (1e-3 + np.sum(w * k) / np.sum(w)))
