"""Models over arbitrary data whose nuisance predictions are supplied from outside
(public `external_predictions` interface): every prediction array is arbitrary."""
from .common import Clf, Reg, data


class M:
    """a model with its data arrays, nuisance prediction arrays (n x R) and options"""

    def __init__(self, **k):
        self.__dict__.update(k)


class _Frame:
    def __init__(self, doubleml_dict):
        self.given = doubleml_dict


def finish(c, m, R, ext, fit=True, sens=False, arms=(), **k):
    n = k["n"]
    m._smpls = [c.partition(f"fold{r}", n, 2) for r in range(R)]
    for v in arms:
        # every training set holds both values (fold means are divided by)
        for s in m._smpls:
            for tr, _ in s:
                c.assume(c.np.sum(v[tr]) > 0)
                c.assume(c.np.sum(1 - v[tr]) > 0)
    if not sens:
        m._sensitivity_implemented = False
    o = M(m=m, R=R, ext=ext, **k)
    if c.symbolic:
        # callee contract: some positive variance (the variance estimator is C03's subject)
        import doubleml.double_ml as D

        if hasattr(D, "_var_est"):
            cnt = []

            def var_est(*a, **kw):
                cnt.append(1)
                return c.real(f"sigma2_{len(cnt)}", lo=0), n

            c.patch(D, "_var_est", var_est)
        if sens and hasattr(D, "DoubleMLFramework"):
            # the framework's acceptance of the elements is its own subject (C09)
            c.patch(D, "DoubleMLFramework", _Frame)
    if fit:
        m.fit(external_predictions={"d": ext})
    return o


def trim(c, p, lo):
    """documented truncation of propensities"""
    return c.np.where(p < lo, lo, c.np.where(p > 1 - lo, 1 - lo, p))


def normalised(c, p, d):
    """documented normalisation: both groups' inverse probability weights average to one"""
    np = c.np
    return np.where(d == 1, p * np.mean(d / p), 1 - (1 - p) * np.mean((1 - d) / (1 - p)))


def plr(c, R=1, score="partialling out", sens=False, binary_d=False, fit=True, with_g=False):
    import doubleml as dml

    n = c.n("n", 4)
    y = c.arr("y", n)
    d = c.arr("d", n, kind="binary") if binary_d else c.arr("d", n)
    dd = data(c, n, y=y, d=[d], binary_d=binary_d)
    iv = score == "IV-type" or (callable(score) and with_g)
    m = dml.DoubleMLPLR(dd, Reg(), Clf() if binary_d else Reg(), *([Reg()] if iv else []), score=score, n_rep=R, n_folds=2, draw_sample_splitting=False)
    ext = {"ml_l": c.arr("l", n, R), "ml_m": c.arr("m", n, R, kind="unit") if binary_d else c.arr("m", n, R)}
    if iv:
        ext["ml_g"] = c.arr("g", n, R)
    return finish(c, m, R, ext, fit, sens, n=n, y=y, d=d)


def pliv(c, R=1, score="partialling out", fit=True, with_g=False):
    import doubleml as dml

    n = c.n("n", 4)
    y, d, z = c.arr("y", n), c.arr("d", n), c.arr("z", n)
    dd = data(c, n, y=y, d=[d], z=[z])
    iv = score == "IV-type" or (callable(score) and with_g)
    m = dml.DoubleMLPLIV(dd, Reg(), Reg(), Reg(), *([Reg()] if iv else []), score=score, n_rep=R, n_folds=2, draw_sample_splitting=False)
    ext = {"ml_l": c.arr("l", n, R), "ml_m": c.arr("m", n, R), "ml_r": c.arr("r", n, R)}
    if iv:
        ext["ml_g"] = c.arr("g", n, R)
    return finish(c, m, R, ext, fit, n=n, y=y, d=d, z=z)


def irm(c, R=1, score="ATE", weights=None, normalize=False, lo=0.01, sens=False, fit=True, rule="truncate"):
    """weights: None | 'array' | 'dict' (| 'binary' for ATTE)"""
    import doubleml as dml

    n = c.n("n", 4)
    y, d = c.arr("y", n), c.arr("d", n, kind="binary")
    dd = data(c, n, y=y, d=[d], binary_d=True)
    c.assume(c.np.sum(d) > 0)
    c.assume(c.np.sum(1 - d) > 0)
    kw, w, wb = {}, None, None
    if weights == "array":
        w = c.arr("w", n, kind="nonneg")
        kw["weights"] = w
    elif weights == "binary":
        w = c.arr("w", n, kind="binary")
        kw["weights"] = w
    elif weights == "dict":
        w, wb = c.arr("w", n, kind="nonneg"), c.arr("wb", n, R, kind="nonneg")
        c.assume(c.np.sum(wb) > 0)
        kw["weights"] = {"weights": w, "weights_bar": wb}
    if w is not None:
        c.assume(c.np.sum(w) > 0)
        if weights == "binary":
            c.assume(c.np.sum(w * d) > 0)
    m = _late(c, lambda x: dml.DoubleMLIRM(x, Reg(), Clf(), score=score, n_rep=R, n_folds=2, normalize_ipw=normalize, trimming_rule=rule, trimming_threshold=lo, draw_sample_splitting=False, **kw), dd)
    ext = {"ml_g0": c.arr("g0", n, R), "ml_g1": c.arr("g1", n, R), "ml_m": c.arr("m", n, R, kind="unit")}
    return finish(c, m, R, ext, fit, sens, n=n, y=y, d=d, w=w, wb=wb)


def _late(c, build, dd):
    """The constructor's data checks run on data that satisfy them (they are C15's subject)."""
    return build(dd)


def apo(c, R=1, weights=None, normalize=False, lo=0.01, sens=False, level=2, fit=True):
    import doubleml as dml

    n = c.n("n", 10)
    y = c.arr("y", n)
    d = c.arr("d", n, kind="int", lo=0, hi=3)
    c.assume(c.np.sum(c.np.where(d == level, 1.0, 0.0)) >= 5)
    dd = data(c, n, y=y, d=[d])
    kw, w, wb = {}, None, None
    if weights == "array":
        w = c.arr("w", n, kind="nonneg")
        kw["weights"] = w
    elif weights == "dict":
        w, wb = c.arr("w", n, kind="nonneg"), c.arr("wb", n, R, kind="nonneg")
        c.assume(c.np.sum(wb) > 0)
        kw["weights"] = {"weights": w, "weights_bar": wb}
    if w is not None:
        c.assume(c.np.sum(w) > 0)
    m = dml.DoubleMLAPO(dd, Reg(), Clf(), treatment_level=level, n_rep=R, n_folds=2, normalize_ipw=normalize, trimming_threshold=lo, draw_sample_splitting=False, **kw)
    ext = {"ml_g_d_lvl0": c.arr("g0", n, R), "ml_g_d_lvl1": c.arr("g1", n, R), "ml_m": c.arr("m", n, R, kind="unit")}
    return finish(c, m, R, ext, fit, sens, n=n, y=y, d=d, w=w, wb=wb, t=c.np.where(d == level, 1.0, 0.0))


def iivm(c, R=1, normalize=False, at=True, nt=True, lo=0.01, fit=True, score="LATE"):
    import doubleml as dml

    n = c.n("n", 4)
    y, d, z = c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("z", n, kind="binary")
    for v in (d, z):
        c.assume(c.np.sum(v) > 0)
        c.assume(c.np.sum(1 - v) > 0)
    dd = data(c, n, y=y, d=[d], z=[z], binary_d=True, binary_z=True)
    m = dml.DoubleMLIIVM(dd, Reg(), Clf(), Clf(), score=score, subgroups={"always_takers": at, "never_takers": nt}, normalize_ipw=normalize, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    ext = {"ml_g0": c.arr("g0", n, R), "ml_g1": c.arr("g1", n, R), "ml_m": c.arr("m", n, R, kind="unit")}
    if at:
        ext["ml_r0"] = c.arr("r0", n, R, kind="unit")
    if nt:
        ext["ml_r1"] = c.arr("r1", n, R, kind="unit")
    return finish(c, m, R, ext, fit, n=n, y=y, d=d, z=z)


def did(c, R=1, score="observational", norm=True, lo=0.01, sens=False, fit=True):
    import doubleml as dml

    n = c.n("n", 4)
    y, d = c.arr("y", n), c.arr("d", n, kind="binary")
    c.assume(c.np.sum(d) > 0)
    c.assume(c.np.sum(1 - d) > 0)
    dd = data(c, n, y=y, d=[d], binary_d=True)
    m = dml.DoubleMLDID(dd, Reg(), *([Clf()] if score == "observational" else []), score=score, in_sample_normalization=norm, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    ext = {"ml_g0": c.arr("g0", n, R), "ml_g1": c.arr("g1", n, R)}
    if score == "observational":
        ext["ml_m"] = c.arr("m", n, R, kind="unit")
    return finish(c, m, R, ext, fit, sens, arms=[d], n=n, y=y, d=d)


def did_cs(c, R=1, score="observational", norm=True, lo=0.01, sens=False, fit=True):
    import doubleml as dml

    n = c.n("n", 6)
    y, d, t = c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("t", n, kind="binary")
    for a in (d, 1 - d):
        for b in (t, 1 - t):
            c.assume(c.np.sum(a * b) > 0)
    dd = data(c, n, y=y, d=[d], t=t, binary_d=True)
    m = dml.DoubleMLDIDCS(dd, Reg(), *([Clf()] if score == "observational" else []), score=score, in_sample_normalization=norm, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    ext = {f"ml_g_d{a}_t{b}": c.arr(f"g{a}{b}", n, R) for a in (0, 1) for b in (0, 1)}
    if score == "observational":
        ext["ml_m"] = c.arr("m", n, R, kind="unit")
    return finish(c, m, R, ext, fit, sens, arms=[d, t], n=n, y=y, d=d, t=t)


def fold_means(c, o, v, r=0):
    """mean of v over the training set of the fold an observation is tested in"""
    np = c.np
    f = c.folds(f"fold{r}", o.n, 2)
    a, b = np.where(f == 0, 1.0, 0.0), np.where(f == 0, 0.0, 1.0)
    return np.where(f == 0, np.sum(b * v) / np.sum(b), np.sum(a * v) / np.sum(a))
