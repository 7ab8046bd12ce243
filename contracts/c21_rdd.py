"""Regression discontinuity designs with flexible covariate adjustment (RDFlex).

The local polynomial package rdrobust is a dependency: its results are arbitrary
(callee assumption), every call is recorded.  Learners are arbitrary (crossfit.World)."""
import numpy as _np

from vc.errors import SkipSample
from vc.harness import contract

from .common import NS, data, values
from .crossfit import World

_ST = ["rdrobust.rdrobust / rdrobust.rdbwselect (arbitrary results)", "user learners (arbitrary functions)", "DoubleMLResampling.split_samples (arbitrary partitions, C10)"]
_SPECS = ("cutoff", "cutoff and score", "interacted cutoff and score")
_KERNELS = ("uniform", "triangular", "epanechnikov")


def _mod():
    import importlib

    import doubleml.rdd  # noqa: F401

    return importlib.import_module("doubleml.rdd.rdd")


def _table(c, arr, index, columns):
    if c.symbolic:
        from vc import npmodel as N

        return N.SFrame(arr, list(columns), list(index))
    import pandas as pd

    return pd.DataFrame(arr, index=list(index), columns=list(columns))


_ROWS = ("Conventional", "Bias-Corrected", "Robust")


class Local:
    """the local polynomial package: records its calls, arbitrary results"""

    def __init__(self, c, real_select=False):
        self.c, self.calls, self.selects = c, [], []
        M = _mod()
        c.patch(M, "rdrobust", NS(rdrobust=self.rdrobust, rdbwselect=self.rdbwselect))

    def _bws(self, nm):
        c = self.c
        return _table(c, c.arr(nm + "bws", 2, 2, kind="pos", lo=0.3, hi=1.5), ("h", "b"), ("left", "right"))

    def rdbwselect(self, *a, **k):
        assert not a, a
        r = NS(bws=self._bws(f"sel{len(self.selects)}"))
        self.selects.append((k, r))
        return r

    def rdrobust(self, *a, **k):
        assert not a, a
        c = self.c
        nm = f"rd{len(self.calls)}_"
        k = {q: (v.copy() if hasattr(v, "copy") else v) for q, v in k.items()}
        r = NS(
            bws=self._bws(nm),
            coef=_table(c, c.arr(nm + "coef", 3, 1), _ROWS, ["Coeff"]),
            se=_table(c, c.arr(nm + "se", 3, 1, kind="pos"), _ROWS, ["Std. Err."]),
            ci=_table(c, c.arr(nm + "ci", 3, 2), _ROWS, ["CI Lower", "CI Upper"]),
            N_h=[c.int(nm + "Nl", 1, 40), c.int(nm + "Nr", 1, 40)],
        )
        self.calls.append((k, r))
        return r


def kernel(c, name, s, h):
    a = c.np.abs(s)
    if name == "uniform":
        return c.np.where(a <= h, 1.0, 0.0)
    if name == "triangular":
        return c.np.maximum(0, (h - a) / h)
    return c.np.where(a < h, 0.75 * (1 - (s / h) ** 2), 0.0)


class Setup:
    pass


def setup(c, R=1, fuzzy=False, spec="cutoff", kern="triangular", y_binary=False, ints=False, h_fs="given", K=2, **kw):
    M = _mod()
    w = World(c)
    L = Local(c)
    n = c.n("n", 8)
    o = Setup()
    o.M, o.w, o.L, o.n, o.R, o.K = M, w, L, n, R, K
    o.x = c.arr("x", n, 2)
    o.y = c.arr("y", n, kind="binary") if y_binary else c.arr("y", n, kind="ints", lo=-3, hi=4) if ints else c.arr("y", n)
    o.s = c.arr("s", n)
    o.d = c.arr("d", n, kind="binary")
    o.cutoff = c.real("cutoff", lo=-0.5, hi=0.5)
    if not c.symbolic:
        o.cutoff = float(o.cutoff)
        o.s[0], o.s[1] = o.cutoff - 0.1, o.cutoff + 0.1  # both sides are populated within the bandwidth
        o.d[0], o.d[1] = 0.0, 1.0
        if y_binary:
            o.y[0], o.y[1] = 0.0, 1.0
    else:
        c.patch(M, "type_of_target", lambda v, *a, **k: "continuous" if v is o.s else "binary")
    c.assume(c.np.min(o.s) <= o.cutoff)
    c.assume(o.cutoff <= c.np.max(o.s))
    o.dd = data(c, n, y=o.y, d=[o.d], x=o.x, s=o.s, binary_d=True, binary_y=y_binary)
    o.splits = [c.partition(f"fold{r}", n, K) for r in range(R)]
    o.asked = []

    class Resampling:
        def __init__(self, **k):
            o.asked.append(k)

        def split_samples(self):
            return o.splits

    c.patch(M, "DoubleMLResampling", Resampling)
    o.warned = []
    c.patch(M, "warnings", NS(warn=lambda *a, **k: o.warned.append(a)))
    o.h0 = c.real("h0", lo=0.3, hi=1.5)
    c.assume(o.h0 > 0)
    if not c.symbolic:
        o.h0 = float(o.h0)
    o.sc = o.s - o.cutoff
    o.side = o.sc >= 0
    o.g = w.clf("g") if y_binary else w.reg("g")
    o.ml_m = w.clf("m") if fuzzy else None
    o.fuzzy, o.spec, o.kern = fuzzy, spec, kern
    c.target("doubleml.rdd.rdd.RDFlex")
    o.m = M.RDFlex(o.dd, o.g, o.ml_m, fuzzy=fuzzy, cutoff=o.cutoff, n_folds=K, n_rep=R, h_fs=o.h0 if h_fs == "given" else None, fs_specification=spec, fs_kernel=kern, **kw)
    o.kw = kw
    return o


def designs(c, o):
    """feature rows: side indicator (and centred score, interaction) before the covariates"""
    np = c.np
    side, sc = np.where(o.side, 1.0, 0.0), o.sc
    zero, one = 0 * sc, 0 * sc + 1
    Z = {"cutoff": [side], "cutoff and score": [side, sc], "interacted cutoff and score": [side, side * sc, sc]}[o.spec]
    right = [one] + [zero] * (len(Z) - 1)
    mk = lambda cols: np.column_stack(list(cols) + [o.x])  # noqa: E731
    return mk(Z), mk([zero] * len(Z)), mk(right)


def adjusted(c, o, label, resid, name, target, smpls, weights):
    """resid (1-d) = target minus the mean of the predictions at both sides of the cutoff,
    by copies fitted on the training rows of each fold with the given weights"""
    w = o.w
    D, Lf, Rg = designs(c, o)
    for k, (tr, te) in enumerate(smpls):
        lab = f"{label} fold{k}"
        want = lambda u: target[te] - (w.predict(u, Lf[te, :]) + w.predict(u, Rg[te, :])) / 2  # noqa: E731
        got = resid[te]
        if c.symbolic:
            cand = [r for r in w.candidates(got, None, None, name)]
        else:
            cand = [r for r in w.fits if r.name == name and r.X.shape[1] == D.shape[1] and _np.allclose(want(r.u), got, rtol=1e-9, atol=1e-12)]
        if len(cand) != 1:
            if not c.symbolic and len(te) == 0:
                continue
            c.fail(f"{lab} comes from one fitted copy of {name}", f"fitted copies involved: {[(r.u, r.name) for r in cand]}")
            continue
        r = cand[0]
        c.eq(f"{lab} value", got, want(r.u))
        if r.w is None:
            c.fail(f"{lab} training weights", "none")
            continue
        if c.symbolic:
            c.eq(f"{lab} training features", r.X, D[tr, :])
            c.eq(f"{lab} training target", r.y, target[tr])
            c.eq(f"{lab} training weights", r.w, weights[tr])
        else:
            mk = lambda X, y, v: (lambda a: a[_np.lexsort(a.T[::-1])])(_np.column_stack((X, y, v)).astype(float) + 0.0)  # noqa: E731
            c.eq(f"{lab} training rows", mk(r.X, r.y, r.w), mk(D[tr, :], target[tr], weights[tr]))


def calls(c, o, iterations):
    """the sequence of local polynomial fits and what each of them was given"""
    per = iterations
    c.same("number of local polynomial fits", len(o.L.calls), per * o.R)
    if len(o.L.calls) != per * o.R:
        return []
    last = []
    for r in range(o.R):
        h = o.h0
        for it in range(per):
            k, res = o.L.calls[r * per + it]
            lab = f"repetition {r} step {it}"
            c.eq(f"{lab} score", k["x"], o.sc)
            wt = kernel(c, o.kern, o.sc, h)
            adjusted(c, o, f"{lab} outcome", k["y"], "g", o.y, o.splits[r], wt)
            if o.fuzzy:
                if k.get("fuzzy") is None:
                    c.fail(f"{lab} fuzzy design")
                else:
                    adjusted(c, o, f"{lab} treatment", k["fuzzy"], "m", o.d, o.splits[r], wt)
            else:
                c.same(f"{lab} sharp design", k.get("fuzzy"), None)
            for q, v in o.kw.items():
                c.same(f"{lab} option {q}", k.get(q), v)
            final = it == per - 1
            if final and per > 1:
                prev = o.L.calls[r * per + it - 1][1]
                c.eq(f"{lab} bandwidth", k["h"], c.np.max(prev.bws.values[0, :]))
                c.eq(f"{lab} bias bandwidth", k["b"], c.np.max(prev.bws.values[1, :]))
            else:
                c.same(f"{lab} automatic bandwidth", (k.get("h"), k.get("b")), (None, None))
            h = c.np.max(res.bws.values[0, :])
            if final:
                last.append((res, k["h"] if per > 1 else h))
    return last


def _median(c, vs):
    if len(vs) == 1:
        return vs[0]
    if len(vs) == 2:
        return (vs[0] + vs[1]) / 2
    return c.np.median(c.np.stack(vs), axis=0)


def aggregated(c, o, last):
    m, np = o.m, c.np
    R = o.R
    co = [res.coef.values[:, 0] for res, _ in last]
    se = [res.se.values[:, 0] for res, _ in last]
    theta = _median(c, co)
    c.eq("estimate", m.coef, theta)
    var = [se[r] ** 2 + (co[r] - theta) ** 2 / (last[r][0].N_h[0] + last[r][0].N_h[1]) for r in range(R)]
    for i in range(3):
        c.eq(f"squared standard error {i}", m.se[i] ** 2, _median(c, [v[i] for v in var]))
        c.le(f"standard error {i} is not negative", 0, m.se[i])
    c.eq("interval", m.ci, _median(c, [res.ci.values for res, _ in last]))
    for r in range(R):
        c.eq(f"estimates {r}", m.all_coef[:, r], co[r])
        c.eq(f"errors {r}", m.all_se[:, r], se[r])
        c.eq(f"final bandwidth {r}", m.h[r], last[r][1])
    c.eq("t statistic", m.t_stat * m.se, m.coef)
    from scipy.stats import norm

    if not c.symbolic:
        c.eq("p-value", m.pval, 2 * norm.cdf(-np.abs(m.coef / m.se)))


@contract("C21", "fit", targets=["doubleml.rdd.rdd.RDFlex"], stubs=_ST, weight=3)
def fit(c):
    R = c.choice("R", [1, 2])
    its = c.choice("iterations", [2, 1, 3])
    fuzzy = c.choice("fuzzy", [False, True])
    spec = c.choice("specification", list(_SPECS))
    o = setup(c, R=R, fuzzy=fuzzy, spec=spec, p=2) if c.choice("options", [False, True]) else setup(c, R=R, fuzzy=fuzzy, spec=spec)
    o.m.fit(n_iterations=its)
    last = calls(c, o, its)
    if last:
        aggregated(c, o, last)
    o.w.check_users()
    c.eq("outcome unchanged", o.dd.y, o.y)
    c.eq("treatment unchanged", o.dd.d, o.d)


@contract("C21", "nuisance", targets=["doubleml.rdd.rdd.RDFlex"], stubs=_ST, weight=2)
def nuisance(c):
    """classifier for a binary outcome; integer-valued columns; every kernel"""
    kind = c.choice("outcome", ["integers", "binary", "real"])
    kern = c.choice("kernel", list(_KERNELS))
    spec = c.choice("specification", list(_SPECS))
    fuzzy = c.choice("fuzzy", [False, True])
    o = setup(c, fuzzy=fuzzy, spec=spec, kern=kern, y_binary=kind == "binary", ints=kind == "integers")
    if kind == "integers" and not c.symbolic:
        for col, v in (("y", o.y), ("d", o.d)):
            o.dd._data[col] = v.astype(int)
        o.dd._set_y_z_t_s()
        o.dd.set_x_d("d")
    o.m.fit(n_iterations=2)
    calls(c, o, 2)


@contract("C21", "weights", targets=["doubleml.rdd.rdd.RDFlex"], stubs=_ST)
def weights(c):
    """first stage weights are the kernel of the centred score over the initial bandwidth"""
    kern = c.choice("kernel", list(_KERNELS) + ["Triangular", "own"])
    h_fs = c.choice("initial bandwidth", ["given", "selected"])
    fuzzy = c.choice("fuzzy", [False, True])
    own = lambda v, h: h + v * v  # noqa: E731
    o = setup(c, fuzzy=fuzzy, kern=own if kern == "own" else kern, h_fs=h_fs)
    m = o.m
    if h_fs == "given":
        h = o.h0
        c.same("no bandwidth selection", len(o.L.selects), 0)
    else:
        c.same("one bandwidth selection", len(o.L.selects), 1)
        k, res = o.L.selects[0]
        c.eq("selection outcome", k["y"], o.y)
        c.eq("selection score", k["x"], o.sc)
        if fuzzy:
            c.eq("selection treatment", k["fuzzy"], o.d)
        else:
            c.same("selection sharp", k.get("fuzzy"), None)
        h = c.np.max(res.bws.values.flatten())
    c.eq("initial bandwidth", m.h_fs, h)
    c.eq("weights", m.w, own(o.sc, h) if kern == "own" else kernel(c, kern.lower(), o.sc, h))
    c.eq("cutoff", m.cutoff, o.cutoff)
    c.same("design", (m.fuzzy, m.n_folds, m.n_rep), (fuzzy, o.K, o.R))
    c.same("kernel name", m.fs_kernel, "custom_kernel" if kern == "own" else kern.lower())
    a = o.asked[-1]
    c.same("splitting requested", (a["n_folds"], a["n_rep"], len(o.asked)), (o.K, o.R, 1))
    c.eq("splitting for all observations", a["n_obs"], o.n)
    if h_fs == "given" and kern not in ("own", "epanechnikov"):
        j = c.int("j", 0, o.n - 1)
        c.le("weights are not negative", 0, m.w[j])
        c.assume(abs(o.sc[j]) > h)
        c.eq("no weight outside the bandwidth", m.w[j], 0)


@contract("C21", "sides", targets=["doubleml.rdd.rdd.RDFlex"], stubs=_ST)
def sides(c):
    """a warning is given exactly when the weighted treatment share is larger left of the cutoff,
    and for sharp designs when treatments differ from the side of the cutoff"""
    fuzzy = c.choice("fuzzy", [True, False])
    o = setup(c, fuzzy=fuzzy, kern="uniform")
    np, wt = c.np, kernel(c, "uniform", o.sc, o.h0)
    share = lambda cond: np.sum(wt[cond] * o.d[cond]) / np.sum(wt[cond])  # noqa: E731
    gap = share(o.sc < 0) - share(o.sc > 0)
    wrong = gap > 1e-6
    if not fuzzy:
        off = np.any(o.d != o.side)
        nw = len(o.warned)
        c.true("at most two warnings", nw <= 2)
        if nw == 2:
            c.true("treatment on the wrong side", wrong)
            c.true("treatments differ from the sides", off)
        elif nw == 1:
            if off:
                c.true("treatment on the right side", c.lnot(wrong))
            else:
                c.true("treatment on the wrong side", wrong)
        else:
            c.true("no reason", c.lnot(wrong))
            c.true("treatments are the sides", c.lnot(off))
    elif o.warned:
        c.same("one warning", len(o.warned), 1)
        c.true("larger share on the left", wrong)
    else:
        c.true("larger share on the right", c.lnot(wrong))


@contract("C21", "confint", targets=["doubleml.rdd.rdd.RDFlex.confint"], stubs=_ST)
def confint(c):
    R = c.choice("R", [1, 2])
    level = c.real("level", lo=0.05, hi=0.99)
    c.assume(level > 0)
    c.assume(level < 1)
    if not c.symbolic:
        level = float(level)
    o = setup(c, R=R)
    o.m.fit()
    last = calls(c, o, 2)
    if not last:
        return
    lab = c.choice("level kind", ["free", "default"])
    ci = o.m.confint(level) if lab == "free" else o.m.confint()
    lv = level if lab == "free" else 0.95
    c.same("rows", list(ci.index), list(_ROWS))
    from scipy.stats import norm

    z = norm.ppf(1 - (1 - lv) / 2) if not c.symbolic else _ppf(c, lv)
    co = [res.coef.values[:, 0] for res, _ in last]
    se = [res.se.values[:, 0] for res, _ in last]
    v = values(ci)
    c.eq("lower", v[:, 0], _median(c, [co[r] - z * se[r] for r in range(R)]))
    c.eq("upper", v[:, 1], _median(c, [co[r] + z * se[r] for r in range(R)]))


def _ppf(c, lv):
    import scipy.stats

    from vc import npmodel as N

    return N.NormProxy(scipy.stats.norm).ppf(1 - (1 - lv) / 2)


def _frame(n=60, **over):
    rs = _np.random.RandomState(3)
    s = rs.normal(size=n)
    k = dict(x=rs.normal(size=(n, 2)), y=rs.normal(size=n), d=(s >= 0) * 1.0, s=s)
    k.update(over)
    return k


@contract("C21", "refusals", targets=["doubleml.rdd.rdd.RDFlex"], mode="bounded", samples=12, stubs=["rdrobust"], why_bounded="enumeration of malformed arguments on concrete data (type checks of foreign objects)")
def refusals(c):
    import warnings

    import doubleml as dml

    from .common import Clf, Reg

    M = _mod()
    L = Local(c)  # noqa: F841
    n = 60
    rs = c.rng
    base = _frame(n)

    class NoWeights(Reg):
        def fit(self, X, y):
            return self

    def build(data_kw=(), with_z=False, **kw):
        k = dict(base)
        k.update(data_kw)
        if with_z:
            k["z"] = rs.normal(size=n)
        dd = dml.DoubleMLData.from_arrays(**k)
        a = dict(ml_g=Reg(), h_fs=0.9)
        a.update(kw)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return M.RDFlex(dd, **a)

    lo, hi = float(base["s"].min()), float(base["s"].max())
    m = build()
    c.same("valid arguments accepted", type(m).__name__, "RDFlex")
    for ok in (dict(cutoff=lo), dict(cutoff=hi), dict(cutoff=0), dict(fs_kernel="UNIFORM"), dict(fs_kernel=lambda v, h: v * 0 + 1.0), dict(n_folds=2, n_rep=3)):
        if ok in (dict(cutoff=lo), dict(cutoff=hi)):
            ok = dict(ok, fs_kernel=lambda v, h: v * 0 + 1.0)  # one empty side: no weighted share
            try:
                build(**ok)
            except ZeroDivisionError:
                pass
            continue
        c.same(f"accepted {sorted(ok)}", type(build(**ok)).__name__, "RDFlex")
    bad_v, bad_t = (ValueError,), (TypeError,)
    cases = [
        ("no score", dict(data_kw=dict(s=None)), bad_v),
        ("binary score", dict(data_kw=dict(s=_np.tile([0.0, 1.0], n // 2))), bad_v),
        ("integer score", dict(data_kw=dict(s=_np.arange(n) - n // 2)), bad_v),
        ("cutoff below the score", dict(cutoff=lo - rs.uniform(1e-6, 3)), bad_v),
        ("cutoff above the score", dict(cutoff=hi + rs.uniform(1e-6, 3)), bad_v),
        ("cutoff type", dict(cutoff=rs.choice(["0", "1"])), bad_t),
        ("cutoff list", dict(cutoff=[0.0]), bad_t),
        ("cutoff None", dict(cutoff=None), bad_t),
        ("two treatments", dict(data_kw=dict(d=_np.column_stack([base["d"], 1 - base["d"]]))), bad_v),
        ("continuous treatment", dict(data_kw=dict(d=rs.normal(size=n))), bad_v),
        ("treatment with values 1 and 2", dict(data_kw=dict(d=base["d"] + 1)), bad_v),
        ("three treatment levels", dict(data_kw=dict(d=_np.tile([0.0, 1.0, 2.0], n // 3))), bad_v),
        ("instruments", dict(with_z=True), bad_v),
        ("fuzzy without treatment learner", dict(fuzzy=True), bad_v),
        ("fuzzy with a regressor", dict(fuzzy=True, ml_m=Reg()), bad_v + bad_t),
        ("classifier for a continuous outcome", dict(ml_g=Clf()), bad_v),
        ("learner class", dict(ml_g=Reg), bad_t),
        ("learner without weights", dict(ml_g=NoWeights()), bad_v),
        ("initial bandwidth type", dict(h_fs=rs.choice(["1", "a"])), bad_t),
        ("initial bandwidth integer", dict(h_fs=1), bad_t),
        ("specification type", dict(fs_specification=int(rs.integers(5))), bad_t),
        ("specification", dict(fs_specification=str(rs.choice(["score", "cutoff score", "Cutoff", ""]))), bad_v),
        ("kernel type", dict(fs_kernel=int(rs.integers(5))), bad_t),
        ("kernel", dict(fs_kernel=str(rs.choice(["gauss", "tri", ""]))), bad_v),
        ("folds", dict(n_folds=int(rs.choice([1, 0, -2]))), bad_v),
        ("folds type", dict(n_folds=2.0), bad_t),
        ("repetitions", dict(n_rep=int(rs.choice([0, -1]))), bad_v),
        ("repetitions type", dict(n_rep="1"), bad_t),
    ]
    for lab, kw, errs in cases:
        c.raises(lab, errs, lambda kw=kw: build(**kw))
    c.raises("data type", bad_t, lambda: M.RDFlex(base, Reg(), h_fs=1.0))
    for it, e in ((0, bad_v), (-int(rs.integers(1, 5)), bad_v), (1.0, bad_t), ("2", bad_t), (None, bad_t)):
        c.raises(f"iterations {it}", e, lambda it=it: build().fit(n_iterations=it))
    m.fit()
    for lv, e in ((1, bad_t), ("0.9", bad_t), (1.0, bad_v), (0.0, bad_v), (-float(rs.uniform(0, 2)), bad_v), (1 + float(rs.uniform(0, 2)), bad_v)):
        c.raises(f"level {lv}", e, lambda lv=lv: m.confint(lv))


@contract("C21", targets=["doubleml.rdd.rdd.RDFlex.pval", "doubleml.rdd.rdd.RDFlex.t_stat"])
def statistics(c):
    """t statistics are estimate over standard error, p-values two-sided normal"""
    from scipy.stats import norm

    if c.symbolic:
        from vc import npmodel

        norm = npmodel.NormProxy(norm)
    o = object.__new__(c.target("doubleml.rdd.rdd").RDFlex)
    o._coef, o._se = c.arr("coef", 3), c.arr("se", 3, kind="pos")
    c.eq("t statistic", o.t_stat, o._coef / o._se)
    c.eq("p-value", o.pval, 2 * (1 - norm.cdf(c.np.abs(o._coef / o._se))))
