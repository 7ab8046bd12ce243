"""Learner parameters reach exactly the learner, treatment, repetition and fold they are set for;
tuning searches on training observations only and stores one result per treatment and repetition."""
import re

from vc.harness import contract

from . import crossfit as CF
from .c12_propensity import _MODELS, construct

_T = ["doubleml.DoubleML.set_ml_nuisance_params", "doubleml.double_ml.DoubleML._get_params"]
_S = ["cross_val_predict (scikit-learn's contract: a fresh clone per split)", "variance estimator (C03)"]
_G = ["GridSearchCV / RandomizedSearchCV (some best parameters and a refitted copy)"]

DEFAULT = {"a": 0.0, "b": 0}


def per_fold(m, K, want, key, treat, r):
    v = want.get((key, treat))
    return [DEFAULT] * K if v is None else [dict(DEFAULT, **p) for p in (v[r] if isinstance(v, list) else [v] * K)]


def check_fit(c, w, o, want, skip=()):
    m, cols = o.m, o.dd.d_cols
    for r in range(o.R):
        for j, col in enumerate(cols):
            for s in o.specs(r, j):
                if s.key in skip:
                    continue
                t = s.target
                if callable(t):
                    t = t(o.__dict__.get("got", {}).get((r, j)))
                X = s.X(o.got[r, j]) if callable(s.X) else s.X
                p = per_fold(m, len(m._smpls[r]), want, s.key, col, r)
                got = w.check(f"{s.key} rep{r} treatment{j}", m.predictions[s.key][:, r, j], m._smpls[r], s.name, t, X, s.cond, s.post, s.rows, params=p)
                o.__dict__.setdefault("got", {}).setdefault((r, j), {})[s.key] = got
    w.check_users()


def nested(R, K, base):
    return [[{"a": base + 10 * r + k + 1} for k in range(K)] for r in range(R)]


def simple(name, build, weight=2, R=2, **opts):
    @contract("C25", name=f"set_{name}", targets=_T + [f"doubleml {name}._nuisance_est"], stubs=_S, weight=weight)
    def fn(c):
        w = CF.World(c)
        k = {q: c.choice(q, v) for q, v in opts.items()}
        o = build(c, w, R=R, **k)
        keys = [s.key for s in o.specs(0, 0)] if not name.startswith(("pq", "cvar", "lpq", "ssm_non")) else list(o.m.params_names)
        which = c.choice("set", ["nothing", "all, one dict each", "all, per repetition and fold", *range(len(keys))])
        want = {}
        for q, key in enumerate(keys):
            for j, col in enumerate(o.dd.d_cols):
                if which == "nothing":
                    v = None
                elif which == "all, one dict each":
                    v = {"a": 100 * (q + 1) + 1000 * j, "b": q + 1}
                elif which == "all, per repetition and fold":
                    v = nested(R, 2, 100 * (q + 1) + 1000 * j)
                else:  # one nuisance function of the last treatment only
                    v = nested(R, 2, 100 * (q + 1)) if q == which and j == len(o.dd.d_cols) - 1 else None
                if v is not None:
                    want[key, col] = v
                    c.same(f"{key} returns the model", o.m.set_ml_nuisance_params(key, col, v) is o.m, True)
        o.m.fit(store_models=c.choice("store_models", [False, True]))
        check_fit(c, w, o, want)

    return fn


simple("plr", CF.plr, R=3, score=["partialling out", "IV-type"])
simple("plr_two_treatments", lambda c, w, **k: CF.plr(c, w, J=3, **k))
simple("pliv", CF.pliv, score=["partialling out", "IV-type"])
simple("pliv_partial_z", CF.pliv_partial, R=1, which=["Z"])
simple("pliv_partial_xz", CF.pliv_partial, R=1, which=["XZ"])
simple("irm", CF.irm)
simple("apo", CF.apo)
simple("iivm", CF.iivm, at=[True, False], nt=[True, False], R=1)
simple("did", CF.did, score=["observational", "experimental"])
simple("did_cs", CF.did_cs, score=["observational", "experimental"], R=1)
simple("ssm", CF.ssm_mar, R=1)
simple("ssm_nonignorable", CF.ssm_non, R=1)
simple("pq", CF.pq)
simple("cvar", lambda c, w, **k: CF.pq(c, w, cvar=True, **k))
simple("lpq", CF.lpq, R=1)


@contract("C25", targets=_T)
def set_refused(c):
    """unknown nuisance functions, treatments and wrong numbers of repetitions or folds are refused and change nothing"""
    kind = c.choice("model", [k for k in _MODELS if k not in ("qte", "apos")])
    m = construct(kind, n_folds=3, n_rep=2)
    key = m.params_names[c.choice("learner", [0, -1])]
    before = repr(m.params)
    bad = c.choice("bad", ["learner", "prefix", "treatment", "reps", "flat", "folds", "last rep folds"])
    p = {"a": 1}
    lst = [[p] * 3] * 2
    args = {
        "learner": ("ml_zz", "d", p),
        "prefix": ("ml_", "d", p),
        "treatment": (key, "x1", p),
        "reps": (key, "d", lst[:1]),
        "flat": (key, "d", [p] * 3),
        "folds": (key, "d", [[p] * 2] * 2),
        "last rep folds": (key, "d", [[p] * 3, [p] * 2]),
    }[bad]
    c.raises("refused", (ValueError, AssertionError, TypeError), m.set_ml_nuisance_params, *args)
    c.same("nothing changed", repr(m.params), before)


# ---------------------------------------------------------------- tuning


class Search:
    """stands for scikit-learn's searches: remembers what it was given; the best parameters
    name this search; the refitted copy predicts with an arbitrary function"""

    def __init__(self, mode, estimator, grid, scoring, cv, n_jobs, n_iter):
        self.mode, self.estimator, self.grid, self.scoring, self.cv, self.n_jobs, self.n_iter = mode, estimator, grid, scoring, cv, n_jobs, n_iter

    def fit(self, X, y):
        w = CF.W
        self.u = len(w.fits)
        w.fits.append(CF.Rec(u=self.u, name="search:" + self.estimator.name, obj=self, params={}, X=X, y=y, w=None, clf=False))
        w.searches.append(self)
        self.X, self.y = X, y
        self.best_params_ = {"a": 1000 + self.u}
        self.best_estimator_ = self
        return self

    def predict(self, X):
        return CF.W.predict(self.u, X)


def grid_search(estimator, param_grid, *, scoring=None, cv=None, n_jobs=None, **k):
    return Search("grid_search", estimator, param_grid, scoring, cv, n_jobs, None)


def randomized_search(estimator, param_distributions, *, scoring=None, cv=None, n_jobs=None, n_iter=10, **k):
    return Search("randomized_search", estimator, param_distributions, scoring, cv, n_jobs, n_iter)


def tuning(c, w):
    import doubleml.plm.pliv as MP
    import doubleml.utils._estimation as ME

    w.searches = []
    for M in (ME, MP):
        if hasattr(M, "GridSearchCV"):
            c.patch(M, "GridSearchCV", grid_search)
            c.patch(M, "RandomizedSearchCV", randomized_search)


def crude(c, o):
    """the quantile the searches use in place of the preliminary estimate"""
    return c.np.quantile(o.y[o.d[0] == o.treatment], o.quantile)


def tune_specs(c, w, kind, o, r, j, of):
    """key -> (learner, target, features, subgroup); of(key): the search found for a key before it (one per fold)"""
    np = c.np
    if kind in ("pq", "cvar"):
        q = crude(c, o)
        y, d = o.y, o.d[0]
        t = y <= q if kind == "pq" else np.max(np.column_stack((np.ones_like(y) * q, (y - o.quantile * q) / (1 - o.quantile))), axis=1)
        return {"ml_g": ("g", t, o.x, d == o.treatment), "ml_m": ("m", d, o.x, None)}
    if kind == "lpq":
        y, d, z = o.y, o.d[0], o.z[0]
        du = (d == o.treatment) * (y <= crude(c, o))
        out = {"ml_m_z": ("m", z, o.x, None)}
        for a in (0, 1):
            out[f"ml_m_d_z{a}"] = ("m", d, o.x, z == a)
            out[f"ml_g_du_z{a}"] = ("g", du, o.x, z == a)
        return out
    if kind == "ssm_non":
        y, d, s = o.y, o.d[0], o.s
        return {
            "ml_g_d0": ("g", y, o.x, (d == 0) & (s == 1)),
            "ml_g_d1": ("g", y, o.x, (d == 1) & (s == 1)),
            "ml_pi": ("pi", s, np.column_stack((o.x, d, o.z[0])), None),
            "ml_m": ("m", d, o.x, None),
        }
    if kind == "pliv_xz":
        xz = np.column_stack((o.x, *o.z))
        return {"ml_l": ("l", o.y, o.x, None), "ml_m": ("m", o.d[0], xz, None), "ml_r": ("r", lambda k, tr: w.predict(of("ml_m")[k].u, xz[tr, :]), o.x, None)}
    out = {}
    for s in o.specs(r, j):
        t = s.target
        if s.key == "ml_g" and kind in ("plr", "pliv"):
            t = None
        out[s.key] = (s.name, t, s.X, s.cond)
    if out.get("ml_g", (0, 0))[1] is None and "ml_g" in out:
        out["ml_g"] = ("g", lambda k, tr: iv_target(c, w, kind, o, r, j, of, out["ml_l"][2])[tr], out["ml_l"][2], None)
    return out


def iv_target(c, w, kind, o, r, j, of, X):
    """outcome net of the initial effect, from the tuned copies' predictions on their own training observations"""
    np = c.np
    smpls = o.tune_smpls(r)
    hat = {}
    for key in ("ml_l", "ml_m") + (("ml_r",) if kind == "pliv" else ()):
        v = np.zeros(o.n)
        for k, (tr, _) in enumerate(smpls):
            v[tr] = w.predict(of(key)[k].u, X[tr, :])
        hat[key] = v
    d = o.d[j]
    if kind == "plr":
        v = d - hat["ml_m"]
        th = np.mean(v * (o.y - hat["ml_l"])) / np.mean(v * v)
    else:
        v = o.z[0] - hat["ml_m"]
        th = np.mean(v * (o.y - hat["ml_l"])) / np.mean((d - hat["ml_r"]) * v)
    return o.y - th * d


def learner_key(m, key):
    ks = [k for k in m.learner_names if key.startswith(k)]
    return max(ks, key=len)


def tuned(name, build, kind, weight=3, R=2, fit=True, **opts):
    @contract("C25", name=f"tune_{name}", targets=["doubleml.DoubleML.tune", "doubleml.utils._estimation._dml_tune", f"doubleml {name}._nuisance_tuning"] + _T, stubs=_S + _G, weight=weight)
    def fn(c):
        w = CF.World(c)
        k = {q: c.choice(q, v) for q, v in opts.items()}
        o = build(c, w, R=R, **k)
        m = o.m
        tuning(c, w)
        folds = c.choice("tune_on_folds", [False, True])
        mode = c.choice("search_mode", ["grid_search", "randomized_search"])
        ret, keep = c.choice("return and set", [(True, True), (False, True), (True, False)])
        grids = {q: {"a": [i, i + 1]} for i, q in enumerate(m.learner_names)}
        ignored = {"ml_zz": {"a": [1]}}
        scoring = None if mode == "grid_search" else {q: f"score of {q}" for q in m.learner_names}
        kw = {} if scoring is None else {"scoring_methods": scoring, "n_iter_randomized_search": 7, "n_folds_tune": 3, "n_jobs_cv": 2}
        res = m.tune(dict(grids, **ignored), tune_on_folds=folds, search_mode=mode, set_as_params=keep, return_tune_res=ret, **kw)
        everyone = [(c.np.arange(o.n), c.np.arange(o.n))]
        o.tune_smpls = lambda r: m._smpls[r] if folds else everyone
        if not ret:
            c.same("returns the model", res is m, True)
        want, used = {}, set()
        for j, col in enumerate(o.dd.d_cols):
            for r in range(R if folds else 1):
                if ret:
                    one = (res[r][j] if folds else res[j])["params"]
                else:
                    one = {q: (m.params[q][col][r] if folds else [(m.params[q][col][0] or [None])[0]]) for q in m.params_names}
                found = {}

                def of(key):
                    return found[key]

                for key, (nm, target, X, cond) in tune_specs(c, w, kind, o, r, j, of).items():
                    lab = f"{key} treatment{j} rep{r}"
                    ps = one[key]
                    c.same(f"{lab} one result per fold", len(ps), len(o.tune_smpls(r)))
                    srch = [s for p in ps for s in w.searches if s.best_params_ == p]
                    if len(srch) != len(ps):
                        c.fail(f"{lab} parameters come from one search each", f"{ps}")
                        continue
                    found[key] = srch
                    lk = learner_key(m, key)
                    for q, (s, (tr, _)) in enumerate(zip(srch, o.tune_smpls(r))):
                        lb = f"{lab} fold{q}"
                        c.same(f"{lb} search used once", s.u in used, False)
                        used.add(s.u)
                        c.same(f"{lb} learner", s.estimator.name, nm)
                        c.same(f"{lb} grid", s.grid, grids[lk])
                        c.same(f"{lb} scoring", s.scoring, None if scoring is None else scoring[lk])
                        c.same(f"{lb} folds", (s.mode, s.cv.get_n_splits(), s.n_jobs, s.n_iter), (mode, 5 if scoring is None else 3, None if scoring is None else 2, None if scoring is None else 7))
                        idx = tr if cond is None else tr[cond[tr]]
                        alt = (idx,) if cond is None else (idx, c.np.intersect1d(c.np.where(cond)[0], tr))
                        idx = CF.pick(c, s.X, alt)
                        t = target(q, tr) if callable(target) else target[idx]
                        if c.symbolic:
                            c.eq(f"{lb} training features", s.X, X[idx, :])
                            c.eq(f"{lb} training target", s.y, t)
                        else:
                            c.eq(f"{lb} training features and target", CF._rows(s.X, s.y), CF._rows(X[idx, :], t))
                    if keep:
                        if folds:
                            want.setdefault((key, col), []).append(ps)
                        else:
                            want[key, col] = ps[0]
        c.same("nothing else is searched", len(w.searches), len(used))
        for q in m.params_names:
            for col in o.dd.d_cols:
                v = want.get((q, col))
                if not keep:
                    c.same(f"{q} of {col} unset", m.params[q][col], [None] * R)
                elif v is not None:
                    c.same(f"{q} of {col} stored per repetition and fold", m.params[q][col], v if folds else [[v] * 2] * R)
        for e, p in w.users:
            c.same(f"learner {e.name} is not fitted", hasattr(e, "uid_"), False)
            c.same(f"learner {e.name} keeps its parameters", e.get_params(), p)
        if fit:
            m.fit()
            check_fit(c, w, o, want)

    return fn


tuned("plr", CF.plr, "plr", R=3, score=["partialling out", "IV-type"])
tuned("plr_two_treatments", lambda c, w, **k: CF.plr(c, w, J=3, **k), "plr")
tuned("plr_binary_treatment", lambda c, w, **k: CF.plr(c, w, binary_d=True, score="IV-type", **k), "plr", R=1)
tuned("pliv", CF.pliv, "pliv", score=["partialling out", "IV-type"])
tuned("plr_integer_columns", lambda c, w, **k: CF.plr(c, w, ints=True, score="IV-type", **k), "plr", R=1)
tuned("pliv_integer_columns", lambda c, w, **k: CF.pliv(c, w, ints=True, score="IV-type", **k), "pliv", R=1)
tuned("pliv_two_instruments", lambda c, w, **k: CF.pliv(c, w, Z=2, **k), "pliv", R=1, fit=False)
tuned("pliv_partial_z", lambda c, w, **k: CF.pliv_partial(c, w, which="Z", **k), "pliv_z", R=1)
tuned("pliv_partial_xz", lambda c, w, **k: CF.pliv_partial(c, w, which="XZ", **k), "pliv_xz", R=1)
tuned("irm", CF.irm, "irm")
tuned("apo", CF.apo, "apo", R=1)
tuned("iivm", CF.iivm, "iivm", at=[True, False], nt=[True, False], R=1)
tuned("did", CF.did, "did", score=["observational", "experimental"], R=1)
tuned("did_cs", CF.did_cs, "did_cs", score=["observational", "experimental"], R=1)
tuned("ssm", CF.ssm_mar, "ssm", R=1)
tuned("ssm_nonignorable", CF.ssm_non, "ssm_non", R=1)
tuned("pq", CF.pq, "pq", treatment=[0, 1], R=1)
tuned("cvar", lambda c, w, **k: CF.pq(c, w, cvar=True, **k), "cvar", treatment=[0, 1], R=1)
tuned("lpq", CF.lpq, "lpq", treatment=[0, 1], R=1)


@contract("C25", targets=["doubleml.DoubleML.tune"])
def tune_refused(c):
    kind = c.choice("model", [k for k in _MODELS if k not in ("qte", "apos")])
    m = construct(kind, n_folds=2, n_rep=1)
    g = {k: {"a": [1, 2]} for k in m.learner_names}
    bad = c.choice("bad", ["grids list", "grid missing", "scoring list", "scoring key", "tune_on_folds", "n_folds_tune float", "n_folds_tune 1", "mode", "mode type", "n_iter float", "n_iter 1", "n_jobs", "set_as_params", "return_tune_res"])
    kw = {
        "scoring list": dict(scoring_methods=["r2"]),
        "scoring key": dict(scoring_methods={"ml_zz": "r2"}),
        "tune_on_folds": dict(tune_on_folds=1),
        "n_folds_tune float": dict(n_folds_tune=2.0),
        "n_folds_tune 1": dict(n_folds_tune=1),
        "mode": dict(search_mode="gridsearch"),
        "mode type": dict(search_mode=1),
        "n_iter float": dict(n_iter_randomized_search=3.0),
        "n_iter 1": dict(n_iter_randomized_search=1),
        "n_jobs": dict(n_jobs_cv="2"),
        "set_as_params": dict(set_as_params="yes"),
        "return_tune_res": dict(return_tune_res=1),
    }.get(bad, {})
    if bad == "grids list":
        g = list(g)
    elif bad == "grid missing":
        g.pop(m.learner_names[-1])
    before = repr(m.params)
    c.raises("refused", (ValueError, TypeError), m.tune, g, **kw)
    c.same("nothing changed", repr(m.params), before)


@contract("C25", targets=["doubleml.double_ml.DoubleML.get_params", "doubleml.double_ml.DoubleML.set_ml_nuisance_params"])
def get_params(c):
    """the parameters reported for a nuisance function are the ones set for it, per treatment, repetition and fold"""
    kind = c.choice("model", ["plr", "irm", "iivm"])
    m = construct(kind, n_folds=3, n_rep=2)
    key = c.choice("learner", [0, -1])
    key, other = m.params_names[key], m.params_names[1 if key == 0 else 0]
    col = m._dml_data.d_cols[0]
    c.same("nothing set", [m.get_params(k)[col] for k in m.params_names], [[None] * 2] * len(m.params_names))
    p = c.choice("form", [{"a": 1}, [[{"a": 10 * r + k} for k in range(3)] for r in range(2)]])
    m.set_ml_nuisance_params(key, col, p)
    c.same("set per repetition and fold", m.get_params(key)[col], [[p] * 3] * 2 if isinstance(p, dict) else p)
    c.same("others keep the defaults", m.get_params(other)[col], [None] * 2)
    for bad in ("ml_zz", "ml", 1, None):
        c.raises(f"unknown nuisance function {bad!r}", (ValueError, TypeError), m.get_params, bad)
