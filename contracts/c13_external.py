"""Supplied predictions are used for exactly the nuisance function, treatment and
repetition they are supplied for; everything else is fitted as without them."""
import itertools

import numpy as _np

from vc.harness import contract

from . import crossfit as CF
from .c12_propensity import _MODELS, construct

_T = ["doubleml.utils._estimation._set_external_predictions", "doubleml.DoubleML._fit_nuisance_and_score_elements"]
_S = ["cross_val_predict (scikit-learn's contract: a fresh clone per split)", "variance estimator (C03)"]


def subsets(keys):
    """none, each one, each all-but-one, all"""
    out = [()] + [(k,) for k in keys] + [tuple(x for x in keys if x != k) for k in keys] + [tuple(keys)]
    return list(dict.fromkeys(out))


def run(c, w, o, sub, extra=None, only_treatment=None, unneeded=(), **fit):
    """extra: learner name -> number of further documented fits"""
    m, R, J = o.m, o.R, len(o.d)
    unit = {k for k in sub if k.split("_")[1] in ("m", "r") and k not in o.__dict__.get("real_keys", ())}
    ext, arr = {}, {}
    for j, col in enumerate(o.dd.d_cols):
        if only_treatment is not None and j != only_treatment:
            continue
        ext[col] = {}
        for k in sub:
            a = c.arr(f"ext_{k}_{j}", o.n, R, kind="unit" if k in unit else "real")
            ext[col][k] = arr[k, j] = a
    m.fit(external_predictions=ext if sub or c.choice("empty", ["none", "empty"]) == "empty" else None, **fit)
    want = {}
    for r in range(R):
        for j in range(J):
            for s in o.specs(r, j):
                stored = m.predictions[s.key][:, r, j]
                if (s.key, j) in arr:
                    c.eq(f"{s.key} rep{r} treatment{j} is the supplied column", stored, s.post(arr[s.key, j][:, r]))
                    continue
                if s.key in unneeded:
                    continue
                want[s.name] = want.get(s.name, 0) + len(m._smpls[r])
                target = s.target({}) if callable(s.target) else s.target
                w.check(f"{s.key} rep{r} treatment{j}", stored, m._smpls[r], s.name, target, s.X, s.cond, s.post, s.rows)
    for nm in sorted({e.name for e, _ in w.users}):
        c.same(f"number of fitted copies of {nm}", sum(x.name == nm for x in w.fits), want.get(nm, 0) + (extra or {}).get(nm, 0))
    w.check_users()


def simple(name, build, keys, weight=2, R=2, **opts):
    @contract("C13", name=name, targets=_T + [f"doubleml {name}._nuisance_est"], stubs=_S, weight=weight)
    def fn(c):
        w = CF.World(c)
        k = {o: c.choice(o, v) for o, v in opts.items()}
        ks = keys(k) if callable(keys) else keys
        sub = c.choice("supplied", subsets(ks))
        o = build(c, w, R=R, **k)
        if name.startswith("pl"):
            o.real_keys = ks
        # the IV-type score of the partially linear model needs ml_l for the initial estimate behind ml_g only
        run(c, w, o, sub, unneeded=("ml_l",) if name == "plr_iv" and "ml_g" in sub else ())

    return fn


simple("plr", CF.plr, ["ml_l", "ml_m"], R=3)
simple("plr_iv", lambda c, w, **k: CF.plr(c, w, score="IV-type", **k), ["ml_l", "ml_m", "ml_g"], weight=3)
simple("pliv", CF.pliv, ["ml_l", "ml_m", "ml_r"], R=3)
simple("pliv_iv", lambda c, w, **k: CF.pliv(c, w, score="IV-type", **k), ["ml_l", "ml_m", "ml_r", "ml_g"], weight=3)
simple("irm", CF.irm, ["ml_g0", "ml_g1", "ml_m"], R=3)
simple("apo", CF.apo, ["ml_g_d_lvl0", "ml_g_d_lvl1", "ml_m"])
simple("iivm", CF.iivm, ["ml_g0", "ml_g1", "ml_m", "ml_r0", "ml_r1"], weight=3)
simple("did", CF.did, lambda k: ["ml_g0", "ml_g1"] + (["ml_m"] if k["score"] == "observational" else []), score=["observational", "experimental"])
simple("did_cs", CF.did_cs, lambda k: [f"ml_g_d{a}_t{b}" for a in (0, 1) for b in (0, 1)] + (["ml_m"] if k["score"] == "observational" else []), score=["observational", "experimental"], weight=3)


@contract("C13", targets=_T, stubs=_S, weight=2)
def two_treatments(c):
    """columns of one treatment are never used for the other"""
    w = CF.World(c)
    sub = c.choice("supplied", [("ml_l",), ("ml_m",), ("ml_l", "ml_m")])
    J, R, only = c.choice("treatments", [(2, 3, None), (2, 3, 0), (2, 3, 1), (3, 2, None), (3, 2, 1)])
    o = CF.plr(c, w, R=R, J=J)
    o.real_keys = sub
    run(c, w, o, sub, only_treatment=only)


@contract("C13", targets=_T + ["doubleml.irm.pq.DoubleMLPQ._nuisance_est"], stubs=_S, weight=2)
def pq(c):
    w = CF.World(c)
    sub = c.choice("supplied", [(), ("ml_g",), ("ml_m",), ("ml_g", "ml_m")])
    t = c.choice("treatment", [0, 1])
    o = CF.pq(c, w, R=2, treatment=t)
    extra = {} if "ml_m" in sub else {"m": 8}  # nested: preliminary propensities, two per fold
    run(c, w, o, sub, extra=extra, store_models=c.choice("store_models", [False, True]))
    if sub == ("ml_m",):
        # the preliminary step uses the supplied propensities of the same observations
        th = o.theta
        for r in range(2):
            p = o.m.predictions["ml_m"][:, r, 0]
            for k in range(2):
                h = o.sp.halves[2 * r + k][0]
                q = p[h] if t == 1 else 1 - p[h]
                c.eq(f"preliminary score rep{r} fold{k}", o.ipw_score[2 * r + k], c.np.mean((o.d[0][h] == t) / q * (o.y[h] <= th)) - o.quantile)


@contract("C13", targets=_T + ["doubleml.irm.lpq.DoubleMLLPQ._nuisance_est"], stubs=_S, weight=2)
def lpq(c):
    w = CF.World(c)
    keys = ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]
    sub = c.choice("supplied", [(), tuple(keys)])
    o = CF.lpq(c, w, R=2, treatment=c.choice("treatment", [0, 1]))
    # nested: two preliminary instrument propensities and one treatment propensity per arm, in each fold
    run(c, w, o, sub, extra={} if sub else {"m": 4 * (2 + 2)}, store_models=c.choice("store_models", [False, True]))


@contract("C13", targets=["doubleml.irm.lpq.DoubleMLLPQ._nuisance_est"], stubs=_S)
def lpq_all_or_none(c):
    """local quantiles need all supplied predictions or none: a part is refused, never ignored"""
    w = CF.World(c)
    keys = ["ml_m_z", "ml_m_d_z0", "ml_m_d_z1", "ml_g_du_z0", "ml_g_du_z1"]
    sub = c.choice("supplied", [s for s in subsets(keys) if 0 < len(s) < 5])
    o = CF.lpq(c, w, R=1)
    ext = {"d": {k: c.arr(f"ext_{k}", o.n, 1, kind="unit") for k in sub}}
    c.raises("refused", ValueError, o.m.fit, external_predictions=ext)


# ---------------------------------------------------------------- refusal

_EXT = [k for k in _MODELS if k not in ("ssm", "cvar", "qte", "apos")]


@contract("C13", targets=["doubleml.utils._checks._check_external_predictions"], weight=2)
def refused(c):
    """wrong treatment, learner, type or shape is refused before anything is fitted"""
    kind = c.choice("model", _EXT)
    m = construct(kind, n_folds=2, n_rep=2)
    key = m.params_names[c.choice("learner", [0, -1])]
    good = _np.full((40, 2), 0.5)
    bad = c.choice("bad", ["treatment", "extra treatment", "learner", "list", "frame", "short", "long", "reps", "one rep", "flat", "transposed", "3d", "no dict", "inner no dict", "inner none"])
    import pandas as pd

    val = {
        "list": [[0.5, 0.5]] * 40,
        "frame": pd.DataFrame(good),
        "short": good[:39],
        "long": _np.full((41, 2), 0.5),
        "reps": _np.full((40, 3), 0.5),
        "one rep": good[:, :1],
        "flat": good[:, 0],
        "transposed": good.T,
        "3d": good[:, :, None],
    }.get(bad, good)
    ext = {"d": {key: val}}
    if bad == "treatment":
        ext = {"x": {key: good}}
    elif bad == "extra treatment":
        ext["x"] = {key: good}
    elif bad == "learner":
        ext["d"]["ml_zz"] = good
    elif bad == "no dict":
        ext = [("d", {key: good})]
    elif bad == "inner no dict":
        ext = {"d": good}
    elif bad == "inner none":
        ext = {"d": None}
    c.raises("refused", (ValueError, TypeError), m.fit, external_predictions=ext)
    c.true("nothing was estimated", c.np.all(c.np.isnan(m.coef)))


@contract("C13", targets=["doubleml.DoubleML._check_fit"])
def not_implemented(c):
    """models without support for supplied predictions say so"""
    kind = c.choice("model", ["ssm", "cvar"])
    m = construct(kind, n_folds=2)
    key = m.params_names[0]
    c.raises("refused", NotImplementedError, m.fit, external_predictions={"d": {key: _np.full((40, 1), 0.5)}})
