"""Weighted effects: user weights in scores and sensitivity elements; malformed weights refused."""
import numpy as _np

from vc.harness import contract

from . import elements as EL
from . import models as MD
from .common import Clf, Reg, data

_I = ["doubleml.irm.irm.DoubleMLIRM._get_weights", "doubleml.irm.irm.DoubleMLIRM._score_elements", "doubleml.irm.irm.DoubleMLIRM._initialize_weights"]
_A = ["doubleml.irm.apo.DoubleMLAPO._get_weights", "doubleml.irm.apo.DoubleMLAPO._score_elements", "doubleml.irm.apo.DoubleMLAPO._initialize_weights"]


@contract("C19", targets=_I, weight=3)
def irm_score(c):
    """ATE: weights on the regression part, weights_bar of the repetition on the residual part; ATTE: treatment over its mean within the selected group"""
    np = c.np
    score, w = c.choice("score and weights", [("ATE", None), ("ATE", "array"), ("ATE", "dict"), ("ATTE", None), ("ATTE", "binary")])
    nrm = c.choice("normalize", [False, True])
    o = MD.irm(c, R=2, score=score, weights=w, normalize=nrm, lo=0.05)
    y, d = o.y, o.d
    for r in range(o.R):
        p = o.m.predictions["ml_m"][:, r, 0]
        p = MD.normalised(c, p, d) if nrm else p
        g0, g1 = o.ext["ml_g0"][:, r], o.ext["ml_g1"][:, r]
        w1, w2 = EL.weights(c, o, p, d, w, r, score == "ATTE")
        c.eq(f"psi_a rep{r}", o.m.psi_elements["psi_a"][:, r, 0], -w1 / np.mean(w1))
        c.eq(f"psi_b rep{r}", o.m.psi_elements["psi_b"][:, r, 0], w1 * (g1 - g0) + w2 * (d * (y - g1) / p - (1 - d) * (y - g0) / (1 - p)))


@contract("C19", targets=["doubleml.irm.irm.DoubleMLIRM._sensitivity_element_est", *_I], weight=3)
def irm_elements(c):
    score, w = c.choice("score and weights", [("ATE", "array"), ("ATE", "dict"), ("ATTE", None), ("ATTE", "binary")])
    nrm = c.choice("normalize", [False, True])
    o = MD.irm(c, R=1, score=score, weights=w, normalize=nrm, lo=0.05, sens=True)
    EL.irm(c, o, score, w, nrm)


@contract("C19", targets=_A, weight=3)
def apo_score(c):
    np = c.np
    w = c.choice("weights", [None, "array", "dict"])
    nrm = c.choice("normalize", [False, True])
    lev = c.choice("level", [0, 1])
    o = MD.apo(c, R=2, weights=w, normalize=nrm, lo=0.05, level=lev)
    y, t = o.y, o.t
    for r in range(o.R):
        p = o.m.predictions["ml_m"][:, r, 0]
        p = MD.normalised(c, p, t) if nrm else p
        g1 = o.ext["ml_g_d_lvl1"][:, r]
        w1, w2 = EL.weights(c, o, p, t, w, r)
        c.eq(f"psi_a rep{r}", o.m.psi_elements["psi_a"][:, r, 0], -w1 / np.mean(w1))
        c.eq(f"psi_b rep{r}", o.m.psi_elements["psi_b"][:, r, 0], w1 * g1 + w2 * t * (y - g1) / p)


@contract("C19", targets=["doubleml.irm.apo.DoubleMLAPO._sensitivity_element_est", *_A], weight=3)
def apo_elements(c):
    w = c.choice("weights", ["array", "dict"])
    nrm = c.choice("normalize", [False, True])
    o = MD.apo(c, R=1, weights=w, normalize=nrm, lo=0.05, sens=True)
    EL.apo(c, o, w, nrm)


@contract("C19", targets=["doubleml.double_ml_score_mixins.LinearScoreMixin._est_coef", *_I], weight=2)
def normalisation(c):
    """the weights in the score's derivative average to one, so the estimate is the mean of the weighted signal"""
    np = c.np
    kind = c.choice("model", ["irm", "apo"])
    w = "array"
    o = (MD.irm if kind == "irm" else MD.apo)(c, R=1, weights=w, lo=0.05, fit=False)
    o.m.fit(external_predictions={"d": o.ext})
    pa, pb = o.m.psi_elements["psi_a"][:, 0, 0], o.m.psi_elements["psi_b"][:, 0, 0]
    c.eq("mean derivative", np.mean(pa), -1.0)
    c.eq("estimate is the mean of the weighted signal", o.m.coef[0], np.mean(pb))


def _stub(c, kind, n, R, score="ATE"):
    import doubleml as dml

    y, d = c.arr("y", n), c.arr("d", n, kind="binary")
    c.assume(c.np.sum(d) > 5)
    c.assume(c.np.sum(1 - d) > 5)
    dd = data(c, n, y=y, d=[d], binary_d=True)
    if kind == "irm":
        return lambda w, **k: dml.DoubleMLIRM(dd, Reg(), Clf(), score=k.get("score", score), n_rep=R, weights=w, draw_sample_splitting=False)
    return lambda w, **k: dml.DoubleMLAPO(dd, Reg(), Clf(), treatment_level=1, n_rep=R, weights=w, draw_sample_splitting=False)


_C = ["doubleml.utils._checks._check_weights"]


@contract("C19", targets=_C, weight=2)
def negative_weights(c):
    """some negative or only zero weights: refused; otherwise accepted and kept"""
    np = c.np
    kind = c.choice("model", ["irm", "apo"])
    R = c.choice("repetitions", [1, 2])
    n = c.n("n", 20)
    make = _stub(c, kind, n, R)
    form = c.choice("form", ["array", "weights", "weights_bar"])
    case = c.choice("case", ["valid", "negative", "zero"])
    if form == "weights_bar":
        bad = c.arr("v", n, R)
    else:
        bad = c.arr("v", n)
    if case == "valid":
        c.assume(np.all(bad >= 0))
        c.assume(np.sum(bad) > 0)
    elif case == "negative":
        if c.symbolic:
            i = c.int("i", 0, n - 1)
            if form == "weights_bar":
                c.assume(bad[i, c.int("k", 0, R - 1)] < 0)
            else:
                c.assume(bad[i] < 0)
        else:
            bad.flat[0] = -0.5
    else:
        bad = bad * 0.0
    other = c.arr("u", n, R, kind="pos") if form == "weights" else c.arr("u", n, kind="pos")
    if form == "array":
        w = bad
    elif form == "weights":
        w = {"weights": bad, "weights_bar": other}
    else:
        w = {"weights": other, "weights_bar": bad}
    if c.symbolic:
        c.assume(np.sum(other) > 0)
    if case == "valid":
        m = make(w)
        c.eq("weights kept", m.weights["weights"], bad if form != "weights_bar" else other)
        if form != "array":
            c.eq("weights_bar kept", m.weights["weights_bar"], bad if form == "weights_bar" else other)
    else:
        c.raises("refused", ValueError, make, w)


@contract("C19", targets=_C, mode="bounded", samples=140, why_bounded="types and shapes of the argument")
def malformed_weights(c):
    rng = c.rng
    kind = c.choice("model", ["irm", "apo", "apos"])
    R = c.choice("repetitions", [1, 3])
    n = 40
    import doubleml as dml

    dd = dml.DoubleMLData.from_arrays(rng.normal(size=(n, 2)), rng.normal(size=n), _np.tile([0.0, 1.0], n // 2))

    def make(w, score="ATE"):
        if kind == "irm":
            return dml.DoubleMLIRM(dd, Reg(), Clf(), score=score, n_rep=R, weights=w, n_folds=2)
        if kind == "apo":
            return dml.DoubleMLAPO(dd, Reg(), Clf(), treatment_level=1.0, n_rep=R, weights=w, n_folds=2)
        return dml.DoubleMLAPOS(dd, Reg(), Clf(), treatment_levels=[0.0, 1.0], n_rep=R, weights=w, n_folds=2)

    u, ub = rng.uniform(size=n), rng.uniform(size=(n, R))
    E = (TypeError, ValueError, AssertionError)
    c.true("array accepted", make(u) is not None)
    c.true("dictionary accepted", make({"weights": u, "weights_bar": ub}) is not None)
    c.true("none accepted", make(None) is not None)
    bad = {
        "list": list(u), "number": 1.0, "short": u[:-1], "long": _np.append(u, 1.0), "two dimensions": u.reshape(-1, 1), "string": "equal",
        "missing key": {"weights": u}, "other key": {"weights": u, "bar": ub}, "extra key": {"weights": u, "weights_bar": ub, "x": u},
        "weights shape": {"weights": u[:-1], "weights_bar": ub}, "weights dim": {"weights": u.reshape(-1, 1), "weights_bar": ub},
        "bar one-dimensional": {"weights": u, "weights_bar": ub[:, 0]}, "bar repetitions": {"weights": u, "weights_bar": rng.uniform(size=(n, R + 1))},
        "bar rows": {"weights": u, "weights_bar": ub[:-1]},
        "one negative": _np.where(_np.arange(n) == rng.integers(n), -1e-3, u), "all zero": 0 * u,
        "negative in dict": {"weights": _np.where(_np.arange(n) == rng.integers(n), -1e-3, u), "weights_bar": ub},
        "negative bar": {"weights": u, "weights_bar": _np.where(_np.arange(n * R).reshape(n, R) == rng.integers(n * R), -1e-3, ub)},
        "zero dict": {"weights": 0 * u, "weights_bar": ub}, "zero bar": {"weights": u, "weights_bar": 0 * ub},
    }
    which = c.choice("malformed", list(bad))
    c.raises("refused", E, make, bad[which])
    if kind == "irm":
        b = (rng.uniform(size=n) < 0.6) * 1.0
        b[:4] = [1, 1, 0, 0]
        c.true("binary group weights accepted for the effect on the treated", make(b, "ATTE") is not None)
        c.raises("non-binary group weights refused for the effect on the treated", E, make, u, "ATTE")
        c.raises("dictionary refused for the effect on the treated", E, make, {"weights": u, "weights_bar": ub}, "ATTE")
