"""Propensities: truncation, refusal of invalid truncation, normalisation."""
import numpy as _np

from vc.harness import contract

from . import models as MD
from .common import Clf, Reg

BUILD = {
    "irm": (MD.irm, "ml_m"),
    "irm_atte": (lambda c, **k: MD.irm(c, score="ATTE", **k), "ml_m"),
    "apo": (MD.apo, "ml_m"),
    "iivm": (MD.iivm, "ml_m"),
    "did": (MD.did, "ml_m"),
    "did_cs": (MD.did_cs, "ml_m"),
}


@contract(
    "C12",
    targets=["doubleml.utils._propensity_score._trimm", "doubleml.irm.irm.DoubleMLIRM._nuisance_est", "doubleml.irm.apo.DoubleMLAPO._nuisance_est",
             "doubleml.irm.iivm.DoubleMLIIVM._nuisance_est", "doubleml.did.did.DoubleMLDID._nuisance_est", "doubleml.did.did_cs.DoubleMLDIDCS._nuisance_est"],
    weight=3,
)
def stored(c):
    """the propensities a model stores (the ones its score uses, C01) are the truncated ones"""
    build, key = BUILD[c.choice("model", list(BUILD))]
    lo = c.real("threshold", lo=0, hi=0.5)
    o = build(c, R=2, lo=lo)
    for r in range(o.R):
        p = o.m.predictions[key][:, r, 0]
        e = o.ext[key][:, r]
        c.eq(f"truncated rep{r}", p, MD.trim(c, e, lo))
        c.true(f"lower bound rep{r}", p >= lo)
        c.true(f"upper bound rep{r}", p <= 1 - lo)


@contract("C12", targets=["doubleml.utils._propensity_score._trimm"])
def trimm(c):
    f = c.target("doubleml.utils._propensity_score._trimm")
    n = c.n("n", 1)
    p = c.arr("p", n)
    lo = c.real("threshold", lo=0, hi=0.5)
    c.eq("value", f(p, "truncate", lo), MD.trim(c, p, lo))


def _norm(c, ind):
    f = c.target("doubleml.utils._propensity_score._propensity_score_adjustment")
    n = c.n("n", 2)
    p = c.arr("p", n, kind="unit")
    d = c.arr("d", n, kind="binary")
    c.assume(c.np.sum(d) > 0)
    c.assume(c.np.sum(1 - d) > 0)
    return f, p, d


@contract("C12", targets=["doubleml.utils._propensity_score._normalize_ipw", "doubleml.utils._propensity_score._propensity_score_adjustment"])
def normalise(c):
    """weights of treated and untreated average to one; the propensities keep their ratio within a group"""
    np = c.np
    f, p, d = _norm(c, "d")
    q = f(p, d, True)
    c.eq("treated weights average to one", np.mean(d / q), 1.0)
    c.eq("untreated weights average to one", np.mean((1 - d) / (1 - q)), 1.0)
    c.eq("value", q, MD.normalised(c, p, d))
    c.eq("not requested: unchanged", f(p, d, False), p)


@contract("C12", targets=["doubleml.irm.irm.DoubleMLIRM._score_elements", "doubleml.irm.apo.DoubleMLAPO._score_elements"], weight=3)
def score_uses_normalised(c):
    """models evaluate their score at the normalised truncated propensities when asked to, else at the truncated ones"""
    kind = c.choice("model", ["irm", "apo"])
    nrm = c.choice("normalize", [False, True])
    lo = c.choice("threshold", [0.01, 0.3])
    if kind == "irm":
        o = MD.irm(c, R=2, normalize=nrm, lo=lo)
        ind = o.d
    else:
        o = MD.apo(c, R=2, normalize=nrm, lo=lo)
        ind = o.t
    for r in range(o.R):
        p = o.m.predictions["ml_m"][:, r, 0]
        if nrm:
            p = MD.normalised(c, p, ind)
        if kind == "irm":
            g0, g1 = o.ext["ml_g0"][:, r], o.ext["ml_g1"][:, r]
            b = g1 - g0 + ind * (o.y - g1) / p - (1 - ind) * (o.y - g0) / (1 - p)
        else:
            g1 = o.ext["ml_g_d_lvl1"][:, r]
            b = g1 + ind * (o.y - g1) / p
        c.eq(f"psi_b rep{r}", o.m.psi_elements["psi_b"][:, r, 0], b)


@contract("C12", targets=["doubleml.irm.iivm.DoubleMLIIVM._score_elements"], weight=3, mode="bounded",
          why_bounded="known finding: the obligation is false on the current code; kept as a run-time check")
def iivm_normalised(c):
    """the instrument propensity is normalised within the groups it is the propensity of"""
    o = MD.iivm(c, R=1, normalize=True, lo=0.01)
    y, d, z, r = o.y, o.d, o.z, 0
    g0, g1, r0, r1 = (o.ext[k][:, r] for k in ("ml_g0", "ml_g1", "ml_r0", "ml_r1"))
    p = MD.normalised(c, o.m.predictions["ml_m"][:, r, 0], z)
    c.eq("psi_b", o.m.psi_elements["psi_b"][:, r, 0], g1 - g0 + z * (y - g1) / p - (1 - z) * (y - g0) / (1 - p))


# ---------------------------------------------------------------- refusal

_MODELS = ["irm", "apo", "iivm", "did", "did_cs", "ssm", "pq", "lpq", "cvar", "qte", "apos"]


def _concrete(kind):
    import doubleml as dml

    rs = _np.random.RandomState(1)
    n = 40
    kw = dict(x=rs.normal(size=(n, 2)), y=rs.normal(size=n), d=_np.tile([0.0, 1.0], n // 2))
    if kind in ("iivm", "lpq"):
        kw["z"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    if kind == "did_cs":
        kw["t"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    if kind == "ssm":
        kw["s"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    return dml.DoubleMLData.from_arrays(**kw)


def construct(kind, **kw):
    import doubleml as dml

    dd = _concrete(kind)
    return {
        "plr": lambda: dml.DoubleMLPLR(dd, Reg(), Reg(), **kw),
        "irm": lambda: dml.DoubleMLIRM(dd, Reg(), Clf(), **kw),
        "apo": lambda: dml.DoubleMLAPO(dd, Reg(), Clf(), treatment_level=1.0, **kw),
        "apos": lambda: dml.DoubleMLAPOS(dd, Reg(), Clf(), treatment_levels=[0.0, 1.0], **kw),
        "iivm": lambda: dml.DoubleMLIIVM(dd, Reg(), Clf(), Clf(), **kw),
        "did": lambda: dml.DoubleMLDID(dd, Reg(), Clf(), **kw),
        "did_cs": lambda: dml.DoubleMLDIDCS(dd, Reg(), Clf(), **kw),
        "ssm": lambda: dml.DoubleMLSSM(dd, Reg(), Clf(), Clf(), score="missing-at-random", **kw),
        "pq": lambda: dml.DoubleMLPQ(dd, Clf(), Clf(), treatment=1, **kw),
        "lpq": lambda: dml.DoubleMLLPQ(dd, Clf(), Clf(), treatment=1, **kw),
        "cvar": lambda: dml.DoubleMLCVAR(dd, Reg(), Clf(), treatment=1, **kw),
        "qte": lambda: dml.DoubleMLQTE(dd, Clf(), Clf(), quantiles=[0.5], **kw),
    }[kind]()


@contract("C12", targets=["doubleml.utils._checks._check_trimming"], weight=2)
def refused(c):
    """every model refuses thresholds outside (0, 1/2), non-float thresholds and unknown rules"""
    kind = c.choice("model", _MODELS)
    bad = c.choice("bad", ["low", "high", "zero", "half", "int", "str", "rule", "none"])
    kw = {}
    if bad == "low":
        kw["trimming_threshold"] = c.real("threshold", hi=0, strict=False)
    elif bad == "high":
        kw["trimming_threshold"] = c.real("threshold", lo=0.5, strict=False)
    elif bad in ("zero", "half"):
        kw["trimming_threshold"] = 0.0 if bad == "zero" else 0.5
    elif bad == "int":
        kw["trimming_threshold"] = 1
    elif bad == "str":
        kw["trimming_threshold"] = "0.1"
    else:
        kw["trimming_rule"] = {"rule": "discard", "none": None}[bad]
    c.raises("refused", (ValueError, TypeError), construct, kind, **kw)


@contract("C12", targets=["doubleml.utils._checks._check_trimming"])
def accepted(c):
    kind = c.choice("model", _MODELS)
    lo = c.real("threshold", lo=0, hi=0.5)
    m = construct(kind, trimming_threshold=lo, trimming_rule="truncate")
    c.eq("threshold", m.trimming_threshold, lo)
    c.same("rule", m.trimming_rule, "truncate")
