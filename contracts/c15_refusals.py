"""Constructors refuse data, learners and options they cannot handle, and accept
the rest.  Data: the roles are enumerated, the contents of the columns arbitrary."""
import numpy as _np

from vc.harness import contract

from .c12_propensity import construct
from .common import Clf, Reg

_KINDS = ["plr", "pliv", "irm", "apo", "iivm", "did", "did_cs", "ssm", "ssm_non", "pq", "lpq", "cvar", "qte", "qte_cvar", "qte_lpq", "apos"]
_ERR = (ValueError, TypeError, NotImplementedError, AttributeError)


def make(kind, dd, **kw):
    import doubleml as dml

    kw.setdefault("draw_sample_splitting", False)
    kw.setdefault("n_folds", 2)
    return {
        "plr": lambda: dml.DoubleMLPLR(dd, Reg(), Reg(), **kw),
        "pliv": lambda: dml.DoubleMLPLIV(dd, Reg(), Reg(), Reg(), **kw),
        "irm": lambda: dml.DoubleMLIRM(dd, Reg(), Clf(), **kw),
        "apo": lambda: dml.DoubleMLAPO(dd, Reg(), Clf(), treatment_level=1.0, **kw),
        "apos": lambda: dml.DoubleMLAPOS(dd, Reg(), Clf(), treatment_levels=[1.0], **kw),
        "iivm": lambda: dml.DoubleMLIIVM(dd, Reg(), Clf(), Clf(), **kw),
        "did": lambda: dml.DoubleMLDID(dd, Reg(), Clf(), **kw),
        "did_cs": lambda: dml.DoubleMLDIDCS(dd, Reg(), Clf(), **kw),
        "ssm": lambda: dml.DoubleMLSSM(dd, Reg(), Clf(), Clf(), score="missing-at-random", **kw),
        "ssm_non": lambda: dml.DoubleMLSSM(dd, Reg(), Clf(), Clf(), score="nonignorable", **kw),
        "pq": lambda: dml.DoubleMLPQ(dd, Clf(), Clf(), treatment=1, **kw),
        "lpq": lambda: dml.DoubleMLLPQ(dd, Clf(), Clf(), treatment=1, **kw),
        "cvar": lambda: dml.DoubleMLCVAR(dd, Reg(), Clf(), treatment=1, **kw),
        "qte": lambda: dml.DoubleMLQTE(dd, Clf(), Clf(), quantiles=[0.5], **kw),
        "qte_cvar": lambda: dml.DoubleMLQTE(dd, Reg(), Clf(), quantiles=[0.5], score="CVaR", **kw),
        "qte_lpq": lambda: dml.DoubleMLQTE(dd, Clf(), Clf(), quantiles=[0.5], score="LPQ", **kw),
    }[kind]()


_COLS = ["y", "x", "d", "d2", "dn", "z", "zn", "t", "tn", "s", "sn", "g1", "g2", "g3"]
_BINARY = {"d", "d2", "z", "t", "s"}


def handles(kind, d, z, t, s, cl, draw):
    """the roles a model class can handle, per its documentation"""
    d, z = [d] if isinstance(d, str) else d, [] if z is None else [z] if isinstance(z, str) else z
    if kind in ("apos", "qte", "qte_cvar", "qte_lpq") and not draw:
        raise AssertionError("composites check their components when the splitting is known")
    one = len(d) == 1
    one_binary = one and d[0] in _BINARY
    if len(cl) > 2:
        return False
    if kind == "plr":
        return not z
    if kind == "pliv":
        return bool(z)
    if kind in ("apo", "apos"):
        return one and not z
    if kind in ("irm", "did", "pq", "cvar", "qte", "qte_cvar"):
        return one_binary and not z
    if kind in ("iivm", "lpq", "qte_lpq"):
        return one_binary and len(z) == 1 and z[0] in _BINARY
    if kind == "did_cs":
        return one_binary and not z and t in _BINARY
    if kind in ("ssm", "ssm_non"):
        return all(k in _BINARY for k in d) and s in _BINARY and (kind == "ssm" or bool(z))
    raise AssertionError(kind)


def _roles(c):
    d = c.choice("treatments", ["d", "dn", ["d", "d2"], ["d", "dn"]])
    z = c.choice("instruments", [None, "z", "zn", ["z", "zn"]])
    t = c.choice("time", [None, "t", "tn"])
    s = c.choice("score or selection", [None, "s", "sn"])
    return d, z, t, s


def _data(df, d, z, t, s, cl):
    import doubleml as dml

    kw = dict(y_col="y", d_cols=d, x_cols="x", z_cols=z, t_col=t, s_col=s)
    return dml.DoubleMLClusterData(df, cluster_cols=list(cl), **kw) if cl else dml.DoubleMLData(df, **kw)


_SINGLE = ["plr", "pliv", "irm", "apo", "iivm", "did", "did_cs", "ssm", "ssm_non"]


def _T(ks):
    return [f"doubleml.{k}._check_data" for k in ks]


@contract("C15", targets=_T(["plm.plr.DoubleMLPLR", "plm.pliv.DoubleMLPLIV", "irm.irm.DoubleMLIRM", "irm.apo.DoubleMLAPO", "irm.iivm.DoubleMLIIVM", "did.did.DoubleMLDID", "did.did_cs.DoubleMLDIDCS", "irm.ssm.DoubleMLSSM"]), weight=3, samples=120)
def data(c):
    """every assignment of roles, arbitrary contents: accepted iff the model can handle it"""
    kind = c.choice("model", _SINGLE)
    d, z, t, s = _roles(c)
    cl = c.choice("clusters", [(), ("g1", "g2", "g3")]) if (t, s) == (None, None) else ()
    n = c.n("n", 12)
    v = {}
    used = ["y", "x", *([d] if isinstance(d, str) else d), *([] if z is None else [z] if isinstance(z, str) else z), *([t] if t else []), *([s] if s else []), *cl]
    for k in used:
        v[k] = c.arr(k, n, kind="binary") if k in _BINARY else c.arr(k, n)
        if k not in _BINARY:
            w = c.int(f"w_{k}", 0, n - 1)
            c.assume(v[k][w] * v[k][w] - v[k][w] != 0)
        elif not c.symbolic:
            v[k][:] = _np.resize([0.0, 1.0, 1.0, 0.0], n)
    if kind == "apo":
        m = v[d if isinstance(d, str) else d[0]]
        if not c.symbolic:
            m[:6] = 1.0
        c.assume(c.np.sum(m == 1.0) >= 5)
        c.assume(c.np.mean(m == 1.0) > 0.05)
    if c.symbolic:
        from vc import npmodel as N

        df = N.SFrame(c.np.column_stack([v[k] for k in used]), list(used))
    else:
        import pandas as pd

        df = pd.DataFrame({k: v[k] for k in used})
    dd = _data(df, d, z, t, s, cl)
    if handles(kind, d, z, t, s, cl, False):
        make(kind, dd)
        c.ok("accepted")
    else:
        c.raises("refused", _ERR, make, kind, dd)


# ---------------------------------------------------------------- options

def _plain(kind, n=40):
    import doubleml as dml

    rs = _np.random.RandomState(1)
    kw = dict(x=rs.normal(size=(n, 2)), y=rs.normal(size=n), d=_np.tile([0.0, 1.0], n // 2))
    if kind in ("pliv", "iivm", "lpq", "qte_lpq", "ssm_non"):
        kw["z"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    if kind == "did_cs":
        kw["t"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    if kind in ("ssm", "ssm_non"):
        kw["s"] = _np.tile([0.0, 0.0, 1.0, 1.0], n // 4)
    return dml.DoubleMLData.from_arrays(**kw)


def options(kind, **kw):
    """the constructor with one more option"""
    import doubleml as dml

    dd = _plain(kind)
    R, C = Reg(), Clf()
    cls, a, base = {
        "plr": (dml.DoubleMLPLR, (R, R), {}),
        "pliv": (dml.DoubleMLPLIV, (R, R, R), {}),
        "irm": (dml.DoubleMLIRM, (R, C), {}),
        "apo": (dml.DoubleMLAPO, (R, C), dict(treatment_level=1.0)),
        "apos": (dml.DoubleMLAPOS, (R, C), dict(treatment_levels=[1.0])),
        "iivm": (dml.DoubleMLIIVM, (R, C, C), {}),
        "did": (dml.DoubleMLDID, (R, C), {}),
        "did_cs": (dml.DoubleMLDIDCS, (R, C), {}),
        "ssm": (dml.DoubleMLSSM, (R, C, C), {}),
        "ssm_non": (dml.DoubleMLSSM, (R, C, C), dict(score="nonignorable")),
        "pq": (dml.DoubleMLPQ, (C, C), {}),
        "lpq": (dml.DoubleMLLPQ, (C, C), {}),
        "cvar": (dml.DoubleMLCVAR, (R, C), {}),
        "qte": (dml.DoubleMLQTE, (C, C), {}),
        "qte_cvar": (dml.DoubleMLQTE, (R, C), dict(score="CVaR")),
        "qte_lpq": (dml.DoubleMLQTE, (C, C), dict(score="LPQ")),
    }[kind]
    return cls(dd, *a, **{"n_folds": 2, **base, **kw})


_COMPOSITE = {"qte", "qte_cvar", "qte_lpq", "apos"}
_QUANT = {"pq", "lpq", "cvar"}
_QTE = {"qte", "qte_cvar", "qte_lpq"}
_NORM = {"irm", "apo", "apos", "iivm", "ssm", "ssm_non", "pq", "lpq", "cvar"} | _QTE
_TRIM = set(_KINDS) - {"plr", "pliv"}
_WEIGHTS = {"irm", "apo", "apos"}
_CALLABLE = {"plr", "pliv", "irm", "iivm"}


def _rows():
    out = []
    for k in _KINDS:
        out += [(k, o, v) for o in ("n_folds", "n_rep") for v in ("none", "negative", "text", "fraction", "missing")]
        if k not in _COMPOSITE:
            out += [(k, "draw_sample_splitting", v) for v in (1, "True", None)]
        out += [(k, "score", v) for v in ("nope", "", 1, None) + (("callable",) if k not in _CALLABLE else ())]
        if k in _NORM:
            out += [(k, "normalize_ipw", v) for v in (1, "True", None)]
        if k in ("did", "did_cs"):
            out += [(k, "in_sample_normalization", v) for v in (1, "True", None)]
        if k in _QUANT:
            out += [(k, "quantile", v) for v in ("low", "high", 1, "0.5", None)]
            out += [(k, "treatment", v) for v in ("low", "high", 1.0, "1", None)]
        if k in _QTE:
            out += [(k, "quantiles", v) for v in ("low", "high", "one of several")]
        if k in ("pq", "lpq", "qte", "qte_lpq"):
            out += [(k, "kde", v) for v in (1, "gaussian")]
        if k == "iivm":
            out += [(k, "subgroups", v) for v in (1, {}, {"always_takers": True}, {"always_takers": True, "never_takers": True, "x": True}, {"always_takers": 1, "never_takers": True}, {"always_takers": True, "never_takers": None})]
        if k in _WEIGHTS:
            out += [(k, "weights", v) for v in _W]
        if k == "irm":
            out += [(k, "ATTE weights", v) for v in ("not binary", "dict", "negative", "short")]
        if k == "apo":
            out += [(k, "treatment_level", v) for v in (2.0, 0.5)]
        if k == "apos":
            out += [(k, "treatment_levels", v) for v in ([2.0], [0.0, 0.5], 7.0)]
    return out


_W = ["negative", "all zero", "short", "two-dimensional", "number", "text", "dict without bar", "dict bar short", "dict bar per observation only", "dict bar negative", "dict weights negative", "dict weights zero", "dict bar zero", "dict extra key"]


def _weights(c, v, n=40):
    one, bar = _np.ones(n), _np.ones((n, 1))
    neg = one.copy()
    neg[7] = -0.01
    return {
        "negative": lambda: neg, "all zero": lambda: 0 * one, "short": lambda: one[1:], "two-dimensional": lambda: one.reshape(-1, 1), "number": lambda: 1.0, "text": lambda: "w",
        "dict without bar": lambda: dict(weights=one), "dict bar short": lambda: dict(weights=one, weights_bar=bar[1:]), "dict bar per observation only": lambda: dict(weights=one, weights_bar=one),
        "dict bar negative": lambda: dict(weights=one, weights_bar=neg.reshape(-1, 1)), "dict weights negative": lambda: dict(weights=neg, weights_bar=bar), "dict weights zero": lambda: dict(weights=0 * one, weights_bar=bar),
        "dict bar zero": lambda: dict(weights=one, weights_bar=0 * bar), "dict extra key": lambda: dict(weights=one, weights_bar=bar, x=one),
        "not binary": lambda: one * 0.5, "dict": lambda: dict(weights=one, weights_bar=bar),
    }[v]()


def _value(c, opt, v):
    if opt in ("n_folds", "n_rep"):
        return {"none": 0, "negative": c.int("number", -5, -1) if v == "negative" else 0, "text": "2", "fraction": 2.5, "missing": None}[v]
    if v == "callable":
        return lambda *a, **k: None
    if opt == "quantile":
        return c.real("quantile", hi=0, strict=False) if v == "low" else c.real("quantile", lo=1, strict=False) if v == "high" else v
    if opt == "quantiles":
        return {"low": 0.0, "high": 1.0, "one of several": [0.25, 1.0]}[v]
    if opt == "treatment":
        return c.int("treatment", -5, -1) if v == "low" else c.int("treatment", 2, 9) if v == "high" else v
    if opt in ("weights", "ATTE weights"):
        return _weights(c, v)
    return v


@contract("C15", targets=["doubleml.double_ml.DoubleML", "doubleml.utils._checks"], samples=250, weight=2)
def bad_options(c):
    kind, opt, v = c.choice("case", _rows())
    if opt == "ATTE weights":
        kw = dict(score="ATTE", weights=_value(c, opt, v))
    else:
        kw = {opt: _value(c, opt, v)}
    if v == "missing" and opt == "n_folds" and kind in _COMPOSITE:
        c.ok("scikit-learn decides")
        return
    if kind in _COMPOSITE and opt not in ("n_folds", "n_rep") and c.choice("draw_sample_splitting", [True, False]) is False:
        kw["draw_sample_splitting"] = False
    c.raises(f"{kind} {opt}={v}", _ERR, options, kind, **kw)


@contract("C15", targets=["doubleml.double_ml.DoubleML", "doubleml.utils._checks"], samples=120)
def good_options(c):
    """documented values are accepted and kept"""
    rows = []
    for k in _KINDS:
        rows += [(k, "n_folds", v) for v in (2, 5)] + [(k, "n_rep", v) for v in (1, 3)]
        rows += [(k, "n_folds without splitting", "any")] if k not in _COMPOSITE else []
        rows += [(k, "normalize_ipw", v) for v in (True, False) if k in _NORM]
        rows += [(k, "in_sample_normalization", v) for v in (True, False) if k in ("did", "did_cs")]
        rows += [(k, "quantile", v) for v in (0.001, 0.25, 0.999) if k in _QUANT] + [(k, "treatment", v) for v in (0, 1) if k in _QUANT]
        rows += [(k, "kde", "callable")] * (k in ("pq", "lpq", "qte", "qte_lpq"))
        rows += [(k, "weights", v) for v in ("binary", "plain", "dict") if k in _WEIGHTS]
        rows += [(k, "score", s) for s in {"plr": ("partialling out", "callable"), "pliv": ("partialling out", "callable"), "irm": ("ATE", "ATTE", "callable"), "iivm": ("LATE", "callable"), "did": ("observational", "experimental"), "did_cs": ("observational", "experimental"), "ssm": ("missing-at-random",), "pq": ("PQ",), "lpq": ("LPQ",), "cvar": ("CVaR",), "qte": ("PQ",), "apo": ("APO",), "apos": ("APO",)}.get(k, ())]
        if k == "iivm":
            rows += [(k, "subgroups", {"always_takers": a, "never_takers": b}) for a in (True, False) for b in (True, False)]
    kind, opt, v = c.choice("case", rows)
    n = 40
    if opt == "n_folds without splitting":
        f = c.int("folds", 1, 9)
        m = options(kind, n_folds=f, draw_sample_splitting=False)
        c.eq("folds", m.n_folds, f)
        return
    if v == "callable":
        v = lambda *a, **k: None  # noqa: E731
    if opt == "weights":
        one = _np.linspace(0.0, 1.0, n)
        v = dict(binary=(one > 0.5) * 1.0, plain=one, dict=dict(weights=one, weights_bar=one.reshape(-1, 1)))[v]
    m = options(kind, **{opt: v})
    if opt == "n_rep":
        c.same("repetitions drawn", (m.n_rep, len(m.smpls)), (v, v))
    elif opt == "n_folds":
        c.same("folds drawn", (m.n_folds, [len(s) for s in m.smpls]), (v, [v]))
    elif opt != "weights":
        c.true("kept", getattr(m, opt) is v or getattr(m, opt) == v)
    else:
        c.ok("accepted")


# ---------------------------------------------------------------- learners

_SLOTS = {  # model -> learner slots: what may stand there
    "plr": ["reg", "both"], "pliv": ["reg", "reg", "reg"], "irm": ["both-y", "clf"], "apo": ["both-y", "clf"], "apos": ["both-y", "clf"], "iivm": ["both-y", "clf", "clf"],
    "did": ["both-y", "clf"], "did_cs": ["both-y", "clf"], "ssm": ["both-y", "clf", "clf"], "ssm_non": ["both-y", "clf", "clf"], "pq": ["clf", "clf"], "lpq": ["clf", "clf"], "cvar": ["reg", "clf"],
    "qte": ["clf", "clf"], "qte_cvar": ["reg", "clf"], "qte_lpq": ["clf", "clf"],
}


class _Bare:
    pass


def _without(base, gone):
    """a learner lacking one of its methods"""
    class L(base):
        def __getattribute__(self, k):
            if k == gone:
                raise AttributeError(k)
            return super().__getattribute__(k)

        def __repr__(self):
            return type(self).__name__

    L.__name__ = f"{base.__name__}Without_{gone}"
    return L()


@contract("C15", mode="bounded", samples=2, targets=["doubleml.double_ml.DoubleML._check_learner"], why_bounded="learner objects are enumerated by the methods they have")
def learners(c):
    """every learner slot of every model: classes, objects lacking methods, classifiers for non-binary targets"""
    import doubleml as dml
    import warnings

    warnings.simplefilter("ignore")
    y01 = _np.tile([0.0, 1.0, 1.0, 0.0], 10)
    for kind in _KINDS:
        for outcome in ("real", "binary", "two other values"):
            dd = _plain(kind)
            df = dd.data.copy()
            if outcome != "real":
                df["y"] = y01 if outcome == "binary" else y01 + 1
            dd = dml.DoubleMLData(df, "y", "d", z_cols=dd.z_cols, t_col=dd.t_col, s_col=dd.s_col)
            slots = _SLOTS[kind]
            good = [Clf() if s == "clf" else Reg() for s in slots]

            def mk(i, learner):
                a = list(good)
                a[i] = learner
                C = type(options(kind, draw_sample_splitting=False))
                kw = {"apo": dict(treatment_level=1.0), "apos": dict(treatment_levels=[1.0]), "ssm_non": dict(score="nonignorable"), "qte_cvar": dict(score="CVaR"), "qte_lpq": dict(score="LPQ")}.get(kind, {})
                return C(dd, *a, n_folds=2, **kw)

            for i, s in enumerate(slots):
                nm = f"{kind} slot {i} {outcome}: "
                bad = [Reg, Clf, _Bare(), None, 1, "lasso"] + [_without(Clf if s == "clf" else Reg, g) for g in ("fit", "set_params", "get_params")]
                bad += [_without(Clf, "predict_proba"), Reg()] if s == "clf" else [_without(Reg, "predict")]
                if s == "both" or s == "both-y":
                    bad.append(_without(Clf, "predict_proba"))
                if s == "both-y" and outcome != "binary":
                    bad.append(Clf())
                for b in bad:
                    c.raises(nm + f"{b!r:.60}", (TypeError, ValueError), mk, i, b)
                mk(i, good[i])
                if s == "both" or (s == "both-y" and outcome == "binary"):
                    mk(i, Clf())
                c.ok(nm + "accepted")
    # a classifier for the treatment needs every treatment binary
    dd = _plain("plr")
    df = dd.data.assign(d=dd.data["d"], d2=c.rng.normal(size=40), d3=y01, d4=y01 + 1)
    for ds in (["d2"], ["d4"], ["d", "d2"], ["d3", "d4"], ["d2", "d"]):
        c.raises(f"classifier for {ds}", (ValueError,), lambda: dml.DoubleMLPLR(dml.DoubleMLData(df, "y", ds, x_cols=["X1"]), Reg(), Clf(), n_folds=2))
    for ds in (["d"], ["d", "d3"]):
        dml.DoubleMLPLR(dml.DoubleMLData(df, "y", ds, x_cols=["X1"]), Reg(), Clf(), n_folds=2)
    # the additional learner of the IV-type score
    for bad in (Reg, None, _without(Reg, "predict"), _Bare()):
        c.raises(f"ml_g {bad!r:.50}", (TypeError, ValueError), lambda: dml.DoubleMLPLIV(_plain("pliv"), Reg(), Reg(), Reg(), bad, score="IV-type"))
        if bad is not None:
            c.raises(f"ml_g {bad!r:.50}", (TypeError, ValueError), lambda: dml.DoubleMLPLR(_plain("plr"), Reg(), Reg(), bad, score="IV-type"))
    # observational difference in differences needs a propensity learner, experimental does not
    for cls, k in ((dml.DoubleMLDID, "did"), (dml.DoubleMLDIDCS, "did_cs")):
        c.raises(f"{k} without ml_m", (TypeError,), lambda: cls(_plain(k), Reg()))
        cls(_plain(k), Reg(), score="experimental")
    c.ok("accepted")


@contract("C15", mode="bounded", samples=2, targets=["doubleml.irm.qte.DoubleMLQTE", "doubleml.irm.apos.DoubleMLAPOS"], why_bounded="concrete frames, all role assignments enumerated")
def data_with_splitting(c):
    """all models, composites included, with the splitting drawn in the constructor"""
    import doubleml as dml
    import itertools
    import pandas as pd
    import warnings

    warnings.simplefilter("ignore")
    n = 48
    v = {k: c.rng.permutation(_np.resize([0.0, 1.0], n)) if k in _BINARY else c.rng.normal(size=n) for k in _COLS}
    v["d"], v["z"], v["t"], v["s"] = (_np.resize(a, n) * 1.0 for a in ([0, 1], [0, 0, 1, 1], [0, 0, 0, 0, 1, 1, 1, 1], [0] * 8 + [1] * 8))
    v["d2"] = 1 - v["d"]
    for variant in ("integers one and two", "real"):
        if variant != "real":
            for k in ("zn", "tn", "sn"):
                v[k] = v[k[0]] + 1
            v["dn"] = v["d"] + 1
        else:
            for k in ("dn", "zn", "tn", "sn"):
                v[k] = c.rng.normal(size=n)
        for g in ("g1", "g2", "g3"):
            v[g] = _np.resize(_np.arange(6), n) if g == "g1" else c.rng.permutation(_np.resize(_np.arange(6), n))
        df = pd.DataFrame(v)
        for kind in _KINDS:
            for d, z, t, s in itertools.product(["d", "dn", ["d", "d2"], ["d", "dn"]], [None, "z", "zn", ["z", "zn"]], [None, "t", "tn"], [None, "s", "sn"]):
                if t == "tn" and s == "sn":
                    continue
                if kind in ("apo", "apos") and variant == "real" and "dn" in d:
                    continue  # fewer than five treated
                dd = _data(df, d, z, t, s, ())
                name = f"{kind} d={d} z={z} t={t} s={s} {variant}"
                if kind == "apos" and isinstance(d, list):
                    continue
                if handles(kind, d, z, t, s, (), True):
                    try:
                        make(kind, dd, draw_sample_splitting=True)
                        c.ok(name)
                    except Exception as e:  # noqa: BLE001
                        c.fail(name, f"refused: {type(e).__name__} {e}")
                else:
                    c.raises(name, _ERR, make, kind, dd, draw_sample_splitting=True)
            for cl in (["g1"], ["g1", "g2"], ["g1", "g2", "g3"]):
                if kind in _COMPOSITE:
                    continue
                dd = _data(df, "d", {"pliv": "z", "iivm": "z", "lpq": "z", "ssm_non": "z"}.get(kind), "t" if kind == "did_cs" else None, "s" if kind.startswith("ssm") else None, cl)
                if len(cl) > 2:
                    c.raises(f"{kind} three cluster variables", (NotImplementedError, ValueError), make, kind, dd)
                else:
                    make(kind, dd, draw_sample_splitting=True)
                    c.ok(f"{kind} {len(cl)} cluster variables")
        for bad in (df, None, df.values, "data"):
            for kind in _KINDS:
                c.raises(f"{kind} data {type(bad).__name__}", (TypeError, AttributeError), make, kind, bad, draw_sample_splitting=True)
