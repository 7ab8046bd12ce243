"""Global learner wrappers and dummy learners."""
import numpy as _np

from vc.harness import contract

from . import crossfit as CF

_S = ["scikit-learn's input validation (returns the data it accepts)"]


def accept(c):
    """callee contract of scikit-learn's validation: valid data pass unchanged"""
    if not c.symbolic:
        return
    import doubleml.utils.global_learner as G

    def validate_data(est, X, y=None, **k):
        est.n_features_in_ = 2
        return (X, y) if y is not None else X

    for nm, f in (("validate_data", validate_data), ("_check_sample_weight", lambda sw, X, **k: sw), ("unique_labels", lambda y: _np.array([0, 1]))):
        if hasattr(G, nm):
            c.patch(G, nm, f)


@contract("C23", targets=["doubleml.utils.GlobalRegressor.fit", "doubleml.utils.GlobalRegressor.predict", "doubleml.utils.GlobalClassifier.fit", "doubleml.utils.GlobalClassifier.predict", "doubleml.utils.GlobalClassifier.predict_proba"], stubs=_S)
def forwards(c):
    """a fresh clone of the wrapped learner is fitted on exactly the data given, without weights, and answers all predictions"""
    from doubleml.utils import GlobalClassifier, GlobalRegressor

    accept(c)
    w = CF.World(c)
    kind = c.choice("wrapper", ["regressor", "classifier"])
    weighted = c.choice("weights", ["none", "positional", "keyword"])
    n, q = c.n("n", 8), c.n("q", 2)
    X, X2 = c.arr("x", n, 2), c.arr("x2", q, 2)
    clf = kind == "classifier"
    y = c.arr("y", n, kind="binary") if clf else c.arr("y", n)
    y2 = c.arr("yy", n, kind="binary") if clf else c.arr("yy", n)
    sw = c.arr("sw", n, kind="pos")
    if not c.symbolic and clf:
        y[:2], y2[:2] = (0, 1), (1, 0)
    base = w.clf("base", a=3.0, b=4) if clf else w.reg("base", a=3.0, b=4)
    g = (GlobalClassifier if clf else GlobalRegressor)(base)
    c.same("the wrapped learner is a parameter", g.get_params(deep=False)["base_estimator"] is base, True)
    args, kw = ((X, y, sw), {}) if weighted == "positional" else ((X, y), {"sample_weight": sw} if weighted == "keyword" else {})
    c.same("fit returns the wrapper", g.fit(*args, **kw) is g, True)
    check(c, w, g, base, 0, X, y, X2, clf)
    g.fit(X, y2)
    check(c, w, g, base, 1, X, y2, X2, clf)
    w.check_users()


def check(c, w, g, base, u, X, y, X2, clf):
    c.same(f"fit{u} trains one copy", len(w.fits), u + 1)
    if len(w.fits) != u + 1:
        return
    r = w.fits[u]
    c.same(f"fit{u} copy has the learner's parameters", {k: r.params[k] for k in ("name", "a", "b")}, {"name": "base", "a": 3.0, "b": 4})
    c.same(f"fit{u} is a copy", r.obj is base, False)
    c.eq(f"fit{u} features", r.X, X)
    c.eq(f"fit{u} target", r.y, y)
    c.same(f"fit{u} ignores the weights", r.w is None, True)
    p = w.predict(r.u, X2)
    if clf:
        c.eq(f"fit{u} probabilities", g.predict_proba(X2), c.np.column_stack([1 - p, p]))
        c.eq(f"fit{u} labels", g.predict(X2), c.np.where(p > 0.5, 1.0, 0.0))
        c.eq(f"fit{u} classes", g.classes_, _np.array([0, 1]))
    else:
        c.eq(f"fit{u} predictions", g.predict(X2), p)


@contract("C23", targets=["doubleml.utils.GlobalRegressor.fit", "doubleml.utils.GlobalClassifier.fit"], stubs=_S)
def refused(c):
    """the wrong kind of learner is refused before training; nothing is predicted before a fit"""
    from sklearn.cluster import KMeans
    from sklearn.exceptions import NotFittedError

    from doubleml.utils import GlobalClassifier, GlobalRegressor

    accept(c)
    w = CF.World(c)
    n = c.n("n", 4)
    X = c.arr("x", n, 2)
    y = c.arr("y", n, kind="binary")
    kind = c.choice("wrapper", ["regressor", "classifier"])
    bad = c.choice("base", ["other kind", "class", "text", "neither"])
    W = GlobalRegressor if kind == "regressor" else GlobalClassifier
    base = {"other kind": w.clf("b") if kind == "regressor" else w.reg("b"), "class": CF.WReg if kind == "regressor" else CF.WClf, "text": "learner", "neither": KMeans()}[bad]
    g = W(base)
    c.raises("refused", (ValueError, TypeError, AttributeError), g.fit, X, y)
    c.same("nothing is trained", len(w.fits), 0)
    c.raises("predict before fit", (NotFittedError, AttributeError), g.predict, X)
    if kind == "classifier":
        c.raises("predict_proba before fit", (NotFittedError, AttributeError), g.predict_proba, X)


@contract("C23", mode="bounded", samples=4, targets=["doubleml.utils.GlobalRegressor", "doubleml.utils.GlobalClassifier"], why_bounded="scikit-learn's own estimators and validation are executed (4 random data sets per learner)")
def same_as_unweighted(c):
    """inside scikit-learn: cloned wrappers predict what the unweighted learner predicts"""
    from sklearn.base import clone
    from sklearn.linear_model import LinearRegression, LogisticRegression
    from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

    from doubleml.utils import GlobalClassifier, GlobalRegressor

    b = c.choice("base", [LinearRegression(fit_intercept=False), DecisionTreeRegressor(max_depth=2, random_state=0), LogisticRegression(C=0.5), DecisionTreeClassifier(max_depth=2, random_state=0)])
    n = 30
    X, sw = c.arr("x", n, 3), c.arr("w", n, kind="pos")
    clf = hasattr(b, "predict_proba")
    y = c.arr("y", n, kind="binary") if clf else c.arr("y", n)
    if clf:
        y[:2] = (0, 1)
    g = clone((GlobalClassifier if clf else GlobalRegressor)(b))
    bad = c.choice("weights", ["good", "short"])
    if bad == "short":
        c.raises("weights of another length", ValueError, g.fit, X, y, sample_weight=sw[:-1])
        return
    g.fit(X, y, sample_weight=sw)
    f = clone(b).fit(X, y)
    c.eq("predictions", g.predict(X), f.predict(X))
    if clf:
        c.eq("probabilities", g.predict_proba(X), f.predict_proba(X))
        c.eq("classes", g.classes_, f.classes_)


@contract("C23", targets=["doubleml.utils.DMLDummyRegressor", "doubleml.utils.DMLDummyClassifier"])
def dummies(c):
    from doubleml.utils import DMLDummyClassifier, DMLDummyRegressor
    from sklearn.base import clone, is_classifier, is_regressor

    D = c.choice("dummy", [DMLDummyRegressor, DMLDummyClassifier])
    d = D()
    if c.choice("cloned", [False, True]):
        d = clone(d)
    clf = D is DMLDummyClassifier
    c.same("kind", (is_classifier(d), is_regressor(d)), (clf, not clf))
    X, y = _np.zeros((3, 1)), _np.zeros(3)
    c.raises("fit", AttributeError, d.fit, X, y)
    c.raises("fit with weights", (AttributeError, TypeError), d.fit, X, y, sample_weight=y)
    c.raises("fit by name", (AttributeError, TypeError), d.fit, X=X, y=y)
    c.raises("predict", AttributeError, d.predict, X)
    c.raises("set_params", (AttributeError, TypeError), d.set_params, a=1)
    c.raises("set_params without arguments", AttributeError, d.set_params)
    if clf:
        c.raises("predict_proba", AttributeError, d.predict_proba, X)
    else:
        c.same("no probabilities", hasattr(d, "predict_proba"), False)


@contract("C23", targets=["doubleml.utils.DMLDummyRegressor", "doubleml.utils.DMLDummyClassifier", "doubleml.DoubleML.fit"])
def dummies_in_models(c):
    """a model with dummy learners works with all predictions supplied and refuses otherwise"""
    import doubleml as dml
    from doubleml.utils import DMLDummyClassifier, DMLDummyRegressor

    from .common import data

    kind = c.choice("model", ["plr", "irm"])
    miss = c.choice("missing", [None, 0, 1])
    n = c.n("n", 10)
    y, x = c.arr("y", n), c.arr("x", n, 2)
    irm = kind == "irm"
    d = c.arr("d", n, kind="binary") if irm else c.arr("d", n)
    if irm:
        CF.both(c, d)
    dd = data(c, n, y=y, d=[d], x=x, binary_d=irm)
    m = (dml.DoubleMLIRM if irm else dml.DoubleMLPLR)(dd, DMLDummyRegressor(), DMLDummyClassifier() if irm else DMLDummyRegressor(), n_folds=2, draw_sample_splitting=False)
    CF.setup(c, m, 1, n)
    keys = ["ml_g0", "ml_g1", "ml_m"] if irm else ["ml_l", "ml_m"]
    ext = {k: c.arr(k, n, 1, kind="unit" if k == "ml_m" and irm else "real") for k in keys}
    if miss is None:
        m.fit(external_predictions={"d": ext})
        for k in keys[:-1]:
            c.eq(f"{k} used", m.predictions[k][:, 0, 0], ext[k][:, 0])
    else:
        ext.pop(keys[-miss])
        c.raises("refused", AttributeError, m.fit, external_predictions={"d": ext})
