"""Policy trees: what the classification tree is trained on and what is reported."""
import numpy as _np
import pandas as _pd

from vc.harness import contract

from . import models as MD

_S = ["sklearn DecisionTreeClassifier.fit/predict (an arbitrary classifier with values in the training labels)"]


def tree_stub(c, log):
    import doubleml.utils.policytree as P

    c.target(P, "DecisionTreeClassifier")

    class Tree:
        def __init__(self, **kw):
            self.kw = kw
            self.fits = []
            log.append(self)

        def fit(self, X, y, sample_weight=None, check_input=True):
            self.fits.append((X, y, sample_weight))
            self.classes_ = _np.array([0.0, 1.0])
            self.tree_ = "fitted"
            return self

        def predict(self, X, check_input=True):
            self.asked = X
            self.answer = c.arr("action", X.shape[0], kind="binary")
            return self.answer

    c.patch(P, "DecisionTreeClassifier", Tree)

    def fitted(est, *a, msg=None, **k):
        if not est.fits:
            from sklearn.exceptions import NotFittedError

            raise NotFittedError(msg or "")

    if hasattr(P, "check_is_fitted"):
        c.patch(P, "check_is_fitted", fitted)


def check(c, t, s, X, kw):
    np = c.np
    c.same("tree is fitted once", len(t.fits), 1)
    if len(t.fits) != 1:
        return
    Z, y, w = t.fits[0]
    c.same("features", Z is X, True)
    c.true("label one where the signal is positive", c.np.all(c.np.where(s > 0, y == 1, True)))
    c.true("label zero where the signal is negative", c.np.all(c.np.where(s < 0, y == 0, True)))
    c.true("only two labels", c.np.all(c.np.logical_or(y == 0, y == 1)))
    c.eq("weights", w, np.abs(s))
    c.same("tree parameters", t.kw, kw)


@contract("C22", targets=["doubleml.utils.policytree.DoubleMLPolicyTree.fit", "doubleml.utils.policytree.DoubleMLPolicyTree.predict"], stubs=_S)
def tree(c):
    """labels: sign of the signal; weights: its absolute value; predictions: the tree's two actions for the rows asked"""
    from doubleml.utils.policytree import DoubleMLPolicyTree

    log = []
    tree_stub(c, log)
    n, q = c.n("n", 1), c.n("q", 1)
    s = c.arr("signal", n)
    X = c.frame(c.arr("x", n, 2), ["a", "b"])
    par = c.choice("parameters", [{}, {"ccp_alpha": 0.2}, {"min_samples_leaf": 3, "criterion": "entropy"}])
    depth = c.choice("depth", [1, 2, 5])
    t = DoubleMLPolicyTree(s, X, depth=depth, **par)
    c.raises("no prediction before fit", Exception, t.predict, X)
    c.same("fit returns the tree", t.fit() is t, True)
    tr = t.policy_tree
    c.same("one classifier", [x is tr for x in log], [True])
    check(c, tr, s, X, {"max_depth": depth, "ccp_alpha": 0.01, "min_samples_leaf": 8, **par})
    Q = c.frame(c.arr("x2", q, 2), ["a", "b"])
    p = t.predict(Q)
    c.same("asked about the given rows", tr.asked is Q, True)
    c.same("columns", list(p.columns), ["a", "b", "pred_treatment"])
    c.eq("actions", p["pred_treatment"].values, tr.answer)
    c.eq("features kept", p[["a", "b"]].values, Q.values)
    c.same("given rows are not modified", list(Q.columns), ["a", "b"])
    c.eq("signal", t.orth_signal, s)


@contract("C22", targets=["doubleml.irm.irm.DoubleMLIRM.policy_tree"], stubs=_S, weight=2)
def from_model(c):
    """the signal is the orthogonal signal of the fitted interactive model, observation by observation"""
    log = []
    tree_stub(c, log)
    o = MD.irm(c, weights=c.choice("weights", [None, "array"]))
    X = c.frame(c.arr("fx", o.n, 2), ["a", "b"])
    depth = c.choice("depth", [1, 3])
    if c.symbolic:
        m = o.m.policy_tree(X, depth=depth, ccp_alpha=0.5)
    else:
        m = o.m.policy_tree(X, depth=depth, ccp_alpha=0.5)
    tr = m.policy_tree
    s = o.m.psi_elements["psi_b"][:, 0, 0]
    check(c, tr, s, X, {"max_depth": depth, "ccp_alpha": 0.5, "min_samples_leaf": 8})


@contract("C22", targets=["doubleml.irm.irm.DoubleMLIRM.policy_tree"], samples=30)
def refused(c):
    """models, depths and features a policy tree is not defined for are refused before any tree is built"""
    import doubleml.utils.policytree as P

    from doubleml.utils.policytree import DoubleMLPolicyTree

    log = []
    tree_stub(c, log)
    f = _pd.DataFrame({"a": [0.0, 1.0], "b": [1.0, 0.0]})
    s = _np.array([1.0, -1.0])
    k = c.choice("case", ["list", "2d", "array", "duplicate", "unknown key", "predict array", "ATTE", "reps", "depth 0", "depth float", "features"])
    if k in ("list", "2d", "array", "duplicate"):
        a = {"list": ([1.0, -1.0], f), "2d": (s.reshape(-1, 1), f), "array": (s, f.to_numpy()), "duplicate": (s, f.set_axis(["a", "a"], axis=1))}[k]
        c.raises(k, (TypeError, ValueError), DoubleMLPolicyTree, *a)
        c.same("no tree", log, [])
        return
    if k in ("unknown key", "predict array"):
        t = DoubleMLPolicyTree(s, f).fit()
        c.raises(k, (TypeError, KeyError), t.predict, f.to_numpy() if k == "predict array" else f.rename(columns={"b": "c"}))
        c.same("tree not asked", hasattr(t.policy_tree, "asked"), False)
        return
    o = MD.irm(c, R=2 if k == "reps" else 1, score="ATTE" if k == "ATTE" else "ATE")
    a = {"ATTE": (f, 2), "reps": (f, 2), "depth 0": (f, -1), "depth float": (f, 2.5), "features": (f.to_numpy(), 2)}[k]
    c.raises(k, (TypeError, ValueError, NotImplementedError), o.m.policy_tree, *a)
    c.same("no tree", log, [])
