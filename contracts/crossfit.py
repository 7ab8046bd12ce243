"""Learner world: user learners whose fitted copies are arbitrary functions.

Every `fit` is recorded (features, target, weights, parameters); the copy fitted
in call number u predicts with an arbitrary function of the feature row (sym: the
uninterpreted function fit<u>; conc: a pseudo-random smooth function).  The data
flow of cross-fitting becomes a postcondition: the prediction stored for an
observation is fit<u>(its features) for a copy u that was fitted on exactly the
documented training rows and target."""
import re

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin

from .common import data

W = None  # the current world


class Rec:
    def __init__(self, **k):
        self.__dict__.update(k)


class World:
    def __init__(self, c):
        global W
        W = self
        self.c = c
        self.fits = []
        self.users = []
        self.used = set()
        self.seed = getattr(c, "seed", 0)

    def reg(self, name, **k):
        e = WReg(name, **k)
        self.users.append((e, e.get_params()))
        return e

    def clf(self, name, **k):
        e = WClf(name, **k)
        self.users.append((e, e.get_params()))
        return e

    # ---- the fitted copies
    def record(self, est, X, y, w):
        u = len(self.fits)
        self.fits.append(Rec(u=u, name=est.name, obj=est, params=est.get_params(), X=X, y=y, w=w, clf=isinstance(est, ClassifierMixin)))
        est.uid_ = u
        if isinstance(est, ClassifierMixin):
            est.classes_ = np.array([0, 1])

    def predict(self, u, X):
        c = self.c
        rec = self.fits[u]
        if c.symbolic:
            from vc import sym as Y
            from vc import terms as T

            X = Y.lift(X)
            k = X.dims[1].const()
            nm = f"fit{u}"
            th = Y.st().theory
            ap = lambda *a: T.app(nm, *a)  # noqa: E731
            if rec.clf:
                th.schema(nm, lambda *a: T.band(T.lt(T.ZERO, ap(*a)), T.lt(ap(*a), T.ONE)))
            return Y.SArr((X.dims[0],), lambda i: ap(*[Y.ton(X.fn(i, T.C(j))) for j in range(k)]), "f")
        X = np.asarray(X, dtype=float)
        r = np.random.default_rng([self.seed % (2**31), u])
        v = 1.5 * np.sin(X @ r.normal(size=X.shape[1]) + r.uniform(0, 6))
        return 1 / (1 + np.exp(-2 * v)) if rec.clf else v

    # ---- postconditions
    def candidates(self, S, X, post, name):
        """records of the copies the (test-fold) predictions S are made from"""
        c = self.c
        if c.symbolic:
            from vc import sym as Y
            from vc import terms as T

            S = Y.lift(S)
            k = T.fresh("i")
            v = S.fn(k)
            m = S.dims[0].mask
            if m is not None:
                v = Y._under(v, m(k))
            ids = {int(x) for x in re.findall(r"\bfit(\d+)\(", T.show(v))}
            # copies of other learners may have made the features; the value obligation settles it
            return [self.fits[u] for u in sorted(ids) if name is None or self.fits[u].name == name]
        out = []
        for r in self.fits:
            if name is not None and r.name != name:
                continue
            if r.X.shape[1] != X.shape[1]:
                continue
            if np.allclose(post(self.predict(r.u, X)), S, rtol=1e-9, atol=1e-12):
                out.append(r)
        return out

    def check(self, label, stored, smpls, name, target, X, cond=None, post=lambda p: p, rows=None, params=None):
        """stored: 1-d predictions; smpls: (train, test) pairs; target: full-length
        array or list per fold; cond: subgroup (boolean array) of the training rows;
        rows: per fold training rows instead of train ∩ cond."""
        c = self.c
        recs = []
        Xs = X
        for k, (tr, te) in enumerate(smpls):
            lab = f"{label} fold{k}"
            X = Xs[k] if isinstance(Xs, list) else Xs
            cand = self.candidates(stored[te], X[te, :], post, name)
            if len(cand) != 1 or cand[0].name != name:
                if not c.symbolic and len(te) == 0:
                    continue
                c.fail(f"{lab} comes from one fitted copy of {name}", f"fitted copies involved: {[(r.u, r.name) for r in cand]}")
                continue
            r = cand[0]
            recs.append(r)
            c.eq(f"{lab} value", stored[te], post(self.predict(r.u, X[te, :])))
            idx = rows[k] if rows is not None else tr if cond is None else tr[cond[tr]]
            if isinstance(idx, tuple):
                idx = pick(c, r.X, idx)
            elif c.symbolic:
                pick(c, r.X, (idx,))
            t = target[k] if isinstance(target, list) else target[idx]
            if c.symbolic:
                c.eq(f"{lab} training features", r.X, X[idx, :])
                c.eq(f"{lab} training target", r.y, t)
            else:  # the order of the training rows does not matter
                c.eq(f"{lab} training features and target", _rows(r.X, r.y), _rows(X[idx, :], t))
            if params is not None:
                c.same(f"{lab} parameters", {p: r.params[p] for p in params[k]}, params[k])
        return recs

    def copies(self, term, name, pairs):
        """the copies of learner `name` an expression was computed from, one per pair of training
        features and targets (None and a failure if there is no such correspondence)"""
        c = self.c
        if c.symbolic:
            from vc import sym as Y
            from vc import terms as T

            ids = sorted({int(v) for v in re.findall(r"\bfit(\d+)\(", T.show(Y.num(term)))})
            cand = [self.fits[u] for u in ids if self.fits[u].name == name]
            return cand if len(cand) == len(pairs) else None
        out = []
        for X, y in pairs:
            m = [r for r in self.fits if r.name == name and r.u not in self.used and r.X.shape == X.shape and np.allclose(_rows(r.X, r.y), _rows(X, y))]
            if not m:
                return None
            self.used.add(m[0].u)  # data with ties: copies in the order of their fits
            out.append(m[0])
        return out

    def check_users(self):
        """user-supplied learners were never fitted nor re-parametrised; copies are distinct"""
        c = self.c
        for e, p in self.users:
            c.same(f"learner {e.name} is not fitted", hasattr(e, "uid_"), False)
            c.same(f"learner {e.name} keeps its parameters", e.get_params(), p)
            c.same(f"learner {e.name} is only copied", any(r.obj is e for r in self.fits), False)


def pick(c, X, alternatives):
    """the form of the training rows (same rows, different enumeration) the code uses"""
    if not c.symbolic:
        return alternatives[0]
    from vc import sym as Y
    from vc import terms as T

    n = Y.lift(X).dims[0].n
    for a in alternatives:
        if T.is_zero(T.sub(Y.lift(a).dims[0].n, n)):
            return a
    raise T.Unsupported("training rows enumerated in another order")


def _rows(X, y):
    a = np.column_stack((np.asarray(X, dtype=float), np.asarray(y, dtype=float))) + 0.0
    return a[np.lexsort(a.T[::-1])]


class _L(BaseEstimator):
    def __init__(self, name="", a=0.0, b=0):
        self.name = name
        self.a = a
        self.b = b

    def fit(self, X, y, sample_weight=None):
        W.record(self, X, y, sample_weight)
        return self


class WReg(RegressorMixin, _L):
    def predict(self, X):
        return W.predict(self.uid_, X)


class WClf(ClassifierMixin, _L):
    def predict_proba(self, X):
        p = W.predict(self.uid_, X)
        return W.c.np.column_stack([1 - p, p])

    def predict(self, X):
        p = W.predict(self.uid_, X)
        return W.c.np.where(p > 0.5, 1.0, 0.0)


# ---------------------------------------------------------------- patches


def stub_variance(c, n):
    """callee contract of the variance estimator (C03): some positive number"""
    if not c.symbolic:
        return
    import doubleml.double_ml as D

    if hasattr(D, "_var_est"):
        cnt = []

        def var_est(*a, **kw):
            cnt.append(1)
            return c.real(f"sigma2_{len(cnt)}", lo=0), n

        c.patch(D, "_var_est", var_est)


def stub_theta(c, m):
    """nonlinear scores: the root is an arbitrary number (C02)"""
    if not c.symbolic:
        return
    cnt = []

    def est(*a, **k):
        cnt.append(1)
        return c.real(f"theta_{len(cnt)}")

    m._est_coef = est


class Splits:
    """train_test_split / StratifiedKFold of a module: arbitrary disjoint splits (recorded)"""

    def __init__(self, c, mod, n):
        self.halves = []
        self.kfolds = []
        self.c = c
        if hasattr(mod, "train_test_split"):
            real = mod.train_test_split

            def tts(arr, *a, **kw):
                self.halves.append(self._halve(arr) if c.symbolic else tuple(real(arr, *a, **kw)))
                return list(self.halves[-1])

            c.patch(mod, "train_test_split", tts)
        if c.symbolic and hasattr(mod, "StratifiedKFold"):
            outer = self

            class SKF:
                def __init__(self, n_splits=5, **k):
                    self.k = n_splits

                def split(self, X=None, y=None):
                    p = c.partition(f"prelim{len(outer.kfolds)}", X.shape[0], self.k)
                    outer.kfolds.append(p)
                    return p

            c.patch(mod, "StratifiedKFold", SKF)
        elif hasattr(mod, "StratifiedKFold"):
            outer, Real = self, mod.StratifiedKFold

            class Rec(Real):
                def split(self, *a, **k):
                    outer.kfolds.append(list(super().split(*a, **k)))
                    return iter(outer.kfolds[-1])

            c.patch(mod, "StratifiedKFold", Rec)

    def _halve(self, arr):
        from vc import sym as Y
        from vc import terms as T

        c = self.c
        s = Y.st()
        j = len(self.halves)
        out = []
        arr = Y.lift(arr)
        for h in (1, 2):
            nm = f"half{j}_{h}"
            nn = c.n(f"n_{nm}", 1)
            # entries are members of arr, in an arbitrary order
            d = arr.dims[0]
            s.theory.schema(
                nm,
                lambda k, nm=nm: T.band(
                    T.le(T.ZERO, T.app(nm, k, sort="I")),
                    T.lt(T.app(nm, k, sort="I"), d.n),
                    d.mask(T.app(nm, k, sort="I")) if d.mask is not None else T.TRUE,
                ),
            )
            out.append(Y.SArr((Y.Dim(Y.num(nn)),), lambda k, nm=nm: T.app(nm, k, sort="I"), "i"))
        return tuple(out)


# ---------------------------------------------------------------- models


class M:
    def __init__(self, **k):
        self.__dict__.update(k)


class Spec:
    """how one nuisance function is documented to be learned: X may be a function
    of the copies found for the nuisance functions before it; rows and target may
    be lists, one entry per fold"""

    def __init__(self, key, name, target, X, cond=None, post=lambda p: p, rows=None):
        self.key, self.name, self.target, self.X, self.cond, self.post, self.rows = key, name, target, X, cond, post, rows


def both(c, *vs):
    for v in vs:
        c.assume(c.np.sum(v) > 0)
        c.assume(c.np.sum(1 - v) > 0)


def setup(c, m, R, n, K=2, sens=False):
    m._smpls = [c.partition(f"fold{r}", n, K) for r in range(R)]
    if not sens:
        m._sensitivity_implemented = False
    stub_variance(c, n)
    return m


def trim(c, lo):
    return lambda p: c.np.where(p < lo, lo, c.np.where(p > 1 - lo, 1 - lo, p))


def _num(c, name, n, ints):
    return c.arr(name, n, kind="ints", lo=-3, hi=4) if ints else c.arr(name, n)


def plr(c, w, R=1, score="partialling out", J=1, binary_d=False, ints=False, **k):
    import doubleml as dml

    n = c.n("n", 6)
    x, y = c.arr("x", n, 2), _num(c, "y", n, ints)
    d = [c.arr(f"d{j}", n, kind="binary") if binary_d else _num(c, f"d{j}", n, ints) for j in range(J)]
    if binary_d:
        both(c, *d)
    dd = data(c, n, y=y, d=d, x=x, binary_d=binary_d)
    iv = score == "IV-type"
    m = dml.DoubleMLPLR(dd, w.reg("l"), w.clf("m") if binary_d else w.reg("m"), *([w.reg("g")] if iv else []), score=score, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)
    X = [x if J == 1 else c.np.column_stack([x] + [v for q, v in enumerate(d) if q != j]) for j in range(J)]

    def specs(r, j=0):
        out = [Spec("ml_l", "l", y, X[j]), Spec("ml_m", "m", d[j], X[j])]
        if iv:

            def target(got):
                l, mm = m.predictions["ml_l"][:, r, j], m.predictions["ml_m"][:, r, j]
                return y - c.np.mean((d[j] - mm) * (y - l)) / c.np.mean((d[j] - mm) * (d[j] - mm)) * d[j]

            out.append(Spec("ml_g", "g", target, X[j]))
        return out

    return M(m=m, R=R, n=n, x=x, y=y, d=d, specs=specs, dd=dd)


def pliv(c, w, R=1, score="partialling out", Z=1, ints=False, **k):
    import doubleml as dml

    n = c.n("n", 6)
    x, y, d = c.arr("x", n, 2), _num(c, "y", n, ints), _num(c, "d", n, ints)
    z = [_num(c, f"z{q}", n, ints) for q in range(Z)]
    dd = data(c, n, y=y, d=[d], x=x, z=z)
    iv = score == "IV-type"
    m = dml.DoubleMLPLIV(dd, w.reg("l"), w.reg("m"), w.reg("r"), *([w.reg("g")] if iv else []), score=score, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)
    P = lambda key, r: m.predictions[key][:, r, 0]  # noqa: E731

    def specs(r, j=0):
        out = [Spec("ml_l", "l", y, x), Spec("ml_r", "r", d, x)]
        if Z == 1:
            out.append(Spec("ml_m", "m", z[0], x))
        else:
            out += [Spec(f"ml_m_{dd.z_cols[q]}", "m", z[q], x) for q in range(Z)]
        if iv:


            def target(got):
                l, mm, rr = P("ml_l", r), P("ml_m", r), P("ml_r", r)
                return y - c.np.mean((z[0] - mm) * (y - l)) / c.np.mean((d - rr) * (z[0] - mm)) * d

            out.append(Spec("ml_g", "g", target, x))
        return out

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], z=z, specs=specs, dd=dd)


def irm(c, w, R=1, score="ATE", lo=0.01, binary_y=False, ints=False, **k):
    import doubleml as dml

    n = c.n("n", 6)
    x = c.arr("x", n, 2)
    y = c.arr("y", n, kind="binary") if binary_y else _num(c, "y", n, ints)
    d = c.arr("d", n, kind="binary")
    both(c, d, *([y] if binary_y else []))
    dd = data(c, n, y=y, d=[d], x=x, binary_d=True, binary_y=binary_y)
    m = dml.DoubleMLIRM(dd, w.clf("g") if binary_y else w.reg("g"), w.clf("m"), score=score, n_rep=R, n_folds=2, trimming_threshold=lo, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        return [Spec("ml_g0", "g", y, x, d == 0), Spec("ml_g1", "g", y, x, d == 1), Spec("ml_m", "m", d, x, post=trim(c, lo))]

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], specs=specs, dd=dd)


def apo(c, w, R=1, lo=0.01, level=2, **k):
    import doubleml as dml

    n = c.n("n", 10)
    x, y = c.arr("x", n, 2), c.arr("y", n)
    d = c.arr("d", n, kind="int", lo=0, hi=3)
    t = c.np.where(d == level, 1.0, 0.0)
    c.assume(c.np.sum(t) >= 5)
    c.assume(c.np.sum(1 - t) > 0)
    dd = data(c, n, y=y, d=[d], x=x)
    m = dml.DoubleMLAPO(dd, w.reg("g"), w.clf("m"), treatment_level=level, n_rep=R, n_folds=2, trimming_threshold=lo, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        dx = c.np.column_stack((d, x))  # "used to obtain an estimation over several treatment levels"
        return [Spec("ml_g_d_lvl0", "g", y, dx, d != level), Spec("ml_g_d_lvl1", "g", y, x, d == level), Spec("ml_m", "m", t, x, post=trim(c, lo))]

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], specs=specs, dd=dd)


def iivm(c, w, R=1, lo=0.01, at=True, nt=True, **k):
    import doubleml as dml

    n = c.n("n", 6)
    x, y = c.arr("x", n, 2), c.arr("y", n)
    d, z = c.arr("d", n, kind="binary"), c.arr("z", n, kind="binary")
    both(c, d, z)
    dd = data(c, n, y=y, d=[d], z=[z], x=x, binary_d=True, binary_z=True)
    m = dml.DoubleMLIIVM(dd, w.reg("g"), w.clf("m"), w.clf("r"), subgroups={"always_takers": at, "never_takers": nt}, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        out = [Spec("ml_g0", "g", y, x, z == 0), Spec("ml_g1", "g", y, x, z == 1), Spec("ml_m", "m", z, x, post=trim(c, lo))]
        if at:
            out.append(Spec("ml_r0", "r", d, x, z == 0))
        if nt:
            out.append(Spec("ml_r1", "r", d, x, z == 1))
        return out

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], z=[z], specs=specs, dd=dd)


def did(c, w, R=1, score="observational", lo=0.01, **k):
    import doubleml as dml

    n = c.n("n", 6)
    x, y, d = c.arr("x", n, 2), c.arr("y", n), c.arr("d", n, kind="binary")
    both(c, d)
    dd = data(c, n, y=y, d=[d], x=x, binary_d=True)
    obs = score == "observational"
    m = dml.DoubleMLDID(dd, w.reg("g"), *([w.clf("m")] if obs else []), score=score, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        out = [Spec("ml_g0", "g", y, x, d == 0), Spec("ml_g1", "g", y, x, d == 1)]
        if obs:
            out.append(Spec("ml_m", "m", d, x, post=trim(c, lo)))
        return out

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], specs=specs, dd=dd)


def did_cs(c, w, R=1, score="observational", lo=0.01, **k):
    import doubleml as dml

    n = c.n("n", 8)
    x, y, d, t = c.arr("x", n, 2), c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("t", n, kind="binary")
    for a in (d, 1 - d):
        for b in (t, 1 - t):
            c.assume(c.np.sum(a * b) > 0)
    dd = data(c, n, y=y, d=[d], t=t, x=x, binary_d=True)
    obs = score == "observational"
    m = dml.DoubleMLDIDCS(dd, w.reg("g"), *([w.clf("m")] if obs else []), score=score, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        out = [Spec(f"ml_g_d{a}_t{b}", "g", y, x, (d == a) & (t == b)) for a in (0, 1) for b in (0, 1)]
        if obs:
            out.append(Spec("ml_m", "m", d, x, post=trim(c, lo)))
        return out

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], specs=specs, dd=dd)


def ssm_mar(c, w, R=1, lo=0.01, binary_y=False, normalize=False, **k):
    import doubleml as dml

    n = c.n("n", 8)
    x, y, d, s = c.arr("x", n, 2), c.arr("y", n, kind="binary") if binary_y else c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("s", n, kind="binary")
    both(c, d, s)
    dd = data(c, n, y=y, d=[d], s=s, x=x, binary_d=True, binary_y=binary_y)
    m = dml.DoubleMLSSM(dd, w.clf("g") if binary_y else w.reg("g"), w.clf("pi"), w.clf("m"), score="missing-at-random", normalize_ipw=normalize, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)

    def specs(r, j=0):
        dx = c.np.column_stack((x, d))
        return [
            Spec("ml_g_d0", "g", y, x, (d == 0) & (s == 1)),
            Spec("ml_g_d1", "g", y, x, (d == 1) & (s == 1)),
            Spec("ml_pi", "pi", s, dx),
            Spec("ml_m", "m", d, x, post=trim(c, lo)),
        ]

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], s=s, specs=specs, dd=dd)


def _ipw(c, mod, o):
    """the preliminary inverse-probability estimate of every fold is an arbitrary
    number; the score function handed to the solver is kept"""
    o.ipw, o.ipw_score, o.theta = [], [], c.real("theta")

    def bracket(score, start, bounds):
        return True, (0.0, 1.0)

    def solve(ipw_score, bracket_guess):
        o.ipw.append(c.real(f"ipw{len(o.ipw)}"))
        # now: the function may see variables of the fold that change later
        o.ipw_score.append(ipw_score(o.theta))
        return o.ipw[-1]

    c.patch(mod, "_get_bracket_guess", bracket)
    c.patch(mod, "_solve_ipw_score", solve)


def _nonlinear(c, m):
    cnt = []

    def est(*a, **k):
        cnt.append(1)
        return c.real(f"theta_{len(cnt)}")

    m._est_coef = est


def _kde(c, o):
    """density estimate: an arbitrary number; the arguments are kept"""
    o.kde = []

    def kde(u, weights):
        o.kde.append((u, weights))
        return c.real(f"dens{len(o.kde)}", lo=0.1)

    return kde


def pq(c, w, R=1, treatment=1, lo=0.01, normalize=False, quantile=0.25, cvar=False, **k):
    import doubleml as dml
    import doubleml.irm.cvar as MC
    import doubleml.irm.pq as MP

    mod = MC if cvar else MP
    n = c.n("n", 12)
    x, y, d = c.arr("x", n, 2), c.arr("y", n), c.arr("d", n, kind="binary")
    if c.symbolic:
        both(c, d)
    else:
        c.assume(c.np.sum(d) >= 6)
        c.assume(c.np.sum(1 - d) >= 6)
    dd = data(c, n, y=y, d=[d], x=x, binary_d=True)
    o = M(R=R, n=n, x=x, y=y, d=[d], dd=dd, treatment=treatment, lo=lo, normalize=normalize, quantile=quantile)
    kw = {} if cvar else dict(kde=_kde(c, o))
    cls = dml.DoubleMLCVAR if cvar else dml.DoubleMLPQ
    m = o.m = cls(dd, w.reg("g") if cvar else w.clf("g"), w.clf("m"), treatment=treatment, quantile=quantile, trimming_threshold=lo, normalize_ipw=normalize, n_rep=R, n_folds=2, draw_sample_splitting=False, **kw)
    setup(c, m, R, n, **k)
    if not c.symbolic:
        m._smpls = strat(c, m, d, R)
    sp = o.sp = Splits(c, mod, n)
    _ipw(c, mod, o)
    if not cvar:
        _nonlinear(c, m)

    def specs(r, j=0):
        h = sp.halves[r * 2 : r * 2 + 2]
        q = o.ipw[r * 2 : r * 2 + 2]
        rows = [t2[d[t2] == treatment] for _, t2 in h]
        if cvar:
            tgt = [c.np.max(c.np.column_stack((c.np.ones_like(y) * a, (y - quantile * a) / (1 - quantile))), axis=1)[rw] for a, rw in zip(q, rows)]
        else:
            tgt = [y[rw] <= a for a, rw in zip(q, rows)]
        return [Spec("ml_g", "g", tgt, x, rows=rows), Spec("ml_m", "m", d, x, post=trim(c, lo))]

    o.specs = specs
    return o


def strat(c, m, strata, R):
    """concrete mode: folds stratified as the package draws them"""
    from sklearn.model_selection import StratifiedKFold

    s = np.asarray(strata)
    return [list(StratifiedKFold(2, shuffle=True, random_state=r + c.seed % 1000).split(np.zeros(len(s)), s)) for r in range(R)]


def lpq(c, w, R=1, treatment=1, lo=0.01, normalize=False, quantile=0.25, **k):
    import doubleml as dml
    import doubleml.irm.lpq as mod

    n = c.n("n", 24)
    x, y, d, z = c.arr("x", n, 2), c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("z", n, kind="binary")
    for a in (d, 1 - d):
        for b in (z, 1 - z):
            c.assume(c.np.sum(a * b) >= (1 if c.symbolic else 5))
    dd = data(c, n, y=y, d=[d], z=[z], x=x, binary_d=True, binary_z=True)
    o = M(R=R, n=n, x=x, y=y, d=[d], z=[z], dd=dd, treatment=treatment, lo=lo, normalize=normalize, quantile=quantile)
    m = o.m = dml.DoubleMLLPQ(dd, w.clf("g"), w.clf("m"), treatment=treatment, quantile=quantile, trimming_threshold=lo, normalize_ipw=normalize, n_rep=R, n_folds=2, draw_sample_splitting=False, kde=_kde(c, o))
    setup(c, m, R, n, **k)
    if not c.symbolic:
        m._smpls = strat(c, m, d + 2 * z, R)
    sp = o.sp = Splits(c, mod, n)
    _ipw(c, mod, o)
    _nonlinear(c, m)

    def specs(r, j=0):
        h = sp.halves[r * 2 : r * 2 + 2]
        q = o.ipw[r * 2 : r * 2 + 2]
        out = []
        for zz in (0, 1):
            rows = [t2[z[t2] == zz] for _, t2 in h]
            out.append(Spec(f"ml_g_du_z{zz}", "g", [(d[rw] == treatment) * (y[rw] <= a) for a, rw in zip(q, rows)], x, rows=rows))
            out.append(Spec(f"ml_m_d_z{zz}", "m", d, x, z == zz))
        out.append(Spec("ml_m_z", "m", z, x))
        return out

    o.specs = specs
    return o


def ssm_non(c, w, R=1, lo=0.01, binary_y=False, normalize=False, **k):
    import doubleml as dml
    import doubleml.irm.ssm as mod

    n = c.n("n", 24)
    x, y, d, s, z = c.arr("x", n, 2), c.arr("y", n, kind="binary") if binary_y else c.arr("y", n), c.arr("d", n, kind="binary"), c.arr("s", n, kind="binary"), c.arr("z", n)
    for a in (d, 1 - d):
        for b in (s, 1 - s):
            c.assume(c.np.sum(a * b) >= (1 if c.symbolic else 5))
    dd = data(c, n, y=y, d=[d], s=s, z=[z], x=x, binary_d=True, binary_y=binary_y)
    m = dml.DoubleMLSSM(dd, w.clf("g") if binary_y else w.reg("g"), w.clf("pi"), w.clf("m"), score="nonignorable", normalize_ipw=normalize, trimming_threshold=lo, n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)
    if not c.symbolic:
        m._smpls = strat(c, m, d + 2 * s, R)
    sp = Splits(c, mod, n)

    def specs(r, j=0):
        h = sp.halves[r * 2 : r * 2 + 2]
        dxz = c.np.column_stack((x, d, z))
        xpi = lambda got: [c.np.column_stack((x, w.predict(u.u, dxz))) for u in got["ml_pi"]]  # noqa: E731
        rows = lambda a: [(t2[(d[t2] == a) & (s[t2] == 1)], c.np.intersect1d(c.np.where((d == a) & (s == 1))[0], t2)) for _, t2 in h]  # noqa: E731
        return [
            Spec("ml_pi", "pi", s, dxz, rows=[t1 for t1, _ in h]),
            Spec("ml_m", "m", d, xpi, rows=[t2 for _, t2 in h], post=trim(c, lo)),
            Spec("ml_g_d0", "g", y, xpi, rows=rows(0)),
            Spec("ml_g_d1", "g", y, xpi, rows=rows(1)),
        ]

    return M(m=m, R=R, n=n, x=x, y=y, d=[d], s=s, z=[z], specs=specs, dd=dd, sp=sp)


def pliv_partial(c, w, R=1, which="Z", **k):
    import doubleml as dml

    n = c.n("n", 6)
    x, y, d, z = c.arr("x", n, 2), c.arr("y", n), c.arr("d", n), [c.arr("z0", n), c.arr("z1", n)]
    dd = data(c, n, y=y, d=[d], x=x, z=z)
    if which == "Z":
        m = dml.DoubleMLPLIV._partialZ(dd, w.reg("r"), n_rep=R, n_folds=2, draw_sample_splitting=False)
    else:
        m = dml.DoubleMLPLIV._partialXZ(dd, w.reg("l"), w.reg("m"), w.reg("r"), n_rep=R, n_folds=2, draw_sample_splitting=False)
    setup(c, m, R, n, **k)
    xz = c.np.column_stack((x, z[0], z[1]))
    o = M(m=m, R=R, n=n, x=x, y=y, d=[d], z=z, dd=dd)

    def specs(r, j=0):
        if which == "Z":
            return [Spec("ml_r", "r", d, xz)]
        tgt = lambda got: [w.predict(u.u, xz[tr, :]) for u, (tr, _) in zip(got["ml_m"], m._smpls[r])]  # noqa: E731
        return [Spec("ml_l", "l", y, x), Spec("ml_m", "m", d, xz), Spec("ml_r", "r", tgt, x)]

    o.specs = specs
    return o
