"""Sample splits are valid cross-fitting partitions."""
import numpy as _np

from vc.harness import contract

from .c12_propensity import construct
from .common import Clf, Reg, data

_T = ["doubleml.utils.resampling.DoubleMLResampling.split_samples", "doubleml.double_ml.DoubleML.draw_sample_splitting"]
_TC = ["doubleml.utils.resampling.DoubleMLClusterResampling.split_samples", "doubleml.double_ml.DoubleML.draw_sample_splitting"]
_S = ["scikit-learn's KFold family (every call yields an arbitrary partition into the requested number of folds)"]


def kfold_stubs(c):
    """callee contracts of scikit-learn's splitters: fresh arbitrary partitions"""
    if not c.symbolic:
        return
    import doubleml.utils.resampling as R

    cnt = []

    def fresh(X, k):
        cnt.append(1)
        return c.partition(f"split{len(cnt)}", X.shape[0] if hasattr(X, "shape") else len(X), k)

    class One:
        def __init__(self, n_splits=5, **k):
            self.k = n_splits

        def split(self, X, y=None, groups=None):
            return iter(fresh(X, self.k))

        def get_n_splits(self, *a):
            return self.k

    class Rep(One):
        def __init__(self, n_splits=5, n_repeats=10, **k):
            self.k, self.r = n_splits, n_repeats

        def split(self, X, y=None, groups=None):
            return iter([s for _ in range(self.r) for s in fresh(X, self.k)])

    for nm, cls in {"KFold": One, "StratifiedKFold": One, "RepeatedKFold": Rep, "RepeatedStratifiedKFold": Rep}.items():
        if hasattr(R, nm):
            c.patch(R, nm, cls)


def member(c, n, idx):
    return c.np.isin(c.np.arange(n), idx)


def check(c, lab, n, smpls, R, K):
    np = c.np
    c.same(f"{lab} one splitting per repetition", len(smpls), R)
    for r, sm in enumerate(smpls):
        c.same(f"{lab} rep{r} number of folds", len(sm), K)
        te = [member(c, n, t) * 1.0 for _, t in sm]
        tot = te[0]
        for t in te[1:]:
            tot = tot + t
        c.eq(f"{lab} rep{r} test sets partition the observations", tot, np.ones(n))
        for k, (tr, t) in enumerate(sm):
            both = np.logical_and(member(c, n, tr), member(c, n, t))
            c.eq(f"{lab} rep{r} fold{k} training and test set are disjoint", both * 1.0, np.zeros(n))
            if not c.symbolic:
                c.same(f"{lab} rep{r} fold{k} no repeated index", [len(set(tr)), len(set(t))], [len(tr), len(t)])


@contract("C10", targets=_T, stubs=_S)
def drawn(c):
    """independent data: partitions of all observations, as many folds and repetitions as requested"""
    import doubleml as dml

    kfold_stubs(c)
    K, R = c.choice("folds", [2, 3, 5]), c.choice("repetitions", [1, 2, 3])
    kind = c.choice("model", ["plr", "irm", "did"])
    n = c.n("n", 12)
    y = c.arr("y", n)
    d = c.arr("d", n) if kind == "plr" else c.arr("d", n, kind="binary")
    if kind != "plr":
        c.assume(c.np.sum(d) >= K)
        c.assume(c.np.sum(1 - d) >= K)
    dd = data(c, n, y=y, d=[d], binary_d=kind != "plr")
    cls = {"plr": dml.DoubleMLPLR, "irm": dml.DoubleMLIRM, "did": dml.DoubleMLDID}[kind]
    m = cls(dd, Reg(), Reg() if kind == "plr" else Clf(), n_folds=K, n_rep=R, draw_sample_splitting=False)
    if c.symbolic and kind != "plr":
        m._strata = d
    for k in range(c.choice("draws", [1, 2])):
        c.same("drawing returns the model", m.draw_sample_splitting() is m, True)
        check(c, f"draw{k}", n, m.smpls, R, K)


def cluster_model(c, K, R, V, draw=True):
    import doubleml as dml

    n = c.n("n", 8, *([] if c.symbolic else [40]))
    G = [c.n(f"G{v}", K) for v in range(V)]
    cl = [c.clusters(f"cluster{v}", n, G[v]) for v in range(V)]
    y, d = c.arr("y", n), c.arr("d", n)
    dd = data(c, n, y=y, d=[d], cluster=cl)
    m = dml.DoubleMLPLR(dd, Reg(), Reg(), n_folds=K, n_rep=R, draw_sample_splitting=False)
    return m, n, cl, G


@contract("C10", targets=_TC, stubs=_S, weight=2)
def drawn_cluster(c):
    """clustered data: test blocks are the product of cluster partitions; no cluster of a test block occurs in its training set"""
    kfold_stubs(c)
    V, K, R = c.choice("cluster variables", [1, 2]), c.choice("folds", [2, 3]), c.choice("repetitions", [1, 2])
    m, n, cl, G = cluster_model(c, K, R, V)
    np = c.np
    m.draw_sample_splitting()
    check(c, "cluster", n, m.smpls, R, K**V)
    c.same("one cluster splitting per repetition", len(m.smpls_cluster), R)
    for r in range(R):
        c.same(f"rep{r} cluster splitting per fold", len(m.smpls_cluster[r]), K**V)
        for k, ((tr, te), (trc, tec)) in enumerate(zip(m.smpls[r], m.smpls_cluster[r])):
            lab = f"rep{r} fold{k}"
            block = np.ones(n)
            for v in range(V):
                block = block * np.isin(cl[v], tec[v])
                # training and test clusters partition the clusters of this dimension
                for nm, of in (("every observation", cl[v]),):
                    c.eq(f"{lab} variable{v}: each cluster is a training or a test cluster", np.isin(of, trc[v]) * 1.0 + np.isin(of, tec[v]) * 1.0, np.ones(n))
                c.eq(f"{lab} variable{v}: no test cluster among the training observations", member(c, n, tr) * np.isin(cl[v], tec[v]), np.zeros(n))
                if not c.symbolic:
                    c.same(f"{lab} variable{v}: no shared cluster", set(cl[v][tr]) & set(cl[v][te]), set())
            c.eq(f"{lab} test block is the product of its test clusters", member(c, n, te) * 1.0, block)


# ---------------------------------------------------------------- user-supplied splittings


def _valid(smpls, n):
    """documented form: per repetition pairs of index sets; unique integer indices in range; test sets partition; train and test disjoint"""
    if isinstance(smpls, tuple):
        if len(smpls) != 2:
            return None
        one = [smpls]
    elif not isinstance(smpls, list) or not smpls:
        return None
    elif all(isinstance(t, tuple) for t in smpls):
        one = smpls
    elif all(isinstance(s, list) and s and all(isinstance(t, tuple) for t in s) for s in smpls):
        if len({len(s) for s in smpls}) != 1:
            return None
        return smpls if all(_fold(s, n) for s in smpls) else None
    else:
        return None
    if any(len(t) != 2 for t in one):
        return None
    if len(one) == 1 and all(all(isinstance(i, (int, _np.integer)) for i in x) and sorted(x) == list(range(n)) for x in one[0]):
        return [one]  # no sample splitting
    if isinstance(smpls, tuple):
        return None
    return [one] if _fold(one, n) else None


def _fold(sm, n):
    allt = []
    for t in sm:
        if len(t) != 2:
            return False
        tr, te = (list(x) for x in t)
        if not len(tr) or not len(te):
            return False
        if not all(isinstance(x, (int, _np.integer)) and not isinstance(x, bool) for x in tr + te):
            return False
        if len(set(tr)) != len(tr) or len(set(te)) != len(te) or set(tr) & set(te) or not set(tr) <= set(range(n)):
            return False
        allt += te
    return sorted(allt) == list(range(n))


def _gen(rng, n, K):
    f = rng.integers(0, K, n)
    f[rng.permutation(n)[:K]] = _np.arange(K)
    out = []
    for j in range(K):
        te, tr = _np.where(f == j)[0], _np.where(f != j)[0]
        if rng.integers(0, 3) == 0 and len(tr) > 1:
            tr = rng.permutation(tr)[: max(1, len(tr) - 1)]  # training sets need not be complements
        if rng.integers(0, 3) == 0:
            te = rng.permutation(te)
        out.append((tr.tolist(), te.tolist()) if rng.integers(0, 2) else (tr, te))
    return out


_BAD = ["none", "drop", "repeat", "overlap", "out of range", "negative", "float", "triple", "one", "uneven", "mixed", "not list", "twice", "empty rep", "swap"]


def _spoil(rng, sm, n, how):
    """sm: list of repetitions"""
    r, k = rng.integers(0, len(sm)), rng.integers(0, len(sm[0]))
    tr, te = (list(map(int, x)) for x in sm[r][k])
    if how == "drop":
        te = te[:-1] if len(te) > 1 else te + [te[0]]
    elif how == "repeat":
        te = te + [te[0]]
    elif how == "overlap":
        tr = tr + [te[0]]
    elif how == "out of range":
        tr = tr + [n + 3]
    elif how == "negative":
        tr = tr + [-1]
    elif how == "float":
        te = [float(x) for x in te]
    elif how == "twice":
        tr = tr + [tr[0]]
    elif how == "swap":
        tr, te = te, tr
    sm[r][k] = (tr, te)
    if how == "triple":
        sm[r][k] = (tr, te, te)
    elif how == "one":
        sm[r][k] = (tr,)
    elif how == "uneven":
        sm[r] = sm[r] + [sm[r][0]]
    elif how == "mixed":
        sm[r][k] = [tr, te]
    elif how == "not list":
        return tuple(map(tuple, sm)) + ((),)
    elif how == "empty rep":
        sm[r] = []
    return sm


_KINDS = ["plr", "irm", "apos", "qte"]


@contract("C10", mode="bounded", targets=["doubleml.utils._checks._check_sample_splitting", "doubleml.double_ml.DoubleML.set_sample_splitting"], samples=400, why_bounded="index lists of concrete length; Python set and list structure of the argument")
def supplied(c):
    """accepted exactly when the documented form holds; stored sets, numbers of folds and repetitions are those given"""
    kind = c.choice("model", _KINDS)
    m = construct(kind, n_folds=3, n_rep=2)
    n = 40
    rng = c.rng
    # full-sample "splittings" (train = test = all) are documented for the base class only
    K, R = c.choice("folds", [1, 2, 3, 7] if kind in ("plr", "irm") else [2, 3, 7]), c.choice("repetitions", [1, 2, 3])
    how = c.choice("change", _BAD + ["none"] * 8)
    form = c.choice("form", ["repetitions", "folds", "tuple"])
    if K == 1:
        full = _np.arange(n)
        sm = [[(full, rng.permutation(full))] for _ in range(R)]
        form = c.choice("single", ["folds", "tuple"])
    else:
        sm = [_gen(rng, n, K) for _ in range(R)]
    if how != "none":
        sm = _spoil(rng, sm, n, how)
    if isinstance(sm, list) and form != "repetitions":
        sm = sm[0]
        if form == "tuple":
            sm = sm[0] if isinstance(sm, list) and sm else sm
    want = _valid(sm, n)
    snap = repr(sm)
    before = m.smpls
    if want is None:
        c.raises("refused", (ValueError, TypeError), m.set_sample_splitting, sm)
        c.same("splitting unchanged", m.smpls is before, True)
        return
    c.same("returns the model", m.set_sample_splitting(sm) is m, True)
    c.same("argument unchanged", repr(sm), snap)
    c.same("repetitions", m.n_rep, len(want))
    c.same("folds", m.n_folds, len(want[0]))
    c.same("stored index sets", [[(sorted(map(int, a)), sorted(map(int, b))) for a, b in s] for s in m.smpls], [[(sorted(map(int, a)), sorted(map(int, b))) for a, b in s] for s in want])


def _cluster_data(rng, V):
    import doubleml as dml

    G = [5, 4][:V]
    labs = [rng.choice(_np.arange(-9, 40), g, replace=False) for g in G]
    cv = _np.array([[a] + ([b] if V == 2 else []) for a in labs[0] for b in (labs[1] if V == 2 else [0, 0])])
    n = len(cv)
    X = rng.normal(size=(n, 2))
    return dml.DoubleMLClusterData.from_arrays(X, rng.normal(size=n), rng.normal(size=n), cv), cv, labs


def _cluster_split(rng, cv, labs, K):
    parts = []
    for lab in labs:
        f = rng.permutation(_np.arange(len(lab)) % K)
        parts.append([(lab[f != j], lab[f == j]) for j in range(K)])
    sm, sc = [], []
    import itertools

    for ks in itertools.product(range(K), repeat=len(labs)):
        a = [parts[v][k][0] for v, k in enumerate(ks)]
        b = [parts[v][k][1] for v, k in enumerate(ks)]
        tr = _np.all([_np.isin(cv[:, v], a[v]) for v in range(len(labs))], axis=0)
        te = _np.all([_np.isin(cv[:, v], b[v]) for v in range(len(labs))], axis=0)
        sm.append((_np.where(tr)[0], _np.where(te)[0]))
        sc.append((a, b))
    return sm, sc


def _sandwich(psi, dpsi, sm, sc, cv, K):
    V = cv.shape[1]
    g, j = 0.0, 0.0
    for (_, te), (_, cl) in zip(sm, sc):
        size = _np.prod([len(x) for x in cl])
        const = 1 / size if V == 1 else min(len(x) for x in cl) / size**2
        for v in range(V):
            for lab in cl[v]:
                g += const * psi[te][cv[te, v] == lab].sum() ** 2
        j += dpsi[te].sum() / size
    G = min(len(_np.unique(cv[:, v])) for v in range(V))
    return g / K**V / (G * (j / K**V) ** 2)


@contract("C10", mode="bounded", targets=["doubleml.utils._checks._check_sample_splitting", "doubleml.utils._checks._check_cluster_sample_splitting", "doubleml.double_ml.DoubleML.set_sample_splitting"], samples=240, why_bounded="index lists of concrete length; Python set and list structure of the argument")
def validation(c):
    """cluster splittings: accepted when every train/test pair partitions the clusters in every repetition and fold; folds per cluster are those of the splitting"""
    import doubleml as dml

    rng = c.rng
    V, K, R = c.choice("cluster variables", [1, 2]), c.choice("folds", [2, 3]), c.choice("repetitions", [1, 2, 3])
    K0 = c.choice("folds of the model", [2, 3])
    dd, cv, labs = _cluster_data(rng, V)
    m = dml.DoubleMLPLR(dd, Reg(), Reg(), n_folds=K0, n_rep=1)
    S = [_cluster_split(rng, cv, labs, K) for _ in range(R)]
    sm, sc = [s[0] for s in S], [s[1] for s in S]
    how = c.choice("change", ["none", "none", "none", "missing", "fewer reps", "fewer folds", "dropped", "both", "repeated", "wrong label"])
    r, k, v = rng.integers(0, R), rng.integers(0, K**V), rng.integers(0, V)
    a, b = [list(map(_np.array, x)) for x in sc[r][k]]
    if how == "missing":
        sc = None
    elif how == "fewer reps":
        sc = sc[:-1]
    elif how == "fewer folds":
        sc[r] = sc[r][:-1]
    elif how != "none":
        if how == "dropped":
            b[v] = b[v][:-1]
        elif how == "both":
            a[v] = _np.append(a[v], b[v][0])
        elif how == "repeated":
            b[v] = _np.append(b[v], b[v][0])
        elif how == "wrong label":
            b[v] = b[v].copy()
            b[v][0] = 77
        sc[r][k] = (a, b)
    if how != "none":
        c.raises("refused", (ValueError, TypeError), m.set_sample_splitting, sm, sc)
        return
    m.set_sample_splitting(sm, sc)
    c.same("repetitions", m.n_rep, R)
    c.same("folds", m.n_folds, K**V)
    check(c, "supplied", len(cv), m.smpls, R, K**V)
    c.same("cluster splitting", [[[list(map(list, x)) for x in t] for t in s] for s in m.smpls_cluster], [[[list(map(list, x)) for x in t] for t in s] for s in sc])
    # the standard error averages over the folds per cluster variable of the splitting that was set
    m.fit()
    for q in range(R):
        c.eq(f"variance rep{q}", m.all_se[0, q] ** 2, _sandwich(m.psi[:, q, 0], m.psi_deriv[:, q, 0], sm[q], sc[q], cv, K))


@contract("C10", mode="bounded", targets=["doubleml.utils._checks._check_resampling_specification", "doubleml.double_ml.DoubleML.smpls"], samples=60, why_bounded="argument types")
def specification(c):
    """numbers of folds and repetitions that are not integers of at least 2 and 1 are refused; without a splitting none is reported"""
    kind = c.choice("model", ["plr", "irm", "apos", "qte", "pq"])
    bad = c.choice("bad", [dict(n_folds=1), dict(n_folds=2.0), dict(n_folds="2"), dict(n_folds=0), dict(n_rep=0), dict(n_rep=1.0), dict(n_rep=-2)])
    c.raises("refused", (TypeError, ValueError), construct, kind, **bad)
    m = construct(kind, draw_sample_splitting=False)
    c.raises("no splitting", ValueError, lambda: m.smpls)
