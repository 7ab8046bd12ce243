"""Data containers: every column keeps its declared role, row order included.

The frame is arbitrary (any number of rows, arbitrary contents); assignments of
roles and sequences of role changes are enumerated over frames with one column of
every kind, in shuffled column order.  The reference is a plain record of the
declared roles."""
import numpy as _np

from vc.harness import contract

_COLS = ["x10", "d1", "g10", "y", "s", "x1", "z10", "t", "d10", "b", "z1", "g1", "x3"]
_BIN = {"d1", "t", "b", "z1"}


def frame(c, n, cols=tuple(_COLS)):
    v = {k: c.arr(k, n, kind="binary") if k in _BIN else c.arr(k, n) for k in cols}
    for k in v:
        if k in _BIN:
            if not c.symbolic:
                v[k][0], v[k][1] = 0.0, 1.0
        else:
            w = c.int(f"w_{k}", 0, n - 1)
            c.assume(v[k][w] * v[k][w] - v[k][w] != 0)
    if c.symbolic:
        from vc import npmodel as N

        return v, N.SFrame(c.np.column_stack([v[k] for k in cols]), list(cols))
    import pandas as pd

    return v, pd.DataFrame({k: v[k] for k in cols})


class Roles:
    """declared roles"""

    def __init__(self, cols, y, d, x=None, z=None, t=None, s=None, cl=None, use=True):
        self.cols, self.y, self.d, self.z, self.t, self.s, self.cl, self.use = cols, y, self._l(d), self._l(z), t, s, self._l(cl), use
        self.set_x(x)
        self.active = self.d[0]

    @staticmethod
    def _l(v):
        return None if v is None else [v] if isinstance(v, str) else list(v)

    def others(self):
        return {self.y, *self.d, *(self.z or []), *(self.cl or [])} | {k for k in (self.t, self.s) if k is not None}

    def set_x(self, x):
        self.x = self._l(x) if x is not None else [k for k in self.cols if k not in self.others()]

    def conflict(self):
        all_ = [self.y, *self.d, *self.x, *(self.z or []), *(self.cl or [])] + [k for k in (self.t, self.s) if k is not None]
        return len(set(all_)) != len(all_)

    def apply(self, op):
        attr, val = op
        if attr == "active":
            if val not in self.d:
                return False
            self.active = val
            return True
        if attr == "x":
            self.set_x(val)
        else:
            setattr(self, attr, self._l(val) if attr in ("d", "z", "cl") else val)
        if self.conflict():
            return False
        if attr in ("d", "x", "use", "finite"):
            self.active = self.d[0]
        return True


_ATTR = dict(y="y_col", d="d_cols", x="x_cols", z="z_cols", t="t_col", s="s_col", cl="cluster_cols", use="use_other_treat_as_covariate", finite="force_all_x_finite")


def change(obj, op):
    attr, val = op
    if attr == "active":
        obj.set_x_d(val)
    else:
        setattr(obj, _ATTR[attr], list(val) if isinstance(val, list) else val)


def check(c, obj, r, v, n, when):
    np = c.np
    st = lambda ks: np.column_stack([v[k] for k in ks])  # noqa: E731
    c.eq(f"{when} outcome", obj.y, v[r.y])
    c.eq(f"{when} treatment", obj.d, v[r.active])
    xs = r.x + ([k for k in r.d if k != r.active] if r.use else [])
    if xs:
        c.eq(f"{when} covariates", obj.x, st(xs))
    else:
        c.same(f"{when} no covariates", obj.x.shape[1], 0)
    for nm, ks in (("z", r.z), ("t", r.t), ("s", r.s)):
        got = getattr(obj, nm)
        if ks is None:
            c.same(f"{when} no {nm}", got, None)
        elif got is None:
            c.fail(f"{when} {nm}", "missing")
        else:
            c.eq(f"{when} {nm}", got, st(ks) if nm == "z" else v[ks])
    if r.cl is not None:
        c.eq(f"{when} cluster variables", obj.cluster_vars, st(r.cl))
        c.same(f"{when} cluster names", (list(obj.cluster_cols), obj.n_cluster_vars), (r.cl, len(r.cl)))
    c.same(f"{when} names", (obj.y_col, list(obj.d_cols), list(obj.x_cols), obj.z_cols and list(obj.z_cols), obj.t_col, obj.s_col), (r.y, r.d, r.x, r.z, r.t, r.s))
    c.same(f"{when} counts", (obj.n_treat, obj.n_coefs, obj.n_instr), (len(r.d), len(r.d), len(r.z or [])))
    c.eq(f"{when} observations", obj.n_obs, n)
    c.same(f"{when} treatment flags", {k: bool(obj.binary_treats[k]) for k in r.d}, {k: k in _BIN for k in r.d})
    c.same(f"{when} number of flags", len(obj.binary_treats), len(r.d))
    c.same(f"{when} outcome flag", bool(obj.binary_outcome), r.y in _BIN)


_START = {
    "one treatment": dict(y="y", d="d1"),
    "two treatments": dict(y="y", d=["d10", "d1"], x=["x3", "x1"]),
    "treatments apart": dict(y="b", d=["d1", "d10"], x=["x1"], use=False),
    "instruments": dict(y="y", d=["d10"], z=["z10", "z1"]),
    "instruments and time": dict(y="y", d="d1", z="z1", t="t"),
    "instruments and selection": dict(y="y", d="d10", z=["z1"], s="s", x=["x10", "x3"]),
    "time and score": dict(y="y", d=["d1", "d10"], t="t", s="s"),
    "everything": dict(y="b", d=["d1", "d10"], z=["z1", "z10"], t="t", s="s"),
}


def build(c, df, start, cluster=None):
    import doubleml as dml

    k = dict(y_col=start["y"], d_cols=start["d"], x_cols=start.get("x"), z_cols=start.get("z"), t_col=start.get("t"), s_col=start.get("s"), use_other_treat_as_covariate=start.get("use", True))
    if cluster is not None:
        return c.target("doubleml.double_ml_data.DoubleMLClusterData")(df, cluster_cols=cluster, **k)
    return c.target("doubleml.double_ml_data.DoubleMLData")(df, **k)


_OPS = [
    ("active", "d10"),
    ("active", "x1"),
    ("y", "b"),
    ("y", "x3"),
    ("y", "d1"),
    ("d", ["d1"]),
    ("d", "d10"),
    ("d", ["b", "d10", "d1"]),
    ("x", None),
    ("x", ["x10", "x1"]),
    ("x", "x3"),
    ("x", ["x1", "d10"]),
    ("z", None),
    ("z", "z10"),
    ("z", ["z10", "s"]),
    ("t", None),
    ("t", "t"),
    ("t", "b"),
    ("s", None),
    ("s", "s"),
    ("s", "t"),
    ("use", False),
    ("use", True),
    ("finite", "allow-nan"),
]


def history(c, start, cluster, ops):
    n = c.n("n", 4)
    v, df = frame(c, n)
    obj = build(c, df, start, cluster)
    r = Roles(_COLS, cl=cluster, **start)
    check(c, obj, r, v, n, "initially")
    for k, op in enumerate(ops):
        if op is None:
            continue
        when = f"after {k}: {op[0]}={op[1]}"
        if not r.apply(op):
            c.raises(f"{when} refused", (ValueError,), lambda op=op: change(obj, op))
            return
        change(obj, op)
        check(c, obj, r, v, n, when)


_T = ["doubleml.double_ml_data.DoubleMLData"]


@contract("C14", "roles", targets=_T, weight=2)
def roles(c):
    """initial roles and one change of a role"""
    start = _START[c.choice("start", list(_START))]
    history(c, start, None, [c.choice("change", [None] + _OPS)])


@contract("C14", "histories", targets=_T, weight=3, samples=60)
def histories(c):
    """two changes: a treatment, outcome or covariate change first"""
    start = _START[c.choice("start", ["two treatments", "everything"])]
    first = c.choice("first", [("active", "d10"), ("y", "x3"), ("d", ["d1"]), ("x", ["x10", "x1"]), ("use", False), ("z", None), ("t", None), ("s", None)])
    history(c, start, None, [first, c.choice("second", _OPS + [("active", "d1"), ("y", "y")])])


_TC = ["doubleml.double_ml_data.DoubleMLClusterData"]


@contract("C14", "clusters", targets=_TC, weight=2, samples=60)
def clusters(c):
    start = _START[c.choice("start", list(_START))]
    cl = c.choice("clusters", [["g1"], ["g10", "g1"], "g10"])
    ops = [None, ("active", "d10"), ("y", "x3"), ("y", "g1"), ("d", ["d10"]), ("d", ["d10", "g10"]), ("x", None), ("x", ["x3"]), ("x", ["x1", "g10"]), ("z", "z10"), ("z", "g10"), ("t", None), ("t", "g10"), ("s", None), ("s", "g10"), ("cl", ["g1"]), ("cl", "x10"), ("cl", ["g1", "g10"]), ("cl", "y")]
    history(c, start, [cl] if isinstance(cl, str) else cl, [c.choice("change", ops)])


@contract("C14", "from_arrays", targets=["doubleml.double_ml_data.DoubleMLData.from_arrays"], samples=40)
def from_arrays(c):
    """arrays get the documented column names and keep row and column order"""
    n = c.n("n", 4)
    np = c.np
    dx, dd, dz = c.choice("covariates", [1, 0, 3]), c.choice("treatments", [0, 1, 2]), c.choice("instruments", [None, 0, 1, 2])
    ts = c.choice("time and score", ["none", "t", "s", "ts"])
    use = c.choice("other treatments as covariates", [True, False])

    def many(nm, k, kind="real"):
        v = [c.arr(f"{nm}{i}", n, kind=kind) for i in range(max(k, 1))]
        for i, a in enumerate(v):
            w = c.int(f"w_{nm}{i}", 0, n - 1)
            if kind == "real":
                c.assume(a[w] * a[w] - a[w] != 0)
        return v, (v[0] if k == 0 else np.column_stack(v))

    xs, x = many("x", dx)
    ds, d = many("d", dd)
    ys, y = many("y", 0)
    zs, z = many("z", dz) if dz is not None else (None, None)
    t, s = c.arr("t", n), c.arr("s", n)
    kw = dict(z=z)
    if "t" in ts:
        kw["t"] = t
    if "s" in ts:
        kw["s"] = s
    obj = c.target(c.target("doubleml.double_ml_data.DoubleMLData"), "from_arrays")(x, y, d, use_other_treat_as_covariate=use, **kw)
    c.same("names", (obj.y_col, list(obj.d_cols), list(obj.x_cols), obj.z_cols and list(obj.z_cols), obj.t_col, obj.s_col), ("y", ["d"] if dd < 2 else ["d1", "d2"], [f"X{i + 1}" for i in range(max(dx, 1))], None if dz is None else ["z"] if dz < 2 else ["z1", "z2"], "t" if "t" in ts else None, "s" if "s" in ts else None))
    c.eq("outcome", obj.y, ys[0])
    for k in range(len(ds)):
        if k:
            obj.set_x_d(obj.d_cols[k])
        c.eq(f"treatment {k}", obj.d, ds[k])
        c.eq(f"covariates {k}", obj.x, np.column_stack(xs + ([a for i, a in enumerate(ds) if i != k] if use else [])))
    if zs is None:
        c.same("no instrument", obj.z, None)
    else:
        c.eq("instruments", obj.z, np.column_stack(zs))
    for nm, v in (("t", t), ("s", s)):
        if nm in ts:
            c.eq(nm, getattr(obj, nm), v)
        else:
            c.same(f"no {nm}", getattr(obj, nm), None)


@contract("C14", "from_arrays_clusters", targets=["doubleml.double_ml_data.DoubleMLClusterData.from_arrays"], samples=30)
def from_arrays_clusters(c):
    n = c.n("n", 4)
    np = c.np
    dd, dz, dc = c.choice("treatments", [0, 2]), c.choice("instruments", [None, 0, 2]), c.choice("cluster variables", [0, 1, 2])
    ts = c.choice("time and score", ["none", "t", "s"])

    def many(nm, k):
        v = [c.arr(f"{nm}{i}", n) for i in range(max(k, 1))]
        for i, a in enumerate(v):
            w = c.int(f"w_{nm}{i}", 0, n - 1)
            c.assume(a[w] * a[w] - a[w] != 0)
        return v, (v[0] if k == 0 else np.column_stack(v))

    xs, x = many("x", 2)
    ds, d = many("d", dd)
    ys, y = many("y", 0)
    cs, cl = many("c", dc)
    zs, z = many("z", dz) if dz is not None else (None, None)
    t, s = c.arr("t", n), c.arr("s", n)
    kw = {} if ts == "none" else {ts: dict(t=t, s=s)[ts]}
    obj = c.target(c.target("doubleml.double_ml_data.DoubleMLClusterData"), "from_arrays")(x, y, d, cl, z=z, **kw)
    c.same("names", (obj.y_col, list(obj.d_cols), list(obj.x_cols), obj.z_cols and list(obj.z_cols), list(obj.cluster_cols)), ("y", ["d"] if dd < 2 else ["d1", "d2"], ["X1", "X2"], None if dz is None else ["z"] if dz < 2 else ["z1", "z2"], ["cluster_var"] if dc < 2 else ["cluster_var1", "cluster_var2"]))
    c.eq("outcome", obj.y, ys[0])
    c.eq("treatment", obj.d, ds[0])
    c.eq("covariates", obj.x, np.column_stack(xs + ds[1:]))
    c.eq("cluster variables", obj.cluster_vars, np.column_stack(cs))
    c.same("number of cluster variables", obj.n_cluster_vars, max(dc, 1))
    if zs is None:
        c.same("no instrument", obj.z, None)
    else:
        c.eq("instruments", obj.z, np.column_stack(zs))
    for nm, v in (("t", t), ("s", s)):
        if nm == ts:
            c.eq(nm, getattr(obj, nm), v)
        else:
            c.same(f"no {nm}", getattr(obj, nm), None)


def _df(c, n):
    import pandas as pd

    v = {k: (c.rng.integers(0, 2, n).astype(float) if k in _BIN else c.rng.normal(size=n)) for k in _COLS}
    for k in _BIN:
        v[k][0], v[k][1] = 0.0, 1.0
    return v, pd.DataFrame(v)


_FULL = dict(y_col="y", d_cols=["d1", "d10"], x_cols=["x10", "x1"], z_cols=["z10", "z1"], t_col="t", s_col="s")


@contract("C14", "finite", mode="bounded", samples=3, targets=_T + _TC, why_bounded="missing and infinite floating point values are outside the real-number reading of arrays: every role, kind of bad value and option is enumerated on frames of 4 to 12 rows")
def finite(c):
    """missing or infinite values are refused in every role; in covariates as documented"""
    import numpy as np

    D, DC = c.target("doubleml.double_ml_data.DoubleMLData"), c.target("doubleml.double_ml_data.DoubleMLClusterData")
    n = int(c.rng.integers(4, 13))
    _, good = _df(c, n)
    for opt in (True, False, "allow-nan"):
        for bad in (np.nan, np.inf, -np.inf):
            for col in ("y", "d1", "d10", "z1", "z10", "t", "s", "x1", "x10", "g1", "g10", "x3"):
                df = good.copy()
                df.loc[int(c.rng.integers(0, n)), col] = bad
                for cl in (None, "g1", ["g1", "g10"]):
                    def mk(**kw):
                        k = {**_FULL, "force_all_x_finite": opt, **kw}
                        return D(df, **k) if cl is None else DC(df, cluster_cols=cl, **k)

                    # an infinite second treatment is a covariate until it becomes the active one
                    covariate = col in ("x1", "x10", "d10")
                    if col == "x3" or (col in ("g1", "g10") and col not in (cl or [])):
                        ok = True
                    elif covariate:
                        ok = opt is False or (opt == "allow-nan" and bad != bad)
                    else:
                        ok = False
                    # the treatment flags need finite treatments in any case
                    name = f"{col}={bad}, {opt}, clusters {cl}"
                    if col == "d10":
                        if not ok:
                            c.raises(name, (ValueError,), mk)
                        else:
                            def use():
                                mk().set_x_d("d10")

                            c.raises(name + " when it becomes the treatment", (ValueError,), use)
                        continue
                    if ok:
                        got = mk()
                        if col in ("x1", "x10"):
                            c.true(name + " kept", np.array_equal(got.x, df[["x10", "x1", "d10"]].values, equal_nan=True))
                    else:
                        c.raises(name, (ValueError,), mk)
                    if cl is not None:
                        continue
                    # the same for a later change of the option or of a role
                    if covariate:
                        obj = D(df, **{**_FULL, "force_all_x_finite": False})
                        if ok:
                            obj.force_all_x_finite = opt
                        else:
                            c.raises(name + " set later", (ValueError,), lambda: setattr(obj, "force_all_x_finite", opt))
                    elif col in ("y", "z1", "t", "s"):
                        free = {"y": dict(y_col="x3"), "z1": dict(z_cols="z10"), "t": dict(t_col=None), "s": dict(s_col=None)}[col]
                        obj = D(df, **{**_FULL, "force_all_x_finite": opt, **free})
                        at = {"y": "y_col", "z1": "z_cols", "t": "t_col", "s": "s_col"}[col]
                        c.raises(name + " role changed", (ValueError,), lambda: setattr(obj, at, _FULL[at]))
    # arrays
    X = c.rng.normal(size=(n, 2))
    cols = dict(x=X, y=c.rng.normal(size=n), d=c.rng.normal(size=n), z=c.rng.normal(size=n), t=c.rng.normal(size=n), s=c.rng.normal(size=n))
    for opt in (True, False, "allow-nan"):
        for bad in (np.nan, np.inf):
            for role in cols:
                k = {a: b.copy() for a, b in cols.items()}
                k[role][int(c.rng.integers(0, n))] = bad
                if role == "x" and (opt is False or (opt == "allow-nan" and bad != bad)):
                    c.true(f"from_arrays {role} {bad} {opt}", np.array_equal(D.from_arrays(**k, force_all_x_finite=opt).x, k["x"], equal_nan=True))
                else:
                    c.raises(f"from_arrays {role} {bad} {opt}", (ValueError,), lambda: D.from_arrays(**k, force_all_x_finite=opt))


@contract("C14", "refusals", mode="bounded", samples=3, targets=_T + _TC, why_bounded="argument types are enumerated")
def refusals(c):
    """wrong types, unknown and duplicated columns, unequal lengths"""
    import numpy as np
    import pandas as pd

    D, DC = c.target("doubleml.double_ml_data.DoubleMLData"), c.target("doubleml.double_ml_data.DoubleMLClusterData")
    n = int(c.rng.integers(4, 13))
    _, df = _df(c, n)
    bad = {
        "y_col": [(None, TypeError), (1, TypeError), (["y"], TypeError), ("nope", ValueError), ("x1", ValueError), ("d10", ValueError), ("z1", ValueError), ("t", ValueError), ("s", ValueError)],
        "d_cols": [(None, TypeError), (1, TypeError), (("d1",), TypeError), (["d1", "d1"], ValueError), (["d1", "nope"], ValueError), ("y", ValueError), (["x1", "d1"], ValueError), ("z10", ValueError), ("t", ValueError), ("s", ValueError)],
        "x_cols": [(1, TypeError), (("x1",), TypeError), (["x1", "x1"], ValueError), (["nope"], ValueError), ("y", ValueError), (["x1", "d1"], ValueError), (["x1", "z1"], ValueError), ("t", ValueError), ("s", ValueError)],
        "z_cols": [(1, TypeError), (("z1",), TypeError), (["z1", "z1"], ValueError), (["nope"], ValueError), ("y", ValueError), (["z1", "d1"], ValueError), (["x1", "z1"], ValueError), ("t", ValueError), ("s", ValueError)],
        "t_col": [(1, TypeError), (["t"], TypeError), ("nope", ValueError), ("y", ValueError), ("d1", ValueError), ("x1", ValueError), ("z1", ValueError), ("s", ValueError)],
        "s_col": [(1, TypeError), (["s"], TypeError), ("nope", ValueError), ("y", ValueError), ("d1", ValueError), ("x1", ValueError), ("z1", ValueError), ("t", ValueError)],
        "use_other_treat_as_covariate": [(1, TypeError), ("True", TypeError), (None, TypeError)],
        "force_all_x_finite": [(1, TypeError), (None, TypeError), ("allow_nan", ValueError)],
    }
    badc = {"cluster_cols": [(None, TypeError), (1, TypeError), (("g1",), TypeError), (["g1", "g1"], ValueError), ("nope", ValueError), ("y", ValueError), (["g1", "d1"], ValueError), ("x1", ValueError), ("z1", ValueError), ("t", ValueError), ("s", ValueError)]}
    for nm, vals in {**bad, **badc}.items():
        for val, err in vals:
            if nm != "cluster_cols":
                c.raises(f"{nm}={val!r}", (err,), lambda: D(df, **{**_FULL, nm: val}))
            c.raises(f"clusters {nm}={val!r}", (err,), lambda: DC(df, **{"cluster_cols": ["g1", "g10"], **_FULL, nm: val}))
            obj, objc = D(df, **_FULL), DC(df, cluster_cols="g1", **_FULL)
            if nm != "cluster_cols":
                c.raises(f"later {nm}={val!r}", (err,), lambda: setattr(obj, nm, val))
            c.raises(f"later, clusters {nm}={val!r}", (err,), lambda: setattr(objc, nm, val))
    for val, err in ((None, TypeError), (1, TypeError), ("x1", ValueError), ("nope", ValueError)):
        c.raises(f"active treatment {val!r}", (err,), lambda: D(df, **_FULL).set_x_d(val))
    c.raises("no frame", (TypeError,), lambda: D(df.values, "y", "d1"))
    dup = pd.concat([df, df[["x1"]]], axis=1)
    c.raises("duplicated column names", (ValueError,), lambda: D(dup, "y", "d1"))
    c.raises("duplicated column names, clusters", (ValueError,), lambda: DC(dup, "y", "d1", "g1"))
    cols = dict(x=c.rng.normal(size=(n, 2)), y=c.rng.normal(size=n), d=c.rng.normal(size=(n, 2)), z=c.rng.normal(size=n), t=c.rng.normal(size=n), s=c.rng.normal(size=n))
    for role in cols:
        for cut in (1, n - 1):
            c.raises(f"{role} of another length", (ValueError,), lambda: D.from_arrays(**{**cols, role: cols[role][:cut]}))
    for o, err in ((1, TypeError), ("allow_nan", ValueError), (None, TypeError)):
        c.raises(f"from_arrays option {o!r}", (err,), lambda: D.from_arrays(**cols, force_all_x_finite=o))
    # binary flags only for the values zero and one
    for vals, flag in (([0, 1], True), ([0.0, 1.0], True), ([1, 2], False), ([-1, 1], False), ([0, 1, 2], False), ([0, 0.5], False)):
        v = np.resize(np.array(vals), n)
        for col in ("y", "d1"):
            f2 = df.copy()
            f2[col] = v
            o = D(f2, y_col="y", d_cols=["d10", "d1"], x_cols="x1")
            c.same(f"{col} in {vals}", bool(o.binary_outcome if col == "y" else o.binary_treats["d1"]), flag)
