"""Mechanical extraction: imports the package under /repo through an AST
transformation that (a) routes loops / comprehensions through the engine's loop
rule, (b) routes builtin conversions and sized operations through models, and
(c) replaces foreign modules by their modelled contracts.  Nothing else is
changed and nothing is dropped: the transformed functions are the repository's
functions, statement for statement."""
import ast
import hashlib
import importlib.abc
import importlib.util
import os
import sys
import types

from . import loops as L
from . import npmodel as N
from . import sym as Y
from .terms import Unsupported

REPO = os.environ.get("VC_REPO", "/repo")
SOURCES = {}  # module name -> sha256


class _Names(ast.NodeVisitor):
    """Names bound in a statement list (function scope)."""

    def __init__(self):
        self.names = set()
        self.bad = False

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)
        for d in n.decorator_list + n.args.defaults:
            self.visit(d)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        # comprehension targets are local to the comprehension; walrus is not used in the package
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_Global(self, n):
        self.bad = True

    visit_Nonlocal = visit_Global

    def visit_Yield(self, n):
        self.bad = True

    visit_YieldFrom = visit_Await = visit_Yield
    visit_NamedExpr = visit_Yield


def _contains(nodes, pred):
    for n in nodes:
        for x in ast.walk(n):
            if pred(x):
                return True
    return False


def _zero_super(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" and not x.args


def _yieldish(x):
    return isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr))


class _Exits(ast.NodeTransformer):
    """break/continue/return inside a loop body that became a function."""

    def __init__(self):
        self.has_ret = False

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_For(self, n):
        # inner loops keep their own break/continue; returns still exit
        n.body = [_RetOnly(self).visit(b) for b in n.body]
        n.orelse = [self.visit(b) for b in n.orelse]
        return n

    visit_While = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=ast.Constant(None)), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.Return(value=ast.Name("vc__BRK", ast.Load())), n)

    def visit_Return(self, n):
        self.has_ret = True
        v = n.value or ast.Constant(None)
        return ast.copy_location(
            ast.Return(value=ast.Call(ast.Name("vc__Ret", ast.Load()), [v], [])), n
        )


class _RetOnly(ast.NodeTransformer):
    def __init__(self, outer):
        self.outer = outer

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        return self.outer.visit_Return(n)


class Transform(ast.NodeTransformer):
    def __init__(self):
        self.depth = 0
        self.count = 0

    def visit_FunctionDef(self, n):
        # decorators/defaults evaluated outside
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.depth += 1
        n.body = self._block(n.body)
        self.depth -= 1
        return n

    def visit_Lambda(self, n):
        self.depth += 1
        n.body = self.visit(n.body)
        self.depth -= 1
        return n

    def _block(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in N.CALLS and not any(isinstance(a, ast.Starred) for a in n.args):
            n.func = ast.copy_location(ast.Name(f"vc__call_{n.func.id}", ast.Load()), n.func)
        return n

    def visit_ListComp(self, n):
        return self._comp(n, "vc__listcomp", ast.ListComp)

    def visit_GeneratorExp(self, n):
        return self._comp(n, "vc__genexp", ast.ListComp)

    def _comp(self, n, helper, cls):
        first = n.generators[0]
        if self.depth == 0 or first.is_async or _contains([n], lambda x: _zero_super(x) or _yieldish(x)):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        first = n.generators[0]
        src = first.iter
        inner = cls(
            elt=n.elt,
            generators=[
                ast.comprehension(
                    target=first.target,
                    iter=ast.Tuple([ast.Name("vc__it", ast.Load())], ast.Load()),
                    ifs=first.ifs,
                    is_async=0,
                )
            ]
            + n.generators[1:],
        )
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg("vc__it")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=inner,
        )
        return ast.copy_location(ast.Call(ast.Name(helper, ast.Load()), [lam, src], []), n)

    def visit_For(self, n):
        if self.depth == 0 or n.orelse or _contains(n.body, lambda x: _zero_super(x) or _yieldish(x)):
            self.generic_visit(n)
            return n
        names = _Names()
        for s in n.body:
            names.visit(s)
        names.visit(n.target)
        if names.bad:
            self.generic_visit(n)
            return n
        self.count += 1
        k = self.count
        body = self._block(n.body)
        it = self.visit(n.iter)
        ex = _Exits()
        body = [ex.visit(b) for b in body]
        nm = sorted(names.names)
        fn = f"vc__body_{k}"
        pre = []
        for v in nm:
            pre.append(
                ast.Try(
                    body=[ast.Expr(ast.Name(v, ast.Load()))],
                    handlers=[
                        ast.ExceptHandler(
                            type=ast.Name("NameError", ast.Load()),
                            name=None,
                            body=[ast.Assign([ast.Name(v, ast.Store())], ast.Name("vc__UNDEF", ast.Load()))],
                        )
                    ],
                    orelse=[],
                    finalbody=[],
                )
            )
        fdef = ast.FunctionDef(
            name=fn,
            args=ast.arguments(posonlyargs=[], args=[ast.arg("vc__item")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[
                ast.Nonlocal(nm),
                ast.Assign([n.target], ast.Name("vc__item", ast.Load())),
                *body,
            ],
            decorator_list=[],
            type_params=[],
        )
        getter = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=ast.Tuple([ast.Name(v, ast.Load()) for v in nm], ast.Load()),
        )
        setname = f"vc__set_{k}"
        sdef = ast.FunctionDef(
            name=setname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg("vc__t")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=[
                ast.Nonlocal(nm),
                ast.Assign([ast.Tuple([ast.Name(v, ast.Store()) for v in nm], ast.Store())], ast.Name("vc__t", ast.Load())),
            ],
            decorator_list=[],
            type_params=[],
        )
        rname = f"vc__r_{k}"
        call = ast.Assign(
            [ast.Name(rname, ast.Store())],
            ast.Call(
                ast.Name("vc__for", ast.Load()),
                [it, ast.Name(fn, ast.Load()), getter, ast.Name(setname, ast.Load())],
                [],
            ),
        )
        out = pre + [fdef, sdef, call]
        if ex.has_ret:
            out.append(
                ast.If(
                    test=ast.Compare(ast.Name(rname, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                    body=[ast.Return(ast.Attribute(ast.Name(rname, ast.Load()), "v", ast.Load()))],
                    orelse=[],
                )
            )
        for s in out:
            ast.copy_location(s, n)
        return out


def transform_source(src, filename):
    tree = ast.parse(src, filename)
    tree = Transform().visit(tree)
    ast.fix_missing_locations(tree)
    return tree


HELPERS = {
    "vc__for": L.for_loop,
    "vc__BRK": L.BRK,
    "vc__Ret": L.Ret,
    "vc__UNDEF": L.UNDEF,
    "vc__listcomp": L.listcomp,
    "vc__genexp": L.genexp,
    **{f"vc__call_{k}": v for k, v in N.CALLS.items()},
    **N.BUILTINS,
}


# models of foreign functions by qualified name
FOREIGN = {}


def foreign(name):
    def deco(f):
        FOREIGN[name] = f
        return f

    return deco


class Loader(importlib.abc.Loader):
    def __init__(self, path, name):
        self.path = path
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        with open(self.path) as f:
            src = f.read()
        SOURCES[self.name] = hashlib.sha256(src.encode()).hexdigest()[:16]
        code = compile(transform_source(src, self.path), self.path, "exec")
        mod.__dict__.update(HELPERS)
        exec(code, mod.__dict__)
        patch_module(mod)


def patch_module(mod):
    import numpy
    import pandas
    from scipy import stats

    g = mod.__dict__
    for k, v in list(g.items()):
        if k.startswith("__") or k.startswith("vc__"):
            continue
        if v is numpy:
            g[k] = N.NP
        elif v is pandas:
            g[k] = N.PD
        elif v is stats.norm:
            g[k] = N.NormProxy(v)
        elif isinstance(v, types.ModuleType):
            continue
        elif isinstance(v, (types.FunctionType, types.BuiltinFunctionType)) and k not in HELPERS:
            m = getattr(v, "__module__", "") or ""
            if m.startswith("doubleml") or m.startswith("vc"):
                continue
            qn = f"{m}.{getattr(v, '__name__', k)}"
            short = getattr(v, "__name__", k)
            g[k] = N.guard(v, qn, FOREIGN.get(short))
        elif isinstance(v, type) and k in CLASSES and not v.__module__.startswith("doubleml"):
            g[k] = _class_switch(v, CLASSES[k])
        elif isinstance(v, numpy.ufunc):
            g[k] = getattr(N.NP, v.__name__)


def _class_switch(real, model):
    """a foreign class whose methods accept symbolic arrays through a model"""

    class Switch(real):
        def __getattribute__(self, a):
            v = super().__getattribute__(a)
            m = model.__dict__.get(a)
            if m is None or a.startswith("__"):
                return v

            def f(*args, **kw):
                if N.any_sym(args, 3) or N.any_sym(kw, 3):
                    return m(self, *args, **kw)
                return v(*args, **kw)

            return f

    Switch.__name__ = real.__name__
    return Switch


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != "doubleml" and not name.startswith("doubleml."):
            return None
        rel = name.split(".")
        base = os.path.join(REPO, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name), submodule_search_locations=[base])
        p = base + ".py"
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, name))
        return None


_installed = False


def install():
    global _installed
    if not _installed:
        sys.meta_path.insert(0, Finder())
        _installed = True


# ---- contracts of foreign functions -----------------------------------------


@foreign("check_X_y")
def _check_X_y(X, y, *a, **k):
    return X, y


@foreign("check_array")
def _check_array(X, *a, **k):
    return X


@foreign("column_or_1d")
def _column_or_1d(y, *a, **k):
    y = Y.lift(y)
    return y if y.ndim == 1 else Y.flatten(y)


@foreign("check_consistent_length")
def _ccl(*a):
    return None


@foreign("clone")
def _clone(est, *a, **k):
    return est


@foreign("cross_val_predict")
def _cvp(estimator, X, y=None, *, cv=None, n_jobs=None, method="predict", **kw):
    """scikit-learn's contract: a fresh clone per split, fitted on the split's
    training rows, predicts the split's test rows."""
    from sklearn.base import clone

    if kw or not isinstance(cv, list):
        raise Unsupported("cross_val_predict with further arguments")
    out = N.NP.full(X.shape[0], N.NP.nan)
    for train, test in cv:
        e = clone(estimator)
        e.fit(X[train, :], y[train])
        p = getattr(e, method)(X[test, :])
        out[test] = p[:, 1] if method == "predict_proba" else p
    if method == "predict_proba":
        return N.NP.column_stack([1 - out, out])
    return out


@foreign("root_mean_squared_error")
def _rmse(a, b):
    return N.NP.sqrt(N.NP.mean((a - b) ** 2))


@foreign("log_loss")
def _log_loss(y, p):
    return -N.NP.mean(y * N.NP.log(p) + (1 - y) * N.NP.log(1 - p))


class _LabelEncoder:
    """identity on 0/1 labels"""

    def fit_transform(self, y):
        if not (_type_of_target(y) == "binary"):
            raise Unsupported("LabelEncoder on labels other than 0/1")
        N.USED.add("sklearn LabelEncoder on 0/1 labels")
        return N.NP.where(y, 1, 0) if Y.lift(y).kind == "b" else y


CLASSES = {"LabelEncoder": _LabelEncoder}


@foreign("assert_all_finite")
def _aaf(*a, **k):
    return None


@foreign("deepcopy")
def _deepcopy(x, memo=None):
    import copy

    return copy.deepcopy(x)


@foreign("warn")
def _warn(*a, **k):
    return None


class _Kind(str):
    """type_of_target of a symbolic array: "binary" exactly when at most two
    distinct integral values occur; only the comparison with "binary" is modelled
    (true for 0/1 arrays, otherwise an arbitrary truth value per call)."""

    def __new__(cls, b):
        o = super().__new__(cls, "?")
        o.b = b
        return o

    def __eq__(self, other):
        if other == "binary":
            return Y.wrap(self.b)
        raise Unsupported(f"type_of_target compared with {other!r}")

    def __ne__(self, other):
        from . import terms as T

        return Y.wrap(T.bnot(Y._b_of(self == other)))

    __hash__ = str.__hash__


@foreign("type_of_target")
def _type_of_target(x, *a, **k):
    from . import solver as S
    from . import terms as T

    th = Y.st().theory
    x = Y.lift(x)
    idx, facts = [], []
    for d in x.dims:
        i = T.fresh("i")
        facts += [T.le(T.ZERO, i), T.lt(i, d.n)] + ([d.mask(i)] if d.mask is not None else [])
        idx.append(i)
    t2 = th.copy()
    for f in facts:
        t2.add(f)
    v = x.fn(*idx)
    if isinstance(v, T.B):
        return _Kind(T.TRUE)
    else:
        zo = T.bor(T.eq(v, T.ZERO), T.eq(v, T.ONE))
        if S.prove(t2, zo, depth=1, timeout=3000, signs=False).ok:
            return _Kind(T.TRUE)
    return _Kind(T.pred(str(T.show_b(T.eq(T.fresh("kind"), T.ZERO)))))
