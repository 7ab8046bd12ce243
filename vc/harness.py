"""Contracts: one text, two readings.

A contract is a Python function `h(c)` that introduces inputs, states
preconditions (`c.assume`), runs the repository's function(s) and states
postconditions (`c.eq`, `c.true`, `c.raises`).

* SymCtx: inputs are symbolic (sizes included); every path of the repository's
  code is executed and each postcondition becomes a verification condition that
  must be discharged for all inputs.
* ConcCtx (conc.py, real package, real numpy): inputs are drawn at random; used
  to replay/confirm failed obligations and as a labelled bounded stand-in.
"""
import contextlib
import importlib
import inspect
import itertools
import time
import traceback

from .errors import ObligationFailed, SkipSample, TargetMissing

REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, targets, mode, samples, note, stubs, conc_only_note, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.targets = targets
        self.mode = mode  # "proof" | "bounded"
        self.samples = samples
        self.note = note
        self.stubs = stubs
        self.why_bounded = conc_only_note
        self.weight = weight

    @property
    def key(self):
        return f"{self.prop}:{self.name}"


def contract(prop, name=None, targets=(), mode="proof", samples=24, note="", stubs=(), why_bounded="", weight=1):
    """Declare a contract harness for property `prop`."""

    def deco(fn):
        nm = name or fn.__name__
        c = Contract(prop, nm, fn, list(targets), mode, samples, note, list(stubs), why_bounded, weight)
        if c.key in REGISTRY:
            raise RuntimeError(f"duplicate contract {c.key}")
        REGISTRY[c.key] = c
        return fn

    return deco


class Base:
    symbolic = False

    def __init__(self):
        self.stack = contextlib.ExitStack()
        self.trace = []
        self.names = set()

    # -- plumbing shared by both modes
    def patch(self, obj, name, val):
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name, missing)
        if old is missing and not hasattr(obj, name):
            raise TargetMissing(f"{getattr(obj, '__name__', obj)}.{name}")
        setattr(obj, name, val)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

        self.stack.callback(undo)

    def target(self, obj, name=None):
        """The repository's function under contract; absence is not a violation."""
        if name is None:
            mod, name = obj.rsplit(".", 1)
            try:
                obj = importlib.import_module(mod)
            except ImportError:
                raise TargetMissing(f"{mod}.{name}") from None
        try:
            return getattr(obj, name)
        except AttributeError:
            raise TargetMissing(f"{getattr(obj, '__name__', type(obj).__name__)}.{name}") from None

    def call(self, obj, name, *args, **kw):
        f = self.target(obj, name)
        try:
            sig = inspect.signature(inspect.unwrap(f))
            sig.bind(*args, **kw)
        except TypeError as e:
            raise TargetMissing(f"{name}: signature changed ({e})") from None
        except ValueError:
            pass
        return f(*args, **kw)

    def quiet(self):
        import warnings

        warnings.simplefilter("ignore")

    def close(self):
        self.stack.close()


# ---------------------------------------------------------------- symbolic mode


class SymCtx(Base):
    symbolic = True

    def __init__(self, key, results, opts):
        super().__init__()
        from . import npmodel as N

        self.key = key
        self.results = results
        self.opts = opts
        self.np = N.NP
        self.choices = []
        self.reach_checked = False

    # -- inputs
    def n(self, name, lo=1, hi=None):
        from . import sym as Y
        from . import terms as T

        v = T.var(name, "I")
        Y.assume(T.le(T.C(lo), v))
        if hi is not None:
            Y.assume(T.le(v, T.C(hi)))
        return Y.SNum(v, True)

    def int(self, name, lo=None, hi=None):
        from . import sym as Y
        from . import terms as T

        v = T.var(name, "I")
        if lo is not None:
            Y.assume(T.le(Y.num(lo), v))
        if hi is not None:
            Y.assume(T.le(v, Y.num(hi)))
        return Y.SNum(v, True)

    def real(self, name, lo=None, hi=None, strict=True):
        from . import sym as Y
        from . import terms as T

        v = T.var(name, "R")
        cmp = T.lt if strict else T.le
        if lo is not None:
            Y.assume(cmp(Y.num(lo), v))
        if hi is not None:
            Y.assume(cmp(v, Y.num(hi)))
        return Y.SNum(v, False)

    def bool(self, name):
        from . import sym as Y
        from . import terms as T

        return Y.SBool(T.pred(name))

    def arr(self, name, *dims, kind="real", lo=None, hi=None):
        from . import sym as Y
        from . import terms as T

        s = Y.st()
        ds = [Y.Dim(Y.num(d)) for d in dims]
        if kind == "bool":
            return Y.SArr(ds, lambda *i: T.pred(name, *i), "b")
        sort = "R"
        if kind in ("binary", "int", "ints"):
            sort = "I"
        if kind == "binary":
            # 0/1-valued arrays are indicators of an arbitrary predicate
            return Y.SArr(ds, lambda *i: T.ind(T.pred(name, *i)), "f")
        declare = lambda f: s.theory.schema(name, lambda *i: T.without_ranges(f, *i))  # noqa: E731
        if kind == "unit":
            T.declare_range(name, 0, 1, strict=True)
            declare(lambda *i: T.band(T.lt(T.ZERO, T.app(name, *i)), T.lt(T.app(name, *i), T.ONE)))
        elif kind == "pos":
            T.declare_range(name, 0, strict=True)
            declare(lambda *i: T.lt(T.ZERO, T.app(name, *i)))
        elif kind == "nonneg":
            T.declare_range(name, 0)
            declare(lambda *i: T.le(T.ZERO, T.app(name, *i)))
        elif kind not in ("real", "int", "ints"):
            raise ValueError(kind)
        for side, v in (("lo", lo), ("hi", hi)):
            if isinstance(v, (int, float)):
                T.declare_range(name, **{side: Y.num(v).const()})
        if lo is not None:
            declare(lambda *i: T.le(Y.num(lo), T.app(name, *i, sort=sort)))
        if hi is not None:
            declare(lambda *i: T.le(T.app(name, *i, sort=sort), Y.num(hi)))
        # integer-valued data arrive as float arrays unless kind="ints"
        return Y.SArr(ds, lambda *i: T.app(name, *i, sort=sort), "i" if kind == "ints" else "f")

    def labels(self, name, n, vals):
        """label variable taking exactly the given values, each at least once"""
        from . import sym as Y
        from . import terms as T

        s = Y.st()
        vals = list(vals)
        s.labels = getattr(s, "labels", {})
        s.labels[name] = vals
        ap = lambda *i: T.app(name, *i, sort="I")  # noqa: E731
        s.theory.schema(name, lambda *i: T.bor(*[T.eq(ap(*i), Y.num(v)) for v in vals]))
        a = Y.SArr((Y.Dim(Y.num(n)),), ap, "f")
        for v in vals:
            Y.assume(T.lt(T.ZERO, T.mk_sum(Y.num(n), lambda k: T.ind(T.eq(ap(k), Y.num(v))))))
        return a

    def clusters(self, name, n, G):
        """cluster variable with an arbitrary number G of clusters.  Symbolic reading: the labels
        are 0..G-1 in any arrangement (each occurs); concrete reading: arbitrary labels."""
        from . import sym as Y
        from . import terms as T

        s = Y.st()
        G = Y.num(G)
        s.labels = getattr(s, "labels", {})
        s.labels[name] = G
        ap = lambda *i: T.app(name, *i, sort="I")  # noqa: E731
        s.theory.schema(name, lambda *i: T.band(T.le(T.ZERO, ap(*i)), T.lt(ap(*i), G)))
        Y.assume(T.le(G, Y.num(n)))
        return Y.SArr((Y.Dim(Y.num(n)),), ap, "f")

    def choice(self, name, options):
        from . import sym as Y

        d = Y.choose(len(options))
        self.choices.append(f"{name}={options[d]!r}"[:60])
        return options[d]

    def perm(self, name, n):
        """an arbitrary permutation of range(n) (as an index array)"""
        from . import sym as Y
        from . import terms as T

        raise NotImplementedError

    def partition(self, name, n, k):
        """list of k (train, test) index pairs: test sets partition range(n)."""
        from . import sym as Y
        from . import terms as T

        s = Y.st()
        kp, np_ = Y.num(k), Y.num(n)
        s.theory.schema(
            name, lambda i: T.band(T.le(T.ZERO, T.app(name, i, sort="I")), T.lt(T.app(name, i, sort="I"), kp))
        )

        if kp.const() == 2:
            # both folds in terms of one literal (the schema makes f = 1 the negation of f = 0)
            def pair(j):
                z = lambda i: T.eq(T.app(name, i, sort="I"), T.ZERO)  # noqa: E731
                o = lambda i: T.bnot(z(i))  # noqa: E731
                te, tr = (z, o) if j == T.ZERO else (o, z)
                return tuple(Y.SArr((Y.Dim(np_, m),), lambda i: i, "i") for m in (tr, te))

            return [pair(T.C(j)) for j in range(2)]

        if kp.const() == 3:
            # likewise: the last fold is what the others leave over
            def mask(j):
                z = lambda k: (lambda i: T.eq(T.app(name, i, sort="I"), T.C(k)))  # noqa: E731
                if j == 0:
                    return z(0)
                return lambda i: T.band(T.bnot(z(0)(i)), z(1)(i) if j == 1 else T.bnot(z(1)(i)))

            def pair3(j):
                te = mask(j)
                tr = lambda i: T.bnot(te(i))  # noqa: E731
                return tuple(Y.SArr((Y.Dim(np_, m),), lambda i: i, "i") for m in (tr, te))

            return [pair3(j) for j in range(3)]

        def pair(j):
            tr = Y.SArr((Y.Dim(np_, lambda i: T.bnot(T.eq(T.app(name, i, sort="I"), j))),), lambda i: i, "i")
            te = Y.SArr((Y.Dim(np_, lambda i: T.eq(T.app(name, i, sort="I"), j)),), lambda i: i, "i")
            return (tr, te)

        c = kp.const()
        if c is not None:
            return [pair(T.C(j)) for j in range(int(c))]
        return Y.SList(kp, pair)

    def folds(self, name, n, k):
        from . import sym as Y
        from . import terms as T

        kp, np_ = Y.num(k), Y.num(n)
        return Y.SArr((Y.Dim(np_),), lambda i: T.app(name, i, sort="I"), "i")

    def sel(self, name, n):
        """an arbitrary subset of range(n) as a sorted index array"""
        from . import sym as Y
        from . import terms as T

        return Y.SArr((Y.Dim(Y.num(n), lambda i: T.pred(name, i)),), lambda i: i, "i")

    def fun(self, name, *args):
        """application of an uninterpreted real function (same text both modes)"""
        from . import sym as Y
        from . import terms as T

        return Y.wrap(T.app(name, *[Y.num(a) for a in args]), np_=False)

    def table(self, dims, f):
        """array with entries f(i, j, ...) (f works on integer scalars)"""
        from . import sym as Y

        ds = [Y.Dim(Y.num(d)) for d in dims]

        def fn(*idx):
            v = self._under(idx, [d.n for d in ds], f)
            return Y.lift(v).fn()

        probe_kind = "f"
        return Y.SArr(ds, Y._memo(fn), probe_kind)

    def lst(self, n, f):
        from . import sym as Y
        from . import terms as T

        c = Y.num(n).const()
        if c is not None:
            return [f(j) for j in range(int(c))]
        return Y.SList(Y.num(n), lambda k: f(Y.SNum(k, True)))

    def assume(self, cond):
        from . import sym as Y
        from . import terms as T

        b = Y._b_of(cond)
        if b is T.FALSE:
            raise Y.PathEnd()
        Y.assume(b)

    def axiom(self, fname, f):
        """instance-wise fact about array/function `fname`"""
        from . import sym as Y

        Y.st().theory.schema(fname, lambda *i: Y._b_of(f(*[Y.wrap(x, np_=False) for x in i])))

    def _under(self, idx, dims, f):
        """evaluate f under the facts 0 <= idx < dims (restored afterwards)"""
        from . import sym as Y
        from . import terms as T

        th = Y.st().theory
        old = list(th.facts)
        for i, n in zip(idx, dims):
            th.add(T.le(T.ZERO, i))
            th.add(T.lt(i, n))
        try:
            return f(*[Y.SNum(i, True) for i in idx])
        finally:
            th.facts[:] = old

    def forall(self, n, f):
        from . import sym as Y
        from . import terms as T

        n = Y.num(n)
        return Y.wrap(T.mk_all(n, lambda k: Y._b_of(self._under((k,), (n,), f))))

    def exists(self, n, f):
        from . import sym as Y
        from . import terms as T

        n = Y.num(n)
        return Y.wrap(T.mk_any(n, lambda k: Y._b_of(self._under((k,), (n,), f))))

    def sum(self, n, f):
        from . import sym as Y
        from . import terms as T

        n = Y.num(n)
        return Y.wrap(T.mk_sum(n, lambda k: Y.num(self._under((k,), (n,), f))))

    def ite(self, c, a, b):
        return self.np.where(c, a, b)

    def land(self, *xs):
        from . import sym as Y
        from . import terms as T

        return Y.wrap(T.band(*[Y._b_of(x) for x in xs]))

    def lor(self, *xs):
        from . import sym as Y
        from . import terms as T

        return Y.wrap(T.bor(*[Y._b_of(x) for x in xs]))

    def lnot(self, x):
        from . import sym as Y
        from . import terms as T

        return Y.wrap(T.bnot(Y._b_of(x)))

    def implies(self, a, b):
        return self.lor(self.lnot(a), b)

    def split(self, cond):
        """case distinction (explores both cases)"""
        return bool(cond)

    def arr2d(self, x):
        return x

    def frame(self, arr, columns, index=None):
        """a DataFrame over the array"""
        from . import npmodel as N

        return N.SFrame(arr, list(columns), index)

    # -- outputs
    def _record(self, label, res, extra=""):
        self.results.append(
            dict(
                label=label,
                choices=list(self.choices),
                ok=res.ok,
                status=res.status,
                backend=res.backend,
                secs=res.secs,
                reason=(res.reason or "") + extra,
                model=res.model,
                smt=res.smt if self.opts.get("keep_smt") else None,
            )
        )
        if not res.ok and self.opts.get("verbose"):
            print("   FAILED", label, self.choices, res.status, res.reason, extra)

    def _prove(self, label, goal, facts=(), idx=()):
        from . import solver as S
        from . import sym as Y
        from . import terms as T

        th = Y.st().theory
        if facts:
            th = th.copy()
            for f in facts:
                th.add(f)
        if not self.reach_checked:
            self.reach_checked = True
            r = S.prove(Y.st().theory, T.FALSE, depth=0, timeout=150, signs=False)
            if r.ok:
                # contradictory path: contributes nothing
                raise Y.PathEnd()
        r = S.prove(th, goal, depth=self.opts.get("depth", 3), timeout=self.opts.get("timeout", 20000), want_model=True, idx=idx)
        self._record(label, r, "" if r.ok else f" goal: {T.show_b(goal)[:600]}")
        return r.ok

    def true(self, label, cond):
        from . import sym as Y

        if type(cond) is Y.SArr:
            from . import npmodel as N

            idx, facts = self._skolem(cond)
            return self._prove(label, Y.tob(cond.fn(*idx)), facts, idx)
        return self._prove(label, Y._b_of(cond))

    def _skolem(self, a):
        from . import sym as Y
        from . import terms as T

        idx, facts = [], []
        for d in a.dims:
            k = T.fresh("i")
            c = d.n.const()
            facts.append(T.le(T.ZERO, k))
            facts.append(T.lt(k, d.n))
            if d.mask is not None:
                facts.append(d.mask(k))
            idx.append(k)
        return idx, facts

    def eq(self, label, a, b):
        from . import solver as S
        from . import sym as Y
        from . import terms as T

        A, Bv = Y.lift(a), Y.lift(b)
        if A.ndim != Bv.ndim or not all(Y.same_dim(x, y) for x, y in zip(A.dims, Bv.dims)):
            res = S.Result(False, "sat", "shape", 0.0, reason=f"shapes differ: {A.dims} vs {Bv.dims}")
            self._record(label, res)
            return False
        # small concrete dims are enumerated, symbolic dims are skolemised
        choices = []
        for d in A.dims:
            c = d.const()
            choices.append([T.C(j) for j in range(c)] if c is not None and c <= 16 else [None])
        ok = True
        for combo in itertools.product(*choices):
            idx, facts = [], []
            for d, c in zip(A.dims, combo):
                if c is not None:
                    idx.append(c)
                    continue
                k = T.fresh("i")
                facts += [T.le(T.ZERO, k), T.lt(k, d.n)]
                if d.mask is not None:
                    facts.append(d.mask(k))
                idx.append(k)
            x, y = A.fn(*idx), Bv.fn(*idx)
            if isinstance(x, T.B) or isinstance(y, T.B):
                goal = T.biff(Y.tob(x), Y.tob(y))
            elif T.has_nan(x) or T.has_nan(y):
                nx, ny = T.isnan(x), T.isnan(y)
                if not self._prove(label + "/nan", T.biff(nx, ny), facts, idx):
                    ok = False
                    continue
                lit = T.bnot(nx)
                if lit is T.FALSE:
                    continue
                x, y = Y._under(x, lit), Y._under(y, lit)
                facts = facts + [lit]
                goal = T.eq(x, y)
            else:
                goal = T.eq(x, y)
            lab = label if len(A.dims) == 0 or combo == (None,) * len(combo) else f"{label}[{','.join('*' if c is None else T.show(c) for c in combo)}]"
            ok = self._prove(lab, goal, facts, [i for i in idx if i.const() is None]) and ok
        return ok

    def le(self, label, a, b):
        return self.true(label, a <= b)

    def same(self, label, a, b):
        """plain Python equality of concrete values"""
        from . import solver as S

        ok = bool(a == b)
        self._record(label, S.Result(ok, "valid" if ok else "sat", "concrete-evaluation", 0.0, reason="" if ok else f"{a!r} != {b!r}"[:300]))
        return ok

    def fail(self, label, why):
        from . import solver as S

        self._record(label, S.Result(False, "sat", "path", 0.0, reason=why))

    def ok(self, label):
        from . import solver as S
        from . import terms as T

        # reaching this point on every feasible path is the obligation
        self._record(label, S.Result(True, "valid", "path", 0.0))

    def raises(self, label, exc, f, *args, **kw):
        try:
            f(*args, **kw)
        except exc:
            self.ok(label)
            return True
        self.fail(label, "no exception raised")
        return False


def run_symbolic(con, opts):
    """Explore every path of the contract.  -> dict"""
    from . import npmodel as N
    from . import sym as Y
    from . import solver as S
    from . import terms as T
    from .terms import Unsupported

    t0 = time.time()
    results = []
    out = dict(key=con.key, results=results, unsupported=[], missing=[], exceptions=[], paths=0)
    pending = [[]]
    budget = opts.get("budget", 240)
    while pending:
        if time.time() - t0 > budget:
            out["unsupported"].append("time budget exhausted before every path was explored")
            break
        prefix = pending.pop()
        s = Y.State(prefix)
        Y.set_state(s)
        c = SymCtx(con.key, results, opts)
        mark = len(results)
        try:
            con.fn(c)
            out["paths"] += 1
        except Y.PathEnd:
            pass
        except TargetMissing as e:
            out["missing"].append(str(e))
        except Unsupported as e:
            out["unsupported"].append(f"{e} {c.choices}" + (("\n" + traceback.format_exc()) if opts.get("verbose") else ""))
        except Exception as e:  # noqa: BLE001
            r = S.prove(s.theory, T.FALSE, depth=0, timeout=3000, signs=False)
            if not r.ok:
                tb = traceback.extract_tb(e.__traceback__)
                repo = [f"{f.filename}:{f.lineno}" for f in tb if "/doubleml/" in f.filename]
                out["exceptions"].append(
                    dict(type=type(e).__name__, msg=str(e)[:300], where=repo[-1:] or [str(tb[-1])[:200]], choices=c.choices,
                         tb=traceback.format_exc()[-2500:])
                )
        finally:
            c.close()
            Y.set_state(None)
        pending.extend(s.pending)
        if out["paths"] > 3000:
            out["unsupported"].append("too many paths")
            break
    out["secs"] = time.time() - t0
    out["used"] = sorted(N.USED)
    return out
