"""Concrete reading of the contracts: the real package on random inputs."""
import random
import time
import traceback
import zlib

import numpy as np

from .errors import ObligationFailed, SkipSample, TargetMissing
from .harness import Base


class ConcCtx(Base):
    symbolic = False

    def __init__(self, seed, forced=None, hist=None, picked=None, soft=()):
        """hist: how often each option was taken so far (shared by the samples of one contract); picked: options to
        take, when a recorded sample is replayed; soft: labels of known findings, recorded without ending the sample"""
        super().__init__()
        self.hist = {} if hist is None else hist
        self.replayed = list(picked or [])
        self.picked = []
        self.soft = tuple(soft)
        self.soft_failures = []
        self.rng = np.random.default_rng(seed)
        self.np = np
        self.inputs = {}
        self.choices = []
        self.checked = 0
        self.forced = forced or {}
        self.seed = seed
        self.funs = {}

    def _log(self, name, v):
        self.inputs[name] = v
        return v

    def n(self, name, lo=1, hi=None):
        lo = int(lo)
        top = lo + 7 if hi is None else min(int(hi), lo + 7)
        return self._log(name, int(self.rng.integers(lo, top + 1)))

    def int(self, name, lo=None, hi=None):
        lo_ = -4 if lo is None else int(lo)
        hi_ = lo_ + 8 if hi is None else int(hi)
        if hi_ < lo_:
            raise SkipSample()
        return self._log(name, int(self.rng.integers(lo_, hi_ + 1)))

    def real(self, name, lo=None, hi=None, strict=True):
        if lo is not None and hi is not None:
            v = self.rng.uniform(lo, hi)
        elif lo is not None:
            v = lo + abs(self.rng.normal()) + (1e-3 if strict else 0)
        elif hi is not None:
            v = hi - abs(self.rng.normal()) - (1e-3 if strict else 0)
        else:
            v = self.rng.normal()
        return self._log(name, float(v))

    def bool(self, name):
        return self._log(name, bool(self.rng.integers(0, 2)))

    def arr(self, name, *dims, kind="real", lo=None, hi=None):
        dims = tuple(int(d) for d in dims)
        r = self.rng
        if kind == "bool":
            v = r.integers(0, 2, dims).astype(bool)
        elif kind == "binary":
            v = r.integers(0, 2, dims).astype(float)
        elif kind == "unit":
            v = r.uniform(0.02, 0.98, dims)
            if r.integers(0, 3) == 0:
                v = np.where(r.uniform(size=dims) < 0.3, r.uniform(1e-5, 0.02, dims), v)
                v = np.where(r.uniform(size=dims) < 0.2, 1 - r.uniform(1e-5, 0.02, dims), v)
            v = np.clip(v, 0 if lo is None else lo, 1 if hi is None else hi)
        elif kind == "pos":
            v = np.abs(r.normal(size=dims)) + 0.05
        elif kind == "nonneg":
            v = np.abs(r.normal(size=dims)) * r.integers(0, 2, dims)
        elif kind == "int":
            v = r.integers(0, 4, dims).astype(float) if lo is None else r.integers(int(lo), int(hi) + 1 if hi is not None else int(lo) + 5, dims).astype(float)
        elif kind == "ints":
            v = r.integers(0 if lo is None else int(lo), (4 if hi is None else int(hi)) + 1, dims)
        else:
            v = r.normal(size=dims)
            if lo is not None and hi is not None:
                v = r.uniform(lo, hi, dims)
            elif lo is not None:
                v = lo + np.abs(v)
            elif hi is not None:
                v = hi - np.abs(v)
            elif r.integers(0, 4) == 0:
                v = np.round(v)  # ties
        self._log(name, v.copy())
        return v

    def labels(self, name, n, vals):
        vals = [float(v) for v in vals]
        n = int(n)
        if n < len(vals):
            raise SkipSample()
        v = self.rng.choice(vals, size=n)
        v[self.rng.permutation(n)[: len(vals)]] = vals
        return self._log(name, v)

    def clusters(self, name, n, G):
        n, G = int(n), int(G)
        if n < G:
            raise SkipSample()
        labs = self.rng.choice(np.arange(-20, 60), size=G, replace=False).astype(float)
        if self.rng.integers(0, 2):
            labs = np.arange(G) + 0.0
        return self.labels(name, n, labs)

    def choice(self, name, options):
        if name in self.forced:
            for o in options:
                if f"{name}={o!r}"[:60] == self.forced[name]:
                    self.choices.append(self.forced[name])
                    return o
        if len(self.picked) < len(self.replayed):
            d = self.replayed[len(self.picked)]
        else:
            # the option taken least often after the same earlier choices, then least often overall
            pre = (name,) + tuple(self.picked)
            tie = np.random.default_rng([self.seed, len(self.picked), 77]).permutation(len(options))
            d = min(range(len(options)), key=lambda i: (self.hist.get((pre, i), 0), self.hist.get((name, i), 0), tie[i]))
            for k in ((pre, d), (name, d)):
                self.hist[k] = self.hist.get(k, 0) + 1
        self.picked.append(int(d))
        self.choices.append(f"{name}={options[d]!r}"[:60])
        return options[d]

    def _bad(self, label, detail):
        if any(label.startswith(x) for x in self.soft):
            self.soft_failures.append((label, detail))
            return False
        raise ObligationFailed(label, detail)

    def partition(self, name, n, k):
        f = self.folds_vec(name, n, k)
        return [(np.where(f != j)[0], np.where(f == j)[0]) for j in range(int(k))]

    def folds_vec(self, name, n, k):
        n, k = int(n), int(k)
        f = self.rng.integers(0, k, n)
        if n >= k:
            f[self.rng.permutation(n)[:k]] = np.arange(k)
        self._log(name, f)
        return f

    folds = folds_vec

    def folds(self, name, n, k):
        return self.inputs[name]

    def sel(self, name, n):
        v = np.where(self.rng.integers(0, 2, int(n)))[0]
        return self._log(name, v)

    def fun(self, name, *args):
        key = (name,) + tuple(round(float(a), 9) for a in args)
        if key not in self.funs:
            h = zlib.crc32(repr(key).encode())
            self.funs[key] = float(np.random.default_rng([self.seed, h]).normal())
        return self.funs[key]

    def table(self, dims, f):
        dims = tuple(int(d) for d in dims)
        out = np.zeros(dims)
        for idx in np.ndindex(*dims):
            out[idx] = f(*idx)
        return out

    def lst(self, n, f):
        return [f(k) for k in range(int(n))]

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise SkipSample()

    def axiom(self, fname, f):
        pass

    def forall(self, n, f):
        return all(bool(f(k)) for k in range(int(n)))

    def exists(self, n, f):
        return any(bool(f(k)) for k in range(int(n)))

    def sum(self, n, f):
        return sum((float(f(k)) for k in range(int(n))), 0.0)

    def ite(self, c, a, b):
        return np.where(c, a, b)

    def land(self, *xs):
        return all(bool(x) for x in xs)

    def lor(self, *xs):
        return any(bool(x) for x in xs)

    def lnot(self, x):
        return not bool(x)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def split(self, cond):
        return bool(cond)

    def frame(self, arr, columns, index=None):
        import pandas as pd

        return pd.DataFrame(np.array(arr), columns=list(columns), index=index)

    def true(self, label, cond):
        self.checked += 1
        if not bool(np.all(cond)):
            return self._bad(label, f"condition is false: {cond!r}"[:500])
        return True

    def eq(self, label, a, b, rtol=1e-6, atol=1e-8):
        self.checked += 1
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return self._bad(label, f"shapes differ: {x.shape} vs {y.shape}")
        if x.dtype == object or y.dtype == object or x.dtype.kind in "US":
            ok = bool(np.all(x == y))
        else:
            x, y = x.astype(float), y.astype(float)
            with np.errstate(all="ignore"):
                scale = np.nanmax(np.abs(y)) if y.size and np.isfinite(y).any() else 1.0
                ok = np.allclose(x, y, rtol=rtol, atol=atol * max(1.0, scale if np.isfinite(scale) else 1.0), equal_nan=True)
        if not ok:
            return self._bad(label, f"got {x!r} expected {y!r}"[:1500])
        return True

    def le(self, label, a, b):
        return self.true(label, np.asarray(a) <= np.asarray(b) + 1e-9)

    def same(self, label, a, b):
        self.checked += 1
        if not bool(a == b):
            return self._bad(label, f"{a!r} != {b!r}"[:800])
        return True

    def fail(self, label, why):
        return self._bad(label, why)

    def ok(self, label):
        self.checked += 1

    def raises(self, label, exc, f, *args, **kw):
        try:
            f(*args, **kw)
        except exc:
            self.checked += 1
            return True
        return self._bad(label, "no exception raised")


def describe(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, threshold=60, precision=17, separator=", ")
    return repr(v)


def run_concrete(con, samples, seed, budget=60.0, forced=None, keep=2, want_fail=1, soft=()):
    """Run a contract on the real package.  -> dict"""
    import warnings

    t0 = time.time()
    out = dict(key=con.key, ran=0, skipped=0, checked=0, failures=[], errors=[], missing=[], samples=[], distinct=0)
    seen, soft_seen, hist = set(), set(), {}
    tries = 0
    while out["ran"] < samples and tries < samples * 8 and time.time() - t0 < budget:
        tries += 1
        sd = seed * 1000003 + tries
        c = ConcCtx(sd, forced, hist, soft=soft)
        random.seed(sd)
        np.random.seed(sd % (2**32))
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                con.fn(c)
            out["ran"] += 1
        except SkipSample:
            out["skipped"] += 1
            continue
        except TargetMissing as e:
            out["missing"].append(str(e))
            break
        except ObligationFailed as e:
            out["ran"] += 1
            out["failures"].append(dict(label=e.label, detail=e.detail, seed=sd, choices=c.choices, picked=c.picked, inputs={k: describe(v) for k, v in c.inputs.items()}))
        except Exception as e:  # noqa: BLE001
            out["ran"] += 1
            out["failures"].append(
                dict(label="no-unexpected-exception", detail=f"{type(e).__name__}: {e}"[:500], seed=sd, choices=c.choices, picked=c.picked,
                     inputs={k: describe(v) for k, v in c.inputs.items()}, tb=traceback.format_exc()[-2500:])
            )
        finally:
            c.close()
        for label, detail in c.soft_failures:
            if label not in soft_seen:
                soft_seen.add(label)
                out.setdefault("known", []).append(dict(label=label, detail=detail, seed=sd, choices=c.choices, picked=c.picked, inputs={k: describe(v) for k, v in c.inputs.items()}))
        out["checked"] += c.checked
        sig = (tuple(c.choices), tuple(sorted((k, describe(v)) for k, v in c.inputs.items())), 0 if c.inputs or c.choices else sd)
        if c.checked and sig not in seen:
            seen.add(sig)
        if len(out["samples"]) < keep and c.checked:
            out["samples"].append(dict(seed=sd, choices=c.choices, inputs={k: describe(v)[:200] for k, v in list(c.inputs.items())[:6]}))
        if len(out["failures"]) >= want_fail:
            break
    out["distinct"] = len(seen)
    out["secs"] = time.time() - t0
    return out
