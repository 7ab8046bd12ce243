"""Hash-consed logical terms used by the VC generator.

Real/int terms are kept in a canonical Laurent-polynomial form over *atoms*
(variables, uninterpreted applications, indicators of formulas, finite sums,
medians, roots, inverses of multi-term polynomials).  Formulas are
and/or/not over atoms `p <= 0`, `p == 0` and uninterpreted predicates.

Semantics: real arithmetic (mathematical, no rounding); division is total on
its domain (denominators are assumed non-zero, which is listed as an
assumption in the evidence); NAN is a distinguished symbol.
"""
from fractions import Fraction
import itertools
import math


class Unsupported(Exception):
    """The construct is outside the verified subset (never a violation by itself)."""


_ids = itertools.count()
_table = {}


class Atom:
    __slots__ = ("id", "kind", "data", "sort", "fv", "h", "key")

    def __repr__(self):
        return show_atom(self)


def _intern(kind, data, sort, fv, h):
    key = (kind, data)
    a = _table.get(key)
    if a is None:
        a = Atom()
        a.id = next(_ids)
        a.kind = kind
        a.data = data
        a.sort = sort
        a.fv = fv
        a.h = h
        a.key = key
        _table[key] = a
    return a


EMPTY = frozenset()


class Poly:
    __slots__ = ("d", "_h", "_fv", "_hh", "_int")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._fv = None
        self._hh = None
        self._int = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and (self is o or (hash(self) == hash(o) and self.d == o.d))

    def __repr__(self):
        return show(self)

    @property
    def fv(self):
        if self._fv is None:
            s = EMPTY
            for m in self.d:
                for a, _ in m:
                    s = s | a.fv
            self._fv = s
        return self._fv

    @property
    def h(self):
        if self._hh is None:
            self._hh = max([a.h for m in self.d for a, _ in m], default=0)
        return self._hh

    def const(self):
        """Fraction if constant else None."""
        if not self.d:
            return Fraction(0)
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None

    def is_int(self):
        if self._int is None:
            self._int = all(
                c.denominator == 1 and all(a.sort == "I" and e > 0 for a, e in m) for m, c in self.d.items()
            )
        return self._int


def C(x):
    f = to_frac(x)
    return Poly({(): f}) if f != 0 else ZERO


def to_frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if math.isnan(x) or math.isinf(x):
            raise Unsupported(f"non-finite constant {x}")
        x = float(x)
        # constants are read as the decimal they stand for (14 digits)
        f = Fraction(format(x, ".14g"))
        g = f.limit_denominator(1000)
        if g != f and abs(float(g) - x) <= 1e-14 * abs(x):
            return g
        return f
    try:
        import numpy as np

        if isinstance(x, np.bool_):
            return Fraction(int(x))
        if isinstance(x, np.integer):
            return Fraction(int(x))
        if isinstance(x, np.floating):
            return to_frac(float(x))
    except ImportError:
        pass
    raise Unsupported(f"cannot convert {type(x)} to a term")


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def atom_poly(a):
    return Poly({((a, 1),): Fraction(1)})


def var(name, sort="R", bound=False):
    """A free variable.  Variables that may be abstracted (indices) are tracked in fv."""
    a = _intern("var", name, sort, None, 0)
    if a.fv is None:
        a.fv = frozenset([a])
    return atom_poly(a)


NAN_ATOM = _intern("nan", "nan", "R", EMPTY, 0)
NAN = atom_poly(NAN_ATOM)


def has_nan(p):
    return any(a is NAN_ATOM for m in p.d for a, _ in m)


def app(name, *args, sort="R"):
    args = tuple(as_poly(x) for x in args)
    fv = EMPTY
    for x in args:
        fv = fv | x.fv
    return atom_poly(_intern("app", (name, args), sort, fv, max([x.h for x in args], default=0)))


def as_poly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, B):
        return ind(x)
    return C(x)


# ---------------------------------------------------------------- formulas


class B:
    __slots__ = ("op", "args", "fv", "h", "id")

    def __repr__(self):
        return show_b(self)


_btable = {}
_bids = itertools.count()


def _b(op, args):
    key = (op, args)
    b = _btable.get(key)
    if b is None:
        b = B()
        b.op = op
        b.args = args
        b.id = next(_bids)
        fv = EMPTY
        h = 0
        if op in ("le", "eq"):
            fv, h = args[0].fv, args[0].h
        elif op == "pred":
            for x in args[1]:
                fv = fv | x.fv
                h = max(h, x.h)
        elif op == "any":
            fv, h = args[2], args[3]
        else:
            for x in args:
                fv = fv | x.fv
                h = max(h, x.h)
        b.fv = fv
        b.h = h
        _btable[key] = b
    return b


TRUE = _b("true", ())
FALSE = _b("false", ())


def pred(name, *args):
    return _b("pred", (name, tuple(as_poly(x) for x in args)))


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _b("not", (a,))


def band(*xs):
    out = []
    seen = set()
    stack = list(xs)
    stack.reverse()
    while stack:
        x = stack.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == "and":
            stack.extend(reversed(x.args))
            continue
        if x.id not in seen:
            if bnot(x).id in seen:
                return FALSE
            seen.add(x.id)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return _b("and", tuple(out))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bimp(a, b):
    return bor(bnot(a), b)


def bxor(a, b):
    return bor(band(a, bnot(b)), band(bnot(a), b))


def biff(a, b):
    return bnot(bxor(a, b))


def _lead(p):
    # deterministic leading monomial
    m = max(p.d, key=lambda m: (len(m), tuple((a.id, e) for a, e in m)))
    return m


def _truth_table(p, test):
    """p over indicator atoms only -> formula or None."""
    ats = []
    for m in p.d:
        for a, e in m:
            if a.kind != "ind" or e < 0:
                return None
            if a not in ats:
                ats.append(a)
    if len(ats) > 4:
        return None
    res = FALSE
    n = len(ats)
    rows = []
    for bits in itertools.product((0, 1), repeat=n):
        v = Fraction(0)
        env = dict(zip(ats, bits))
        for m, c in p.d.items():
            t = c
            for a, _ in m:
                t *= env[a]
            v += t
        rows.append((bits, test(v)))
    if all(r for _, r in rows):
        return TRUE
    if not any(r for _, r in rows):
        return FALSE
    if n == 1:
        return ats[0].data if rows[1][1] else bnot(ats[0].data)
    for bits, r in rows:
        if r:
            conj = band(*[(a.data if bit else bnot(a.data)) for a, bit in zip(ats, bits)])
            res = bor(res, conj)
    return res


# declared ranges of the input arrays of the current path (name -> [lo, lo strict, hi, hi strict]);
# each entry repeats a schema of the path's theory, so deciding a comparison by it is an equivalence
RANGES = {}


def declare_range(name, lo=None, hi=None, strict=False):
    r = RANGES.setdefault(name, [None, False, None, False])
    if lo is not None and (r[0] is None or lo > r[0]):
        r[0], r[1] = Fraction(lo), strict
    if hi is not None and (r[2] is None or hi < r[2]):
        r[2], r[3] = Fraction(hi), strict


def without_ranges(f, *args):
    """f(*args) with comparisons left undecided: how the facts behind the ranges themselves are stated"""
    global RANGES
    keep, RANGES = RANGES, {}
    try:
        return f(*args)
    finally:
        RANGES = keep


def _by_range(p):
    """k + c*a <= 0 for an element `a` of an array with a declared range: True, False or None"""
    k, c, a = Fraction(0), None, None
    if len(p.d) > 2:
        return None
    for m, v in p.d.items():
        if m == ():
            k = v
        elif a is None and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app":
            c, a = v, m[0][0]
        else:
            return None
    r = RANGES.get(a.data[0]) if a is not None else None
    if r is None:
        return None
    lo, ls, hi, hs = r
    if c < 0:
        lo, ls, hi, hs = hi, hs, lo, ls
    if hi is not None and k + c * hi <= 0:
        return True
    if lo is not None and (k + c * lo > 0 or (ls and k + c * lo == 0)):
        return False
    return None


def le0(p):
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if RANGES:
        t = _by_range(p)
        if t is not None:
            return TRUE if t else FALSE
    if has_nan(p):
        raise Unsupported("comparison with NaN-bearing term")
    t = _truth_table(p, lambda v: v <= 0)
    if t is not None:
        return t
    mx = _max_atom(p)
    if mx is not None:
        a, cf, rest = mx
        fs = [le0(add(rest, scale(x, cf))) for x in a.data[1]]
        return band(*fs) if cf > 0 else bor(*fs)
    k = abs(p.d[_lead(p)])
    if p.is_int():
        k = Fraction(math.gcd(*[int(c) for c in p.d.values()])) if k else k
        const = p.d.get((), Fraction(0))
        rest = [int(c) for m, c in p.d.items() if m != ()]
        g = math.gcd(*rest)
        # g*q + const <= 0  <=> q + ceil(const/g) <= 0
        q = Poly({m: c / g for m, c in p.d.items() if m != ()})
        cc = -((-const) // g) if g else const
        return _b("le", (add(q, C(Fraction(cc))),))
    if k != 1:
        p = scale(p, 1 / k)
    return _b("le", (p,))


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if has_nan(p):
        raise Unsupported("equality with NaN-bearing term")
    t = _truth_table(p, lambda v: v == 0)
    if t is not None:
        return t
    k = p.d[_lead(p)]
    if k != 1:
        p = scale(p, 1 / k)
    if all(a.sort == "I" and e > 0 for m in p.d for a, e in m):
        # integer-valued up to scaling: x + 1/2 == 0 impossible
        den = 1
        for c in p.d.values():
            den = den * c.denominator // math.gcd(den, c.denominator)
        ints = [int(c * den) for m, c in p.d.items() if m != ()]
        g = math.gcd(*ints)
        cst = p.d.get((), Fraction(0)) * den
        if cst.denominator != 1 or (g and int(cst) % g):
            return FALSE
    return _b("eq", (p,))


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    p = sub(a, b)
    if p.is_int():
        return le0(add(p, ONE))
    return bnot(le0(neg(p)))


def eq(a, b):
    return eq0(sub(a, b))


# ---------------------------------------------------------------- ring ops


def add(a, b):
    if not a.d:
        return b
    if not b.d:
        return a
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = x + c
            if x == 0:
                del d[m]
            else:
                d[m] = x
    return Poly(d)


def scale(a, k):
    if k == 0:
        return ZERO
    if k == 1:
        return a
    return Poly({m: c * k for m, c in a.d.items()})


def neg(a):
    if has_nan(a):
        return _nanlift(neg, a)
    return scale(a, Fraction(-1))


def sub(a, b):
    if has_nan(b):
        return _nanlift(sub, a, b)
    return add(a, scale(b, Fraction(-1)))


def strip_nan(p):
    """the value of p where it is not NaN"""
    if not has_nan(p):
        return p
    return Poly({m: c for m, c in p.d.items() if not any(a is NAN_ATOM for a, _ in m)})


def _nanlift(op, *xs):
    """op propagates NaN"""
    c = bor(*[isnan(x) for x in xs])
    if c is TRUE:
        return NAN
    return ite(c, NAN, op(*[strip_nan(x) for x in xs]))


_ALLOWED_TERMS = 20000


def mul(a, b):
    if has_nan(a) or has_nan(b):
        return _nanlift(mul, a, b)
    ca = a.const()
    if ca is not None:
        return scale(b, ca)
    cb = b.const()
    if cb is not None:
        return scale(a, cb)
    return _mul(a, b)


def _mul(a, b):
    if len(a.d) * len(b.d) > _ALLOWED_TERMS:
        raise Unsupported("term too large")
    res = {}
    extra = ZERO
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, rest = _mono_mul(m1, m2)
            c = c1 * c2
            if m is None:
                continue
            if rest is not None:
                extra = add(extra, scale(_mul(Poly({m: Fraction(1)}), rest), c))
                continue
            x = res.get(m)
            if x is None:
                res[m] = c
            else:
                x += c
                if x == 0:
                    del res[m]
                else:
                    res[m] = x
    p = Poly(res)
    if extra.d:
        p = add(p, extra)
    return p


def _mono_mul(m1, m2):
    """-> (mono or None if zero, rest Poly or None)."""
    if not m1:
        return m2, None
    if not m2:
        return m1, None
    d = {}
    for a, e in m1:
        d[a] = e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    rest = None
    inds = []
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        k = a.kind
        if k == "ind":
            e = 1 if e > 0 else -1
            if e > 0:
                inds.append(a)
        elif k == "poly" and e > 0:
            q = power(a.data, e)
            rest = q if rest is None else _mul(rest, q)
            continue
        elif k == "sqrt" and (e >= 2 or e <= -2):
            q, r = divmod(abs(e), 2)
            base = power(a.data, q) if e > 0 else inv(power(a.data, q))
            rest = base if rest is None else _mul(rest, base)
            if r == 0:
                continue
            e = r if e > 0 else -r
        out.append((a, e))
    if len(inds) > 1 and _contradict(inds):
        return None, None
    out.sort(key=lambda t: t[0].id)
    return tuple(out), rest


def _contradict(inds):
    """Two equality atoms p+c1==0 and p+c2==0 with c1 != c2."""
    seen = {}
    for a in inds:
        b = a.data
        if b.op == "eq":
            p = b.args[0]
            c = p.d.get((), Fraction(0))
            key = frozenset((m, k) for m, k in p.d.items() if m != ())
            if key in seen and seen[key] != c:
                return True
            seen[key] = c
    return False


def power(a, n):
    if n < 0:
        return inv(power(a, -n))
    r = ONE
    while n:
        if n & 1:
            r = mul(r, a)
        n >>= 1
        if n:
            a = mul(a, a)
    return r


def inv(p):
    if not p.d:
        raise ZeroDivisionError("division by the zero term")
    if has_nan(p):
        return _nanlift(inv, p)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        q, rest = _mono_mul(tuple((a, -e) for a, e in m), ())
        # push through the multiplication rules (poly/sqrt atoms)
        r = Poly({(): 1 / c})
        for a, e in m:
            if a.kind == "poly":
                r = _mul(r, power(a.data, -e) if e < 0 else Poly({((a, -e),): Fraction(1)}))
            else:
                r = Poly({tuple(sorted(list(mm) + [(a, -e)], key=lambda t: t[0].id)): cc for mm, cc in r.d.items()}) if len(
                    r.d
                ) == 1 else _mul(r, Poly({((a, -e),): Fraction(1)}))
        return r
    # case distinction over indicators: 1/(1{b}*u + (1-1{b})*v) = 1{b}/u + (1-1{b})/v
    inds = []
    for m in p.d:
        for a, e in m:
            if a.kind == "ind" and e == 1 and a not in inds:
                inds.append(a)
    if 0 < len(inds) <= 3:
        b = min(inds, key=lambda a: a.id).data
        p1, p0 = subst(p, {}, {b: TRUE}), subst(p, {}, {b: FALSE})
        if p1.d and p0.d:
            return ite(b, inv(p1), inv(p0))
    # split monomial content
    common = None
    for m in p.d:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            new = {}
            for a in set(common) | set(dm):
                e = min(common.get(a, 0), dm.get(a, 0))
                if e != 0:
                    new[a] = e
            common = new
    common = {a: e for a, e in (common or {}).items() if a.kind not in ("ind",)}
    lead_c = None
    if common:
        cm = tuple(sorted(common.items(), key=lambda t: t[0].id))
        invcm = inv(Poly({cm: Fraction(1)}))
        prim = _mul(p, invcm)
        if len(prim.d) == 1 or any(a.kind == "poly" and e < 0 and (a, e) in cm for m in prim.d for a, e in m):
            return _mul(inv(prim), invcm) if len(prim.d) == 1 else _inv_prim(p)
        return _mul(_inv_fact(prim), invcm)
    return _inv_fact(p)


def _inv_fact(p):
    """1/p, splitting off factors (k + x) for atoms x of degree one"""
    if 4 <= len(p.d) <= 60 and len(p.d) % 2 == 0:
        seen = {}
        for m in p.d:
            for a, e in m:
                seen.setdefault(a, set()).add(e)
        for x in sorted(seen, key=lambda a: a.id):
            if seen[x] != {1} or x.kind == "ind":
                continue
            A, Bc = {}, {}
            for m, c in p.d.items():
                mm = tuple(t for t in m if t[0] is not x)
                (A if len(mm) == len(m) else Bc)[mm] = c
            if len(A) != len(Bc) or set(A) != set(Bc):
                continue
            ks = {A[m] / Bc[m] for m in A}
            if len(ks) == 1:
                k = ks.pop()
                return _mul(inv(Poly(Bc)), inv(Poly({(): k, ((x, 1),): Fraction(1)})))
    return _inv_prim(p)


def poly_sqrt(p):
    """q with q*q == p (polynomial square root), or None"""
    if not 2 < len(p.d) <= 400 or any(a.kind == "ind" or e < 0 for m in p.d for a, e in m):
        return None

    # lexicographic: smallest atom id first, larger exponent first
    def lexlead(d):
        ids = sorted({a.id for m in d for a, e in m})
        best = list(d)
        for i in ids:
            mx = max(next((e for a, e in m if a.id == i), 0) for m in best)
            best = [m for m in best if next((e for a, e in m if a.id == i), 0) == mx]
            if len(best) == 1:
                break
        return best[0]

    m0 = lexlead(p.d)
    c0 = p.d[m0]
    if c0 <= 0 or any(e % 2 for a, e in m0):
        return None
    n, dd = math.isqrt(c0.numerator), math.isqrt(c0.denominator)
    if n * n != c0.numerator or dd * dd != c0.denominator:
        return None
    lm, lc = dict((a, e // 2) for a, e in m0), Fraction(n, dd)
    q = Poly({tuple(sorted(lm.items(), key=lambda t: t[0].id)): lc})
    r = sub(p, _mul(q, q))
    for _ in range(40):
        if not r.d:
            return q
        m = lexlead(r.d)
        ex = dict(m)
        for a, e in lm.items():
            ex[a] = ex.get(a, 0) - e
        if any(e < 0 for e in ex.values()):
            return None
        t = Poly({tuple(sorted(((a, e) for a, e in ex.items() if e), key=lambda t: t[0].id)): r.d[m] / (2 * lc)})
        r = sub(r, _mul(t, add(scale(q, 2), t)))
        q = add(q, t)
    return None


def _inv_prim(p):
    if len(p.d) > 2:
        for k in {abs(c) for m, c in p.d.items() if all(e % 2 == 0 for _, e in m)}:
            rt = poly_sqrt(scale(p, 1 / k))
            if rt is not None:
                i = inv(rt)
                return scale(_mul(i, i), 1 / k)
            break
    k = p.d[_lead(p)]
    q = scale(p, 1 / k)
    at = _intern("poly", q, "R", q.fv, q.h)
    return Poly({((at, -1),): 1 / k})


def div(a, b):
    c = b.const()
    if c is not None:
        if c == 0:
            raise ZeroDivisionError
        return scale(a, 1 / c)
    return mul(a, inv(b))


def ind(b):
    """Indicator 1{b} as a polynomial over indicator atoms."""
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    if b.op == "not":
        return sub(ONE, ind(b.args[0]))
    if b.op == "and":
        r = ONE
        for x in b.args:
            r = _mul(r, ind(x)) if r is not ONE else ind(x)
        return r
    return atom_poly(_intern("ind", b, "I", b.fv, b.h))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    i = ind(c)
    return add(_mul(i, a), _mul(sub(ONE, i), b))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def isnan(p):
    if not has_nan(p):
        return FALSE
    coef = ZERO
    for m, c in p.d.items():
        if any(a is NAN_ATOM for a, _ in m):
            coef = add(coef, Poly({tuple((a, e) for a, e in m if a is not NAN_ATOM): c}))
    return bnot(eq0(coef))


def sqrt(p):
    c = p.const()
    if c is not None:
        if c < 0:
            raise Unsupported("sqrt of negative constant")
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return C(Fraction(n, d))
    if has_nan(p):
        return _nanlift(sqrt, p)
    # pull a square rational content out
    if p.d:
        k = abs(p.d[_lead(p)])
        n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
        if k != 1 and n * n == k.numerator and d * d == k.denominator:
            return scale(sqrt(scale(p, 1 / k)), Fraction(n, d))
    return atom_poly(_intern("sqrt", p, "R", p.fv, p.h))


def pabs(p):
    c = p.const()
    if c is not None:
        return C(abs(c))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if all(_nonneg_atom(a, e) for a, e in m):
            return scale(p, -1) if c < 0 else p
    # canonical orientation: |p| = |-p|
    if p.d[_lead(p)] < 0:
        p = neg(p)
    pos = bnot(le0(p))  # p > 0
    return ite(pos, p, neg(p))


def _nonneg_atom(a, e):
    return e % 2 == 0 or a.kind in ("sqrt", "ind")


def pmax(a, b):
    return ite(le(a, b), b, a)


def pmin(a, b):
    return ite(le(a, b), a, b)


MAXFN = "max*"


def mk_max(xs):
    """maximum of three or more terms (an uninterpreted application with its
    defining facts; comparisons against it are expanded)"""
    seen = {}
    for x in xs:
        a = the_atom_or_none(x)
        for y in a.data[1] if a is not None and a.kind == "app" and a.data[0] == MAXFN else (x,):
            seen[y] = 1
    xs = sorted(seen, key=lambda q: (len(q.d), repr(sorted((tuple((a.id, e) for a, e in m), str(c)) for m, c in q.d.items()))))
    if len(xs) == 1:
        return xs[0]
    if len(xs) == 2:
        return pmax(*xs)
    if all(x.const() is not None for x in xs):
        return C(max(x.const() for x in xs))
    return app(MAXFN, *xs)


def mk_min(xs):
    return neg(mk_max([neg(x) for x in xs]))


def _max_atom(p):
    """(atom, coefficient, rest) when p is linear in exactly one maximum"""
    hit = None
    for m, c in p.d.items():
        for a, e in m:
            if a.kind == "app" and a.data[0] == MAXFN:
                if hit is not None or len(m) != 1 or e != 1:
                    return None
                hit = (a, c, m)
    if hit is None:
        return None
    a, c, m = hit
    return a, c, Poly({k: v for k, v in p.d.items() if k != m})


# ---------------------------------------------------------------- binders

_fresh = itertools.count()


def fresh(prefix="i", sort="I"):
    return var(f"{prefix}!{next(_fresh)}", sort)


def the_atom(p):
    (m, c), = p.d.items()
    (a, e), = m
    return a


def the_atom_or_none(p):
    if len(p.d) != 1:
        return None
    (m, c), = p.d.items()
    return m[0][0] if c == 1 and len(m) == 1 and m[0][1] == 1 else None


def bvar(level):
    return var(f"#{level}", "I")


def _is_free_bvar(a):
    return isinstance(a.data, str) and a.data.startswith("#")


class _Subst:
    def __init__(self, mp, bmap=None):
        self.mp = mp  # Atom -> Poly
        self.keys = frozenset(mp)
        self.bmap = bmap or {}
        self.memo = {}
        self.bmemo = {}
        self.pmemo = {}

    def poly(self, p):
        if not self.bmap and not (p.fv & self.keys):
            return p
        r = self.pmemo.get(p)
        if r is not None:
            return r
        r = ZERO
        for m, c in p.d.items():
            t = Poly({(): c})
            for a, e in m:
                q = self.atom(a)
                if e == 1:
                    t = _mul(t, q)
                elif e > 0:
                    t = _mul(t, power(q, e))
                else:
                    t = _mul(t, inv(power(q, -e)))
            r = add(r, t)
        self.pmemo[p] = r
        return r

    def atom(self, a):
        if a in self.mp:
            return self.mp[a]
        if not self.bmap and not (a.fv & self.keys):
            return atom_poly(a)
        r = self.memo.get(a)
        if r is None:
            r = self._atom(a)
            self.memo[a] = r
        return r

    def _atom(self, a):
        k = a.kind
        if k in ("var", "nan"):
            return atom_poly(a)
        if k == "app":
            name, args = a.data
            return app(name, *[self.poly(x) for x in args], sort=a.sort)
        if k == "ind":
            return ind(self.form(a.data))
        if k == "poly":
            return self.poly(a.data)
        if k == "sqrt":
            return sqrt(self.poly(a.data))
        if k == "sum":
            n, lvl, body = a.data
            return _rebind("sum", self.poly(n), lvl, body, self)
        if k == "fun":
            name, n, lvl, body, params = a.data
            return _rebind("fun", self.poly(n), lvl, body, self, name, tuple(self.poly(x) for x in params))
        raise Unsupported(f"subst {k}")

    def form(self, b):
        if b in self.bmap:
            return self.bmap[b]
        if not self.bmap and not (b.fv & self.keys):
            return b
        r = self.bmemo.get(b.id)
        if r is not None:
            return r
        op = b.op
        if op in ("true", "false"):
            r = b
        elif op == "le":
            r = le0(self.poly(b.args[0]))
        elif op == "eq":
            r = eq0(self.poly(b.args[0]))
        elif op == "pred":
            r = pred(b.args[0], *[self.poly(x) for x in b.args[1]])
        elif op == "not":
            r = bnot(self.form(b.args[0]))
        elif op == "and":
            r = band(*[self.form(x) for x in b.args])
        elif op == "any":
            n, (lvl, body), _, _ = b.args
            i = fresh()
            body2 = _Subst({the_atom(bvar(lvl)): i}).form(body)
            r = mk_any(self.poly(n), lambda j: _Subst({the_atom(i): j}).form(self.form(body2)))
        else:
            raise Unsupported(op)
        self.bmemo[b.id] = r
        return r


def _rebind(kind, n, lvl, body, s, name=None, params=()):
    i = fresh()
    b1 = _Subst({the_atom(bvar(lvl)): i}).poly(body)
    b2 = s.poly(b1)
    if kind == "sum":
        return mk_sum(n, None, ivar=i, body=b2)
    return mk_fun(name, n, None, params, ivar=i, body=b2)


def subst(x, mp, bmap=None):
    """mp: {Poly var -> Poly}"""
    s = _Subst({the_atom(k): v for k, v in mp.items()}, bmap)
    return s.form(x) if isinstance(x, B) else s.poly(x)


def _range_simplify(body, i, n):
    """Inside a binder 0 <= i < n holds: drop the corresponding guards."""
    bm = {}
    lo = le0(neg(i))
    hi = lt(i, n)
    for f in (lo, hi):
        if f.op in ("le", "eq"):
            bm[f] = TRUE
    if not bm:
        return body
    ia = the_atom(i)
    if ia not in body.fv:
        return body
    if not _mentions_guard(body, bm):
        return body
    return subst(body, {}, bm)


def _mentions_guard(p, bm, memo=None):
    # cheap scan
    seen = set()
    stack = [p]
    while stack:
        x = stack.pop()
        if isinstance(x, Poly):
            for m in x.d:
                for a, _ in m:
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    if a.kind == "ind":
                        stack.append(a.data)
                    elif a.kind == "app":
                        stack.extend(a.data[1])
                    elif a.kind in ("poly", "sqrt"):
                        stack.append(a.data)
                    elif a.kind == "sum":
                        stack.append(a.data[0])
                        stack.append(a.data[2])
                    elif a.kind == "fun":
                        stack.append(a.data[1])
                        stack.append(a.data[3])
                        stack.extend(a.data[4])
        else:
            if x in bm:
                return True
            if x.op in ("le", "eq"):
                stack.append(x.args[0])
            elif x.op == "pred":
                stack.extend(x.args[1])
            elif x.op == "any":
                stack.append(x.args[0])
                stack.append(x.args[1][1])
            else:
                stack.extend(x.args)
    return False


def mk_sum(n, fn, ivar=None, body=None):
    """sum_{0<=i<n} fn(i)"""
    n = as_poly(n)
    c = n.const()
    if ivar is None:
        if c is not None and c <= 24:
            r = ZERO
            for k in range(int(c)):
                r = add(r, fn(C(k)))
            return r
        ivar = fresh()
        body = fn(ivar)
    elif c is not None and c <= 24:
        r = ZERO
        for k in range(int(c)):
            r = add(r, subst(body, {ivar: C(k)}))
        return r
    if has_nan(body):
        raise Unsupported("sum over NaN-bearing term")
    body = _range_simplify(body, ivar, n)
    ia = the_atom(ivar)
    groups = {}
    res = ZERO
    for m, co in body.d.items():
        dep = tuple(t for t in m if ia in t[0].fv)
        free = tuple(t for t in m if ia not in t[0].fv)
        if not dep:
            res = add(res, _mul(Poly({m: co}), n))
        else:
            groups.setdefault(dep, []).append((free, co))
    for dep, lst in groups.items():
        at = _mk_sum_atom(n, ivar, Poly({dep: Fraction(1)}))
        coef = Poly({f: co for f, co in lst})
        res = add(res, _mul(coef, at))
    return res


def _mk_sum_atom(n, ivar, body):
    # sum_i [i == t] f(i) = [0<=t<n] f(t)   (t free of i)
    ia = the_atom(ivar)
    (mono, c0), = body.d.items()
    for a, e in mono:
        if a.kind == "ind" and a.data.op == "eq" and e == 1:
            p = a.data.args[0]
            ci = p.d.get(((ia, 1),))
            if ci is not None and abs(ci) == 1:
                rest = Poly({m: c for m, c in p.d.items() if m != ((ia, 1),)})
                if ia not in rest.fv and rest.is_int():
                    t = scale(rest, -1 / ci)
                    others = Poly({tuple(x for x in mono if x[0] is not a): c0})
                    val = subst(others, {ivar: t})
                    return _mul(ind(band(le0(neg(t)), lt(t, n))), val)
    lvl = body.h + 1
    b = subst(body, {ivar: bvar(lvl)})
    fv = (b.fv - {the_atom(bvar(lvl))}) | n.fv
    srt = "I" if b.is_int() and n.is_int() else "R"
    return atom_poly(_intern("sum", (n, lvl, b), srt, fv, max(lvl, n.h)))


def mk_fun(name, n, fn, params=(), ivar=None, body=None):
    """Uninterpreted functional of a family (median, quantile, max, ...)."""
    n = as_poly(n)
    if ivar is None:
        ivar = fresh()
        body = fn(ivar)
    if has_nan(body):
        raise Unsupported(f"{name} over NaN-bearing term")
    body = _range_simplify(body, ivar, n)
    ia = the_atom(ivar)
    params = tuple(as_poly(p) for p in params)
    if n.const() == 1 and name in ("median", "quantile", "max", "min"):
        return subst(body, {ivar: ZERO})
    shift = ZERO
    factor = ONE
    free = Poly({m: c for m, c in body.d.items() if not any(ia in a.fv for a, _ in m)})
    if name in ("median", "quantile", "max", "min"):
        shift = free
        dep = sub(body, free)
        if not dep.d:
            return shift
        # common free factor
        if name == "median":
            common = None
            for m in dep.d:
                dm = {a: e for a, e in m if ia not in a.fv}
                if common is None:
                    common = dm
                else:
                    new = {}
                    for a in set(common) | set(dm):
                        e1, e2 = common.get(a, 0), dm.get(a, 0)
                        if e1 > 0 and e2 > 0:
                            new[a] = min(e1, e2)
                        elif e1 < 0 and e2 < 0:
                            new[a] = max(e1, e2)
                    common = new
            factor = Poly({tuple(sorted(common.items(), key=lambda t: t[0].id)): Fraction(1)})
            body = _mul(dep, inv(factor))
        else:
            body = dep
    lvl = body.h + 1
    b = subst(body, {ivar: bvar(lvl)})
    if name in ("median", "quantile", "max", "min"):
        # scale by the leading coefficient after renaming: the order of monomials then does not depend on the bound variable
        k = b.d[_lead(b)]
        k = k if name == "median" else abs(k)
        factor = scale(factor, k)
        b = scale(b, 1 / k)
    fv = (b.fv - {the_atom(bvar(lvl))}) | n.fv
    h = max([lvl, n.h] + [p.h for p in params])
    for p in params:
        fv = fv | p.fv
    at = atom_poly(_intern("fun", (name, n, lvl, b, params), "R", fv, h))
    return add(_mul(factor, at), shift)


def mk_any(n, fn):
    """exists 0<=i<n. fn(i)  (fn -> B)"""
    n = as_poly(n)
    c = n.const()
    if c is not None and c <= 24:
        return bor(*[fn(C(k)) for k in range(int(c))])
    i = fresh()
    body = fn(i)
    bm = {}
    for f in (le0(neg(i)), lt(i, n)):
        if f.op in ("le", "eq"):
            bm[f] = TRUE
    body = subst(body, {}, bm) if bm else body
    if body is FALSE:
        return FALSE
    if the_atom(i) not in body.fv:
        return band(body, lt(ZERO, n))
    lvl = body.h + 1
    b = subst(body, {i: bvar(lvl)})
    fv = (b.fv - {the_atom(bvar(lvl))}) | n.fv
    return _b("any", (n, (lvl, b), fv, max(lvl, n.h)))


def mk_all(n, fn):
    return bnot(mk_any(n, lambda i: bnot(fn(i))))


# ---------------------------------------------------------------- zero test


def clear_inverses(p, limit=12):
    """Multiply by the inverted polynomials until none is left at top level."""
    for _ in range(limit):
        worst = {}
        for m in p.d:
            for a, e in m:
                if a.kind == "poly" and e < 0:
                    worst[a] = min(worst.get(a, 0), e)
        if not worst:
            break
        a = max(worst, key=lambda x: x.id)
        k = -worst[a]
        res = ZERO
        for m, c in p.d.items():
            e0 = 0
            rest = []
            for b, e in m:
                if b is a:
                    e0 = e
                else:
                    rest.append((b, e))
            q = Poly({tuple(rest): c})
            if k + e0:
                q = _mul(q, power(a.data, k + e0))
            res = add(res, q)
        p = res
    return p


def is_zero(p):
    if not p.d:
        return True
    if has_nan(p):
        return False
    try:
        return not clear_inverses(p).d
    except Unsupported:
        return False


# ---------------------------------------------------------------- printing


def show(p):
    if not p.d:
        return "0"
    out = []
    for m, c in sorted(p.d.items(), key=lambda t: (len(t[0]), [(a.id, e) for a, e in t[0]])):
        f = "*".join((show_atom(a) if e == 1 else f"{show_atom(a)}^{e}") for a, e in m)
        if not f:
            out.append(str(c))
        elif c == 1:
            out.append(f)
        elif c == -1:
            out.append("-" + f)
        else:
            out.append(f"{c}*{f}")
    return " + ".join(out)


def show_atom(a):
    k = a.kind
    if k in ("var", "nan"):
        return str(a.data)
    if k == "app":
        return f"{a.data[0]}({', '.join(show(x) for x in a.data[1])})"
    if k == "ind":
        return f"1{{{show_b(a.data)}}}"
    if k == "poly":
        return f"[{show(a.data)}]"
    if k == "sqrt":
        return f"sqrt({show(a.data)})"
    if k == "sum":
        return f"Sum[#{a.data[1]}<{show(a.data[0])}]({show(a.data[2])})"
    if k == "fun":
        return f"{a.data[0]}[#{a.data[2]}<{show(a.data[1])}]({show(a.data[3])}{''.join('; ' + show(x) for x in a.data[4])})"
    return f"?{k}"


def show_b(b):
    op = b.op
    if op == "le":
        return f"{show(b.args[0])} <= 0"
    if op == "eq":
        return f"{show(b.args[0])} == 0"
    if op == "pred":
        return f"{b.args[0]}({', '.join(show(x) for x in b.args[1])})"
    if op == "not":
        return f"not({show_b(b.args[0])})"
    if op == "and":
        return "(" + " and ".join(show_b(x) for x in b.args) + ")"
    if op == "any":
        return f"exists #{b.args[1][0]}<{show(b.args[0])}. {show_b(b.args[1][1])}"
    return op
