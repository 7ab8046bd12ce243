"""Discharge of verification conditions: ring normal form first, then z3 (and
optionally cvc5 through SMT-LIB) on the residual formula."""
import sys
import time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
try:
    import z3
except ImportError:  # pragma: no cover
    sys.path.append(VT)
    import z3

from . import terms as T
from .terms import B, Poly


class Stats:
    def __init__(self):
        self.z3_time = 0.0
        self.z3_calls = 0
        self.feas_calls = 0
        self.feas_time = 0.0
        self.cvc5_calls = 0
        self.cvc5_agree = 0
        self.cvc5_unknown = 0
        self.cvc5_time = 0.0


STATS = Stats()


class Theory:
    """Facts known on a path: formulas + schemata for function symbols."""

    def __init__(self):
        self.facts = []  # list of B
        self.schemas = {}  # fname -> [callable(args)->B]
        self.funaxioms = []  # callables(atoms list) -> [B]
        self.notes = set()

    def copy(self):
        t = Theory()
        t.facts = list(self.facts)
        t.schemas = {k: list(v) for k, v in self.schemas.items()}
        t.funaxioms = list(self.funaxioms)
        return t

    def add(self, b):
        if b is not T.TRUE:
            self.facts.append(b)

    def schema(self, fname, fn):
        self.schemas.setdefault(fname, []).append(fn)


class _Entry:
    """z3 translation of one term, with the obligations its translation creates"""

    __slots__ = ("z", "eff", "deps")

    def __init__(self, z=None):
        self.z = z
        self.eff = []
        self.deps = []


_NUM, _ATOM, _FORM = {}, {}, {}


def _e_num(p, isint):
    key = (p, isint)
    e = _NUM.get(key)
    if e is not None:
        return e
    e = _Entry()
    terms = []
    for m, c in p.d.items():
        fs = []
        numneg = []
        for a, ex in m:
            ea = _e_atom(a)
            e.deps.append(ea)
            z = ea.z
            if not isint and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            if ex > 0:
                fs.extend([z] * ex)
            else:
                numneg.extend([z] * (-ex))
                e.eff.append(("nz", a, z != 0))
        t = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
        if fs:
            pr = fs[0]
            for f in fs[1:]:
                pr = pr * f
            t = pr if c == 1 else t * pr
        if numneg:
            dn = numneg[0]
            for f in numneg[1:]:
                dn = dn * f
            t = t / dn
        terms.append(t)
    if not terms:
        e.z = z3.IntVal(0) if isint else z3.RealVal(0)
    else:
        e.z = terms[0] if len(terms) == 1 else z3.Sum(terms)
    _NUM[key] = e
    return e


def _e_poly(p, as_int=None):
    return _e_num(p, p.is_int() if as_int is None else as_int)


def _e_atom(a):
    e = _ATOM.get(a)
    if e is not None:
        return e
    e = _Entry()
    k = a.kind
    srt = z3.IntSort() if a.sort == "I" else z3.RealSort()
    if k == "var":
        e.z = z3.Const(f"{a.data}", srt)
    elif k == "nan":
        e.z = z3.Const("NAN", srt)
    elif k == "app":
        name, args = a.data
        es = [_e_poly(x) for x in args]
        e.deps += es
        zs = [x.z for x in es]
        sig = "".join("I" if z.sort() == z3.IntSort() else "R" for z in zs)
        if zs:
            f = z3.Function(f"{name}/{sig}", *[z.sort() for z in zs], srt)
            r = f(*zs)
        else:
            r = z3.Const(name, srt)
        e.z = r
        e.eff.append(("app", a, r))
        if name == T.MAXFN:
            for z in zs:
                e.eff.append(("side", None, r >= z))
            e.eff.append(("side", None, z3.Or(*[r == z for z in zs])))
    elif k == "ind":
        f = _e_form(a.data)
        e.deps.append(f)
        e.z = z3.If(f.z, z3.IntVal(1), z3.IntVal(0))
    elif k == "poly":
        x = _e_poly(a.data, False)
        e.deps.append(x)
        e.z = x.z
    elif k == "sqrt":
        r = z3.Const(f"sqrt!{a.id}", srt)
        x = _e_poly(a.data, False)
        e.deps.append(x)
        e.eff.append(("side", None, r >= 0))
        e.eff.append(("side", None, r * r == x.z))
        e.z = r
    elif k in ("sum", "fun"):
        e.z = z3.Const(f"{k}!{a.id}", srt)
        e.eff.append(("opaque", a, e.z))
    else:
        raise T.Unsupported(f"z3: {k}")
    _ATOM[a] = e
    return e


def _e_form(b):
    e = _FORM.get(b)
    if e is not None:
        return e
    e = _Entry()
    op = b.op
    if op == "true":
        e.z = z3.BoolVal(True)
    elif op == "false":
        e.z = z3.BoolVal(False)
    elif op == "le":
        x = _e_poly(b.args[0])
        e.deps.append(x)
        e.z = x.z <= 0
    elif op == "eq":
        p = b.args[0]
        if all(a.sort == "I" and ex > 0 for m in p.d for a, ex in m) and not p.is_int():
            den = 1
            for c in p.d.values():
                den *= c.denominator
            p = T.scale(p, Fraction(den))
        x = _e_poly(p)
        e.deps.append(x)
        e.z = x.z == 0
    elif op == "pred":
        name, args = b.args
        es = [_e_poly(x) for x in args]
        e.deps += es
        zs = [x.z for x in es]
        sig = "".join("I" if z.sort() == z3.IntSort() else "R" for z in zs)
        if zs:
            e.z = z3.Function(f"{name}?{sig}", *[z.sort() for z in zs], z3.BoolSort())(*zs)
        else:
            e.z = z3.Const(f"{name}?", z3.BoolSort())
        e.eff.append(("pred", b, e.z))
    elif op == "not":
        x = _e_form(b.args[0])
        e.deps.append(x)
        e.z = z3.Not(x.z)
    elif op == "and":
        es = [_e_form(x) for x in b.args]
        e.deps += es
        e.z = z3.And([x.z for x in es])
    elif op == "any":
        e.z = z3.Const(f"any!{b.id}", z3.BoolSort())
        e.eff.append(("any", b, e.z))
    else:
        raise T.Unsupported(f"z3 form {op}")
    _FORM[b] = e
    return e


class _Tr:
    """Translation of terms to z3 for one query; opaque constants for binders."""

    def __init__(self, theory):
        self.th = theory
        self.seen = set()
        self.side = []
        self.apps = {}  # atom -> z3
        self.preds = {}
        self.opaque = {}  # atom -> z3 const
        self.anys = {}  # B -> z3 Bool
        self.pending = []
        self.polys = set()

    def _absorb(self, e):
        seen = self.seen
        if id(e) in seen:
            return e.z
        stack = [e]
        seen.add(id(e))
        while stack:
            x = stack.pop()
            for k, a, z in x.eff:
                if k == "side":
                    self.side.append(z)
                elif k == "nz":
                    if a not in self.polys:
                        self.polys.add(a)
                        self.side.append(z)
                elif k == "app":
                    self.apps[a] = z
                    self.pending.append(a)
                elif k == "pred":
                    self.preds[a] = z
                    self.pending.append(a)
                elif k == "any":
                    self.anys[a] = z
                else:
                    self.opaque[a] = z
            for y in x.deps:
                if id(y) not in seen:
                    seen.add(id(y))
                    stack.append(y)
        return e.z

    def num(self, p, as_int=None):
        return self._absorb(_e_poly(p, as_int))

    def atom(self, a):
        return self._absorb(_e_atom(a))

    def form(self, b):
        return self._absorb(_e_form(b))


def _collect_index_terms(tr):
    """Candidate integer terms for quantifier instantiation."""
    out = {}
    for a in list(tr.apps):
        for x in a.data[1]:
            if x.is_int() and x.h == 0 or (x.is_int() and x.const() is None):
                out[x] = True
    for b in list(tr.preds):
        for x in b.args[1]:
            if x.is_int():
                out[x] = True
    return [x for x in out if not any(str(a.data).startswith("#") for a in x.fv)]


def _build(theory, goals, extra_idx=(), inst_rounds=2):
    """goals: list of formulas to assert.  returns (z3 assertions, tr)."""
    tr = _Tr(theory)
    asserts = []
    for g in goals:
        asserts.append(tr.form(g))
    for f in theory.facts:
        asserts.append(tr.form(f))
    done_schema = set()
    done_any = set()
    wit = {}
    for _ in range(inst_rounds):
        # schemata
        progress = True
        guard = 0
        while progress and guard < 6:
            progress = False
            guard += 1
            pend = tr.pending
            tr.pending = []
            for a in pend:
                if isinstance(a, B):
                    name, args = a.args
                    name = "?" + name
                else:
                    name, args = a.data
                if any(str(v.data).startswith("#") for x in args for v in x.fv):
                    continue
                if (name, args) in done_schema:
                    continue
                done_schema.add((name, args))
                for s in theory.schemas.get(name, ()):
                    r = s(*args)
                    for f in r if isinstance(r, (list, tuple)) else [r]:
                        if f is not T.TRUE and f is not None:
                            asserts.append(tr.form(f))
                            progress = True
        # any-instantiation
        idx = list(dict.fromkeys(list(extra_idx) + [T.ZERO] + _collect_index_terms(tr)))
        if len(idx) > 40:
            idx = idx[:40]
        for b in list(tr.anys):
            n, (lvl, body), _, _ = b.args
            if b not in wit:
                w = T.fresh("w")
                wit[b] = w
                inst = T.band(T.le0(T.neg(w)), T.lt(w, n), T.subst(body, {T.bvar(lvl): w}))
                asserts.append(z3.Implies(tr.anys[b], tr.form(inst)))
            for t in idx + [wit[b]]:
                if (b, t) in done_any:
                    continue
                done_any.add((b, t))
                if any(str(v.data).startswith("#") for v in t.fv):
                    continue
                inst = T.band(T.le0(T.neg(t)), T.lt(t, n), T.subst(body, {T.bvar(lvl): t}))
                asserts.append(z3.Implies(tr.form(inst), tr.anys[b]))
    return asserts, tr


def feasible(theory, b, timeout=800):
    """False only if facts & b is unsatisfiable."""
    t0 = time.time()
    STATS.feas_calls += 1
    try:
        asserts, tr = _build(theory, [b])
        s = z3.Solver()
        s.set("rlimit", timeout * 2000)
        s.set("timeout", timeout * 6)
        s.add(*asserts)
        s.add(*tr.side)
        r = s.check()
    except (T.Unsupported, z3.Z3Exception):
        r = z3.unknown
    STATS.feas_time += time.time() - t0
    return r != z3.unsat


def _unify(theory, formulas, depth):
    """Congruence for binders: replace equal-but-not-identical sums/functionals
    (pointwise equal bodies) by one representative; likewise equal arguments
    of uninterpreted functions."""
    atoms = {}
    anys = {}

    def scan_p(p):
        for m in p.d:
            for a, _ in m:
                scan_a(a)

    seen = set()

    def scan_a(a):
        if a.id in seen:
            return
        seen.add(a.id)
        if a.kind in ("sum", "fun"):
            atoms[a] = 1
        elif a.kind == "app":
            for x in a.data[1]:
                scan_p(x)
            if a.data[1]:
                atoms[a] = 1
        elif a.kind in ("poly",):
            scan_p(a.data)
        elif a.kind == "sqrt":
            scan_p(a.data)
            atoms[a] = 1
        elif a.kind == "ind":
            scan_b(a.data)

    bseen = set()

    def scan_b(b):
        if b.id in bseen:
            return
        bseen.add(b.id)
        if b.op in ("le", "eq"):
            scan_p(b.args[0])
        elif b.op == "pred":
            for x in b.args[1]:
                scan_p(x)
        elif b.op == "any":
            anys[b] = 1
        else:
            for x in b.args:
                scan_b(x)

    for f in formulas:
        scan_b(f)
    eqs = []
    lst = sorted(atoms, key=lambda a: a.id)
    rep = {}
    for i, a in enumerate(lst):
        for b in lst[:i]:
            if rep.get(b, b) is not b or a.kind != b.kind:
                continue
            if a.kind == "sum":
                n1, l1, b1 = a.data
                n2, l2, b2 = b.data
                if not T.is_zero(T.sub(n1, n2)):
                    continue
                if _pointwise(theory, n1, l1, b1, l2, b2, depth):
                    eqs.append((a, b))
                    rep[a] = b
                    break
            elif a.kind == "fun":
                nm1, n1, l1, b1, p1 = a.data
                nm2, n2, l2, b2, p2 = b.data
                if nm1 != nm2 or len(p1) != len(p2) or not T.is_zero(T.sub(n1, n2)):
                    continue
                if not all(T.is_zero(T.sub(x, y)) for x, y in zip(p1, p2)):
                    continue
                if _pointwise(theory, n1, l1, b1, l2, b2, depth):
                    eqs.append((a, b))
                    rep[a] = b
                    break
            elif a.kind == "app":
                if a.data[0] != b.data[0] or len(a.data[1]) != len(b.data[1]):
                    continue
                if all(T.is_zero(T.sub(x, y)) for x, y in zip(a.data[1], b.data[1])):
                    eqs.append((a, b))
                    rep[a] = b
                    break
            elif a.kind == "sqrt":
                if T.is_zero(T.sub(a.data, b.data)):
                    eqs.append((a, b))
                    rep[a] = b
                    break
    aeqs = []
    al = sorted(anys, key=lambda b: b.id)
    for i, a in enumerate(al):
        for b in al[:i]:
            n1, (l1, b1), _, _ = a.args
            n2, (l2, b2), _, _ = b.args
            if not T.is_zero(T.sub(n1, n2)):
                continue
            k = T.fresh("u")
            x = T.subst(b1, {T.bvar(l1): k})
            y = T.subst(b2, {T.bvar(l2): k})
            if x is y:
                aeqs.append((a, b))
                break
            if depth > 0:
                th = theory.copy()
                th.add(T.le0(T.neg(k)))
                th.add(T.lt(k, n1))
                if prove(th, T.biff(x, y), depth=depth - 1, timeout=3000).ok:
                    aeqs.append((a, b))
                    break
    return eqs, aeqs


def _pointwise(theory, n, l1, b1, l2, b2, depth):
    if depth <= 0:
        return False
    k = T.fresh("u")
    x = T.subst(b1, {T.bvar(l1): k})
    y = T.subst(b2, {T.bvar(l2): k})
    if x == y:
        return True
    d = T.sub(x, y)
    if T.is_zero(d):
        return True
    # cheap filter: numeric plausibility is left to z3
    th = theory.copy()
    th.add(T.le0(T.neg(k)))
    th.add(T.lt(k, n))
    return prove(th, T.eq0(d), depth=depth - 1, timeout=2000).ok


class Result:
    def __init__(self, ok, status, backend, secs, model=None, smt=None, reason=""):
        self.ok = ok
        self.status = status
        self.backend = backend
        self.secs = secs
        self.model = model
        self.smt = smt
        self.reason = reason


def _sum_groups(p):
    """p as linear combination of sums over one range: try sum_k c_k S_k == 0 pointwise."""
    rng = None
    parts = []
    rest = T.ZERO
    for m, c in p.d.items():
        sums = [(a, e) for a, e in m if a.kind == "sum"]
        if len(sums) == 1 and sums[0][1] == 1:
            a = sums[0][0]
            n, lvl, body = a.data
            if rng is None:
                rng = n
            if n == rng:
                coef = Poly({tuple(t for t in m if t[0] is not a): c})
                parts.append((coef, lvl, body))
                continue
        rest = T.add(rest, Poly({m: c}))
    return rng, parts, rest


def _try_sum_extensional(theory, p, depth):
    p = T.clear_inverses(p)
    rng, parts, rest = _sum_groups(p)
    if rng is None or not parts:
        return False
    # rest must be a multiple of rng (sum of constants) or zero
    body = T.ZERO
    k = T.fresh("e")
    for coef, lvl, b in parts:
        body = T.add(body, T._mul(coef, T.subst(b, {T.bvar(lvl): k})))
    if rest.d:
        try:
            q = T.div(rest, rng)
        except T.Unsupported:
            return False
        body = T.add(body, q)
    if T.is_zero(body):
        return True
    if depth <= 0:
        return False
    th = theory.copy()
    th.add(T.le0(T.neg(k)))
    th.add(T.lt(k, rng))
    return prove(th, T.eq0(body), depth=depth - 1, timeout=3000).ok


def _sum_signs(theory, tr, asserts):
    for a, z in list(tr.opaque.items()):
        if a.kind != "sum":
            continue
        n, lvl, body = a.data
        k = T.fresh("s")
        b = T.subst(body, {T.bvar(lvl): k})
        th = theory.copy()
        th.add(T.le0(T.neg(k)))
        th.add(T.lt(k, n))
        if prove(th, T.le(T.ZERO, b), depth=0, timeout=400, signs=False).ok:
            asserts.append(z >= 0)
            # sum of an indicator-like body is at most n
            if b.is_int() and prove(th, T.le(b, T.ONE), depth=0, timeout=300, signs=False).ok:
                asserts.append(z <= tr.num(n))
            if prove(th, T.lt(T.ZERO, b), depth=0, timeout=300, signs=False).ok:
                asserts.append(z3.Implies(tr.form(T.lt(T.ZERO, n)), z > 0))
        elif prove(th, T.le(b, T.ZERO), depth=0, timeout=400, signs=False).ok:
            asserts.append(z <= 0)
            if prove(th, T.lt(b, T.ZERO), depth=0, timeout=300, signs=False).ok:
                asserts.append(z3.Implies(tr.form(T.lt(T.ZERO, n)), z < 0))


_deadline = None
BUDGET = 45.0  # wall seconds per obligation (backstop; the solver limits are resource counts)


def prove(theory, goal, depth=2, timeout=20000, signs=True, want_model=False, idx=()):
    global _deadline
    if _deadline is not None:
        if time.time() > _deadline:
            return Result(False, "unknown", "none", 0.0, reason="obligation budget exhausted")
        return _prove(theory, goal, depth, timeout, signs, want_model, idx)
    _deadline = time.time() + BUDGET
    try:
        return _prove(theory, goal, depth, timeout, signs, want_model, idx)
    finally:
        _deadline = None


def _limits(s, ms):
    s.set("rlimit", int(ms) * 2000)
    left = (_deadline - time.time()) * 1000 if _deadline else 1e9
    s.set("timeout", int(max(100, min(ms * 6, left + 2000))))


def _prove(theory, goal, depth=2, timeout=20000, signs=True, want_model=False, idx=()):
    t0 = time.time()
    if goal is T.TRUE:
        return Result(True, "valid", "ring-normal-form", time.time() - t0)
    if goal.op == "eq":
        p = goal.args[0]
        if T.is_zero(p):
            return Result(True, "valid", "ring-normal-form", time.time() - t0)
        if depth > 0:
            try:
                if _try_sum_extensional(theory, p, depth):
                    return Result(True, "valid", "ring-normal-form+sum-extensionality", time.time() - t0)
            except T.Unsupported:
                pass
    if goal.op == "le" and all(
        c < 0 and all(e % 2 == 0 or a.kind in ("sqrt", "ind") for a, e in m) for m, c in goal.args[0].d.items()
    ):
        return Result(True, "valid", "sum-of-squares", time.time() - t0)
    if goal.op == "and":
        secs = 0
        bk = set()
        for g in goal.args:
            r = prove(theory, g, depth, timeout, signs, want_model, idx)
            secs += r.secs
            bk.add(r.backend)
            if not r.ok:
                return r
        return Result(True, "valid", "+".join(sorted(bk)), secs)
    status, model, smt = None, None, None
    fast = [False] if not signs else [True, False]
    for first in fast:
        try:
            neg = T.bnot(goal)
            asserts, tr = _build(theory, [neg], extra_idx=idx)
            if not first:
                if depth > 0:
                    eqs, aeqs = _unify(theory, [neg] + theory.facts, depth)
                    for a, b in eqs:
                        asserts.append(tr.atom(a) == tr.atom(b))
                    for a, b in aeqs:
                        asserts.append(tr.form(a) == tr.form(b))
                if signs:
                    _sum_signs(theory, tr, asserts)
            s = z3.Solver()
            _limits(s, timeout if not first else min(timeout, 1500))
            s.add(*asserts)
            s.add(*tr.side)
            STATS.z3_calls += 1
            t1 = time.time()
            r = s.check()
            STATS.z3_time += time.time() - t1
            if r == z3.unsat:
                res = Result(True, "valid", "z3", time.time() - t0)
                res.smt = s.to_smt2() if want_model else None
                return res
            if not first and r == z3.unknown:
                s2 = z3.SolverFor("QF_UFNRA")
                _limits(s2, timeout)
                s2.add(*asserts)
                s2.add(*tr.side)
                t1 = time.time()
                r2 = s2.check()
                STATS.z3_time += time.time() - t1
                if r2 == z3.unsat:
                    res = Result(True, "valid", "z3", time.time() - t0)
                    res.smt = s.to_smt2() if want_model else None
                    return res
                if r2 == z3.sat:
                    r, s = r2, s2
        except T.Unsupported as e:
            return Result(False, "unsupported", "none", time.time() - t0, reason=str(e))
        except z3.Z3Exception as e:
            return Result(False, "unsupported", "none", time.time() - t0, reason=f"z3: {e}")
        if first:
            continue
        if r == z3.sat:
            status = "sat"
            if want_model:
                model = model_to_dict(s.model())
        else:
            status = "unknown"
    return Result(False, status or "unknown", "z3", time.time() - t0, model=model)


def model_to_dict(m):
    out = {}
    for d in m.decls()[:200]:
        try:
            out[d.name()] = str(m[d])[:300]
        except z3.Z3Exception:
            pass
    return out


def cvc5_check(smt2, tlimit_ms=10000):
    """Re-check an unsat SMT-LIB script with cvc5. -> 'unsat'|'sat'|'unknown'"""
    import subprocess
    import tempfile

    STATS.cvc5_calls += 1
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
        f.write("(set-logic ALL)\n" + smt2)
        f.flush()
        try:
            p = subprocess.run(["cvc5", f"--tlimit={tlimit_ms}", f.name], capture_output=True, text=True, timeout=tlimit_ms / 1000 + 10)
            out = p.stdout.strip().splitlines()
            r = out[0] if out and out[0] in ("sat", "unsat", "unknown") else "unknown"
        except subprocess.TimeoutExpired:
            r = "unknown"
    STATS.cvc5_time += time.time() - t0
    if r == "unsat":
        STATS.cvc5_agree += 1
    else:
        STATS.cvc5_unknown += 1
    return r
