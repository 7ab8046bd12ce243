"""Loops over symbolic ranges.

For `for x in ITER: BODY` with a symbolic-length ITER the engine derives the
loop invariant from the body (independent-slot writes and commutative
accumulators), checks that it is inductive for an arbitrary iteration k, and
replaces the loop by the invariant at exit.  Anything else is Unsupported."""
from . import npmodel as N
from . import solver as S
from . import sym as Y
from . import terms as T
from .sym import Dim, SArr, SBool, SList, SNum, lift, num
from .terms import Unsupported


class _Undef:
    def __repr__(self):
        return "<undefined local>"


UNDEF = _Undef()


class Break:
    pass


BRK = Break()


class Ret:
    def __init__(self, v):
        self.v = v


class _Infeasible(BaseException):
    pass


class ParLoop:
    def __init__(self, n):
        self.n = n
        self.iv = T.fresh("k")
        self.ia = T.the_atom(self.iv)
        self.prefix = []
        self.decs = []
        self.pending = []
        self.guard = []
        self.writes = {}
        self.markers = set()

    def mentions(self, b):
        return self.ia in b.fv or (self.markers and _mentions_names(b, self.markers))

    def range_is(self, n, p):
        return p == self.iv and T.is_zero(T.sub(n, self.n))

    def decide(self, b):
        s = Y.st()
        i = len(self.decs)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decs.append(d)
            self._push(b, d)
            return d in (0, 2)
        t = S.feasible(s.theory, b)
        f = S.feasible(s.theory, T.bnot(b)) if t else True
        if t and f:
            self.pending.append(self.decs + [1])
            d = 0
        else:
            d = 2 if t else 3
        self.decs.append(d)
        self._push(b, d)
        return d in (0, 2)

    def _push(self, b, d):
        s = Y.st()
        f = b if d in (0, 2) else T.bnot(b)
        s.theory.facts.append(f)
        if d < 2:
            s.forklevel[f] = s.loopvars.index(self) + 1
            self.guard.append(f)

    def note_write(self, arr, info):
        if id(arr) not in self.writes:
            self.writes[id(arr)] = (arr, arr._fn, arr.ver)


def _same(a, b):
    if a is b:
        return True
    if type(a) is type(b) is SNum:
        return a.p == b.p
    if type(a) is type(b) is SBool:
        return a.b is b.b
    if isinstance(a, (int, float, str, bool, type(None))) and isinstance(b, (int, float, str, bool, type(None))):
        if Y.is_sym(a) or Y.is_sym(b):
            return False
        return type(a) is type(b) and (a == b or (a != a and b != b))
    return False


class _Snapshot:
    """Shallow state that a body might change besides arrays."""

    def __init__(self, objs):
        self.objs = []
        seen = set()
        for o in objs:
            self._add(o, seen, 3)

    def _add(self, o, seen, depth):
        if id(o) in seen or depth == 0:
            return
        t = type(o)
        if t in (list,):
            seen.add(id(o))
            self.objs.append((o, list(o)))
            if len(o) <= 12:
                for x in o:
                    self._add(x, seen, depth - 1)
        elif t is dict:
            seen.add(id(o))
            self.objs.append((o, dict(o)))
            for x in list(o.values())[:30]:
                self._add(x, seen, depth - 1)
        elif hasattr(o, "__dict__") and not Y.is_sym(o) and not isinstance(o, type) and not callable(o):
            mod = getattr(t, "__module__", "")
            if mod.startswith("doubleml") or getattr(t, "_vc_track", False):
                seen.add(id(o))
                self.objs.append((o.__dict__, dict(o.__dict__)))
                for x in list(o.__dict__.values()):
                    self._add(x, seen, depth - 1)

    def restore(self):
        for o, snap in self.objs:
            if type(o) is list:
                o[:] = snap
            else:
                for k in list(o):
                    if k not in snap:
                        del o[k]
                o.update(snap)

    def diff(self):
        out = []
        for o, snap in self.objs:
            if type(o) is list:
                if len(o) != len(snap) or any(x is not y and not _same(x, y) for x, y in zip(o, snap)):
                    out.append((o, snap, list(o)))
            else:
                ch = {}
                for k in set(o) | set(snap):
                    a, b = snap.get(k, UNDEF), o.get(k, UNDEF)
                    if a is not b and not _same(a, b):
                        ch[k] = b
                if ch:
                    out.append((o, snap, ch))
        return out


def for_loop(it, body, getv, setv):
    """Called by transformed code.  Returns None or Ret."""
    sl = Y.as_slist(it) if not isinstance(it, N.SGen) else it.slist
    if sl is not None and sl.n.const() is not None and sl.n.const() <= 24:
        items = (sl.item(T.C(j)) for j in range(int(sl.n.const())))
    elif sl is not None:
        return _sym_loop(sl, body, getv, setv)
    else:
        items = it
    for x in items:
        r = body(x)
        if r is not None:
            if r is BRK:
                break
            return r
    return None


def _run_branches(lp, body, sl, reset, collect):
    """Run the body for generic k under every inner decision."""
    s = Y.st()
    out = []
    lp.pending = [[]]
    while lp.pending:
        lp.prefix = lp.pending.pop()
        lp.decs = []
        lp.guard = []
        reset()
        saved = list(s.theory.facts)
        gl0 = len(s.decisions)
        s.theory.facts.append(T.le0(T.neg(lp.iv)))
        s.theory.facts.append(T.lt(lp.iv, lp.n))
        s.loopvars.append(lp)
        lp.writes = {}
        exc = None
        ret = None
        try:
            ret = body(sl.item(lp.iv))
        except Exception as e:  # noqa: BLE001
            if isinstance(e, Unsupported):
                raise
            exc = e
        finally:
            s.loopvars.pop()
            new = s.theory.facts[len(saved):] if s.theory.facts[: len(saved)] == saved else None
            if new is None:
                raise Unsupported("facts were rewritten inside a loop body")
            depth = len(s.loopvars) + 1
            keep = [f for f in new if s.forklevel.get(f, 99) < depth]
            s.theory.facts[:] = saved + keep
        out.append(collect(T.band(*lp.guard), ret, exc, lp.writes))
        if len(out) > 64:
            raise Unsupported("too many branches in a loop body")
    return out


def subst_obj(o, k, t):
    """Object o built in iteration k, re-read at iteration t."""
    tp = type(o)
    if tp is SNum:
        return SNum(T.subst(o.p, {k: t}), o.isint, o.np_)
    if tp is SBool:
        return Y.wrap(T.subst(o.b, {k: t}))
    if tp is SArr:
        fn = o.fn
        dims = []
        for d in o.dims:
            n = T.subst(d.n, {k: t})
            m = d.mask
            dims.append(Dim(n, (lambda i, m=m: T.subst(m(i), {k: t})) if m else None))

        def f(*idx):
            q = [T.fresh("z") for _ in idx]
            v = fn(*q)
            return T.subst(v, {k: t, **dict(zip(q, idx))})

        return SArr(dims, Y._memo(f), o.kind)
    if tp is SList:
        return SList(T.subst(o.n, {k: t}), lambda j: subst_obj(o.item(j), k, t))
    if tp in (list, tuple):
        return tp(subst_obj(x, k, t) for x in o)
    if tp is dict:
        return {kk: subst_obj(v, k, t) for kk, v in o.items()}
    if hasattr(o, "__vc_subst__"):
        return o.__vc_subst__(k, t)
    return o


def mentions_obj(o, a, depth=5):
    tp = type(o)
    if tp is SNum:
        return a in o.p.fv
    if tp is SBool:
        return a in o.b.fv
    if tp is SArr:
        q = [T.fresh("z") for _ in o.dims]
        return a in o.fn(*q).fv or any(a in d.n.fv or (d.mask and a in d.mask(T.fresh("z")).fv) for d in o.dims)
    if tp in (list, tuple) and depth:
        return any(mentions_obj(x, a, depth - 1) for x in o)
    if tp is dict and depth:
        return any(mentions_obj(x, a, depth - 1) for x in o.values())
    if tp is SList:
        return mentions_obj(o.item(T.fresh("z")), a, depth - 1)
    if hasattr(o, "__vc_mentions__"):
        return o.__vc_mentions__(a)
    return False


_mk = [0]


def _sym_loop(sl, body, getv, setv):
    s = Y.st()
    if len(s.loopvars) > 3:
        raise Unsupported("deeply nested symbolic loops")
    lp = ParLoop(sl.n)
    vars0 = getv()
    closure_objs = _reachable(body)
    snap = _Snapshot(list(vars0) + closure_objs)
    proving = s.proving
    s.proving = False
    # ---- pass 1: discover the frame of the body
    arrs0 = {}

    def reset1():
        setv(vars0)
        snap.restore()
        for a, fn, ver in arrs0.values():
            a._fn = fn

    changed = set()

    def collect1(guard, ret, exc, writes):
        for i, (a, fn, ver) in writes.items():
            arrs0.setdefault(i, (a, fn, ver))
        now = getv()
        for j, (x, y) in enumerate(zip(vars0, now)):
            if not _same(x, y):
                changed.add(j)
        return None

    try:
        _run_branches(lp, body, sl, reset1, collect1)
    finally:
        s.proving = proving
    reset1()
    # arrays created inside the body are local: only keep arrays alive before
    # ---- pass 2: generic iteration from the abstract state
    markers = {}
    for i, (a, fn, ver) in arrs0.items():
        _mk[0] += 1
        nm = f"pre!{_mk[0]}"
        markers[i] = nm
    vmark = {}
    start = list(vars0)
    for j in changed:
        v = vars0[j]
        _mk[0] += 1
        nm = f"acc!{_mk[0]}"
        if type(v) is SBool or isinstance(v, bool) and not Y.is_sym(v):
            vmark[j] = ("b", nm)
            start[j] = SBool(T.pred(nm))
        elif type(v) is SNum or (isinstance(v, (int, float)) and not Y.is_sym(v)):
            vmark[j] = ("n", nm)
            start[j] = SNum(T.var(nm, "R"), False)
        elif type(v) is SArr:
            vmark[j] = ("a", nm)
            start[j] = SArr(v.dims, lambda *idx, nm=nm: T.app(nm, *idx), "f")
        elif type(v) is list:
            pass
        else:
            try:
                import numpy as np

                if isinstance(v, np.ndarray):
                    vmark[j] = ("a", nm)
                    start[j] = SArr(lift(v).dims, lambda *idx, nm=nm: T.app(nm, *idx), "f")
            except Unsupported:
                pass

    def reset2():
        setv(tuple(start))
        snap.restore()
        for i, (a, fn, ver) in arrs0.items():
            nm = markers[i]
            if a.kind == "b":
                a._fn = lambda *idx, nm=nm: T.pred(nm, *idx)
            else:
                a._fn = lambda *idx, nm=nm: T.app(nm, *idx, sort="I" if False else "R")

    def collect2(guard, ret, exc, writes):
        post = {i: (a, a._fn) for i, (a, _, _) in arrs0.items()}
        new_w = [a for i, (a, _, _) in writes.items() if i not in arrs0 and a.ver and _alive_before(a, vars0)]
        if new_w:
            raise Unsupported("loop body writes an array not seen in the frame pass")
        return dict(guard=guard, ret=ret, exc=exc, post=post, vars=getv(), diff=snap.diff())

    lp.markers = set(markers.values()) | {nm for _, nm in vmark.values()}
    brs = _run_branches(lp, body, sl, reset2, collect2)
    # restore concrete state
    setv(tuple(vars0))
    snap.restore()
    for a, fn, ver in arrs0.values():
        a._fn = fn
    k = lp.iv

    # ---- exceptional exits
    exits = [b for b in brs if b["exc"] is not None or b["ret"] is not None]
    normal = [b for b in brs if b not in exits]
    if exits:
        kinds = {(type(b["exc"]), b["ret"].__class__ if b["ret"] is None or b["ret"] is BRK else Ret) for b in exits}
        if any(b["ret"] is BRK for b in exits):
            raise Unsupported("break out of a symbolic loop")
        g = T.bor(*[b["guard"] for b in exits])
        if any(_has_marker(b["guard"], markers, vmark) for b in exits):
            raise Unsupported("loop exit depends on the accumulated state")
        cond = T.mk_any(lp.n, lambda t: T.subst(g, {k: t}))
        if Y.decide(cond):
            if len(kinds) > 1:
                raise Unsupported("different exceptional exits in one loop")
            b = exits[0]
            if b["exc"] is not None:
                raise b["exc"]
            vals = [x["ret"].v for x in exits]
            if any(mentions_obj(v, lp.ia) for v in vals) or any(not _same(v, vals[0]) for v in vals):
                raise Unsupported("returned value depends on the iteration")
            return b["ret"]
        # no iteration exits: ~g(k) for all k
        if not normal:
            # all iterations exit, hence n <= 0
            return None
    # ---- array effects
    for i, (a, fn0, ver) in arrs0.items():
        _summarise_array(a, fn0, [(b["guard"], b["post"][i][1]) for b in normal], lp, markers[i], set(markers.values()), vmark)
    # ---- local variables
    final = list(vars0)
    for j in changed:
        final[j] = _summarise_var(vars0[j], [(b["guard"], b["vars"][j]) for b in normal], lp, vmark.get(j), markers, vmark)
    # ---- other mutable state
    _summarise_state(normal, snap, lp, final, vars0)
    setv(tuple(final))
    return None


def _alive_before(a, vars0):
    return any(v is a for v in vars0)


def _reachable(body):
    out = []
    seen = set()

    def rec(fn, depth):
        if depth == 0 or id(fn) in seen:
            return
        seen.add(id(fn))
        for c in fn.__closure__ or ():
            try:
                v = c.cell_contents
            except ValueError:
                continue
            if hasattr(v, "__closure__") and getattr(v, "__closure__", None):
                rec(v, depth - 1)
            else:
                out.append(v)

    rec(body, 3)
    return out


def _has_marker(x, markers, vmark):
    names = set(markers.values()) | {nm for _, nm in vmark.values()}
    return _mentions_names(x, names)


def _mentions_names(x, names):
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, T.Poly):
            for m in y.d:
                for a, _ in m:
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    if a.kind == "var" and a.data in names:
                        return True
                    if a.kind == "app":
                        if a.data[0] in names:
                            return True
                        stack.extend(a.data[1])
                    elif a.kind == "ind":
                        stack.append(a.data)
                    elif a.kind in ("poly", "sqrt"):
                        stack.append(a.data)
                    elif a.kind == "sum":
                        stack.extend([a.data[0], a.data[2]])
                    elif a.kind == "fun":
                        stack.extend([a.data[1], a.data[3], *a.data[4]])
        elif isinstance(y, T.B):
            if y.op in ("le", "eq"):
                stack.append(y.args[0])
            elif y.op == "pred":
                if y.args[0] in names:
                    return True
                stack.extend(y.args[1])
            elif y.op == "any":
                stack.extend([y.args[0], y.args[1][1]])
            else:
                stack.extend(y.args)
    return False


def _merge(vals):
    """[(guard, term)] -> guarded combination (guards partition)."""
    if len(vals) == 1:
        return vals[0][1]
    r = vals[-1][1]
    for g, v in reversed(vals[:-1]):
        r = Y._ite(g, v, r)
    return r


def _summarise_array(a, fn0, posts, lp, marker, all_markers, vmark):
    k = lp.iv
    nd = a.ndim
    x = [T.fresh("x") for _ in range(nd)]
    post = _merge([(g, f(*x)) for g, f in posts])
    pre = T.pred(marker, *x) if a.kind == "b" else T.app(marker, *x)
    if post == pre or post is pre:
        a._fn = fn0
        return
    others = (all_markers - {marker}) | {nm for _, nm in vmark.values()}
    # candidate slots: integer expressions e(x) with "e(x) == k" in post
    cands = []
    for kk, xx in enumerate(x):
        cands.append(xx)
    for b in _eq_atoms(post):
        p = b.args[0]
        ck = p.d.get(((lp.ia, 1),))
        if ck is None:
            continue
        rest = T.Poly({m: c for m, c in p.d.items() if m != ((lp.ia, 1),)})
        if lp.ia in rest.fv:
            continue
        e = T.scale(rest, -1 / ck)
        if e.is_int() and e not in cands:
            cands.append(e)
    th = Y.st().theory.copy()
    for xi, d in zip(x, a.dims):
        th.add(T.le0(T.neg(xi)))
        th.add(T.lt(xi, d.n))
    th.add(T.le0(T.neg(k)))
    th.add(T.lt(k, lp.n))
    for e in cands:
        goal = T.bimp(T.bnot(T.eq(e, k)), T.biff(post, pre) if a.kind == "b" else T.eq(post, pre))
        v = _under_neq(post, e, k)
        ok = (v == pre or v is pre) or S.prove(th, goal, depth=0, timeout=3000).ok
        if not ok:
            continue
        # value written in iteration e
        val = T.subst(post, {k: e})
        if _mentions_names(val, others):
            raise Unsupported("loop body couples several modified arrays across iterations")
        # reads of the array itself: only slots of the same iteration
        val = _resolve_pre(val, marker, fn0, e, x, lp, a)
        guard = T.band(T.le0(T.neg(e)), T.lt(e, lp.n))
        simple = any(e is xi and T.is_zero(T.sub(d.n, lp.n)) for xi, d in zip(x, a.dims))

        def new(*idx, val=val, guard=guard, simple=simple):
            mp = dict(zip(x, idx))
            v = T.subst(val, mp)
            if simple:
                return v
            g = T.subst(guard, mp)
            return Y._ite(g, v, fn0(*idx))

        _commit_summary(a, new)
        return
    # accumulator a[x] += t(k, x)
    if a.kind != "b":
        delta = T.sub(post, pre)
        if not _mentions_names(delta, {marker} | others):
            def new(*idx):
                mp = dict(zip(x, idx))
                return T.add(Y.ton(fn0(*idx)), T.mk_sum(lp.n, lambda t: T.subst(delta, {**mp, k: t})))

            _commit_summary(a, new)
            return
    raise Unsupported("cannot derive a loop invariant for an array written in the loop")


def _commit_summary(a, new):
    Y._commit(a, Y._memo(new), None)


def _eq_atoms(x):
    out = []
    stack = [x]
    seen = set()
    while stack:
        y = stack.pop()
        if isinstance(y, T.Poly):
            for m in y.d:
                for a, _ in m:
                    if a.id in seen:
                        continue
                    seen.add(a.id)
                    if a.kind == "ind":
                        stack.append(a.data)
                    elif a.kind == "app":
                        stack.extend(a.data[1])
                    elif a.kind in ("poly", "sqrt"):
                        stack.append(a.data)
        elif isinstance(y, T.B):
            if y.op == "eq":
                out.append(y)
            elif y.op in ("not", "and"):
                stack.extend(y.args)
            elif y.op == "pred":
                stack.extend(y.args[1])
    return out


def _under_neq(post, e, k):
    f = T.eq(e, k)
    if f.op == "eq":
        return T.subst(post, {}, {f: T.FALSE})
    return post


def _resolve_pre(val, marker, fn0, e, x, lp, a):
    """Replace pre(args) in val by the entry value; args must lie in slot e."""
    if not _mentions_names(val, {marker}):
        return val
    hits = []

    def scan(y):
        stack = [y]
        seen = set()
        while stack:
            z = stack.pop()
            if isinstance(z, T.Poly):
                for m in z.d:
                    for at, _ in m:
                        if at.id in seen:
                            continue
                        seen.add(at.id)
                        if at.kind == "app":
                            if at.data[0] == marker:
                                hits.append(at)
                            stack.extend(at.data[1])
                        elif at.kind == "ind":
                            stack.append(at.data)
                        elif at.kind in ("poly", "sqrt"):
                            stack.append(at.data)
                        elif at.kind in ("sum", "fun"):
                            if _mentions_names(T.atom_poly(at), {marker}):
                                raise Unsupported("aggregate over an array under modification")
            elif isinstance(z, T.B):
                if z.op in ("le", "eq"):
                    stack.append(z.args[0])
                elif z.op == "pred":
                    if z.args[0] == marker:
                        hits.append(z)
                    stack.extend(z.args[1])
                elif z.op == "any":
                    if _mentions_names(z, {marker}):
                        raise Unsupported("aggregate over an array under modification")
                else:
                    stack.extend(z.args)

    scan(val)
    mp = {}
    bm = {}
    for h in hits:
        args = h.data[1] if isinstance(h, T.Atom) else h.args[1]
        slot = T.subst(e, dict(zip(x, args)))
        if not T.is_zero(T.sub(slot, e)):
            raise Unsupported("iteration reads a slot written by another iteration")
        v = fn0(*args)
        if isinstance(h, T.Atom):
            mp[h] = Y.ton(v)
        else:
            bm[h] = Y.tob(v)
    s = T._Subst(mp, bm)
    s.keys = frozenset()

    # atoms are replaced structurally: force traversal
    class _All:
        def __and__(self, o):
            return True

        __rand__ = __and__

    s = _StructSubst(mp, bm)
    return s.form(val) if isinstance(val, T.B) else s.poly(val)


class _StructSubst(T._Subst):
    """Substitution of arbitrary atoms (always traverses)."""

    def __init__(self, mp, bmap):
        super().__init__(mp, bmap or {T.pred("never!"): T.FALSE})


def _summarise_var(v0, vals, lp, vm, markers, vmark):
    k = lp.iv
    names = set(markers.values()) | {nm for _, nm in vmark.values()}
    last = [v for _, v in vals]
    if not vals:
        return v0
    if vm is None:
        # not a number/array before the loop
        if type(v0) is list and all(v is v0 for v in last):
            return v0
        if all(_same(v, last[0]) for v in last) and not mentions_obj(last[0], lp.ia):
            return last[0] if v0 is UNDEF or Y.known(T.lt(T.ZERO, lp.n)) else _poison(lp)
        return _poison(lp)
    kind, nm = vm
    if kind == "n":
        ok = all(type(v) is SNum or isinstance(v, (int, float)) for v in last)
        if not ok:
            return _poison(lp)
        acc = T.var(nm, "R")
        if not any(_mentions_names(num(v), {nm}) for v in last):
            if len(vals) == 1 and not _mentions_names(num(last[0]), names) and lp.ia not in num(last[0]).fv:
                if Y.known(T.lt(T.ZERO, lp.n)):
                    return last[0]
            return _poison(lp)
        deltas = [(g, T.sub(num(v), acc)) for g, v in vals]
        if any(_mentions_names(d, names) or _mentions_names(g, names) for g, d in deltas):
            # geometric / multiplicative accumulators are outside the invariant language
            raise Unsupported("non-additive accumulator in a symbolic loop")
        d = _merge(deltas)
        tot = T.mk_sum(lp.n, lambda t: T.subst(d, {k: t}))
        return SNum(T.add(num(v0), tot))
    if kind == "b":
        if not all(type(v) is SBool or isinstance(v, bool) for v in last):
            return _poison(lp)
        mb = T.pred(nm)
        post = _merge([(g, Y._b_of(v)) for g, v in vals])
        if not _mentions_names(post, {nm}):
            if lp.ia not in post.fv and Y.known(T.lt(T.ZERO, lp.n)):
                return Y.wrap(post)
            return _poison(lp)
        pt = T.subst(post, {}, {mb: T.TRUE})
        pf = T.subst(post, {}, {mb: T.FALSE})
        if _mentions_names(pt, names) or _mentions_names(pf, names):
            raise Unsupported("coupled boolean accumulator")
        b0 = Y._b_of(v0)
        if pf is T.FALSE:
            return Y.wrap(T.band(b0, T.mk_all(lp.n, lambda t: T.subst(pt, {k: t}))))
        if pt is T.TRUE:
            return Y.wrap(T.bor(b0, T.mk_any(lp.n, lambda t: T.subst(pf, {k: t}))))
        raise Unsupported("boolean accumulator")
    if kind == "a":
        if not all(type(v) is SArr for v in last):
            return _poison(lp)
        a0 = lift(v0)
        if any(v.ndim != a0.ndim or not all(Y.same_dim(p, q) for p, q in zip(v.dims, a0.dims)) for v in last):
            return _poison(lp)
        x = [T.fresh("x") for _ in a0.dims]
        post = _merge([(g, v.fn(*x)) for g, v in vals])
        if not _mentions_names(post, {nm}):
            if lp.ia not in post.fv and len(last) == 1 and Y.known(T.lt(T.ZERO, lp.n)):
                return last[0]
            return _poison(lp)
        delta = T.sub(Y.ton(post), T.app(nm, *x))
        if _mentions_names(delta, names):
            raise Unsupported("non-additive array accumulator")
        fn0 = a0.fn

        def new(*idx):
            mp = dict(zip(x, idx))
            return T.add(Y.ton(fn0(*idx)), T.mk_sum(lp.n, lambda t: T.subst(delta, {**mp, k: t})))

        return SArr(a0.dims, Y._memo(new), "f")
    return _poison(lp)


def _poison(lp):
    return Poison()


class Poison:
    """Value of a loop temporary after the loop: any use is Unsupported."""

    def _no(self, *a, **k):
        raise Unsupported("use of a loop temporary after a symbolic loop")

    __getattr__ = __call__ = __bool__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = _no
    __truediv__ = __iter__ = __len__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = _no
    __hash__ = object.__hash__


def _summarise_state(normal, snap, lp, final, vars0):
    """Lists (append), dicts and object attributes changed by the body."""
    if not normal:
        return
    per = {}
    for b in normal:
        for o, s0, ch in b["diff"]:
            per.setdefault(id(o), (o, s0, []))[2].append((b["guard"], ch))
    for o, s0, chs in per.values():
        if type(o) is list:
            if s0 or len(chs) != len(normal):
                raise Unsupported("list modified irregularly in a symbolic loop")
            m = {len(c) for _, c in chs}
            if m != {1}:
                raise Unsupported("list append pattern")
            if len(chs) == 1:
                v = chs[0][1][0]
                k = lp.iv
                sl = SList(lp.n, lambda t, v=v: subst_obj(v, k, t))
            else:
                k = lp.iv
                gs = [(g, c[0]) for g, c in chs]
                sl = SList(lp.n, lambda t: merge_obj([(T.subst(g, {k: t}), subst_obj(v, k, t)) for g, v in gs]))
            hit = False
            for j, v in enumerate(vars0):
                if v is o:
                    final[j] = sl
                    hit = True
            if not hit:
                hit = _rebind_holder(snap, o, sl)
            if not hit:
                raise Unsupported("list appended in a symbolic loop is not a local variable")
        else:
            for g, ch in chs:
                for key, v in ch.items():
                    if v is UNDEF:
                        raise Unsupported("deletion in a symbolic loop")
                    if type(v) is SArr or mentions_obj(v, lp.ia):
                        o[key] = Poison()
                    elif len(chs) == len(normal) and all(
                        key in c and (_same(c[key], v) or c[key] is v) for _, c in chs
                    ) and Y.known(T.lt(T.ZERO, lp.n)):
                        o[key] = v
                    else:
                        o[key] = Poison()


def _rebind_holder(snap, o, sl):
    hit = False
    for h, s0 in snap.objs:
        if isinstance(h, dict):
            for key, v in s0.items():
                if v is o:
                    h[key] = sl
                    hit = True
    return hit


def merge_obj(alts):
    """[(guard, obj)] with guards partitioning -> one object."""
    objs = [o for _, o in alts]
    if all(_same(o, objs[0]) for o in objs):
        return objs[0]
    if all(type(o) is SNum or isinstance(o, (int, float)) and not isinstance(o, bool) for o in objs):
        return Y.wrap(_merge([(g, num(o)) for g, o in alts]))
    if all(type(o) is SBool or isinstance(o, bool) for o in objs):
        return Y.wrap(_merge([(g, Y._b_of(o)) for g, o in alts]))
    if all(type(o) is type(objs[0]) for o in objs) and type(objs[0]) in (tuple, list) and len({len(o) for o in objs}) == 1:
        return type(objs[0])(merge_obj([(g, o[i]) for g, o in alts]) for i in range(len(objs[0])))
    if all(type(o) is SArr for o in objs):
        r = objs[-1]
        for g, o in reversed(alts[:-1]):
            r = Y.where(Y.wrap(g), o, r)
        return r
    raise Unsupported("cannot merge branch results of a loop body")


# ------------------------------------------------------------------ comprehensions


def listcomp(fn, it):
    sl = Y.as_slist(it) if not isinstance(it, N.SGen) else it.slist
    if sl is None or (sl.n.const() is not None and sl.n.const() <= 24):
        out = []
        for x in it if sl is None else (sl.item(T.C(j)) for j in range(int(sl.n.const()))):
            out.extend(fn(x))
        return out
    return _sym_comp(fn, sl)


def genexp(fn, it):
    sl = Y.as_slist(it) if not isinstance(it, N.SGen) else it.slist
    if sl is None or (sl.n.const() is not None and sl.n.const() <= 24):
        src = it if sl is None else [sl.item(T.C(j)) for j in range(int(sl.n.const()))]
        return (y for x in src for y in fn(x))
    return N.SGen(_sym_comp(fn, sl))


def _sym_comp(fn, sl):
    acc = []

    def body(x):
        r = fn(x)
        if len(r) != 1:
            raise Unsupported("filtering comprehension over a symbolic sequence")
        acc.append(r[0])
        return None

    box = [acc]

    def getv():
        return (box[0],)

    def setv(t):
        box[0] = t[0]

    r = _sym_loop(sl, body, getv, setv)
    if r is not None:
        raise Unsupported("exit in comprehension")
    if box[0] is acc:
        raise Unsupported("comprehension summary")
    return box[0]
