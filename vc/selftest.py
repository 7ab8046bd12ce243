"""Engine self-test: true contracts are discharged, false ones are not.

Run by setup_cmd; a wrong answer here means the verifier cannot be trusted."""
import sys

from .harness import Contract, run_symbolic


def cases():
    def lin(c):
        n = c.n("n", 1)
        a, b = c.arr("a", n), c.arr("b", n)
        c.eq("sum is linear", c.np.sum(2 * a + b), 2 * c.np.sum(a) + c.np.sum(b))

    def lin_bad(c):
        n = c.n("n", 1)
        a, b = c.arr("a", n), c.arr("b", n)
        c.eq("x", c.np.sum(a * b), c.np.sum(a) * c.np.sum(b))

    def mean_bad(c):
        n = c.n("n", 1)
        a = c.arr("a", n)
        c.eq("x", c.np.mean(a), c.np.sum(a))

    def mask(c):
        n = c.n("n", 1)
        a, d = c.arr("a", n), c.arr("d", n, kind="binary")
        c.eq("split by a binary variable", c.np.sum(a), c.np.sum(a * d) + c.np.sum(c.np.where(d == 0, a, 0.0)))

    def mask_bad(c):
        n = c.n("n", 1)
        a, d = c.arr("a", n), c.arr("d", n)
        c.eq("x", c.np.sum(a), c.np.sum(a * d) + c.np.sum(c.np.where(d == 0, a, 0.0)))

    def loop(c):
        n = c.n("n", 1)
        a = c.arr("a", n)
        p = c.partition("p", n, c.n("K", 1))
        tot = c.np.zeros(n)
        for tr, te in p:
            tot[te] = a[te]
        c.eq("a partition covers every entry once", tot, a)

    def le(c):
        x, y = c.real("x"), c.real("y")
        c.true("square", x * x + y * y >= 2 * x * y)

    def le_bad(c):
        x, y = c.real("x"), c.real("y")
        c.true("x", x * x >= x * y)

    def clip_bad(c):
        n = c.n("n", 1)
        a = c.arr("a", n)
        c.eq("x", c.np.clip(a, 0, 1), a)

    def any_builtin(c):
        from . import npmodel as N

        n = c.n("n", 1)
        a = c.arr("a", n)
        b = N.bi_any(a > 0)
        c.true("builtin and numpy reduction agree", c.land(c.implies(b, c.np.any(a > 0)), c.implies(c.np.any(a > 0), b)))
        b = N.bi_all(a > 0)
        c.true("the same for all", c.land(c.implies(b, c.np.all(a > 0)), c.implies(c.np.all(a > 0), b)))

    def any_bad(c):
        from . import npmodel as N

        n = c.n("n", 1)
        a = c.arr("a", n)
        c.true("x", N.bi_any(a > 0))

    return [(any_builtin, True), (any_bad, False), (lin, True), (lin_bad, False), (mean_bad, False), (mask, True), (mask_bad, False), (le, True), (le_bad, False), (clip_bad, False)]


def main():
    from . import loader

    loader.install()
    import doubleml  # noqa: F401

    bad = 0
    for fn, want in cases():
        con = Contract("SELF", fn.__name__, fn, [], "proof", 1, "", [], "", 1)
        r = run_symbolic(con, dict(timeout=5000, budget=30))
        ok = bool(r["results"]) and all(x["ok"] for x in r["results"]) and not r["unsupported"] and not r["exceptions"]
        good = ok == want and (want or bool(r["results"]))
        bad += not good
        print(("ok   " if good else "WRONG"), fn.__name__, "discharged" if ok else "not discharged", r["unsupported"][:1], [e["msg"] for e in r["exceptions"]][:1])
    return bad


if __name__ == "__main__":
    sys.exit(main())
