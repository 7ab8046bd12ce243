"""Sensitivity elements of the models with external predictions (models.py)."""
from . import models as MD


def check(c, o, sig, alpha, rr):
    """sig, alpha, rr: functions of the repetition giving the documented residual square,
    m(W, alpha) and Riesz representer (alpha None: linear model, nu2 = 1/E[rr-residual^2])"""
    np = c.np
    e = o.m.sensitivity_elements
    nu, el = [], []
    for r in range(o.R):
        s, v = sig(r), rr(r)
        c.eq(f"sigma2 rep{r}", e["sigma2"][0, r, 0], np.mean(s))
        c.eq(f"psi_sigma2 rep{r}", e["psi_sigma2"][:, r, 0], s - np.mean(s))
        c.eq(f"riesz representer rep{r}", e["riesz_rep"][:, r, 0], v)
        x = 2 * alpha(r) - v * v
        el.append(x)
        nu.append(np.mean(x))
    bad = nu[0] <= 0
    for q in nu[1:]:
        bad = c.lor(bad, q <= 0)
    redo = c.split(bad)
    for r in range(o.R):
        if redo:  # a representer norm is positive: re-estimated from the representer itself
            v = rr(r)
            c.eq(f"nu2 rep{r}", e["nu2"][0, r, 0], np.mean(v * v))
        else:
            c.eq(f"nu2 rep{r}", e["nu2"][0, r, 0], nu[r])
            c.eq(f"psi_nu2 rep{r}", e["psi_nu2"][:, r, 0], el[r] - nu[r])


def weights(c, o, p, d, w, r, atte=False):
    np = c.np
    one = np.ones_like(o.y)
    if atte:
        u = one if w is None else o.w
        return u * d / np.mean(u * d), p * u / np.mean(u * d)
    w1 = one if w is None else o.w
    return w1, (o.wb[:, r] if w == "dict" else w1)


def irm(c, o, score, w, nrm):
    y, d = o.y, o.d

    def prop(r):
        p = o.m.predictions["ml_m"][:, r, 0]
        return MD.normalised(c, p, d) if nrm else p

    def alpha(r):
        p = prop(r)
        w1, w2 = weights(c, o, p, d, w, r, score == "ATTE")
        return w1 * w2 * (1 / p + 1 / (1 - p))

    def rr(r):
        p = prop(r)
        w1, w2 = weights(c, o, p, d, w, r, score == "ATTE")
        return w2 * (d / p - (1 - d) / (1 - p))

    check(c, o, lambda r: (y - d * o.ext["ml_g1"][:, r] - (1 - d) * o.ext["ml_g0"][:, r]) ** 2, alpha, rr)


def apo(c, o, w, nrm):
    y, t = o.y, o.t

    def prop(r):
        p = o.m.predictions["ml_m"][:, r, 0]
        return MD.normalised(c, p, t) if nrm else p

    def alpha(r):
        w1, w2 = weights(c, o, None, t, w, r)
        return w1 * w2 / prop(r)

    def rr(r):
        return weights(c, o, None, t, w, r)[1] * t / prop(r)

    check(c, o, lambda r: (y - t * o.ext["ml_g_d_lvl1"][:, r] - (1 - t) * o.ext["ml_g_d_lvl0"][:, r]) ** 2, alpha, rr)


def did(c, o, score, nrm):
    np = c.np
    y, d = o.y, o.d
    p = np.mean(d)

    def odds(r):
        m = o.m.predictions["ml_m"][:, r, 0]
        return m / (1 - m)

    def alpha(r):
        if score == "experimental":
            return (1 / p + 1 / (1 - p)) * np.ones_like(y)
        q = odds(r)
        if nrm:
            return d / p * (1 / p + q / np.mean((1 - d) * q))
        return d / p**2 * (1 + q)

    def rr(r):
        if score == "experimental":
            return d / p - (1 - d) / (1 - p)
        q = odds(r)
        if nrm:
            return d / p - (1 - d) * q / np.mean((1 - d) * q)
        return d / p - (1 - d) / p * q

    check(c, o, lambda r: (y - d * o.ext["ml_g1"][:, r] - (1 - d) * o.ext["ml_g0"][:, r]) ** 2, alpha, rr)


def did_cs(c, o, score, nrm):
    np = c.np
    y, d, t = o.y, o.d, o.t
    p, l = np.mean(d), np.mean(t)
    cell = {(a, b): (d if a else 1 - d) * (t if b else 1 - t) for a in (0, 1) for b in (0, 1)}
    sgn = lambda k: 1.0 if k[0] == k[1] else -1.0  # noqa: E731

    def odds(r):
        m = o.m.predictions["ml_m"][:, r, 0]
        return m / (1 - m)

    def wts(r):
        """weights of the four cells, before normalisation"""
        if score == "experimental":
            return cell
        q = odds(r)
        return {k: v * (1.0 if k[0] else q) for k, v in cell.items()}

    def rr(r):
        w = wts(r)
        if nrm:
            s = [sgn(k) * v / np.mean(v) for k, v in w.items()]
        elif score == "experimental":
            s = [sgn(k) * v / ((p if k[0] else 1 - p) * (l if k[1] else 1 - l)) for k, v in w.items()]
        else:
            s = [sgn(k) * v / (p * (l if k[1] else 1 - l)) for k, v in w.items()]
        return s[0] + s[1] + s[2] + s[3]

    def alpha(r):
        one = np.ones_like(y)
        if score == "experimental":
            if nrm:
                s = [1 / np.mean(v) for v in cell.values()]
            else:
                s = [1 / ((p if k[0] else 1 - p) * (l if k[1] else 1 - l)) for k in cell]
            return one * (s[0] + s[1] + s[2] + s[3])
        q = odds(r)
        if nrm:
            w = wts(r)
            s = [(1.0 if k[0] else q) / np.mean(v) for k, v in w.items()]
            return d / p * (s[0] + s[1] + s[2] + s[3])
        return d / p**2 * (1 / l + 1 / (1 - l)) * (1 + q)

    def sig(r):
        g = 0.0
        for k, v in cell.items():
            g = g + v * o.ext[f"ml_g_d{k[0]}_t{k[1]}"][:, r]
        return (y - g) ** 2

    check(c, o, sig, alpha, rr)
