"""Standard errors: plug-in sandwich of the stored score and its derivative."""
from vc.harness import contract

from .c02_estimate import stub_fit


@contract("C03", targets=["doubleml.utils._estimation._var_est"])
def sandwich_iid(c):
    f = c.target("doubleml.utils._estimation._var_est")
    n = c.n("n", 1)
    psi, dpsi = c.arr("psi", n), c.arr("dpsi", n)
    c.assume(c.np.sum(dpsi) != 0)
    s2, vs = f(psi=psi, psi_deriv=dpsi, smpls=None, is_cluster_data=False)
    c.eq("scaling factor is the sample size", vs, n)
    c.eq("variance is mean(psi^2) / (n * mean(dpsi)^2)", s2, c.np.mean(psi * psi) / (n * c.np.mean(dpsi) ** 2))
    c.true("variance is nonnegative", s2 >= 0)


@contract("C03", targets=["doubleml.double_ml.DoubleML.fit"], stubs=["_nuisance_est (arbitrary score elements)"], weight=5)
def fit_standard_errors(c):
    R, J = 2, 3
    m, dd, n, el, pr, calls, d = stub_fit(c, R, J)
    for key in el:
        c.assume(c.np.sum(el[key][0]) != 0)
    m.fit()
    for r in range(R):
        for j in range(J):
            pa, pb = el[(r, j)]
            psi = pa * m.all_coef[j, r] + pb
            v = c.np.mean(psi * psi) / (n * c.np.mean(pa) ** 2)
            c.eq(f"se^2 is the sandwich rep{r} treat{j}", m.all_se[j, r] ** 2, v)
            c.true(f"se is nonnegative rep{r} treat{j}", m.all_se[j, r] >= 0)
            c.eq(f"framework carries score/derivative rep{r} treat{j}", m.framework.scaled_psi[:, j, r], psi / c.np.mean(pa))
    c.eq("framework all_ses", m.framework.all_ses, m.all_se)
    c.eq("framework all_thetas", m.framework.all_thetas, m.all_coef)
    for j in range(J):
        c.eq(f"scaling factor treat{j}", m.framework.var_scaling_factors[j], n)


@contract("C03", targets=["doubleml.utils._estimation._var_est"], samples=40)
def sandwich_one_way(c):
    """one-way clusters: mean over folds of (1/|I_k|) sum_g (sum_{i in g} psi_i)^2"""
    f = c.target("doubleml.utils._estimation._var_est")
    n, G, K = c.n("n", 4), c.choice("G", [4, 5]), 2
    psi, dpsi = c.arr("psi", n), c.arr("dpsi", n)
    cl = c.labels("cl", n, range(G))
    np = c.np
    I = [np.array([0.0, 1.0]), np.array([float(g) for g in range(2, G)])]
    smpls = [(np.where(cl >= 2)[0], np.where(cl < 2)[0]), (np.where(cl < 2)[0], np.where(cl >= 2)[0])]
    sc = [([I[1]], [I[0]]), ([I[0]], [I[1]])]
    jh = [np.sum(np.where(cl < 2, dpsi, 0.0)), np.sum(np.where(cl >= 2, dpsi, 0.0))]
    den = jh[0] / 2 + jh[1] / (G - 2)
    c.assume(den != 0)
    s2, vs = f(psi=psi, psi_deriv=dpsi, smpls=smpls, is_cluster_data=True, cluster_vars=cl.reshape(-1, 1), smpls_cluster=sc, n_folds_per_cluster=K)
    c.eq("scaling factor is the number of clusters", vs, G)
    sg = [np.sum(np.where(cl == g, psi, 0.0)) for g in range(G)]
    gam = (sg[0] ** 2 + sg[1] ** 2) / 2 + sum((sg[g] ** 2 for g in range(2, G)), 0.0) / (G - 2)
    c.eq("cluster sandwich", s2, (gam / K) / (G * (den / K) ** 2))
    c.true("variance is nonnegative", s2 >= 0)


@contract("C03", targets=["doubleml.utils._estimation._var_est"], samples=40)
def sandwich_two_way(c):
    """two-way clusters: per fold, within-row and within-column sums inside the fold's block"""
    f = c.target("doubleml.utils._estimation._var_est")
    n, kk = c.n("n", 4), 2
    G, H = c.choice("clusters", [(2, 2), (2, 3), (3, 2), (3, 3)])
    np = c.np
    psi, dpsi = c.arr("psi", n), c.arr("dpsi", n)
    a, b = c.labels("a", n, range(G)), c.labels("b", n, range(H))
    As, Bs = [[0], list(range(1, G))], [[0], list(range(1, H))]
    smpls, sc, gam, jh = [], [], 0.0, 0.0
    for A in As:
        for B in Bs:
            inA, inB = a == A[0], b == B[0]
            for h in B[1:]:
                inB = inB | (b == h)
            for g in A[1:]:
                inA = inA | (a == g)
            inb = inA & inB
            smpls.append((np.where(~inb)[0], np.where(inb)[0]))
            sc.append((None, [np.array([float(x) for x in A]), np.array([float(x) for x in B])]))
            const = min(len(A), len(B)) / (len(A) * len(B)) ** 2
            rows = [np.sum(np.where((a == g) & inb, psi, 0.0)) for g in A]
            cols = [np.sum(np.where((b == h) & inb, psi, 0.0)) for h in B]
            gam = gam + const * sum((x**2 for x in rows + cols), 0.0)
            jh = jh + np.sum(np.where(inb, dpsi, 0.0)) / (len(A) * len(B))
    c.assume(jh != 0)
    cv = np.column_stack([a, b])
    s2, vs = f(psi=psi, psi_deriv=dpsi, smpls=smpls, is_cluster_data=True, cluster_vars=cv, smpls_cluster=sc, n_folds_per_cluster=kk)
    c.eq("scaling factor is the smaller cluster count", vs, min(G, H))
    c.eq("two-way cluster sandwich", s2, (gam / kk**2) / (min(G, H) * (jh / kk**2) ** 2))
    c.true("variance is nonnegative", s2 >= 0)
