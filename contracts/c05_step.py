"""P05: taking a step."""
from dv.contract import contract
from .common import Fam, Lnk, PAIRCASES, eta_vec, tame

U = ["_distribution.ExponentialDispersionModel.eta_mu_deviance", "_distribution.*._eta_mu_deviance", "_functions.*_eta_mu_deviance"]
EPS50 = 50 * 2.220446049250313e-16


@contract("P05", U, PAIRCASES)
def step(B, family, link):
    F, L = Fam(B, family), Lnk(B, link)
    n = B.dim("n")
    y, w = B.vec("y", n, F.ykind), B.vec("w", n, "nonneg")
    tame(B, y, w)
    res = []
    pos = L.ekind == "pos" or (L.name == "Identity" and F.mukind == "pos")
    for k in ("1", "2"):
        cur, xd, fac = B.vec("cur_eta" + k, n), B.vec("X_dot_d" + k, n), B.real("factor" + k)
        if not B.symbolic:
            fac = max(-2.0, min(2.0, fac))
            if pos:
                cur, xd, fac = abs(cur) + 0.05, abs(xd), abs(fac)
            B.assume(abs(cur + fac * xd).max() < (2.5 if L.name == "Cloglog" else 6))
        elif pos:
            # any step that stays in range: cur = (positive new predictor) - fac * xd
            new = B.vec("new_eta" + k, n, "pos")
            cur = B.tab_arr(lambda i, new=new, xd=xd, fac=fac: new[i] - fac * xd[i], n)
        old = [B.copy(v) for v in (cur, xd, y, w)]
        eta, mu, dev = F.obj.eta_mu_deviance(L.obj, fac, cur, xd, y, w)
        B.ensure_eq_each("predictor is old predictor + step", n, lambda i: eta[i], lambda i: cur[i] + fac * xd[i])
        if link in ("Logit", "Cloglog"):
            h = B.tab_arr(lambda i: L.h(cur[i] + fac * xd[i]), n)
            B.ensure_each("mean is the inverse link (clipped at the ends of (0,1) at most)", n, lambda i: B.or_(
                B.and_(h[i] <= EPS50 * 1.01, mu[i] <= EPS50 * 1.01), B.and_(h[i] >= 1 - EPS50 * 1.01, mu[i] >= 1 - EPS50 * 1.01), abs(mu[i] - h[i]) <= 1e-12))
        else:
            B.ensure_eq_each("mean is the inverse link", n, lambda i: mu[i], lambda i: L.h(cur[i] + fac * xd[i]), rtol=1e-5)
        for nm, v, o in zip(("current predictor", "direction", "y", "weights"), (cur, xd, y, w), old):
            B.ensure_frame(nm + " unchanged", v, o)
        res.append((eta, mu, dev))
    (e1, m1, d1), (e2, m2, d2) = res
    ref = lambda mu: B.sum(n, lambda i: w[i] * F.d(y[i], mu[i]))
    B.ensure_eq("deviance up to a constant", d1 - d2, ref(m1) - ref(m2), rtol=1e-5, scale=0.0 if B.symbolic else 1e2 * (1 + abs(ref(m1)) + abs(ref(m2)) + abs(d1) + abs(d2)) / 1e2)
    D = F.obj.deviance
    B.ensure_eq("agrees with deviance()", d1 - d2, D(y, m1, w) - D(y, m2, w), rtol=1e-5, scale=0.0 if B.symbolic else 1 + abs(ref(m1)) + abs(ref(m2)) + abs(d1) + abs(d2))
