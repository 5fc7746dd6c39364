"""P04: per-row gradient and curvature."""
from dv.contract import contract
from .common import Fam, Lnk, PAIRCASES, eta_vec, tame

U = ["_distribution.ExponentialDispersionModel.rowwise_gradient_hessian", "_distribution.*._rowwise_gradient_hessian", "_distribution.get_one_over_variance",
     "_functions.*_rowwise_gradient_hessian"]


def grad(F, L, y, eta, mu, w):
    return w * (y - mu) * L.dh(eta) / F.v(mu)


def expected(F, L, y, eta, mu, w):
    return w * L.dh(eta) ** 2 / F.v(mu)


def exact(F, L, y, eta, mu, w):
    """-d grad / d eta"""
    v, h1 = F.v(mu), L.dh(eta)
    return w * (h1 ** 2 / v - (y - mu) * L.d2h(eta) / v + (y - mu) * h1 ** 2 * F.dv(mu) / v ** 2)


TRUE = {("2", "Log"), ("TweedieCP", "Log")}


@contract("P04", U, PAIRCASES)
def rows(B, family, link):
    F, L = Fam(B, family), Lnk(B, link)
    n = B.dim("n")
    eta = eta_vec(B, F, L, "eta", n)
    y, w = B.vec("y", n, F.ykind), B.vec("w", n, "pos")
    tame(B, y, w)
    if B.symbolic:
        mu = B.tab_arr(lambda i: L.h(eta[i]), n)
        if F.mukind == "unit":
            B.assume(B.np.all(mu > 0)); B.assume(B.np.all(mu < 1))
    else:
        mu = L.obj.inverse(eta)
    old = [B.copy(v) for v in (eta, y, w, mu)]
    X = B.design("X", n, B.dim("p"))
    g, h = F.obj.rowwise_gradient_hessian(L.obj, None, 1.0, X, y, w, eta, mu)
    B.ensure_eq_each("gradient rows", n, lambda i: g[i], lambda i: grad(F, L, y[i], eta[i], mu[i], w[i]), rtol=1e-5)
    spec = exact if (F.cat, link) in TRUE else expected
    B.ensure_eq_each("curvature rows", n, lambda i: h[i], lambda i: spec(F, L, y[i], eta[i], mu[i], w[i]), rtol=1e-5)
    B.ensure_all("curvature non-negative", h >= 0)
    for nm, v, o in zip(("eta", "y", "weights", "mu"), (eta, y, w, mu), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P04", U, [c for c in PAIRCASES])
def zero_weight_rows(B, family, link):
    """specialised implementations accept weight zero: such a row contributes nothing"""
    F, L = Fam(B, family), Lnk(B, link)
    special = {("0", "Identity"), ("1", "Log"), ("2", "Log"), ("3", "Log"), ("TweedieCP", "Log"), ("Binomial", "Logit"), ("NegativeBinomial", "Log")}
    n = B.dim("n")
    eta = eta_vec(B, F, L, "eta", n)
    y, w = B.vec("y", n, F.ykind), B.vec("w", n, "nonneg" if (F.cat, link) in special else "pos")
    tame(B, y, w)
    mu = L.obj.inverse(eta) if not B.symbolic else B.tab_arr(lambda i: L.h(eta[i]), n)
    g, h = F.obj.rowwise_gradient_hessian(L.obj, None, 1.0, B.design("X", n, B.dim("p")), y, w, eta, mu)
    B.ensure_each("weight 0 gives gradient 0", n, lambda i: B.implies(w[i] <= 0, B.and_(g[i] <= 0, g[i] >= 0, h[i] <= 0, h[i] >= 0)))


@contract("P04", ["(lemma on the specification)"], PAIRCASES)
def gradient_is_half_negative_slope_of_deviance(B, family, link):
    F, L = Fam(B, family), Lnk(B, link)
    y, w = B.real("y", F.ykind), B.real("w", "pos")
    eta = B.real("eta", "pos" if L.ekind == "pos" or (L.name == "Identity" and F.mukind == "pos") else "real")
    tame(B, y, w)
    if not B.symbolic:
        B.assume(abs(eta) < 2.5 and (eta > 5e-2 or L.name != "Identity"))
    mu = L.h(eta)
    if B.symbolic and F.mukind == "unit":
        B.assume(mu > 0); B.assume(mu < 1)
    B.ensure_deriv("slope of the deviance", lambda e: -0.5 * w * F.d(y, L.h(e)), eta, grad(F, L, y, eta, mu, w))
    B.ensure_deriv("slope of the gradient", lambda e: -grad(F, L, y, e, L.h(e), w), eta, exact(F, L, y, eta, mu, w))


@contract("P04", ["_distribution.*.rowwise_gradient_hessian", "_distribution.*.unit_deviance"], PAIRCASES)
def gradient_matches_reported_deviance(B, family, link):
    """the gradient row belongs to the deviance the family itself reports"""
    F, L = Fam(B, family), Lnk(B, link)
    y, w = B.real("y", F.ykind), B.real("w", "pos")
    eta = B.real("eta", "pos" if L.ekind == "pos" or (L.name == "Identity" and F.mukind == "pos") else "real")
    tame(B, y, w, lo=1e-2, hi=30)
    if not B.symbolic:
        B.assume(abs(eta) < 2.5 and (eta > 5e-2 or L.name != "Identity"))
    one = lambda x: B.array([x])
    mu = L.h(eta)
    if B.symbolic and F.mukind == "unit":
        B.assume(mu > 0); B.assume(mu < 1)
    g, h = F.obj.rowwise_gradient_hessian(L.obj, None, 1.0, B.design("X", 1, B.dim("p")), one(y), one(w), one(eta), one(mu))
    B.ensure_deriv("gradient row = -1/2 slope of deviance()", lambda e: -0.5 * F.obj.deviance(one(y), one(L.h(e)), one(w)), eta, g[0])
