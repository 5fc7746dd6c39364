"""P08: the penalised objective and its gradient."""
from dv.contract import contract
from .common import Fam, Lnk, PAIRCASES, tame, eta_vec

U = ["_solvers.eta_mu_objective", "_solvers._update_predictions", "_solvers._make_coef_P2", "_linalg._safe_lin_pred"]
UQ = ["_solvers.update_quadratic", "_solvers._make_coef_P2"]
UG = ["_solvers._get_obj_and_derivative", "_distribution.ExponentialDispersionModel._mu_deviance_derivative", "_linalg._safe_lin_pred",
      "_distribution.ExponentialDispersionModel.deviance_derivative", "_distribution.ExponentialDispersionModel.unit_deviance_derivative"]
GRID = [dict(intercept=a, pen=b) for a in (True, False) for b in ("vector", "matrix", "sparse")]


class NS:
    def __init__(self, **k):
        self.__dict__.update(k)


def state(B, p, off, **k):
    """a solver state: what is not given is arbitrary"""
    s = dict(n_iter=B.integer("n_iter"), n_cycles=B.integer("n_cycles"), converged=False, diagnostics=[], obj_val=B.real("obj_val"), norm_min_subgrad=B.real("norm_min_subgrad", "nonneg"),
             max_min_subgrad=B.real("max_min_subgrad", "nonneg"), inner_tol=B.real("inner_tol", "pos"), n_line_search=B.integer("n_line_search"), n_updated=B.integer("n_updated"),
             n_active_rows=B.integer("n_active_rows"), large_number=1e43, hessian_initialized=B.boolean("hessian_initialized"))
    if "active_set" not in k:
        s["active_set"], s["old_active_set"] = B.active_set("active", p, off), B.active_set("before", p, off)
    s.update(k)
    return NS(**s)


def penalty(B, p, pen):
    """P2 in the given form and its entries as a function"""
    if pen == "vector":
        v = B.vec("P2", p, "nonneg")
        return v, lambda a, b: B.ite(a == b, v[a], 0.0)
    M = B.mat("P2", p, p, sym=True)
    if pen == "matrix":
        return M, lambda a, b: M[a, b]
    return B.sparse_mat(M), lambda a, b: M[a, b]


def quad(B, p, P2, c, off):
    """(P2 coef)_a for a slope a"""
    return lambda a: B.sum(p, lambda b: P2(a, b) * c[b + off])


def quadform(B, p, pen, P2, c, off):
    if pen == "vector":
        return B.sum(p, lambda a: P2(a, a) * c[a + off] * c[a + off])
    return B.sum(p, lambda a: c[a + off] * B.sum(p, lambda b: P2(a, b) * c[b + off]))


def p2coef(B, p, pen, P2, c, off):
    if pen == "vector":
        return lambda a: P2(a, a) * c[a + off]
    return lambda a: B.sum(p, lambda b: P2(a, b) * c[b + off])


class AnyFamily:
    """an arbitrary family: all that is known is the contract of eta_mu_deviance / rowwise_gradient_hessian (P04, P05)"""

    def __init__(self, B, n):
        self.B, self.n = B, n
        self.seen = []

    def eta_mu_deviance(self, link, factor, cur_eta, X_dot_d, y, sample_weight):
        B, n = self.B, self.n
        eta = B.tab_arr(lambda i: cur_eta[i] + factor * X_dot_d[i], n)
        mu = B.fresh_vec("mu", n)
        dev = B.fresh_real("deviance")
        self.seen.append(NS(eta=eta, mu=mu, dev=dev, y=y, w=sample_weight, link=link, factor=factor))
        return eta, mu, dev

    def rowwise_gradient_hessian(self, link, coef, dispersion, X, y, sample_weight, eta, mu, offset=None):
        g, h = self.B.fresh_vec("g", self.n), self.B.fresh_vec("h", self.n)
        self.seen.append(NS(g=g, h=h, y=y, w=sample_weight, eta=eta, mu=mu, link=link, dispersion=dispersion))
        return g, h


class Recorder:
    """concrete runs: a real family whose results are recorded"""

    def __init__(self, B, fam):
        self.f, self.seen = fam, []

    def __getattr__(self, k):
        return getattr(self.f, k)

    def eta_mu_deviance(self, link, factor, cur_eta, X_dot_d, y, sample_weight):
        e, m, d = self.f.eta_mu_deviance(link, factor, cur_eta, X_dot_d, y, sample_weight)
        self.seen.append(NS(eta=e, mu=m, dev=d, y=y, w=sample_weight, link=link, factor=factor))
        return e, m, d

    def rowwise_gradient_hessian(self, link, coef, dispersion, X, y, sample_weight, eta, mu, offset=None):
        g, h = self.f.rowwise_gradient_hessian(link=link, coef=coef, dispersion=dispersion, X=X, y=y, sample_weight=sample_weight, eta=eta, mu=mu, offset=offset)
        self.seen.append(NS(g=g, h=h, y=y, w=sample_weight, eta=eta, mu=mu, link=link, dispersion=dispersion))
        return g, h


def any_family(B, n):
    if B.symbolic:
        return AnyFamily(B, n), None
    return Recorder(B, B.module("_distribution").PoissonDistribution()), B.module("_link").LogLink()


def problem(B, intercept, pen):
    n, p = B.dim("n"), B.dim("p", hi=None if B.symbolic else 5)
    off = 1 if intercept else 0
    X = B.design("X", n, p)
    y, w = B.vec("y", n, "nonneg"), B.vec("w", n, "nonneg")
    coef = B.vec("coef", p + off)
    P1 = B.vec("P1", p, "nonneg")
    P2, P2f = penalty(B, p, pen)
    if not B.symbolic:
        A = B.A(X)
        A *= 0.3
        X = B.tab.DenseMatrix(A)
        coef *= 0.3
    xa = lambda i, k: X_aug(B, X, intercept, i, k)
    return n, p, off, X, y, w, coef, P1, P2, P2f, xa


def X_aug(B, X, intercept, i, k):
    A = B.A(X)
    return A[i, k] if not intercept else B.ite(k == 0, 1.0, A[i, B.ite(k == 0, 0, k - 1)])


def lin(B, X, coef, p, off, i):
    A = B.A(X)
    s = B.sum(p, lambda k: A[i, k] * coef[k + off])
    return s + coef[0] if off else s


@contract("P08", U, GRID)
def objective(B, intercept, pen):
    n, p, off, X, y, w, coef, P1, P2, P2f, xa = problem(B, intercept, pen)
    fam, link = any_family(B, n)
    S = B.module("_solvers")
    eta0, xd, fac = B.vec("eta0", n), B.vec("xd", n), B.real("factor")
    tame(B, eta0, xd, fac, hi=6, lo=0)
    if not B.symbolic:
        B.assume(abs(eta0 + fac * xd).max() < 20)
    old = [B.copy(v) for v in (coef, P1, eta0, xd, y, w)]
    oldP2 = B.copy(P2)
    eta, mu, obj, cP2 = S.eta_mu_objective(fam, link, xd, fac, coef, eta0, y, w, P1, P2, off)
    r = fam.seen[-1]
    B.ensure_eq("predictor", eta, r.eta)
    B.ensure_eq("mean", mu, r.mu)
    B.ensure_eq("deviance of the targets", r.y, y)
    B.ensure_eq("deviance with the weights", r.w, w)
    B.ensure_eq_each("deviance at predictor + step", n, lambda i: r.eta[i], lambda i: eta0[i] + fac * xd[i])
    l1 = B.sum(p, lambda a: P1[a] * abs(coef[a + off]))
    q = quadform(B, p, pen, P2f, coef, off)
    B.ensure_eq("objective = deviance/2 + L1 + L2/2", obj, r.dev / 2 + l1 + q / 2, scale=1.0)
    f = p2coef(B, p, pen, P2f, coef, off)
    B.ensure_eq_each("gradient of the L2 part", p, lambda a: cP2[a + off], f, scale=1.0)
    B.ensure_eq("length of the L2 gradient", cP2.shape[0], p + off)
    if off:
        B.ensure_eq("intercept not penalised", cP2[0], 0.0)
    for nm, v, o in zip(("coef", "P1", "eta", "direction", "y", "weights"), (coef, P1, eta0, xd, y, w), old):
        B.ensure_frame(nm + " unchanged", v, o)
    if pen != "sparse":
        B.ensure_frame("P2 unchanged", P2, oldP2)


@contract("P08", U, GRID)
def predictions_from_scratch(B, intercept, pen):
    """_update_predictions without a direction starts from X coef + offset"""
    n, p, off, X, y, w, coef, P1, P2, P2f, xa = problem(B, intercept, pen)
    fam, link = any_family(B, n)
    S = B.module("_solvers")
    o = B.vec("offset", n) if B.choice("has_offset", [True, False]) else None
    tame(B, y, w)
    if not B.symbolic:
        B.assume(abs(B.A(X)).max() < 4 and abs(coef).max() < 3 and (o is None or abs(o).max() < 5))
    data = NS(X=X, y=y, sample_weight=w, P1=P1, P2=P2, offset=o, family=fam, link=link, intercept_offset=off)
    state = NS(eta=B.np.zeros(n))
    eta, mu, obj, cP2 = S._update_predictions(state, data, coef)
    B.ensure_eq_each("predictor", n, lambda i: eta[i], lambda i: lin(B, X, coef, p, off, i) + (o[i] if o is not None else 0), scale=1.0)
    r = fam.seen[-1]
    B.ensure_eq("objective", obj, r.dev / 2 + B.sum(p, lambda a: P1[a] * abs(coef[a + off])) + quadform(B, p, pen, P2f, coef, off) / 2, scale=1.0)


@contract("P08", ["_linalg._safe_lin_pred"], [dict(intercept=True), dict(intercept=False)])
def linear_predictor(B, intercept):
    n, p = B.dim("n"), B.dim("p")
    off = 1 if intercept else 0
    X, coef = B.design("X", n, p), B.vec("coef", p + off)
    o = B.vec("offset", n) if B.choice("has_offset", [True, False]) else None
    old = [B.copy(v) for v in (coef, o if o is not None else coef)]
    r = B.fn("_linalg", "_safe_lin_pred")(X, coef, o) if o is not None else B.fn("_linalg", "_safe_lin_pred")(X, coef)
    B.ensure_eq_each("X coef + intercept + offset", n, lambda i: r[i], lambda i: lin(B, X, coef, p, off, i) + (o[i] if o is not None else 0), scale=10.0)
    B.ensure_eq("one predictor per row", r.shape[0], n)
    B.ensure_frame("coef unchanged", coef, old[0])
    if o is not None:
        B.ensure_frame("offset unchanged", o, old[1])


@contract("P08", UQ, GRID)
def gradient(B, intercept, pen):
    """score = gradient rows times augmented design - P2 coef: minus the gradient of the smooth part"""
    n, p, off, X, y, w, coef, P1, P2, P2f, xa = problem(B, intercept, pen)
    fam, link = any_family(B, n)
    S = B.module("_solvers")
    eta, mu = B.vec("eta", n), B.vec("mu", n, "pos")
    tame(B, eta, mu, y, w, hi=20)
    cP2 = B.tab_arr(lambda a: B.ite(a < off, 0.0, 1.0) * p2coef(B, p, pen, P2f, coef, off)(B.ite(a < off, 0, a - off)), p + off) if B.symbolic else S._make_coef_P2(off, P2, coef)
    data = NS(X=X, y=y, sample_weight=w, P1=P1, P2=P2, offset=None, family=fam, link=link, intercept_offset=off, fit_intercept=intercept)
    state = NS(eta=eta, mu=mu, coef=coef)
    old = [B.copy(v) for v in (eta, mu, coef, cP2)]
    g, score, h = S.update_quadratic(state, data, cP2)
    r = fam.seen[-1]
    B.ensure_eq("gradient rows", g, r.g)
    B.ensure_eq("curvature rows", h, r.h)
    B.ensure_eq("rows at the current predictor", r.eta, eta)
    B.ensure_eq("rows at the current mean", r.mu, mu)
    B.ensure_eq("rows with unit dispersion", r.dispersion, 1)
    B.ensure_eq("rows for the targets", r.y, y)
    B.ensure_eq("rows with the weights", r.w, w)
    A = B.A(X)
    B.ensure_eq_each("slope gradient", p, lambda a: score[a + off], lambda a: B.sum(n, lambda i: r.g[i] * A[i, a]) - p2coef(B, p, pen, P2f, coef, off)(a), scale=10.0)
    if off:
        B.ensure_eq("intercept gradient", score[0], B.sum(n, lambda i: r.g[i]), scale=10.0)
    B.ensure_eq("length of the gradient", score.shape[0], p + off)
    for nm, v, o in zip(("eta", "mu", "coef", "P2 coef"), (eta, mu, coef, cP2), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P08", UG, [dict(family=a["family"], link=a["link"], intercept=b) for a in PAIRCASES for b in (True, False)])
def smooth_solvers(B, family, link, intercept):
    """objective and gradient handed to the L-BFGS and trust-region solvers"""
    F, L = Fam(B, family), Lnk(B, link)
    n, p = B.dim("n"), B.dim("p", hi=None if B.symbolic else 4)
    off = 1 if intercept else 0
    y, w = B.vec("y", n, F.ykind), B.vec("w", n, "nonneg")
    tame(B, y, w)
    coef = B.vec("coef", p + off)
    pen = B.choice("pen", ["vector", "matrix"])
    P2, P2f = penalty(B, p, pen)
    e = eta_vec(B, F, L, "eta", n)
    if B.symbolic:
        # by the contract of _safe_lin_pred (linear_predictor below) the predictor is X coef + offset =: eta
        X = B.design("X", n, p)
        o = B.vec("offset", n)

        def safe_lin_pred(X_, coef_, offset_=None):
            B.ensure_eq("predictor of the design", X_, X)
            B.ensure_eq("predictor of the coefficients", coef_, coef)
            B.ensure_eq("predictor with the offset", offset_, o)
            return B.copy(e)
        B.stub("_distribution", "_safe_lin_pred", safe_lin_pred)
    else:
        X = B.design("X", n, p, storage="dense")
        coef *= 0.3
        o = e - (B.A(X) @ coef[off:] + (coef[0] if off else 0))
    old = [B.copy(v) for v in (y, w, coef, o, P2)]
    S = B.module("_solvers")
    obj, g = S._get_obj_and_derivative(coef, X, y, w, P2, F.obj, L.obj, o)
    h = B.tab_arr(lambda i: L.h(e[i]), n)
    if F.mukind == "unit":
        if B.symbolic:
            B.assume(B.np.all(h > 50 * 2.220446049250313e-16)); B.assume(B.np.all(h < 1 - 50 * 2.220446049250313e-16))
        else:
            B.assume(B.np.all(h > 1e-10)); B.assume(B.np.all(h < 1 - 1e-10))
    A = B.A(X)
    mu = L.obj.inverse(e)
    dev = F.obj.deviance(y, mu, w)
    B.ensure_eq("objective", obj, dev / 2 + quadform(B, p, pen, P2f, coef, off) / 2, rtol=1e-5, scale=1.0)
    row = lambda i: w[i] * L.dh(e[i]) * (mu[i] - y[i]) / F.v(mu[i])
    sc = 1.0 if B.symbolic else 1 + float(abs(B.np.asarray([row(i) for i in range(n)])).sum() * (1 + abs(A).max()))
    B.ensure_eq_each("gradient", p, lambda a: g[a + off], lambda a: B.sum(n, lambda i: row(i) * A[i, a]) + p2coef(B, p, pen, P2f, coef, off)(a), rtol=1e-5, scale=sc)
    if off:
        B.ensure_eq("gradient of the intercept", g[0], B.sum(n, row), rtol=1e-5, scale=sc)
    B.ensure_eq("length of the gradient", g.shape[0], p + off)
    for nm, v, o_ in zip(("y", "weights", "coef", "offset", "P2"), (y, w, coef, o, P2), old):
        B.ensure_frame(nm + " unchanged", v, o_)
