"""From the user's data and settings to the problem given to the solver, and from the solver's coefficients to the reported ones
(P22 bounds, P26 the caller's data, P27 weights)."""
from dv.contract import contract
from .common import tame
from .c13_direct import arguments

G = "_glm.GeneralizedLinearRegressor."
BASE = "_glm.GeneralizedLinearRegressorBase."
T = [G + "fit", G + "_validate_hyperparameters", BASE + "_validate_hyperparameters", BASE + "_set_up_and_check_fit_args", BASE + "_set_up_for_fit",
     "_glm.setup_p1", "_glm.setup_p2", "_utils.standardize", "_utils.unstandardize", "_validation.check_bounds", "_validation.check_weights",
     "_validation.check_offset", "_validation.check_inequality_constraints"]


class Fit:
    """one call of fit with the solver replaced by arbitrary coefficients"""


def run(B, intercept=True, scaled=False, bounds=False, ineq=False, weights="vector", offset=True, pen="vector", store=None, copy=None, start=False, alpha="number", w=None, prepare=None, fit_args={}):
    F = Fit()
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    D, w0 = B.design("X", n, p, storage=store or "dense"), B.vec("w", n, "pos")
    if not B.symbolic:
        tame(B, B.A(D), w0, hi=1e3)
    F.n, F.p, F.X = n, p, D
    F.y = B.vec("y", n)
    F.w = w if w is not None else (w0 if weights == "vector" else B.real("weight", "pos") if weights == "scalar" else None)
    F.o = B.vec("offset", n) if offset else None
    F.P1 = B.vec("P1", p, "nonneg") if pen == "vector" else "identity"
    F.P2 = B.vec("P2", p, "nonneg") if pen == "vector" else "identity"
    F.alpha = B.real("alpha", "nonneg") if alpha == "number" else None
    if F.w is not None and weights == "vector":
        B.assume(B.sum(n, lambda i: F.w[i]) > 0)
    F.l1 = B.real("l1_ratio", "unitc")
    F.lb = B.vec("lb", p) if bounds else None
    F.ub = B.vec("ub", p) if bounds else None
    if bounds:
        if not B.symbolic:
            F.lb, F.ub = B.np.minimum(F.lb, F.ub), B.np.maximum(F.lb, F.ub)
        B.assume(B.forall(p, lambda j: F.lb[j] <= F.ub[j]))
    m = B.dim("m", lo=1)
    F.A, F.b = (B.mat("A", m, p), B.vec("b", m)) if ineq else (None, None)
    q = p + 1 if intercept else p
    F.start = B.vec("start", q) if start else None
    F.c = B.vec("solution", q)
    if not B.symbolic:
        tame(B, F.y, F.c, hi=1e3)
        for v in (F.o, F.lb, F.ub, F.A, F.b, F.start, F.P1, F.P2):
            if hasattr(v, "shape"):
                tame(B, v, hi=1e3)
        if F.alpha is not None:
            F.alpha = min(F.alpha, 1e3)
    G_ = B.module("_glm").GeneralizedLinearRegressor
    solver = "trust-constr" if ineq else "irls-cd"
    if ineq:
        F.l1 = 0
    e = F.e = G_(alpha=F.alpha, l1_ratio=F.l1, P1=F.P1, P2=F.P2, fit_intercept=intercept, family="normal", link="identity", solver=solver, scale_predictors=scaled,
                 lower_bounds=F.lb, upper_bounds=F.ub, A_ineq=F.A, b_ineq=F.b, copy_X=copy, start_params=F.start)
    F.args = None
    given = B.copy(F.c)
    orig = e._solve

    def solve(*a, **k):
        F.args = arguments(orig, a, k)
        return B.copy(given)
    e._solve = solve
    F.coef0 = B.vec("coef0", q)
    if not start:
        so = e._get_start_coef

        def start_coef(*a, **k):
            F.start_args = arguments(so, a, k)
            return F.coef0
        e._get_start_coef = start_coef
    def watch(orig):
        def f(*a, **k):
            F.std_args = arguments(orig, a, k)
            return orig(*a, **k)
        return f
    B.patch("_glm", "standardize", watch)
    F.old = {k: B.copy(v) for k, v in dict(y=F.y, w=F.w, o=F.o, P1=F.P1, P2=F.P2, lb=F.lb, ub=F.ub, A=F.A, b=F.b, start=F.start, X=B.A(D)).items() if hasattr(v, "shape")}
    if prepare:
        prepare(F)
    F.out = B.call(lambda: e.fit(D, F.y, sample_weight=F.w, offset=F.o, **fit_args))
    B.ensure("the fit succeeds", F.out.ok)
    if not F.out.ok:
        raise F.out.exc
    return F


OPT = [dict(intercept=i, scaled=s) for i, s in ((True, True), (True, False), (False, False))]


@contract("P27", T, [dict(o, weights=w, store=s) for o in OPT for w in ("vector", "scalar", "none") for s in ("array", "dense", "sparse")], trials=8)
def normalised_weights(B, intercept, scaled, weights, store):
    F = run(B, intercept, scaled, weights=weights, store=store)
    wt = (lambda i: F.old["w"][i]) if weights == "vector" else (lambda i: 1)
    W = B.sum(F.n, wt)
    for what, ws in (("solver", F.args["sample_weight"]), ("standardisation", F.std_args["sample_weight"]), ("starting values", F.start_args["sample_weight"])):
        B.ensure_eq_each("weights of the " + what + " are the given ones over their sum", F.n, lambda i: ws[i], lambda i: wt(i) / W)


@contract("P27", T, [dict(o, weights=w) for o in OPT for w in ("vector", "scalar")], trials=8)
def rescaled_weights(B, intercept, scaled, weights):
    """fitting again with all weights multiplied by a constant hands the solver the same problem"""
    F = run(B, intercept, scaled, weights=weights)
    a1, s1, m1 = F.args, F.start_args, F.e.col_means_
    t1 = F.std_args["sample_weight"]
    c = B.real("c", "pos")
    if not B.symbolic:
        c = min(max(c, 1e-6), 1e6)
    w = F.old["w"] if weights == "vector" else F.w
    w2 = B.tab_arr(lambda i: c * w[i], F.n) if weights == "vector" else c * w
    if weights == "vector":
        B.assume(B.sum(F.n, lambda i: w2[i]) > 0)  # a consequence, named for the validation's test
    r = B.call(lambda: F.e.fit(F.X, F.y, sample_weight=w2, offset=F.o))
    B.ensure("the second fit succeeds", r.ok)
    a2, s2 = F.args, F.start_args
    B.ensure_eq_each("same weights", F.n, lambda i: a2["sample_weight"][i], lambda i: a1["sample_weight"][i])
    B.ensure_eq_each("same weights for starting values", F.n, lambda i: s2["sample_weight"][i], lambda i: s1["sample_weight"][i])
    B.ensure_eq_each("same offset", F.n, lambda i: a2["offset"][i], lambda i: a1["offset"][i])
    B.ensure_eq_each("same targets", F.n, lambda i: a2["y"][i], lambda i: a1["y"][i])
    tol = {} if B.symbolic else dict(rtol=1e-6)
    B.ensure_eq_each("same weights for centring and scaling", F.n, lambda i: F.std_args["sample_weight"][i], lambda i: t1[i])
    if not B.symbolic:  # functions of the above
        B.ensure_eq_each("same column means", F.p, lambda j: F.e.col_means_[j], lambda j: m1[j], scale=B.np.max(abs(B.A(F.X))) + 1e-300)
        for k in ("P1", "P2"):
            B.ensure_eq_each("same " + k, F.p, lambda j: a2[k][j], lambda j: a1[k][j], rtol=1e-5)


from .common import Fam, FAMILIES, Lnk, PAIRCASES, eta_vec, tame_unit


@contract("P27", ["_distribution.*.deviance", "_distribution.*.unit_deviance"], [dict(family=f) for f in FAMILIES], trials=20)
def weightless_row_leaves_the_deviance(B, family):
    """whatever target and mean an observation of weight zero has, the deviance is the same"""
    F = Fam(B, family)
    n = B.dim("n", lo=1)
    k = B.integer("k")
    if not B.symbolic:
        k = int(B.r.integers(n))
    B.assume(B.and_(k >= 0, k < n))
    y, mu, w0 = B.vec("y", n, F.ykind), B.vec("mu", n, F.mukind), B.vec("w", n, "nonneg")
    y2, mu2 = B.real("y_k", F.ykind), B.real("mu_k", F.mukind)
    tame(B, y, mu, y2, mu2, w0)
    if F.cat == "Binomial":
        tame_unit(B, mu, mu2)
    w = B.tab_arr(lambda i: B.ite(i == k, 0.0, w0[i]), n)
    yy, mm = B.tab_arr(lambda i: B.ite(i == k, y2, y[i]), n), B.tab_arr(lambda i: B.ite(i == k, mu2, mu[i]), n)
    B.ensure_eq("deviance", F.obj.deviance(yy, mm, w), F.obj.deviance(y, mu, w), rtol=1e-9, scale=None if B.symbolic else 1e3)


SPECIAL = {("0", "Identity"), ("1", "Log"), ("2", "Log"), ("3", "Log"), ("TweedieCP", "Log"), ("Binomial", "Logit"), ("NegativeBinomial", "Log")}


@contract("P27", ["_distribution.ExponentialDispersionModel.rowwise_gradient_hessian", "_distribution.*._rowwise_gradient_hessian", "_functions.*_rowwise_gradient_hessian",
                  "_distribution.get_one_over_variance"], PAIRCASES, trials=20)
def weightless_row_has_no_gradient(B, family, link):
    """the gradient and curvature rows of an observation of weight zero are zero"""
    F, L = Fam(B, family), Lnk(B, link)
    n = B.dim("n", lo=1)
    eta = eta_vec(B, F, L, "eta", n)
    y, w = B.vec("y", n, F.ykind), B.vec("w", n, "nonneg")
    if not B.symbolic:
        w = w * (B.r.random(n) < 0.6)
    tame(B, y, w)
    mu = L.obj.inverse(eta) if not B.symbolic else B.tab_arr(lambda i: L.h(eta[i]), n)
    g, h = F.obj.rowwise_gradient_hessian(L.obj, None, 1.0, B.design("X", n, B.dim("p")), y, w, eta, mu)
    B.ensure_each("gradient", n, lambda i: B.implies(w[i] <= 0, B.and_(g[i] <= 0, g[i] >= 0)))
    B.ensure_each("curvature", n, lambda i: B.implies(w[i] <= 0, B.and_(h[i] <= 0, h[i] >= 0)))
