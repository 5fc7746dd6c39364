"""P28: starting values."""
from dv.contract import contract
from .common import Fam, Lnk, PAIRCASES, tame, tame_unit
from .c08_objective import AnyFamily
from .c12_line_search import AnyLink

GI = ["_distribution.guess_intercept", "_link.*.link", "_link.*.inverse"]
SC = ["_glm.GeneralizedLinearRegressorBase._get_start_coef", "_utils.standardize_warm_start", "_utils._one_over_var_inf_to_val"]


def weights(B, n):
    """weights as fit passes them on: non-negative with sum one (P27)"""
    w = B.vec("w", n, "nonneg")
    if not B.symbolic:
        w = w + (w.sum() == 0)
        w = w / w.sum()
        B.inputs["w"] = w
    else:
        B.assume(B.sum(n, lambda i: w[i]) == 1)
    return w


def target(B, F, n, w, link):
    y = B.vec("y", n, F.ykind)
    if not B.symbolic:
        tame(B, y)
        if F.mukind != "real":
            y[0] = 0.5
    m = B.sum(n, lambda i: y[i] * w[i])
    if link in ("Log", "TweedieP"):
        B.assume(m > 0 if B.symbolic else m > 1e-3)
    elif F.mukind != "real":
        B.assume(m > 0)
    if F.mukind == "unit":
        B.assume(B.and_(m > 0, m < 1) if B.symbolic else 1e-3 < m < 1 - 1e-3)
    i, j = B.integer("i"), B.integer("j")
    if B.symbolic:  # the target varies (a constant one is an error for all links but the identity)
        B.assume(B.and_(0 <= i, i < n, 0 <= j, j < n)); B.assume(B.or_(y[i] < y[j], y[i] > y[j]))
    else:
        B.assume(len(set(y)) > 1)
    return y, m


@contract("P28", GI, PAIRCASES, trials=25)
def null_model(B, family, link):
    """without an offset the mean at the starting intercept is the weighted mean of the target"""
    F, L = Fam(B, family), Lnk(B, link)
    n = B.dim("n", lo=2)
    w = weights(B, n)
    y, m = target(B, F, n, w, link)
    old = B.copy(y), B.copy(w)
    b = B.module("_distribution").guess_intercept(y, w, L.obj, F.obj, None)
    B.ensure_eq("mean of the null model", L.h(b), m, rtol=1e-6)
    B.ensure_frame("target unchanged", y, old[0])
    B.ensure_frame("weights unchanged", w, old[1])


@contract("P28", GI, [dict(family=f, link=l, kind=k) for f, l in (("Normal", "Identity"), ("Normal", "Log"), ("Poisson", "Log"), ("Gamma", "Log"), ("InverseGaussian", "Log"), ("TweedieCP", "Log"), ("TweedieHigh", "Log"))
                      for k in ("vector", "scalar")], trials=25)
def null_model_with_offset(B, family, link, kind):
    """with an offset the starting intercept is the stationary point of the deviance in the intercept"""
    F, L = Fam(B, family), Lnk(B, link)
    n = B.dim("n", lo=2)
    w = weights(B, n)
    y, m = target(B, F, n, w, link)
    o = B.vec("offset", n) if kind == "vector" else B.real("offset")
    if not B.symbolic:
        o = o / 40
    at = lambda i: o[i] if kind == "vector" else o
    keep = B.copy(o) if kind == "vector" else None
    if link == "Log":
        p = F.pw
        num = B.sum(n, lambda i: y[i] * B.exp(at(i)) ** (1 - p) * w[i])
        den = B.sum(n, lambda i: B.exp(at(i)) ** (2 - p) * w[i])
        B.assume(num > 0 if B.symbolic else num > 1e-3)   # otherwise no intercept is optimal
        if B.symbolic:
            B.assume(den > 0)   # a sum of positive terms, some weight being positive
    b = B.module("_distribution").guess_intercept(y, w, L.obj, F.obj, o)
    if link == "Identity":
        B.ensure_eq("score in the intercept", B.sum(n, lambda i: w[i] * (y[i] - at(i))) - b, 0 if B.symbolic else 0.0, scale=100.0)
    else:
        B.ensure_eq("score in the intercept", B.exp(b) * den, num, rtol=1e-6, atol=1e-12)
    if kind == "vector":
        B.ensure_frame("offset unchanged", o, keep)


@contract("P28", GI, [dict(link=l) for l in ("Log", "Logit", "Cloglog", "TweedieP")], trials=8)
def constant_target(B, link):
    """for links other than the identity a target without variation is an error"""
    L = Lnk(B, link)
    n = B.dim("n", lo=1)
    w, v = weights(B, n), B.real("v", "unit")
    y = B.tab_arr(lambda i: v, n)
    r = B.call(lambda: B.module("_distribution").guess_intercept(y, w, L.obj, B.module("_distribution").PoissonDistribution(), None))
    B.ensure("an error", r.raised(ValueError))


def estimator(B, intercept, scaled, **k):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X, y, w = B.design("X", n, p, storage="dense"), B.vec("y", n), B.vec("w", n, "pos")
    means, sd = B.vec("means", p), (B.vec("sd", p, "nonneg") if scaled else None)
    if not B.symbolic:
        tame(B, means, hi=1e3)
        if scaled:
            sd = B.r.choice([0.0, 1.0, 1e-2, 1e2, 0.5], size=p)
            B.inputs["sd"] = sd
    e = B.module("_glm").GeneralizedLinearRegressor(family="normal", link="identity", fit_intercept=intercept, scale_predictors=scaled, **{a: v(p) if callable(v) else v for a, v in k.items()})
    B.partial(e)
    e._center_predictors = intercept
    e._link_instance, e._family_instance = B.module("_link").IdentityLink(), B.module("_distribution").NormalDistribution()
    return n, p, X, y, w, means, sd, e


S2 = [dict(intercept=i, scaled=s) for i, s in ((True, True), (True, False), (False, False), (False, True))]


@contract("P28", SC, [dict(o, offset=k) for o in S2 for k in (True, False)], trials=12)
def default_start(B, intercept, scaled, offset):
    """slopes start at zero, the intercept at the guess for exactly these data"""
    n, p, X, y, w, means, sd, e = estimator(B, intercept, scaled)
    o = B.vec("offset", n) if offset else None
    seen, g = [], B.real("guess")

    def make(orig):
        def guess(y, sample_weight, link, distribution, eta=None):
            seen.append((y, sample_weight, link, distribution, eta))
            return g
        return guess
    B.patch("_glm", "guess_intercept", make)
    c = e._get_start_coef(X, y, w, o, means, sd, dtype=[B.np.float64, B.np.float32])
    off = int(intercept)
    B.ensure("length", c.shape[0] == p + off)
    B.ensure_each("slopes are zero", p, lambda j: B.and_(c[j + off] <= 0, c[j + off] >= 0))
    if intercept:
        B.ensure_eq("intercept", c[0], g)
        B.ensure("guessed from these data", len(seen) == 1 and seen[0][0] is y and seen[0][1] is w and seen[0][2] is e._link_instance and seen[0][3] is e._family_instance and seen[0][4] is o)


@contract("P28", SC + ["_utils.unstandardize"], [dict(o, source=k) for o in S2 for k in ("start", "warm")], trials=12)
def given_start(B, intercept, scaled, source):
    """given coefficients (or, for a warm start, those of the previous fit) are the starting point, in the user's scale"""
    n, p, X, y, w, means, sd, e = estimator(B, intercept, scaled, warm_start=source == "warm")
    off = int(intercept)
    beta, b0 = B.vec("beta", p), B.real("b0") if intercept else 0.0
    if not B.symbolic:
        tame(B, beta, hi=1e3)
        b0 = min(max(b0, -1e3), 1e3)
    if source == "warm":
        e.coef_, e.intercept_ = beta, b0
    else:
        e.start_params = B.tab_arr((lambda k: B.ite(k == 0, b0, beta[B.ite(k == 0, 0, k - 1)])) if intercept else (lambda k: beta[k]), p + off)
    keep = B.copy(beta), (B.copy(e.start_params) if source == "start" else None)
    c = e._get_start_coef(X, y, w, None, means, sd, dtype=[B.np.float64, B.np.float32])
    B.ensure("length", c.shape[0] == p + off)
    iu, cu = B.module("_utils").unstandardize(means, sd, c[0] if intercept else 0.0, B.copy(c[off:]))
    B.ensure_eq_each("slopes", p, lambda j: cu[j], lambda j: keep[0][j], rtol=1e-9)
    if intercept:
        B.ensure_eq("intercept", iu, b0, scale=None if B.symbolic else 1e6)
    B.ensure_frame("the previous coefficients are unchanged", beta, keep[0])
    if source == "start":
        B.ensure_frame("the given values are unchanged", e.start_params, keep[1])


@contract("P28", SC, [dict(o, delta=d) for o in S2 for d in (-1, 1)], trials=6)
def wrong_length(B, intercept, scaled, delta):
    n, p = B.dim("n", lo=1), B.dim("p", lo=2)
    q = p + int(intercept) + delta
    n, p, X, y, w, means, sd, e = estimator(B, intercept, scaled, start_params=lambda p: B.vec("start", p + int(intercept) + delta))
    r = B.call(lambda: e._get_start_coef(X, y, w, None, means, sd, dtype=[B.np.float64, B.np.float32]))
    B.ensure("an error", r.raised(ValueError))


@contract("P28", SC, [dict(o, solver=s) for o in S2[:3] for s in ("irls-ls", "irls-cd")], trials=6)
def warm_start_uses_last_solution(B, intercept, scaled, solver):
    """the second of two fits on the same data starts the solver exactly where the first ended"""
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X, y, w = B.design("X", n, p, storage="dense"), B.vec("y", n), B.vec("w", n, "pos")
    q = p + int(intercept)
    c1, c2 = B.vec("solution", q), B.vec("solution2", q)
    if not B.symbolic:
        tame(B, B.A(X), y, w, c1, c2, hi=1e3)
        B.inputs["X"] = B.A(X)
    B.assume(B.sum(n, lambda i: w[i]) > 0)
    e = B.module("_glm").GeneralizedLinearRegressor(alpha=1.0, family="normal", link="identity", solver=solver, fit_intercept=intercept, scale_predictors=scaled, warm_start=True)
    from .c13_direct import arguments
    starts, orig = [], e._solve

    def solve(*a, **k):
        starts.append(B.copy(arguments(orig, a, k)["coef"]))
        return B.copy(c1 if len(starts) == 1 else c2)
    e._solve = solve
    for _ in range(2):
        r = B.call(lambda: e.fit(X, y, sample_weight=w))
        B.ensure("the fit succeeds", r.ok)
        if not r.ok:
            raise r.exc
    sd = e.col_stds_
    off = int(intercept)
    B.ensure_eq_each("slopes of the second start", p, lambda j: starts[1][j + off], lambda j: c1[j + off], rtol=1e-7, atol=0 if B.symbolic else 1e-9)
    if intercept:
        B.ensure_eq("intercept of the second start", starts[1][0], c1[0], scale=None if B.symbolic else 1e7)
