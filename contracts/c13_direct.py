"""P13: direct solvers and the choice of solver."""
from dv.contract import contract
from .c08_objective import NS, X_aug, tame
from .c09_hessian import pen_of, pen_at, gram, two

T = ["_linalg._solve_least_squares_tikhonov", "_linalg._safe_sandwich_dot"]
PENS = ("vector", "matrix", "sparse", "sparse diagonal")


@contract("P13", T, [dict(intercept=a, pen=b, offset=c) for a in (True, False) for b in PENS for c in (True, False)])
def normal_equations(B, intercept, pen, offset):
    n, p = B.dim("n"), B.dim("p", hi=None if B.symbolic else 5)
    off = 1 if intercept else 0
    X = B.design("X", n, p)
    y, w = B.vec("y", n), B.vec("w", n, "nonneg")
    o = B.vec("offset", n) if offset else None
    P2, P2f = pen_of(B, p, pen)
    if not B.symbolic:
        tame(B, y, w, hi=1e3)
        if offset:
            tame(B, o, hi=1e3)
    old = [B.copy(v) for v in (y, w, B.A(X))]
    oldP2 = B.copy(P2)
    x = B.fn("_linalg", "_solve_least_squares_tikhonov")(X, y, w, P2, intercept, o)
    q = p + off
    g, pn = gram(B, X, intercept, n, w), pen_at(B, P2f, off)
    H = B.tab_arr(lambda r, c: g(r, c) + pn(r, c), q, q)
    rhs = B.tab_arr(lambda r: B.sum(n, lambda i: w[i] * (y[i] - (o[i] if offset else 0)) * X_aug(B, X, intercept, i, r)), q)
    B.ensure_eq("number of coefficients", x.shape[0], q)
    B.ensure_solves("penalised normal equations", x, H, rhs)
    for nm, v, ov in zip(("y", "weights", "design"), (y, w, B.A(X)), old):
        B.ensure_frame(nm + " unchanged", v, ov)
    B.ensure_frame("penalty unchanged", P2, oldP2)


def same(B, a, b):
    """the same object, or an array with the same values"""
    if a is b:
        return True
    if a is None or b is None or isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return a == b if type(a) is type(b) else False
    if hasattr(a, "shape") != hasattr(b, "shape"):
        return False
    return B.np.all(a == b)


def arguments(f, a, k):
    """arguments by name, however they were passed"""
    import inspect
    return dict(inspect.signature(f).bind(*a, **k).arguments)


def estimator(B, cls="GeneralizedLinearRegressor", **attrs):
    """an estimator object with the given attributes (the constructor only stores its arguments)"""
    C = getattr(B.module("_glm"), cls)
    e = C.__new__(C)
    B.partial(e)
    for k, v in attrs.items():
        setattr(e, k, v)
    return e


FAMILIES = {"normal": "NormalDistribution", "poisson": "PoissonDistribution", "gamma": "GammaDistribution"}
LINKS = {"identity": "IdentityLink", "log": "LogLink"}


@contract("P13", ["_solvers._least_squares_solver"], [dict(lower=a, upper=b) for a in (True, False) for b in (True, False)])
def least_squares_step(B, lower, upper):
    q = B.dim("q")
    H, g = B.mat("H", q, q, sym=True), B.vec("g", q)
    if not B.symbolic:
        tame(B, H, g, hi=1e3)
        H = H @ H.T + B.np.eye(q)
    st, data = NS(score=g), NS(has_lower_bounds=lower, has_upper_bounds=upper)
    H0, g0 = B.copy(H), B.copy(g)
    r = B.call(lambda: B.fn("_solvers", "_least_squares_solver")(st, data, H))
    if lower or upper:
        B.ensure("bounds are refused, never ignored", r.raised(ValueError))
        return
    if not r.ok:
        B.ensure("fails only when the linear system cannot be solved", r.raised(B.LinAlgError))
        return
    d = r.value[0]
    B.ensure_solves("Newton step", d, H0, g0)
    B.ensure_frame("Hessian unchanged", H, H0)
    B.ensure_frame("score unchanged", st.score, g0)


CD = ("active_set", "w", "alpha", "Q", "q", "max_iter", "tol", "rng", "intercept", "random", "has_lower", "lower", "has_upper", "upper", "eps")


@contract("P13", ["_solvers._cd_solver"], [dict(selection=s, bounds=b) for s in ("cyclic", "random") for b in (True, False)])
def coordinate_descent_arguments(B, selection, bounds):
    q, off = B.dim("q", lo=1), 1
    act = B.active_set("act", q - off, off)
    S = B.module("_solvers")
    coef, score, P1 = B.vec("coef", q), B.vec("score", q), B.vec("P1", q - off, "nonneg")
    H = B.mat("H", act.shape[0], act.shape[0], sym=True)
    rng = B.rng()
    lb, ub = (B.vec("lb", q - off), B.vec("ub", q - off)) if bounds else (None, None)
    tol = B.real("inner_tol", "pos")
    st = NS(active_set=act, coef=coef, score=score, inner_tol=tol)
    mi = B.dim("max_inner", lo=1)
    data = NS(P1=P1, max_inner_iter=mi, random_state=rng, fit_intercept=True, selection=selection, has_lower_bounds=bounds, _lower_bounds=lb,
              has_upper_bounds=bounds, _upper_bounds=ub)
    c0, s0 = B.copy(coef), B.copy(score)
    new = B.vec("result", q)
    seen = []

    def make(orig):
        def f(*a, **k):
            a = {**dict(zip(CD, a)), **k}
            seen.append(a)
            a["w"][:] = new
            return a["w"], B.real("gap"), None, None, 7
        return f
    B.patch("_solvers", "enet_coordinate_descent_gram", make)
    d, cycles = S._cd_solver(st, data, H)
    B.ensure("called once", len(seen) == 1)
    a = seen[0]
    B.ensure("active set", same(B, a["active_set"], act))
    B.ensure("penalties", same(B, a["alpha"], P1))
    B.ensure("Hessian", same(B, a["Q"], H))
    B.ensure("generator and intercept", a["rng"] is rng and bool(a["intercept"]))
    B.ensure("selection rule", bool(a["random"]) == (selection == "random"))
    B.ensure("bounds are passed on", B.and_(bool(a["has_lower"]) == bounds and bool(a["has_upper"]) == bounds, same(B, a["lower"], lb), same(B, a["upper"], ub)))
    B.ensure_eq("iteration limit", a["max_iter"], mi)
    B.ensure_eq("tolerance", a["tol"], tol)
    B.ensure_eq_each("gradient is minus the score", q, lambda j: a["q"][j], lambda j: -s0[j])
    B.ensure_eq("cycles", cycles, 7)
    B.ensure_eq_each("step from the current coefficients to the result", q, lambda j: d[j], lambda j: new[j] - c0[j])
    B.ensure_frame("current coefficients unchanged", st.coef, c0)
    B.ensure_frame("score unchanged", st.score, s0)


AUTO = [dict(family=f, link=k, lower=lo, upper=up, constraints=c, l1=l, alpha=al)
        for f, k in (("normal", "identity"), ("normal", "log"), ("poisson", "log"), ("gamma", "log"))
        for lo, up in ((False, False), (True, False), (False, True)) for c in (None, "inequality", "monotonic")
        for l in ("scalar", "grid") for al in ("scalar", "none", "absent", "search") if not (c and (lo or up)) and not (c and l == "grid")]


@contract("P13", ["_glm.GeneralizedLinearRegressorBase._set_up_for_fit"], AUTO, trials=2)
def automatic_choice(B, family, link, lower, upper, constraints, l1, alpha):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    D, K = B.module("_distribution"), B.module("_link")
    y = B.vec("y", n)
    fam, lnk = getattr(D, FAMILIES[family])(), getattr(K, LINKS[link])()
    l1r = B.real("l1_ratio", "unitc") if l1 == "scalar" else B.vec("l1_ratios", B.dim("k", lo=1), "unitc")
    search = alpha == "search"
    at = {} if alpha == "absent" else dict(alpha_search=search, alpha=None if alpha == "none" else B.choice("alpha", [0, 0.0, B.real("alpha", "nonneg")]) if alpha == "scalar" else B.vec("alphas", 2, "nonneg"))
    e = estimator(B, "GeneralizedLinearRegressorBase", family=fam, link=lnk, fit_intercept=True, solver="auto", monotonic_constraints={"x": "increasing"} if constraints == "monotonic" else None,
                  A_ineq=B.mat("A", 1, p) if constraints == "inequality" else None, b_ineq=B.vec("b", 1) if constraints == "inequality" else None,
                  lower_bounds=B.vec("lb", p) if lower else None, upper_bounds=B.vec("ub", p) if upper else None,
                  l1_ratio=l1r, gradient_tol=None, check_input=False, **at)
    e._set_up_for_fit(y)
    s = e._solver
    no_l1 = B.np.all(B.np.asarray(l1r) == 0)
    if alpha == "scalar":
        no_l1 = B.or_(no_l1, e.alpha == 0)
    if alpha == "none":
        no_l1 = True
    B.ensure("a known solver", s in ("closed-form", "irls-ls", "irls-cd", "irls-ls-monotonic", "trust-constr"))
    if s == "closed-form":
        B.ensure("closed form only for Gaussian with identity link, without bounds or constraints", family == "normal" and link == "identity" and not (lower or upper or constraints))
        B.ensure("closed form only without L1 penalty", no_l1)
    if s == "irls-ls":
        B.ensure("least squares only without bounds or constraints", not (lower or upper or constraints))
        B.ensure("least squares only without L1 penalty", no_l1)
    if constraints is None:
        B.ensure("no solver for constraints without constraints", s not in ("irls-ls-monotonic", "trust-constr"))
    if lower or upper:
        B.ensure("bounds are handled by coordinate descent", s == "irls-cd")
    if constraints == "monotonic":
        B.ensure("monotonic constraints are handled", s in ("irls-ls-monotonic", "trust-constr"))
    if constraints == "inequality":
        B.ensure("inequality constraints are handled", s in ("irls-ls-monotonic", "trust-constr"))
    B.ensure("gradient tolerance", e._gradient_tol == (1e-8 if s == "trust-constr" else 1e-4))
    B.ensure("family and link are the given ones", e._family_instance is fam and e._link_instance is lnk)


DEFAULTS = dict(offset=None, lower_bounds=None, upper_bounds=None, fixed_inner_tol=None)
SOLVERS = ("closed-form", "irls-ls", "irls-cd", "irls-ls-monotonic", "lbfgs", "trust-constr")


@contract("P13", ["_glm.GeneralizedLinearRegressorBase._set_up_for_fit"], [dict(solver=s, tol=t, check=c) for s in SOLVERS for t in (True, False) for c in (True, False)], trials=4)
def explicit_choice(B, solver, tol, check):
    n = B.dim("n", lo=1)
    y = B.vec("y", n)
    if not B.symbolic:
        y = abs(y) if B.r.integers(2) else y
    D, K = B.module("_distribution"), B.module("_link")
    fam, lnk = D.PoissonDistribution(), K.LogLink()
    t = B.real("tol", "pos") if tol else None
    e = estimator(B, "GeneralizedLinearRegressorBase", family=fam, link=lnk, fit_intercept=B.choice("intercept", [True, False]), solver=solver, gradient_tol=t, check_input=check)
    r = B.call(lambda: e._set_up_for_fit(y))
    if not r.ok:
        B.ensure("raises only for targets outside the range of the family", B.and_(check, B.exists(n, lambda i: y[i] < 0)))
        return
    if check:
        B.ensure("targets outside the range of the family are rejected", B.forall(n, lambda i: y[i] >= 0))
    B.ensure("the requested solver is used", e._solver == solver)
    B.ensure("gradient tolerance", e._gradient_tol is t if tol else e._gradient_tol == (1e-8 if solver == "trust-constr" else 1e-4))


FUNCS = ("_tikhonov_solver", "_irls_solver", "_monotonic_irls_solver", "_lbfgs_solver", "_trust_constr_solver")
USED = {"closed-form": "_tikhonov_solver", "irls-ls": "_irls_solver", "irls-cd": "_irls_solver", "irls-ls-monotonic": "_monotonic_irls_solver",
        "lbfgs": "_lbfgs_solver", "trust-constr": "_trust_constr_solver"}


@contract("P13", ["_glm.GeneralizedLinearRegressorBase._solve"],
          [dict(solver=s, family=f, link=k, bounds=b, constraints=c, offset=o) for s in SOLVERS for f, k in (("normal", "identity"), ("normal", "log"), ("poisson", "log"))
           for b in (None, "lower", "upper") for c in (True, False) for o in (True, False) if not (b and c) and not (o and b) and not (s == "irls-ls-monotonic" and not c)], trials=3)
def dispatch(B, solver, family, link, bounds, constraints, offset):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    M, D, K = B.module("_glm"), B.module("_distribution"), B.module("_link")
    icpt = B.choice("intercept", [True, False])
    fam, lnk = getattr(D, FAMILIES[family])(), getattr(K, LINKS[link])()
    q = p + (1 if icpt else 0)
    X, y, w, coef = B.design("X", n, p), B.vec("y", n), B.vec("w", n, "nonneg"), B.vec("coef", q)
    P1, P2 = B.vec("P1", p, "nonneg"), B.vec("P2", p, "nonneg")
    if not B.symbolic and B.r.integers(2):
        P1 = P1 * 0
    o = B.vec("offset", n) if offset else None
    lb, ub = (B.vec("lb", p) if bounds == "lower" else None), (B.vec("ub", p) if bounds == "upper" else None)
    A, b = (B.mat("A", 2, p), B.vec("b", 2)) if constraints else (None, None)
    tol, rs = B.real("gradient_tol", "pos"), B.rng()
    e = estimator(B, "GeneralizedLinearRegressorBase", _solver=solver, _family_instance=fam, _link_instance=lnk, _gradient_tol=tol, fit_intercept=icpt, random_state=rs,
                  verbose=0, max_iter=B.dim("max_iter", lo=1), step_size_tol=B.real("step_tol", "pos"), hessian_approx=B.real("hessian_approx", "nonneg"), selection="cyclic")
    seen, res = [], (B.vec("result", q), 5, 6, [1])

    def rec(name):
        def make(orig):
            def f(*a, **k):
                seen.append((name, arguments(orig, a, k)))
                return res
            return f
        return make
    for f in FUNCS:
        B.patch("_glm", f, rec(f))
    box = []

    def irls_data(orig):
        def f(*a, **k):
            d = NS(**{**DEFAULTS, **arguments(orig, a, k)})
            box.append(d)
            return d
        return f
    B.patch("_glm", "IRLSData", irls_data)
    cd, ls = M._cd_solver, M._least_squares_solver
    r = B.call(lambda: e._solve(X=X, y=y, sample_weight=w, P2=P2, P1=P1, coef=coef, offset=o, lower_bounds=lb, upper_bounds=ub, A_ineq=A, b_ineq=b))
    l1 = B.exists(p, lambda j: P1[j] != 0)
    exact = family == "normal" and link == "identity" and not bounds and not constraints
    if not r.ok:
        B.ensure("refuses only what the solver cannot handle", B.or_(l1, solver == "closed-form" and not exact))
        B.ensure("coordinate descent handles every penalty", solver != "irls-cd")
        B.ensure("no solver was run", len(seen) == 0)
        return
    if solver != "irls-cd":
        B.ensure("an L1 penalty is never ignored", B.not_(l1))
    if solver == "closed-form":
        B.ensure("the closed form is only used when exact", exact)
    B.ensure("exactly one solver is run", len(seen) == 1)
    name, k = seen[0]
    k = {**DEFAULTS, **k}
    B.ensure("it is the chosen one", name == USED[solver])
    B.ensure("its coefficients are returned", same(B, r.value, res[0]))
    B.ensure("iterations, cycles and diagnostics are its own", e.n_iter_ == 5 and e._n_cycles == 6 and e.diagnostics_ is res[3])
    if "irls" in solver:
        d = box[0]
        B.ensure("one data object", len(box) == 1 and k["data"] is d)
        B.ensure("start at the given coefficients", same(B, k["coef"], coef))
        problem_of(B, vars(d), X, y, w, o)
        B.ensure("penalties", B.and_(same(B, d.P1, P1), same(B, d.P2, P2)))
        B.ensure("bounds", B.and_(same(B, d.lower_bounds, lb), same(B, d.upper_bounds, ub)))
        B.ensure("family and link", d.family is fam and d.link is lnk)
        B.ensure("intercept", bool(d.fit_intercept) == icpt)
        B.ensure("tolerances", B.and_(d.gradient_tol == tol, d.step_size_tol == e.step_size_tol, d.hessian_approx == e.hessian_approx))
        B.ensure("selection and generator", d.selection == e.selection and d.random_state is rs)
        if solver == "irls-ls-monotonic":
            B.ensure("constraints", B.and_(same(B, k["A_ineq"], A), same(B, k["b_ineq"], b)))
        else:
            B.ensure("inner solver", k["inner_solver"] is (cd if solver == "irls-cd" else ls))
        quad = family == "normal" and link == "identity" and solver != "irls-ls-monotonic"
        B.ensure("iteration limit", B.or_(d.max_iter == e.max_iter, quad))
        fixed = d.fixed_inner_tol
        B.ensure("only a quadratic problem is solved to the final tolerance in one go", fixed is None or quad)
        if fixed is not None:
            B.ensure("the final tolerance", B.and_(fixed[0] == tol, fixed[1] == e.step_size_tol))
        else:
            B.ensure("iteration limit", d.max_iter == e.max_iter)
        return
    problem_of(B, k, X, y, w, o)
    B.ensure("penalty", same(B, k["P2"], P2))
    if solver == "closed-form":
        B.ensure("intercept", bool(k["fit_intercept"]) == icpt)
        return
    B.ensure("start at the given coefficients", same(B, k["coef"], coef))
    B.ensure("family and link", k["family"] is fam and k["link"] is lnk)
    B.ensure("tolerance and iteration limit", B.and_((k["tol"] if solver == "lbfgs" else k["gtol"]) == tol, k["max_iter"] == e.max_iter))
    if solver == "trust-constr":
        B.ensure("intercept", bool(k["fit_intercept"]) == icpt)
        B.ensure("constraints", B.and_(same(B, k["A_ineq"], A), same(B, k["b_ineq"], b)))


def problem_of(B, k, X, y, w, o):
    B.ensure("design", k["X"] is X)
    B.ensure("target and weights", B.and_(same(B, k["y"], y), same(B, k["sample_weight"], w)))
    B.ensure("offset", same(B, k["offset"], o))


@contract("P13", ["_solvers._tikhonov_solver"], [dict(offset=a, intercept=b) for a in (True, False) for b in (True, False)])
def closed_form_solver(B, offset, intercept):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X, y, w, P2 = B.design("X", n, p), B.vec("y", n), B.vec("w", n, "nonneg"), B.vec("P2", p, "nonneg")
    o = B.vec("offset", n) if offset else None
    res, seen = B.vec("result", p + intercept), []

    def make(orig):
        def f(*a, **k):
            seen.append(arguments(orig, a, k))
            return res
        return f
    B.patch("_solvers", "_solve_least_squares_tikhonov", make)
    out = B.fn("_solvers", "_tikhonov_solver")(X=X, y=y, sample_weight=w, P2=P2, fit_intercept=intercept, random_state=B.rng(), offset=o, verbose=0)
    k = seen[0]
    B.ensure("solved once", len(seen) == 1)
    problem_of(B, {**DEFAULTS, **k}, X, y, w, o)
    B.ensure("penalty and intercept", B.and_(same(B, k["P2"], P2), bool(k["fit_intercept"]) == intercept))
    B.ensure("its solution is returned", same(B, out[0], res))


@contract("P13", ["_solvers.IRLSData.__post_init__", "_solvers._setup_bounds"], [dict(lower=a, upper=b, pen=c) for a in (True, False) for b in (True, False) for c in ("vector", "matrix", "sparse")])
def solver_data(B, lower, upper, pen):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    icpt = B.choice("intercept", [True, False])
    X, y, w, P1 = B.design("X", n, p), B.vec("y", n), B.vec("w", n, "nonneg"), B.vec("P1", p, "nonneg")
    P2, P2f = pen_of(B, p, pen)
    lb, ub = B.vec("lb", p) if lower else None, B.vec("ub", p) if upper else None
    fam, lnk, rng = NS(), NS(), B.rng()
    o = B.vec("offset", n)
    d = B.module("_solvers").IRLSData(X=X, y=y, sample_weight=w, P1=P1, P2=P2, fit_intercept=icpt, family=fam, link=lnk, offset=o, lower_bounds=lb, upper_bounds=ub, random_state=rng)
    B.ensure("lower bounds are kept", B.and_(d.has_lower_bounds == lower, not lower or same(B, d._lower_bounds, lb)))
    B.ensure("upper bounds are kept", B.and_(d.has_upper_bounds == upper, not upper or same(B, d._upper_bounds, ub)))
    B.ensure("intercept position", d.intercept_offset == (1 if icpt else 0) and d.fit_intercept is icpt)
    B.ensure("data are kept", d.X is X and d.y is y and d.sample_weight is w and d.P1 is P1 and d.family is fam and d.link is lnk and d.offset is o)
    if pen == "vector":
        B.ensure_frame("penalty unchanged", d.P2, P2)
    else:
        got = d.P2.toarray() if pen == "sparse" else d.P2
        B.ensure_eq_each("penalty unchanged", p, lambda j: B.total(lambda: got[j, j]), lambda j: P2f(j, j))
        B.ensure_all("penalty unchanged off the diagonal", B.forall(p, lambda j: B.forall(p, lambda k: got[j, k] == P2f(j, k)))) if B.symbolic else None
