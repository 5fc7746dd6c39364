"""P22: bounds and inequality constraints."""
from dv.contract import contract
from dv.load import LoopSpec
from .common import tame
from .c08_objective import NS, AnyFamily, Recorder, problem
from .c10_coordinate_descent import descent
from .c12_line_search import AnyLink
from .c13_direct import arguments
from .c27_fit import run, T as FIT, BASE

V = "_validation."


class Only:
    """the same contract, of which only the named conclusions are checked (loop invariants and run-time checks all remain)"""

    def __init__(self, B, labels):
        self.__dict__.update(_B=B, _labels=labels)

    def __getattr__(self, k):
        f = getattr(self._B, k)
        if k.startswith("ensure"):
            return lambda label, *a, **kw: f(label, *a, **kw) if label in self._labels else None
        return f


@contract("P22", ["_cd_fast.enet_coordinate_descent_gram"], [dict(intercept=a, lower=b, upper=c, random=r) for a in (True, False) for b, c in ((True, True), (True, False), (False, True)) for r in (True, False)], trials=12)
def coordinate_descent(B, intercept, lower, upper, random):
    """a coordinate that is moved ends within its bounds, any other keeps its value"""
    descent(Only(B, ["a coefficient outside the active set never moves; a moved one is within its bounds"]), intercept, lower, upper, random)


@contract("P22", ["_solvers.line_search"], [dict(intercept=a, pen="vector") for a in (True, False)])
def line_search_stays_inside(B, intercept, pen):
    """if the current coefficients and the full step are within the bounds, so is the accepted point"""
    n, p, off, X, y, w, coef, P1, P2, P2f, xa = problem(B, intercept, pen)
    S = B.module("_solvers")
    d, eta0 = B.vec("d", p + off), B.vec("eta0", n)
    lb, ub = B.vec("lb", p), B.vec("ub", p)
    if B.symbolic:
        fam, link = AnyFamily(B, n), AnyLink(B, n)
        B.stub("_solvers", "get_one_over_variance", lambda *a: B.fresh_vec("sigma_inv", n))
        inv = lambda L: [("step factor in (0, 1]", B.and_(L["factor"] > 0, L["factor"] <= 1))]
        B.loop("line_search", 1, LoopSpec(inv, last=True, havoc=lambda L: L.set("sum_abs_grad_old", B.fresh_real("sum_abs_grad_old"))))
    else:
        fam, link = B.module("_distribution").PoissonDistribution(), B.module("_link").LogLink()
        lb, ub = B.np.minimum(lb, ub), B.np.maximum(lb, ub)
        clip = lambda v: B.np.minimum(B.np.maximum(v, lb), ub)
        d = d.copy()
        coef[off:] = clip(coef[off:])
        d[off:] = clip(coef[off:] + d[off:]) - coef[off:]
        tame(B, eta0, y, P1, P2, hi=20)
    B.assume(B.forall(p, lambda j: B.and_(lb[j] <= coef[j + off], coef[j + off] <= ub[j])))
    if B.symbolic:
        B.assume(B.forall(p, lambda j: B.and_(lb[j] <= coef[j + off] + d[j + off], coef[j + off] + d[j + off] <= ub[j])))
    data = NS(X=X, y=y, sample_weight=w, P1=P1, P2=P2, offset=None, family=fam, link=link, intercept_offset=off, fit_intercept=intercept)
    st = NS(coef=coef, score=B.vec("score", p + off), eta=eta0, obj_val=B.real("objective"), large_number=1e43, mu=None)
    if B.symbolic:
        new = S.line_search(st, data, d)[0]
    else:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            new = S.line_search(st, data, d)[0]
    tol = 0 if B.symbolic else 1e-12 * (1 + abs(lb).max(initial=0) + abs(ub).max(initial=0))
    B.ensure_each("within the lower bound", p, lambda j: new[j + off] >= lb[j] - tol)
    B.ensure_each("within the upper bound", p, lambda j: new[j + off] <= ub[j] + tol)


def iterates(B, q=None):
    n, q = B.dim("n", lo=1), q if q is not None else B.dim("q", lo=1)
    S = B.module("_solvers")
    coef0, lb, ub = B.vec("coef", q), B.vec("lb", q), B.vec("ub", q)
    inside = lambda c: B.forall(q, lambda j: B.and_(lb[j] <= c[j], c[j] <= ub[j]))
    B.assume(inside(coef0))
    data = NS(X=B.design("X", n, B.dim("p", lo=0)), max_iter=B.dim("max_iter", lo=0), gradient_tol=B.real("tol", "pos"), verbose=False, step_size_tol=None)
    rows = lambda k: B.fresh_vec(k, n)
    real = B.fresh_real
    B.stub("_solvers", "_update_predictions", lambda *a, **k: (rows("eta"), rows("mu"), real("obj"), B.fresh_vec("cP2", q)))
    B.stub("_solvers", "update_quadratic", lambda *a, **k: (rows("g"), B.fresh_vec("score", q), rows("h")))
    B.stub("_solvers", "check_convergence", lambda *a, **k: (B.boolean("converged"), real("a"), real("b"), real("c")))
    B.stub("_solvers", "identify_active_set", lambda *a, **k: B.fresh_vec("act", B.dim("n_active", lo=0)).astype(int))
    B.stub("_solvers", "update_hessian", lambda *a, **k: (B.fresh_vec("H", q), B.integer("rows")))

    def inner(st, dt, hessian):
        """contract of the inner solver (coordinate descent): starting within the bounds it ends within the bounds"""
        B.ensure("the inner solver starts within the bounds", inside(st.coef))
        d = B.fresh_vec("d", q)
        c = st.coef
        B.assume(B.forall(q, lambda j: B.and_(lb[j] <= c[j] + d[j], c[j] + d[j] <= ub[j])))
        return d, B.integer("cycles", lo=0)

    def line_search(st, dt, d):
        """contract of the line search, proved above"""
        B.ensure("the line search starts within the bounds", inside(st.coef))
        c = st.coef
        B.ensure("the full step stays within the bounds", B.forall(q, lambda j: B.and_(lb[j] <= c[j] + d[j], c[j] + d[j] <= ub[j])))
        new = B.fresh_vec("new", q)
        B.assume(inside(new))
        st.n_line_search = B.integer("trials", lo=0)
        return new, B.fresh_vec("step", q), rows("eta"), rows("mu"), real("obj"), B.fresh_vec("cP2", q)
    B.stub("_solvers", "line_search", line_search)
    return n, q, S, coef0, data, inside, inner, rows, real


from .c31_irls import Log, KEYS


def fresh_state(B, L, n, q):
    st = L["state"]
    for k in ("eta", "mu", "gradient_rows", "hessian_rows"):
        setattr(st, k, B.fresh_vec(k, n))
    for k in ("coef", "score", "step"):
        setattr(st, k, B.fresh_vec(k, q))
    for k in ("obj_val", "norm_min_subgrad", "max_min_subgrad", "inner_tol"):
        setattr(st, k, B.fresh_real(k))
    for k in ("n_iter", "n_cycles", "n_line_search", "n_updated", "n_active_rows"):
        setattr(st, k, B.integer(k))
    st.converged = B.boolean("converged")
    st.hessian_initialized = B.boolean("initialized")
    st.hessian = B.fresh_vec("H", q)
    st.active_set = B.fresh_vec("active", B.dim("n_active", lo=0)).astype(int)
    st.old_active_set = B.fresh_vec("active_old", B.dim("n_active_old", lo=0)).astype(int)
    st.old_hessian_rows = B.fresh_vec("rows_old", n)
    st.diagnostics = Log(B.integer("n_log"), {k: B.fresh_real(k) for k in KEYS})


@contract("P22", ["_solvers._irls_solver"], [{}])
def iterates_stay_inside(B):
    """with an inner solver and a line search that respect the bounds, every iterate does, and so do the returned coefficients"""
    if not B.symbolic:
        return concrete_bounds(B)
    n, q, S, coef0, data, inside, inner, rows, real = iterates(B)
    B.loop("_irls_solver", 1, LoopSpec(lambda L: [("coefficients within the bounds", inside(L["state"].coef))], havoc=lambda L: fresh_state(B, L, n, q), rebinds=("coef_P2",),
                                       writes=lambda L: [L["state"].old_hessian_rows]))
    coef = S._irls_solver(inner, coef0, data)[0]
    B.ensure("the returned coefficients are within the bounds", inside(coef))


def concrete_bounds(B):
    """the real estimators on a small problem"""
    n, p = 12, 3
    r = B.r
    X = r.normal(size=(n, p)) * r.choice([0.1, 1.0, 10.0], size=p) + r.choice([0.0, 3.0])
    y = r.poisson(2.0, size=n).astype(float)
    y[0], y[1] = 0.0, 3.0
    a, b = r.normal(size=p) * 0.3, r.normal(size=p) * 0.3
    lb, ub = B.np.minimum(a, b), B.np.maximum(a, b)
    kw = dict(family="poisson", lower_bounds=lb if r.integers(4) else None, upper_bounds=ub if r.integers(4) else None, fit_intercept=bool(r.integers(2)), l1_ratio=float(r.choice([0, 0.5])),
              start_params=None, max_iter=int(r.choice([1, 3, 100])))
    kw["scale_predictors"] = bool(r.integers(2)) and kw["fit_intercept"]
    if r.integers(3) == 0:
        kw["start_params"] = r.normal(size=p + kw["fit_intercept"])
    B.inputs.update(X=X, y=y, kw=str(kw))
    import warnings
    G = B.module("_glm").GeneralizedLinearRegressor
    C = B.module("_glm_cv").GeneralizedLinearRegressorCV
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = int(r.integers(4))
        try:
            if k == 0:
                kw.update(cv=2, n_alphas=2)
                e = C(**kw).fit(X, y)
                paths = [e.coef_] + list(e.coef_path_.reshape(-1, p))
            elif k == 1:
                e = G(alpha=[0.1, 0.01], alpha_search=True, **kw).fit(X, y)
                paths = [e.coef_] + list(e.coef_path_)
            else:
                e = G(alpha=float(r.choice([0.0, 0.1])), warm_start=k == 3, **kw).fit(X, y)
                if k == 3:
                    e.fit(X, r.permutation(y))
                paths = [e.coef_]
        except ValueError as err:
            if "No variation" in str(err):
                return
            raise
    for c in paths:
        B.ensure("coefficients at or above their lower bounds", kw["lower_bounds"] is None or B.np.all(c >= lb - 1e-9))
        B.ensure("coefficients at or below their upper bounds", kw["upper_bounds"] is None or B.np.all(c <= ub + 1e-9))


OPT = [dict(intercept=i, scaled=s) for i, s in ((True, True), (True, False), (False, False))]


@contract("P22", FIT, OPT, trials=8)
def bounds_reach_the_solver(B, intercept, scaled):
    """coefficients are within the bounds given to the solver exactly if the reported ones are within the user's"""
    F = run(B, intercept, scaled, bounds=True, offset=False, weights="none", pen="identity")
    off, p, a = int(intercept), F.p, F.args
    cu, cs, lbs, ubs = F.e.coef_, F.c, a["lower_bounds"], a["upper_bounds"]
    B.ensure("one lower and one upper bound per coefficient", B.and_(lbs.shape[0] == p, ubs.shape[0] == p, cu.shape[0] == p))
    eps = 0 if B.symbolic else 1e-9
    close = lambda x, y: False if B.symbolic else abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
    B.ensure_each("lower bounds", p, lambda j: B.or_(B.iff(lbs[j] <= cs[j + off], F.old["lb"][j] <= cu[j]), close(lbs[j], cs[j + off]), close(F.old["lb"][j], cu[j])))
    B.ensure_each("upper bounds", p, lambda j: B.or_(B.iff(ubs[j] >= cs[j + off], F.old["ub"][j] >= cu[j]), close(ubs[j], cs[j + off]), close(F.old["ub"][j], cu[j])))


@contract("P22", FIT, [dict(o, side=s) for o in OPT for s in ("lower", "upper", "neither")], trials=4)
def missing_bounds(B, intercept, scaled, side):
    """a side without bounds stays without bounds, and one given alone is kept"""
    def prepare(F):
        v = B.vec("bound", F.p)
        F.e.lower_bounds, F.e.upper_bounds = (v if side == "lower" else None), (v if side == "upper" else None)
    F = run(B, intercept, scaled, offset=False, weights="none", pen="identity", prepare=prepare)
    B.ensure("lower bounds", (F.args["lower_bounds"] is not None) == (side == "lower"))
    B.ensure("upper bounds", (F.args["upper_bounds"] is not None) == (side == "upper"))


@contract("P22", FIT, [dict(o, kind=k) for o in OPT[:2] for k in ("vectors", "scalar lower", "scalar upper")], trials=8)
def crossed_bounds(B, intercept, scaled, kind):
    """a lower bound above an upper bound is an error, and nothing is fitted"""
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X, y = B.design("X", n, p, storage="dense"), B.vec("y", n)
    lb = B.real("lb") if kind == "scalar lower" else B.vec("lb", p)
    ub = B.real("ub") if kind == "scalar upper" else B.vec("ub", p)
    at = lambda v, j: v[j] if hasattr(v, "shape") and len(v.shape) else v
    lo, up = (lambda j: lb if kind == "scalar lower" else lb[j]), (lambda j: ub if kind == "scalar upper" else ub[j])
    if not B.symbolic:
        j = int(B.r.integers(p))
        if kind == "scalar lower":
            ub[j] = lb - 1
        else:
            lb[j] = up(j) + 1
    B.assume(B.exists(p, lambda j: lo(j) > up(j)))
    e = B.module("_glm").GeneralizedLinearRegressor(family="normal", link="identity", solver="irls-cd", lower_bounds=lb, upper_bounds=ub, fit_intercept=intercept, scale_predictors=scaled)
    called = []

    def solve(*a, **k):
        called.append(1)
        return B.zeros(p + int(intercept))
    e._solve = solve
    r = B.call(lambda: e.fit(X, y))
    B.ensure("an error", r.raised(ValueError))
    B.ensure("nothing is fitted", not called and not hasattr(e, "coef_"))


SC = [BASE + "_get_start_coef", "_utils.standardize_warm_start", "_utils._one_over_var_inf_to_val", "_utils.unstandardize"]


@contract("P22", SC, [dict(intercept=i, source=s, lower=a, upper=b) for i in (True, False) for s in ("default", "start", "warm") for a, b in (("vector", "vector"), ("vector", None), (None, "vector"), ("scalar", None), (None, "scalar"))], trials=10)
def start_is_inside(B, intercept, source, lower, upper):
    """the starting point, expressed in the user's scale, is within the user's bounds"""
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    q = p + int(intercept)
    X, y, w = B.design("X", n, p, storage="dense"), B.vec("y", n), B.vec("w", n, "pos")
    means, sd = B.vec("means", p), B.vec("sd", p, "nonneg")
    lb = B.vec("lb", p) if lower == "vector" else B.real("lb") if lower else None
    ub = B.vec("ub", p) if upper == "vector" else B.real("ub") if upper else None
    if not B.symbolic:
        tame(B, means, hi=1e3)
        sd = B.r.choice([0.0, 1.0, 1e-3, 1e3, 0.5], size=p)
        B.inputs["sd"] = sd
        if lower == "vector" and upper == "vector":
            lb, ub = B.np.minimum(lb, ub), B.np.maximum(lb, ub)
    lo = lambda j: lb[j] if lower == "vector" else lb
    up = lambda j: ub[j] if upper == "vector" else ub
    if lower and upper:
        B.assume(B.forall(p, lambda j: lo(j) <= up(j)))
    G = B.module("_glm").GeneralizedLinearRegressor
    start = B.vec("start", q) if source == "start" else None
    e = G(family="normal", link="identity", lower_bounds=lb, upper_bounds=ub, fit_intercept=intercept, start_params=start, warm_start=source == "warm")
    e._center_predictors = intercept
    e._link_instance = B.module("_link").IdentityLink()
    e._family_instance = B.module("_distribution").NormalDistribution()
    if source == "warm":
        e.coef_, e.intercept_ = B.vec("coef_", p), B.real("intercept_")
    keep = B.copy(e.coef_) if source == "warm" else B.copy(start)
    c = e._get_start_coef(X, y, w, None, means, sd, dtype=[B.np.float64, B.np.float32])
    B.ensure("length", c.shape[0] == q)
    iu, cu = B.module("_utils").unstandardize(means, sd, c[0] if intercept else 0.0, B.copy(c[int(intercept):]))
    tol = lambda v: 0 if B.symbolic else 1e-9 * (1 + abs(v))
    if lower:
        B.ensure_each("at or above the lower bounds", p, lambda j: cu[j] >= lo(j) - tol(lo(j)))
    if upper:
        B.ensure_each("at or below the upper bounds", p, lambda j: cu[j] <= up(j) + tol(up(j)))
    B.ensure_frame("given values unchanged", e.coef_ if source == "warm" else start, keep) if source != "default" else None


@contract("P22", ["_solvers._trust_constr_solver"], [dict(intercept=i, ineq=c) for i in (True, False) for c in (True, False)])
def constrained_minimiser(B, intercept, ineq):
    """the constraints given to the minimiser are A w <= b on the slopes, nothing on the intercept"""
    n, p, m = B.dim("n", lo=1), B.dim("p", lo=1), B.dim("m", lo=1)
    off = int(intercept)
    X, y, w = B.design("X", n, p), B.vec("y", n), B.vec("w", n, "nonneg")
    A, b = (B.mat("A", m, p), B.vec("b", m)) if ineq else (None, None)
    P2, coef, sol = B.vec("P2", p, "nonneg"), B.vec("coef", p + off), B.vec("solution", p + off)
    cons, mins = [], []
    ok = B.boolean("success")

    def lc(orig):
        def f(A, lb=None, ub=None, **k):
            cons.append(NS(A=A, lb=lb, ub=ub, k=k))
            return cons[-1]
        return f

    def mi(orig):
        def f(fun, x0, **k):
            mins.append(NS(fun=fun, x0=x0, **k))
            return dict(x=sol, nit=7, success=ok, message="")
        return f
    B.patch("_solvers", "LinearConstraint", lc)
    B.patch("_solvers", "minimize", mi)
    B.patch("_solvers", "SR1", lambda o: lambda *a, **k: None)
    old = [B.copy(v) if v is not None else None for v in (A, b)]
    S = B.module("_solvers")

    def go():
        return S._trust_constr_solver(coef, X, y, w, P2, intercept, False, B.module("_distribution").PoissonDistribution(), B.module("_link").LogLink(), A_ineq=A, b_ineq=b)
    if B.symbolic:
        r = go()
        warned = len(B.warnings()) > 0
    else:
        import warnings
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r = go()
        warned = len(ws) > 0
    B.ensure("the minimiser's solution is returned", r[0] is sol)
    B.ensure("a warning exactly on failure", B.iff(warned, B.not_(ok)))
    M = mins[-1]
    B.ensure("starts at the given coefficients, minimises with constraints", M.x0 is coef and M.method == "trust-constr")
    if not ineq:
        B.ensure("no constraints", not M.constraints)
        return
    c = M.constraints
    c = c[0] if isinstance(c, (list, tuple)) else c
    B.ensure("constraints are passed on", c is cons[-1])
    x = B.vec("x", p + off)
    if not B.symbolic:
        tame(B, x, A, hi=1e3)
    r = B.arbitrary("r", m)
    B.ensure("one upper limit per constraint, no lower limit", B.and_(c.ub.shape[0] == m, c.lb == -B.np.inf) if not hasattr(c.lb, "shape") or not len(c.lb.shape) else B.and_(c.ub.shape[0] == m, B.np.all(c.lb == -B.np.inf)))
    B.ensure_eq("left-hand side", B.sum(p + off, lambda k: c.A[r, k] * x[k]), B.sum(p, lambda j: old[0][r, j] * x[j + off]), scale=None if B.symbolic else 1e3 * p)
    B.ensure_eq("right-hand side", c.ub[r], old[1][r])
    B.ensure_frame("caller's matrix unchanged", A, old[0])
    B.ensure_frame("caller's right-hand side unchanged", b, old[1])
    k = M.fun.keywords
    B.ensure("objective over the same data", k["X"] is X and k["y"] is y and k["sample_weight"] is w and k["P2"] is P2)


@contract("P22", FIT, OPT, trials=8)
def constraints_reach_the_solver(B, intercept, scaled):
    """A c <= b for the reported coefficients is the very condition given to the solver about its own coefficients"""
    F = run(B, intercept, scaled, ineq=True, offset=False, weights="none", pen="identity")
    off, p, a = int(intercept), F.p, F.args
    A, b, cu = a["A_ineq"], a["b_ineq"], F.e.coef_
    m = F.old["A"].shape[0]
    B.ensure("one row per constraint, one column per coefficient", B.and_(A.shape[0] == m, A.shape[1] == p, b.shape[0] == m))
    r = B.arbitrary("r", m)
    B.ensure_eq_each("right-hand side", m, lambda i: b[i], lambda i: F.old["b"][i])
    if B.symbolic:
        B.lemma("term by term", B.forall(p, lambda j: A[r, j] * F.c[j + off] - F.old["A"][r, j] * cu[j] == 0))
    B.ensure_eq("left-hand side", B.sum(p, lambda j: A[r, j] * F.c[j + off]), B.sum(p, lambda j: F.old["A"][r, j] * cu[j]),
                scale=None if B.symbolic else float(1 + sum(abs(F.old["A"][r, j] * cu[j]) for j in range(p))))


@contract("P22", ["_solvers._monotonic_irls_solver"], [{"intercept": i} for i in (True, False)])
def monotonic_solver_warns(B, intercept):
    """returned without a warning, the coefficients satisfy A c <= 1e-6"""
    if not B.symbolic:
        return concrete_monotonic(B, intercept)
    p, m, off = B.dim("p", lo=1), B.dim("m", lo=1), int(intercept)
    n, q, S, coef0, data, inside, inner, rows, real = iterates(B, p + off)
    A, b = B.mat("A", m, p), B.zeros(m)
    data.P2 = B.vec("P2", p, "nonneg")
    data.fit_intercept = intercept
    B.stub("_solvers", "_build_monotonic_penalty", lambda *a: None)
    B.stub("_solvers", "_least_squares_solver", lambda *a: (B.fresh_vec("d", q), B.integer("cycles", lo=0)))
    B.stub("_solvers", "line_search", lambda *a: (B.fresh_vec("new", q), B.fresh_vec("step", q), rows("eta"), rows("mu"), real("obj"), B.fresh_vec("cP2", q)))
    B.loop("_monotonic_irls_solver", 1, LoopSpec(lambda L: [], havoc=lambda L: fresh_state(B, L, n, q), rebinds=("coef_P2", "constraint_lam"), writes=lambda L: [L["state"].old_hessian_rows]))
    c = S._monotonic_irls_solver(coef0, data, A, b)[0]
    if not B.warnings():
        B.ensure_all("no warning only within the constraints", A @ c[off:] <= 1e-6)


def concrete_monotonic(B, intercept):
    n, p = 30, 3
    r = B.r
    X, y = r.normal(size=(n, p)), r.poisson(2.0, size=n).astype(float)
    A = r.integers(-1, 2, size=(2, p)).astype(float)
    y[:2] = 0.0, 3.0
    B.inputs.update(X=X, y=y, A=A)
    import warnings
    e = B.module("_glm").GeneralizedLinearRegressor(family="poisson", alpha=0.01, fit_intercept=intercept, solver="irls-ls-monotonic", A_ineq=A, b_ineq=B.np.zeros(2), max_iter=int(r.choice([1, 2, 100])),
                                                    scale_predictors=bool(r.integers(2)) and intercept)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = B.call(lambda: e.fit(X, y))
    if not out.ok:
        return
    viol = (A @ e.coef_).max()
    B.ensure("no warning only within the constraints", len(ws) > 0 or viol <= 1e-5)


ORDERS = {"numbers": ("1", "2", "10", "11"), "letters": ("a", "b", "ba", "c"), "decimals": ("-1.5", "0", "0.5", "2.0"), "mixed": ("3", "20", "T.1", "b")}
SHAPES = ("alone", "next to others", "interaction", "interaction, factor last", "numeric", "numeric interaction")


@contract("P22", ["_formula._build_monotonic_constraints", "_formula._group_columns_by_factor", "_formula._parse_column_name", "_formula._sort_key"],
          [dict(order=o, shape=s, separator=sep) for o in ORDERS for s in SHAPES for sep in (":", "__x__")], trials=2, assumes="the listed column layouts, columns in drawn order; coefficients arbitrary")
def monotonic_rows(B, order, shape, separator):
    """The rows built for a factor hold for a vector of coefficients exactly when the coefficients are ordered along the factor, within every combination of the other factors."""
    import random
    f, levels = "bs(u, df=5)", ORDERS[order]
    tag = lambda l: "%s[%s]" % (f, l)
    if shape == "alone":
        chains = [[tag(l) for l in levels]]
    elif shape == "next to others":
        chains = [[tag(l) for l in levels[:3]]]
    elif shape == "interaction":
        chains = [[tag(l) + separator + "g[%s]" % g for l in levels[:3]] for g in "pq"] + [[tag(l) for l in levels[:2]]]
    elif shape == "interaction, factor last":
        chains = [["g[%s]" % g + separator + tag(l) for l in levels[:3]] for g in "pq"]
    elif shape == "numeric":
        chains = [[f]]
    else:
        chains = [["g[%s]" % g + separator + f] for g in levels]
    other = [] if shape == "alone" else ["g[p]", "g[q]", "z", "bs(u, df=6)[1]", "z" + separator + "g[p]"]
    names = [c for ch in chains for c in ch] + other
    for k in range(3):
        random.Random("%s %s %d" % (order, shape, k)).shuffle(names)
        beta = {c: B.real("%s%d" % (c, k)) for c in sorted(names)}
        for direction in ("increasing", "decreasing"):
            for as_pairs in (False, True):
                spec = [(f, direction)] if as_pairs else {f: direction}
                r = B.call(lambda: B.fn("_formula", "_build_monotonic_constraints")(list(names), spec, separator=separator))
                B.ensure("the constraints are built", r.ok)
                if not r.ok:
                    return
                A, b = r.value
                B.ensure("a column for every feature, a side for every row", A.shape[1] == len(names) and len(b) == A.shape[0])
                rows = []
                for i in range(A.shape[0]):
                    s = 0.0
                    for j, c in enumerate(names):
                        if A[i, j] != 0:
                            s = s + A[i, j] * beta[c]
                    rows.append(s <= b[i])
                want = []
                for ch in chains:
                    v = [beta[c] for c in ch]
                    if len(v) == 1:
                        v = [0.0] + v
                    want += [(p <= q if direction == "increasing" else q <= p) for p, q in zip(v[:-1], v[1:])]
                B.ensure("ordered coefficients satisfy the rows", B.implies(B.and_(*want), B.and_(*rows)))
                B.ensure("the rows order the coefficients", B.implies(B.and_(*rows), B.and_(*want)))
        for bad in ({f: "up"}, {"bs(u)": "increasing"}):
            B.ensure("an unknown direction or factor is an error", B.call(lambda: B.fn("_formula", "_build_monotonic_constraints")(list(names), bad, separator=separator)).raised(ValueError))


FORMULAS = {  # formula, constraints, for every constrained variable the chains of columns that have to be ordered
    "spline": ("y ~ bs(x, df=4) + z", {"x": 1}, [(1, ["bs(x, df=4)[%d]" % k for k in range(1, 5)])]),
    "two": ("y ~ bs(x, df=4) + C(g) + z", {"x": -1, "g": 1}, [(-1, ["bs(x, df=4)[%d]" % k for k in range(1, 5)]), (1, ["C(g)[%s]" % k for k in (1, 2, 10)])]),
    "numeric": ("y ~ z + C(g)", {"z": -1}, [(-1, ["z"])]),
    "interaction": ("y ~ C(h):bs(x, df=3)", {"x": 1}, [(1, ["C(h)[%s]{s}bs(x, df=3)[%d]" % (h, k) for k in range(1, 4)]) for h in "pq"]),
    "twice": ("y ~ np.log(v) + v", {"v": 1}, [(1, ["np.log(v)"]), (1, ["v"])]),
}


@contract("P22", [BASE + "_resolve_monotonic_constraints", "_formula._resolve_monotonic_constraints_from_model_spec"], [dict(formula=f, sign=s, separator=sep) for f in FORMULAS for s in (1, -1) for sep in (":", "__x__")],
          trials=2, bounded="the formulas listed, materialised by formulaic and tabmat")
def monotonic_variables(B, formula, sign, separator):
    """every column made of a constrained variable is ordered in its direction, no other column takes part"""
    import numpy as np
    import pandas as pd
    text, signs, chains = FORMULAS[formula]
    n = 24
    d = pd.DataFrame({"y": B.r.normal(size=n), "x": B.r.normal(size=n), "z": B.r.normal(size=n), "v": B.r.uniform(1, 2, n), "g": np.resize([10, 2, 1], n), "h": np.resize(["q", "p"], n)})
    word = lambda s: "increasing" if s * sign > 0 else "decreasing"
    e = B.module("_glm").GeneralizedLinearRegressor(alpha=1.0, formula=text, monotonic_constraints={k: word(s) for k, s in signs.items()}, interaction_separator=separator)
    e._solve = lambda *a, **k: np.zeros(k["X"].shape[1] + 1)
    r = B.call(lambda: e.fit(d))
    B.ensure("the fit succeeds" + ("" if r.ok else " (%r)" % r.exc), r.ok)
    if not r.ok:
        return
    A, b = e._resolve_monotonic_constraints()
    names = list(e.feature_names_)
    pos = {c: k for k, c in enumerate(names)}
    for t in range(6):
        beta = B.r.normal(size=len(names))
        want = True
        for s, chain in chains:
            at = [pos[c.format(s=separator)] for c in chain]
            if t % 2 == 0:
                beta[at] = np.sort(np.abs(beta[at]))[::s * sign] * s * sign if len(at) == 1 else np.sort(beta[at])[::s * sign]
        for s, chain in chains:
            v = beta[[pos[c.format(s=separator)] for c in chain]] * s * sign
            want = want and bool(np.all(np.diff(v) >= 0) if len(v) > 1 else v[0] >= 0)
        B.ensure("the constraints hold exactly for ordered coefficients", bool(np.all(A @ beta <= b)) == want)
