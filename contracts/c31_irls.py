"""P31: the outer loop of the iteratively reweighted solver."""
from dv.contract import contract
from dv.load import LoopSpec
from .c08_objective import NS, problem, quadform, tame

U = ["_solvers._irls_solver", "_solvers.IRLSState.__init__", "_solvers.IRLSState._record_iteration"]


class Log:
    """list of diagnostics of arbitrary length: its length and its last entry"""

    def __init__(self, n, last):
        self.n, self.last = n, last

    def append(self, d):
        self.n, self.last = self.n + 1, d


def count(log):
    return log.n if isinstance(log, Log) else len(log)


def last(log):
    return log.last if isinstance(log, Log) else log[-1]


KEYS = ["n_iter", "convergence", "objective_fct", "L1(coef)", "L2(coef)", "L2(step)", "first_coef", "n_cycles"]


def described(B, d, st, q):
    """the entry d of the diagnostics describes the state st"""
    return [("iteration", d["n_iter"] == st.n_iter), ("objective", d["objective_fct"] == st.obj_val), ("convergence", d["convergence"] == st.norm_min_subgrad),
            ("cycles", d["n_cycles"] == st.n_cycles), ("first coefficient", d["first_coef"] == st.coef[0]),
            ("size of the coefficients", d["L1(coef)"] == B.sum(q, lambda j: abs(st.coef[j]))),
            ("length of the coefficients", d["L2(coef)"] == B.sqrt(B.sum(q, lambda j: st.coef[j] * st.coef[j]))),
            ("length of the step", d["L2(step)"] == B.sqrt(B.sum(q, lambda j: st.step[j] * st.step[j])))]


def symbolic(B, tol):
    n, q = B.dim("n", lo=1), B.dim("q", lo=1)
    S = B.module("_solvers")
    coef0 = B.vec("coef", q)
    X = B.design("X", n, B.dim("p", lo=0))
    G = NS(initialized=False, cycles=0, calls=0)
    data = NS(X=X, max_iter=B.dim("max_iter", lo=0), gradient_tol=B.real("tol", "pos"), verbose=False, step_size_tol=B.real("step_tol", "pos") if tol else None)
    size = dict(eta=n, mu=n, gradient_rows=n, hessian_rows=n, coef=q, score=q, coef_P2=q, step=q)

    def draw(*names):
        """fresh current values"""
        for k in names:
            setattr(G, k, B.fresh_vec(k, size[k]) if k in size else B.fresh_real(k))
        return [getattr(G, k) for k in names]

    def current(who, st, *names):
        for k in names:
            B.ensure_eq(f"{who}: {k} is the current one", getattr(st, k), getattr(G, k))

    def update_predictions(st, dt, coef, X_dot_step=None, factor=1.0):
        B.ensure("start: data", dt is data and X_dot_step is None)
        B.ensure_eq("start: full predictor", factor, 1.0)
        B.ensure_eq("start: predictor of the coefficients alone", st.eta, B.np.zeros(n))
        B.ensure_eq("start: coefficients given", coef, coef0)
        G.coef = coef0
        return tuple(draw("eta", "mu", "obj_val", "coef_P2"))

    def update_quadratic(st, dt, coef_P2):
        current("quadratic approximation", st, "coef", "eta", "mu")
        B.ensure_eq("quadratic approximation: coef_P2 is the current one", coef_P2, G.coef_P2)
        B.ensure("quadratic approximation: data", dt is data)
        return tuple(draw("gradient_rows", "score", "hessian_rows"))

    def check_convergence(st, dt):
        current("convergence", st, "coef", "score", "step")
        B.ensure("convergence: data", dt is data and st.data is data)
        G.calls += 1
        G.converged = B.boolean(f"converged{G.calls}")
        return (G.converged, *draw("norm_min_subgrad", "max_min_subgrad", "inner_tol"))

    def identify_active_set(st, dt):
        current("active set", st, "coef", "score", "max_min_subgrad")
        B.ensure("active set: data", dt is data)
        G.act = B.fresh_vec("active", B.dim("n_active", lo=0)).astype(int)
        return G.act

    def update_hessian(st, dt, active_set):
        B.ensure("Hessian: data and active set", dt is data and active_set is G.act and st.active_set is G.act)
        current("Hessian", st, "hessian_rows", "gradient_rows")
        if G.initialized is not False:
            B.ensure("Hessian: known to be initialised", B.implies(G.initialized, st.hessian_initialized))
            B.ensure("Hessian: not initialised before the first", B.implies(st.hessian_initialized, G.initialized))
            B.ensure("Hessian: previous active set", B.implies(G.initialized, B.and_(st.old_active_set is G.act_used)))
            B.ensure("Hessian: rows already in the Hessian", B.implies(G.initialized, B.forall(n, lambda i: st.old_hessian_rows[i] == G.rows_used[i])))
            B.ensure("Hessian: left alone since", B.and_(st.hessian is G.hessian, B.forall(q, lambda i: st.hessian[i] == G.hessian_copy[i])))
        else:
            B.ensure("Hessian: not initialised before the first", not st.hessian_initialized)
        st.hessian_initialized = G.initialized = True
        st.hessian = G.hessian = B.fresh_vec("H", q)
        G.hessian_copy = G.hessian.copy()
        st.old_hessian_rows[:] = B.fresh_vec("scratch", n)
        st.hessian_rows[:] = B.fresh_vec("kept", n)        # skipped rows keep the curvature already applied (P09)
        G.act_used, G.rows_used = active_set, st.hessian_rows.copy()
        G.sub = B.fresh_vec("Hsub", q)
        return G.sub, B.integer("n_active_rows")

    def inner(st, dt, hessian):
        B.ensure("inner solver: data, Hessian and active set", dt is data and hessian is G.sub and st.active_set is G.act)
        current("inner solver", st, "coef", "score", "inner_tol")
        G.d = B.fresh_vec("d", q)
        c = B.integer("cycles", lo=0)
        G.cycles = G.cycles + c
        return G.d, c

    def line_search(st, dt, d):
        current("line search", st, "coef", "score", "eta", "obj_val")
        B.ensure("line search: data", dt is data)
        B.ensure_eq("line search: direction", d, G.d)
        st.n_line_search = B.integer("trials", lo=0)
        return tuple(draw("coef", "step", "eta", "mu", "obj_val", "coef_P2"))
    for f in (update_predictions, update_quadratic, check_convergence, identify_active_set, update_hessian, line_search):
        B.stub("_solvers", "_update_predictions" if f is update_predictions else f.__name__, f)
    ALL = ["coef", "eta", "mu", "obj_val", "score", "gradient_rows", "hessian_rows", "norm_min_subgrad", "max_min_subgrad", "inner_tol", "step"]

    def havoc(L):
        st = L["state"]
        for k in ALL:
            setattr(st, k, draw(k)[0])
        st.n_iter, st.n_cycles = B.integer("iter"), B.integer("n_cycles")
        G.cycles = B.integer("cycles0")
        G.calls += 1
        st.converged = G.converged = B.boolean(f"converged{G.calls}")
        st.hessian_initialized = B.boolean("initialized")
        G.initialized = B.boolean("G.initialized")
        st.hessian = G.hessian = B.fresh_vec("H", q)
        G.hessian_copy = B.fresh_vec("Hc", q)
        st.active_set = B.fresh_vec("active_old", B.dim("n_active_old", lo=0)).astype(int)
        G.act_used = st.active_set
        st.old_active_set = B.fresh_vec("active_older", B.dim("n_active_older", lo=0)).astype(int)
        st.old_hessian_rows = B.fresh_vec("rows_old", n)
        G.rows_used = B.fresh_vec("rows_used", n)
        st.diagnostics = Log(B.integer("n_log"), {k: B.fresh_real(k) for k in KEYS})
        st.n_line_search = B.integer("trials0")
        st.n_updated = B.integer("updated0")
        st.n_active_rows = B.integer("active_rows0")

    def inv(L):
        st = L["state"]
        out = [(f"{k} is the current one", B.forall(size[k], lambda i, k=k: getattr(st, k)[i] == getattr(G, k)[i]) if k in size else getattr(st, k) == getattr(G, k)) for k in ALL if k != "step" or hasattr(G, "step")]
        out += [("convergence is the current one", st.converged == G.converged),
                ("iterations", B.and_(st.n_iter >= 0, st.n_iter <= data.max_iter)),
                ("cycles", st.n_cycles == G.cycles),
                ("one entry of the diagnostics per iteration and one for the start", count(st.diagnostics) == st.n_iter + 1),
                ("Hessian initialised", st.hessian_initialized == G.initialized)]
        out += [("diagnostics: " + l, c) for l, c in described(B, last(st.diagnostics), st, q)]
        if G.initialized is not False and hasattr(G, "rows_used"):
            out += [("active set of the Hessian", B.implies(G.initialized, st.active_set is G.act_used)),
                    ("rows in the Hessian", B.implies(G.initialized, B.forall(n, lambda i: st.old_hessian_rows[i] == G.rows_used[i]))),
                    ("the Hessian is left alone", B.and_(st.hessian is G.hessian, B.forall(q, lambda i: st.hessian[i] == G.hessian_copy[i])))]
        return out
    B.loop("_irls_solver", 1, LoopSpec(inv, havoc=havoc, rebinds=("coef_P2",), writes=lambda L: [L["state"].old_hessian_rows, L["state"].hessian_rows]))
    c0 = B.copy(coef0)
    G.step = B.np.full(q, data.step_size_tol if tol else 0.0)
    coef, n_iter, n_cycles, log = S._irls_solver(inner, coef0, data)
    B.ensure_eq("the coefficients of the last accepted step are returned", coef, G.coef)
    B.ensure_eq("cycles of all inner solves", n_cycles, G.cycles)
    B.ensure("iterations within the limit", B.and_(n_iter >= 0, n_iter <= data.max_iter))
    B.ensure_eq("one entry of the diagnostics per iteration and one for the start", count(log), n_iter + 1)
    for l, c in described(B, last(log), NS(n_iter=n_iter, obj_val=G.obj_val, norm_min_subgrad=G.norm_min_subgrad, n_cycles=n_cycles, coef=coef, step=G.step), q):
        B.ensure("last entry of the diagnostics: " + l, c)
    B.ensure("a warning says that it did not converge", (len(B.warnings()) > 0) == (not G.converged))
    B.ensure("stops without convergence only when out of iterations", B.or_(G.converged, n_iter == data.max_iter))
    B.ensure_frame("start coefficients unchanged", coef0, c0)


def concrete(B, tol):
    np, S, D, K = B.np, B.module("_solvers"), B.module("_distribution"), B.module("_link")
    import warnings
    r = B.r
    n, p = int(r.integers(1, 30)), int(r.integers(0, 5))
    icpt = bool(r.integers(2)) or p == 0
    off = 1 if icpt else 0
    q = p + off
    A = r.standard_normal((n, p)) * 0.5
    fam, link, y = [(D.PoissonDistribution(), K.LogLink(), r.poisson(2.0, n).astype(float)), (D.BinomialDistribution(), K.LogitLink(), r.integers(0, 2, n).astype(float)),
                    (D.GammaDistribution(), K.LogLink(), r.gamma(2.0, 1.0, n) + 0.05), (D.NormalDistribution(), K.IdentityLink(), r.standard_normal(n))][int(r.integers(4))]
    w = r.uniform(0.1, 1.0, n)
    w /= w.sum()
    if r.integers(3) == 0:
        w[int(r.integers(n))] = 0.0
        B.assume(w.sum() > 0)
    P1 = np.full(p, float(r.choice([0.0, 0.01, 0.2])))
    P2 = np.full(p, 0.05)
    offset = r.uniform(-0.3, 0.3, n) if r.integers(2) else None
    bounded = bool(r.integers(2))
    lb, ub = (np.full(p, -0.2), np.full(p, 0.1)) if bounded else (None, None)
    coef0 = r.uniform(-0.15, 0.09, q)
    mx = int(r.integers(0, 12))
    inner = S._cd_solver if bounded or P1.any() or r.integers(2) else S._least_squares_solver
    data = S.IRLSData(X=B.tab.DenseMatrix(A), y=y, sample_weight=w, P1=P1, P2=P2, fit_intercept=icpt, family=fam, link=link, max_iter=mx,
                      gradient_tol=float(r.choice([1e-4, 1e-8, 1e-13])), step_size_tol=1e-9 if tol else None, hessian_approx=float(r.choice([0.0, 0.0, 0.1])), offset=offset, lower_bounds=lb, upper_bounds=ub,
                      random_state=int(r.integers(100)), selection=str(r.choice(["cyclic", "random"])))
    B.inputs.update(A=A, y=y, w=w, P1=P1, P2=P2, offset=offset, coef0=coef0, max_iter=mx, lb=lb, ub=ub, family=type(fam).__name__)
    G = NS(rows=None, act=None, converged=None, cycles=0)
    eq = B.ensure_eq

    def spy(name, before, after):
        def make(orig):
            def f(*a, **k):
                before(*a, **k)
                out = orig(*a, **k)
                after(out, *a)
                return out
            return f
        B.patch("_solvers", name, make)
    nothing = lambda *a, **k: None
    cp = lambda *v: [x.copy() if isinstance(x, np.ndarray) else x for x in v]

    def eta_of(c):
        return A @ c[off:] + (c[0] if off else 0.0) + (0.0 if offset is None else offset)

    def score_of(c):
        eta = eta_of(c)
        mu = link.inverse(eta)
        row = link.inverse_derivative(eta) * w * (y - mu) / fam.unit_variance(mu)
        g = row @ A - P2 * c[off:]
        return np.concatenate([[row.sum()], g]) if off else g

    def pred_after(out, st, dt, coef, *a):
        if len(a) < 1:
            G.coef, (G.eta, G.mu, G.obj, G.cP2) = coef.copy(), cp(*out)

    def quad_before(st, dt, c):
        for k, v in (("coef", G.coef), ("eta", G.eta), ("mu", G.mu)):
            eq(f"quadratic approximation: {k} is the current one", getattr(st, k), v)
        eq("quadratic approximation: coef_P2 is the current one", c, G.cP2)

    def quad_after(out, *a):
        G.g, G.score, G.h = cp(*out)

    def conv_before(st, dt):
        eq("convergence: coef is the current one", st.coef, G.coef)
        eq("convergence: score is the current one", st.score, G.score)

    def conv_after(out, *a):
        G.converged, G.norm, G.mx, G.tol = out

    def act_before(st, dt):
        eq("active set: coef is the current one", st.coef, G.coef)
        eq("active set: score is the current one", st.score, G.score)
        eq("active set: max_min_subgrad is the current one", st.max_min_subgrad, G.mx)

    def hess_before(st, dt, act):
        eq("Hessian: hessian_rows is the current one", st.hessian_rows, G.h)
        if G.rows is not None:
            eq("Hessian: rows already in the Hessian", st.old_hessian_rows, G.rows)
            eq("Hessian: previous active set", st.old_active_set, G.act)
            eq("Hessian: left alone since", st.hessian, G.H)

    def hess_after(out, st, dt, act):
        G.rows, G.act, G.H = st.hessian_rows.copy(), act.copy(), st.hessian.copy()

    def ls_before(st, dt, d):
        for k, v in (("coef", G.coef), ("eta", G.eta), ("score", G.score), ("obj_val", G.obj)):
            eq(f"line search: {k} is the current one", getattr(st, k), v)

    def ls_after(out, *a):
        G.coef, G.step, G.eta, G.mu, G.obj, G.cP2 = cp(*out)
    spy("_update_predictions", nothing, pred_after)
    spy("update_quadratic", quad_before, quad_after)
    spy("check_convergence", conv_before, conv_after)
    spy("identify_active_set", act_before, nothing)
    spy("update_hessian", hess_before, hess_after)
    spy("line_search", ls_before, ls_after)

    def solve(st, dt, h):
        d, c = inner(st, dt, h)
        G.cycles += c
        return d, c
    c0 = coef0.copy()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            coef, n_iter, n_cycles, log = S._irls_solver(solve, coef0, data)
        except np.linalg.LinAlgError:
            B.assume(False)
    eq("the coefficients of the last accepted step are returned", coef, G.coef)
    eq("cycles of all inner solves", n_cycles, G.cycles)
    B.ensure("iterations within the limit", 0 <= n_iter <= mx)
    B.ensure("one entry of the diagnostics per iteration and one for the start", len(log) == n_iter + 1 and [d["n_iter"] for d in log] == list(range(n_iter + 1)))
    d = log[-1]
    obj = fam.eta_mu_deviance(link, 1.0, np.zeros(n), eta_of(coef), y, w)[2] / 2 + (P1 * abs(coef[off:])).sum() + (P2 * coef[off:] ** 2).sum() / 2
    eq("last entry of the diagnostics: objective", d["objective_fct"], obj)
    eq("last entry of the diagnostics: convergence", d["convergence"], G.norm)
    eq("last entry of the diagnostics: cycles", d["n_cycles"], n_cycles)
    eq("last entry of the diagnostics: first coefficient", d["first_coef"], coef[0])
    eq("last entry of the diagnostics: size of the coefficients", d["L1(coef)"], abs(coef).sum())
    eq("last entry of the diagnostics: length of the coefficients", d["L2(coef)"], (coef @ coef) ** 0.5)
    eq("the gradient used is the one at the returned coefficients", G.score, score_of(coef), scale=1.0)
    B.ensure("a warning says that it did not converge", any("IRLS failed" in str(x.message) for x in ws) == (not G.converged))
    B.ensure("stops without convergence only when out of iterations", G.converged or n_iter == mx)
    B.ensure_frame("start coefficients unchanged", coef0, c0)


@contract("P31", U, [dict(step_tol=t) for t in (True, False)])
def outer_loop(B, step_tol):
    (symbolic if B.symbolic else concrete)(B, step_tol)
