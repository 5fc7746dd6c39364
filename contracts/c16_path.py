"""P16: the path of penalties."""
from dv.contract import contract
from dv.load import LoopSpec
from .common import tame
from .c08_objective import NS
from .c13_direct import estimator, arguments
from .c12_line_search import AnyLink

BASE = "_glm.GeneralizedLinearRegressorBase."


class Slopes:
    """a family known only by the gradient of its deviance: whatever was agreed, for the arguments it is asked for"""

    def __init__(self, B, d):
        self.d, self.asked = d, []

    def _mu_deviance_derivative(self, coef, X, y, sample_weight, link, offset=None):
        self.asked.append(NS(coef=coef, X=X, y=y, w=sample_weight, link=link, offset=offset))
        return None, self.d


END = ("default", "ratio", "minimum")


@contract("P16", [BASE + "_get_alpha_path"], [dict(intercept=i, end=e, l1=l, offset=o, null=z) for i in (True, False) for e in END for l in ("all", "some", "none") for o in (True, False) for z in (False, True)], trials=15)
def grid(B, intercept, end, l1, offset, null):
    """first entry: the smallest penalty at which the slopes zero satisfy the optimality conditions of all L1-penalised coefficients; then a geometric sequence"""
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    off = int(intercept)
    X = B.design("X", n, p, storage="dense")
    y, w = B.vec("y", n), B.vec("w", n, "pos")
    o = B.vec("offset", n) if offset else None
    P1 = B.vec("P1", p, "pos" if l1 == "all" else "nonneg")
    g = B.vec("gradient", p + off)
    if not B.symbolic:
        tame(B, P1, g, hi=1e3)
        if l1 == "some":
            P1[B.r.integers(p)] = 0.0
            P1[B.r.integers(p)] = 1.5
    if l1 == "none":
        P1 = B.np.zeros(p)
    if l1 == "some":
        B.assume(B.exists(p, lambda j: P1[j] > 0))
    if null:
        g0 = g
        g = B.tab_arr(lambda j: B.ite(j < off, g0[j], 0.0), p + off)
    elif l1 != "none":
        B.assume(B.exists(p, lambda j: B.and_(P1[j] > 0, B.or_(g[j + off] > 0, g[j + off] < 0))))
    else:
        B.assume(B.exists(p, lambda j: B.or_(g[j + off] > 0, g[j + off] < 0)))
    fam, link = Slopes(B, g), object()
    icpt = B.real("intercept0")
    seen = []

    def make(orig):
        def guess(*a, **k):
            seen.append(arguments(orig, a, k))
            return icpt
        return guess
    B.patch("_glm", "guess_intercept", make)
    m = B.dim("n_alphas", lo=2)
    ratio = B.real("ratio", "unit") if end == "ratio" else None
    least = B.real("min_alpha", "pos") if end == "minimum" else None
    if not B.symbolic:
        icpt, ratio, least = min(max(icpt, -20.0), 20.0), ratio and max(ratio, 1e-8), least and min(max(least, 1e-8), 1e3)
    e = estimator(B, "GeneralizedLinearRegressorBase", min_alpha=least, min_alpha_ratio=ratio, n_alphas=m, fit_intercept=intercept, _family_instance=fam, _link_instance=link)
    r = B.call(lambda: e._get_alpha_path(P1_no_alpha=P1, X=X, y=y, w=w, offset=o))
    c = B.symbolic
    # what the first penalty is computed from: the gradient of the deviance at the null model
    B.ensure("one gradient of the deviance", len(fam.asked) == 1)
    a = fam.asked[0]
    B.ensure("for the design and the link", a.X is X and a.link is link)
    B.ensure_eq("for the targets", a.y, y)
    B.ensure_eq("for the weights", a.w, w)
    B.ensure("with the offset", (a.offset is None) == (o is None))
    if o is not None:
        B.ensure_eq("with the given offset", a.offset, o)
    B.ensure("one coefficient per column and the intercept", a.coef.shape[0] == p + off)
    B.ensure_each("all slopes zero", p, lambda j: a.coef[j + off] == 0)
    if intercept:
        B.ensure_eq("intercept of the null model", a.coef[0], icpt)
        B.ensure("one null model", len(seen) == 1)
        s = seen[0]
        B.ensure_eq("null model of the targets", s["y"], y)
        B.ensure_eq("null model with the weights", s["sample_weight"], w)
        B.ensure("null model for family and link", s["distribution"] is fam and s["link"] is link)
        B.ensure("null model with the offset", s.get("eta") is o)
    half = lambda j: abs(g[j + off]) / 2
    if not r.ok:
        B.ensure("fails only when the smallest requested penalty is not below the largest", end == "minimum" and r.raised(ValueError))
        if end == "minimum" and l1 != "none" and not null:
            B.ensure_each("fails only when the smallest requested penalty is not below the largest: slopes", p, lambda j: B.implies(P1[j] > 0, half(j) <= P1[j] * least * (1 if c else 1 + 1e-9)))
        return
    al = r.value
    B.ensure("the requested number of penalties", al.shape[0] == m)
    tol = 1 if c else 1 + 1e-9
    if null:
        B.ensure_eq("the slopes are zero at every penalty: the first is ten", al[0], 10.0)
    elif l1 != "none":
        B.ensure_each("at the first penalty zero is optimal in every L1-penalised coefficient", p, lambda j: B.implies(P1[j] > 0, half(j) <= P1[j] * al[0] * tol))
        B.ensure_all("at any smaller one it is not", B.exists(p, lambda j: B.and_(P1[j] > 0, half(j) * tol >= P1[j] * al[0]))) if c else \
            B.ensure("at any smaller one it is not", any(P1[j] > 0 and half(j) * tol >= P1[j] * al[0] for j in range(p)))
    top = 10.0 if null else al[0]
    want = {"default": lambda: top * (1e-6 if n >= p else 1e-2), "ratio": lambda: top * ratio, "minimum": lambda: least}[end]()
    last = al[m - 1]
    B.ensure_eq("the last penalty is the smallest requested", last, want, rtol=1e-6)
    k = B.integer("k", lo=0)
    if not B.symbolic:
        k = int(B.r.integers(m - 1))
    B.assume(B.and_(k >= 0, k + 1 < m))
    B.ensure("positive", al[k] > 0)
    B.ensure("decreasing", al[k + 1] < al[k])
    if c:
        step = lambda i: B.log(al[i + 1]) - B.log(al[i])
        B.ensure_eq("by a constant factor", step(k) * (m - 1), B.log(al[m - 1]) - B.log(al[0]))
    else:
        B.ensure_eq("by a constant factor", (al[k + 1] / al[k]) ** (m - 1), al[m - 1] / al[0], rtol=1e-6)


@contract("P16", [BASE + "_solve_regularization_path"], [dict(pen=q, bounds=b, ineq=i) for q in ("vector", "matrix", "sparse") for b in (True, False) for i in (True, False)], trials=15)
def path(B, pen, bounds, ineq):
    """position k is solved with the k-th penalty, starting from the solution of position k - 1, and row k of the result is that solution"""
    n, p, off = B.dim("n", lo=1), B.dim("p", lo=1), 1
    q, m = p + 1, B.dim("m", lo=1)
    X = B.design("X", n, p, storage="dense")
    y, w, o, P1, coef0 = B.vec("y", n), B.vec("w", n, "pos"), B.vec("offset", n), B.vec("P1", p, "nonneg"), B.vec("coef", q)
    if pen == "vector":
        P2 = B.vec("P2", p, "nonneg")
    elif pen == "matrix":
        P2 = B.mat("P2", p, p)
    else:
        P2 = B.sparse_mat(B.mat("P2", p, p))
    dense = lambda M: M if pen != "sparse" else M.toarray()
    al, sol = B.vec("alphas", m, "pos"), B.mat("solution", m, q)
    if not B.symbolic:
        tame(B, P1, dense(P2), al, hi=1e3)
    lb, ub = (B.vec("lb", p), B.vec("ub", p)) if bounds else (None, None)
    A, b = (B.mat("A", 1, p), B.vec("b", 1)) if ineq else (None, None)
    e = estimator(B, "GeneralizedLinearRegressorBase", verbose=0, fit_intercept=True)
    G = NS(k=0)
    given = dict(X=X, y=y, sample_weight=w, offset=o, lower_bounds=lb, upper_bounds=ub, A_ineq=A, b_ineq=b)
    P10, P20, al0, c0 = B.copy(P1), B.copy(dense(P2)), B.copy(al), B.copy(coef0)
    orig = e._solve

    def solve(*a, **k):
        x = arguments(orig, a, k)
        t = G.k
        for nm, v in given.items():
            B.ensure("every position sees the same " + nm, x[nm] is v)
        B.ensure("no more positions than penalties", t < m)
        B.ensure_eq_each("L1 penalty of the position", p, lambda j: x["P1"][j], lambda j: P10[j] * al0[t])
        M = dense(x["P2"])
        if pen == "vector":
            B.ensure_eq_each("L2 penalty of the position", p, lambda j: M[j], lambda j: P20[j] * al0[t])
        else:
            i, j = B.arbitrary("i", p), B.arbitrary("j", p)
            B.ensure_eq("L2 penalty of the position", M[i, j], P20[i, j] * al0[t])
        cf = x["coef"]
        before = lambda j: B.ite(t == 0, c0[j], sol[B.ite(t == 0, 0, t - 1), j])
        B.ensure_eq_each("starting from the solution of the previous position", q, lambda j: cf[j], before)
        G.k = t + 1
        e.n_iter_ = 3
        return sol[t] if B.symbolic else sol[t].copy()
    e._solve = solve
    if B.symbolic:
        def inv(L):
            pth = L["self"].coef_path_
            k = L["#"]
            cf = L["coef"]
            return [("positions solved", G.k == k),
                    ("coefficients of the previous position", B.forall(q, lambda j: cf[j] == B.ite(k == 0, c0[j], sol[B.ite(k == 0, 0, k - 1), j]))),
                    ("rows of the result", B.forall(m, lambda r: B.forall(q, lambda j: B.implies(r < k, pth[r, j] == sol[r, j]))))]

        def havoc(L):
            L.set("coef", B.fresh_vec("c", q))
            G.k = B.integer("position")
        B.loop("_solve_regularization_path", 1, LoopSpec(inv, havoc=havoc, rebinds=("coef",), writes=lambda L: [L["self"].coef_path_]))
    r = e._solve_regularization_path(alphas=al, P2_no_alpha=P2, P1_no_alpha=P1, coef=coef0, **given)
    B.ensure("one row per penalty, one column per coefficient", B.and_(r.shape[0] == m, r.shape[1] == q))
    B.ensure_eq("every penalty is used", G.k, m)
    i = B.arbitrary("row", m)
    B.ensure_eq_each("every row is the solution for its penalty", q, lambda j: r[i, j], lambda j: sol[i, j])
    for nm, v, ov in (("L1 penalty", P1, P10), ("L2 penalty", dense(P2), P20), ("penalties", al, al0), ("starting values", coef0, c0)):
        B.ensure_frame(nm + " unchanged", v, ov)


FIT = ["_glm.GeneralizedLinearRegressor.fit", "_utils.standardize", "_utils.unstandardize", "_glm.setup_p1", "_glm.setup_p2"]
OPT = [dict(intercept=i, scaled=s) for i, s in ((True, True), (True, False), (False, False))]


@contract("P16", FIT, [dict(o, alpha=a, bounds=b, pen=q) for o in OPT for a in ("none", "given") for b in (True, False) for q in ("vector", "identity")], trials=10)
def fit(B, intercept, scaled, alpha, bounds, pen):
    """fit computes the path for the problem it then solves, reports position by position what was solved, and the last position as the model"""
    n, p, m = B.dim("n", lo=1), B.dim("p", lo=1), B.dim("m", lo=1)
    off = int(intercept)
    q = p + off
    X, w, y, o = B.design("X", n, p, storage="dense"), B.vec("w", n, "pos"), B.vec("y", n), B.vec("offset", n)
    B.assume(B.sum(n, lambda i: w[i]) > 0)
    P1 = B.vec("P1", p, "nonneg") if pen == "vector" else "identity"
    P2 = B.vec("P2", p, "nonneg") if pen == "vector" else "identity"
    lb, ub = (B.vec("lb", p), B.vec("ub", p)) if bounds else (None, None)
    l1 = B.real("l1_ratio", "unitc")
    al, sol, coef0 = B.vec("alphas", m, "pos"), B.mat("solution", m, q), B.vec("coef0", q)
    if not B.symbolic:
        tame(B, B.A(X), w, y, o, sol, al, hi=1e3)
        al = B.np.sort(al)[::-1].copy()
        if bounds:
            lb, ub = B.np.minimum(lb, ub), B.np.maximum(lb, ub)
    if bounds:
        B.assume(B.forall(p, lambda j: lb[j] <= ub[j]))
    C = B.module("_glm").GeneralizedLinearRegressor
    user = al if alpha == "given" else None
    e = C(alpha=user, alpha_search=True, l1_ratio=l1, P1=P1, P2=P2, fit_intercept=intercept, family="normal", link="identity", solver="irls-cd", scale_predictors=scaled, lower_bounds=lb, upper_bounds=ub,
          n_alphas=m)
    R = NS(path=[], solve=[], std=[], un=[])

    def record(name, into, result):
        orig = getattr(e, name)

        def f(*a, **k):
            into.append(arguments(orig, a, k))
            return result()
        setattr(e, name, f)
    record("_get_alpha_path", R.path, lambda: al)
    record("_get_start_coef", [], lambda: coef0)
    record("_solve_regularization_path", R.solve, lambda: B.copy(sol))

    def watch(into):
        def make(orig):
            def f(*a, **k):
                b = {k_: B.copy(v) if hasattr(v, "shape") and not hasattr(v, "matvec") else v for k_, v in arguments(orig, a, k).items()}
                r = orig(*a, **k)
                into.append((b, r))
                return r
            return f
        return make
    B.patch("_glm", "standardize", watch(R.std))
    B.patch("_glm", "unstandardize", watch(R.un))
    r = B.call(lambda: e.fit(X, y, sample_weight=w, offset=o))
    B.ensure("the fit succeeds", r.ok)
    if not r.ok:
        raise r.exc
    B.ensure("one standardisation, one path, one transformation back", len(R.std) == 1 and len(R.solve) == 1 and len(R.un) == 1 and len(R.path) == (alpha == "none"))
    s, (sa, so) = R.solve[0], R.std[0]
    B.ensure("the solver's path is for the standardised design", s["X"] is so[0])
    if alpha == "none":
        a = R.path[0]
        B.ensure("penalties for the standardised design", a["X"] is so[0])
        B.ensure_eq("penalties for the L1 penalty that is solved with", a["P1_no_alpha"], s["P1_no_alpha"])
        B.ensure_eq("penalties for the targets that are solved with", a["y"], s["y"])
        B.ensure_eq("penalties for the weights that are solved with", a["w"], s["sample_weight"])
        B.ensure_eq("penalties for the offset that is solved with", a["offset"], s["offset"])
    B.ensure_eq("the path that is solved", s["alphas"], al)
    B.ensure_eq("the path that is reported", e._alphas, al)
    B.ensure_eq("the path starts at the starting values", s["coef"], coef0)
    B.ensure("the penalties of the path are the standardised ones", s["P1_no_alpha"] is so[6] and s["P2_no_alpha"] is so[7])
    B.ensure("the bounds of the path are the standardised ones", s["lower_bounds"] is so[3] and s["upper_bounds"] is so[4])
    W = B.sum(n, lambda i: w[i])
    B.ensure_eq_each("weights", n, lambda i: s["sample_weight"][i], lambda i: w[i] / W)
    B.ensure_eq_each("offset", n, lambda i: s["offset"][i], lambda i: o[i])
    B.ensure_eq_each("targets", n, lambda i: s["y"][i], lambda i: y[i])
    l1v, l2v = (lambda j: (P1[j] if pen == "vector" else 1) * l1), (lambda j: (P2[j] if pen == "vector" else 1) * (1 - l1))
    B.ensure_eq_each("L1 penalty without alpha", p, lambda j: sa["P1"][j], l1v)
    B.ensure_eq_each("L2 penalty without alpha", p, lambda j: sa["P2"][j], l2v)
    # back to the user's scale
    u, (ip, cp) = R.un[0]
    B.ensure("with the means and standard deviations of the standardisation", B.np.all(u["col_means"] == so[1]) and (B.np.all(u["col_stds"] == so[2]) if so[2] is not None else u["col_stds"] is None))
    i = B.arbitrary("position", m)
    ic, sl = u["intercept"], u["coef"]
    B.ensure_eq("intercept of every position", ic[i], sol[i, 0] if intercept else 0.0)
    B.ensure_eq_each("coefficients of every position", p, lambda j: sl[i, j], lambda j: sol[i, j + off])
    B.ensure("the reported coefficients are the ones transformed back", e.coef_path_ is cp and e.intercept_path_ is ip)
    B.ensure_eq_each("the model is the last position", p, lambda j: e.coef_[j], lambda j: cp[m - 1, j])
    B.ensure_eq("the intercept is that of the last position", e.intercept_, ip[m - 1] if intercept else 0.0)
