"""P21: cross-validation.

The number of folds and the number of ratios are enumerated (the code treats every pair alike: one job each);
rows, columns, penalties, fold memberships and every number are arbitrary."""
from dv.contract import contract
from .common import Fam
from .c08_objective import NS
from .c13_direct import arguments

CV = "_glm_cv.GeneralizedLinearRegressorCV."
BASE = "_glm.GeneralizedLinearRegressorBase."
T = [CV + "fit", CV + "_validate_hyperparameters", BASE + "_set_up_and_check_fit_args", BASE + "_set_up_for_fit", "_glm.setup_p1", "_glm.setup_p2",
     "_utils.standardize", "_utils.unstandardize", "_linalg._safe_lin_pred", "_validation.check_bounds"]
D = ["_distribution.*.deviance", "_distribution.*.unit_deviance", "_functions.*_deviance", "_link.*.inverse"]
FAMS = {"normal": ("Normal", lambda B, x: x), "poisson": ("Poisson", lambda B, x: B.exp(x))}
LINK = {"normal": "identity", "poisson": "log"}


def mild(B, hi, *vs):
    """drawn numbers of moderate size, in place"""
    if not B.symbolic:
        for v in vs:
            if v is not None and hasattr(v, "dtype"):
                v[...] = B.np.where(abs(v) < 1e-3, B.np.where(v > 0, 1e-3, 0.0), B.np.clip(v, -hi, hi))


class Folds:
    """the user's folds"""

    def __init__(self, folds):
        self.folds, self.asked = folds, []

    def split(self, X=None, y=None, groups=None):
        self.asked.append((X, y))
        return iter(self.folds)

    def get_n_splits(self, X=None, y=None, groups=None):
        if X is None:  # as for one fold per row: the number of folds depends on the data
            raise TypeError("the number of folds depends on the data")
        return len(self.folds)


def run(B, K, L, intercept, scaled, family="normal", alphas="auto", bounds=False, weights=True, offset=True, pen="identity", any_loss=False, used=None):
    n, p, m = B.dim("n", lo=2), B.dim("p", lo=1), B.dim("m", lo=1)
    F = NS(n=n, p=p, m=m, K=K, L=L, off=int(intercept))
    q = p + F.off
    X = B.design("X", n, p, storage="dense")
    F.w = B.vec("w", n, "pos") if weights else None
    F.y, F.o = B.vec("y", n, "nonneg" if family == "poisson" else "real"), B.vec("offset", n) if offset else None
    F.P1 = B.vec("P1", p, "nonneg") if pen == "vector" else "identity"
    F.P2 = B.vec("P2", p, "nonneg") if pen == "vector" else "identity"
    F.ratios = [B.real("ratio%d" % l, "unitc") for l in range(L)]
    F.lb, F.ub = (B.vec("lb", p), B.vec("ub", p)) if bounds else (None, None)
    F.tr, F.te, F.nt, F.ns = [], [], [], []
    for k in range(K):
        a, b = B.dim("train%d" % k, lo=1), B.dim("test%d" % k, lo=1)
        F.nt.append(a), F.ns.append(b)
        F.tr.append(B.ivec("rows_train%d" % k, a, 0, n)), F.te.append(B.ivec("rows_test%d" % k, b, 0, n))
    F.given = B.vec("alphas", m, "pos") if alphas == "given" else None
    F.auto = [B.vec("path%d" % l, m, "pos") for l in range(L)]
    F.sol = [[B.mat("solution%d_%d" % (k, l), m, q) for l in range(L)] for k in range(K)]
    F.final, F.start = B.mat("final", m, q), B.vec("start", q)
    A = F.A = B.copy(B.A(X))
    if not B.symbolic:
        mild(B, 4.0, A, F.final, F.start, F.o, *[x for r in F.sol for x in r])
        mild(B, 10.0, F.y, F.w)
        X = B.tab.DenseMatrix(A.copy())
        if bounds:
            F.lb, F.ub = B.np.minimum(F.lb, F.ub), B.np.maximum(F.lb, F.ub)
    if bounds:
        B.assume(B.forall(p, lambda j: F.lb[j] <= F.ub[j]))
    F.wt = (lambda i: F.w[i]) if weights else (lambda i: 1.0)
    if weights:
        B.assume(B.sum(n, F.wt) > 0)
        for k in range(K):
            B.assume(B.sum(F.nt[k], lambda i: F.w[F.tr[k][i]]) > 0)
            B.assume(B.sum(F.ns[k], lambda i: F.w[F.te[k][i]]) > 0)
    old = F.old = {k: B.copy(v) for k, v in dict(y=F.y, w=F.w, o=F.o, P1=F.P1, P2=F.P2, lb=F.lb, ub=F.ub, alphas=F.given).items() if hasattr(v, "shape")}
    C = B.module("_glm_cv").GeneralizedLinearRegressorCV
    F.cv = Folds([(B.copy(a), B.copy(b)) for a, b in zip(F.tr, F.te)])
    fam = family
    if any_loss and B.symbolic:
        # any loss at all: one prediction of a model with arbitrary coefficients is an arbitrary number for every position (what the loss is: contract `loss`)
        fam = B.module("_distribution").NormalDistribution()
        fam.deviance = lambda y, mu, sample_weight=1: mu[0]
    F.ratio_list = list(F.ratios)
    make_ = lambda: C(alphas=F.given, n_alphas=m, l1_ratio=F.ratios[0] if L == 1 else F.ratio_list, P1=F.P1, P2=F.P2, fit_intercept=intercept, family=fam, link=LINK[family],
                solver="irls-cd", scale_predictors=scaled, lower_bounds=F.lb, upper_bounds=F.ub, cv=F.cv)
    e = F.e = make_()
    F.path, F.solve, F.std, F.un, F.starts, F.backs = [], [], [], [], [], {}
    F.order = [(k, l) for k in range(K) for l in range(L)]

    def record(name, into, result, e=e):
        orig = getattr(e, name)

        def f(*a, **k):
            into.append(arguments(orig, a, k))
            return result(len(into) - 1)
        setattr(e, name, f)

    def solution(t):
        B.ensure("one path per fold and ratio, then the final path", t <= K * L)
        if t == K * L:
            F.during = F.e.coef_path_
            F.e.coef_path_ = "overwritten"
            return B.copy(F.final)
        k, l = F.order[t]
        return B.copy(F.sol[k][l])
    record("_get_alpha_path", F.path, lambda t: B.copy(F.auto[t]))
    record("_get_start_coef", F.starts, lambda t: B.copy(F.start))
    record("_solve_regularization_path", F.solve, solution)

    def watch(into):
        def make(orig):
            def f(*a, **k):
                b = {k_: B.copy(v) if hasattr(v, "shape") and not hasattr(v, "matvec") else v for k_, v in arguments(orig, a, k).items()}
                r = orig(*a, **k)
                into.append((b, r))
                return r
            return f
        return make
    B.patch("_glm_cv", "standardize", watch(F.std))
    if any_loss and B.symbolic:
        def back(*a, **k):
            b = arguments(B.module("_utils").unstandardize, a, k)
            t = len(F.un)
            if t not in F.backs:
                F.backs[t] = B.vec("intercepts%d" % t, m), B.mat("coefficients%d" % t, m, p)
            F.un.append((b, F.backs[t]))
            return F.un[-1][1]
        B.stub("_glm_cv", "unstandardize", back)
    else:
        B.patch("_glm_cv", "unstandardize", watch(F.un))
    F.nstd = L if alphas == "auto" else 0
    F.fits = None
    F.D = X
    if used is not None:  # the same fit by another estimator first (P29)
        F.first = F.e = make_()
        record("_get_alpha_path", F.path, lambda t: B.copy(F.auto[t]), F.e)
        record("_get_start_coef", F.starts, lambda t: B.copy(F.start), F.e)
        record("_solve_regularization_path", F.solve, solution, F.e)
        r = B.call(lambda: F.first.fit(X, F.y, sample_weight=F.w, offset=F.o))
        B.ensure("the fit of a new estimator succeeds", r.ok)
        if not r.ok:
            raise r.exc
        F.before = [list(v) for v in (F.path, F.solve, F.std, F.un, F.starts, F.cv.asked)]
        for v in (F.path, F.solve, F.std, F.un, F.starts, F.cv.asked):
            del v[:]
        F.e = e
        used(e)
    r = B.call(lambda: e.fit(X, F.y, sample_weight=F.w, offset=F.o))
    B.ensure("the fit succeeds", r.ok)
    if not r.ok:
        raise r.exc
    B.ensure("one path per fold and ratio, then one for all data", len(F.solve) == K * L + 1 and len(F.starts) == K * L + 1)
    B.ensure("one standardisation per path", len(F.std) == F.nstd + K * L + 1 and len(F.un) == K * L + 1)
    B.ensure("one automatic path per ratio", len(F.path) == F.nstd)
    return F


def problem(B, F, t, rows, size, l1, what):
    """the t-th path is for the given rows and ratio"""
    s, (a, so) = F.solve[t], F.std[F.nstd + t]
    row = lambda i: rows[i] if rows is not None else i
    W = B.sum(size, lambda i: F.wt(row(i)))
    M = B.A(a["X"])
    B.ensure(what + ": number of rows", B.and_(M.shape[0] == size, M.shape[1] == F.p))
    i0 = B.arbitrary("row of " + what, size)
    B.ensure_eq_each(what + ": design", F.p, lambda j: M[i0, j], lambda j: F.A[row(i0), j])
    B.ensure(what + ": solved for the standardised design", s["X"] is so[0])
    for nm, v in (("solver", s["sample_weight"]), ("standardisation", a["sample_weight"])):
        B.ensure_eq_each(what + ": weights of the " + nm, size, lambda i: v[i], lambda i: F.wt(row(i)) / W)
    B.ensure_eq_each(what + ": targets", size, lambda i: s["y"][i], lambda i: F.old["y"][row(i)])
    B.ensure("%s: offset" % what, (s["offset"] is None) == (F.o is None))
    if F.o is not None:
        B.ensure_eq_each(what + ": offset", size, lambda i: s["offset"][i], lambda i: F.old["o"][row(i)])
    B.ensure_eq_each(what + ": L1 penalty", F.p, lambda j: a["P1"][j], lambda j: (F.old["P1"][j] if "P1" in F.old else 1) * l1)
    B.ensure_eq_each(what + ": L2 penalty", F.p, lambda j: a["P2"][j], lambda j: (F.old["P2"][j] if "P2" in F.old else 1) * (1 - l1))
    B.ensure(what + ": penalties and bounds are the standardised ones", all(s[x] is so[k] for x, k in (("P1_no_alpha", 6), ("P2_no_alpha", 7), ("lower_bounds", 3), ("upper_bounds", 4))))
    for nm in ("lb", "ub"):
        v = a["lower_bounds" if nm == "lb" else "upper_bounds"]
        if nm in F.old:
            B.ensure_eq_each(what + ": " + nm, F.p, lambda j: v[j], lambda j: F.old[nm][j])
        else:
            B.ensure(what + ": no " + nm, v is None)
    return s, a, so


GRID = [dict(K=K, L=L, intercept=i, scaled=s) for K, L in ((1, 1), (2, 1), (3, 1), (2, 2)) for i, s in ((True, False), (True, True), (False, False))]
FEW = [g for g in GRID if g["K"] == 2]


@contract("P21", T, [dict(g, alphas=a, bounds=b, weights=w, offset=o, pen=pen) for g in GRID
                     for a, b, w, o, pen in (("auto", False, True, True, "identity"), ("given", True, True, True, "vector"), ("auto", True, False, False, "vector"))], trials=6)
def training(B, K, L, intercept, scaled, alphas, bounds, weights, offset, pen):
    """what is fitted for a fold, a ratio and a penalty: the rows outside the fold, with their weights (normalised), offsets, ratio and penalties"""
    F = run(B, K, L, intercept, scaled, alphas=alphas, bounds=bounds, weights=weights, offset=offset, pen=pen)
    for t, (k, l) in enumerate(F.order):
        what = "fold %d ratio %d" % (k, l)
        s, a, so = problem(B, F, t, F.tr[k], F.nt[k], F.ratios[l], what)
        c = F.e.alphas_[l] if L > 1 else F.e.alphas_
        B.ensure_eq(what + ": penalties are the reported ones", s["alphas"], c)
        if alphas == "auto":
            B.ensure_eq(what + ": penalties of the ratio", s["alphas"], F.auto[l])
    for l in range(F.nstd):
        x, (a, so) = F.path[l], F.std[l]
        what = "automatic path of ratio %d" % l
        B.ensure(what + ": for the standardised design", x["X"] is so[0] and x["P1_no_alpha"] is so[6])
        B.ensure_eq_each(what + ": L1 penalty", F.p, lambda j: a["P1"][j], lambda j: (F.old["P1"][j] if "P1" in F.old else 1) * F.ratios[l])
        B.ensure_eq_each(what + ": targets", F.n, lambda i: x["y"][i], lambda i: F.old["y"][i])
        if offset:
            B.ensure_eq_each(what + ": offset", F.n, lambda i: x["offset"][i], lambda i: F.old["o"][i])
        W = B.sum(F.n, F.wt)
        B.ensure_eq_each(what + ": weights", F.n, lambda i: x["w"][i], lambda i: F.wt(i) / W)
    if alphas == "given":
        al = F.e.alphas_ if L == 1 else F.e.alphas_[0]
        B.ensure_each("penalties decrease", F.m - 1, lambda i: al[i] >= al[i + 1])
        B.ensure_each("penalties are given ones", F.m, lambda i: B.exists(F.m, lambda r: F.old["alphas"][r] == al[i]))
    for nm, v in (("weights", "w"), ("targets", "y"), ("offset", "o"), ("P1", "P1"), ("P2", "P2"), ("lower bounds", "lb"), ("upper bounds", "ub"), ("alphas", "alphas")):
        if v in F.old:
            B.ensure_frame(nm + " unchanged", F.given if v == "alphas" else getattr(F, v), F.old[v])
    for k in range(K):
        B.ensure_frame("fold unchanged", F.cv.folds[k][0], F.tr[k])
        B.ensure_frame("fold unchanged", F.cv.folds[k][1], F.te[k])


@contract("P21", T + D, [dict(g, family=f, weights=w, offset=o) for g in FEW for f in ("normal", "poisson") if g["intercept"] or f == "normal" for w, o in ((True, True), (False, False))], trials=6)
def loss(B, K, L, intercept, scaled, family, weights, offset):
    """the recorded loss is the weighted mean deviance of the fold's own rows under the model fitted without them"""
    F = run(B, K, L, intercept, scaled, family=family, weights=weights, offset=offset)
    fam = Fam(B, FAMS[family][0])
    h = FAMS[family][1]
    dp = F.e.deviance_path_
    B.ensure("a loss for every fold, ratio and penalty", B.and_(dp.shape[0] == K, dp.shape[1] == L if L > 1 else dp.shape[1] == 1, dp.shape[2] == F.m))
    a = B.arbitrary("penalty", F.m)
    for t, (k, l) in enumerate(F.order):
        u, (ic, cf) = F.un[t]
        so = F.std[F.nstd + t][1]
        what = "fold %d ratio %d" % (k, l)
        B.ensure(what + ": transformed back with the means and standard deviations of the fold", B.np.all(u["col_means"] == so[1]) and (B.np.all(u["col_stds"] == so[2]) if so[2] is not None else u["col_stds"] is None))
        B.ensure_eq(what + ": intercept", u["intercept"][a], F.sol[k][l][a, 0] if intercept else 0.0)
        B.ensure_eq_each(what + ": coefficients", F.p, lambda j: u["coef"][a, j], lambda j: F.sol[k][l][a, j + F.off])
        te, size = F.te[k], F.ns[k]
        X, o = F.A, F.old.get("o")
        i0 = lambda i: ic[a] if intercept else 0.0
        eta = B.tab_arr(lambda i: B.sum(F.p, lambda j: X[te[i], j] * cf[a, j]) + i0(i) + (o[te[i]] if o is not None else 0.0), size)
        W = B.sum(size, lambda i: F.wt(te[i]))
        want = B.sum(size, lambda i: F.wt(te[i]) / W * fam.d(F.old["y"][te[i]], h(B, eta[i])))
        B.ensure_eq(what + ": loss", dp[k, l, a], want, scale=None if B.symbolic else 1.0 + abs(float(want)))
        cp, ip = F.e.coef_path_, F.e.intercept_path_
        B.ensure_eq_each(what + ": reported coefficients", F.p, lambda j: cp[k, l, a, j], lambda j: cf[a, j])
        if intercept:
            B.ensure_eq(what + ": reported intercept", ip[k, l, a, 0], ic[a])


@contract("P21", T, [dict(g, alphas=a, bounds=b, pen=pen) for g in FEW for a, b, pen in (("auto", False, "identity"), ("given", True, "vector"))], trials=6)
def selection(B, K, L, intercept, scaled, alphas, bounds, pen):
    """the selected pair has the smallest mean loss; the final model is the selected position of the path of the selected ratio on all data"""
    F = run(B, K, L, intercept, scaled, alphas=alphas, bounds=bounds, pen=pen, any_loss=True)
    e = F.e
    dp = e.deviance_path_
    mean = lambda l, a: sum(dp[k, l, a] for k in range(K)) / K
    u, (ic, cf) = F.un[-1]
    s = F.solve[-1]
    al = (lambda l: e.alphas_[l]) if L > 1 else (lambda l: e.alphas_)
    R = B.array(F.ratios)
    best = B.calls("argmin")
    if B.symbolic and len(best) == 1 and len(best[0]["at"]) == 2:
        # the position the program found
        l, a = best[0]["at"]
        al = (lambda l_: e.alphas_[l_]) if L > 1 else (lambda l_: e.alphas_)
        B.ensure("the selected position exists", B.and_(0 <= l, l < L, 0 <= a, a < F.m))
        for r in range(L):
            B.ensure_each("the selected pair has the smallest mean loss (ratio %d)" % r, F.m, lambda b: mean(l, a) <= mean(r, b))
        B.ensure_eq("selected ratio", e.l1_ratio_, R[l])
        B.ensure_eq("selected penalty", e.alpha_, al(l)[a])
        B.ensure_eq_each("coefficients of the selected position", F.p, lambda j: e.coef_[j], lambda j: cf[a, j])
        B.ensure_eq("intercept of the selected position", e.intercept_, ic[a])
        B.ensure_eq_each("final path has the penalties of the selected ratio", F.m, lambda b: s["alphas"][b], lambda b: al(l)[b])
    else:
        def selected(l, a):
            return B.and_(e.l1_ratio_ == R[l], e.alpha_ == al(l)[a],
                          B.and_(*[B.forall(F.m, lambda b: mean(l, a) <= mean(r, b) + (0 if B.symbolic else 1e-9 * abs(mean(r, b)))) for r in range(L)]),
                          B.forall(F.p, lambda j: e.coef_[j] == cf[a, j]), e.intercept_ == ic[a],
                          B.forall(F.m, lambda b: s["alphas"][b] == al(l)[b]))
        B.ensure("the selected pair has the smallest mean loss and is the reported one", B.or_(*[B.exists(F.m, lambda a: selected(l, a)) for l in range(L)]))
    problem(B, F, K * L, None, F.n, e.l1_ratio_, "final path")
    B.ensure_eq("reported path", e._alphas, s["alphas"])
    so = F.std[-1][1]
    B.ensure("the final model is transformed back with the means and standard deviations of all data", B.np.all(u["col_means"] == so[1]) and (B.np.all(u["col_stds"] == so[2]) if so[2] is not None else u["col_stds"] is None))
    i = B.arbitrary("position", F.m)
    B.ensure_eq("final intercepts", u["intercept"][i], F.final[i, 0] if intercept else 0.0)
    B.ensure_eq_each("final coefficients", F.p, lambda j: u["coef"][i, j], lambda j: F.final[i, j + F.off])
    B.ensure("the paths of the folds stay reported", e.coef_path_ is F.during)
    B.ensure("predictions by penalty use the final path", e._refit_coef_path is cf and e._refit_intercept_path is ic)
