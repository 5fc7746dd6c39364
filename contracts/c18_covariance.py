"""P18: covariance matrices, standard errors, Wald tests and coefficient tables."""
from dv.contract import contract
from .common import Fam, Lnk, PAIRCASES, eta_vec, tame
from .c08_objective import NS
from .c13_direct import arguments, estimator

FAM = "_distribution.ExponentialDispersionModel."
BASE = "_glm.GeneralizedLinearRegressorBase."


def augmented(B, A, off):
    """columns of the model: the intercept first, if there is one"""
    return (lambda i, j: B.ite(j == 0, 1.0, A[i, B.ite(j == 0, 0, j - 1)])) if off else (lambda i, j: A[i, j])


# ------------------------------------------------------------------ information matrices and scores
@contract("P18", [FAM + f for f in ("_fisher_information", "_observed_information", "_score_matrix")] + ["_distribution.get_one_over_variance", "_distribution.*.variance", "_distribution.*.unit_variance",
          "_distribution.*.unit_variance_derivative", "_link.*.inverse_derivative", "_link.*.inverse_derivative2"],
          [dict(c, what=w, intercept=i) for c in PAIRCASES for w in ("expected", "observed", "score") for i in (True, False)], trials=12)
def information(B, family, link, what, intercept):
    """rows of the score and weights of the information matrices, in terms of the documented variance and inverse link"""
    F, L = Fam(B, family), Lnk(B, link)
    n, p = B.dim("n"), B.dim("p")
    off = int(intercept)
    eta = eta_vec(B, F, L, "eta", n)
    X = B.design("X", n, p, storage="dense")
    y, w, phi = B.vec("y", n, F.ykind), B.vec("w", n, "pos"), B.real("dispersion", "pos")
    tame(B, y, w, phi)
    if B.symbolic:
        mu = B.tab_arr(lambda i: L.h(eta[i]), n)
        if F.mukind == "unit":
            B.assume(B.np.all(mu > 0)); B.assume(B.np.all(mu < 1))
        L.obj.link = lambda m: B.copy(eta)  # the link undoes its inverse (P01)
    else:
        A0 = B.np.asfortranarray(B.np.clip(B.A(X), -10, 10))
        X = B.tab.DenseMatrix(A0)
        mu = L.obj.inverse(eta)
    A = B.copy(B.A(X))
    if link == "Logit":  # beyond this the exponentials of get_one_over_variance overflow, and it clips
        B.assume(B.np.all(abs(eta) <= B.np.log(B.np.finfo(float).max / 10)))
    old = [B.copy(v) for v in (eta, y, w, mu)]
    v, dv, h1, h2 = (lambda i: F.v(mu[i])), (lambda i: F.dv(mu[i])), (lambda i: L.dh(eta[i])), (lambda i: L.d2h(eta[i]))
    if what == "expected":
        weight = lambda i: w[i] * h1(i) ** 2 / (phi * v(i))
    elif what == "observed":
        weight = lambda i: w[i] / phi * (h1(i) ** 2 / v(i) - (y[i] - mu[i]) * h2(i) / v(i) + (y[i] - mu[i]) * h1(i) ** 2 * dv(i) / v(i) ** 2)
        size = lambda i: w[i] / phi * (h1(i) ** 2 / v(i) + abs((y[i] - mu[i]) * h2(i) / v(i)) + abs((y[i] - mu[i]) * h1(i) ** 2 * dv(i) / v(i) ** 2))
    else:
        weight = lambda i: w[i] * (y[i] - mu[i]) * h1(i) / (phi * v(i))
        size = lambda i: w[i] * (abs(y[i]) + abs(mu[i])) * abs(h1(i)) / (phi * v(i))
    if what == "expected":
        size = weight
    seen = []
    if what != "score" and B.symbolic:
        real = B.module("_linalg")._safe_sandwich_dot

        def sandwich(*a, **k):
            x = arguments(real, a, k)
            seen.append(x)
            return real(*a, **k)
        B.stub("_distribution", "_safe_sandwich_dot", sandwich)
    f = getattr(F.obj, {"expected": "_fisher_information", "observed": "_observed_information", "score": "_score_matrix"}[what])
    r = f(L.obj, X, y, mu, w, phi, intercept)
    M = B.A(r)
    xa = augmented(B, A, off)
    if what == "score":
        B.ensure("one row per observation, one column per coefficient", B.and_(M.shape[0] == n, M.shape[1] == p + off))
        i = B.arbitrary("row", n)
        if intercept:
            B.ensure_eq("score of the intercept", M[i, 0], weight(i), rtol=1e-5, scale=None if B.symbolic else 1e-12 + size(i))
        B.ensure_eq_each("score of the coefficients", p, lambda j: M[i, j + off], lambda j: weight(i) * A[i, j], rtol=1e-5, **({} if B.symbolic else dict(scale=1e-12 + 10 * size(i))))
    else:
        B.ensure("one row and column per coefficient", B.and_(M.shape[0] == p + off, M.shape[1] == p + off))
        if len(seen) == 1:
            d = seen[0]["d"]
            B.ensure("for the design, with the intercept first", B.and_(seen[0]["X"] is X, seen[0].get("intercept", False) == intercept, seen[0].get("rows") is None, seen[0].get("cols") is None))
            B.ensure_eq_each("weights of the rows", n, lambda i: d[i], weight)
            wt = lambda i: d[i]
        else:
            wt = weight
        j, k = B.arbitrary("j", p + off), B.arbitrary("k", p + off)
        s = None if B.symbolic else 1e-9 + B.sum(n, lambda i: abs(size(i) * xa(i, j) * xa(i, k)))
        B.ensure_eq("sum over the rows of weight times the product of the columns", M[j, k], B.sum(n, lambda i: wt(i) * xa(i, j) * xa(i, k)), rtol=1e-5, scale=s)
    for nm, a, o in zip(("eta", "y", "weights", "mu"), (eta, y, w, mu), old):
        B.ensure_frame(nm + " unchanged", a, o)


@contract("P18", ["_glm._group_sum"], [dict(kind=k) for k in ("arbitrary", "counted")], trials=40)
def group_sum(B, kind):
    """one row per distinct label, holding the sum of that label's rows"""
    n, p = B.dim("n"), B.dim("p")
    X = B.design("X", n, p, storage="dense")
    G = B.dim("G")
    lo, hi = (-5, 20) if kind == "arbitrary" else (0, G)
    labels = B.ivec("labels", n, lo, hi)
    if not B.symbolic and kind == "arbitrary":
        labels = labels * int(B.r.integers(1, 4)) + int(B.r.integers(-3, 3))
    A, old = B.copy(B.A(X)), B.copy(labels)
    if not B.symbolic:
        tame(B, A)
    r = B.module("_glm")._group_sum(labels, X)
    i = B.arbitrary("observation", n)
    j = B.arbitrary("column", p)
    want = B.sum(n, lambda t: B.ite(labels[t] == labels[i], A[t, j], 0.0))
    if B.symbolic:
        u = B.calls("unique")
        B.ensure("one row per distinct label", B.or_(*[r.shape[0] == x["count"] for x in u]))
        B.ensure_eq("the row of a label is the sum of its rows", r[u[0]["inverse"][i], j], want)
    else:
        B.ensure("one row per distinct label", r.shape == (len(set(labels.tolist())), p))
        k = sorted(set(labels.tolist())).index(labels[i])
        B.ensure_eq("the row of a label is the sum of its rows", r[k, j], want)
    B.ensure_frame("labels unchanged", labels, old)


# ------------------------------------------------------------------ covariance matrix
KINDS = [dict(robust=r, clusters=c, expected=e) for r, c, e in ((False, False, False), (True, False, False), (True, False, True), (False, True, False), (True, True, True), (None, False, None), (None, True, None))]


def setting(B, intercept, storage="dense", weights="vector", offset="array"):
    S = NS()
    S.n, S.p = B.dim("n", lo=3), B.dim("p", lo=1, hi=None if B.symbolic else 3)
    S.off = int(intercept)
    S.q = S.p + S.off
    S.X = B.design("X", S.n, S.p, storage=storage)
    S.y, S.w, S.o = B.vec("y", S.n), (B.vec("w", S.n, "pos") if weights == "vector" else None), (B.vec("offset", S.n) if offset == "array" else None)
    if not B.symbolic:
        tame(B, S.y, B.A(S.X), hi=1e3)
    S.wt = (lambda i: S.w[i]) if weights == "vector" else (lambda i: 1.0)
    S.W = B.sum(S.n, S.wt)
    C = B.module("_glm").GeneralizedLinearRegressor
    e = S.e = C.__new__(C)
    B.partial(e)
    coef, icpt = B.vec("coef", S.p), B.real("icpt")
    for a, v in dict(fit_intercept=intercept, coef_=coef, intercept_=icpt if intercept else 0.0, n_features_in_=S.p, covariance_matrix_=None, drop_first=False, copy_X=None,
                     force_all_finite=True, alpha=None, alpha_search=False, robust=True, expected_information=False, _link_instance="link").items():
        setattr(e, a, v)
    S.coef, S.icpt = coef, icpt
    return S


class Parts:
    """a family of which only the information matrices, the scores and the dispersion are known: arbitrary ones"""

    def __init__(self, B, S):
        self.seen = {}
        self.K = {w: B.mat("information_" + w, S.q, S.q) for w in ("expected", "observed")}
        self.S = B.mat("scores", S.n, S.q)
        self.phi = B.real("estimated dispersion", "pos")
        if not B.symbolic:
            for k in self.K:
                M = B.np.clip(self.K[k], -3, 3)
                self.K[k] = M @ M.T + B.np.eye(S.q)
            self.S = B.np.clip(self.S, -10, 10)
        self.B = B

    def _note(self, what, a):
        self.seen.setdefault(what, []).append(a)

    def _fisher_information(self, link, X, y, mu, sample_weight, dispersion, fit_intercept):
        self._note("expected", dict(link=link, X=X, y=y, mu=mu, w=sample_weight, phi=dispersion, intercept=fit_intercept))
        return self.B.copy(self.K["expected"])

    def _observed_information(self, link, X, y, mu, sample_weight, dispersion, fit_intercept):
        self._note("observed", dict(link=link, X=X, y=y, mu=mu, w=sample_weight, phi=dispersion, intercept=fit_intercept))
        return self.B.copy(self.K["observed"])

    def _score_matrix(self, link, X, y, mu, sample_weight, dispersion, fit_intercept):
        self._note("score", dict(link=link, X=X, y=y, mu=mu, w=sample_weight, phi=dispersion, intercept=fit_intercept))
        return self.B.tab.DenseMatrix(self.B.copy(self.S)) if not self.B.symbolic else self.B.tab.DenseMatrix(self.S)

    def dispersion(self, y, mu, sample_weight=None, ddof=1, method="pearson"):
        self._note("dispersion", dict(y=y, mu=mu, w=sample_weight, ddof=ddof, method=method))
        return self.phi


@contract("P18", [BASE + "covariance_matrix", "_validation.check_weights", "_validation.check_offset", "_validation.check_X_y_tabmat_compliant"],
          [dict(k, intercept=i, given=g, storage=s, store=st) for k in KINDS for i in (True, False) for g, s, st in (("none", "array", False), ("none", "dense", True), ("mu", "dense", False), ("all", "sparse", True))], trials=12)
def covariance(B, robust, clusters, expected, intercept, given, storage, store):
    """the documented estimators, for the right information, scores, dispersion and number of observations"""
    S = setting(B, intercept, storage)
    n, q, e = S.n, S.q, S.e
    P = Parts(B, S)
    e._family_instance = P
    mu0 = B.vec("mu", n)
    asked = []
    e.predict = lambda *a, **k: (asked.append((a, k)), mu0)[1]
    kw = {}
    if given in ("mu", "all"):
        kw["mu"] = B.vec("given mu", n)
    if given == "all":
        kw["dispersion"] = B.real("given dispersion", "pos")
    groups = total = None
    if clusters:
        groups = B.ivec("labels", n, -3, 9)
        if not B.symbolic:
            groups[:2] = (1, 2)
        else:
            G = B.dim("G", lo=2)
            total = B.mat("cluster totals", G, q)
            asked_groups = []

            def group_sum(g, data):
                asked_groups.append((g, data))
                return total
            B.stub("_glm", "_group_sum", group_sum)
    B.assume(B.or_(S.W > q, S.W < q) if B.symbolic else abs(S.W - q) > 0.1)
    B.assume(S.W > 0)
    old = {k: B.copy(v) for k, v in dict(y=S.y, w=S.w, o=S.o, X=B.A(S.X)).items()}
    r = B.call(lambda: e.covariance_matrix(S.X, S.y, S.w, S.o, robust=robust, clusters=groups, expected_information=expected, store_covariance_matrix=store, **kw))
    B.ensure("computed, or the design is singular", B.or_(r.ok, r.raised(B.LinAlgError)))
    if not r.ok:
        if not r.raised(B.LinAlgError):
            raise r.exc
        B.ensure("nothing is stored for a singular design", e.covariance_matrix_ is None)
        return
    V = r.value
    sand = bool(robust or robust is None or clusters)
    info = "expected" if (not sand or expected) else "observed"
    B.ensure("the documented information matrix is used", set(P.seen) - {"dispersion"} == ({info, "score"} if sand else {info}) and all(len(v) == 1 for v in P.seen.values()))
    used = []
    for what, xs in P.seen.items():
        used.append((what, xs[0]))
    M = kw.get("mu", mu0)
    for what, x in used:
        B.ensure_eq_each(what + ": targets", n, lambda i: x["y"][i], lambda i: old["y"][i])
        B.ensure_eq_each(what + ": predictions", n, lambda i: x["mu"][i], lambda i: M[i])
        B.ensure_eq_each(what + ": weights", n, lambda i: x["w"][i], lambda i: old["w"][i])
        if what == "dispersion":
            B.ensure_eq("dispersion: degrees of freedom of the coefficients", x["ddof"], q)
            B.ensure("dispersion: Pearson estimate", x["method"] == "pearson")
        else:
            B.ensure_eq(what + ": dispersion", x["phi"], kw.get("dispersion", P.phi))
            B.ensure_eq(what + ": design", B.A(x["X"]), old["X"])
            B.ensure(what + ": link and intercept of the model", x["link"] == "link" and x["intercept"] == intercept)
    B.ensure("a given dispersion is not estimated", ("dispersion" in P.seen) == (given != "all"))
    B.ensure("predictions of the model, unless given", len(asked) == (given == "none"))
    if asked:
        (a, k) = asked[0]
        x = dict(zip(("X",), a), **k)
        B.ensure_eq("predictions for the design", B.A(x["X"]), old["X"])
        B.ensure_eq_each("predictions with the offset", n, lambda i: x["offset"][i], lambda i: old["o"][i])
    W = S.W
    K = P.K[info]
    factor = W / (W - q)
    B.ensure("one row and column per coefficient", B.and_(V.shape[0] == q, V.shape[1] == q))
    a, b = B.arbitrary("a", q), B.arbitrary("b", q)
    if B.symbolic:
        if not sand:
            inv = B.calls("linalg.inv")
            B.ensure("one inverse", len(inv) == 1)
            B.ensure_eq("inverse of the information", inv[0]["A"], K)
            B.ensure_eq("inverse information with small-sample correction", V[a, b], inv[0]["value"][a, b] * factor)
        else:
            so = [c for c in B.calls("linalg.solve") if not c["raised"]]
            B.ensure("two solves", len(so) == 2)
            B.ensure_eq("information on the left", so[0]["A"], K)
            if clusters:
                B.ensure("clusters are the given ones", len(asked_groups) == 1 and asked_groups[0][0] is groups)
                B.ensure_eq("cluster totals of the scores", B.A(asked_groups[0][1]), P.S)
                cnt = B.calls("unique")
                B.ensure("number of clusters", len(cnt) == 1)
                G_ = cnt[0]["count"]
                B.ensure_eq("sum over clusters of outer products", so[0]["b"][a, b], B.sum(total.shape[0], lambda g: total[g, a] * total[g, b]))
                factor = G_ / (G_ - 1) * (W - 1) / (W - q)
            else:
                B.ensure_eq("sum over rows of outer products", so[0]["b"][a, b], B.sum(n, lambda i: P.S[i, a] * P.S[i, b]))
            B.ensure_eq("information on the right", so[1]["A"], K)
            B.ensure_eq("symmetric in the two sides", so[1]["b"][a, b], so[0]["value"][b, a])
            B.ensure_eq("sandwich with small-sample correction", V[a, b], so[1]["value"][a, b] * factor)
    else:
        np = B.np
        Ki = np.linalg.inv(K)
        if not sand:
            want = Ki * factor
        else:
            T = P.S
            if clusters:
                u = sorted(set(groups.tolist()))
                T = np.array([P.S[groups == g].sum(axis=0) for g in u])
                factor = len(u) / (len(u) - 1) * (W - 1) / (W - q)
            want = Ki @ (T.T @ T) @ Ki * factor
        B.ensure_eq("documented estimator", V, want, rtol=1e-6, scale=1e-9 + np.abs(want).max())
        B.ensure_eq("symmetric", V, V.T, rtol=1e-6, scale=1e-9 + np.abs(want).max())
    B.ensure("stored when asked for", (e.covariance_matrix_ is V) if store else e.covariance_matrix_ is None)
    for nm, v in (("targets", "y"), ("weights", "w"), ("offset", "o"), ("design", "X")):
        B.ensure_frame(nm + " unchanged", B.A(S.X) if v == "X" else getattr(S, v), old[v])


# ------------------------------------------------------------------ Wald tests, standard errors, coefficient table
PARAMS = ("X", "y", "sample_weight", "offset", "mu", "dispersion", "robust", "clusters", "expected_information")


class Arg:
    """an argument that is only passed on"""

    def __init__(self, name):
        self.name = name


def fitted(B, intercept, p):
    """a fitted estimator of which only the coefficients and the covariance matrix are known: arbitrary ones"""
    S = NS()
    S.off = int(intercept)
    S.p, S.q = p, p + S.off
    C = B.module("_glm").GeneralizedLinearRegressor
    e = S.e = C.__new__(C)
    B.partial(e)
    S.coef, S.icpt = B.vec("coef", p), B.real("intercept")
    S.V = B.mat("V", S.q, S.q)
    if not B.symbolic:
        S.coef[:] = B.np.clip(S.coef, -1e2, 1e2)
        S.icpt = float(B.np.clip(S.icpt, -1e2, 1e2))
        M = B.np.clip(S.V, -3, 3)
        S.V = M @ M.T + B.np.eye(S.q)
    else:
        B.assume(B.forall(S.q, lambda i: S.V[i, i] > 0))
    e.fit_intercept, e.coef_, e.intercept_, e.covariance_matrix_ = intercept, S.coef, S.icpt if intercept else 0.0, None
    S.asked = []
    e.covariance_matrix = lambda *a, **k: (S.asked.append((a, k)), S.V)[1]
    S.beta = (lambda j: B.ite(j == 0, S.icpt, S.coef[B.ite(j == 0, 0, j - 1)])) if intercept else (lambda j: S.coef[j])
    return S


def passed_on(B, S, args, context=None):
    B.ensure("one covariance matrix, of the data and settings given", len(S.asked) == 1 and not S.asked[0][0] and all(S.asked[0][1].get(k) is v for k, v in args.items())
             and S.asked[0][1].get("context") is context and not set(S.asked[0][1]) - set(args) - {"context", "store_covariance_matrix"})


def wald_result(B, S, res, R, r, Q):
    """chi-squared statistic of R beta = r"""
    stat, pv, df = res
    q = S.q
    B.ensure_eq("degrees of freedom: number of restrictions", df, Q)
    if B.symbolic:
        so = [c for c in B.calls("linalg.solve") if not c["raised"]]
        B.ensure("one solve", len(so) == 1)
        a, b = B.arbitrary("restriction", Q), B.arbitrary("other restriction", Q)
        B.ensure_eq("covariance of the restrictions", so[0]["A"][a, b], B.sum(q, lambda k: B.sum(q, lambda j: R(a, j) * S.V[j, k]) * R(b, k)))
        B.ensure_eq("violation of the restrictions", so[0]["b"][a, 0], B.sum(q, lambda j: R(a, j) * S.beta(j)) - r(a))
        B.ensure_eq("statistic", stat[0], B.sum(Q, lambda a: so[0]["b"][a, 0] * so[0]["x"][a, 0]))
        B.ensure_eq("p-value: upper tail of the chi-squared distribution", pv[0], 1 - B.stats.chi2.cdf(stat[0], Q))
    else:
        np = B.np
        Rm = np.array([[R(a, j) for j in range(q)] for a in range(Q)])
        d = Rm @ np.array([S.beta(j) for j in range(q)]) - np.array([r(a) for a in range(Q)])
        want = d @ np.linalg.solve(Rm @ S.V @ Rm.T, d)
        B.ensure_eq("statistic", float(np.ravel(stat)[0]), want, rtol=1e-6, scale=1e-6 + abs(want))
        B.ensure_eq("p-value: upper tail of the chi-squared distribution", float(np.ravel(pv)[0]), B.stats.chi2.sf(want, Q), rtol=1e-6, scale=1.0)


@contract("P18", [BASE + "wald_test", BASE + "_wald_test_matrix"], [dict(intercept=i, rhs=r) for i in (True, False) for r in ("none", "array", "list")], trials=40)
def wald(B, intercept, rhs):
    """Wald test of R beta = r, with r = 0 when it is left out"""
    p, Q = B.dim("p"), B.dim("Q")
    S = fitted(B, intercept, p)
    R = B.mat("R", Q, S.q)
    if not B.symbolic:
        R = B.np.clip(R, -3, 3)
    r = B.vec("r", Q)
    if rhs == "list":
        if B.symbolic:
            rhs = "array"
        else:
            given = [float(v) for v in r]
    if rhs == "array":
        given = r
    if rhs == "none":
        given = None
    if not B.symbolic:
        B.assume(Q <= S.q and B.np.linalg.matrix_rank(R) == Q and B.np.linalg.cond(R) < 1e3)
    args = {k: Arg(k) for k in PARAMS}
    Ro, ro = B.copy(R), B.copy(r)
    out = B.call(lambda: S.e.wald_test(R=R, r=given, **args))
    B.ensure("computed, or the restrictions are not of full rank", B.or_(out.ok, out.raised(B.LinAlgError)))
    if not out.ok:
        if not out.raised(B.LinAlgError):
            raise out.exc
        return
    passed_on(B, S, args)
    wald_result(B, S, out.value, lambda a, j: Ro[a, j], (lambda a: ro[a]) if given is not None else (lambda a: 0.0), Q)
    B.ensure_frame("restrictions unchanged", R, Ro)
    B.ensure_frame("right-hand side unchanged", r, ro)


@contract("P18", [BASE + "wald_test", BASE + "_wald_test_matrix"], [dict(intercept=i, what=w) for i in (True, False) for w in ("rows", "columns")], trials=20)
def wald_shapes(B, intercept, what):
    """restrictions that do not fit the model or each other are rejected"""
    p, Q, m = B.dim("p"), B.dim("Q"), B.dim("m")
    S = fitted(B, intercept, p)
    cols = S.q if what == "rows" else m
    R = B.mat("R", Q, cols)
    r = B.vec("r", m if what == "rows" else Q)
    B.assume(B.not_(m == (Q if what == "rows" else S.q)))
    out = B.call(lambda: S.e.wald_test(R=R, r=r))
    B.ensure("rejected", out.raised(ValueError))


NAMES = ["age", "city[a]", "city[b]", "age:city[b]"]
TERMS = ["age", "city", "city", "age:city"]
ASKS = [dict(by="features", ask=a, pos=q) for a, q in (("age", [0]), (["city[b]"], [2]), (["city[b]", "age"], [2, 0]), (["age:city[b]", "city[a]", "age"], [3, 1, 0]))] + \
       [dict(by="terms", ask=a, pos=q) for a, q in (("city", [1, 2]), (["age"], [0]), (["age:city", "city"], [3, 1, 2]), (["city", "age"], [1, 2, 0]))]


@contract("P18", [BASE + "wald_test", BASE + "_wald_test_feature_names", BASE + "_wald_test_term_names", BASE + "_wald_test_matrix"],
          [dict(c, intercept=i, rhs=r) for c in ASKS for i in (True, False) for r in (True, False)] +
          [dict(by=b, ask="intercept", pos=[-1], intercept=True, rhs=r) for b in ("features", "terms") for r in (True, False)],
          assumes=["named hypotheses: models of four named coefficients, eight kinds of names and term lists; coefficients, values and covariances arbitrary"], trials=10)
def wald_names(B, by, ask, pos, intercept, rhs):
    """a hypothesis about named features or terms is the one that those coefficients have the given values"""
    S = fitted(B, intercept, 4)
    S.e.feature_names_, S.e.term_names_ = list(NAMES), list(TERMS)
    asked = [ask] if isinstance(ask, str) else list(ask)
    per = [1 if by == "features" else max(1, TERMS.count(t)) for t in asked]
    vals = [B.real(f"value {k}") for k in range(len(asked))] if rhs else None
    if rhs and not B.symbolic:
        vals = [float(B.np.clip(v, -1e2, 1e2)) for v in vals]
    flat = [v for v, c in zip(vals, per) for _ in range(c)] if rhs else None
    args = {k: Arg(k) for k in PARAMS}
    out = B.call(lambda: S.e.wald_test(**{by: ask}, r=vals, **args))
    B.ensure("computed, or singular", B.or_(out.ok, out.raised(B.LinAlgError)))
    if not out.ok:
        if not out.raised(B.LinAlgError):
            raise out.exc
        return
    passed_on(B, S, args)
    Q = len(pos)
    cols = [k + S.off for k in pos]
    stat, pv, df = out.value
    B.ensure("degrees of freedom: number of coefficients", df == Q)
    if B.symbolic:
        so = [c for c in B.calls("linalg.solve") if not c["raised"]]
        B.ensure("one solve", len(so) == 1)
        for a in range(Q):
            B.ensure_eq("violation of the hypothesis", so[0]["b"][a, 0], S.beta(cols[a]) - (flat[a] if rhs else 0.0))
            for b in range(Q):
                B.ensure_eq("covariance of the coefficients", so[0]["A"][a, b], S.V[cols[a], cols[b]])
        B.ensure_eq("statistic", stat[0], sum(so[0]["b"][a, 0] * so[0]["x"][a, 0] for a in range(Q)))
        B.ensure_eq("p-value", pv[0], 1 - B.stats.chi2.cdf(stat[0], Q))
    else:
        wald_result(B, S, out.value, lambda a, j: float(j == cols[a]), (lambda a: flat[a]) if rhs else (lambda a: 0.0), Q)


@contract("P18", [BASE + "wald_test", BASE + "_wald_test_feature_names", BASE + "_wald_test_term_names"],
          [dict(what=w) for w in ("none", "two", "unknown feature", "unknown term", "lengths of features", "lengths of terms", "formula and r")], trials=3)
def wald_rejects(B, what):
    """ambiguous or unknown hypotheses are rejected"""
    S = fitted(B, True, 4)
    S.e.feature_names_, S.e.term_names_ = list(NAMES), list(TERMS)
    R = B.mat("R", 2, 5)
    kw = {"none": {}, "two": dict(R=R, features="age"), "unknown feature": dict(features=["age", "size"]), "unknown term": dict(terms=["age", "size"]),
          "lengths of features": dict(features=["age", "city[a]"], r=[1.0]), "lengths of terms": dict(terms=["age", "city"], r=[1.0]), "formula and r": dict(formula="age = 1", r=[1.0])}[what]
    out = B.call(lambda: S.e.wald_test(**kw))
    B.ensure("rejected", out.raised(ValueError))


@contract("P18", [BASE + "std_errors", BASE + "coef_table"], [dict(intercept=i, what=w) for i in (True, False) for w in ("std_errors", "table", "table stored", "only coefficients")], trials=15)
def errors(B, intercept, what):
    """standard errors are the square roots of the variances; the table derives from them"""
    p = 3 if what != "std_errors" else B.dim("p")
    S = fitted(B, intercept, p)
    e, q = S.e, S.q
    args = {k: Arg(k) for k in PARAMS}
    if what == "std_errors":
        store = Arg("store")
        r = e.std_errors(store_covariance_matrix=store, **args)
        passed_on(B, S, args)
        B.ensure("whether to store is passed on", S.asked[0][1].get("store_covariance_matrix") is store)
        B.ensure_eq_each("square root of the variance", q, lambda j: r[j], lambda j: B.sqrt(S.V[j, j]))
        return
    e.feature_names_ = ["a", "b", "c"]
    names = ["intercept"] * S.off + ["a", "b", "c"]
    if B.symbolic:
        pd = NS()
        pd.DataFrame = lambda d, index: ("table", d, index)
        pd.Series = lambda d, index, name: ("series", d, index, name)
        B.stub("_glm", "pd", pd)
    level = B.real("level", "unit")
    if not B.symbolic:
        level = float(B.np.clip(level, 0.01, 0.99))
    if what == "table stored":
        e.covariance_matrix_ = S.V
        args["X"] = args["y"] = None
    if what == "only coefficients":
        args = dict.fromkeys(args)
    r = e.coef_table(confidence_level=level, **args)
    idx = list(r[2]) if B.symbolic else list(r.index)
    B.ensure("one entry per coefficient, by name", idx == names)
    if what == "only coefficients":
        B.ensure("no covariance matrix needed", not S.asked)
        c = r[1] if B.symbolic else r.to_numpy()
        B.ensure_eq_each("coefficients", q, lambda j: c[j], S.beta)
        return
    passed_on(B, S, args)
    col = (lambda k: r[1][k]) if B.symbolic else (lambda k: r[k].to_numpy())
    B.ensure("columns", set(r[1] if B.symbolic else r.columns) == {"coef", "se", "t_value", "p_value", "ci_lower", "ci_upper"})
    se = lambda j: B.sqrt(S.V[j, j])
    z = B.stats.norm
    B.ensure_eq_each("coefficients", q, lambda j: col("coef")[j], S.beta)
    B.ensure_eq_each("standard errors", q, lambda j: col("se")[j], se)
    B.ensure_eq_each("t-values", q, lambda j: col("t_value")[j], lambda j: S.beta(j) / se(j))
    B.ensure_eq_each("p-values", q, lambda j: col("p_value")[j], lambda j: 2 * (1 - z.cdf(abs(S.beta(j) / se(j)))), atol=1e-9)
    a = 1 - level
    B.ensure_eq_each("lower ends", q, lambda j: col("ci_lower")[j], lambda j: S.beta(j) + z.ppf(a / 2) * se(j), rtol=1e-6, atol=1e-6)
    B.ensure_eq_each("upper ends", q, lambda j: col("ci_upper")[j], lambda j: S.beta(j) + z.ppf(1 - a / 2) * se(j), rtol=1e-6, atol=1e-6)


from .c27_fit import OPT, run


@contract("P18", ["_glm.GeneralizedLinearRegressor.fit", BASE + "_tear_down_from_fit", "_utils.unstandardize"],
          [dict(o, store=s, weights=w, robust=r) for o in OPT for s in ("array", "sparse") for w in ("vector", "none") for r in (True, False)] + [dict(OPT[0], store="no", weights="vector", robust=True)], trials=8)
def stored_at_fit(B, intercept, scaled, store, weights, robust):
    """fit keeps the covariance matrix of the data, weights and settings it was given, or none"""
    seen = []
    clusters = Arg("clusters")

    def prepare(F):
        e = F.e
        e.robust, e.expected_information = robust, not robust
        e.covariance_matrix_ = "stale"
        orig = e.covariance_matrix

        def cov(*a, **k):
            seen.append((arguments(orig, a, k), hasattr(e, "coef_") and hasattr(e, "intercept_"), getattr(e, "coef_", None)))
        e.covariance_matrix = cov
    F = run(B, intercept, scaled, weights=weights, store="dense" if store == "no" else store, prepare=prepare, fit_args=dict(store_covariance_matrix=store != "no", clusters=clusters))
    if store == "no":
        B.ensure("no covariance matrix is left from an earlier fit", not seen and F.e.covariance_matrix_ is None)
        return
    B.ensure("one covariance matrix, after the coefficients are known", len(seen) == 1 and seen[0][1] and seen[0][2] is F.e.coef_)
    x = seen[0][0]
    B.ensure("stored, with the settings of the model", x["store_covariance_matrix"] is True and x["robust"] is robust and x["expected_information"] is (not robust) and x["clusters"] is clusters
             and x.get("mu") is None and x.get("dispersion") is None)
    A, wt = B.A(x["X"]), (lambda i: F.old["w"][i]) if weights == "vector" else (lambda i: 1)
    i = B.arbitrary("row", F.n)
    mx = 1e-300 if B.symbolic else 1e-9 * (1 + abs(F.old["X"]).max())
    B.ensure_eq_each("of the given design", F.p, lambda j: A[i, j], lambda j: F.old["X"][i, j], **({} if B.symbolic else dict(atol=mx)))
    B.ensure_eq_each("of the given targets", F.n, lambda i: x["y"][i], lambda i: F.old["y"][i])
    B.ensure_eq_each("of the given offset", F.n, lambda i: x["offset"][i], lambda i: F.old["o"][i])
    B.ensure_eq_each("of the given weights, not normalised ones", F.n, lambda i: x["sample_weight"][i], wt)
