"""P14: internal standardisation of the design, and back."""
from dv.contract import contract
from .c08_objective import NS, tame, quadform, p2coef
from .c09_hessian import pen_of

T = ["_utils.standardize", "_utils.unstandardize", "_utils._one_over_var_inf_to_val"]
PENS = ("vector", "matrix", "sparse", "sparse diagonal")


def setting(B, dense=False):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1, hi=None if B.symbolic else 5)
    X, w = B.design("X", n, p), B.vec("w", n, "pos")
    if not B.symbolic:
        A = B.A(X)
        tame(B, w, hi=1e3)
        # columns of different magnitude (also nearly and exactly constant ones); no cancellation beyond what single steps can resolve
        A2 = B.r.normal(size=A.shape) * B.r.choice([1.0, 1e-3, 1e3, 1.2e-7, 1e-9, 1e-5], size=p) + B.r.choice([0.0, 1.0], size=p) * (B.r.random() < 0.5)
        A2[:, B.r.random(p) < 0.2] = 2.0
        X = B.tab.DenseMatrix(A2) if B.r.integers(2) else B.tab.SparseMatrix(B.sparse.csc_matrix(A2))
        B.inputs["X"] = A2
        w = w / w.sum()
        B.inputs["w"] = w
    return n, p, X, w


def lin_at(B, A, c, n, p):
    return B.tab_arr(lambda i: B.sum(p, lambda j: A[i, j] * c[j]), n)


@contract("P14", T, [dict(center=a, scaled=b, pen=c) for a in (True, False) for b in (True, False) for c in PENS])
def same_model(B, center, scaled, pen):
    U = B.module("_utils")
    n, p, X, w = setting(B)
    P1 = B.vec("P1", p, "nonneg")
    P2, P2f = pen_of(B, p, pen)
    cs, i0 = B.vec("coef", p), B.real("intercept")
    k = B.dim("k", lo=1)
    Aq = B.mat("A", k, p)
    lb, ub = B.vec("lb", p), B.vec("ub", p)
    if not B.symbolic:
        tame(B, P1, cs, lb, ub, Aq, hi=1e3)
        if pen == "vector":
            tame(B, P2, hi=1e3)
        B.assume(abs(i0) < 1e3)
    A0, P10, lb0, ub0, Aq0, w0 = [B.copy(v) for v in (B.A(X), P1, lb, ub, Aq, w)]
    P20 = B.copy(P2)
    Xs, means, stds, lbs, ubs, As, P1s, P2s = U.standardize(X, w, center, scaled, lb, ub, Aq, B.copy(P1), B.copy(P2))
    cs0 = B.copy(cs)
    iu, cu = U.unstandardize(means, stds, i0, B.copy(cs))
    S = Xs.matvec(cs)
    scale = None if B.symbolic else abs(A0) @ abs(cu) + abs(i0) + abs(means) @ abs(cu) + 1e-6
    B.ensure_eq_each("linear predictor of every row", n, lambda i: iu + B.sum(p, lambda j: A0[i, j] * cu[j]), lambda i: i0 + S[i],
                     **({} if B.symbolic else dict(scale=scale)))
    if not center:
        B.ensure_eq("without centring the intercept is the same", iu, i0)
    if scaled:
        B.ensure_frame("penalties apply to the scaled coefficients: P1", P1s, P10)
        B.ensure_frame("penalties apply to the scaled coefficients: values of P2", P2s, P20)
    else:
        B.ensure_eq_each("L1 penalty of every coefficient", p, lambda j: P1s[j] * abs(cs0[j]), lambda j: P10[j] * abs(cu[j]))
        if pen == "vector":
            B.ensure_eq_each("L2 penalty of every coefficient", p, lambda j: P2s[j] * cs0[j] * cs0[j], lambda j: P2f(j, j) * cu[j] * cu[j])
        else:
            M = P2s.toarray() if pen.startswith("sparse") else P2s
            i, j = B.arbitrary("i", p), B.arbitrary("j", p)
            B.ensure_eq("L2 penalty of every pair of coefficients", M[i, j] * cs0[i] * cs0[j], P2f(i, j) * cu[i] * cu[j])
    B.ensure_all("lower bounds", B.forall(p, lambda j: B.iff(lbs[j] <= cs0[j], lb0[j] <= cu[j]))) if B.symbolic else B.ensure("lower bounds", all((lbs <= cs0) == (lb0 <= cu)) or B.np.isclose(lbs, cs0, rtol=1e-9).any())
    B.ensure_all("upper bounds", B.forall(p, lambda j: B.iff(ubs[j] >= cs0[j], ub0[j] >= cu[j]))) if B.symbolic else B.ensure("upper bounds", all((ubs >= cs0) == (ub0 >= cu)) or B.np.isclose(ubs, cs0, rtol=1e-9).any())
    r = B.arbitrary("r", k)
    B.ensure_eq("inequality constraints", B.sum(p, lambda j: As[r, j] * cs0[j]), B.sum(p, lambda j: Aq0[r, j] * cu[j]),
                **({} if B.symbolic else dict(scale=float(abs(Aq0[r]) @ abs(cu)) + 1e-9)))
    for nm, v, ov in zip(("design", "lower bounds", "upper bounds", "constraints", "weights"), (B.A(X), lb, ub, Aq, w), (A0, lb0, ub0, Aq0, w0)):
        B.ensure_frame(nm + " unchanged", v, ov)


@contract("P14", T, [dict(lower=a, upper=b, ineq=c) for a in (True, False) for b in (True, False) for c in (True, False)])
def absent_settings(B, lower, upper, ineq):
    U = B.module("_utils")
    n, p, X, w = setting(B)
    P1, P2 = B.vec("P1", p, "nonneg"), B.vec("P2", p, "nonneg")
    lb, ub, A = (B.vec("lb", p) if lower else None), (B.vec("ub", p) if upper else None), (B.mat("A", 1, p) if ineq else None)
    out = U.standardize(X, w, True, False, lb, ub, A, P1, P2)
    B.ensure("bounds and constraints stay absent or present", (out[3] is not None) == lower and (out[4] is not None) == upper and (out[5] is not None) == ineq)


@contract("P14", ["_utils.unstandardize", "_utils.standardize_warm_start"], [dict(stds=s) for s in (True, False)])
def there_and_back(B, stds):
    U = B.module("_utils")
    p = B.dim("p", lo=1)
    means, c = B.vec("means", p), B.vec("coef", p + 1)
    sd = B.vec("sd", p, "nonneg") if stds else None
    if not B.symbolic:
        tame(B, means, c, hi=1e3)
        if stds:
            sd = B.r.choice([0.0, 1.0, 1e-3, 1e3, 1.2e-7, 1e-9], size=p) * (1 + B.r.random(p))
            B.inputs["sd"] = sd
    c0 = B.copy(c)
    U.standardize_warm_start(c, means, sd)
    i, k = U.unstandardize(means, sd, c[0], B.copy(c[1:]))
    tol = {} if B.symbolic else dict(scale=float(abs(c0[0]) + abs(means) @ abs(c0[1:])) + 1e-9)
    B.ensure_eq("starting values there and back: intercept", i, c0[0], **tol)
    B.ensure_eq_each("starting values there and back: coefficients", p, lambda j: k[j], lambda j: c0[j + 1])
    d = B.copy(c0)
    i, k = U.unstandardize(means, sd, c0[0], B.copy(c0[1:]))
    d[0] = i
    d[1:] = k
    U.standardize_warm_start(d, means, sd)
    tol = {} if B.symbolic else dict(scale=float(abs(c0[0]) + abs(means) @ abs(k)) + 1e-9)
    B.ensure_eq("coefficients back and there: intercept", d[0], c0[0], **tol)
    B.ensure_eq_each("coefficients back and there: coefficients", p, lambda j: d[j + 1], lambda j: c0[j + 1])


@contract("P14", ["_utils.unstandardize"], [dict(stds=s) for s in (True, False)])
def path(B, stds):
    """one row of coefficients per penalty: each row is transformed as if it were alone"""
    U = B.module("_utils")
    p, k = B.dim("p", lo=1), B.dim("k", lo=1)
    means, c, i0 = B.vec("means", p), B.mat("coef", k, p), B.vec("intercept", k)
    sd = B.vec("sd", p, "nonneg") if stds else None
    if not B.symbolic:
        tame(B, means, c, i0, hi=1e3)
    c0, i00 = B.copy(c), B.copy(i0)
    it, ct = U.unstandardize(means, sd, i0, c)
    r = B.arbitrary("r", k)
    i1, c1 = U.unstandardize(means, sd, i00[r], B.copy(c0[r]))
    tol = {} if B.symbolic else dict(scale=float(abs(i00[r]) + abs(means) @ abs(c1)) + 1e-9)
    B.ensure_eq("intercept", it[r], i1, **tol)
    B.ensure_eq_each("coefficients", p, lambda j: ct[r, j], lambda j: c1[j])
