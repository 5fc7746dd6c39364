"""P09: the curvature matrix is the weighted Gram matrix plus the penalty; skipped rows stay within the tolerance."""
from dv.contract import contract
from .c08_objective import NS, penalty, X_aug, tame

BUILD = ["_solvers.build_hessian_delta", "_linalg._safe_sandwich_dot"]
PENS = ("none", "vector", "matrix", "sparse", "sparse diagonal")


def pen_of(B, p, pen):
    if pen == "none":
        return None, lambda a, b: 0.0
    if pen == "sparse diagonal":
        v = B.vec("P2", p, "nonneg")
        return B.diag_sparse(v), lambda a, b: B.ite(a == b, v[a], 0.0)
    return penalty(B, p, pen)


def gram(B, X, intercept, n, h):
    """weighted Gram matrix, the intercept as a column of ones"""
    return lambda r, c: B.sum(n, lambda i: h[i] * X_aug(B, X, intercept, i, r) * X_aug(B, X, intercept, i, c))


def pen_at(B, P2f, off):
    if not off:
        return P2f
    return lambda r, c: B.ite(B.or_(r == 0, c == 0), 0.0, P2f(B.ite(r == 0, 0, r - 1), B.ite(c == 0, 0, c - 1)))


def two(B, m):
    """arbitrary row and column of an m x m matrix"""
    return B.arbitrary("r", m), B.arbitrary("c", m)


@contract("P09", BUILD, [dict(intercept=a, pen=b) for a in (True, False) for b in PENS])
def build(B, intercept, pen):
    n, p = B.dim("n"), B.dim("p", hi=None if B.symbolic else 5)
    off = 1 if intercept else 0
    X = B.design("X", n, p)
    h = B.vec("h", n)
    P2, P2f = pen_of(B, p, pen)
    if not B.symbolic:
        tame(B, h, hi=1e4)
    act = B.active_set("active", p, off)
    rows = B.np.arange(n, dtype=B.np.int32)
    old = [B.copy(h), B.copy(B.A(X))]
    H = B.fn("_solvers", "build_hessian_delta")(X, h, intercept, P2, rows, act)
    m = act.shape[0]
    B.ensure_eq("rows of the result", H.shape[0], m)
    B.ensure_eq("columns of the result", H.shape[1], m)
    r, c = two(B, m)
    g, pn = gram(B, X, intercept, n, h), pen_at(B, P2f, off)
    B.ensure_eq("weighted Gram matrix plus penalty", H[r, c], g(act[r], act[c]) + pn(act[r], act[c]), rtol=1e-7, scale=1.0)
    B.ensure_frame("row curvatures unchanged", h, old[0])
    B.ensure_frame("design unchanged", B.A(X), old[1])


@contract("P09", ["_cd_fast.identify_active_rows"])
def rows(B):
    n = B.dim("n", lo=1)
    g, h, o = B.vec("g", n), B.vec("h", n), B.vec("old", n)
    C = B.real("C", "nonneg")
    if not B.symbolic:
        tame(B, g, h, o, hi=1e6)
        C = float(B.r.choice([0.0, 0.1, 0.5, 1.0, 2.0]))
    h0, o0, g0 = B.copy(h), B.copy(o), B.copy(g)
    d, act = B.fn("_cd_fast", "identify_active_rows")(g, h, o, C)
    i = B.arbitrary("i", n)
    B.ensure_eq("the difference is from the curvatures already applied", d[i], h[i] - o0[i])
    B.ensure("a row is kept as it is or skipped as a whole", B.or_(h[i] == h0[i], B.and_(h[i] == o0[i], d[i] == 0)))
    if B.symbolic:
        B.ensure("a skipped row changed by less than the tolerance times the largest change",
                 B.implies(B.not_(h[i] == h0[i]), B.exists(n, lambda k: abs(h0[i] - o0[i]) < C * abs(h0[k] - o0[k]))))
    else:
        B.ensure("a skipped row changed by less than the tolerance times the largest change",
                 h[i] == h0[i] or abs(h0[i] - o0[i]) < C * abs(h0 - o0).max())
    B.ensure("the rows listed are those with a difference", B.iff(B.contains(act, i), B.not_(d[i] == 0)))
    B.ensure_each("row numbers", act.shape[0], lambda k: B.and_(act[k] >= 0, act[k] < n))
    B.ensure_each("row numbers increase", act.shape[0], lambda k: act[k - 1] < act[k], lo=1)
    B.ensure_frame("applied curvatures unchanged", o, o0)
    B.ensure_frame("gradient rows unchanged", g, g0)


@contract("P09", ["_solvers.update_hessian", "_solvers._is_subset", "_cd_fast.identify_active_rows"] + BUILD,
          [dict(intercept=a, pen=b, initialized=i) for a in (True, False) for b in ("vector", "matrix", "sparse") for i in (True, False)])
def update(B, intercept, pen, initialized):
    """invariant: on the previous active set the stored matrix is the curvature at old_hessian_rows; re-established
    on the new active set at hessian_rows as left by the call (which the solver copies to old_hessian_rows)"""
    n, p = B.dim("n", lo=1), B.dim("p", hi=None if B.symbolic else 5)
    off = 1 if intercept else 0
    X = B.design("X", n, p)
    h, o, g_rows = B.vec("h", n), B.vec("old_h", n), B.vec("g", n)
    P2, P2f = pen_of(B, p, pen)
    C = B.real("C", "nonneg")
    if not B.symbolic:
        tame(B, h, o, hi=1e4)
        C = float(B.r.choice([0.0, 0.1, 0.5, 1.0]))
        if P2 is not None:
            tame(B, P2 if not hasattr(P2, "data") or pen != "sparse" else P2.data, hi=1e4)
    before = B.active_set("before", p, off)
    act = B.active_set("active", p, off)
    if not B.symbolic and B.r.integers(2):
        act = before[[k for k in range(len(before)) if (off and k == 0) or B.r.integers(3)]] if len(before) else before
    pn = pen_at(B, P2f, off)
    go = gram(B, X, intercept, n, o)
    junk = B.mat("junk", p + off, p + off)
    H0 = B.tab_arr(lambda r, c: B.ite(B.and_(B.contains(before, r), B.contains(before, c)), go(r, c) + pn(r, c), junk[r, c]), p + off, p + off) \
        if initialized else junk
    state = NS(hessian=H0, hessian_initialized=initialized, old_active_set=before, active_set=act, hessian_rows=h, old_hessian_rows=o,
               gradient_rows=g_rows, build_hessian_runtime=0.0)
    data = NS(X=X, fit_intercept=intercept, P2=P2, hessian_approx=C, intercept_offset=off)
    h0, o0 = B.copy(h), B.copy(o)
    out, used = B.fn("_solvers", "update_hessian")(state, data, act)
    m = act.shape[0]
    r, c = two(B, m)
    gn = gram(B, X, intercept, n, h)
    full = gn(act[r], act[c]) + pn(act[r], act[c])
    B.ensure_eq("curvature matrix of the active coefficients", out[r, c], full, rtol=1e-6, scale=1e4)
    B.ensure_eq("stored matrix on the active set", state.hessian[act[r], act[c]], full, rtol=1e-6, scale=1e4)
    B.ensure_eq("size of the result", out.shape[0], m)
    B.ensure("marked as initialised", state.hessian_initialized is True or state.hessian_initialized == True)
    i = B.arbitrary("i", n)
    B.ensure("row curvatures used are the new ones or, for a skipped row, those already applied", B.or_(h[i] == h0[i], h[i] == o0[i]))
    if not initialized:
        B.ensure_frame("no row skipped when starting", h, h0)
        B.ensure_eq("all rows counted", used, n)
    B.ensure_frame("applied curvatures unchanged", o, o0)
