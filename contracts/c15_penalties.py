"""P15: L1 weights and L2 matrix used in fitting."""
from dv.contract import contract
from .c08_objective import NS, tame
from .c13_direct import estimator

WRONG = ("short", "long", "2d")


def ratio(B):
    a, l = B.real("alpha", "nonneg"), B.real("l1_ratio", "unitc")
    return a, l


@contract("P15", ["_glm.setup_p1"], [dict(kind=k) for k in ("identity", "none", "array")])
def l1_weights(B, kind):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X = B.design("X", n, p)
    a, l = ratio(B)
    P1 = {"identity": "identity", "none": None}.get(kind) if kind != "array" else B.vec("P1", p, "nonneg")
    old = B.copy(P1)
    r = B.fn("_glm", "setup_p1")(P1, X, X.dtype, a, l)
    B.ensure_eq("length", r.shape[0], p)
    B.ensure_eq_each("alpha times l1_ratio times P1", p, lambda j: r[j], lambda j: a * l * (old[j] if kind == "array" else 1))
    if kind == "array":
        r[:] = B.np.full(p, 7.0)
        B.ensure_frame("the user's array is untouched, whatever becomes of the result", P1, old)


@contract("P15", ["_glm.setup_p1", "_glm.setup_p2"], [dict(which=w, kind=k) for w in ("P1", "P2") for k in ("word", "short", "long", "column", "square", "cube")])
def wrong_shapes(B, which, kind):
    n, p = B.dim("n", lo=1), B.dim("p", lo=2)
    X = B.design("X", n, p)
    a, l = ratio(B)
    k = B.dim("k", lo=1)
    if kind == "word":
        P = "identiti"
    elif kind == "short":
        B.assume(k < p)
        P = B.vec("P", k, "nonneg")
    elif kind == "long":
        B.assume(k > p)
        P = B.vec("P", k, "nonneg")
    elif kind == "column":
        B.assume(k != p)
        P = B.mat("P", p, k)
    elif kind == "square":
        B.assume(k != p)
        P = B.mat("P", k, k)
    else:
        P = B.mat("P", k, p)
        if which == "P2":
            B.assume(k != p)
    f = B.fn("_glm", "setup_" + which.lower())
    r = B.call(lambda: f(P, X, X.dtype, a, l) if which == "P1" else f(P, X, ["csc", "csr"], X.dtype, a, l))
    B.ensure("rejected", r.raised(ValueError))


@contract("P15", ["_glm.setup_p2"], [dict(kind=k, cd=c) for k in ("identity", "none", "vector", "matrix", "csc", "csr", "coo", "dia") for c in (True, False)])
def l2_matrix(B, kind, cd):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X = B.design("X", n, p)
    a, l = ratio(B)
    M = old = None
    if kind in ("identity", "none"):
        P2 = "identity" if kind == "identity" else None
        spec = lambda i, j: B.ite(i == j, a * (1 - l), 0.0)
    elif kind == "vector":
        P2 = B.vec("P2", p, "nonneg")
        old = B.copy(P2)
        spec = lambda i, j: B.ite(i == j, a * (1 - l) * old[i], 0.0)
    else:
        M = B.mat("P2", p, p)
        if kind == "dia":
            v = B.vec("P2d", p, "nonneg")
            P2 = B.diag_sparse(v, "dia")
            M = B.np.diag(B.copy(v))
        else:
            P2 = B.copy(M) if kind == "matrix" else B.sparse_mat(M, kind)
        old = B.copy(M)
        spec = lambda i, j: a * (1 - l) * 0.5 * (old[i, j] + old[j, i])
    r = B.fn("_glm", "setup_p2")(P2, X, ["csc"] if cd else ["csc", "csr"], X.dtype, a, l)
    if r.ndim == 1:
        B.ensure_eq("length", r.shape[0], p)
        B.ensure("a vector only for a diagonal penalty", kind in ("identity", "none", "vector"))
        B.ensure_eq_each("alpha times (1 - l1_ratio) times P2", p, lambda j: r[j], lambda j: spec(j, j))
        if kind == "vector":
            r[:] = B.np.full(p, 7.0)
            B.ensure_frame("the user's array is untouched, whatever becomes of the result", P2, old)
        return
    B.ensure_eq("rows", r.shape[0], p)
    B.ensure_eq("columns", r.shape[1], p)
    if kind in ("csc", "csr", "coo", "dia"):
        B.ensure("coordinate descent gets a matrix in columns", not cd or B.sparse.isspmatrix_csc(r) or not B.sparse.issparse(r))
    D = r.toarray() if B.sparse.issparse(r) else r
    i, j = B.arbitrary("i", p), B.arbitrary("j", p)
    B.ensure_eq("alpha times (1 - l1_ratio) times the symmetric part of P2", D[i, j], spec(i, j))
    B.ensure_eq("symmetric", D[i, j], D[j, i])
    if kind == "matrix":
        r[:] = B.np.full((p, p), 7.0)
        B.ensure_frame("the user's array is untouched, whatever becomes of the result", P2, old)
    elif kind != "dia":
        B.ensure_frame("the user's array is untouched", P2.toarray(), old)


@contract("P15", ["_linalg.is_pos_semidef"], [dict(pen=k) for k in ("vector", "matrix", "sparse", "csr")])
def semidefinite(B, pen):
    f = B.fn("_linalg", "is_pos_semidef")
    if pen == "vector":
        p = B.dim("p", lo=1)
        v = B.vec("P2", p)
        old = B.copy(v)
        r = f(v)
        B.ensure("a vector is accepted exactly when it has no negative entry", B.iff(r, B.forall(p, lambda j: old[j] >= 0)))
        B.ensure_frame("unchanged", v, old)
        return
    p = B.dim("p", lo=2)
    M = B.mat("P2", p, p, sym=True)
    if not B.symbolic:
        tame(B, M, hi=1e6)
        k = B.r.integers(4)
        if k:
            D = B.r.integers(-3, 4, size=(int(B.r.integers(1, 4)), p)) * float(B.r.choice([1, 0.1, 100]))
            M = D.T @ D * 1.0
            if k == 3:
                M = M - 1e-3 * B.np.outer(M[0], M[0]) - 0.01 * B.np.eye(p)
            B.inputs["P2"] = M
    P = B.copy(M) if pen == "matrix" else B.sparse_mat(M, "csc" if pen == "sparse" else "csr")
    r = f(P)
    norm = B.np.max(B.np.sum(abs(M), axis=0))
    if B.symbolic:
        ev = B.calls("eigenvalues")
        B.ensure("its eigenvalues were computed", len(ev) >= 1)
        ev = ev[-1]
        i, j = B.arbitrary("i", p), B.arbitrary("j", p)
        B.ensure_eq("the eigenvalues of the given matrix", ev["A"][i, j], M[i, j])
        low = ev["x"][0]
    else:
        low = B.np.linalg.eigvalsh(M).min()
        norm = norm * p
    B.ensure("semidefinite matrices are accepted", B.implies(low >= (0 if B.symbolic else -1e-17 * norm), r))
    B.ensure("indefinite matrices are rejected", B.implies(low < -1e-14 * B.np.maximum(1.0, norm), B.not_(r)))
    B.ensure_frame("unchanged", P if pen == "matrix" else P.toarray(), M)


@contract("P15", ["_linalg.is_pos_semidef"], [dict(negative=a) for a in (True, False)], trials=1)
def large_sparse(B, negative):
    """beyond the size up to which all eigenvalues are computed"""
    f = B.fn("_linalg", "is_pos_semidef")
    if B.symbolic:
        p = B.dim("p", lo=2000)
        M = B.mat("P2", p, p, sym=True)
        r = f(B.sparse_mat(M))
        ev = B.calls("eigenvalues")[-1]
        i, j = B.arbitrary("i", p), B.arbitrary("j", p)
        B.ensure_eq("the eigenvalues of the given matrix", ev["A"][i, j], M[i, j])
        norm = B.np.max(B.np.sum(abs(M), axis=0))
        B.ensure("semidefinite matrices are accepted", B.implies(ev["x"][0] >= 0, r))
        B.ensure("indefinite matrices are rejected", B.implies(ev["x"][0] < -1e-14 * B.np.maximum(1.0, norm), B.not_(r)))
        return
    p = 2000
    v = B.r.random(p)
    if negative:
        v[B.r.integers(p)] = -float(B.r.choice([1e-3, 1.0]))
    B.inputs["diagonal"] = v
    B.ensure("diagonal matrix", bool(f(B.diag_sparse(v))) == (not negative))


@contract("P15", ["_glm.GeneralizedLinearRegressorBase._validate_hyperparameters"], [dict(kind=k) for k in ("array", "identity", "none")])
def negative_l1_weights(B, kind):
    p = B.dim("p", lo=1)
    P1 = B.vec("P1", p) if kind == "array" else "identity" if kind == "identity" else None
    e = estimator(B, "GeneralizedLinearRegressorBase", fit_intercept=True, solver="auto", max_iter=100, gradient_tol=None, step_size_tol=None, warm_start=False,
                  selection="cyclic", copy_X=True, check_input=True, scale_predictors=False, lower_bounds=None, upper_bounds=None, A_ineq=None, b_ineq=None,
                  monotonic_constraints=None, P1=P1)
    r = B.call(e._validate_hyperparameters)
    if kind != "array":
        B.ensure("default accepted", r.ok)
    else:
        B.ensure("negative weights are rejected, all others accepted", B.iff(r.ok, B.forall(p, lambda j: P1[j] >= 0)))
        B.ensure("with a ValueError", r.ok or r.raised(ValueError))
