"""P23: validation of weights, offsets, bounds, inequality constraints and targets."""
from dv.contract import contract
from .common import Fam, FAMILIES, tame
from .c13_direct import estimator

V = "_validation."
KINDS = ("none", "scalar", "vector", "column", "matrix", "wrong length")
DTYPES = ("float64", "float32", "int64")


def given(B, name, kind, n):
    """an arbitrary argument of the given shape; returns (argument, its single value or values)"""
    if kind == "none":
        return None
    if kind == "scalar":
        v = B.real(name)
        if not B.symbolic:
            v = [v, 0.0, -1.0, 2, 1.5][int(B.r.integers(5))]
            B.inputs[name] = v
        return v
    if kind == "vector":
        v = B.vec(name, n)
        if not B.symbolic:
            c = int(B.r.integers(4))
            v = abs(v) if c < 2 else 0 * v if c == 2 else v
            B.inputs[name] = v
        return v
    if kind in ("column", "matrix"):
        return abs(B.mat(name, n, 1 if kind == "column" else B.dim(name + ".cols", lo=2)))
    m = B.dim(name + ".length")
    B.assume(B.not_(m == n))
    return abs(B.vec(name, m))


def check(B, f, kind, dtype, n, v, bad, default, what):
    dt = getattr(B.np, dtype)
    old = B.copy(v) if hasattr(v, "shape") else v
    r = B.call(lambda: f(v, n, dt))
    if kind in ("column", "matrix", "wrong length"):
        B.ensure(what + " of another shape is an error", r.raised(ValueError))
    elif kind == "none":
        B.ensure("a missing " + what + " is accepted", r.ok)
        if default is None:
            B.ensure("and stays missing", r.value is None)
        else:
            B.ensure("and becomes ones", B.and_(r.value.shape[0] == n, r.value.ndim == 1))
            B.ensure_eq_each("all ones", n, lambda i: r.value[i], lambda i: default)
    else:
        if not r.ok:
            B.ensure("rejected with ValueError", r.raised(ValueError))
            B.ensure("only if invalid", bad)
            return
        B.ensure("invalid " + what + " is rejected", B.not_(bad))
        B.ensure("one entry each", B.and_(r.value.shape[0] == n, r.value.ndim == 1))
        kw = {} if B.symbolic or dtype != "float32" else dict(rtol=1e-6)
        B.ensure_eq_each("value unchanged", n, lambda i: r.value[i], lambda i: old[i] if kind == "vector" else old, **kw)
        if not B.symbolic:
            B.ensure("as floating-point numbers", r.value.dtype.kind == "f" or dtype == "int64" and what != "weight")
    if kind == "vector":
        B.ensure_frame(what + " argument unchanged", v, old)


@contract("P23", [V + "check_weights"], [dict(kind=k, dtype=d) for k in KINDS for d in DTYPES], trials=20)
def weights(B, kind, dtype):
    n = B.dim("n", lo=1)
    w = given(B, "w", kind, n)
    bad = None
    if kind == "scalar":
        bad = w <= 0
    if kind == "vector":
        bad = B.or_(B.exists(n, lambda i: w[i] < 0), B.sum(n, lambda i: w[i]) == 0)
    check(B, B.fn("_validation", "check_weights"), kind, dtype, n, w, bad, 1, "weight")


@contract("P23", [V + "check_weights"], [dict(dtype=d) for d in DTYPES])
def zero_weights(B, dtype):
    n = B.dim("n", lo=1)
    w = B.zeros(n)
    B.ensure("all-zero weights are rejected", B.call(lambda: B.fn("_validation", "check_weights")(w, n, getattr(B.np, dtype))).raised(ValueError))


@contract("P23", [V + "check_offset"], [dict(kind=k, dtype=d) for k in KINDS for d in DTYPES[:2]], trials=20)
def offset(B, kind, dtype):
    n = B.dim("n", lo=1)
    check(B, B.fn("_validation", "check_offset"), kind, dtype, n, given(B, "offset", kind, n), False, None, "offset")


@contract("P23", [V + "check_bounds"], [dict(kind=k, dtype=d) for k in KINDS for d in DTYPES[:2]], trials=20)
def bounds(B, kind, dtype):
    n = B.dim("p", lo=1)
    check(B, B.fn("_validation", "check_bounds"), kind, dtype, n, given(B, "bounds", kind, n), False, None, "bound")


@contract("P23", [V + "check_bounds"], [dict(sign=s, kind=k) for s in (1, -1) for k in ("scalar", "vector")], bounded="infinities are not terms of the prover")
def infinite_bounds(B, sign, kind):
    n = B.dim("p", lo=1)
    inf = sign * B.np.inf
    v = inf if kind == "scalar" else B.np.full(n, inf)
    r = B.fn("_validation", "check_bounds")(v, n, B.np.float64)
    B.ensure("no bound is a valid bound", B.forall(n, lambda j: r[j] == inf))


@contract("P23", [V + "check_inequality_constraints"], [dict(a=a, b=b) for a in ("none", "good", "cols") for b in ("none", "good", "rows", "matrix")], trials=20)
def inequality(B, a, b):
    p, m = B.dim("p", lo=1), B.dim("m", lo=1)
    q = p if a != "cols" else B.dim("q", lo=1)
    if a == "cols":
        B.assume(B.not_(p == q))
    A = None if a == "none" else B.mat("A", m, q)
    if b == "none":
        v = None
    elif b == "matrix":
        v = B.mat("b", m, B.dim("bcols", lo=2))
    else:
        r_ = m if b == "good" else B.dim("rows", lo=1)
        if b == "rows":
            B.assume(B.not_(r_ == m))
        v = B.vec("b", r_)
    old = [B.copy(t) if t is not None else None for t in (A, v)]
    r = B.call(lambda: B.fn("_validation", "check_inequality_constraints")(A, v, p, B.np.float64))
    if a == "none" or b == "none":
        B.ensure("no constraint", r.ok and r.value[0] is None and r.value[1] is None)
        return
    if a == "good" and b == "good":
        B.ensure("accepted", r.ok)
        x, y = r.value
        B.ensure("same shapes", B.and_(x.shape[0] == m, x.shape[1] == p, y.shape[0] == m))
        i = B.arbitrary("i", m)
        B.ensure_eq_each("same matrix", p, lambda j: x[i, j], lambda j: old[0][i, j])
        B.ensure_eq_each("same right-hand side", m, lambda k: y[k], lambda k: old[1][k])
        B.ensure("copies, so that later in-place work does not reach the caller", x is not A and y is not v)
        x[0, 0] = x[0, 0] + 1
        y[0] = y[0] + 1
    else:
        B.ensure("mismatched constraints are an error", r.raised(ValueError))
    B.ensure_frame("matrix unchanged", A, old[0])
    B.ensure_frame("right-hand side unchanged", v, old[1])


def in_range(B, F, y):
    """documented range of the targets"""
    c = F.cat
    if c in ("0", "GHS", "TweedieNeg"):
        return y == y
    if c == "Binomial":
        return B.and_(y >= 0, y <= 1)
    if c in ("2", "3", "TweedieHigh"):
        return y > 0
    return y >= 0


ET = ["_distribution.ExponentialDispersionModel.in_y_range"]


@contract("P23", ET, [dict(family=f) for f in FAMILIES], trials=20)
def target_range(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y = B.vec("y", n)
    if not B.symbolic and n and B.r.integers(2):
        y[int(B.r.integers(n))] = float(B.r.integers(2))
    old = B.copy(y)
    r = F.obj.in_y_range(y)
    B.ensure("one answer per target", r.shape[0] == n)
    B.ensure_each("in range exactly as documented", n, lambda i: B.iff(r[i], in_range(B, F, old[i])))
    B.ensure_frame("targets unchanged", y, old)


@contract("P23", ET + ["_glm.GeneralizedLinearRegressorBase._set_up_for_fit"], [dict(family=f, cls=c) for f in FAMILIES for c in ("GeneralizedLinearRegressor",)], trials=20)
def fit_rejects_targets(B, family, cls):
    """with input checks on, fitting continues past set-up exactly if every target is in range"""
    F = Fam(B, family)
    n = B.dim("n", lo=1)
    y = B.vec("y", n)
    if not B.symbolic:
        c = int(B.r.integers(3))
        y = abs(y) if c else y
        y = B.np.minimum(y, 1.0) if c == 2 else y
    e = estimator(B, cls, family=F.obj, link="auto", fit_intercept=B.boolean("fit_intercept"), solver="auto", monotonic_constraints=None, A_ineq=None, b_ineq=None, lower_bounds=None, upper_bounds=None,
                  l1_ratio=0, alpha=None, alpha_search=False, gradient_tol=None, check_input=B.boolean("check_input"))
    old = B.copy(y)
    r = B.call(lambda: e._set_up_for_fit(y))
    good = B.forall(n, lambda i: in_range(B, F, old[i]))
    if not r.ok:
        B.ensure("rejected with ValueError", r.raised(ValueError))
        B.ensure("only if a target is out of range and input is checked", B.and_(B.not_(good), e.check_input))
    else:
        B.ensure("an out-of-range target is rejected", B.or_(good, B.not_(e.check_input)))
    B.ensure_frame("targets unchanged", y, old)


STORAGE = ("array", "csr", "csc", "dense", "sparse", "split")
SETUP = ["_glm.GeneralizedLinearRegressorBase._set_up_and_check_fit_args", "_validation.check_X_y_tabmat_compliant", "_validation.check_array_tabmat_compliant", V + "check_weights", V + "check_offset"]


def regressor(B, **k):
    return estimator(B, "GeneralizedLinearRegressor", **{**dict(solver="auto", P1="identity", P2="identity", copy_X=None, drop_first=False, fit_intercept=True), **k})


def same_design(B, X, A, n, p):
    B.ensure("shape of the design", B.and_(X.shape[0] == n, X.shape[1] == p))
    M = B.A(X)
    i = B.arbitrary("i", n)
    B.ensure_eq_each("design unchanged by validation", p, lambda j: M[i, j], lambda j: A[i, j])


@contract("P23", SETUP, [dict(storage=s, weights=w, offset=o, copy=c) for s in STORAGE for w in ("none", "scalar", "vector") for o in ("none", "vector", "scalar") for c in (None, True)], trials=6)
def data_pass_through(B, storage, weights, offset, copy):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X, y = B.design("X", n, p, storage=storage), B.vec("y", n)
    w = None if weights == "none" else B.real("w", "pos") if weights == "scalar" else B.vec("w", n, "nonneg")
    if not B.symbolic:
        w = min(w, 1e6) if weights == "scalar" else w
    if weights == "vector":
        B.assume(B.sum(n, lambda i: w[i]) > 0)
    o = None if offset == "none" else B.real("offset") if offset == "scalar" else B.vec("offset", n)
    A = B.copy(B.A(X))
    old = [B.copy(v) if hasattr(v, "shape") else v for v in (y, w, o)]
    P1, P2 = object(), object()
    e = regressor(B, P1=P1, P2=P2, copy_X=copy)
    X2, y2, w2, o2, total, p1, p2 = e._set_up_and_check_fit_args(X, y, w, o, force_all_finite=True)
    same_design(B, X2, A, n, p)
    B.ensure_eq_each("targets unchanged", n, lambda i: y2[i], lambda i: old[0][i], rtol=0, atol=0)
    if offset == "none":
        B.ensure("no offset stays no offset", o2 is None)
    else:
        B.ensure_eq_each("offset unchanged", n, lambda i: o2[i], lambda i: old[2][i] if offset == "vector" else old[2], rtol=0, atol=0)
    wt = lambda i: old[1][i] if weights == "vector" else old[1] if weights == "scalar" else 1
    W = B.sum(n, lambda i: wt(i))
    B.ensure_eq("sum of weights reported", total, W)
    B.ensure_eq_each("weights proportional to the given ones", n, lambda i: w2[i], lambda i: wt(i) / W)
    B.ensure("penalties as given", p1 is P1 and p2 is P2)
    B.ensure_eq("number of features", e.n_features_in_, p)
    for nm, v, ov in (("targets", y, old[0]), ("weights", w, old[1]), ("offset", o, old[2])):
        if hasattr(v, "shape"):
            B.ensure_frame("caller's " + nm + " unchanged", v, ov)
    B.ensure_frame("caller's design unchanged", B.A(X), A)


@contract("P23", SETUP, [dict(what=k, storage=s) for k in ("target missing", "target length", "weight length", "offset length", "no rows", "negative weight", "zero weight") for s in STORAGE])
def bad_data(B, what, storage):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    if what == "no rows":
        n = 0
    m = B.dim("m", lo=1)
    X = B.design("X", n, p, storage=storage)
    y, w, o = B.vec("y", n), None, None
    if what.endswith("length"):
        B.assume(B.not_(m == n))
    if what == "target missing":
        y = None
    if what == "target length":
        y = B.vec("y2", m)
    if what == "weight length":
        w = B.vec("w", m, "pos")
    if what == "offset length":
        o = B.vec("offset", m)
    if what == "negative weight":
        w = B.vec("w", n)
        if not B.symbolic:
            w[int(B.r.integers(n))] = -1.0
        B.assume(B.exists(n, lambda i: w[i] < 0))
    if what == "zero weight":
        w = B.zeros(n)
    r = B.call(lambda: regressor(B)._set_up_and_check_fit_args(X, y, w, o, force_all_finite=True))
    B.ensure("an error", r.raised(ValueError))


@contract("P23", [V + "check_weights", V + "check_offset", V + "check_bounds"], [dict(what=w, kind=k, value=v) for w in ("weights", "offset", "bounds") for k in ("scalar", "vector") for v in ("nan", "inf")],
          bounded="NaN and infinities are not terms of the prover")
def not_numbers(B, what, kind, value):
    n = B.dim("n", lo=1)
    v = float(value)
    if what == "bounds" and value == "inf":
        return
    x = v if kind == "scalar" else B.np.full(n, v)
    B.ensure("an error", B.call(lambda: B.fn("_validation", "check_" + what)(x, n, B.np.float64)).raised(ValueError))
