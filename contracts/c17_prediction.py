"""P17: predictions."""
from dv.contract import contract
from .common import tame, scalar
from .c13_direct import estimator, LINKS, FAMILIES

STORAGE = ("array", "csr", "dense", "sparse", "split")
BASE = "_glm.GeneralizedLinearRegressorBase."
T = [BASE + f for f in ("linear_predictor", "_compute_linear_predictor", "_resolve_alpha_index", "_find_alpha_index")] + ["_validation.check_array_tabmat_compliant"]


def fitted(B, n, p, m, cls="GeneralizedLinearRegressor", **k):
    mod = "_glm_cv" if cls.endswith("CV") else "_glm"
    C = getattr(B.module(mod), cls)
    e = C.__new__(C)
    B.partial(e)
    coef, icpt = B.vec("coef", p), scalar(B, "intercept")
    cp, ip = B.mat("coef_path", m, p), B.vec("intercept_path", m)
    if not B.symbolic:
        tame(B, coef, cp, ip, hi=1e3)
    at = dict(coef_=coef, intercept_=icpt, n_features_in_=p, drop_first=False, alpha_search=True)
    at.update(dict(_refit_coef_path=cp, _refit_intercept_path=ip, coef_path_=None, intercept_path_=None) if mod == "_glm_cv" else dict(coef_path_=cp, intercept_path_=ip))
    for a, v in {**at, **k}.items():
        setattr(e, a, v)
    return e, coef, icpt, cp, ip


def lin(B, A, c, n, p):
    return B.tab_arr(lambda i: B.sum(p, lambda j: A[i, j] * c[j]), n)


CASES = [dict(cls=c, index=k, offset=o, storage=s) for c in ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV") for k in ("none", "one") for o in ("array", "scalar", None) for s in STORAGE]


def check(B, cls, index, offset, storage):
    n, p, m = B.dim("n", lo=1), B.dim("p", lo=1), B.dim("m", lo=1)
    X = B.design("X", n, p, storage=storage)
    e, coef, icpt, cp, ip = fitted(B, n, p, m, cls)
    o = B.vec("offset", n) if offset == "array" else scalar(B, "offset", hi=1e6) if offset else None
    A = B.copy(B.A(X))
    if not B.symbolic:
        tame(B, A, hi=1e3)
        if offset == "array":
            tame(B, o, hi=1e6)
    frames = [("coefficients", coef, B.copy(coef)), ("coefficient path", cp, B.copy(cp)), ("intercept path", ip, B.copy(ip))]
    if offset == "array":
        frames.append(("offset", o, B.copy(o)))
    off = (lambda i: o[i]) if offset == "array" else (lambda i: o) if offset else (lambda i: 0)
    old_off = B.copy(o) if offset == "array" else o
    scale = None if B.symbolic else 1e5 * p
    kw = {} if B.symbolic else dict(atol=1e-6)
    if index == "none":
        r = e.linear_predictor(X, o)
        want = lin(B, A, coef, n, p)
        B.ensure_eq_each("intercept plus row times coefficients plus offset", n, lambda i: r[i], lambda i: icpt + want[i] + (old_off[i] if offset == "array" else off(i)), **kw)
    elif index == "one":
        k = B.integer("k", lo=0, hi=m - 1)
        r = e.linear_predictor(X, o, alpha_index=k)
        want = lin(B, A, cp[k], n, p)
        B.ensure_eq_each("intercept plus row times coefficients plus offset", n, lambda i: r[i], lambda i: ip[k] + want[i] + (old_off[i] if offset == "array" else off(i)), **kw)
    else:
        length = B.dim("length", lo=1)
        ks = B.ivec("ks", length, 0, m)
        r = e.linear_predictor(X, o, alpha_index=ks if B.symbolic else list(ks))
        B.ensure("one column per selected penalty", B.and_(r.shape[0] == n, r.shape[1] == length))
        j = B.arbitrary("j", length)
        want = lin(B, A, cp[ks[j]], n, p)
        B.ensure_eq_each("every column is the prediction for its penalty", n, lambda i: r[i, j], lambda i: ip[ks[j]] + want[i] + (old_off[i] if offset == "array" else off(i)), **kw)
    for nm, v, ov in frames:
        B.ensure_frame(nm + " unchanged", v, ov)
    B.ensure_frame("design unchanged", B.A(X), A)


@contract("P17", T + ["_glm_cv.GeneralizedLinearRegressorCV.linear_predictor"], CASES, trials=12)
def linear_predictor(B, cls, index, offset, storage):
    check(B, cls, index, offset, storage)


@contract("P17", T + ["_glm_cv.GeneralizedLinearRegressorCV.linear_predictor"],
          [dict(cls=c, offset=o, storage=s) for c in ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV") for o in ("array", "scalar", None) for s in STORAGE], trials=6)
def several_penalties(B, cls, offset, storage):
    check(B, cls, "list", offset, storage)


@contract("P17", [BASE + "_resolve_alpha_index", BASE + "_find_alpha_index"], [dict(kind=k) for k in ("value", "values", "both", "index", "nothing")])
def penalty_lookup(B, kind):
    m = B.dim("m", lo=1)
    al = B.vec("alphas", m, "nonneg")
    e = estimator(B, "GeneralizedLinearRegressorBase", _alphas=al)
    k = B.integer("k", lo=0, hi=m - 1)
    if kind == "both":
        B.ensure("value and index are not given together", B.call(lambda: e._resolve_alpha_index(k, B.real("alpha"))).raised(ValueError))
        return
    if kind in ("index", "nothing"):
        a = k if kind == "index" else None
        B.ensure("an index is used as it is", B.call(lambda: e._resolve_alpha_index(a, None)).value is a)
        return
    a = B.real("alpha", "nonneg")
    if not B.symbolic and B.r.integers(2):
        a = float(al[k])
    r = B.call(lambda: e._resolve_alpha_index(None, a if kind == "value" else [a]))
    near = lambda x: abs(x - a) <= 1e-5 * abs(a)
    if not r.ok:
        B.ensure("an unknown penalty is an error", r.raised(IndexError))
        B.ensure("only when no position is close", B.forall(m, lambda j: B.not_(abs(al[j] - a) < 0.99e-5 * abs(a))))
        return
    x = r.value if kind == "value" else r.value[0]
    B.ensure("a position of the path", B.and_(x >= 0, x < m))
    B.ensure("with (nearly) that penalty", abs(al[x] - a) <= 1.01e-5 * abs(a))
    B.ensure("the closest one", B.forall(m, lambda j: abs(al[x] - a) <= abs(al[j] - a)))


@contract("P17", [BASE + "predict", "_validation.check_weights"], [dict(link=k, weights=w, storage=s) for k in ("identity", "log", "logit") for w in (None, "array", "scalar") for s in ("array", "dense")], trials=6)
def mean(B, link, weights, storage):
    n, p = B.dim("n", lo=1), B.dim("p", lo=1)
    X = B.design("X", n, p, storage=storage)
    eta = B.vec("eta", n)
    if not B.symbolic:
        tame(B, eta, hi=30)
    lnk = getattr(B.module("_link"), {**LINKS, "logit": "LogitLink"}[link])()
    e, *_ = fitted(B, n, p, 1, _link_instance=lnk)
    seen = []

    def make(orig):
        def f(*a, **k):
            seen.append((a, k))
            return B.copy(eta)
        return f
    e.linear_predictor = make(None)
    o = B.vec("offset", n)
    w = B.vec("w", n, "nonneg") if weights == "array" else B.real("w", "pos") if weights else None
    if weights == "array":
        B.assume(B.sum(n, lambda i: w[i]) > 0)
    ix, al, cx = object(), object(), object()
    r = e.predict(X, sample_weight=w, offset=o, alpha_index=ix, alpha=al, context=cx)
    inv = {"identity": lambda t: t, "log": B.exp, "logit": lambda t: 1 / (1 + B.exp(-t))}[link]
    if link == "logit":
        inv = lambda t: lnk.inverse(B.array([t]))[0]
    got = seen[0][1]
    B.ensure("one call for the same rows", len(seen) == 1 and seen[0][0][0] is X and got["offset"] is o and got["alpha_index"] is ix and got["alpha"] is al and got["context"] is cx)
    B.ensure_eq_each("inverse link of the linear predictor, times the weight", n, lambda i: r[i], lambda i: inv(eta[i]) * (w[i] if weights == "array" else w if weights else 1))
