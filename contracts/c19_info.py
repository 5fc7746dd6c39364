"""P19: information criteria."""
from dv.contract import contract
from .common import tame
from .c13_direct import estimator

G = "_glm.GeneralizedLinearRegressor."
T = [G + f for f in ("aic", "aicc", "bic", "_get_info_criteria", "_compute_information_criteria")]


class Family:
    """A family whose log-likelihood is whatever was agreed for the data it is asked for."""

    def __init__(self):
        self.asked = []
        self.value = {}

    def log_likelihood(self, y, mu, sample_weight=None, dispersion=None):
        self.asked.append((y, mu, sample_weight, dispersion))
        return self.value[id(y)]


class NoLikelihood:
    pass


def model(B, p):
    coef = B.vec("coef", p)
    if not B.symbolic:
        for j in range(p):
            if B.r.integers(3) == 0:
                coef[j] = 0.0
    fam = Family()
    n = B.dim("n", lo=1)
    e = estimator(B, "GeneralizedLinearRegressor", coef_=coef, intercept_=B.real("intercept"), _family_instance=fam, _num_obs=n, fit_intercept=B.boolean("fit_intercept"), alpha=B.real("alpha", "nonneg"), l1_ratio=B.real("l1_ratio", "unitc"))
    calls = []

    def predict(X, *a, **k):
        calls.append((X, a, k))
        return means[id(X)]
    means = {}
    e.predict = predict
    return e, fam, n, coef, means, calls


def ask(B, e, fam, n, p, means, tag):
    X, y, mu, w, ll = B.mat("X" + tag, n, p), B.vec("y" + tag, n), B.vec("mu" + tag, n), B.vec("w" + tag, n, "nonneg"), B.real("ll" + tag)
    means[id(X)] = mu
    fam.value[id(y)] = ll
    return X, y, mu, w, ll


def value(B, crit, e, coef, ll, n, p):
    eps = 2.0 ** -52
    k = B.sum(p, lambda j: B.ite(abs(coef[j]) > eps, 1, 0)) + B.ite(e.fit_intercept, 1, 0)
    return {"aic": lambda: 2 * k - 2 * ll, "bic": lambda: B.log(n) * k - 2 * ll, "aicc": lambda: 2 * k - 2 * ll + 2 * k * (k + 1) / (n - k - 1)}[crit](), k


def judge(B, crit, r, e, coef, ll, n, p, tag=""):
    want, k = value(B, "aic", e, coef, ll, n, p)
    if crit == "aicc" and not r.ok:
        B.ensure("AICc missing is an error" + tag, r.raised(ValueError))
        B.ensure("only with too few observations" + tag, n <= k + 1)
        return
    B.ensure("a value is returned" + tag, r.ok)
    if crit == "aicc":
        B.ensure("enough observations" + tag, n > k + 1)
    B.ensure_eq("documented criterion" + tag, r.value, value(B, crit, e, coef, ll, n, p)[0])


@contract("P19", T, [dict(crit=c, weighted=w) for c in ("aic", "aicc", "bic") for w in (True, False)], trials=30)
def criterion(B, crit, weighted):
    p = B.dim("p", lo=1)
    e, fam, n, coef, means, calls = model(B, p)
    X, y, mu, w, ll = ask(B, e, fam, n, p, means, "")
    w = w if weighted else None
    frames = [(v, B.copy(v)) for v in (X, y, mu, coef) + ((w,) if weighted else ())]
    r = B.call(lambda: getattr(e, crit)(X, y, w))
    judge(B, crit, r, e, coef, ll, n, p)
    q = fam.asked[-1]
    B.ensure("likelihood of the target at the model's predictions with the given weights", q[0] is y and q[1] is mu and q[2] is w)
    B.ensure("dispersion left to the family", q[3] is None)
    B.ensure("predictions for the same rows", calls[-1][0] is X and not calls[-1][1] and all(v is None for v in calls[-1][2].values()))
    for v, o in frames:
        B.ensure_frame("inputs unchanged", v, o)


@contract("P19", T, [dict(first=a, crit=c, change=h) for a in ("aic", "aicc", "bic") for c in ("aic", "aicc", "bic") for h in ("data", "coefficients")], trials=10)
def history(B, first, crit, change):
    """The second of two calls reports the data and coefficients of the second call."""
    p = B.dim("p", lo=1)
    e, fam, n, coef, means, calls = model(B, p)
    X, y, mu, w, ll = ask(B, e, fam, n, p, means, "")
    B.call(lambda: getattr(e, first)(X, y, w))
    if change == "data":
        X, y, mu, w, ll = ask(B, e, fam, n, p, means, "2")
    else:
        coef = B.vec("coef2", p)
        e.coef_ = coef
        e.fit_intercept = B.boolean("fit_intercept2")
    r = B.call(lambda: getattr(e, crit)(X, y, w))
    judge(B, crit, r, e, coef, ll, n, p, " of the second call")


@contract("P19", T, [dict(crit=c, why=h) for c in ("aic", "aicc", "bic") for h in ("rows", "family")])
def refused(B, crit, why):
    """Another number of rows than in training, or a family without likelihood, is an error and never a number."""
    p = B.dim("p", lo=1)
    e, fam, n, coef, means, calls = model(B, p)
    m = B.dim("m", lo=1)
    if why == "rows":
        B.assume(B.not_(m == n))
    else:
        e._family_instance = NoLikelihood()
    X, y = B.mat("X", m, p), B.vec("y", m)
    means[id(X)] = B.vec("mu", m)
    fam.value[id(y)] = B.real("ll")
    r = B.call(lambda: getattr(e, crit)(X, y, None))
    B.ensure("an error", r.raised(ValueError if why == "rows" else NotImplementedError))


@contract("P19", T, [dict(crit=c) for c in ("aic", "aicc", "bic")])
def unfitted(B, crit):
    e = estimator(B, "GeneralizedLinearRegressor", alpha=None, l1_ratio=0)
    n = B.dim("n", lo=1)
    r = B.call(lambda: getattr(e, crit)(B.mat("X", n, 1), B.vec("y", n)))
    B.ensure("an unfitted model has no criteria", not r.ok)
