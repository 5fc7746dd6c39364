"""P02: deviance."""
from dv.contract import contract
from .common import Fam, FAMILIES, tame, tame_unit

U = ["_distribution.*.unit_deviance", "_distribution.*.deviance", "_distribution.*.unit_deviance_derivative", "_distribution.*.deviance_derivative",
     "_functions.normal_deviance", "_functions.poisson_deviance", "_functions.gamma_deviance", "_functions.inv_gaussian_deviance",
     "_functions.tweedie_deviance", "_functions.negative_binomial_deviance", "_distribution._as_float_arrays"]
CASES = [dict(family=f) for f in FAMILIES]


def data(B, F, n):
    y, mu = B.vec("y", n, F.ykind), B.vec("mu", n, F.mukind)
    tame(B, y, mu)
    if F.cat == "Binomial":
        tame_unit(B, mu)
    return y, mu


@contract("P02", U, CASES)
def unit_deviance_is_documented(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y, mu = data(B, F, n)
    out = F.obj.unit_deviance(y, mu)
    B.ensure_eq_each("unit deviance", n, lambda i: out[i], lambda i: F.d(y[i], mu[i]), scale=10.0)


@contract("P02", U, CASES)
def deviance_is_weighted_sum(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y, mu = data(B, F, n)
    w = B.vec("w", n, "nonneg")
    y0, mu0, w0 = B.copy(y), B.copy(mu), B.copy(w)
    mode = B.choice("weights", ["array", "none", "one"])
    if mode == "array":
        out = F.obj.deviance(y, mu, w)
        ref = B.sum(n, lambda i: w[i] * F.d(y[i], mu[i]))
    elif mode == "none":
        out = F.obj.deviance(y, mu, None)
        ref = B.sum(n, lambda i: F.d(y[i], mu[i]))
    else:
        out = F.obj.deviance(y, mu)
        ref = B.sum(n, lambda i: F.d(y[i], mu[i]))
    B.ensure_eq("deviance", out, ref, scale=10.0, rtol=1e-5)
    B.ensure_frame("y unchanged", y, y0)
    B.ensure_frame("mu unchanged", mu, mu0)
    B.ensure_frame("weights unchanged", w, w0)


@contract("P02", U, CASES)
def deviance_nonnegative(B, family):
    """d(y, .) vanishes at mu = y and moves away from zero on both sides, hence is non-negative"""
    F = Fam(B, family)
    if F.cat == "TweedieNeg":
        y = B.real("y", "pos")     # no mean can equal a negative observation
    else:
        y = B.real("y", F.ykind)
    mu = B.real("mu", F.mukind)
    tame(B, y, mu)
    one = lambda x: B.array([x])
    f = lambda m: F.obj.unit_deviance(one(y), one(m))[0]
    if F.cat == "Binomial":
        # -2 * log-likelihood of a fractional response: non-negative; zero at y = mu for 0/1 observations
        B.ensure("non-negative", f(mu) >= 0)
        B.ensure("limit at a 0/1 observation", B.and_(B.implies(B.and_(y <= 0, mu <= 1e-9), f(mu) <= 1e-8), B.implies(B.and_(y >= 1, mu >= 1 - 1e-9), f(mu) <= 1e-8)))
        return
    if B.symbolic:
        B.ensure_min_at("unit deviance non-negative, zero at mu = y", f, mu, y, pos=F.mukind == "pos")
    else:
        B.ensure("unit deviance non-negative, zero at mu = y: value", f(mu) >= -1e-7)
        if y > 0 or F.mukind == "real":
            B.ensure_eq("unit deviance non-negative, zero at mu = y: zero", f(y), 0.0, atol=1e-5)


@contract("P02", U, CASES)
def deviance_derivative(B, family):
    F = Fam(B, family)
    y, mu = B.real("y", F.ykind), B.real("mu", F.mukind)
    tame(B, y, mu, lo=1e-2, hi=30)
    if F.cat == "Binomial":
        tame_unit(B, mu, eps=1e-2)
    one = lambda x: B.array([x])
    df = F.obj.unit_deviance_derivative(one(y), one(mu))[0]
    B.ensure_eq("derivative is -2 (y - mu) / v(mu)", df, -2 * (y - mu) / F.v(mu))
    B.ensure_deriv("unit_deviance_derivative() is the derivative", lambda m: F.obj.unit_deviance(one(y), one(m))[0], mu, df,
                   room=None if B.symbolic else (min(mu, 1 - mu) if F.cat == "Binomial" else (mu if F.mukind == "pos" else None)))
    w = B.real("w", "nonneg")
    B.ensure_eq("weighted derivative", F.obj.deviance_derivative(one(y), one(mu), one(w))[0], w * df)
