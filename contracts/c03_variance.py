"""P03: variance functions."""
from dv.contract import contract
from .common import Fam, FAMILIES, tame, tame_unit

U = ["_distribution.*.unit_variance", "_distribution.*.unit_variance_derivative", "_distribution.ExponentialDispersionModel.variance",
     "_distribution.ExponentialDispersionModel.variance_derivative"]
CASES = [dict(family=f) for f in FAMILIES]


@contract("P03", U, CASES)
def unit_variance(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    mu = B.vec("mu", n, F.mukind)
    tame(B, mu, lo=1e-2, hi=30)
    mu0 = B.copy(mu)
    v = F.obj.unit_variance(mu)
    B.ensure_eq_each("unit variance", n, lambda i: v[i], lambda i: F.v(mu[i]))
    B.ensure_all("positive", v > 0)
    B.ensure_frame("mu unchanged", mu, mu0)


@contract("P03", U, CASES)
def unit_variance_derivative(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    mu = B.vec("mu", n, F.mukind)
    tame(B, mu, lo=1e-2, hi=30)
    d = F.obj.unit_variance_derivative(mu)
    B.ensure_eq_each("derivative", n, lambda i: d[i], lambda i: F.dv(mu[i]))
    x = B.real("x", F.mukind)
    if not B.symbolic:
        B.assume(1e-2 < abs(x) < 30)
        if family == "Binomial":
            B.assume(1e-2 < x < 0.99)
    one = lambda x: B.array([x])
    B.ensure_deriv("is the derivative of unit_variance()", lambda m: F.obj.unit_variance(one(m))[0], x, F.obj.unit_variance_derivative(one(x))[0],
                   room=None if B.symbolic or F.mukind == "real" else min(x, 1 - x) if family == "Binomial" else x)


@contract("P03", U, CASES)
def variance(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    mu, w, phi = B.vec("mu", n, F.mukind), B.vec("w", n, "pos"), B.real("phi", "pos")
    tame(B, mu, w, phi, lo=1e-2, hi=30)
    v, dv = F.obj.variance(mu, phi, w), F.obj.variance_derivative(mu, phi, w)
    B.ensure_eq_each("variance", n, lambda i: v[i], lambda i: F.v(mu[i]) * phi / w[i])
    B.ensure_eq_each("variance derivative", n, lambda i: dv[i], lambda i: F.dv(mu[i]) * phi / w[i])
    v1, dv1 = F.obj.variance(mu), F.obj.variance_derivative(mu)
    B.ensure_eq_each("default dispersion and weight", n, lambda i: v1[i], lambda i: F.v(mu[i]))
    B.ensure_eq_each("default dispersion and weight (derivative)", n, lambda i: dv1[i], lambda i: F.dv(mu[i]))
    B.ensure_all("positive", v > 0)
