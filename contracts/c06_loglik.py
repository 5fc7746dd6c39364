"""P06: log-likelihood."""
import math
from dv.contract import contract
from .common import Fam, tame, tame_unit

U = ["_distribution.*.log_likelihood", "_functions.normal_log_likelihood", "_functions.poisson_log_likelihood", "_functions.gamma_log_likelihood",
     "_functions.inv_gaussian_log_likelihood", "_functions.negative_binomial_log_likelihood"]
FAMS = ["Normal", "Poisson", "Gamma", "InverseGaussian", "Binomial", "NegativeBinomial", "Tweedie0", "Tweedie1", "Tweedie2", "Tweedie3"]
CASES = [dict(family=f) for f in FAMS]
HASPHI = {"0", "2", "3"}


def logpdf(B, F, y, mu, phi):
    c, lg, lgam = F.cat, B.log, B.lgamma
    if c == "0":
        return -lg(2 * math.pi * phi) / 2 - (y - mu) ** 2 / (2 * phi)
    if c == "1":
        return B.ite(y > 0, y * lg(mu) - lgam(y + 1), 0.0) - mu
    if c == "2":
        k = 1 / phi
        return k * (lg(y) - lg(mu) - y / mu) - lg(y) - lg(phi) * k - lgam(k)
    if c == "3":
        return lg(1 / (2 * phi) / math.pi) / 2 - 3 * lg(y) / 2 - (y - mu) ** 2 / (2 * phi * mu ** 2 * y)
    if c == "Binomial":
        return B.ite(y > 0, y * lg(mu), 0.0) + B.ite(y < 1, (1 - y) * lg(1 - mu), 0.0)
    th = F.theta
    r = 1 / th
    return y * lg(th * mu) - (y + r) * lg(1 + th * mu) + lgam(y + r) - lgam(r) - lgam(y + 1)


def data(B, F, n, *names):
    out = [B.vec("y", n, F.ykind)] + [B.vec(k, n, F.mukind) for k in names]
    tame(B, *out, lo=1e-2, hi=40)
    if F.cat == "Binomial":
        tame_unit(B, *out[1:])
    return out


@contract("P06", U, CASES)
def log_density(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y, mu = data(B, F, n, "mu")
    w, phi = B.vec("w", n, "nonneg"), B.real("phi", "pos")
    tame(B, w, phi, lo=1e-2, hi=30)
    old = [B.copy(v) for v in (y, mu, w)]
    weights = B.choice("weights", ["array", "none"])
    if weights == "array":
        ll = F.obj.log_likelihood(y, mu, w, phi)
        ref = B.sum(n, lambda i: w[i] * logpdf(B, F, y[i], mu[i], phi))
    else:
        ll = F.obj.log_likelihood(y, mu, dispersion=phi)
        ref = B.sum(n, lambda i: logpdf(B, F, y[i], mu[i], phi))
    B.ensure_eq("weighted sum of log densities", ll, ref, rtol=1e-5, scale=10.0)
    for nm, v, o in zip(("y", "mu", "weights"), (y, mu, w), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P06", U + ["_distribution.*.dispersion"], CASES)
def default_dispersion(B, family):
    """without a dispersion, the estimate of dispersion() is used (where the density has one)"""
    F = Fam(B, family)
    n = B.dim("n", lo=3)
    y, mu = data(B, F, n, "mu")
    w = B.vec("w", n, "pos")
    tame(B, w, lo=1e-2, hi=30)
    if F.cat in HASPHI:
        phi = F.obj.dispersion(y, mu, w)
        B.assume(phi > 1e-3)
        if not B.symbolic:
            B.assume(phi < 1e3)
        B.ensure_eq("estimated dispersion is used", F.obj.log_likelihood(y, mu, w), F.obj.log_likelihood(y, mu, w, phi), rtol=1e-5, scale=10.0)
        phi = F.obj.dispersion(y, mu)
        B.assume(phi > 1e-3)
        B.ensure_eq("estimated dispersion is used (no weights)", F.obj.log_likelihood(y, mu), F.obj.log_likelihood(y, mu, None, phi), rtol=1e-5, scale=10.0)
    else:
        B.ensure_eq("dispersion is irrelevant", F.obj.log_likelihood(y, mu, w), F.obj.log_likelihood(y, mu, w, 3.0), rtol=1e-7)


@contract("P06", U + ["_distribution.*.deviance"], CASES)
def agrees_with_deviance(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y, mu1, mu2 = data(B, F, n, "mu1", "mu2")
    w, phi = B.vec("w", n, "nonneg"), B.real("phi", "pos")
    tame(B, w, phi, lo=1e-2, hi=30)
    l1, l2 = F.obj.log_likelihood(y, mu1, w, phi), F.obj.log_likelihood(y, mu2, w, phi)
    d1, d2 = F.obj.deviance(y, mu1, w), F.obj.deviance(y, mu2, w)
    ph = phi if F.cat in HASPHI else 1
    B.ensure_eq("difference in log-likelihood is -1/2 difference in deviance / dispersion", l1 - l2, -(d1 - d2) / (2 * ph), rtol=1e-5,
                scale=0.0 if B.symbolic else 1 + abs(l1) + abs(l2) + (abs(d1) + abs(d2)) / ph)


@contract("P06", ["_functions.tweedie_log_likelihood", "_functions._tweedie_unit_loglikelihood", "_functions._tweedie_normalization", "_functions._sum_limits",
                  "_functions._log_w_j", "_functions._log_z"],
          bounded="the series has data-dependent unbounded summation limits; checked on drawn inputs against the difference in deviance and a long direct summation")
def tweedie_series(B):
    F = Fam(B, "TweedieCP")
    n = B.dim("n", hi=4)
    y, mu1, mu2 = data(B, F, n, "mu1", "mu2")
    w, phi = B.vec("w", n, "nonneg"), B.real("phi", "pos")
    tame(B, w, phi, lo=5e-2, hi=20)
    l1, l2 = F.obj.log_likelihood(y, mu1, w, phi), F.obj.log_likelihood(y, mu2, w, phi)
    d1, d2 = F.obj.deviance(y, mu1, w), F.obj.deviance(y, mu2, w)
    B.ensure_eq("difference in log-likelihood", l1 - l2, -(d1 - d2) / (2 * phi), rtol=1e-5, scale=1 + abs(l1) + abs(l2) + (abs(d1) + abs(d2)) / phi)
    import numpy as np
    from scipy.special import gammaln, logsumexp
    p = float(F.p)
    a = (2 - p) / (1 - p)
    ref = 0.0
    for i in range(n):
        ref += w[i] * -(mu1[i] ** (2 - p)) / (phi * (2 - p))
        if y[i] > 0:
            jm = y[i] ** (2 - p) / (phi * (2 - p))
            B.assume(jm < 3000)
            j = np.arange(1, int(jm * 3 + 3000))
            logz = -a * np.log(y[i]) + a * np.log(p - 1) - (1 - a) * np.log(phi) - np.log(2 - p)
            ref += w[i] * (logsumexp(j * logz - gammaln(1 + j) - gammaln(-a * j)) - np.log(y[i]) + y[i] * mu1[i] ** (1 - p) / (phi * (1 - p)))
    B.ensure_eq("log density by direct summation", l1, ref, rtol=1e-5, scale=10.0)


@contract("P06", ["_distribution.TweedieDistribution.log_likelihood"], [dict(family="TweedieHigh"), dict(family="TweedieNeg")])
def no_closed_form_is_an_error(B, family):
    F = Fam(B, family)
    n = B.dim("n")
    y, mu = data(B, F, n, "mu")
    w, phi = B.vec("w", n, "nonneg"), B.real("phi", "pos")
    B.ensure("raises", B.call(F.obj.log_likelihood, y, mu, w, phi).raised(NotImplementedError))
