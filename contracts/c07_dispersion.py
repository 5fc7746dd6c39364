"""P07: dispersion estimates."""
from dv.contract import contract
from .common import Fam, FAMILIES, tame, tame_unit

U = ["_distribution.*.dispersion", "_distribution._as_float_arrays"]
CASES = [dict(family=f) for f in FAMILIES]


@contract("P07", U, CASES)
def estimator(B, family):
    F = Fam(B, family)
    n = B.dim("n", lo=2)
    y, mu, w = B.vec("y", n, F.ykind), B.vec("mu", n, F.mukind), B.vec("w", n, "pos")
    tame(B, y, mu, w)
    if F.cat == "Binomial":
        tame_unit(B, mu)
    k = B.integer("ddof", 0, None)
    if not B.symbolic:
        k = k % 4
    old = [B.copy(v) for v in (y, mu, w)]
    method = B.choice("method", ["pearson", "deviance"])
    unit = (lambda i: (y[i] - mu[i]) ** 2 / F.v(mu[i])) if method == "pearson" else (lambda i: F.d(y[i], mu[i]))
    weighted = B.choice("weighted", [True, False])
    if weighted:
        den = B.sum(n, lambda i: w[i]) - k
        B.assume(den > 1e-3)
        out = F.obj.dispersion(y, mu, w, k, method)
        ref = B.sum(n, lambda i: w[i] * unit(i)) / den
    else:
        den = n - k
        B.assume(den > 0)
        out = F.obj.dispersion(y, mu, ddof=k, method=method)
        ref = B.sum(n, lambda i: unit(i)) / den
    B.ensure_eq("estimate", out, ref, rtol=1e-5, scale=10.0)
    if method == "pearson":
        B.ensure_each("every term is non-negative", n, lambda i: w[i] * unit(i) >= 0)
    for nm, v, o in zip(("y", "mu", "weights"), (y, mu, w), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P07", U, CASES)
def defaults(B, family):
    F = Fam(B, family)
    n = B.dim("n", lo=2)
    y, mu, w = B.vec("y", n, F.ykind), B.vec("mu", n, F.mukind), B.vec("w", n, "pos")
    tame(B, y, mu, w)
    if F.cat == "Binomial":
        tame_unit(B, mu)
    B.assume(B.sum(n, lambda i: w[i]) - 1 > 1e-3)
    B.ensure_eq("Pearson with one degree of freedom is the default", F.obj.dispersion(y, mu, w), F.obj.dispersion(y, mu, w, 1, "pearson"))
    B.ensure("unknown method is rejected", B.call(F.obj.dispersion, y, mu, w, 1, "median").raised(NotImplementedError))
