"""P20: the score."""
from dv.contract import contract
from .common import Fam, FAMILIES, tame, tame_unit

T = ["_glm.GeneralizedLinearRegressorBase.score", "_glm.GeneralizedLinearRegressorBase.family_instance", "_validation.check_weights"]
D = ["_distribution.*.deviance", "_distribution.*.unit_deviance", "_functions.*_deviance", "_distribution._as_float_arrays"]
CLS = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")


def setting(B, cls, family, weights, ykind="real", unit=False):
    n = B.dim("n", lo=1)
    X, o = B.mat("X", n, B.dim("p", lo=1)), B.vec("offset", n)
    y = B.vec("y", n, ykind)
    w = B.vec("w", n, "pos") if weights == "vector" else B.real("weight", "pos") if weights == "scalar" else None
    tame(B, y, o, hi=30.0, lo=1e-2)
    if w is not None:
        tame(B, w)
    if weights == "vector":
        B.assume(B.sum(n, lambda i: w[i]) > 0)
    C = getattr(B.module("_glm_cv" if cls.endswith("CV") else "_glm"), cls)
    e = C.__new__(C)
    B.partial(e)
    e.family, e._family_instance = family, family
    return n, X, o, y, w, e


def predictor(B, e, mu):
    """the predictions of the model, whatever they are, with a record of what was asked for"""
    asked = []

    def predict(*a, **k):
        asked.append((a, k))
        return mu
    e.predict = predict
    return asked


def at(v):
    """entries of an array, or a number for every index"""
    return (lambda i: v[i]) if len(getattr(v, "shape", ())) else (lambda i: v)


def weight(w, weights):
    return (lambda i: w[i]) if weights == "vector" else (lambda i: w) if weights == "scalar" else (lambda i: 1.0)


@contract("P20", T + D, [dict(family=f, weights=w) for f in FAMILIES for w in ("vector", "scalar", None)], trials=20)
def value(B, family, weights):
    """one minus the deviance of the predictions over the deviance of the weighted mean"""
    F = Fam(B, family)
    n, X, o, y, w, e = setting(B, CLS[0], F.obj, weights, F.ykind)
    mu = B.vec("mu", n, F.mukind)
    tame(B, mu, hi=30.0, lo=1e-2)
    if F.cat == "Binomial":
        tame_unit(B, mu)
        y = y if B.symbolic else B.np.clip(y, 1e-2, 1 - 1e-2)
    predictor(B, e, mu)
    wt = weight(w, weights)
    m = B.sum(n, lambda i: wt(i) * y[i]) / B.sum(n, wt)
    if F.mukind != "real":
        B.assume(m > 0)
    if F.cat == "Binomial":
        B.assume(m < 1)
    seen = []
    real = F.obj.deviance

    def deviance(y_, mu_, sample_weight=1):
        if mu_ is not mu and B.symbolic:  # the weighted mean is one of all admissible means
            c = B.real("null mean", F.mukind)
            every = at(mu_)
            B.ensure_eq_each("null model predicts the weighted mean", n, every, lambda i: m)
            seen.append((c, real(y_, B.tab_arr(lambda i: c, n) if len(getattr(mu_, "shape", ())) else c, sample_weight=sample_weight)))
        else:
            seen.append((mu_, real(y_, mu_, sample_weight=sample_weight)))
        return seen[-1][1]
    F.obj.deviance = deviance
    if not B.symbolic:
        B.assume(B.sum(n, lambda i: wt(i) * F.d(y[i], m)) > 1e-2 * B.sum(n, wt))
    r = e.score(X, y, w, o)
    dev, null = [d for c, d in seen if c is mu], [(c, d) for c, d in seen if c is not mu]
    B.ensure("one deviance of the predictions, one of the null model", len(dev) == 1 and len(null) == 1)
    dev, (c, null) = dev[0], null[0]
    B.ensure_eq("deviance of the predictions", dev, B.sum(n, lambda i: wt(i) * F.d(y[i], mu[i])), rtol=1e-5, scale=10.0)
    B.ensure_eq("deviance of the null model", null, B.sum(n, lambda i: wt(i) * F.d(y[i], c if B.symbolic else m)), rtol=1e-5, scale=10.0)
    B.assume(null > 0)  # otherwise the score is not defined
    B.ensure_eq("score", r, 1 - dev / null, rtol=1e-5)


class Anything:
    """a family whose deviances are whatever was agreed"""

    def __init__(self, B, dev, null, mu):
        self.B, self.dev, self.null, self.mu, self.asked = B, dev, null, mu, []

    def deviance(self, y, mu, sample_weight=None):
        self.asked.append((y, mu, sample_weight))
        return self.dev if mu is self.mu else self.null


@contract("P20", T, [dict(cls=c, weights=w, offset=o, context=x) for c in CLS for w in ("vector", "scalar", None) for o in (True, False) for x in (False, True)], trials=20)
def wiring(B, cls, weights, offset, context):
    """predictions for the given design, offset and context; both deviances for the given targets and weights; at most one"""
    n = B.dim("n", lo=1)
    mu = B.vec("mu", n)
    dev, null = B.real("dev", "nonneg"), B.real("null", "pos")
    fam = Anything(B, dev, null, mu)
    n, X, o, y, w, e = setting(B, cls, fam, weights)
    asked = predictor(B, e, mu)
    y0, w0, o0 = B.copy(y), B.copy(w) if weights == "vector" else w, B.copy(o)
    ctx = {"a": 1} if context else None
    r = e.score(X, y, w, o if offset else None, **(dict(context=ctx) if context else {}))
    B.ensure_eq("one minus the ratio", r, 1 - dev / null)
    B.ensure("at most one", r <= 1)
    B.ensure("one exactly for zero deviance", B.iff(r >= 1, dev <= 0))
    B.ensure("one prediction", len(asked) == 1)
    import inspect
    k = inspect.signature(type(e).predict).bind(e, *asked[0][0], **asked[0][1])
    k.apply_defaults()
    k = k.arguments
    B.ensure("for the given design", k["X"] is X)
    B.ensure("with the given offset", (k["offset"] is o) if offset else k["offset"] is None)
    B.ensure("in the given context", k["context"] is ctx or k["context"] == ctx)
    B.ensure("of the selected model", k["alpha_index"] is None and k["alpha"] is None)
    B.ensure("predictions are not weighted", k["sample_weight"] is None)
    B.ensure("two deviances", len(fam.asked) == 2)
    wt = weight(w0, weights)
    m = B.sum(n, lambda i: wt(i) * y0[i]) / B.sum(n, wt)
    for yy, mm, ww in fam.asked:
        B.ensure_eq_each("targets", n, lambda i: yy[i], lambda i: y0[i])
        B.ensure("weights given", ww is not None)
        B.ensure_eq_each("weights", n, at(ww), wt)
        if mm is not mu:
            B.ensure_eq_each("weighted mean of the targets", n, at(mm), lambda i: m, rtol=1e-6, scale=None if B.symbolic else 30.0)
    B.ensure("one of them of the predictions", sum(mm is mu for _, mm, _ in fam.asked) == 1)
    B.ensure_frame("targets unchanged", y, y0)
    B.ensure_frame("offset unchanged", o, o0)
    if weights == "vector":
        B.ensure_frame("weights unchanged", w, w0)
