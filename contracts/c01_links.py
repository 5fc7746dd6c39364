"""P01: link functions are what they claim: g(h(x)) = x, h(g(m)) = m, derivatives are derivatives,
fitted means lie in the link's range."""
from dv.contract import contract

U = ["_link.TweedieLink", "_link.IdentityLink", "_link.LogLink", "_link.LogitLink", "_link.CloglogLink"]
EPS50 = 50 * 2.220446049250313e-16

SIMPLE = [dict(name="IdentityLink"), dict(name="LogLink"), dict(name="LogitLink"), dict(name="CloglogLink"), dict(name="Tweedie0"),
          dict(name="Tweedie1"), dict(name="Tweedie2"), dict(name="Tweedie15"), dict(name="Tweedie3"), dict(name="TweedieNeg"), dict(name="TweedieP")]


def make(B, name):
    """-> link object, kind of mu, kind of the linear predictor"""
    m = B.module("_link")
    if not name.startswith("Tweedie"):
        return getattr(m, name)(), {"IdentityLink": "real", "LogLink": "pos"}.get(name, "unit"), "real"
    p = {"Tweedie0": 0, "Tweedie1": 1, "Tweedie2": 2, "Tweedie15": 1.5, "Tweedie3": 3, "TweedieNeg": -1}.get(name)
    if p is None:
        p = B.real("power")
        B.assume(B.or_(p < 0, p > 1))
        if not B.symbolic:
            B.assume(abs(p) < 8 and abs(p - 1) > 0.05)
            p = float(__import__("numpy").float32(p))
    return m.TweedieLink(p), "real" if name == "Tweedie0" else "pos", "pos" if name not in ("Tweedie0", "Tweedie1") else "real"


@contract("P01", U, SIMPLE)
def roundtrip_mean(B, name):
    L, km, ke = make(B, name)
    n = B.dim("n")
    mu = B.vec("mu", n, km)
    if km == "unit":
        B.assume(B.np.all(mu >= 1e-6))
        B.assume(B.np.all(mu <= 1 - 1e-6))
    eta = L.link(mu)
    B.ensure_eq("h(g(mu)) = mu", L.inverse(eta), mu, rtol=1e-5)


@contract("P01", U, SIMPLE)
def roundtrip_linpred(B, name):
    L, km, ke = make(B, name)
    n = B.dim("n")
    eta = B.vec("eta", n, ke)
    if km == "unit":
        B.assume(B.np.all(abs(eta) < (3 if name == "CloglogLink" else 15)))
        i = B.arbitrary("i", n)
        mu = L.inverse(eta)
        m = mu[i]
        B.ensure("mean in (0,1)", B.and_(m > 0, m < 1))
        B.ensure("g(h(eta)) = eta unless clipped", B.or_(m <= EPS50, m >= 1 - EPS50, abs(L.link(mu)[i] - eta[i]) <= 1e-6))
    else:
        if not B.symbolic:
            B.assume(abs(eta).max() < 50)
        mu = L.inverse(eta)
        if km == "pos":
            B.ensure_all("mean is positive", mu > 0)
        B.ensure_eq("g(h(eta)) = eta", L.link(mu), eta, rtol=1e-5)


@contract("P01", U, [c for c in SIMPLE if c["name"] in ("LogitLink", "CloglogLink")])
def clipped_mean(B, name):
    """the mean stays strictly inside (0,1) even for extreme linear predictors"""
    L, km, ke = make(B, name)
    n = B.dim("n")
    eta = B.vec("eta", n, "real")
    if not B.symbolic:
        eta = eta * B.choice("scale", [1.0, 30.0, 1000.0])
    mu = L.inverse(eta)
    B.ensure_all("mean at least 50 eps", mu >= EPS50)
    B.ensure_all("mean at most 1 - 50 eps", mu <= 1 - EPS50)
    i, j = B.arbitrary("i", n), B.arbitrary("j", n)
    B.ensure("mean is monotone in the linear predictor", B.implies(eta[i] <= eta[j], mu[i] <= mu[j]))


@contract("P01", U, SIMPLE)
def derivative_of_link(B, name):
    L, km, ke = make(B, name)
    mu = B.real("mu", km)
    if not B.symbolic and km != "real":
        B.assume(1e-3 < mu < (1 - 1e-3 if km == "unit" else 1e3))
    one = lambda x: B.array([x])
    B.ensure_deriv("derivative() is g'", lambda m: L.link(one(m))[0], mu, L.derivative(one(mu))[0], room=min(mu, 1 - mu) if not B.symbolic and km == "unit" else None)


@contract("P01", U, SIMPLE)
def derivative_of_inverse(B, name):
    L, km, ke = make(B, name)
    x = B.real("eta", ke)
    if not B.symbolic:
        B.assume(abs(x) < 6 and (ke != "pos" or x > 1e-2))
    one = lambda v: B.array([v])

    def h(v):
        # the unclipped mean
        if name == "LogitLink":
            return 1 / (1 + B.exp(-v))
        if name == "CloglogLink":
            return 1 - B.exp(-B.exp(v))
        return L.inverse(one(v))[0]
    d1 = L.inverse_derivative(one(x))[0]
    B.ensure_deriv("inverse_derivative() is h'", h, x, d1)
    B.ensure_deriv("inverse_derivative2() is h''", lambda v: L.inverse_derivative(one(v))[0], x, L.inverse_derivative2(one(x))[0])
    if km == "unit":
        y = L.inverse(one(x))[0]
        B.ensure("inverse() is h away from the clipping limits", B.or_(y <= EPS50, y >= 1 - EPS50, abs(y - h(x)) <= 1e-9))


@contract("P01", U, SIMPLE)
def inverse_function_rule(B, name):
    """g'(h(x)) * h'(x) = 1"""
    L, km, ke = make(B, name)
    n = B.dim("n")
    eta = B.vec("eta", n, ke)
    if not B.symbolic:
        B.assume(abs(eta).max() < 10 and (ke != "pos" or eta.min() > 1e-2))
    if km == "unit":
        mu = 1 / (1 + B.exp(-eta)) if name == "LogitLink" else 1 - B.exp(-B.exp(eta))
        if not B.symbolic:
            B.assume(abs(eta).max() < 3)
    else:
        mu = L.inverse(eta)
    B.ensure_eq("g'(mu) h'(eta) = 1", L.derivative(mu) * L.inverse_derivative(eta), B.np.ones(n), rtol=1e-5)


@contract("P01", U, [dict(name="LogitLink"), dict(name="CloglogLink"), dict(name="LogLink"), dict(name="TweedieP")])
def strictly_increasing(B, name):
    L, km, ke = make(B, name)
    n = B.dim("n")
    eta = B.vec("eta", n, ke)
    if not B.symbolic:
        B.assume(abs(eta).max() < 6 and (ke != "pos" or eta.min() > 1e-2))
    d = L.inverse_derivative(eta)
    if name == "TweedieP":
        B.ensure_all("h' has the sign of 1 - power", d * (1 - L.power) > 0)
    else:
        B.ensure_all("h' > 0", d > 0)
