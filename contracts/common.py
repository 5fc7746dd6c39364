"""shared vocabulary of the contracts: families, admissible data, spec functions"""

# name -> (class, args, kind of y, kind of mu, power range)
FAMILIES = ["Normal", "Poisson", "Gamma", "InverseGaussian", "GHS", "Binomial", "NegativeBinomial",
            "Tweedie0", "Tweedie1", "Tweedie2", "Tweedie3", "TweedieCP", "TweedieHigh", "TweedieNeg"]
CLS = {"Normal": "NormalDistribution", "Poisson": "PoissonDistribution", "Gamma": "GammaDistribution",
       "InverseGaussian": "InverseGaussianDistribution", "GHS": "GeneralizedHyperbolicSecant", "Binomial": "BinomialDistribution"}


class Fam:
    """a family: the real object plus its documented mathematics"""

    def __init__(self, B, name):
        m = B.module("_distribution")
        self.B, self.name = B, name
        self.p = self.theta = None
        if name in CLS:
            self.obj = getattr(m, CLS[name])()
        elif name == "NegativeBinomial":
            th = B.real("theta", "pos")
            if not B.symbolic:
                th = f32(min(max(th, 0.05), 20.0))
            self.theta = th
            self.obj = m.NegativeBinomialDistribution(th)
        else:
            s = name[len("Tweedie"):]
            if s in ("0", "1", "2", "3"):
                p = int(s)
            else:
                p = B.real("power")
                if not B.symbolic:
                    u = float(B.r.uniform())
                    # multiples of 1/16: exact in the single precision in which the power is stored
                    p = {"CP": 1 + (1 + int(u * 15)) / 16, "High": 2 + (1 + int(u * 47)) / 16, "Neg": -(1 + int(u * 47)) / 16}[s]
                    p = 2.5 if p == 3 else p
                    B.inputs["power"] = p
                else:
                    B.assume({"CP": B.and_(1 < p, p < 2), "High": B.and_(2 < p, B.or_(p < 3, p > 3)), "Neg": p < 0}[s])
            self.p = p
            self.obj = m.TweedieDistribution(p)
        base = {"Normal": 0, "Poisson": 1, "Gamma": 2, "InverseGaussian": 3}
        self.pw = base.get(name, self.p)     # variance power
        self.cat = {"Normal": "0", "Poisson": "1", "Gamma": "2", "InverseGaussian": "3", "Tweedie0": "0", "Tweedie1": "1",
                    "Tweedie2": "2", "Tweedie3": "3"}.get(name, name)

    @property
    def ykind(self):
        return {"0": "real", "1": "nonneg", "2": "pos", "3": "pos", "GHS": "real", "Binomial": "unitc", "NegativeBinomial": "nonneg",
                "TweedieCP": "nonneg", "TweedieHigh": "pos", "TweedieNeg": "real"}[self.cat]

    @property
    def mukind(self):
        return {"0": "real", "GHS": "real", "Binomial": "unit"}.get(self.cat, "pos")

    def v(self, mu):
        """documented unit variance"""
        c = self.cat
        if c == "GHS":
            return 1 + mu * mu
        if c == "Binomial":
            return mu * (1 - mu)
        if c == "NegativeBinomial":
            return mu + self.theta * mu * mu
        return mu ** self.pw if c not in ("0",) else 1 + 0 * mu

    def dv(self, mu):
        c = self.cat
        if c == "GHS":
            return 2 * mu
        if c == "Binomial":
            return 1 - 2 * mu
        if c == "NegativeBinomial":
            return 1 + 2 * self.theta * mu
        if c == "0":
            return 0 * mu
        return self.pw * mu ** (self.pw - 1)

    def d(self, y, mu):
        """documented unit deviance (0 log 0 = 0)"""
        B, c = self.B, self.cat
        xlogx = lambda a, b: B.ite(a > 0, a * B.log(B.ite(a > 0, a, 1.0) / b), 0.0)
        if c == "0":
            return (y - mu) ** 2
        if c == "1":
            return 2 * (xlogx(y, mu) - y + mu)
        if c == "2":
            return 2 * (B.log(mu) - B.log(y) + y / mu - 1)
        if c == "3":
            return (y - mu) ** 2 / (y * mu ** 2)
        if c == "GHS":
            at = B.np.arctan
            return 2 * y * (at(y) - at(mu)) + B.log((1 + mu ** 2) / (1 + y ** 2))
        if c == "Binomial":
            return -2 * (B.ite(y > 0, y * B.log(mu), 0.0) + B.ite(y < 1, (1 - y) * B.log(1 - mu), 0.0))
        if c == "NegativeBinomial":
            r = 1 / self.theta
            return 2 * (xlogx(y, mu) - (y + r) * B.log((y + r) / (mu + r)))
        p = self.p
        yp = B.ite(y > 0, B.ite(y > 0, y, 1.0) ** (2 - p), 0.0)
        return 2 * (yp / ((1 - p) * (2 - p)) - y * mu ** (1 - p) / (1 - p) + mu ** (2 - p) / (2 - p))


def f32(x):
    import numpy
    return float(numpy.float32(x))


def scalar(B, name, kind="real", hi=1e3):
    """a number, of moderate size when drawn"""
    v = B.real(name, kind)
    if not B.symbolic:
        v = float(min(max(v, -hi), hi))
        B.inputs[name] = v
    return v


def tame(B, *vs, hi=60.0, lo=1e-3):
    """concrete runs stay away from floating-point overflow and cancellation (real arithmetic is assumed throughout)"""
    if not B.symbolic:
        import numpy as np
        for v in vs:
            v = np.asarray(v)
            B.assume(np.all(abs(v) <= hi) and np.all((v == 0) | (abs(v) >= lo)))


def tame_unit(B, *vs, eps=1e-4):
    if not B.symbolic:
        for v in vs:
            B.assume(B.np.all(v >= eps) and B.np.all(v <= 1 - eps))


LINKS = ["Identity", "Log", "Logit", "Cloglog", "TweedieP"]


class Lnk:
    def __init__(self, B, name):
        m = B.module("_link")
        self.B, self.name = B, name
        if name == "TweedieP":
            p = B.real("link_power")
            if B.symbolic:
                B.assume(B.or_(p < 0, p > 1))
            else:
                p = [-1.0, 1.5, 2.5, 3.5][int(B.r.integers(4))]
            self.p = p
            self.obj = m.TweedieLink(p)
        else:
            self.obj = getattr(m, name + "Link")()

    @property
    def ekind(self):
        return "pos" if self.name == "TweedieP" else "real"

    def h(self, eta):
        """documented inverse link (without clipping)"""
        B, c = self.B, self.name
        if c == "Identity":
            return eta
        if c == "Log":
            return B.exp(eta)
        if c == "Logit":
            return 1 / (1 + B.exp(-eta))
        if c == "Cloglog":
            return 1 - B.exp(-B.exp(eta))
        return eta ** (1 / (1 - self.p))

    def dh(self, eta):
        B, c = self.B, self.name
        if c == "Identity":
            return 1 + 0 * eta
        if c == "Log":
            return B.exp(eta)
        if c == "Logit":
            return B.exp(-eta) / (1 + B.exp(-eta)) ** 2
        if c == "Cloglog":
            return B.exp(eta - B.exp(eta))
        return eta ** (1 / (1 - self.p) - 1) / (1 - self.p)

    def d2h(self, eta):
        B, c = self.B, self.name
        if c == "Identity":
            return 0 * eta
        if c == "Log":
            return B.exp(eta)
        if c == "Logit":
            u = B.exp(-eta)
            return u * (u - 1) / (1 + u) ** 3
        if c == "Cloglog":
            return B.exp(eta - B.exp(eta)) * (1 - B.exp(eta))
        q = 1 / (1 - self.p)
        return q * (q - 1) * eta ** (q - 2)


PAIRS = [("Normal", "Identity"), ("Normal", "Log"), ("Poisson", "Log"), ("Poisson", "Identity"), ("Gamma", "Log"), ("Gamma", "Identity"), ("Gamma", "TweedieP"),
         ("InverseGaussian", "Log"), ("InverseGaussian", "Identity"), ("GHS", "Identity"), ("GHS", "Log"), ("Binomial", "Logit"), ("Binomial", "Cloglog"),
         ("NegativeBinomial", "Log"), ("NegativeBinomial", "Identity"), ("Tweedie0", "Identity"), ("Tweedie0", "Log"), ("Tweedie1", "Log"), ("Tweedie1", "Identity"),
         ("Tweedie2", "Log"), ("Tweedie2", "Identity"), ("Tweedie3", "Log"), ("Tweedie3", "Identity"), ("TweedieCP", "Log"), ("TweedieCP", "Identity"),
         ("TweedieHigh", "Log"), ("TweedieHigh", "Identity"), ("TweedieNeg", "Log"), ("TweedieNeg", "Identity")]
PAIRCASES = [dict(family=a, link=b) for a, b in PAIRS]


def eta_vec(B, F, L, name, n):
    """linear predictors whose mean is in the family's range"""
    kind = "real"
    if L.ekind == "pos" or (L.name == "Identity" and F.mukind == "pos"):
        kind = "pos"
    e = B.vec(name, n, kind)
    if not B.symbolic:
        B.assume(abs(e).max() < (2.5 if L.name == "Cloglog" else 5) and (kind == "real" or e.min() > 1e-2))
    return e
