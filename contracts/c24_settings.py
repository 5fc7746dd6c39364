"""P24: names, families and links, and the validation of settings."""
from dv.contract import contract
from .common import tame

D, L = "_distribution.", "_link."
GF, GL = ["_glm.get_family"], ["_glm.get_link", "_distribution.ExponentialDispersionModel.to_tweedie", "_distribution.*.__tweedie_repr__"]
NAMES = {"binomial": ("BinomialDistribution", {}), "gamma": ("GammaDistribution", {}), "gaussian": ("NormalDistribution", {}), "inverse.gaussian": ("InverseGaussianDistribution", {}),
         "normal": ("NormalDistribution", {}), "poisson": ("PoissonDistribution", {}), "tweedie": ("TweedieDistribution", {"power": 1.5}), "negative.binomial": ("NegativeBinomialDistribution", {"theta": 1.0})}
LINKS = {"identity": ("IdentityLink", {}), "log": ("LogLink", {}), "logit": ("LogitLink", {}), "cloglog": ("CloglogLink", {}), "tweedie": ("TweedieLink", {"power": 1.5})}
AUTO = {"NormalDistribution": "IdentityLink", "PoissonDistribution": "LogLink", "GammaDistribution": "LogLink", "InverseGaussianDistribution": "LogLink",
        "BinomialDistribution": "LogitLink", "NegativeBinomialDistribution": "LogLink", "GeneralizedHyperbolicSecant": "IdentityLink"}


def exactly(o, mod, cls):
    return type(o) is getattr(mod, cls)


@contract("P24", GF, [dict(name=n) for n in NAMES], trials=1)
def family_names(B, name):
    m = B.module("_distribution")
    cls, par = NAMES[name]
    f = B.module("_glm").get_family(name)
    B.ensure("the documented family", exactly(f, m, cls))
    for k, v in par.items():
        B.ensure_eq("its documented default " + k, getattr(f, k), v)
    e = B.module("_glm").GeneralizedLinearRegressor(family=name)
    B.ensure("an estimator reports the same family", exactly(e.family_instance, m, cls))


@contract("P24", GL, [dict(name=n) for n in LINKS], trials=1)
def link_names(B, name):
    m = B.module("_link")
    cls, par = LINKS[name]
    for fam in ("PoissonDistribution", "NormalDistribution", "BinomialDistribution"):
        l = B.module("_glm").get_link(name, getattr(B.module("_distribution"), fam)())
        B.ensure("the documented link", exactly(l, m, cls))
        for k, v in par.items():
            B.ensure_eq("its documented default " + k, getattr(l, k), v)


@contract("P24", GL, [dict(family=f, auto=a) for f in AUTO for a in ("auto", None)], trials=1)
def automatic_link(B, family, auto):
    f = getattr(B.module("_distribution"), family)()
    B.ensure("the documented automatic link", exactly(B.module("_glm").get_link(auto, f), B.module("_link"), AUTO[family]))


def number(B, name, lo=-6.0, hi=6.0, edges=()):
    v = B.real(name)
    if not B.symbolic:
        v = float(B.r.choice([-2.0, -1.5, -1e-3, 0.0, 1e-3, 0.25, 0.5, 0.75, 1 - 2.0 ** -10, 1.0, 1 + 2.0 ** -10, 1.25, 1.5, 2.0, 2.5, 3.0, *edges]))
        B.inputs[name] = v
    return v


@contract("P24", [D + "TweedieDistribution.power", L + "TweedieLink.power", D + "NegativeBinomialDistribution.theta"] + GL, [{}], trials=20)
def parameters(B):
    """a power in (0, 1) is an error for family and link, every other is kept; the automatic link is the identity for powers up to zero, otherwise the logarithm"""
    m, l = B.module("_distribution"), B.module("_link")
    p = number(B, "power")
    bad = B.and_(p > 0, p < 1)
    for what, C in (("family", m.TweedieDistribution), ("link", l.TweedieLink)):
        r = B.call(lambda: C(p))
        B.ensure(f"an error exactly for a {what} power strictly between zero and one", B.iff(r.raised(ValueError), bad))
        B.ensure("no other error", r.ok or r.raised(ValueError))
        if r.ok:
            B.ensure_eq(f"the {what} power is kept", r.value.power, p, rtol=1e-6)
    r = B.call(lambda: m.TweedieDistribution(p))
    if r.ok:
        for auto in ("auto", None):
            k = B.module("_glm").get_link(auto, r.value)
            B.ensure("identity link for powers up to zero, otherwise log link", B.and_(B.implies(p <= 0, exactly(k, l, "IdentityLink")), B.implies(p > 0, exactly(k, l, "LogLink"))))
    th = number(B, "theta")
    r = B.call(lambda: m.NegativeBinomialDistribution(th))
    B.ensure("an error exactly for a theta that is not positive", B.iff(r.raised(ValueError), th <= 0))
    if r.ok:
        B.ensure_eq("theta is kept", r.value.theta, th, rtol=1e-6)
    # changing the parameter of an existing object obeys the same rules
    f, g = m.TweedieDistribution(1.5), m.NegativeBinomialDistribution(1.0)

    def setp():
        f.power = p

    def sett():
        g.theta = th
    B.ensure("setting a power", B.iff(B.call(setp).raised(ValueError), bad))
    B.ensure("setting theta", B.iff(B.call(sett).raised(ValueError), th <= 0))


@contract("P24", GF + GL, [dict(kind=k) for k in ("family", "link")], trials=4)
def instances_pass_through(B, kind):
    g = B.module("_glm")
    fams = [getattr(B.module("_distribution"), f)() for f in AUTO] + [B.module("_distribution").TweedieDistribution(1.25)]
    links = [getattr(B.module("_link"), c)(**k) for c, k in LINKS.values()]
    if kind == "family":
        for f in fams:
            B.ensure("the given family itself", g.get_family(f) is f)
    else:
        for l in links:
            for f in fams:
                B.ensure("the given link itself", g.get_link(l, f) is l)


PARSED = [dict(kind=k, text=t, value=v) for k in ("tweedie", "negative.binomial", "tweedie link") for t, v in (("1.5", 1.5), ("2", 2.0), ("1.25", 1.25), ("3.0", 3.0), ("1e0", 1.0), (".5", 0.5), ("0.999", 0.999), ("-1", -1.0), ("0", 0.0), ("nan", None), ("a", None), (" ", None), ("1.5, 2", None))]


@contract("P24", GF + GL, PARSED, trials=2, bounded="the parameters are listed texts: the parser of numbers in names is not under contract")
def names_with_parameters(B, kind, text, value):
    """'tweedie (p)' and 'negative.binomial (theta)', with and without the space"""
    g = B.module("_glm")
    for sp in ("", " "):
        name = kind.split(" ")[0] + sp + "(" + text + ")"
        if kind.endswith("link"):
            r = B.call(lambda: g.get_link(name, B.module("_distribution").PoissonDistribution()))
            mod, cls, par, ok = B.module("_link"), "TweedieLink", "power", value is not None and not 0 < value < 1
        else:
            r = B.call(lambda: g.get_family(name))
            mod = B.module("_distribution")
            cls, par, ok = ("TweedieDistribution", "power", value is not None and not 0 < value < 1) if kind == "tweedie" else ("NegativeBinomialDistribution", "theta", value is not None and value > 0)
        B.ensure("an error exactly for parameters out of range", r.ok if ok else r.raised(ValueError))
        if ok and r.ok:
            B.ensure("family or link", exactly(r.value, mod, cls))
            B.ensure("parameter", abs(getattr(r.value, par) - value) <= 1e-6)


UNKNOWN = ["", "Poisson", "poisson ", " poisson", "poissons", "norm", "gaussian2", "gama", "binomia", "negative binomial", "negativebinomial", "inverse gaussian", "inverse.gaussian (1)", "poisson (1)", "gamma(2)",
           "xtweedie (1.5)", "tweedie (1.5) x", "tweedie  (1.5)", "tweedie(1.5", "tweedie 1.5", "tweedie()", "xnegative.binomial (1)", "negative.binomial (1) x", "negative_binomial (1)", "auto", "log", "identity", "cloglog2",
           "generalized.hyperbolic.secant", "none", "Log", "log ", "probit", "inverse", "sqrt", "tweedielink(1.5)"]


@contract("P24", GF + GL, [dict(name=n) for n in UNKNOWN], trials=1, bounded="unknown names are listed, not all")
def unknown_names(B, name):
    g = B.module("_glm")
    if name not in NAMES:
        B.ensure("an unknown family is an error", B.call(lambda: g.get_family(name)).raised(ValueError))
    if name not in LINKS and name != "auto":
        B.ensure("an unknown link is an error", B.call(lambda: g.get_link(name, B.module("_distribution").PoissonDistribution())).raised(ValueError))


V = ["_glm.GeneralizedLinearRegressorBase._validate_hyperparameters"]
VG = V + ["_glm.GeneralizedLinearRegressor._validate_hyperparameters"]
VC = V + ["_glm_cv.GeneralizedLinearRegressorCV._validate_hyperparameters"]


def attempt(B, cls, **k):
    """does fitting with these settings raise, and had anything been fitted by then?"""
    n, p = B.dim("n", lo=2), B.dim("p", lo=1)
    X, y = B.design("X", n, p, storage="dense"), B.vec("y", n)
    if not B.symbolic:
        tame(B, B.A(X), y, hi=1e3)
    C = getattr(B.module("_glm_cv" if cls.endswith("CV") else "_glm"), cls)
    r = B.call(lambda: C(**{a: v(p) if callable(v) else v for a, v in k.items()}))
    if not r.ok:
        return r, []
    e, called = r.value, []

    def solve(*a, **kk):
        called.append(1)
        return B.zeros(p + int(bool(e.fit_intercept)))
    e._solve = solve
    if cls.endswith("CV"):   # only what precedes the fit is under contract here (P21 has the rest)
        r = B.call(lambda: e._validate_hyperparameters())
    else:
        r = B.call(lambda: e.fit(X, y))
    return r, called


def verdict(B, r, called, bad):
    B.ensure("an error exactly outside the documented range", B.iff(not r.ok, bad))
    if not r.ok:
        B.ensure("the error is about a value", r.raised(ValueError, TypeError))
        B.ensure("nothing was fitted", not called)


CLS = ("GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV")


@contract("P24", VG + VC, [dict(cls=c, setting=s) for c in CLS for s in ("gradient_tol", "step_size_tol", "l1_ratio", "max_iter")] + [dict(cls=CLS[0], setting="alpha")], trials=16)
def numeric_settings(B, cls, setting):
    """tolerances and iteration limits are positive, penalties non-negative, the mixing ratio between zero and one"""
    if setting == "max_iter":
        v = B.integer("max_iter")
        if not B.symbolic:
            v = int(B.r.integers(-3, 4))
        bad = v <= 0
    else:
        v = number(B, setting)
        bad = {"alpha": v < 0, "l1_ratio": B.or_(v < 0, v > 1)}.get(setting, v <= 0)
    kw = {} if setting == "l1_ratio" else dict(l1_ratio=0.5)
    if cls == CLS[0]:
        kw["alpha"] = 0.5
    r, called = attempt(B, cls, **{**kw, "solver": "irls-cd", setting: v})
    verdict(B, r, called, bad)


@contract("P24", VG + VC, [dict(cls=CLS[0], setting=s) for s in ("alpha", "P1")] + [dict(cls=CLS[1], setting=s) for s in ("alphas", "P1", "l1_ratio")], trials=16)
def settings_per_feature_or_path(B, cls, setting):
    """one value out of range among several is enough"""
    m = B.dim("m", lo=1)
    if setting == "P1":
        m = B.dim("p", lo=1)
    v = B.vec(setting, m)
    if not B.symbolic:
        v = abs(v) / (1 + abs(v))
        if B.r.integers(2):
            v[int(B.r.integers(m))] *= -1
        if setting == "l1_ratio" and B.r.integers(2):
            v[int(B.r.integers(m))] += 1
        B.inputs[setting] = v.copy()
    bad = B.exists(m, lambda k: B.or_(v[k] < 0, v[k] > 1) if setting == "l1_ratio" else v[k] < 0)
    kw = dict(alpha_search=True) if setting == "alpha" else {}
    if setting != "l1_ratio":
        kw["l1_ratio"] = 0.5
    if setting == "P1" and cls == CLS[0]:
        kw["alpha"] = 0.5
    C = getattr(B.module("_glm_cv" if cls.endswith("CV") else "_glm"), cls)
    e = C(solver="irls-cd", **{**kw, setting: v})
    keep = B.copy(v)
    r = B.call(lambda: e._validate_hyperparameters())
    B.ensure("an error exactly outside the documented range", B.iff(not r.ok, bad))
    B.ensure("the error is about a value", r.ok or r.raised(ValueError))
    B.ensure_frame("the setting is unchanged", v, keep)


BAD = [dict(fit_intercept=1), dict(fit_intercept="yes"), dict(fit_intercept=None), dict(solver="newton-cg"), dict(solver="cd"), dict(solver="IRLS-LS"), dict(solver=None), dict(solver=""), dict(max_iter=1.5), dict(max_iter="3"),
       dict(max_iter=None), dict(gradient_tol="x"), dict(step_size_tol="x"), dict(warm_start=1), dict(warm_start=None), dict(selection="Cyclic"), dict(selection=None), dict(selection="rand"), dict(copy_X=1), dict(copy_X="no"),
       dict(check_input=1), dict(check_input=None), dict(scale_predictors=True, fit_intercept=False), dict(l1_ratio="0.5"), dict(l1_ratio=None), dict(family="unknown"), dict(link="unknown"), dict(P1="unknown"), dict(P2="unknown"),
       dict(lower_bounds=1.0, solver="irls-ls"), dict(upper_bounds=1.0, solver="lbfgs"), dict(lower_bounds=1.0, solver="trust-constr"), dict(upper_bounds=1.0, solver="closed-form"),
       dict(A_ineq=[[1.0]], solver="auto"), dict(b_ineq=[1.0], solver="auto"), dict(A_ineq=[[1.0]], b_ineq=[1.0], solver="irls-ls"), dict(A_ineq=[[1.0]], b_ineq=[1.0], solver="irls-cd"),
       dict(A_ineq=[[1.0]], b_ineq=[1.0], lower_bounds=0.0, solver="auto"), dict(A_ineq=[[1.0]], b_ineq=[1.0], upper_bounds=0.0, solver="auto"),
       dict(monotonic_constraints={"x": "increasing"}), dict(monotonic_constraints={"x": "increasing"}, solver="irls-ls"), dict(monotonic_constraints={"x": "increasing"}, l1_ratio=0.5, solver="auto"),
       dict(monotonic_constraints={"x": "up"}, formula="x"), dict(monotonic_constraints={}, formula="x"), dict(monotonic_constraints=["x"], formula="x"), dict(monotonic_constraints={"x": "increasing"}, A_ineq=[[1.0]], b_ineq=[1.0], formula="x"),
       dict(l1_ratio=0.5, solver="irls-ls"), dict(l1_ratio=0.5, solver="lbfgs"), dict(l1_ratio=0.5, solver="trust-constr"), dict(l1_ratio=0.5, solver="closed-form")]
BADG = [dict(alpha="x"), dict(alpha=[0.1]), dict(alpha=[0.1], alpha_search=False), dict(alpha=0.1, alpha_search=True), dict(alpha=["a"], alpha_search=True), dict(l1_ratio=[0.5]), dict(alpha=[0.1, -0.1], alpha_search=True)]
BADC = [dict(alphas=[-1.0]), dict(l1_ratio=[0.5, 2.0]), dict(l1_ratio=["a"])]


def show(d):
    return ", ".join(f"{k}={v!r}" for k, v in d.items())


@contract("P24", VG, [dict(settings=show(d)) for d in BAD + BADG], trials=1)
def invalid_settings(B, settings):
    """each is rejected by fit before the solver is reached (these are concrete settings, the data are arbitrary)"""
    k = [d for d in BAD + BADG if show(d) == settings][0]
    if "l1_ratio" in k or "P1" in k or "P2" in k:
        k = dict(dict(alpha=0.5), **k)
    r, called = attempt(B, CLS[0], **k)
    B.ensure("an error", not r.ok)
    B.ensure("nothing was fitted", not called)


@contract("P24", VC, [dict(settings=show(d)) for d in BAD + BADC if not (set(d) & {"family", "link", "P1", "P2"} or (d.get("l1_ratio") == 0.5 and len(d) == 2)) ], trials=1)
def invalid_settings_cv(B, settings):
    k = [d for d in BAD + BADC if show(d) == settings][0]
    r, called = attempt(B, CLS[1], **k)
    B.ensure("an error", not r.ok)


GOOD = [dict(), dict(fit_intercept=False), dict(solver="irls-ls"), dict(solver="irls-cd"), dict(solver="lbfgs"), dict(solver="closed-form"), dict(solver="trust-constr"), dict(max_iter=1), dict(gradient_tol=1e-9), dict(gradient_tol=1),
        dict(step_size_tol=0.1), dict(warm_start=True), dict(selection="random"), dict(copy_X=True), dict(copy_X=False), dict(check_input=False), dict(scale_predictors=True), dict(l1_ratio=0), dict(l1_ratio=1, solver="irls-cd"),
        dict(l1_ratio=0.5), dict(P1=None), dict(P2=None), dict(P1="identity", P2="identity"), dict(family="gaussian"), dict(link="identity"), dict(link=None), dict(lower_bounds=0.0), dict(upper_bounds=0.0, solver="irls-cd")]
GOODG = [dict(alpha=0), dict(alpha=None), dict(alpha=2.5), dict(alpha=0.0, l1_ratio=1)]


@contract("P24", VG, [dict(settings=show(d)) for d in GOOD + GOODG], trials=1)
def valid_settings(B, settings):
    k = [d for d in GOOD + GOODG if show(d) == settings][0]
    r, called = attempt(B, CLS[0], **k)
    B.ensure("accepted", r.ok)


@contract("P24", VC, [dict(settings=show(d)) for d in GOOD], trials=1)
def valid_settings_cv(B, settings):
    k = [d for d in GOOD if show(d) == settings][0]
    r, called = attempt(B, CLS[1], **k)
    B.ensure("accepted", r.ok)
