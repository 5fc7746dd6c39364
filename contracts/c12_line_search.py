"""P12: backtracking line search."""
from dv.contract import contract
from dv.load import LoopSpec
from .c08_objective import NS, AnyFamily, Recorder, problem, lin, p2coef, quadform, tame

U = ["_solvers.line_search", "_solvers._update_predictions", "_solvers.eta_mu_objective", "_solvers._make_coef_P2", "_linalg._safe_lin_pred"]
GRID = [dict(intercept=a, pen=b) for a in (True, False) for b in ("vector", "matrix")]
EPS = 16 * 2.0 ** -52


class AnyLink:
    """an arbitrary link: the derivative of its inverse is an arbitrary function"""

    def __init__(self, B, n):
        self.B, self.n, self.seen = B, n, []

    def inverse_derivative(self, eta):
        r = self.B.fresh_vec("dh", self.n)
        self.seen.append((eta, r))
        return r


@contract("P12", U, GRID)
def accepts_decrease(B, intercept, pen):
    n, p, off, X, y, w, coef, P1, P2, P2f, xa = problem(B, intercept, pen)
    S = B.module("_solvers")
    d = B.vec("d", p + off)
    eta0 = B.vec("eta0", n)
    old_obj = B.real("objective")
    score = B.vec("score", p + off)
    variances = []
    if B.symbolic:
        fam, link = AnyFamily(B, n), AnyLink(B, n)

        def one_over_variance(family, link_, mu, eta, dispersion, sample_weight):
            r = B.fresh_vec("sigma_inv", n)
            variances.append(NS(mu=mu, eta=eta, w=sample_weight, phi=dispersion, value=r))
            return r
        B.stub("_solvers", "get_one_over_variance", one_over_variance)

        def inv(L):
            f, s = L["factor"], L["sum_abs_grad_old"]
            return [("step factor", f == B.exp(-L["#"] * B.log(2.0))),
                    ("step factor in (0, 1]", B.and_(f > 0, f <= 1)),
                    ("gradient norm", B.or_(s < 0, s == B.sum(p + off, lambda k: abs(score[k]))))]
        B.loop("line_search", 1, LoopSpec(inv, last=True, havoc=lambda L: L.set("sum_abs_grad_old", B.fresh_real("sum_abs_grad_old"))))
    else:
        import warnings
        P = B.module("_distribution").PoissonDistribution()
        fam, link = Recorder(B, P), B.module("_link").LogLink()
        tame(B, P1, P2, score, hi=1e3)
        scale = [1.0, 1e-3, 30.0, 1e-9][B.r.integers(4)]
        tame(B, y, w, d)
        w = w + 0.1
        d = d * scale
        coef = coef * 0.2
        A = B.A(X)
        B.assume(abs(A).max() < 4 and abs(coef).max() < 3)
        eta0 = A @ coef[off:] + (coef[0] if off else 0)
        if B.r.integers(2):
            # an actual descent direction from the solver's own quadratic model
            fam2, _, obj2, cp2 = S.eta_mu_objective(P, link, eta0, 1.0, coef, 0 * eta0, y, w, P1, P2, off)
            data = NS(X=X, y=y, sample_weight=w, P1=P1, P2=P2, offset=None, family=P, link=link, intercept_offset=off, fit_intercept=intercept)
            g_, score, h_ = S.update_quadratic(NS(eta=eta0, mu=link.inverse(eta0), coef=coef), data, cp2)
            old_obj = obj2
            if B.r.integers(2):
                d = score * float(10.0 ** B.r.integers(-9, 1))
        else:
            old_obj = float(S.eta_mu_objective(P, link, eta0, 1.0, coef, 0 * eta0, y, w, P1, P2, off)[2]) * float(B.r.choice([1.0, 1.0, 1.001, 0.5]))
        fam.seen.clear()
    data = NS(X=X, y=y, sample_weight=w, P1=P1, P2=P2, offset=None, family=fam, link=link, intercept_offset=off, fit_intercept=intercept)
    state = NS(coef=coef, score=score, eta=eta0, obj_val=old_obj, large_number=1e43, mu=None)
    old = [B.copy(v) for v in (coef, d, score, eta0, P1, y, w)]
    if B.symbolic:
        new, step, eta, mu, obj, cP2 = S.line_search(state, data, d)
        warned = len(B.warnings()) > 0
    else:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            new, step, eta, mu, obj, cP2 = S.line_search(state, data, d)
        warned = any("Line search" in str(x.message) for x in ws)
    k = state.n_line_search
    r = fam.seen[-1]
    fac = r.factor
    B.ensure_eq("trial factor is a power of one half", fac, B.exp(-k * B.log(2.0)) if B.symbolic else 2.0 ** -k)
    B.ensure("at most twenty trials", B.and_(k >= 0, k < 20))
    B.ensure_eq_each("step is direction / 2^trials", p + off, lambda j: step[j], lambda j: fac * d[j])
    B.ensure_eq_each("new coefficients", p + off, lambda j: new[j], lambda j: coef[j] + step[j])
    B.ensure_eq("predictor is the one evaluated", eta, r.eta)
    B.ensure_eq("mean is the one evaluated", mu, r.mu)
    B.ensure_eq_each("predictor at the new coefficients", n, lambda i: eta[i], lambda i: eta0[i] + fac * lin(B, X, d, p, off, i), scale=1.0)
    l1 = lambda c: B.sum(p, lambda a: P1[a] * abs(c[a + off]))
    B.ensure_eq("objective at the new coefficients", obj, r.dev / 2 + l1(new) + quadform(B, p, pen, P2f, new, off) / 2, scale=1.0)
    f = p2coef(B, p, pen, P2f, new, off)
    B.ensure_eq_each("gradient of the L2 part at the new coefficients", p, lambda a: cP2[a + off], f, scale=1.0)
    if warned:
        B.ensure_eq("gives up only after twenty trials", k, 19)
    else:
        full = lambda j: coef[j] + d[j]
        predicted = -B.sum(p + off, lambda j: score[j] * d[j]) + B.sum(p, lambda a: P1[a] * abs(full(a + off))) - l1(coef)
        slack = 0 if B.symbolic else 1e-9 * (abs(old_obj) + abs(obj) + abs(predicted)) * 1e-3 + 1e-14
        diff = obj - old_obj
        decrease = diff <= fac * predicted * 0.0001 + slack
        if B.symbolic:
            if variances and len(variances) and link.seen:
                v, dh = variances[-1], link.seen[-1]
                row = lambda i: v.value[i] * dh[1][i] * (y[i] - r.mu[i])
                A = B.A(X)
                comp = lambda a: B.sum(n, lambda i: row(i) * A[i, a]) - f(a)
                gn = B.sum(p, lambda a: abs(comp(a))) + (abs(B.sum(n, row)) if off else 0)
                B.ensure_eq("fallback: variance of the trial mean", v.mu, r.mu)
                B.ensure_eq("fallback: variance with the weights", v.w, w)
                B.ensure_eq("fallback: unit dispersion", v.phi, 1)
                B.ensure_eq("fallback: derivative at the trial predictor", dh[0], r.eta)
                better = B.and_(abs(diff) <= abs(old_obj) * EPS, gn < B.sum(p + off, lambda j: abs(score[j])))
            else:
                better = False
        else:
            A = B.A(X)
            row = w * (y - mu)
            comp = row @ A - B.np.array([f(a) for a in range(p)])
            gn = abs(comp).sum() + (abs(row.sum()) if off else 0)
            better = abs(diff) <= abs(old_obj) * EPS * (1 + 1e-9) and gn < abs(score).sum() * (1 + 1e-9)
        B.ensure("sufficient decrease, or the gradient criterion at rounding level", B.or_(decrease, better))
    for nm, v, o in zip(("coef", "direction", "score", "predictor", "P1", "y", "weights"), (coef, d, score, eta0, P1, y, w), old):
        B.ensure_frame(nm + " unchanged", v, o)
