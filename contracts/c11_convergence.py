"""P11: optimality residual, convergence test, active set."""
from dv.contract import contract
from .c08_objective import NS, state as any_state

UN = ["_cd_fast._norm_min_subgrad", "_cd_fast.cython_norm_min_subgrad"]
CASES = [dict(intercept=a, lower=b, upper=c) for a in (True, False) for b in (True, False) for c in (True, False)]


def bounds(B, p, lower, upper):
    """(has_lower, lb, has_upper, ub) as IRLSData holds them"""
    e = B.zeros(0)
    lb = B.vec("lb", p) if lower else e
    ub = B.vec("ub", p) if upper else e
    return lb, ub


def coefficient(B, p, off, lower, upper, lb, ub):
    """a coefficient vector that is often exactly zero or at a bound"""
    coef = B.vec("coef", p + off)
    if not B.symbolic:
        for a in range(p):
            k = B.r.integers(5)
            if k == 0:
                coef[a + off] = 0.0
            elif k == 1 and lower:
                coef[a + off] = lb[a]
            elif k == 2 and upper:
                coef[a + off] = ub[a]
        B.inputs["coef"] = coef.copy()
    return coef


def residual(B, g, c, l1, lo, hi):
    """minimum-norm element of g + l1*d|c| + normal cone of [lo, hi] (a bound may be None)"""
    t = B.ite(c > 0, g + l1, B.ite(c < 0, g - l1, B.ite(g > l1, g - l1, B.ite(g < -l1, g + l1, 0.0))))
    if lo is not None:
        t = B.ite(B.and_(c == lo, t > 0), 0.0, t)
    if hi is not None:
        t = B.ite(B.and_(c == hi, t < 0), 0.0, t)
    return t


def setup(B, intercept, lower, upper):
    p = B.dim("p", hi=None if B.symbolic else 8)
    off = 1 if intercept else 0
    lb, ub = bounds(B, p, lower, upper)
    coef = coefficient(B, p, off, lower, upper, lb, ub)
    P1 = B.vec("P1", p, "nonneg")
    grad = B.vec("grad", p + off)
    res = lambda a: residual(B, grad[a + off], coef[a + off], P1[a], lb[a] if lower else None, ub[a] if upper else None)
    return p, off, lb, ub, coef, P1, grad, res


@contract("P11", UN, CASES)
def residual_norm(B, intercept, lower, upper):
    p, off, lb, ub, coef, P1, grad, res = setup(B, intercept, lower, upper)
    act = B.active_set("active", p, off)
    old = [B.copy(v) for v in (coef, P1, grad, act)]
    norm, mx = B.fn("_cd_fast", "_norm_min_subgrad")(act, coef, grad, P1, off, lower, lb, upper, ub)
    m = act.shape[0]
    g0 = abs(grad[0]) if off else 0.0
    B.ensure_eq("norm is the sum of the absolute residuals", norm, B.sum(m, lambda k: abs(res(act[k] - off)), lo=off) + g0, rtol=1e-9)
    if off or not B.symbolic:
        B.ensure_le("largest residual (intercept)", g0, mx)
    B.ensure_each("no residual above the reported maximum", m, lambda k: abs(res(act[k] - off)) <= mx * (1 + 1e-12), lo=off)
    for nm, v, o in zip(("coef", "P1", "grad", "active set"), (coef, P1, grad, act), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P11", UN, [dict(lower=a, upper=b) for a in (True, False) for b in (True, False)])
def residual_is_minimal(B, lower, upper):
    """lemma over the specification: no subgradient (bounds included) is smaller, so zero means optimal"""
    g, c, l1 = B.real("g"), B.real("c"), B.real("l1", "nonneg")
    lo = B.real("lo") if lower else None
    hi = B.real("hi") if upper else None
    s, nu = B.real("s"), B.real("nu")
    B.assume(B.and_(s >= -1, s <= 1, B.implies(c > 0, s == 1), B.implies(c < 0, s == -1)))
    at_lo = (c == lo) if lower else False
    at_hi = (c == hi) if upper else False
    B.assume(B.and_(B.implies(nu < 0, at_lo), B.implies(nu > 0, at_hi)))
    B.lemma("residual is the least subgradient", abs(residual(B, g, c, l1, lo, hi)) <= abs(g + l1 * s + nu) + (0 if B.symbolic else 1e-9))


@contract("P11", ["_solvers.check_convergence"] + UN, CASES)
def convergence(B, intercept, lower, upper):
    p, off, lb, ub, coef, P1, grad, res = setup(B, intercept, lower, upper)
    step = B.vec("step", p + off)
    gtol = B.real("gradient_tol", "pos")
    stol = B.real("step_size_tol", "pos") if B.choice("step_tol", [True, False]) else None
    if not B.symbolic:
        k = B.r.integers(3)
        grad *= [1.0, 1e-3, 1e-6][k]
        step *= [1.0, 1e-3, 1e-6][B.r.integers(3)]
    data = NS(P1=P1, intercept_offset=off, has_lower_bounds=lower, has_upper_bounds=upper, _lower_bounds=lb, _upper_bounds=ub,
              gradient_tol=gtol, step_size_tol=stol, fixed_inner_tol=None, fit_intercept=intercept)
    state = any_state(B, p, off, coef=coef, score=-grad, step=step, data=data)
    old = [B.copy(v) for v in (coef, P1, step)]
    conv, norm, mx, inner = B.fn("_solvers", "check_convergence")(state, data)
    total = B.sum(p, lambda a: abs(res(a))) + (abs(grad[0]) if off else 0.0)
    B.ensure_eq("residual norm over all coefficients", norm, total, rtol=1e-9)
    st = B.sqrt(B.sum(p + off, lambda k: step[k] * step[k]))
    small = B.or_(norm < gtol, False if stol is None else st < stol)
    near = False if B.symbolic else stol is not None and abs(st - stol) < 1e-9 * stol
    if not near:
        B.ensure("converged only when a tolerance is met", B.iff(conv, small))
    B.ensure_each("no residual above the reported maximum", p, lambda a: abs(res(a)) <= mx * (1 + 1e-12))
    B.ensure("inner tolerance positive", inner > 0)
    for nm, v, o in zip(("coef", "P1", "step"), (coef, P1, step), old):
        B.ensure_frame(nm + " unchanged", v, o)


@contract("P11", ["_solvers.identify_active_set"], CASES)
def active(B, intercept, lower, upper):
    p, off, lb, ub, coef, P1, grad, res = setup(B, intercept, lower, upper)
    mx = B.real("max_min_subgrad", "nonneg")
    if B.symbolic:
        B.assume(B.forall(p, lambda a: abs(res(a)) <= mx))      # contract of _norm_min_subgrad
    else:
        mx = max([abs(res(a)) for a in range(p)] + [abs(grad[0]) if off else 0.0])
        mx = mx if off else float("inf")
    data = NS(P1=P1, intercept_offset=off, fit_intercept=intercept)
    state = any_state(B, p, off, coef=coef, score=-grad, max_min_subgrad=mx)
    act = B.fn("_solvers", "identify_active_set")(state, data)
    a = B.arbitrary("a", p)
    B.ensure("a coefficient violating its optimality condition stays", B.implies(abs(res(a)) > 0, B.contains(act, a + off)))
    B.ensure("a non-zero coefficient stays", B.implies(B.or_(coef[a + off] > 0, coef[a + off] < 0), B.contains(act, a + off)))
    if off:
        B.ensure_eq("the intercept comes first", act[0], 0)
    m = act.shape[0]
    B.ensure_each("positions of coefficients", m, lambda k: B.and_(act[k] >= 0, act[k] < p + off))
    B.ensure_each("increasing", m, lambda k: act[k - 1] < act[k], lo=1)
