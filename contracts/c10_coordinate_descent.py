"""P10: coordinate descent on the quadratic subproblem."""
from dv.contract import contract
from dv.load import LoopSpec
from .c08_objective import NS, tame
from .c11_convergence import residual, bounds

CD = "_cd_fast.enet_coordinate_descent_gram"
U = [CD, "_cd_fast.fsign", "_cd_fast.fmax"]
CASES = [dict(intercept=a, lower=b, upper=c, random=d) for a in (True, False) for b in (True, False) for c in (True, False) for d in (True, False)]
RAND_MAX = 0x7FFFFFFF


@contract("P10", ["_cd_fast.rand_int"])
def random_coordinate(B):
    """the random coordinate is one of the coordinates (our_rand_r: any 32-bit number, assumed)"""
    if not B.symbolic:
        return
    end = B.dim("end", lo=1)
    r = B.dim("r", lo=0)
    B.stub("_cd_fast", "our_rand_r", lambda state: r)
    k = B.fn("_cd_fast", "rand_int")(end, None)
    B.ensure("in range", B.and_(k >= 0, k < end))


@contract("P10", [], [dict(lower=a, upper=b) for a in (True, False) for b in (True, False)])
def zero_residual_minimises(B, lower, upper):
    """lemma over the specification: a zero residual after the move is the exact minimiser of the 1-D subproblem within the bounds"""
    if not B.symbolic:
        return
    g, x, t, l1, Q = B.real("g"), B.real("x"), B.real("t"), B.real("l1", "nonneg"), B.real("Q", "pos")
    lo = B.real("lo") if lower else None
    hi = B.real("hi") if upper else None
    for v in (x, t):
        if lower:
            B.assume(v >= lo)
        if upper:
            B.assume(v <= hi)
    B.assume(residual(B, g, x, l1, lo, hi) == 0)
    B.ensure_le("no feasible value of the coordinate has a smaller objective", 0.0, g * (t - x) + l1 * (abs(t) - abs(x)) + Q * (t - x) * (t - x) / 2)


@contract("P10", U, CASES)
def descent(B, intercept, lower, upper, random):
    p = B.dim("p", hi=None if B.symbolic else 6)
    off = 1 if intercept else 0
    act = B.active_set("active", p, off)
    m = act.shape[0]
    lb, ub = bounds(B, p, lower, upper)
    P1 = B.vec("P1", p, "nonneg")
    w, q = B.vec("w", p + off), B.vec("q", p + off)
    tol, eps = B.real("tol", "pos"), B.real("eps", "nonneg")
    max_iter = B.dim("max_iter", lo=1, hi=None if B.symbolic else 30)
    rng = B.rng()
    if B.symbolic:
        Q = B.mat("Q", m, m, sym=True)
        if lower and upper:
            B.assume(B.forall(p, lambda a: lb[a] <= ub[a]))
    else:
        tame(B, w, q, P1, lb, ub, hi=1e3)
        G = B.r.standard_normal((m + int(B.r.integers(0, 3)), m)) * float(B.r.choice([1.0, 0.1, 10.0]))
        Q = G.T @ G
        if m and B.r.integers(4) == 0:
            k = B.r.integers(m)
            Q[k, :] = 0.0
            Q[:, k] = 0.0
        if lower and upper:
            lb, ub = B.np.minimum(lb, ub), B.np.maximum(lb, ub)
        if B.r.integers(2):
            for a in range(p):
                w[a + off] = min(max(w[a + off], lb[a] if lower else -B.np.inf), ub[a] if upper else B.np.inf)
        tol = float(B.r.choice([1e-1, 1e-4, 1e-8]))
        eps = float(B.r.choice([0.0, 1e-12]))
        if B.r.integers(2):
            max_iter = 1
        B.inputs.update(w=w.copy(), Q=Q.copy(), lb=lb, ub=ub, tol=tol, eps=eps, max_iter=max_iter)
    w0, q0 = B.copy(w), B.copy(q)
    old = [B.copy(v) for v in (P1, Q, act, lb, ub)]
    slope = lambda j: B.ite(j == 0, 0, j - 1) if off else j

    def within(v, j):
        c = []
        if lower:
            c.append(v >= lb[slope(j)])
        if upper:
            c.append(v <= ub[slope(j)])
        return B.or_(j == 0, B.and_(*c)) if off else B.and_(*c)

    def allowed(v, j):
        """a coefficient: not moved, or moved (active) and within its bounds"""
        return B.or_(v == w0[j], B.and_(B.contains(act, j), within(v, j)))

    def res(j, g, c):
        l1 = B.ite(j == 0, 0.0, P1[slope(j)]) if off else P1[j]
        r = residual(B, g, c, l1, lb[slope(j)] if lower else None, ub[slope(j)] if upper else None)
        return B.ite(j == 0, g, r) if off else r

    seen = []
    if B.symbolic:
        B.stub("_cd_fast", "rand_int", lambda end, state: B.integer(f"coordinate{len(seen)}", 0, end))

        def gap(active_set, coef, grad, P1_, icpt, hl, lo, hu, hi, norm_out, max_out):
            v, x = B.fresh_real("gap"), B.fresh_real("largest")
            seen.append(NS(value=v, coef=coef.copy(), grad=grad.copy(), args=(active_set, P1_, icpt, hl, lo, hu, hi)))
            norm_out[0] = v
            max_out[0] = x
        B.stub("_cd_fast", "cython_norm_min_subgrad", gap)
        pos = act.inverse()

        def gradient(L):
            wc = L["w"].copy()
            from dv.sym import S, term

            def f(j):
                k0 = S(pos(term(j)))
                return B.ite(B.contains(act, j), q0[j] + B.sum(m, lambda k: Q[k0, k] * (wc[act[k]] - w0[act[k]])), q0[j])
            return f

        def one_update(L, before):
            a, i = L["active_set_ii"], L["ii"]
            flat = Q[a, a] <= eps
            j = B.np.arange(p + off)
            return [("a coordinate is one of the active set", i == act[a]),
                    ("a flat coordinate is left alone", B.implies(flat, B.and_(L["w"][i] == before["w"][i], L["q"][i] == before["q"][i]))),
                    ("the coordinate is moved to its exact minimiser", B.implies(B.not_(flat), res(i, L["q"][i], L["w"][i]) == 0)),
                    ("the coordinate is within its bounds", B.implies(B.not_(flat), within(L["w"][i], i))),
                    ("no other coordinate is moved", B.forall(p + off, lambda j: B.or_(j == i, L["w"][j] == before["w"][j])))]
        B.merge("enet_coordinate_descent_gram")
        spec = dict(modifies=("w", "q"), each={"w": lambda L: allowed}, define={"q": gradient})
        B.loop("enet_coordinate_descent_gram", 1, LoopSpec(last=True, **spec))
        B.loop("enet_coordinate_descent_gram", 2, LoopSpec(step=one_update, **spec))
    f = B.fn("_cd_fast", "enet_coordinate_descent_gram")
    args = (act, w, P1, Q, q, max_iter, tol, rng, off, random, lower, lb, upper, ub, eps)
    if B.symbolic:
        out, norm, mx, tol_out, sweeps = f(*args)
        warned = len(B.warnings()) > 0
    else:
        import warnings
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            out, norm, mx, tol_out, sweeps = f(*args)
        warned = any("did not converge" in str(x.message) for x in ws)
    B.ensure_frame("the coefficients returned are the ones updated", out, w)
    B.ensure("number of sweeps", B.and_(sweeps >= 1, sweeps <= max_iter))
    j = B.arbitrary("j", p + off)
    B.ensure("a coefficient outside the active set never moves; a moved one is within its bounds", allowed(w[j], j))
    if B.symbolic:
        B.ensure_eq("the maintained gradient is the gradient at the coefficients",
                    q[j], B.total(lambda: B.ite(B.contains(act, j), q0[j] + B.sum(m, lambda k: Q[S_(pos, j), k] * (w[act[k]] - w0[act[k]])), q0[j])))
        last = seen[-1]
        B.ensure_eq("the reported residual is the one computed last", norm, last.value)
        B.ensure_eq("residual at the returned coefficients", last.coef, w)
        B.ensure_eq("residual at the returned gradient", last.grad, q)
        a = last.args
        B.ensure("residual over the active set, penalties and bounds given",
                 a[0] is act and a[1] is P1 and a[3] == lower and a[5] == upper and (a[4] is lb or not lower) and (a[6] is ub or not upper))
        B.ensure_eq("residual with the intercept flag", a[2], off)
    else:
        full = q0.copy()
        full[act] += Q @ (w - w0)[act]
        sc = float(abs(Q).sum() * max(abs(w).max(), abs(w0).max()) + abs(q0).max())
        B.ensure_eq("the maintained gradient is the gradient at the coefficients", q, full, scale=sc)
        r = sum(abs(res(k, q[k], w[k])) for k in act[off:]) + (abs(q[0]) if off else 0.0)
        B.ensure_eq("the reported residual is that of the returned coefficients", norm, r, scale=sc * 1e-6)
        if m and not random and Q[m - 1, m - 1] > eps and Q[m - 1, m - 1] > 1e-10:
            B.ensure_eq("the last coordinate visited is at its exact minimiser", res(act[m - 1], q[act[m - 1]], w[act[m - 1]]), 0.0, scale=sc)
        if all(within(w0[k], k) for k in range(p + off)):
            l1 = lambda c: sum(P1[a] * abs(c[a + off]) for a in range(p))
            d = (w - w0)[act]
            change = q0[act] @ d + d @ Q @ d / 2 + l1(w) - l1(w0)
            B.ensure("the subproblem objective does not increase", change <= 1e-9 * (sc * (abs(d).max() if m else 0) + l1(w) + l1(w0) + 1))
    if not warned:
        B.ensure("without a warning the residual meets the tolerance", norm <= tol)
    else:
        B.ensure("with a warning all sweeps were used", sweeps == max_iter)
    for nm, v, o in zip(("P1", "Q", "active set", "lower bounds", "upper bounds"), (P1, Q, act, lb, ub), old):
        B.ensure_frame(nm + " unchanged", v, o)


def S_(pos, j):
    from dv.sym import S, term
    return S(pos(term(j)))
