"""P29: what an estimator reports depends on the last fit only.

A history of fits enters the next fit only through the estimator's attributes.  Before the fit under contract every attribute any fit or call
can leave behind is set to an opaque object: every use of it raises, so a fit that completes has used none of them, whatever they were.
Only their presence could still matter: the fit is compared, argument by argument and attribute by attribute, with the same fit of a new
estimator.  A fit after any history is therefore that of a new estimator (by induction over the history)."""
import ast
import os

from dv.contract import contract
from .c08_objective import NS
from .c13_direct import arguments
from .c17_prediction import fitted
from .common import tame
from . import c21_cv

G = "_glm.GeneralizedLinearRegressor."
BASE = "_glm.GeneralizedLinearRegressorBase."
T = [G + "fit", BASE + "_set_up_and_check_fit_args", BASE + "_set_up_for_fit", BASE + "_get_start_coef", BASE + "_solve", BASE + "_solve_regularization_path",
     BASE + "_get_alpha_path"]
SOLVERS = ("_irls_solver", "_monotonic_irls_solver", "_tikhonov_solver", "_lbfgs_solver", "_trust_constr_solver")
# rewritten by every report that reads it (contracts of P19)
CACHES = ("_info_criteria",)


def _attributes(cls):
    """every attribute of the estimator that some method of its classes assigns"""
    from dv.load import SRC
    out, names = set(), {c.__name__ for c in cls.__mro__}
    for m in ("_glm.py", "_glm_cv.py"):
        tree = ast.parse(open(os.path.join(SRC, m)).read())
        for node in [x for c in tree.body if isinstance(c, ast.ClassDef) and c.name in names for x in ast.walk(c)]:
            if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Store) and isinstance(node.value, ast.Name) and node.value.id == "self":
                out.add(node.attr)
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "setattr" and len(node.args) == 3 and isinstance(node.args[1], ast.Constant):
                out.add(node.args[1].value)
    return sorted(out)


class StaleUse(AssertionError):
    pass


class Stale:
    """a value of which nothing is known: any use is refused"""

    def __init__(self, name):
        object.__setattr__(self, "name", name)

    def __getattribute__(self, k):
        if k in ("__class__",):
            return Stale
        raise StaleUse("uses %s of an earlier fit" % object.__getattribute__(self, "name"))


def _refuse(op):
    def f(self, *a, **k):
        raise StaleUse("uses %s of an earlier fit" % object.__getattribute__(self, "name"))
    return f


for _op in ("bool len iter getitem setitem contains call add radd sub rsub mul rmul truediv rtruediv pow rpow matmul rmatmul neg abs eq ne lt le gt ge hash float int index array "
            "array_ufunc array_function setattr delattr str repr format copy deepcopy reduce_ex enter").split():
    setattr(Stale, "__%s__" % _op, _refuse(_op))


def parameters(e):
    import inspect
    return [p for p in inspect.signature(type(e).__init__).parameters if p != "self"]


def age(e, keep=()):
    """give the estimator the attributes of any earlier fits and calls"""
    settings = set(parameters(e)) | set(keep)
    for nm in sorted(set(_attributes(type(e))) - settings):
        if not (hasattr(type(e), nm) or nm in vars(e)):
            e.__dict__[nm] = Stale(nm)


def alike(B, label, a, b, depth=0):
    """the same value"""
    if a is b or depth > 6:
        return
    if type(a).__name__ == "Names" and type(b) is type(a):  # the names are a function of the design
        B.ensure(label + ": kind of names", (a.kind, a.prefix) == (b.kind, b.prefix))
        alike(B, label, a.X, b.X, depth + 1)
        return
    if isinstance(b, (str, bytes, bool, type(None), type)) or isinstance(a, (str, bytes, bool, type(None), type)):
        B.ensure(label, type(a) is type(b) and a == b)
    elif hasattr(a, "shape") and hasattr(b, "shape"):
        x, y = a, b
        if hasattr(a, "matvec") or hasattr(a, "tocsc"):
            if type(a) is not type(b):
                B.ensure(label + ": kind of matrix", False)
                return
            if hasattr(a, "mat") and hasattr(a, "shift"):  # a standardised design
                alike(B, label + ".mat", a.mat, b.mat, depth + 1), alike(B, label + ".shift", a.shift, b.shift, depth + 1), alike(B, label + ".mult", a.mult, b.mult, depth + 1)
                return
            x, y = B.A(a), B.A(b)
        B.ensure(label + ": dimensions", len(x.shape) == len(y.shape))
        for s, t in zip(x.shape, y.shape):
            B.ensure_eq(label + ": size", s, t)
        if len(x.shape) == 1:
            B.ensure_eq_each(label, x.shape[0], lambda i: x[i], lambda i: y[i])
        elif len(x.shape) == 2:
            i = B.arbitrary("row of " + label, x.shape[0])
            B.ensure_eq_each(label, x.shape[1], lambda j: x[i, j], lambda j: y[i, j])
        else:
            B.ensure_eq(label, x, y)
    elif isinstance(a, dict):
        B.ensure(label + ": entries", isinstance(b, dict) and set(a) == set(b))
        for k in a:
            alike(B, "%s[%s]" % (label, k), a[k], b[k], depth + 1)
    elif isinstance(a, (list, tuple)):
        B.ensure(label + ": length", type(a) is type(b) and len(a) == len(b))
        for k, (u, v) in enumerate(zip(a, b)):
            alike(B, "%s[%d]" % (label, k), u, v, depth + 1)
    elif isinstance(a, (set, frozenset)):
        B.ensure(label, a == b)
    elif callable(a):
        pass  # a function: its behaviour is compared through its results
    elif isinstance(a, (int, float)) or not hasattr(a, "__dict__") or type(a).__module__.startswith("dv."):
        if type(a).__name__ in ("RandomState", "SymRng", "Generator"):
            return
        B.ensure_eq(label, a, b)
    else:
        B.ensure(label + ": kind", type(a) is type(b))
        for k in vars(a):
            if k in vars(b):
                alike(B, label + "." + k, vars(a)[k], vars(b)[k], depth + 1)


def no_trace(B, used, new):
    """after the fit nothing of the history is left, and everything is as in the new estimator"""
    for nm in sorted(vars(used)):
        if nm in CACHES or nm in parameters(used):
            continue
        v = vars(used)[nm]
        B.ensure("nothing of an earlier fit is left: " + nm, type(v) is not Stale)
        if type(v) is not Stale:
            B.ensure("set by a fit of a new estimator, too: " + nm, nm in vars(new))
            if nm in vars(new):
                alike(B, nm, v, vars(new)[nm])
    for nm in sorted(vars(new)):
        B.ensure("set by a fit of a used estimator, too: " + nm, nm in vars(used))
    for nm in parameters(used):
        B.ensure("the settings are untouched: " + nm, vars(used).get(nm) is vars(new).get(nm))


def problem(B, kind, intercept, scaled, store, start, ineq=False):
    F = NS(ineq=ineq)
    n, p = F.n, F.p = B.dim("n", lo=2), B.dim("p", lo=1)
    F.X, F.y, F.w, F.o = B.design("X", n, p, storage=store), B.vec("y", n), B.vec("w", n, "pos"), B.vec("offset", n)
    F.q = p + 1 if intercept else p
    F.P1, F.P2 = B.vec("P1", p, "nonneg"), B.vec("P2", p, "nonneg")
    F.start = B.vec("start", F.q) if start else None
    F.alphas = [B.real("alpha0", "pos"), B.real("alpha1", "pos")]
    F.l1 = B.real("l1_ratio", "unitc")
    m = B.dim("m", lo=1)
    F.A, F.b = (B.mat("A", m, p), B.vec("b", m)) if ineq else (None, None)
    F.sol = [B.vec("solution%d" % k, F.q) for k in range(2)]
    if not B.symbolic:
        tame(B, B.A(F.X), F.y, F.w, F.o, F.P1, F.P2, *F.sol, hi=1e3)
        if start:
            tame(B, F.start, hi=1e3)
        F.alphas = [min(a, 1e3) for a in F.alphas]
    B.assume(B.sum(n, lambda i: F.w[i]) > 0)
    return F


def watch_solvers(B, F):
    F.log = None

    def make(name):
        def mk(orig):
            def f(*a, **k):
                t = len([1 for x, _ in F.log if x != "path"])
                b = arguments(orig, a, k)
                F.log.append((name, {kk: B.copy(v) if hasattr(v, "shape") and not hasattr(v, "matvec") else v for kk, v in b.items()}))
                return B.copy(F.sol[min(t, 1)]), t + 1, t + 2, [{"step": t}] if name.startswith("_irls") else None
            f.__signature__ = __import__("inspect").signature(orig)
            return f
        return mk
    for s in SOLVERS:
        B.patch("_glm", s, make(s))


CASES = [dict(kind="irls-cd", intercept=i, scaled=s, search=a, start=st, store=d) for i, s in ((True, True), (True, False), (False, False)) for a in ("no", "list", "auto") for st in (True, False)
         for d in (("array", "sparse") if a == "no" else ("dense",))]
CASES += [dict(kind=k, intercept=i, scaled=i, search="no", start=st, store="dense") for k in ("auto", "irls-ls", "closed-form", "lbfgs", "trust-constr") for i in (True, False) for st in (True, False)]


@contract("P29", T, CASES + [dict(kind="irls-cd", intercept=i, scaled=s, search="no", start=False, store="dense", warm=True) for i, s in ((True, True), (True, False), (False, False))], trials=6)
def refit(B, kind, intercept, scaled, search, start, store, warm=False):
    F = problem(B, kind, intercept, scaled, store, start, kind == "trust-constr")
    if kind != "irls-cd":
        F.l1, F.P1 = 0, "identity"
    watch_solvers(B, F)
    C = B.module("_glm").GeneralizedLinearRegressor
    if search == "auto" and B.symbolic:  # any path of penalties (which one: P16); its arguments are compared
        orig = C._get_alpha_path

        def path(self, *a, **k):
            F.log.append(("path", arguments(orig, (self,) + a, k)))
            F.log[-1][1].pop("self")
            return B.copy(F.path)
        F.path = B.vec("path", 2, "pos")
        C = type("GeneralizedLinearRegressor", (C,), {"_get_alpha_path": path})

    alpha = F.alphas if search == "list" else None if search == "auto" else F.alphas[0]

    def new():
        return C(alpha=alpha, l1_ratio=F.l1, P1=F.P1, P2=F.P2, fit_intercept=intercept, family="normal", link="identity", solver=kind, scale_predictors=scaled,
                 start_params=F.start, alpha_search=search != "no", n_alphas=2, random_state=7, warm_start=warm, A_ineq=F.A, b_ineq=F.b)

    def attempt(e):
        F.log = []
        r = B.call(lambda: e.fit(F.X, F.y, sample_weight=F.w, offset=F.o))
        return r, F.log
    fresh, used = new(), new()
    keep = ()
    if warm:  # warm starting is the request to start at the last solution, and no more
        keep = ("coef_", "intercept_")
        c, b = B.vec("coef", F.p), B.real("intercept")
        if not B.symbolic:
            tame(B, c, hi=1e3)
        for e in (fresh, used):
            e.coef_, e.intercept_ = B.copy(c), b
    age(used, keep)
    r1, a1 = attempt(fresh)
    r2, a2 = attempt(used)
    B.ensure("the fit of a new estimator succeeds", r1.ok)
    if not r1.ok:
        raise r1.exc
    B.ensure("a fit uses nothing of an earlier one" + ("" if r2.ok else " (%s)" % r2.exc), r2.ok)
    if not r2.ok:
        return
    B.ensure("the same solvers are called", [x for x, _ in a1] == [x for x, _ in a2] and len(a1) >= 1)
    for t, ((nm, u), (_, v)) in enumerate(zip(a1, a2)):
        B.ensure("same arguments for the solver", set(u) == set(v))
        for k in u:
            alike(B, "%s of %s %d" % (k, nm, t), v[k], u[k])
    no_trace(B, used, fresh)


@contract("P29", c21_cv.T, [dict(L=l, intercept=i, scaled=sc, alphas=a) for l, i, sc, a in ((1, True, True, "auto"), (1, False, False, "auto"))], trials=4)
def refit_cv(B, L, intercept, scaled, alphas):
    """the same for the cross-validating estimator (two folds)"""
    def used(e):
        stubs = {k: e.__dict__.pop(k) for k in ("_get_alpha_path", "_get_start_coef", "_solve_regularization_path")}
        age(e, ("n_iter_", "_n_cycles", "diagnostics_"))  # set with every solve (contract `refit`)
        e.__dict__.update(stubs)
    F = c21_cv.run(B, 2, L, intercept, scaled, alphas=alphas, any_loss=True, used=used)
    for nm, us, vs in zip(("path", "problem", "standardisation", "coefficients", "starting values", "folds"), F.before, (F.path, F.solve, F.std, F.un, F.starts, F.cv.asked)):
        B.ensure("as many calls: " + nm, len(us) == len(vs))
        if nm not in ("coefficients",):
            for t, (u, v) in enumerate(zip(us, vs)):
                alike(B, "%s %d" % (nm, t), v, u)
        else:
            for t, (u, v) in enumerate(zip(us, vs)):
                alike(B, "%s %d" % (nm, t), v[0], u[0])
    stubs = ("_get_alpha_path", "_get_start_coef", "_solve_regularization_path")
    for e in (F.e, F.first):
        for k in stubs:
            e.__dict__.pop(k)
    no_trace(B, F.e, F.first)


@contract("P29", c21_cv.T, [dict(intercept=i, alphas=a) for i in (True, False) for a in ("auto", "given")], trials=10,
          bounded="two ratios: the chosen pair of the two fits is compared on concrete inputs only")
def refit_cv_ratios(B, intercept, alphas):
    refit_cv(B, 2, intercept, intercept, alphas)


R = [BASE + f for f in ("predict", "linear_predictor", "score", "covariance_matrix", "std_errors", "coef_table", "wald_test")] + [G + "aic", G + "aicc", G + "bic"]
REPORTS = ("predict", "linear predictor", "path", "score", "covariance", "errors", "criteria")


@contract("P29", R, [dict(report=r) for r in REPORTS], trials=10)
def reports_leave_the_fit(B, report):
    """no report changes what later reports see"""
    n, p = B.dim("n", lo=2), B.dim("p", lo=1)
    D = B.module("_distribution").NormalDistribution()
    L = B.module("_link").IdentityLink()
    X, y, w, o = B.design("X", n, p, storage="dense"), B.vec("y", n), B.vec("w", n, "pos"), B.vec("offset", n)
    if not B.symbolic:
        tame(B, B.A(X), y, w, o, hi=1e3)
    B.assume(B.sum(n, lambda i: w[i]) > 0)
    C = B.module("_glm").GeneralizedLinearRegressor
    settings = vars(C(alpha=0.0, family="normal"))
    V = B.mat("covariance", p + 1, p + 1)
    e, coef, icpt, cp, ip = fitted(B, n, p, 2, **{**settings, "alpha_search": True, "_family_instance": D, "_link_instance": L, "_num_obs": n, "covariance_matrix_": V, "_alphas": [0.5, 0.0],
                                                 "feature_names_": ["x"], "term_names_": ["x"], "_solver": "irls-ls", "fit_intercept": True, "n_iter_": 1, "diagnostics_": None})
    before = dict(vars(e))
    old = {k: B.copy(v) for k, v in before.items() if hasattr(v, "shape") and len(v.shape)}
    if report == "predict":
        r = B.call(lambda: e.predict(X, offset=o))
    elif report == "linear predictor":
        r = B.call(lambda: e.linear_predictor(X, offset=o))
    elif report == "path":
        r = B.call(lambda: e.predict(X, offset=o, alpha_index=[0, 1]))
    elif report == "score":
        r = B.call(lambda: e.score(X, y, sample_weight=w))
    elif report == "covariance":
        r = B.call(lambda: e.covariance_matrix(X, y, sample_weight=w, offset=o))
    elif report == "errors":
        r = B.call(lambda: e.std_errors(X, y, sample_weight=w, offset=o))
    else:
        r = B.call(lambda: e.bic(X, y, sample_weight=w))
    B.ensure("the report is made" + ("" if r.ok else " (%r)" % r.exc), r.ok or ((report in ("covariance", "errors") and r.raised(B.LinAlgError)) or (report == "score" and r.raised(ZeroDivisionError))))
    for k in sorted(set(before) | set(vars(e))):
        if k in CACHES:
            continue
        same = k in before and k in vars(e) and vars(e)[k] is before[k]
        B.ensure("a report keeps " + k, same)
        if same and k in old:
            B.ensure_frame("a report keeps the values of " + k, vars(e)[k], old[k])


KINDS = ("array", "frame", "other frame", "levels", "formula", "two-sided", "path")


@contract("P29", [G + "fit", BASE + "_set_up_and_check_fit_args", BASE + "_convert_from_df"], [dict(first=a, second=b) for a in KINDS + ("stale",) for b in KINDS], trials=3,
          bounded="frames and formulas go through narwhals, formulaic and tabmat: enumerated pairs of fits on random frames")
def refit_frames(B, first, second):
    import warnings
    import numpy as np
    import pandas as pd
    r = B.r
    C = B.module("_glm").GeneralizedLinearRegressor

    def data(kind):
        n = int(r.integers(30, 60))
        d = pd.DataFrame({"y": r.normal(size=n), "a": r.normal(size=n), "b": r.normal(size=n)})
        d["c"] = pd.Categorical(np.concatenate([list("xyz"), r.choice(list("xyz"), n - 3)]))
        s = dict(formula=None, alpha_search=False, alpha=0.1)
        if kind == "array":
            return s, (d[["a", "b"]].to_numpy(), d.y), d[["a", "b"]]
        if kind == "frame":
            return s, (d[["a", "c"]], d.y), d[["a", "c"]]
        if kind == "other frame":
            return s, (d[["b", "a"]], d.y), d[["b", "a"]]
        if kind == "levels":
            d["c"] = pd.Categorical(np.concatenate([list("pq"), r.choice(list("pq"), n - 2)]))
            return s, (d[["c", "b"]], d.y), d[["c", "b"]]
        if kind == "formula":
            return {**s, "formula": "a + c"}, (d, d.y), d
        if kind == "two-sided":
            return {**s, "formula": "y ~ b + a:c"}, (d, None), d
        return {**s, "alpha_search": True, "alpha": [0.3, 0.1]}, (d[["a", "c"]], d.y), d[["a", "c"]]

    def reports(e, X, y):
        return dict(names=list(e.feature_names_), terms=list(e.term_names_), coef=e.coef_, intercept=e.intercept_, prediction=e.predict(X), errors=e.std_errors(X, y, expected_information=True),
                    bic=e.bic(X, y if y is not None else X.y), levels=getattr(e, "_categorical_levels_", None), nothing=[hasattr(e, k) for k in ("X_model_spec_", "y_model_spec_", "coef_path_")])
    s2, (X2, y2), N2 = data(second)
    used, fresh = C(l1_ratio=0, scale_predictors=True, drop_first=True), C(l1_ratio=0, scale_predictors=True, drop_first=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if first == "stale":
            age(used)
        else:
            s1, (X1, y1), N1 = data(first)
            used.set_params(**s1).fit(X1, y1)
            used.predict(N1)
            if y1 is not None:
                used.covariance_matrix(X1, y1, store_covariance_matrix=True, expected_information=True)
        u = B.call(lambda: used.set_params(**s2).fit(X2, y2))
        fresh.set_params(**s2).fit(X2, y2)
        B.ensure("a fit uses nothing of an earlier one", u.ok)
        if not u.ok:
            return
        a, b = reports(fresh, N2, y2), B.call(lambda: reports(used, N2, y2))
    B.ensure("the reports are made" + ("" if b.ok else " (%r)" % b.exc), b.ok)
    if b.ok:
        for k in a:
            alike(B, k, b.value[k], a[k])
    B.ensure("no covariance of an earlier fit", used.covariance_matrix_ is None)
