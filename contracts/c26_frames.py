"""P26: nothing the caller passed in is modified.

Two layers.  The calls a user makes (fit, predict, score, ...) are under contract here, with the solver replaced by arbitrary
coefficients.  The functions below them that receive the caller's arrays, or views of them, are under contract elsewhere for what they
compute; the same contracts are checked here for their frame conditions alone, so that a function that writes where it should not
fails this property, too."""
import importlib
import inspect

from dv.contract import CONTRACTS, contract
from .c27_fit import run, T as FIT

WORDS = ("unchanged", "untouched")


class Frames:
    """a contract of which only the frame conditions are checked (loop invariants and run-time checks all remain)"""

    def __init__(self, B):
        self.__dict__["_B"] = B

    def __getattr__(self, k):
        f = getattr(self._B, k)
        if k == "ensure_frame":
            return lambda label, *a, **kw: f(label, *a, **kw) if any(w in label for w in WORDS) else None
        if k.startswith("ensure"):
            return lambda *a, **kw: None
        return f

    def __setattr__(self, k, v):
        setattr(self._B, k, v)


PARTS = ["c02_deviance", "c03_variance", "c04_rows", "c05_step", "c06_loglik", "c07_dispersion", "c08_objective", "c09_hessian", "c10_coordinate_descent", "c11_convergence",
         "c12_line_search", "c13_direct", "c14_standardize", "c15_penalties", "c16_path", "c17_prediction", "c18_covariance", "c19_info", "c20_score", "c22_bounds", "c23_validation", "c28_start", "c31_irls"]
for _m in PARTS:
    _mod = importlib.import_module("." + _m, __package__)
    for _c in [c for c in CONTRACTS if c.fn.__module__ == _mod.__name__]:
        _src = inspect.getsource(_c.fn)
        _calls = [f for n, f in vars(_mod).items() if inspect.isfunction(f) and f.__module__ == _mod.__name__ and f is not _c.fn and n + "(" in _src]
        if "ensure_frame" not in _src and not any("ensure_frame" in inspect.getsource(f) for f in _calls):
            continue

        def _make(fn):
            def f(B, **k):
                fn(Frames(B), **k)
            return f
        contract("P26", _c.under, _c.cases, bounded=_c.bounded, assumes=_c.assumes, name=_m[1:3] + "_" + _c.name, trials=2)(_make(_c.fn))


def unchanged(B, F, design=True):
    e, old = F.e, F.old
    for k, v in dict(y=F.y, w=F.w, o=F.o).items():
        if k in old:
            B.ensure_frame({"y": "target", "w": "weights", "o": "offset"}[k] + " unchanged", v, old[k])
    for k, nm, own, at in (("P1", "L1 penalty", F.P1, "P1"), ("P2", "L2 penalty", F.P2, "P2"), ("lb", "lower bounds", F.lb, "lower_bounds"), ("ub", "upper bounds", F.ub, "upper_bounds"),
                           ("A", "constraint matrix", F.A, "A_ineq"), ("b", "constraint right-hand side", F.b, "b_ineq"), ("start", "starting values", F.start, "start_params")):
        if k in old:
            B.ensure_frame(nm + " unchanged", own, old[k])
            B.ensure("the setting is still the caller's: " + nm, getattr(e, at) is own)
    if design:
        B.ensure_frame("design unchanged", B.A(F.X), old["X"])


OPT = [dict(intercept=i, scaled=s) for i, s in ((True, True), (True, False), (False, False))]


@contract("P26", FIT, [dict(o, store=s, copy=c) for o in OPT for s in ("array", "csr", "csc", "dense", "sparse", "split") for c in (True, None)], trials=4)
def fit_data(B, intercept, scaled, store, copy):
    unchanged(B, run(B, intercept, scaled, store=store, copy=copy))


@contract("P26", FIT, [dict(o, store=s) for o in OPT for s in ("dense", "sparse", "split")], trials=4)
def fit_data_without_copy(B, intercept, scaled, store):
    unchanged(B, run(B, intercept, scaled, store=store, copy=False), design=False)


@contract("P26", FIT, [dict(o, bounds=b, ineq=q, start=s) for o in OPT for b, q in ((True, False), (False, True), (False, False)) for s in (True, False)], trials=6)
def fit_settings(B, intercept, scaled, bounds, ineq, start):
    unchanged(B, run(B, intercept, scaled, bounds=bounds, ineq=ineq, start=start, store="array"))
