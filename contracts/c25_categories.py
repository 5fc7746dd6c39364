"""P25: penalties and predictions follow the input column through the expansion of categorical columns.

Which design columns come from which input column is asked of the real design (`tabmat.from_df`), for every layout listed; penalties are arbitrary numbers."""
import itertools

from dv.contract import contract
from .c13_direct import arguments

G = "_glm.GeneralizedLinearRegressor."
BASE = "_glm.GeneralizedLinearRegressorBase."
LETTERS = "pqrstu"
KINDS = ("x", "1", "2", "3", "2m", "3u")  # numeric; levels; with a missing value; with an unused level
LAYOUTS = [t for k in (1, 2) for t in itertools.product(KINDS, repeat=k) if set(t) != {"x"} and set(t) != {"1"}] + [("x", "2", "x", "3"), ("3", "x", "2m"), ("2", "3", "2"), ("x", "3u", "3", "x")]


def frame(layout, backend="pandas", n=12, rng=None, missing=True):
    import numpy as np
    import pandas as pd
    rng = rng or np.random.default_rng(len(layout))
    cols, levels = {}, {}
    for j, k in enumerate(layout):
        nm = "c%d" % j
        if k == "x":
            cols[nm] = rng.normal(size=n)
            continue
        m = int(k[0])
        names = list(LETTERS[:m])
        v = np.array(names + list(rng.choice(names, n - m)), dtype=object)
        rng.shuffle(v)
        if "u" in k:
            names = names[:1] + ["unused"] + names[1:]
        if "m" in k and missing:
            i = int(rng.integers(n))
            if sum(x == v[i] for x in v) > 1:
                v[i] = None
            else:
                v[[t for t in range(n) if sum(x == v[t] for x in v) > 1][0]] = None
        cols[nm], levels[nm] = v, names
    if backend == "pandas":
        return pd.DataFrame({k: pd.Categorical(v, categories=levels[k]) if k in levels else v for k, v in cols.items()})
    import polars as pl
    return pl.DataFrame({k: pl.Series(list(v), dtype=pl.Enum(levels[k])) if k in levels else v for k, v in cols.items()})


def backends():
    try:
        import polars  # noqa: F401
        return ("pandas", "polars")
    except ImportError:
        return ("pandas",)


def sources(layout, backend, drop, method):
    """for every column of the real design the position of the input column it was made of"""
    import tabmat
    d = frame(layout, backend)
    X = tabmat.from_df(d, drop_first=drop, cat_missing_method=method)
    X = X if hasattr(X, "get_names") else tabmat.as_tabmat(X)
    return d, [int(t[1:]) for t in X.get_names(type="term", missing_prefix="_")]


def narwhals(B):
    import narwhals.stable.v2 as nw
    B.patch("_utils", "nw", lambda orig: nw)
    return nw


METHODS = [(d, m) for d in (False, True) for m in ("fail", "convert")]


@contract("P25", ["_utils.expand_categorical_penalties"], [dict(layout="-".join(l), backend=b) for l in LAYOUTS for b in backends()], trials=2,
          assumes="the listed layouts (columns and level counts); penalties arbitrary")
def expanded(B, layout, backend):
    kinds = tuple(layout.split("-"))
    nw = narwhals(B)
    expand = B.fn("_utils", "expand_categorical_penalties")
    for drop, method in METHODS:
        if method == "fail" and "m" in layout:
            continue
        d, src = sources(kinds, backend, drop, method)
        X = nw.from_native(d)
        missing = {c: method == "convert" and bool(X[c].is_null().any()) for c, k in zip(X.columns, kinds) if k != "x"}
        tag = " (drop_first=%s, %s)" % (drop, method)
        for form in ("array", "list"):
            v = [B.real("P%d%s%s%s" % (j, form, drop, method), "nonneg") for j in range(len(kinds))]
            arg = list(v) if form == "list" else B.np.array(v)
            r = B.call(lambda: expand(arg, X, drop, missing))
            B.ensure("a penalty per input column is accepted" + tag, r.ok)
            if r.ok:
                B.ensure("one entry for every design column" + tag, len(r.value) == len(src))
                for k, j in enumerate(src):
                    B.ensure_eq("the penalty of the input column" + tag, r.value[k], v[j])
        q = len(src)
        if q != len(kinds):
            w = B.np.array([B.real("Q%d%s%s" % (j, drop, method), "nonneg") for j in range(q)]) if q else None
            if w is not None:
                r = B.call(lambda: expand(w, X, drop, missing))
                B.ensure("a penalty per design column is accepted" + tag, r.ok and len(r.value) == q)
                for k in range(q):
                    B.ensure_eq("a penalty per design column is kept" + tag, r.value[k], w[k])
            m = B.np.array([[B.real("M%d_%d%s%s" % (i, j, drop, method)) for j in range(len(kinds))] for i in range(len(kinds))])
            r = B.call(lambda: expand(m, X, drop, missing))
            B.ensure("a matrix for the input columns is an error" + tag, r.raised(ValueError))
        for nothing in ("identity", None):
            r = B.call(lambda: expand(nothing, X, drop, missing))
            B.ensure("the default is kept" + tag, r.ok and (r.value is None if nothing is None else r.value == nothing))


@contract("P25", [G + "fit", BASE + "_set_up_and_check_fit_args", "_utils.expand_categorical_penalties"], [dict(layout="-".join(l), backend=b) for l in LAYOUTS for b in backends()], trials=2,
          bounded="real frames through narwhals and tabmat: enumerated layouts, drawn numbers")
def penalties_at_the_solver(B, layout, backend):
    import numpy as np
    kinds = tuple(layout.split("-"))
    for drop, method in METHODS:
        if method == "fail" and "m" in layout:
            continue
        d, src = sources(kinds, backend, drop, method)
        if not src or len(src) == 0:
            continue
        P1, P2 = B.r.uniform(0.1, 2, len(kinds)), B.r.uniform(0.1, 2, len(kinds))
        for given in (True, False):
            e = B.module("_glm").GeneralizedLinearRegressor(alpha=1.0, l1_ratio=0.25, P1=P1 if given else None, P2=P2 if given else None, drop_first=drop, cat_missing_method=method,
                                                            scale_predictors=True, solver="irls-cd")
            got = {}
            orig = e._solve

            def solve(*a, **k):
                got.update(arguments(orig, a, k))
                return np.zeros(len(src) + 1)
            e._solve = solve
            keep = P1.copy(), P2.copy()
            r = B.call(lambda: e.fit(d, B.r.normal(size=len(d))))
            B.ensure("the fit succeeds" + ("" if r.ok else " (%r)" % r.exc), r.ok)
            if r.ok:
                for k, j in enumerate(src):
                    B.ensure_eq("L1 weight of the input column", got["P1"][k], 0.25 * (P1[j] if given else 1))
                    B.ensure_eq("L2 weight of the input column", got["P2"][k], 0.75 * (P2[j] if given else 1))
            B.ensure("the given penalties are untouched", np.array_equal(P1, keep[0]) and np.array_equal(P2, keep[1]))


CHANGES = ("same", "reordered", "fewer levels", "text", "more levels", "unseen")


def to_native(d, kind):
    import pandas as pd
    if kind == "pandas":
        return d
    cats = [c for c in d.columns if isinstance(d[c].dtype, pd.CategoricalDtype)]
    if kind == "ordered":
        return d.assign(**{c: d[c].cat.as_ordered() for c in cats})
    import polars as pl
    none = lambda v: [None if pd.isna(x) else x for x in v]
    return pl.DataFrame({c: pl.Series(none(d[c]), dtype=pl.Enum(list(d[c].cat.categories))) if c in cats else pl.Series(none(d[c])) for c in d.columns})


@contract("P25", [BASE + "_convert_from_df", BASE + "linear_predictor", "_utils.align_df_categories", "_utils.add_missing_categories"],
          [dict(layout="-".join(l), change=c, kind=k) for l in LAYOUTS for c in CHANGES for k in ("pandas", "ordered") + backends()[1:]], trials=2, bounded="real frames through narwhals and tabmat: enumerated layouts and changes, drawn numbers")
def levels_keep_their_coefficients(B, layout, change, kind):
    import numpy as np
    import pandas as pd
    kinds = tuple(layout.split("-"))
    for drop, method in METHODS + [(d, "zero") for d in (False, True)]:
        if method == "fail" and "m" in layout:
            continue
        d = frame(kinds)
        e = B.module("_glm").GeneralizedLinearRegressor(alpha=1.0, l1_ratio=0.25, drop_first=drop, cat_missing_method=method, solver="irls-cd")
        e._solve = lambda *a, **k: np.zeros(k["X"].shape[1] + 1)
        import tabmat
        X = tabmat.as_tabmat(tabmat.from_df(to_native(d, kind), drop_first=drop, cat_missing_method=method))
        if X.shape[1] == 0:
            continue
        r = B.call(lambda: e.fit(to_native(d, kind), B.r.normal(size=len(d))))
        B.ensure("the fit succeeds", r.ok)
        if not r.ok:
            return
        beta = {nm: v for nm, v in zip(e.feature_names_, B.r.normal(size=len(e.feature_names_)))}
        e.coef_, e.intercept_ = np.array([beta[nm] for nm in e.feature_names_]), 0.5
        new = frame(kinds, "pandas", 9, B.r, missing=method != "fail")
        if change == "fewer levels":
            new = new.iloc[:4].reset_index(drop=True)
        want, unseen = np.full(len(new), 0.5), False
        for nm, k in zip(new.columns, kinds):
            if k == "x":
                want += new[nm].to_numpy() * beta[nm]
                continue
            v = np.array([None if pd.isna(x) else x for x in new[nm]], dtype=object)
            cats = list(d[nm].cat.categories)
            if change == "reordered":
                new[nm] = pd.Categorical(v, categories=list(B.r.permutation(cats)))
            elif change == "fewer levels":
                new[nm] = pd.Categorical(v, categories=sorted({x for x in v if x is not None}, reverse=True))
            elif change == "text":
                new[nm] = pd.Series(v, dtype=object)
            elif change == "more levels":
                new[nm] = pd.Categorical(v, categories=["never"] + cats)
            elif change == "unseen":
                v[int(B.r.integers(len(v)))] = "new"
                new[nm] = pd.Categorical(v, categories=["new"] + cats)
                unseen = True
            if not unseen:
                for i, x in enumerate(v):
                    want[i] += beta.get("%s[%s]" % (nm, x if x is not None else "(MISSING)"), 0.0)
        new_ = to_native(new, kind)
        kept = new_.copy() if kind != "polars" else new_.clone()
        r = B.call(lambda: e.linear_predictor(new_))
        tag = " (drop_first=%s, %s)" % (drop, method)
        missing_new = method == "convert" and any(k != "x" and new[nm].isna().any() and not d[nm].isna().any() for nm, k in zip(new.columns, kinds))
        if unseen or missing_new:
            B.ensure("a level without coefficient is an error" + tag, r.raised(ValueError) if kind != "polars" else not r.ok)
        else:
            B.ensure("a prediction" + tag + ("" if r.ok else " (%r)" % r.exc), r.ok)
            if r.ok:
                B.ensure_eq_each("every level has the coefficient it was fitted for" + tag, len(new), lambda i: r.value[i], lambda i: want[i])
        B.ensure("the frame is untouched", new_.equals(kept))
