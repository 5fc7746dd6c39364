"""The contract language.  One contract is a function of `B`; it states inputs with
preconditions, calls the real function and states postconditions.  It is run

* symbolically (SymB): every postcondition becomes a proof obligation, for all inputs,
  all array lengths and all iterations, on every path of the real code;
* concretely (ConB) on the compiled code: cross-check of the models, search for a
  failing input when an obligation is not discharged, and bounded stand-in."""
import math
import sys
import traceback
import numpy as _np
from . import terms as tm
from .terms import T, R, I, B as BOOL
from .sym import S, CTX, Unsupported, Infeasible, PathDone, term, wrap, explore
from . import symnp as snp
from .symnp import Arr, I0, I1, dim, ext
from . import load as _load
from . import models
from .prove import Prover

CONTRACTS = []


class Contract:
    def __init__(self, prop, name, fn, cases, under, bounded, assumes, trials):
        self.prop, self.name, self.fn, self.cases = prop, name, fn, cases
        self.under, self.bounded, self.assumes, self.trials = under, bounded, assumes, trials

    def case_name(self, k):
        c = self.cases[k]
        return self.name + ("[" + ",".join(str(v) for v in c.values()) + "]" if c else "")


def contract(prop, under=(), cases=None, bounded=False, assumes=(), name=None, trials=None):
    """prop: property id; under: functions this contract covers ('module.function');
    bounded: reason why this contract is only checked on bounded inputs (never counted as proved)."""
    def deco(fn):
        c = Contract(prop, name or fn.__name__, fn, list(cases) if cases is not None else [{}],
                     [under] if isinstance(under, str) else list(under), bounded, list(assumes), trials)
        CONTRACTS.append(c)
        fn.contract = c
        return fn
    return deco


# kind -> (fact on a term, sampler(rng, style))
def _rat(x):
    return tm.num(x)


KINDS = {
    "real": (None, lambda r, s: s.real(r)),
    "pos": (lambda v: tm.lt(tm.ZERO, v), lambda r, s: s.pos(r)),
    "nonneg": (lambda v: tm.le(tm.ZERO, v), lambda r, s: s.nonneg(r)),
    "neg": (lambda v: tm.lt(v, tm.ZERO), lambda r, s: -s.pos(r)),
    "unit": (lambda v: tm.and_(tm.lt(tm.ZERO, v), tm.lt(v, tm.ONE)), lambda r, s: s.unit(r)),
    "unitc": (lambda v: tm.and_(tm.le(tm.ZERO, v), tm.le(v, tm.ONE)), lambda r, s: s.unitc(r)),
}


class Style:
    """how concrete inputs are drawn; several styles are cycled through"""

    def __init__(self, k, specials=()):
        self.k = k
        self.specials = [x for x in specials if math.isfinite(x)]
        self.spread = [1.0, 3.0, 0.3, 1.0, 8.0][k % 5]
        self.integer = k % 7 == 3
        self.zero = [0.0, 0.15, 0.0, 0.5][k % 4]
        self.const = k % 11 == 7
        self.nmax = [6, 3, 12, 2, 9, 40][k % 6]

    def special(self, r):
        if self.specials and r.random() < 0.3:
            c = self.specials[r.integers(len(self.specials))]
            u = r.random()
            if u < 0.25:
                return c
            if u < 0.5:
                return c * (1 + 1e-3 * r.standard_normal())
            if u < 0.75:
                return c + r.standard_normal()
            return c * math.exp(r.standard_normal())
        return None

    def real(self, r):
        x = self.special(r)
        if x is not None:
            return float(x if r.random() < 0.7 else -x)
        if r.random() < self.zero:
            return 0.0
        if self.integer:
            return float(r.integers(-3, 4))
        return float(r.standard_normal() * self.spread)

    def pos(self, r):
        x = self.special(r)
        if x is not None and x != 0:
            return abs(float(x))
        if self.integer:
            return float(r.integers(1, 6))
        return float(math.exp(min(self.spread, 2.5) * r.standard_normal()))

    def nonneg(self, r):
        return 0.0 if r.random() < self.zero else self.pos(r)

    def unit(self, r):
        x = self.special(r)
        if x is not None and 0 < x < 1:
            return float(x)
        return float(1 / (1 + math.exp(-self.spread * r.standard_normal())))

    def unitc(self, r):
        if self.integer or r.random() < self.zero:
            return float(r.integers(0, 2))
        return self.unit(r)


class Reject(Exception):
    """the drawn input is outside the precondition"""


class Fail(Exception):
    def __init__(self, label, msg):
        super().__init__(f"{label}: {msg}")
        self.label, self.msg = label, msg


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


# ====================================================================== symbolic
class _range:
    """inside a bound-variable body the variable's range is known"""

    def __init__(self, b, lo, hi):
        self.c = [tm.le(lo, b), tm.lt(b, hi)]

    def __enter__(self):
        self.n = len(CTX.path)
        CTX.path.extend(self.c)

    def __exit__(self, *a):
        del CTX.path[self.n:self.n + 2]


class SymB:
    symbolic = True

    def __init__(self):
        self.np = snp
        self.special = snp.special
        self.loader = _load.loader()
        self.tab = self.loader.models["tabmat"]
        self.sparse = self.loader.models["scipy.sparse"]
        self.linalg = self.loader.models["scipy.linalg"]
        self.stats = self.loader.models["scipy.stats"]
        self.LinAlgError = models.LinAlgError

    # inputs
    def dim(self, name, lo=1, hi=None):
        v = tm.var(name, I)
        CTX.assume(tm.le(tm.num(lo, I), v))
        if hi is not None:
            CTX.assume(tm.le(v, tm.num(hi, I)))
        return S(v)

    def real(self, name, kind="real", lo=None, hi=None):
        v = tm.var(name, R)
        f = KINDS[kind][0]
        if f:
            CTX.assume(f(v))
        if lo is not None:
            CTX.assume(tm.le(tm.num(lo), v))
        if hi is not None:
            CTX.assume(tm.le(v, tm.num(hi)))
        return S(v)

    def integer(self, name, lo=None, hi=None):
        v = tm.var(name, I)
        if lo is not None:
            CTX.assume(tm.le(term(lo), v))
        if hi is not None:
            CTX.assume(tm.lt(v, term(hi)))
        return S(v)

    def boolean(self, name):
        return bool(CTX.choose(2, name))

    def choice(self, name, options):
        options = list(options)
        return options[CTX.choose(len(options), name)]

    def _fact(self, kind, where):
        f = KINDS[kind][0]
        if f is None and where is None:
            return None

        def fact(v, *idx):
            c = [] if f is None else [f(v)]
            if where is not None:
                c.append(term(where(S(v), *[S(i) for i in idx])))
            return tm.and_(*c)
        return fact

    def vec(self, name, n, kind="real", where=None, dtype=None):
        return Arr.symbol(name, [n], R, self._fact(kind, where))

    def mat(self, name, n, p, kind="real", where=None, sym=False):
        if sym:
            tm.SYMM.add(name)
        return Arr.symbol(name, [n, p], R, self._fact(kind, where))

    def ivec(self, name, n, lo, hi, where=None):
        def fact(v, *idx):
            c = [tm.le(term(lo), v), tm.lt(v, term(hi))]
            if where is not None:
                c.append(term(where(S(v), *[S(i) for i in idx])))
            return tm.and_(*c)
        return Arr.symbol(name, [n], I, fact)

    def bvec(self, name, n):
        return Arr.symbol(name, [n], BOOL)

    def design(self, name, n, p, kind="real", storage=None):
        M = self.mat(name, n, p, kind)
        if storage == "array":
            return M
        if storage in ("csr", "csc", "coo"):
            return models.SymSparse(M, storage)
        return models.SplitMatrix(M) if storage == "split" else models.Design(M, storage)

    def A(self, X):
        if isinstance(X, models.SymSparse):
            return X.arr
        return X.arr if isinstance(X, models.Design) else X

    def sparse_mat(self, arr, fmt="csc"):
        return models.SymSparse(arr.copy(), fmt)

    def diag_sparse(self, v, fmt="csc"):
        return models.SymSparse(snp.diag(v), fmt, v.copy())

    def rng(self, name="rng"):
        return models.SymRng()

    def array(self, xs):
        return snp.array(xs)

    def zeros(self, *shape):
        return snp.zeros(shape)

    # logic
    def assume(self, c):
        if isinstance(c, Arr):
            c = snp.all(c)
        t = term(c)
        if t is tm.TRUE:
            return
        if t is tm.FALSE:
            raise Infeasible
        CTX.assume_path(t)

    def _b(self, c):
        if isinstance(c, Arr):
            c = snp.all(c)
        t = term(c)
        return t if t.sort == BOOL else tm.not_(tm.eq(t, tm.num(0, t.sort)))

    def and_(self, *cs):
        return wrap(tm.and_(*[self._b(c) for c in cs]))

    def or_(self, *cs):
        return wrap(tm.or_(*[self._b(c) for c in cs]))

    def not_(self, c):
        return wrap(tm.not_(self._b(c)))

    def implies(self, a, b):
        return wrap(tm.implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        return wrap(tm.iff(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        a, b = tm.unify(term(a), term(b))
        return S(tm.ite(self._b(c), a, b))

    def _n(self, n):
        return term(n)

    def forall(self, n, f, lo=0):
        b = tm.fresh("q", I)
        with _range(b, term(lo), term(n)):
            v = self._b(f(S(b)))
        return wrap(tm.forall(term(lo), term(n), b, v))

    def exists(self, n, f, lo=0):
        b = tm.fresh("q", I)
        with _range(b, term(lo), term(n)):
            v = self._b(f(S(b)))
        return wrap(tm.exists(term(lo), term(n), b, v))

    def sum(self, n, f, lo=0):
        b = tm.fresh("s", I)
        with _range(b, term(lo), term(n)):
            v = term(f(S(b)))
        return S(tm.sum_(term(lo), term(n), b, v))

    def merge(self, fname):
        CTX.merge.add(fname)

    def total(self, f):
        """value of f() as a total expression: indices are not obliged to be in range"""
        with _load._SpecCtx():
            return f()

    def contains(self, arr, v):
        """some element of the index array equals v"""
        return wrap(arr.contains(term(v)))

    def active_set(self, name, p, off):
        """increasing array of coefficient positions out of range(p + off), position 0 included when off == 1"""
        n = self.dim("n_" + name, lo=off)
        self.assume(n <= p + off)
        a = self.ivec(name, n, off, p + off) if not off else self.ivec(name, n, 0, p + off, where=lambda v, k: self.and_(self.iff(k == 0, v == 0), v >= k))
        nt = term(n)
        CTX.facts[("pair", name)] = lambda k, l: [tm.implies(tm.and_(tm.le(I0, k), tm.lt(k, l), tm.lt(l, nt)),
                                                             tm.lt(tm.sel(name, k, sort=I), tm.sel(name, l, sort=I)))]
        # membership predicate and inverse (position of a member); the array is injective
        mem, pos = "in_" + name, "pos_" + name
        tm.INVERSE[pos] = name
        tm.INJECTIVE.add(name)
        tm.MEMBER[mem] = (name, nt)
        old = CTX.facts[name]

        def elem(k):
            # (unrewritten terms: congruence for indices equal to an element)
            v = tm.sel(name, k, sort=I)
            return old(k) + [tm.iff(tm.and_(tm.le(I0, k), tm.lt(k, nt)), T("sel", (mem, v), BOOL)), T("eq", (T("sel", (pos, v), I), k), BOOL)]
        CTX.facts[name] = elem

        def inside(j):
            x = tm.sel(pos, j, sort=I)
            return [tm.implies(tm.sel(mem, j, sort=BOOL), tm.and_(tm.le(I0, x), tm.lt(x, nt), tm.eq(tm.sel(name, x, sort=I), j)))]
        CTX.facts[mem] = inside
        a.with_members(lambda j: tm.sel(mem, j, sort=BOOL))
        a.with_inverse(lambda j: tm.sel(pos, j, sort=I))
        return a

    def exp(self, x):
        return snp.exp(x)

    def log(self, x):
        return snp.log(x)

    def sqrt(self, x):
        return snp.sqrt(x)

    def lgamma(self, x):
        return snp.special.gammaln(x)

    def where(self, c, a, b):
        return snp.where(c, a, b)

    def tab_arr(self, f, *shape):
        """array with given element function"""
        n = [term(s) for s in shape]

        def el(*i):
            m = len(CTX.path)
            for k, d in zip(i, n):
                CTX.path.extend([tm.le(I0, k), tm.lt(k, d)])
            try:
                return term(f(*[S(k) for k in i]))
            finally:
                del CTX.path[m:]
        return Arr.make(el, n)

    def copy(self, a):
        return a.copy() if hasattr(a, "copy") else a

    # obligations
    def ensure(self, label, c, kind="ensures", **k):
        CTX.oblige(label, self._b(c), kind)

    def ensure_eq(self, label, a, b, kind="ensures", **k):
        if isinstance(a, (models.SymSparse, models.Design)):
            a = a.arr
        if isinstance(b, (models.SymSparse, models.Design)):
            b = b.arr
        if isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)):
            a = snp.array(a)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            CTX.oblige(label, tm.bconst(a is b or a == b), kind)
            return
        if not isinstance(a, Arr) and not isinstance(b, Arr):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, float) and not math.isfinite(x):
                    CTX.oblige(label, tm.bconst(type(y) is not S and (x == y)), kind)
                    return
            CTX.oblige(label, tm.eq(*tm.unify(term(a), term(b))), kind)
            return
        a, b = snp.asarray(a), snp.asarray(b)
        if a.ndim != b.ndim:
            if a.ndim == 0 or b.ndim == 0:
                pass
            CTX.oblige(label + " (rank)", tm.FALSE, kind)
            return
        for k_, (x, y) in enumerate(zip(a._shape, b._shape)):
            if x is not y:
                CTX.oblige(f"{label} (length of axis {k_})", tm.eq(x, y), kind)
        idx = [tm.fresh("e", I) for _ in range(a.ndim)]
        rng = [c for i, d in zip(idx, a._shape) for c in (tm.le(I0, i), tm.lt(i, d))]
        n = len(CTX.path)
        CTX.path.extend(rng)
        try:
            if isinstance(a, snp.Masked) or isinstance(b, snp.Masked):
                raise Unsupported("comparison of masked arrays")
            x, y = tm.unify(a.elem(*idx), b.elem(*idx))
            CTX.oblige(label, tm.eq(x, y), kind)
        finally:
            del CTX.path[n:]

    def ensure_le(self, label, a, b, **k):
        a, b = (snp.asarray(a) if isinstance(a, Arr) else a), b
        c = a <= b
        self.ensure_all(label, c) if isinstance(c, Arr) else self.ensure(label, c)

    def ensure_all(self, label, arr, kind="ensures"):
        """every element of a boolean array"""
        if not isinstance(arr, Arr):
            return self.ensure(label, arr, kind)
        idx = [tm.fresh("e", I) for _ in range(arr.ndim)]
        rng = [c for i, d in zip(idx, arr._shape) for c in (tm.le(I0, i), tm.lt(i, d))]
        n = len(CTX.path)
        CTX.path.extend(rng)
        CTX.oblige(label, arr.elem(*idx), kind)
        del CTX.path[n:]

    def ensure_each(self, label, n, f, lo=0, kind="ensures"):
        """f(i) for every lo <= i < n"""
        i = tm.fresh("e", I)
        m = len(CTX.path)
        CTX.path.extend([tm.le(term(lo), i), tm.lt(i, term(n))])
        CTX.oblige(label, self._b(f(S(i))), kind)
        del CTX.path[m:]

    def ensure_eq_each(self, label, n, f, g, lo=0, **k):
        i = tm.fresh("e", I)
        m = len(CTX.path)
        CTX.path.extend([tm.le(term(lo), i), tm.lt(i, term(n))])
        CTX.oblige(label, tm.eq(*tm.unify(term(f(S(i))), term(g(S(i))))), "ensures")
        del CTX.path[m:]

    def arbitrary(self, name, n):
        """an arbitrary index 0 <= i < n (for pointwise statements)"""
        i = tm.var(name, I)
        CTX.assume_path(tm.le(I0, i))
        CTX.assume_path(tm.lt(i, term(n)))
        return S(i)

    def ensure_frame(self, label, a, old, **k):
        self.ensure_eq(label, a, old, kind="frame")

    def ensure_deriv(self, label, f, x, df, **k):
        """d f / d x at x equals df; x a free real variable of the contract"""
        v = x.t
        t = term(f(x))
        d = tm.diff(t, v)
        CTX.oblige(label, tm.eq(d, term(df)), "ensures")

    def ensure_min_at(self, label, f, x, x0, pos=False):
        """f(x) >= f(x0) = 0 for all x of the interval, by the mean value theorem: f(x0) = 0 and (x - x0) f'(x) >= 0.
        x: a free real of the contract ranging over an interval (pos: the positive reals); when x0 is the
        boundary point 0 of that interval, f(x) >= 0 is asked for directly."""
        v = x.t
        t = term(f(x))
        d = tm.diff(t, v)
        n = len(CTX.path)
        x0 = term(x0)
        if pos:
            CTX.path.append(tm.lt(tm.ZERO, x0))
        CTX.oblige(label + ": zero", tm.eq(tm.subst(t, {v: x0}), tm.ZERO), "ensures")
        CTX.oblige(label + ": slope", tm.le(tm.ZERO, tm.mul(tm.sub(v, x0), d)), "ensures")
        del CTX.path[n:]
        if pos:
            CTX.path.append(tm.le(x0, tm.ZERO))
            CTX.oblige(label + ": boundary", tm.le(tm.ZERO, t), "ensures")
            del CTX.path[n:]

    def lemma(self, label, c):
        """proved, then available as an assumption"""
        t = self._b(c)
        CTX.oblige(label, t, "lemma")
        CTX.assume_path(t)

    # code
    def module(self, name):
        return self.loader.module(name)

    def fn(self, mod, name):
        m = self.loader.module(mod)
        if not hasattr(m, name):
            raise Unsupported(f"{mod}.{name} no longer exists")
        return getattr(m, name)

    def stub(self, mod, name, f):
        """callers are checked against this contract of mod.name, not its body (symbolic run only)"""
        self.loader.patch(mod, name, f)

    def patch(self, mod, name, make):
        """replace mod.name by make(original) for this run (symbolic and concrete)"""
        self.loader.patch(mod, name, make(getattr(self.loader.module(mod), name)))

    def loop(self, fname, k, spec):
        CTX.loops[(fname, k)] = spec

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except (Unsupported, RecursionError):
            raise
        except Exception as e:
            if _engine_error(e):
                raise Unsupported(f"{type(e).__name__}: {e} (inside the verifier)") from e
            return Outcome(exc=e)

    def partial(self, obj):
        pass

    def calls(self, name):
        return [e[2] for e in CTX.events if e[0] == "call" and e[1] == name]

    def warnings(self):
        return [e[1] for e in CTX.events if e[0] == "warn"]

    def fresh_real(self, name):
        return S(tm.fresh(name, R))

    def fresh_vec(self, name, n):
        return Arr.symbol(tm.fresh(name).args[0], [n])

    def ensure_solves(self, label, x, A, b, **k):
        """x was produced by the linear solver for the system A x = b."""
        s = getattr(x.buf, "solves", None) if isinstance(x, Arr) else None
        if s is None:
            CTX.oblige(label + " (returned by a linear solve)", tm.FALSE)
            return
        self.ensure_eq(label + " (matrix)", s[0], A)
        self.ensure_eq(label + " (right-hand side)", s[1], b)


def _engine_error(e):
    """did the exception originate in the verifier's own code rather than in a raise of the code under proof
    (or of a documented library error in a model)?"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename
    if fn.startswith("<repo:"):
        # TypeError/AttributeError/NotImplementedError out of proxies
        return isinstance(e, (AttributeError, NameError)) or (
            isinstance(e, TypeError) and any(w in str(e) for w in ("Arr", "'S'", "Design", "SymSparse", "Missing", "unexpected keyword argument", "positional argument")))
    if isinstance(e, (ValueError, IndexError, models.LinAlgError, ZeroDivisionError)) and ("/dv/symnp" in fn or "/dv/models" in fn or "/dv/load" in fn):
        return False
    return True


# ====================================================================== concrete
class ConB:
    symbolic = False

    def __init__(self, rng, style, given=None):
        self.partials = []
        from . import real
        real.load()
        import scipy.special, scipy.sparse, scipy.linalg, scipy.stats, tabmat
        self.np = _np
        self.special = scipy.special
        self.sparse = scipy.sparse
        self.linalg = scipy.linalg
        self.stats = scipy.stats
        self.LinAlgError = scipy.linalg.LinAlgError
        self.tab = tabmat
        self.r, self.s = rng, style
        self.inputs = {}
        self.checked = 0
        self.given = given or {}
        self.labels = {}
        self.undo = []

    def dim(self, name, lo=1, hi=None):
        hi_ = max(lo + 1, self.s.nmax) if hi is None else hi
        v = int(self.r.integers(lo, hi_ + 1))
        self.inputs[name] = v
        return v

    def _num(self, kind, lo=None, hi=None):
        for _ in range(200):
            v = KINDS[kind][1](self.r, self.s)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        if lo is not None and hi is not None:
            return float(self.r.uniform(lo, hi))
        raise Reject

    def real(self, name, kind="real", lo=None, hi=None):
        v = self._num(kind, lo, hi)
        self.inputs[name] = v
        return v

    def integer(self, name, lo=None, hi=None):
        lo = -5 if lo is None else lo
        hi = lo + 10 if hi is None else hi
        if hi <= lo:
            raise Reject
        v = int(self.r.integers(lo, hi))
        self.inputs[name] = v
        return v

    def boolean(self, name):
        v = bool(self.r.integers(2))
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        k = int(self.r.integers(len(options)))
        self.inputs[name] = options[k]
        return options[k]

    def vec(self, name, n, kind="real", where=None, dtype=None):
        if self.s.const and n:
            x0 = self._num(kind)
            v = _np.full(n, x0)
        else:
            v = _np.array([self._num(kind) for _ in range(n)], dtype=float)
        if where is not None:
            for i in range(n):
                for _ in range(60):
                    if bool(where(float(v[i]), i)):
                        break
                    v[i] = self._num(kind)
                else:
                    raise Reject
        self.inputs[name] = v.copy()
        return v

    def mat(self, name, n, p, kind="real", where=None, sym=False):
        v = _np.array([[self._num(kind) for _ in range(p)] for _ in range(n)], dtype=float).reshape(n, p)
        if sym:
            v = (v + v.T) / 2
        self.inputs[name] = v.copy()
        return v

    def ivec(self, name, n, lo, hi, where=None):
        if hi <= lo and n:
            raise Reject
        v = _np.array([self.r.integers(lo, hi) for _ in range(n)], dtype=_np.int32)
        self.inputs[name] = v.copy()
        return v

    def bvec(self, name, n):
        v = _np.array([bool(self.r.integers(2)) for _ in range(n)], dtype=bool)
        self.inputs[name] = v.copy()
        return v

    def design(self, name, n, p, kind="real", storage=None):
        A = _np.asfortranarray(self.mat(name, n, p, kind))
        k = storage or ["dense", "sparse", "split"][self.r.integers(3)]
        if k == "split" and p < 2:
            k = "dense"
        self.inputs[name + ".storage"] = k
        if k == "array":
            return A
        if k in ("csr", "csc", "coo"):
            return self.sparse.csc_matrix(A).asformat(k)
        if k == "dense":
            return self.tab.DenseMatrix(A)
        if k == "sparse":
            return self.tab.SparseMatrix(self.sparse.csc_matrix(A))
        h = p // 2
        return self.tab.SplitMatrix([self.tab.DenseMatrix(_np.asfortranarray(A[:, :h])), self.tab.SparseMatrix(self.sparse.csc_matrix(A[:, h:]))])

    def A(self, X):
        if self.sparse.issparse(X):
            return X.toarray()
        if isinstance(X, self.tab.StandardizedMatrix):
            a = X.mat.toarray()
            return (a if X.mult is None else a * _np.asarray(X.mult)[None, :]) + _np.asarray(X.shift)[None, :]
        return X.toarray() if hasattr(X, "toarray") else X

    def sparse_mat(self, arr, fmt="csc"):
        return self.sparse.csc_matrix(arr).asformat(fmt)

    def diag_sparse(self, v, fmt="csc"):
        return self.sparse.diags(v).asformat(fmt)

    def rng(self, name="rng"):
        seed = int(self.r.integers(2**31))
        self.inputs[name] = seed
        return _np.random.RandomState(seed)

    def array(self, xs):
        return _np.array(xs)

    def zeros(self, *shape):
        return _np.zeros(shape)

    def assume(self, c):
        if not bool(_np.all(c)):
            raise Reject

    def and_(self, *cs):
        return all(bool(_np.all(c)) for c in cs)

    def or_(self, *cs):
        return any(bool(_np.all(c)) for c in cs)

    def not_(self, c):
        return not bool(_np.all(c))

    def implies(self, a, b):
        return (not bool(_np.all(a))) or bool(_np.all(b))

    def iff(self, a, b):
        return bool(_np.all(a)) == bool(_np.all(b))

    def ite(self, c, a, b):
        return a if c else b

    def forall(self, n, f, lo=0):
        return all(bool(f(i)) for i in range(lo, n))

    def exists(self, n, f, lo=0):
        return any(bool(f(i)) for i in range(lo, n))

    def sum(self, n, f, lo=0):
        return math.fsum(f(i) for i in range(lo, n)) if n > lo else 0.0

    def contains(self, arr, v):
        return bool((_np.asarray(arr) == v).any())

    def active_set(self, name, p, off):
        v = [k for k in range(p + off) if (off and k == 0) or self.r.integers(3)]
        v = _np.array(v, dtype=_np.int32)
        self.inputs[name] = v.copy()
        return v

    def exp(self, x):
        return _np.exp(x)

    def log(self, x):
        return _np.log(x)

    def sqrt(self, x):
        return _np.sqrt(x)

    def lgamma(self, x):
        return self.special.gammaln(x)

    def where(self, c, a, b):
        return _np.where(c, a, b)

    def tab_arr(self, f, *shape):
        out = _np.empty(shape)
        for i in _np.ndindex(*shape):
            out[i] = f(*i)
        return out

    def copy(self, a):
        import copy as _c
        return _c.deepcopy(a)

    def _count(self, label):
        self.checked += 1
        self.labels[label] = self.labels.get(label, 0) + 1

    def ensure(self, label, c, kind="ensures", **k):
        self._count(label)
        if not bool(_np.all(c)):
            raise Fail(label, "is false")

    def ensure_eq(self, label, a, b, rtol=1e-6, atol=1e-8, scale=0.0, kind="ensures", **k):
        self._count(label)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (a is b or a == b):
                raise Fail(label, f"{a!r} != {b!r}")
            return
        a, b = [x.toarray() if self.sparse.issparse(x) else (self.A(x) if hasattr(x, "toarray") and not isinstance(x, _np.ndarray) else x) for x in (a, b)]
        a, b = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
        if a.shape != b.shape:
            raise Fail(label, f"shape {a.shape} != {b.shape}")
        fin = _np.isfinite(b)
        ok = _np.abs(a - b) <= atol + rtol * _np.maximum(_np.maximum(_np.abs(a), _np.abs(b)), _np.abs(scale))
        ok = _np.where(fin, ok, (a == b) | (_np.isnan(b)))
        if not _np.all(ok):
            w = tuple(int(z[0]) for z in _np.nonzero(~ok)) if a.ndim else ()
            raise Fail(label, f"at {w}: got {a[w]!r}, specified {b[w]!r}")

    def ensure_le(self, label, a, b, slack=1e-9, **k):
        self._count(label)
        a, b = _np.asarray(a, dtype=float), _np.asarray(b, dtype=float)
        bad = ~(a <= b + slack * (1 + _np.abs(a) + _np.abs(b)))
        bad &= ~(_np.isnan(a) | _np.isnan(b)) | _np.isnan(a)
        if _np.any(bad):
            raise Fail(label, f"{a!r} <= {b!r} is false")

    def ensure_all(self, label, arr, kind="ensures"):
        self.ensure(label, _np.all(arr))

    def ensure_each(self, label, n, f, lo=0, kind="ensures"):
        self._count(label)
        for i in range(lo, n):
            if not bool(_np.all(f(i))):
                raise Fail(label, f"is false at {i}")

    def ensure_eq_each(self, label, n, f, g, lo=0, rtol=1e-6, atol=1e-8, scale=0.0, **k):
        self.ensure_eq(label, [f(i) for i in range(lo, n)], [g(i) for i in range(lo, n)], rtol, atol, scale)

    def total(self, f):
        return f()

    def arbitrary(self, name, n):
        if n <= 0:
            raise Reject
        return int(self.r.integers(0, n))

    def ensure_frame(self, label, a, old, **k):
        self._count(label)
        a, b = [x.toarray() if hasattr(x, "toarray") else _np.asarray(x) for x in (a, old)]
        if a.shape != b.shape or not _np.array_equal(a, b, equal_nan=True):
            raise Fail(label, "was modified")

    def ensure_deriv(self, label, f, x, df, rtol=2e-3, atol=1e-5, **k):
        self._count(label)
        h = 1e-4 * max(abs(x), 1e-2)
        if k.get("room") is not None:
            h = min(h, 0.2 * k["room"])
        d1 = (float(f(x + h)) - float(f(x - h))) / (2 * h)
        d2 = (float(f(x + h / 2)) - float(f(x - h / 2))) / h
        d = (4 * d2 - d1) / 3
        df = float(df)
        if not (math.isfinite(d) and math.isfinite(df)):
            raise Reject
        noise = 1e-15 * (abs(float(f(x))) + 1) / h * 50
        if abs(d - df) > atol + rtol * max(abs(d), abs(df)) + noise + 5 * abs(d1 - d2):
            raise Fail(label, f"numerical derivative {d!r}, specified {df!r}")

    def lemma(self, label, c):
        self.ensure(label, c)

    def module(self, name):
        import importlib
        return importlib.import_module("glum." + name)

    def fn(self, mod, name):
        return getattr(self.module(mod), name)

    def stub(self, mod, name, f):
        pass

    def patch(self, mod, name, make):
        m = self.module(mod)
        o = getattr(m, name)
        setattr(m, name, make(o))
        self.undo.append((m, name, o))

    def loop(self, *a):
        pass

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as e:
            if self.incomplete(e):
                raise Reject() from e
            return Outcome(exc=e)

    def partial(self, obj):
        """obj is given only the attributes the contract lists"""
        self.partials.append(obj)

    def incomplete(self, e):
        """did the code ask a stand-in of the contract for something the contract does not give it?  Says nothing about the code."""
        if not isinstance(e, AttributeError):
            return False
        o = getattr(e, "obj", None)
        return o is not None and ((isinstance(o, type) and o.__module__ or type(o).__module__).startswith("contracts") or any(o is q for q in self.partials))

    def calls(self, name):
        return []

    def ensure_solves(self, label, x, A, b, rtol=1e-6, **k):
        self._count(label)
        A, b, x = _np.asarray(A), _np.asarray(b), _np.asarray(x)
        if not _np.all(_np.isfinite(A)) or _np.linalg.cond(A) > 1e8:
            return
        res = _np.abs(A @ x - b)
        sc = _np.abs(A).sum(axis=-1).max(initial=0) * _np.abs(x).max(initial=0) + _np.abs(b).max(initial=0) + 1e-9
        if not _np.all(res <= rtol * sc):
            raise Fail(label, f"residual {res.max()!r}")


# ====================================================================== running
class Result:
    """status of one named obligation of one contract case"""

    def __init__(self, label, kind, status, backend="", reason="", consts=()):
        self.label, self.kind, self.status, self.backend, self.reason, self.consts = label, kind, status, backend, reason, list(consts)


def reset():
    CTX.reset()
    CTX.bufs = []
    CTX.journal = None
    CTX.loops = {}
    tm.SYMM.clear()
    tm.INVERSE.clear()
    tm.INJECTIVE.clear()
    tm.MEMBER.clear()
    snp._extmemo.clear()


def prove_all(obls, results, deadline):
    import time
    seen = {}
    for label, kind, assum, path, facts, goal in obls:
        key = (label, goal.id, tuple(a.id for a in assum), tuple(a.id for a in path))
        if key in seen:
            continue
        seen[key] = True
        if goal is tm.TRUE:
            results.append(Result(label, kind, "proved", "syntactic"))
            continue
        if time.time() > deadline:
            results.append(Result(label, kind, "unknown", "", "time limit of the check"))
            continue
        try:
            p = Prover(assum + path, facts)
            ok, be = p.prove(goal)
        except Unsupported as e:
            ok, be, p = False, "", None
            reason = f"unsupported: {e}"
        except RecursionError:
            ok, be, p = False, "", None
            reason = "term too deep"
        else:
            reason = "" if ok else str(getattr(p, "reason", None) or "")
        if ok:
            results.append(Result(label, kind, "proved", be))
        else:
            cs = set()
            for t in tm.subterms(goal):
                if t.op == "num":
                    v = float(tm.val(t))
                    if v not in (0.0, 1.0, -1.0, 2.0, 0.5):
                        cs.add(v)
            for q in path:
                for t in tm.subterms(q):
                    if t.op == "num":
                        cs.add(float(tm.val(t)))
            st = "refuted" if getattr(p, "model", None) is not None else "unknown"
            txt = f"goal: {tm.show(goal)[:600]}\npath: {'; '.join(tm.show(q)[:120] for q in path[-8:])}\n{reason[:800]}"
            results.append(Result(label, kind, st, "", txt, sorted(cs)[:40]))


def run_symbolic(c, k, limit=240):
    """-> (list of Result, note or None)"""
    import time
    deadline = time.time() + limit
    results = []
    reset()
    B = SymB()
    state = {"n": 0, "paths": 0}

    def run():
        CTX.events = []
        CTX.pyx = CTX.spec = CTX.replay = 0
        CTX.merge = set()
        CTX.bufs = []
        CTX.journal = None
        CTX.loops = {}
        CTX.assumptions = []
        CTX.facts = {}
        snp._extmemo.clear()
        if time.time() > deadline:
            raise Unsupported("time limit")
        try:
            c.fn(B, **c.cases[k])
        except (Unsupported, Infeasible, PathDone):
            raise
        except RecursionError as e:
            raise Unsupported("recursion") from e
        except Exception as e:
            if _engine_error(e):
                raise Unsupported(f"{type(e).__name__}: {e} (inside the verifier: {_where(e)})") from e
            CTX.oblige(f"does not raise ({type(e).__name__}: {str(e)[:80]})", tm.FALSE, "noraise")
        finally:
            B.loader.unpatch()
        state["paths"] += 1

    note = None
    try:
        explore(run)
    except Unsupported as e:
        note = f"undecided: {e}"
        if "DV_DEBUG" in __import__("os").environ:
            traceback.print_exc()
    finally:
        B.loader.unpatch()
    obls = list(CTX.obligations)
    prove_all(obls, results, deadline)
    return results, note, state["paths"]


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-4:]))


def run_concrete(c, k, trials, seed, seconds, specials=(), stop_on_fail=True):
    """-> (accepted, checked, failure or None, labels)"""
    import time
    import warnings
    t0 = time.time()
    acc = chk = 0
    labels = {}
    fails = []
    base = abs(hash_str(c.case_name(k))) % (2**31)
    for n in range(trials):
        if time.time() - t0 > seconds:
            break
        s = (seed * 1000003 + n) % (2**31)
        r = run_one(c, k, base, s, n, specials)
        if r[0] == "reject":
            continue
        acc += 1
        chk += r[1]
        for l, m in r[3].items():
            labels[l] = labels.get(l, 0) + m
        if r[0] == "fail":
            fails.append(r[2])
            if stop_on_fail:
                break
    return acc, chk, fails, labels


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def run_one(c, k, base, s, style, specials=()):
    import warnings
    rng = _np.random.default_rng([base, s])
    B = ConB(rng, Style(style, specials))
    with warnings.catch_warnings(), _np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            c.fn(B, **c.cases[k])
        except (Reject, Unsupported):
            return ("reject", 0, None, {})
        except Fail as e:
            return ("fail", B.checked, dict(label=e.label, message=e.msg, inputs=jsonable(B.inputs), seed=s, style=style, specials=list(specials)), B.labels)
        except Exception as e:
            if B.incomplete(e):
                return ("reject", 0, None, {})
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in tb if "/glum/" in f.filename]
            last = tb[-1]
            return ("fail", B.checked, dict(label="does not raise", message=f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}", inputs=jsonable(B.inputs),
                                            seed=s, style=style, specials=list(specials), harness=not inrepo), B.labels)
        finally:
            while B.undo:
                setattr(*B.undo.pop())
    return ("ok", B.checked, None, B.labels)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, _np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (_np.integer,)):
        return int(x)
    if isinstance(x, (_np.floating,)):
        return float(x)
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)
