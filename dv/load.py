"""Loads the current source of /repo into the verifier: the real module text is
compiled unchanged (Python) or translated by cy2py (Cython) and run on symbolic
values, with numpy & co. replaced by their models."""
import ast
import builtins as _b
import hashlib
import math
import os
import sys
import types
from . import terms as tm
from .terms import T, R, I, B
from .sym import S, CTX, Unsupported, Infeasible, PathDone, term, wrap, explore, is_inf
from . import symnp as snp
from .symnp import Arr, Buf, cast_t, dim, ext, trunc
from . import cy2py
from .norm import Norm

REPO = os.environ.get("GLUM_REPO", "/repo")
SRC = os.path.join(REPO, "src", "glum")

_real_import = _b.__import__


# ------------------------------------------------------------------ builtins
def sym_len(x):
    if isinstance(x, Arr):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        return ext(x._shape[0])
    if hasattr(x, "__symlen__"):
        return x.__symlen__()
    return _b.len(x)


def sym_isinstance(x, c):
    if isinstance(c, tuple):
        return _b.any(sym_isinstance(x, k) for k in c)
    if isinstance(c, types.UnionType):
        return _b.any(sym_isinstance(x, k) for k in c.__args__)
    if hasattr(c, "__origin__") and hasattr(c, "__args__") and not isinstance(c, type):
        import typing
        if c.__origin__ is typing.Union:
            return _b.any(sym_isinstance(x, k) for k in c.__args__)
    if type(x) is S:
        s = x.t.sort
        if c is float or c is sym_float:
            return s == R
        if c is int or c is sym_int:
            return s in (I, B)
        if c is bool or c is sym_bool:
            return s == B
    if c is sym_float:
        c = float
    elif c is sym_int:
        c = int
    elif c is sym_bool:
        c = bool
    f = getattr(x, "__symisinstance__", None)
    if f is not None:
        r = f(c)
        if r is not None:
            return r
    return _b.isinstance(x, c)


class SymRange:
    def __init__(self, lo, hi, par=False):
        self.lo, self.hi, self.par = lo, hi, par

    def __iter__(self):
        l, h = self.lo, self.hi
        if l.op == "num" and h.op == "num":
            return iter(_b.range(int(tm.val(l)), int(tm.val(h))))
        raise Unsupported("loop over a symbolic range without a loop rule")


class SymItems:
    """loop over the entries of an array of symbolic length (with_index: enumerate)"""

    def __init__(self, arr, start=None):
        self.arr, self.start = arr, start
        self.range = SymRange(tm.num(0, I), arr._shape[0])

    def item(self, i):
        v = self.arr[i]
        return v if self.start is None else (i + self.start, v)

    def __iter__(self):
        return iter([self.item(S(tm.num(k, I))) for k in SymRange.__iter__(self.range)])


class SymList:
    """a list of symbolic length: element k is f(k)"""

    def __init__(self, n, f):
        self.n, self.f = n, f

    def __symlen__(self):
        return S(self.n)

    def __iter__(self):
        raise Unsupported("iteration over a list of symbolic length")

    def __symstack__(self, axis):
        from .symnp import asarray
        k = tm.fresh("k", I)
        a = asarray(self.f(k))
        f, nd = a.snap(), a.ndim
        if not 0 <= axis <= nd:
            raise Unsupported("stack axis")
        sh = list(a._shape)
        if any(k in tm.free(d) for d in sh):
            raise Unsupported("stack of arrays of different shapes")
        sh.insert(axis, self.n)

        def g(*ix):
            ix = list(ix)
            j = ix.pop(axis)
            return tm.subst(f(*ix), {k: j})
        return Arr.make(g, sh, a.sort)


def sym_enumerate(x, start=0):
    if isinstance(x, Arr) and x.ndim >= 1 and x._shape[0].op != "num":
        return SymItems(x, start)
    return _b.enumerate(x, start)


class _Items:
    """a loop body over the entries, as a body over their positions"""

    def __init__(self, body, items):
        self.body, self.items, self.__closure__, self.__code__ = body, items, body.__closure__, body.__code__

    def __call__(self, i):
        return self.body(self.items.item(i))


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (_b.range, SymRange))


class sym_range(metaclass=_RangeMeta):
    def __new__(cls, *a):
        if _b.all(isinstance(x, int) for x in a):
            return _b.range(*a)
        if len(a) == 3:
            raise Unsupported("range step")
        lo, hi = (tm.num(0, I), a[0]) if len(a) == 1 else a
        return SymRange(term(lo), term(hi))


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return sym_isinstance(x, cls._real)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


class sym_float(metaclass=_TypeMeta):
    _real = float

    def __new__(cls, x=0.0):
        if type(x) is S:
            return S(tm.toreal(x.t))
        if isinstance(x, Arr):
            return S(tm.toreal(x.__symterm__()))
        return float(x)


class sym_int(metaclass=_TypeMeta):
    _real = int

    def __new__(cls, x=0, *a):
        if type(x) is S:
            return S(trunc(tm.toint_bool(x.t)))
        if isinstance(x, Arr):
            return S(trunc(x.__symterm__()))
        return int(x, *a)


class sym_bool(metaclass=_TypeMeta):
    _real = bool

    def __new__(cls, x=False):
        if type(x) is S:
            return snp._toB(x)
        return bool(x)


def sym_abs(x):
    return _b.abs(x)


def _mm(name, f):
    real = getattr(_b, name)

    def g(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, Arr):
            return getattr(snp, name)(xs)
        xs = list(xs)
        if not k and _b.any(type(x) is S for x in xs) and _b.all(type(x) is S or isinstance(x, (int, float)) for x in xs):
            r = xs[0]
            for y in xs[1:]:
                if is_inf(r) or is_inf(y):
                    x, o = (r, y) if is_inf(r) else (y, r)
                    big = x > 0
                    r = (x if big else o) if name == "max" else (o if big else x)
                else:
                    r = S(f(tm.toint_bool(term(r)), tm.toint_bool(term(y))))
            return r
        return real(*a, **k)
    return g


def sym_sum(xs, start=0):
    if isinstance(xs, Arr):
        return snp.sum(xs)
    return _b.sum(xs, start)


def sym_round(x, n=None):
    if type(x) is S:
        raise Unsupported("round")
    return _b.round(x) if n is None else _b.round(x, n)


BUILTINS = dict(vars(_b))
BUILTINS.update(len=sym_len, isinstance=sym_isinstance, range=sym_range, float=sym_float, int=sym_int, bool=sym_bool,
                max=_mm("max", tm.max_), min=_mm("min", tm.min_), sum=sym_sum, round=sym_round)


# ------------------------------------------------------------------ pyx runtime
class Uninit:
    def __init__(self, n):
        self.n = n

    def _bad(self, *a, **k):
        raise Unsupported(f"use of uninitialised variable {self.n}")

    __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __getitem__ = __setitem__ = __neg__ = __call__ = _bad

    def __repr__(self):
        return f"<uninit {self.n}>"


def cf(x):
    if type(x) is S:
        return S(tm.toreal(x.t))
    if isinstance(x, (bool, int)):
        return float(x)
    if isinstance(x, Arr):
        return S(tm.toreal(x.__symterm__()))
    return x


def ci(x):
    if type(x) is S:
        return S(trunc(tm.toint_bool(x.t)))
    if isinstance(x, float):
        return int(x)
    return int(x) if isinstance(x, bool) else x


def cv(x, k):
    if x is None or isinstance(x, Arr):
        if isinstance(x, Arr):
            want = {"f": R, "i": I, "u": I, "b": B}.get(k)
            if want and x.sort != want:
                raise ValueError("Buffer dtype mismatch")
        return x
    raise TypeError("a memoryview is required")


def cdiv(a, b):
    ia = isinstance(a, (bool, int)) or (type(a) is S and a.t.sort != R)
    ib = isinstance(b, (bool, int)) or (type(b) is S and b.t.sort != R)
    if ia and ib:
        if isinstance(a, int) and isinstance(b, int):
            return int(a / b) if b else 0
        return S(trunc(tm.div(term(a), term(b))))
    if isinstance(b, (int, float)) and b == 0 and not type(a) is S:
        raise Unsupported("constant division by zero")
    return a / b


def cfdiv(a, b):
    return a // b


def cpow(a, b):
    if type(a) is S or type(b) is S:
        return S(tm.rpow(term(a), term(b)))
    return a ** b


class Ref:
    def __init__(self, get, set):
        self.get, self.set_ = get, set
        self.cell = None
        for f in (get,):
            if f.__closure__:
                self.cell = f.__closure__[0]

    def key(self):
        return id(self.cell)

    def __getitem__(self, k):
        return self.get()

    def __setitem__(self, k, v):
        if CTX.journal is not None:
            CTX.journal.ref(self)
        self.set_(v)


def arrptr(a, i):
    return a[i:]


def libc(name):
    f = {
        "exp": snp.exp, "log": snp.log, "fabs": lambda x: _b.abs(x) if not is_inf(x) else math.inf, "sqrt": snp.sqrt,
        "floor": snp.floor, "ceil": snp.ceil, "lgamma": snp.special.gammaln, "pow": cpow,
        "log1p": snp.log1p, "expm1": snp.expm1,
        "fmax": lambda a, b: snp.maximum(a, b), "fmin": lambda a, b: snp.minimum(a, b),
        "INFINITY": math.inf, "M_PI": math.pi, "NAN": math.nan,
        "isfinite": snp.isfinite, "isnan": snp.isnan, "isinf": snp.isinf, "abs": _b.abs,
    }.get(name)
    if f is None:
        raise Unsupported(f"libc.math.{name}")
    return f


# ------------------------------------------------------------------ loops
class Journal:
    """copy-on-first-write record, so that a loop body can be run and undone"""

    def __init__(self, parent):
        self.parent = parent
        self.bufs = {}
        self.refs = {}

    def buf(self, b):
        if b.id not in self.bufs:
            self.bufs[b.id] = (b, b.fn, b.memo, b.ver)

    def ref(self, r):
        if r.key() not in self.refs:
            self.refs[r.key()] = (r, r.get())

    def undo(self):
        for b, fn, memo, ver in self.bufs.values():
            b.fn, b.memo, b.ver = fn, memo, ver
        for r, v in self.refs.values():
            r.cell.cell_contents = v

    def commit_to_parent(self):
        if self.parent is not None:
            for k, v in self.bufs.items():
                self.parent.bufs.setdefault(k, v)
            for k, v in self.refs.items():
                self.parent.refs.setdefault(k, v)


CTX.journal = None
_orig_update = Buf.update


def _jupdate(self, cond, value):
    if CTX.journal is not None:
        CTX.journal.buf(self)
    return _orig_update(self, cond, value)


Buf.update = _jupdate


class LoopSpec:
    """inductive loop contract.  inv(L) -> [(label, condition)], L: LoopEnv.
    modifies: names of arrays (variables) whose content the loop may change.
    havoc(L): sets whatever else the loop may change (object attributes) to arbitrary values.
    step(L, before) -> [(label, condition)]: what one completed iteration does; before: copies at its start.
    last: the state after the loop is that of the last iteration run from the invariant (instead of the bare invariant)

    each: {array: f(L) -> (v, *idx) -> condition}: invariant of every element of a modified array.
    define: {array: f(L) -> (*idx) -> value}: a modified array is a function of the rest of the state.
    writes(L): further arrays the loop may write (attributes of objects)."""

    def __init__(self, inv=lambda L: [], modifies=(), post=None, havoc=None, step=None, last=False, rebinds=(), each=None, define=None, writes=None):
        self.inv, self.modifies, self.post, self.havoc, self.step, self.last, self.rebinds = inv, modifies, post, havoc, step, last, rebinds
        self.each, self.define = each or {}, define or {}
        self.writes = writes or (lambda L: [])


class LoopEnv:
    def __init__(self, body, extra, entry):
        self._c = cells(body)
        self._c.update(extra)
        self.entry = entry

    def __getitem__(self, n):
        c = self._c.get(n)
        if c is None:
            raise Unsupported(f"loop contract refers to {n}, not visible in the loop")
        v = c.cell_contents
        if isinstance(v, Uninit):
            raise Unsupported(f"loop contract refers to uninitialised {n}")
        if isinstance(v, Ref):
            return v
        return v

    def get(self, n):
        c = self._c.get(n)
        return None if c is None else c.cell_contents

    def set(self, n, v):
        self._c[n].cell_contents = v

    def names(self):
        return list(self._c)


def cells(f):
    if not f.__closure__:
        return {}
    return dict(zip(f.__code__.co_freevars, f.__closure__))


def const_range(it):
    if isinstance(it, SymRange):
        if it.lo.op == "num" and it.hi.op == "num" and tm.val(it.hi) - tm.val(it.lo) <= 64:
            return _b.range(int(tm.val(it.lo)), int(tm.val(it.hi)))
        return None
    return it


def loop(fname, k, it, body, names, targets):
    spec = CTX.loops.get((fname, k)) or CTX.loops.get((fname, CTX.loopnames.get((fname, k))))
    if isinstance(it, Arr) and it.ndim >= 1:
        it = SymItems(it)
    if isinstance(it, SymItems):
        if spec is None and it.range.hi.op == "num":
            it = list(it)
        else:
            r = loop(fname, k, it.range, _Items(body, it), names, targets)
            cl = cells(body)
            for t in targets:
                cl[t].cell_contents = Uninit(t + " (after loop)")
            return r
    if isinstance(it, (Arr,)):
        raise Unsupported("iteration over a memoryview")
    if spec is not None and isinstance(it, (SymRange, _b.range)):
        if isinstance(it, _b.range):
            it = SymRange(tm.num(it.start, I), tm.num(it.stop, I))
        return inv_loop(fname, k, it, body, names, targets, spec)
    c = const_range(it)
    if c is not None:
        for v in c:
            s = body(v)
            if s is not None:
                return s
        return None
    try:
        return generic_loop(fname, k, it, body, names, targets)
    except Unsupported:
        if CTX.journal is not None:
            raise
    # the first iteration may differ from the others: run it on its own
    if not CTX.branch(tm.lt(it.lo, it.hi)):
        return None
    s = body(S(it.lo))
    if s is not None:
        return s
    return generic_loop(fname, k, SymRange(tm.add(it.lo, tm.num(1, I)), it.hi), body, names, targets)


def while_(fname, k, cond, body, names):
    spec = CTX.loops.get((fname, k))
    if spec is not None:
        return inv_while(fname, k, cond, body, names, spec)
    n = 0
    while True:
        c = cond()
        if not c:
            return None
        n += 1
        if n > 12:
            raise Unsupported(f"while loop without a contract in {fname}")
        s = body(None)
        if s is not None:
            return s


def has_free(t, vs):
    return bool(tm.free(t) & vs)


def _affine_shift(ix, i):
    """ix == i + c with c free of i  -> c, else None"""
    d = tm.sub(ix, i)
    if i in tm.free(d):
        return None
    return d


def _inj(ix, i):
    """ix == active[i + c] for an index array of distinct entries -> its name, else None"""
    if ix.op == "sel" and ix.args[0] in tm.INJECTIVE and len(ix.args) == 2 and _affine_shift(ix.args[1], i) is not None:
        return ix.args[0]
    return None


def _inj_inverse(name, ix, i):
    mem = next(m for m, (a, n) in tm.MEMBER.items() if a == name)
    pos = next(m for m, a in tm.INVERSE.items() if a == name)
    return (lambda j: tm.sel(mem, j, sort=B)), (lambda j: tm.sel(pos, j, sort=I)), _affine_shift(ix.args[1], i)


def generic_loop(fname, k, it, body, names, targets):
    """Loop rule with an inferred contract: iteration i writes arrays only at index i(+const), scalars are
    additive / max reductions or private.  Justification: the inductive invariant
    'elements < i have their final value, reductions equal the partial sum' is established by construction
    from the body's effect for an arbitrary iteration, whose independence is checked here."""
    lo, hi = it.lo, it.hi
    cl = cells(body)
    base = {n: cl[n].cell_contents for n in names}
    iv = tm.fresh("i", I)
    rng = [tm.le(lo, iv), tm.lt(iv, hi)]

    def scal(v):
        if isinstance(v, float) and (math.isinf(v) or math.isnan(v)):
            return False
        return type(v) is S or (isinstance(v, (int, float)) and not isinstance(v, bool)) or isinstance(v, bool)

    def nonfin(v):
        return isinstance(v, float) and not math.isfinite(v)

    appended, napp = {}, [0]
    lists = {n: c.cell_contents for n, c in cl.items() if _has(c) and type(c.cell_contents) is list}

    def run_body(v0, ref0):
        outer_j, outer_w, outer_r = CTX.journal, CTX.written, CTX.reads
        npath = len(CTX.path)
        appended.clear()
        napp[0] = 0
        len0 = {n: len(l) for n, l in lists.items()}

        def once():
            for n in names:
                cl[n].cell_contents = v0.get(n, base[n])
            j = Journal(outer_j)
            CTX.journal = j
            CTX.written, CTX.reads = [], []
            mark = snp.Buf._n  # arrays created by the iteration itself are its own
            try:
                for r, v in ref0.values():
                    j.ref(r)
                    r.cell.cell_contents = v
                sig = body(S(iv))
                if sig is not None:
                    raise Unsupported(f"break/return inside a symbolic loop of {fname}")
                eff = {}
                for bid, (b, fn, memo, ver) in j.bufs.items():
                    if b.id <= mark:
                        eff[bid] = (b, b.snapshot())
                refs = {key: (r, r.get()) for key, (r, _) in j.refs.items()}
                for n, l in lists.items():
                    if len(l) != len0[n]:
                        if len(l) != len0[n] + 1 or len0[n]:
                            raise Unsupported("list changed in a loop other than by appending one element")
                        v = l[-1]
                        appended[n] = v if type(v) is S or isinstance(v, (int, float)) else v.copy() if isinstance(v, Arr) else None
                        napp[0] += 1
                return (dict((n, cl[n].cell_contents) for n in names), eff, refs, [x for x in CTX.written if x[0].id <= mark], [x for x in CTX.reads if x[0].id <= mark])
            finally:
                for n, l in lists.items():
                    del l[len0[n]:]
                j.undo()
                CTX.journal, CTX.written, CTX.reads = outer_j, outer_w, outer_r
                for n in names:
                    cl[n].cell_contents = base[n]
        CTX.path.extend(c for c in rng if c is not tm.TRUE)
        try:
            return explore(once)
        finally:
            del CTX.path[npath:]

    nob = len(CTX.obligations)
    # pass 1: which refs / scalars are touched
    CTXdry = len(CTX.assumptions)
    paths = run_body({}, {})
    refs = {}
    for _, (_, _, rf, _, _) in paths:
        for key, (r, v) in rf.items():
            refs.setdefault(key, r)
    del CTX.obligations[nob:]
    # pass 2: loop-carried scalars get arbitrary values
    v0, fresh0 = {}, {}
    for n in names:
        if n in targets:
            continue
        v = base[n]
        if scal(v):
            so = B if isinstance(v, bool) else (v.t.sort if type(v) is S else (I if isinstance(v, int) else R))
            f = tm.fresh(n, so)
            v0[n] = S(f)
            fresh0[n] = f
    ref0, rfresh = {}, {}
    for key, r in refs.items():
        v = r.get()
        if scal(v):
            so = v.t.sort if type(v) is S else (I if isinstance(v, int) else R)
            f = tm.fresh("ref", so)
            ref0[key] = (r, S(f))
            rfresh[key] = f
        elif not isinstance(v, Uninit) and not nonfin(v):
            raise Unsupported("loop-carried pointer target")
    paths = run_body(v0, ref0)
    carried = set(fresh0.values()) | set(rfresh.values())
    if napp[0] and (len(paths) != 1 or napp[0] != len(appended) or any(v is None for v in appended.values())):
        raise Unsupported("elements appended on some paths of a loop only")

    def merged(vals):
        """[(conds, term)] -> ite chain"""
        return tree(vals, lambda c, x, y: x if x is y else tm.ite(c, *tm.unify(x, y)))

    def tree(vals, node, d=0):
        """the decision tree of the paths, folded with node(cond, then, else); leaves are the values"""
        while len(vals) > 1:
            l = vals[0][0][d] if d < len(vals[0][0]) else None
            if all(len(c) > d and c[d] is l for c, _ in vals):
                d += 1
                continue
            break
        if len(vals) == 1:
            return vals[0][1]
        if l is not None:
            a = [v for v in vals if len(v[0]) > d and v[0][d] is l]
            b = [v for v in vals if not (len(v[0]) > d and v[0][d] is l)]
            if all(len(c) > d and c[d] is tm.not_(l) for c, _ in b):
                return node(l, tree(a, node, d + 1), tree(b, node, d + 1))
        raise Unsupported("paths of a loop body do not form a decision tree")

    if not paths:
        return None  # no feasible iteration
    # ---- arrays
    allb = {}
    for _, (_, eff, _, _, _) in paths:
        for bid, (b, f) in eff.items():
            allb[bid] = b
    new_bufs = []
    for bid, b in allb.items():
        shift = None
        dimk = None
        wr = [w for _, (_, _, _, ws, _) in paths for w in ws if w[0] is b]
        for _, ix in wr:
            if ix is None:
                raise Unsupported(f"whole-array write in a loop of {fname}")
            pos = [d for d in range(len(ix)) if _affine_shift(ix[d], iv) is not None or _inj(ix[d], iv)]
            if dimk is None:
                if not pos:
                    raise Unsupported(f"loop in {fname} writes an array at an index that is not the loop index")
                dimk = pos[0]
                shift = _affine_shift(ix[dimk], iv)
                if shift is None:
                    shift = _inj(ix[dimk], iv)
                tmpl = ix
            if ix is not tmpl and ix != tmpl:
                raise Unsupported(f"loop in {fname} writes several elements per iteration")
        for other in range(len(tmpl)):
            if other != dimk and iv in tm.free(tmpl[other]):
                raise Unsupported("write index")
        for _, (_, _, _, _, rs) in paths:
            for rb, ix in rs:
                if rb is b and (ix is None or tuple(ix) != tuple(tmpl)):
                    raise Unsupported(f"loop in {fname} reads elements written by other iterations")
        vals = [(c, (eff[bid][1] if bid in eff else b.snapshot())(*tmpl)) for c, (_, eff, _, _, _) in paths]
        t = merged(vals)
        if has_free(t, carried):
            raise Unsupported(f"loop-carried dependence in {fname}")
        new_bufs.append((b, t, dimk, shift, tmpl))
    # ---- scalars
    upd = {}

    def reduce_scalar(f0, vals, old, label):
        so = f0.sort
        if all(t is f0 for _, t in vals):
            return S(old)
        m = merged(vals)
        if f0 not in tm.free(m):
            if has_free(m, carried):
                raise Unsupported(f"loop-carried scalar {label}")
            # private variable: value of the last iteration (if any)
            last = tm.sub(hi, tm.num(1, I))
            return S(tm.ite(tm.lt(lo, hi), tm.subst(m, {iv: last}), cast_t(old, m.sort)))
        # additive
        deltas = []
        ok = True
        for c, t in vals:
            d = tm.sub(t, f0)
            if f0 in tm.free(d):
                d = simp_delta(t, f0)
            if d is None or f0 in tm.free(d) or any(f0 in tm.free(x) for x in c):
                ok = False
                break
            deltas.append((c, d))
        if ok:
            d = merged(deltas)
            if has_free(d, carried):
                raise Unsupported(f"loop-carried scalar {label}")
            return S(tm.add(old, tm.sum_(lo, hi, iv, d)))
        # running maximum / minimum: every path keeps the scalar or replaces it by a larger (smaller) candidate
        from .prove import Prover
        for ismax in (True, False):
            def node(c, x, y):
                if x is y:
                    return x
                if f0 in tm.free(c):
                    for g, kept in ((x, y), (y, x)):
                        if kept is f0 and not isinstance(g, list) and not has_free(g, carried):
                            goal = tm.eq(tm.ite(c, *tm.unify(x, y)), (tm.max_ if ismax else tm.min_)(f0, g))
                            if Prover(CTX.assumptions + CTX.path + rng, CTX.facts).prove(goal)[0]:
                                return [(tm.TRUE, g)]
                    raise Unsupported("not a running extremum")
                if has_free(c, carried):
                    raise Unsupported("not a running extremum")
                out = []
                for cc, v in ((c, x), (tm.not_(c), y)):
                    if v is f0:
                        continue
                    if not isinstance(v, list):
                        raise Unsupported("not a running extremum")
                    out += [(tm.and_(cc, k), g) for k, g in v]
                return out
            try:
                cands = tree(vals, node)
            except Unsupported:
                continue
            if not isinstance(cands, list):
                continue
            M = tm.fresh("maxred", so)
            b = tm.fresh("k", I)
            sb = lambda t: tm.subst(t, {iv: b})
            le = (lambda x, y: tm.le(x, y)) if ismax else (lambda x, y: tm.le(y, x))
            CTX.assume(le(old, M))
            for k, g in cands:
                CTX.assume(tm.forall(lo, hi, b, tm.implies(sb(k), le(sb(g), M))))
            CTX.assume(tm.or_(tm.eq(M, old), *[tm.exists(lo, hi, b, tm.and_(sb(k), tm.eq(sb(g), M))) for k, g in cands]))
            return S(M)
        raise Unsupported(f"loop-carried scalar {label} in {fname}: no reduction rule applies")

    def simp_delta(t, f0):
        from .prove import Prover
        nm = Norm(Prover([], {}))
        p = nm.padd(nm.nf(t), nm.pscale(nm.nf(f0), -1))
        return nm.toT(p)

    for n in names:
        if n in targets:
            continue
        if n in fresh0:
            old = term(base[n])
            vals = [(c, term(fin[n])) for c, (fin, _, _, _, _) in paths]
            upd[n] = reduce_scalar(fresh0[n], vals, old, n)
        else:
            vs = [fin[n] for _, (fin, _, _, _, _) in paths]
            if all(v is base[n] for v in vs):
                continue
            if nonfin(base[n]):
                raise Unsupported(f"infinite scalar {n} changed in a loop")
            if all(scal(v) for v in vs):
                m = merged([(c, term(fin[n])) for c, (fin, _, _, _, _) in paths])
                if has_free(m, carried):
                    upd[n] = Uninit(n + " (after loop)")
                else:
                    last = tm.sub(hi, tm.num(1, I))
                    upd[n] = S(tm.subst(m, {iv: last})) if CTX.entails(tm.lt(lo, hi)) else Uninit(n + " (after loop)")
            else:
                upd[n] = Uninit(n + " (after loop)")
    rupd = {}
    for key, r in refs.items():
        if key in rfresh:
            vals = [(c, term(rf[key][1]) if key in rf else rfresh[key]) for c, (_, _, rf, _, _) in paths]
            rupd[key] = (r, reduce_scalar(rfresh[key], vals, term(r.get()), "ref"))
        elif nonfin(r.get()):
            if any(key in rf and rf[key][1] is not r.get() for _, (_, _, rf, _, _) in paths):
                raise Unsupported("infinite pointer target changed in a loop")
        else:
            rupd[key] = (r, Uninit("ref"))
    # ---- lists: one element appended per iteration, a function of the loop index
    for n, v in appended.items():
        def elem(j, v=v):
            sub = {iv: tm.add(lo, j)}
            if not isinstance(v, Arr):
                return S(tm.subst(term(v), sub))
            f = v.snap()
            return Arr.make(lambda *ix: tm.subst(f(*ix), sub), [tm.subst(d, sub) for d in v._shape], v.sort)
        probe = v.elem(*[tm.fresh("x", I) for _ in v._shape]) if isinstance(v, Arr) else term(v)
        if has_free(probe, carried):
            raise Unsupported(f"loop-carried list {n}")
        cl[n].cell_contents = SymList(tm.sub(hi, lo), elem)
    # ---- commit
    for b, t, dimk, shift, tmpl in new_bufs:
        if isinstance(shift, str):
            # written through an index array of distinct entries
            mem, pos, off = _inj_inverse(shift, tmpl[dimk], iv)

            def cond(*ix, dimk=dimk, tmpl=tmpl, mem=mem, pos=pos, off=off):
                j = tm.sub(pos(ix[dimk]), off)
                return tm.and_(mem(ix[dimk]), tm.le(lo, j), tm.lt(j, hi), *[tm.eq(ix[d], tmpl[d]) for d in range(len(tmpl)) if d != dimk and tmpl[d] is not snp.WHOLE[d]])

            def value(*ix, t=t, dimk=dimk, pos=pos, off=off):
                return tm.subst(t, {iv: tm.sub(pos(ix[dimk]), off), **dict(zip(snp.WHOLE, ix))})
            b.update(cond, value)
            if CTX.written is not None:
                CTX.written.append((b, None))
            continue

        def cond(*ix, dimk=dimk, shift=shift, tmpl=tmpl):
            j = tm.sub(ix[dimk], shift)
            return tm.and_(tm.le(lo, j), tm.lt(j, hi), *[tm.eq(ix[d], tmpl[d]) for d in range(len(tmpl)) if d != dimk and tmpl[d] is not snp.WHOLE[d]])

        def value(*ix, t=t, dimk=dimk, shift=shift):
            return tm.subst(t, {iv: tm.sub(ix[dimk], shift), **dict(zip(snp.WHOLE, ix))})
        b.update(cond, value)
        if CTX.written is not None:
            CTX.written.append((b, None))
    for n, v in upd.items():
        cl[n].cell_contents = v
    for key, (r, v) in rupd.items():
        if CTX.journal is not None:
            CTX.journal.ref(r)
        r.cell.cell_contents = v
    for n in targets:
        if CTX.entails(tm.lt(lo, hi)):
            cl[n].cell_contents = S(tm.sub(hi, tm.num(1, I)))
    return None


def _snapshot_bufs():
    return {b.id: (b, b.ver) for b in CTX.bufs}


def _havoc(L, names, targets, spec, keepscal=()):
    for n in names:
        if n in targets:
            continue
        v = L.get(n)
        if type(v) is S or isinstance(v, (int, float)):
            so = B if isinstance(v, bool) else (v.t.sort if type(v) is S else (I if isinstance(v, int) else R))
            L.set(n, S(tm.fresh(n, so)))
        elif isinstance(v, (Uninit,)):
            pass
        elif isinstance(v, Arr):
            if n in spec.rebinds:
                L.set(n, Uninit(n))
            elif n not in spec.modifies:
                raise Unsupported(f"loop rebinds array {n}")
    names_of = {}
    for n in spec.modifies:
        v = L.get(n)
        if isinstance(v, Ref):
            r = v.get()
            if CTX.journal is not None:
                CTX.journal.ref(v)
            v.cell.cell_contents = S(tm.fresh(n, R))
        elif isinstance(v, Arr):
            b = v.buf
            nm = tm.fresh(n).args[0]
            so = b.sort
            if CTX.journal is not None:
                CTX.journal.buf(b)
            b.fn = lambda *i, nm=nm, so=so: tm.sel(nm, *i, sort=so)
            b.memo = {}
            b.ver += 1
            names_of[n] = nm
        elif v is None:
            pass
        elif type(v) is S or isinstance(v, (int, float)):
            pass
        else:
            raise Unsupported(f"loop contract: cannot havoc {n}")
    if spec.havoc is not None:
        spec.havoc(L)
    for n, f in spec.each.items():
        g, b, nm = f(L), L[n].buf, names_of[n]

        def fact(*idx, g=g, b=b, nm=nm):
            rng = tm.and_(*[tm.and_(tm.le(tm.num(0, I), i), tm.lt(i, d)) for i, d in zip(idx, b.shape)])
            with _SpecCtx():
                return [tm.implies(rng, term(g(S(tm.sel(nm, *idx, sort=b.sort)), *[S(i) for i in idx])))]
        CTX.facts[nm] = fact
    for n, f in spec.define.items():
        g, b = f(L), L[n].buf
        def el(*i, g=g, b=b):
            with _SpecCtx():
                return cast_t(term(g(*[S(x) for x in i])), b.sort)
        b.fn = el
        b.memo = {}
        b.ver += 1


class _SpecCtx:
    """evaluation of contract expressions: total functions, no index obligations"""

    def __enter__(self):
        self.o = (CTX.pyx, CTX.spec)
        CTX.pyx, CTX.spec = 0, 1

    def __exit__(self, *a):
        CTX.pyx, CTX.spec = self.o


def _copies(L):
    return {n: (v.copy() if isinstance(v, Arr) else v) for n, v in ((n, L.get(n)) for n in L.names() if _has(L._c[n]))}


def _check(L, spec, fname, k, when):
    with _SpecCtx():
        _check0(L, spec, fname, k, when)


def _check0(L, spec, fname, k, when):
    for lab, c in spec.inv(L):
        CTX.oblige(f"{fname}: loop {k} invariant '{lab}' {when}", term(c), "invariant")
    for n, f in list(spec.each.items()) + list(spec.define.items()):
        a, g = L[n], f(L)
        idx = [tm.fresh("e", I) for _ in a._shape]
        m = len(CTX.path)
        for i, d in zip(idx, a._shape):
            CTX.path.extend([tm.le(tm.num(0, I), i), tm.lt(i, d)])
        ix = [S(i) for i in idx]
        v = a.elem(*idx)
        goal = term(g(S(v), *ix)) if n in spec.each else tm.eq(*tm.unify(v, term(g(*ix))))
        CTX.oblige(f"{fname}: loop {k} invariant of every element of {n} {when}", goal, "invariant")
        del CTX.path[m:]


def _assume(L, spec):
    with _SpecCtx():
        cs = [term(c) for lab, c in spec.inv(L)]
    for c in cs:
        CTX.assume_path(c)


def _assume_path(c):
    if c is tm.TRUE:
        return
    if c is tm.FALSE:
        raise Infeasible
    if c.op == "and":
        for x in c.args:
            _assume_path(x)
        return
    CTX.path.append(c)


CTX.assume_path = _assume_path


def _frame(before, L, spec, fname, k, ok):
    """ok: arrays listed in the contract as of the head of the loop"""
    ok = set(ok)
    for n in spec.modifies:
        v = L.get(n)
        if isinstance(v, Arr):
            ok.add(v.buf.id)
    for b in CTX.bufs:
        o = before.get(b.id)
        if o is not None and o[1] != b.ver and b.id not in ok:
            CTX.oblige(f"{fname}: loop {k} writes only what its contract allows ({b.name})", tm.FALSE, "frame")


def _escapes(code):
    """may the body leave its loop early (break or return)?"""
    return any(c == "r" or c == "b" or (isinstance(c, tuple) and c[:1] in (("b",), ("r",))) for c in code.co_consts)


def merge(fname):
    return fname in CTX.merge


def ifx(c, a, b):
    if not isinstance(c, S):
        return a() if c else b()
    t = c.t
    if CTX.entails(t):
        return a()
    if CTX.entails(tm.not_(t)):
        return b()
    m = len(CTX.path)
    CTX.path.append(t)
    try:
        x = a()
    finally:
        del CTX.path[m:]
    y = b()
    x, y = tm.unify(term(x), term(y))
    return S(tm.ite(t, x, y))


def inv_loop(fname, k, it, body, names, targets, spec):
    lo, hi = it.lo, it.hi
    t = targets[0]
    cl = cells(body)
    entry = {n: c.cell_contents for n, c in cl.items() if _has(c)}
    esnap = {n: v.copy() if isinstance(v, Arr) else v for n, v in entry.items()}
    idx = types.SimpleNamespace(cell_contents=None)
    L = LoopEnv(body, {"#": idx}, esnap)
    idx.cell_contents = S(lo)
    _check(L, spec, fname, k, "holds initially")
    CTX.events.append(("loop", fname, k))
    mode = 1 if CTX.replay and not _escapes(body.__code__) else CTX.choose(2, f"{fname} loop {k}")
    _havoc(L, names, targets, spec)
    def iteration(i):
        idx.cell_contents = S(i)
        _assume(L, spec)
        before, ok = _snapshot_bufs(), {v.buf.id for v in spec.writes(L)}
        L.before = _copies(L)
        sig = body(S(i))
        _frame(before, L, spec, fname, k, ok)
        return sig

    if mode == 0:
        i = tm.fresh(t, I)
        _assume_path(tm.le(lo, i))
        _assume_path(tm.lt(i, hi))
        sig = iteration(i)
        if sig is None:
            idx.cell_contents = S(tm.add(i, tm.num(1, I)))
            _check(L, spec, fname, k, "is preserved")
            if spec.step is not None:
                with _SpecCtx():
                    for lab, c in spec.step(L, L.before):
                        CTX.oblige(f"{fname}: loop {k} iteration: {lab}", term(c), "invariant")
            raise PathDone
        return sig
    # exit: all iterations done
    if CTX.branch(tm.lt(lo, hi)):
        if spec.last:
            CTX.replay += 1
            try:
                sig = iteration(tm.sub(hi, tm.num(1, I)))
            finally:
                CTX.replay -= 1
            if sig is not None:
                raise PathDone      # covered by the arbitrary iteration above
            idx.cell_contents = S(hi)
            return None
        idx.cell_contents = S(hi)
        cl[t].cell_contents = S(tm.sub(hi, tm.num(1, I)))
    else:
        idx.cell_contents = S(lo)
        cl[t].cell_contents = entry.get(t)
    _assume(L, spec)
    return None


def inv_while(fname, k, cond, body, names, spec):
    cl = dict(cells(cond))
    cl.update(cells(body))
    L = LoopEnv(body, cells(cond), {n: (c.cell_contents.copy() if isinstance(c.cell_contents, Arr) else c.cell_contents) for n, c in cl.items() if _has(c)})
    _check(L, spec, fname, k, "holds initially")
    CTX.events.append(("loop", fname, k))
    _havoc(L, names, (), spec)
    _assume(L, spec)
    before, ok = _snapshot_bufs(), {v.buf.id for v in spec.writes(L)}
    if not cond():
        return None
    sig = body(None)
    _frame(before, L, spec, fname, k, ok)
    if sig is None:
        _check(L, spec, fname, k, "is preserved")
        raise PathDone
    return sig


def _has(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ python loop transform
class LoopXform(ast.NodeTransformer):
    """turns for/while loops of chosen functions into the same closure form cy2py emits"""

    def __init__(self, want):
        self.want = want
        self.stack = []

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        q = ".".join(self.stack)
        self.stack.pop()
        if q in self.want or n.name in self.want:
            return FnX(n, q).run()
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n


def _assigned_py(body):
    names = []

    class V(ast.NodeVisitor):
        def visit_Name(self, x):
            if isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names:
                names.append(x.id)

        def visit_FunctionDef(self, x):
            if x.name not in names:
                names.append(x.name)

        def visit_Lambda(self, x):
            pass

        def visit_ListComp(self, x):
            for g in x.generators:
                self.visit(g.iter)

        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
    for s in body:
        V().visit(s)
    return names


class FnX:
    def __init__(self, fn, q):
        self.fn, self.q, self.k = fn, q, 0

    def run(self):
        fn = self.fn
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
        loops = [x for x in ast.walk(fn) if isinstance(x, (ast.For, ast.While))]
        if not loops:
            return fn
        names = []
        for l in loops:
            for x in _assigned_py([l]):
                if x not in names:
                    names.append(x)
        # the closures need every assigned name bound as a local of the function
        self.locals = names
        body = self.block(fn.body, 0)
        doc = []
        pre = [ast.parse(f"{n} = __UNINIT__({n!r})").body[0] for n in names if n not in params]
        fn.body = doc + pre + body
        return ast.fix_missing_locations(fn)

    def block(self, stmts, depth):
        out = []
        for s in stmts:
            out.extend(self.stmt(s, depth))
        return out

    def stmt(self, s, depth):
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, depth)
        if isinstance(s, ast.Return) and depth:
            v = s.value or ast.Constant(None)
            return [ast.Return(ast.Tuple([ast.Constant("r"), v], ast.Load()))]
        if isinstance(s, ast.Break):
            return [ast.Return(ast.Tuple([ast.Constant("b")], ast.Load()))]
        if isinstance(s, ast.Continue):
            return [ast.Return(ast.Constant(None))]
        for f in ("body", "orelse", "finalbody"):
            if hasattr(s, f) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                b = getattr(s, f)
                if isinstance(b, list):
                    setattr(s, f, self.block(b, depth))
        if isinstance(s, ast.Try):
            for h in s.handlers:
                h.body = self.block(h.body, depth)
        return [s]

    def loop(self, s, depth):
        self.k += 1
        k = self.k
        names = _assigned_py(s.body)
        out = []
        if isinstance(s, ast.For):
            tn = _assigned_py([ast.Assign([s.target], ast.Constant(None))])
            alln = sorted(set(names) | set(tn))
            f = ast.parse(f"def __b{k}(__it):\n    nonlocal {', '.join(alln)}\n    pass").body[0]
            f.body = [f.body[0], ast.Assign([s.target], ast.Name("__it", ast.Load()))] + self.block(s.body, depth + 1)
            call = ast.parse(f"__s{k} = __loop__({self.fn.name!r}, {k}, None, __b{k}, {tuple(alln)!r}, {tuple(tn)!r})").body[0]
            call.value.args[2] = s.iter
            out += [f, call]
        else:
            alln = sorted(set(names))
            c = ast.parse(f"def __c{k}():\n    return 1").body[0]
            c.body[0].value = s.test
            f = ast.parse(f"def __b{k}(__it):\n    {'nonlocal ' + ', '.join(alln) if alln else 'pass'}\n    pass").body[0]
            f.body = [f.body[0]] + self.block(s.body, depth + 1)
            call = ast.parse(f"__s{k} = __while__({self.fn.name!r}, {k}, __c{k}, __b{k}, {tuple(alln)!r})").body[0]
            out += [c, f, call]
        t = ast.parse(f"if __s{k} is not None and __s{k}[0] == 'r':\n    return __s{k}{'' if depth else '[1]'}").body[0]
        out.append(t)
        if s.orelse:
            e = ast.parse(f"if __s{k} is None:\n    pass").body[0]
            e.body = self.block(s.orelse, depth)
            out.append(e)
        return out


class CompXform(ast.NodeTransformer):
    """[f(x) for x in it]  ->  __comp__(lambda x: f(x), it)   (same evaluation order and scoping)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) > 1 or g.ifs or g.is_async or any(isinstance(x, ast.NamedExpr) for x in ast.walk(n)):
            return n
        if isinstance(g.target, ast.Name):
            args, star = [g.target.id], False
        elif isinstance(g.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in g.target.elts):
            args, star = [x.id for x in g.target.elts], True
        else:
            return n
        lam = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), n.elt)
        return ast.copy_location(ast.Call(ast.Name("__comp__", ast.Load()), [lam, g.iter, ast.Constant(star)], []), n)

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


def comp(f, it, star):
    call = (lambda v: f(*v)) if star else f
    if isinstance(it, Arr) and it.ndim >= 1 and it._shape[0].op != "num":
        it = SymItems(it)
    if isinstance(it, (SymItems, SymRange)):
        r = it.range if isinstance(it, SymItems) else it
        if not (r.lo.op == "num" and r.hi.op == "num"):
            acc = []

            def body(i):
                acc.append(call(it.item(i) if isinstance(it, SymItems) else i))
            generic_loop("comprehension", 0, r, body, (), ())
            return acc
    return [call(v) for v in it]


# ------------------------------------------------------------------ module loading
def where():
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith("<repo:"):
            name = f.f_code.co_name
            if name.startswith("__b") or name.startswith("__c"):
                name = f.f_code.co_qualname.split(".<locals>")[0]
            return f"{fn[6:-1]}:{name}"
        f = f.f_back
    return "contract"


CTX.where = where
CTX.bufs = []
CTX.loopnames = {}

LOOP_FUNCS = {"_solvers": {"line_search", "_irls_solver", "_monotonic_irls_solver"}, "_glm": {"_compute_linear_predictor", "_group_sum", "_solve_regularization_path"}}


class Loader:
    def __init__(self, src=None):
        self.src = src or SRC
        self.mods = {}
        self.hashes = {}
        from . import models
        self.models = models.MODELS(self)
        self.patches = []

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            base = name.split(".")[0] if name else None
            if base:
                return self.module(base)
            m = types.SimpleNamespace()
            for f in fromlist:
                setattr(m, f, self.module(f))
            return m
        m = self.models.get(name)
        if m is not None:
            if not fromlist and "." in name:
                return self.models.get(name.split(".")[0], m)
            return m
        top = name.split(".")[0]
        if top in self.models and not fromlist:
            return self.models[top]
        return _real_import(name, globals, locals, fromlist, level)

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        m = types.ModuleType(f"glum.{name}")
        self.mods[name] = m
        g = m.__dict__
        bi = dict(BUILTINS)
        bi["__import__"] = self.imp
        g["__builtins__"] = bi
        g["__name__"] = f"glum.{name}"
        g["__package__"] = "glum"
        py = os.path.join(self.src, name + ".py")
        pyx = os.path.join(self.src, name + ".pyx")
        g["__loop__"], g["__while__"], g["__UNINIT__"] = loop, while_, Uninit
        g["enumerate"], g["__comp__"] = sym_enumerate, comp
        if os.path.exists(py):
            text = open(py).read()
            self.hashes[name + ".py"] = hashlib.sha256(text.encode()).hexdigest()
            tree = ast.parse(text, py)
            if name in LOOP_FUNCS:
                tree = LoopXform(LOOP_FUNCS[name]).visit(tree)
                ast.fix_missing_locations(tree)
            tree = ast.fix_missing_locations(CompXform().visit(tree))
            code = compile(tree, f"<repo:{name}.py>", "exec", dont_inherit=True)
            exec(code, g)
        elif os.path.exists(pyx):
            text = open(pyx).read()
            self.hashes[name + ".pyx"] = hashlib.sha256(text.encode()).hexdigest()
            src, fns = cy2py.translate(pyx, name)
            g.update(__cf__=cf, __ci__=ci, __cu__=ci, __cv__=cv, __div__=cdiv, __fdiv__=cfdiv, __pow__=cpow, __ref__=Ref,
                     __arrptr__=arrptr, __merge__=merge, __ifx__=ifx, __libc__=libc)
            self.translated = getattr(self, "translated", {})
            self.translated[name] = src
            exec(compile(src, f"<repo:{name}.pyx>", "exec", dont_inherit=True), g)
            for fname, _ in fns:
                g[fname] = self.pyxwrap(g[fname])
        else:
            raise Unsupported(f"module {name} not found in the source tree")
        return m

    @staticmethod
    def pyxwrap(f):
        def w(*a, **k):
            CTX.pyx += 1
            try:
                return f(*a, **k)
            finally:
                CTX.pyx -= 1
        w.__name__ = f.__name__
        w.__wrapped__ = f
        return w

    def patch(self, mod, name, obj):
        m = self.module(mod)
        self.patches.append((m, name, m.__dict__.get(name)))
        m.__dict__[name] = obj

    def unpatch(self):
        while self.patches:
            m, n, o = self.patches.pop()
            if o is None:
                m.__dict__.pop(n, None)
            else:
                m.__dict__[n] = o


_LOADER = None


def loader():
    global _LOADER
    if _LOADER is None:
        _LOADER = Loader()
    return _LOADER
