"""Model of the numpy / numexpr / scipy.special surface used by glum: arrays of
symbolic length with element functions, exact real semantics.

Everything here is part of the trusted base (assumed contract of numpy); it is
cross-checked on every run by executing the same contracts on the real code."""
import builtins
import math
import sys
import types
import numpy as real_np
from . import terms as tm
from .terms import T, R, I, B
from .sym import S, CTX, Unsupported, term, wrap, is_inf, is_nan

I0 = tm.num(0, I)
I1 = tm.num(1, I)


def dim(x):
    """external dim -> term"""
    if isinstance(x, T):
        return x
    if isinstance(x, S):
        return x.t
    return tm.num(int(x), I)


def ext(t):
    if t.op == "num":
        return int(tm.val(t))
    return S(t)


class DType:
    def __init__(self, name, kind, real):
        self.name, self.kind, self.real = name, kind, real
        self.itemsize = real_np.dtype(real).itemsize if real else 8

    @property
    def type(self):
        return {"f": float64 if self.name == "float64" else float32, "i": int64, "b": bool_, "O": object_}[self.kind]

    def __eq__(self, o):
        if isinstance(o, DType):
            return self.name == o.name
        if o is None:
            return False
        try:
            return self.name == as_dtype(o).name
        except Unsupported:
            return NotImplemented

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"dtype({self.name})"


float64_dtype = DType("float64", "f", "float64")
float32_dtype = DType("float32", "f", "float32")
int64_dtype = DType("int64", "i", "int64")
int32_dtype = DType("int32", "i", "int32")
bool_dtype = DType("bool", "b", "bool")
object_dtype = DType("object", "O", None)
_DT = {d.name: d for d in (float64_dtype, float32_dtype, int64_dtype, int32_dtype, bool_dtype, object_dtype)}


def as_dtype(d):
    if isinstance(d, DType):
        return d
    if d is None:
        return float64_dtype
    if d in (float, "float", "f8", "d"):
        return float64_dtype
    if d in (int, "int", "i8"):
        return int64_dtype
    if d in (bool, "bool"):
        return bool_dtype
    if isinstance(d, str) and d in _DT:
        return _DT[d]
    if isinstance(d, type) and hasattr(d, "_dt"):
        return d._dt
    try:
        nm = real_np.dtype(d).name
        return _DT[nm]
    except Exception:
        raise Unsupported(f"dtype {d!r}")


class _NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)


class generic(metaclass=_NumMeta):
    _check = staticmethod(lambda x: isinstance(x, real_np.generic) or type(x) is S)


class number(generic):
    _check = staticmethod(lambda x: isinstance(x, real_np.number) or (type(x) is S and x.t.sort != B))


class floating(number):
    _check = staticmethod(lambda x: isinstance(x, real_np.floating) or (type(x) is S and x.t.sort == R))


class integer(number):
    _check = staticmethod(lambda x: isinstance(x, real_np.integer) or (type(x) is S and x.t.sort == I))


def _mk(name, base, dt, conv):
    def new(cls, x=0):
        return conv(x)
    return _NumMeta(name, (base,), {"_dt": dt, "__new__": new, "_check": staticmethod(base._check)})


def _toR(x):
    if isinstance(x, Arr):
        return x.astype(float64_dtype)
    if isinstance(x, S):
        return S(tm.toreal(x.t))
    return float(x)


def _toI(x):
    if isinstance(x, S):
        if x.t.sort == R:
            return S(trunc(x.t))
        return S(tm.toint_bool(x.t))
    return int(x)


def trunc(t):
    """C truncation toward zero"""
    if t.sort == I:
        return t
    f = tm.floor_(t)
    if t.op == "num":
        return tm.num(int(tm.val(t)), I)
    return tm.ite(tm.le(tm.ZERO, t), f, tm.neg(tm.floor_(tm.neg(t))))


def _toB(x):
    if isinstance(x, S):
        return wrap(x.t if x.t.sort == B else tm.not_(tm.eq(x.t, tm.num(0, x.t.sort))))
    return builtins.bool(x)


float64 = _mk("float64", floating, float64_dtype, _toR)
float32 = _mk("float32", floating, float32_dtype, _toR)
float_ = float64
int64 = _mk("int64", integer, int64_dtype, _toI)
int32 = _mk("int32", integer, int32_dtype, _toI)
intp = int64
bool_ = _mk("bool_", generic, bool_dtype, _toB)
object_ = _mk("object_", generic, object_dtype, lambda x: x)


def sort_of(dt):
    return {"f": R, "i": I, "b": B}.get(dt.kind, R)


def cast_t(t, sort):
    if t.sort == sort:
        return t
    if sort == R:
        return tm.toreal(t)
    if sort == I:
        return trunc(t) if t.sort == R else tm.toint_bool(t)
    return tm.not_(tm.eq(t, tm.num(0, t.sort)))


# ------------------------------------------------------------------ buffers
class Buf:
    _n = 0

    def __init__(self, fn, shape, sort, dtype=None, name=None):
        Buf._n += 1
        self.id = Buf._n
        self.fn = fn
        self.shape = tuple(shape)
        self.sort = sort
        self.dtype = dtype or {R: float64_dtype, I: int64_dtype, B: bool_dtype}[sort]
        self.ver = 0
        self.name = name
        self.memo = {}
        self.inf_hint = None
        self.writable = True
        CTX.bufs.append(self) if hasattr(CTX, "bufs") else None

    def get(self, idx):
        r = self.memo.get(idx)
        if r is None:
            r = cast_t(self.fn(*idx), self.sort)
            self.memo[idx] = r
        return r

    def snapshot(self):
        fn, memo, sort = self.fn, self.memo, self.sort

        def g(*idx):
            r = memo.get(idx)
            if r is None:
                r = cast_t(fn(*idx), sort)
                memo[idx] = r
            return r
        return g

    def update(self, cond, value):
        """cond(idx)->bool term, value(idx)->term"""
        if not self.writable:
            raise ValueError("assignment destination is read-only")
        old = self.snapshot()
        sort = self.sort

        def fn(*idx):
            c = cond(*idx)
            if c is tm.TRUE:
                return cast_t(value(*idx), sort)
            if c is tm.FALSE:
                return old(*idx)
            return tm.ite(c, cast_t(value(*idx), sort), old(*idx))
        self.fn = fn
        self.memo = {}
        self.ver += 1


WHOLE = [tm.var(f"whole!{d}", I) for d in range(8)]  # a write along a whole dimension


class Arr:
    """numpy.ndarray of the model"""
    __array_priority__ = 2000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, buf, shape=None, imap=None, inv=None, dtype=None):
        self.buf = buf
        self._shape = tuple(shape) if shape is not None else buf.shape
        self.imap = imap  # view idx -> buffer idx (None = identity)
        self.inv = inv    # buffer idx -> (cond, view idx)
        self._dtype = dtype
        self.mask = None

    # -- construction helpers
    @staticmethod
    def make(fn, shape, sort=R, dtype=None, name=None):
        return Arr(Buf(fn, [dim(s) for s in shape], sort, dtype, name))

    @staticmethod
    def symbol(name, shape, sort=R, fact=None, dtype=None):
        """array of unknown elements; fact(value term, *idx) -> bool term assumed for all elements."""
        shape = [dim(s) for s in shape]
        if fact is not None:
            def facts(*idx, _s=shape):
                v = tm.sel(name, *idx, sort=sort)
                rng = tm.and_(*[tm.and_(tm.le(I0, i), tm.lt(i, d)) for i, d in zip(idx, _s)])
                f = fact(v, *idx)
                return [tm.implies(rng, f)]
            CTX.facts[name] = facts
        return Arr.make(lambda *i: tm.sel(name, *i, sort=sort), shape, sort, dtype, name)

    # -- basic attributes
    @property
    def shape(self):
        return tuple(ext(s) for s in self._shape)

    @shape.setter
    def shape(self, s):
        raise Unsupported("assigning .shape")

    @property
    def ndim(self):
        return builtins.len(self._shape)

    @property
    def size(self):
        return ext(tm.mul(I1, *self._shape)) if self._shape else 1

    @property
    def dtype(self):
        return self._dtype or self.buf.dtype

    @property
    def sort(self):
        return self.buf.sort

    @property
    def flags(self):
        return types.SimpleNamespace(writeable=True, c_contiguous=True, f_contiguous=True, owndata=self.imap is None)

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if self.ndim == 2:
            return self.view(self._shape[::-1], lambda i, j: (j, i), lambda i, j: (tm.TRUE, (j, i)))
        raise Unsupported("T of >2d")

    def view(self, shape, imap, inv):
        om, oi = self.imap, self.inv
        m = imap if om is None else (lambda *i: om(*imap(*i)))
        if oi is None:
            iv = inv
        else:
            def iv(*b):
                c1, i1 = oi(*b)
                c2, i2 = inv(*i1)
                return tm.and_(c1, c2), i2
        return Arr(self.buf, shape, m, iv)

    def elem(self, *idx):
        b = self.imap(*idx) if self.imap else idx
        return self.buf.get(tuple(b))

    def snap(self):
        g = self.buf.snapshot()
        m = self.imap
        if CTX.reads is not None:
            CTX.reads.append((self.buf, None))
        return g if m is None else (lambda *i: g(*m(*i)))

    def write_all(self, value):
        """value(view idx)->term"""
        if CTX.written is not None:
            CTX.written.append((self.buf, None))
        if self.inv is None:
            self.buf.update(lambda *i: tm.TRUE, value)
        else:
            inv = self.inv
            self.buf.update(lambda *b: inv(*b)[0], lambda *b: value(*inv(*b)[1]))

    # -- indexing
    def _norm_index(self, k, d):
        """scalar index -> term (wrapping negatives the numpy way)."""
        if isinstance(k, (builtins.bool, real_np.bool_)):
            raise Unsupported("bool index")
        if isinstance(k, (int, real_np.integer)):
            t = tm.num(int(k), I)
            if k < 0 and not CTX.pyx:
                t = tm.add(d, t)
        else:
            t = term(k)
            if t.sort != I:
                raise IndexError("index is not an integer")
            if not CTX.pyx and CTX.entails(tm.lt(t, I0)):
                t = tm.add(t, d)
        if CTX.spec:
            return t
        inb = tm.and_(tm.le(I0, t), tm.lt(t, d))
        if CTX.pyx:
            CTX.oblige(f"index-in-bounds ({CTX.where()})", inb, "index")
        else:
            if not CTX.entails(inb):
                if CTX.entails(tm.not_(inb)):
                    raise IndexError("index out of bounds")
                CTX.oblige(f"index-in-bounds ({CTX.where()})", inb, "index")
        return t

    def _slice(self, s, d):
        """-> (start term, length term)"""
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            if isinstance(s.step, int) and s.step == -1 and s.start is None and s.stop is None:
                return ("rev", d)
            raise Unsupported("slice step")

        def lim(x, default):
            if x is None:
                return default
            t = term(x)
            if t.op == "num":
                v = int(tm.val(t))
                t = tm.add(d, t) if v < 0 else t
            elif CTX.entails(tm.lt(t, I0)):
                t = tm.add(d, t)
            elif not CTX.entails(tm.le(I0, t)):
                raise Unsupported("slice bound of unknown sign")
            # clip to [0, d]
            if not CTX.entails(tm.le(t, d)):
                t = tm.min_(t, d)
            if not CTX.entails(tm.le(I0, t)):
                t = tm.max_(t, I0)
            return t
        a, b = lim(s.start, I0), lim(s.stop, d)
        n = tm.sub(b, a)
        if not CTX.entails(tm.le(I0, n)):
            n = tm.max_(n, I0)
        return (a, n)

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        if builtins.len(key) == 1 and isinstance(key[0], Arr):
            k = key[0]
            if k.sort == B:
                if k.ndim == self.ndim or k.ndim == 1:
                    return Masked.of(self, k)
                raise Unsupported("bool mask of other rank")
            if isinstance(k, MaskIdx):
                return Masked.of(self, k.marr)
            # integer gather along axis 0
            f, g = self.snap(), k.snap()
            sh = k._shape + self._shape[1:]
            nk = k.ndim
            d = self._shape[0]
            if CTX.pyx:
                raise Unsupported("gather in pyx")
            self._gather_ob(k, d)
            return Arr.make(lambda *i: f(g(*i[:nk]), *i[nk:]), sh, self.sort, self.dtype)
        if builtins.len(key) == self.ndim > 1 and builtins.all(isinstance(k, Arr) and k.ndim == 1 and k.sort == I for k in key):
            return pair_gather(self, key)
        if builtins.any(isinstance(k, IxArr) for k in key):
            f = self.snap()
            ks = [k.a.snap() for k in key]
            for kk, dd in zip(key, self._shape):
                self._gather_ob(kk.a, dd)
            return Arr.make(lambda *i: f(*[g(x) for g, x in zip(ks, i)]), [k.a._shape[0] for k in key], self.sort)
        key = self._expand(key)
        return self._basic(key)

    def _gather_ob(self, k, d):
        b = tm.fresh("g", I)
        if k.ndim == 1:
            v = k.elem(b)
            goal = tm.forall(I0, k._shape[0], b, tm.and_(tm.le(I0, v), tm.lt(v, d)))
            if not CTX.entails(goal):
                CTX.oblige(f"gather-in-bounds ({CTX.where()})", goal, "index")

    def _expand(self, key):
        if builtins.any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            n = self.ndim - builtins.sum(1 for k in key if k is not Ellipsis and k is not None)
            key = key[:i] + (slice(None),) * n + key[i + 1:]
        n = builtins.sum(1 for k in key if k is not None)
        if n > self.ndim:
            raise IndexError("too many indices")
        return key + (slice(None),) * (self.ndim - n)

    def _basic(self, key):
        # map each view dim
        plan = []  # per source dim: ('i', term) or ('s', start, viewdim) or ('r', len, viewdim)
        shape = []
        src = 0
        for k in key:
            if k is None:
                shape.append(I1)
                plan.append(("n", builtins.len(shape) - 1))
                continue
            d = self._shape[src]
            if isinstance(k, slice):
                a, n = self._slice(k, d)
                if isinstance(a, str):
                    plan.append(("r", n, builtins.len(shape)))
                    shape.append(n)
                else:
                    plan.append(("s", a, builtins.len(shape), n))
                    shape.append(n)
            elif isinstance(k, Arr):
                raise Unsupported("mixed advanced indexing")
            else:
                plan.append(("i", self._norm_index(k, d)))
            src += 1

        def imap(*v):
            out = []
            for p in plan:
                if p[0] == "i":
                    out.append(p[1])
                elif p[0] == "s":
                    out.append(tm.add(p[1], v[p[2]]))
                elif p[0] == "r":
                    out.append(tm.sub(tm.sub(p[1], I1), v[p[2]]))
            return tuple(out)

        def inv(*b):
            conds = []
            v = [I0] * builtins.len(shape)
            j = 0
            for p in plan:
                if p[0] == "n":
                    continue
                if p[0] == "i":
                    conds.append(tm.eq(b[j], p[1]))
                elif p[0] == "s":
                    x = tm.sub(b[j], p[1])
                    if not (p[1] is I0):
                        conds.append(tm.le(I0, x))
                    if p[3] is not self._shape[j]:
                        conds.append(tm.lt(x, p[3]))
                    v[p[2]] = x
                else:
                    v[p[2]] = tm.sub(tm.sub(p[1], I1), b[j])
                j += 1
            return tm.and_(*conds), tuple(v)

        if not shape:
            b = imap()
            bb = self.imap(*b) if self.imap else b
            if CTX.reads is not None:
                CTX.reads.append((self.buf, tuple(bb)))
            return wrap_elem(self.buf.get(tuple(bb)))
        return self.view(shape, imap, inv)

    def __setitem__(self, key, val):
        if not isinstance(key, tuple):
            key = (key,)
        if builtins.len(key) == 1 and isinstance(key[0], Arr):
            k = key[0]
            if k.sort == B or isinstance(k, MaskIdx):
                m = (k.marr if isinstance(k, MaskIdx) else k).snap()
                nm = (k.marr if isinstance(k, MaskIdx) else k).ndim
                if isinstance(val, Masked):
                    if val.marr_key != Masked.key(k.marr if isinstance(k, MaskIdx) else k):
                        raise Unsupported("masked assignment with a different mask")
                    v = val.fn
                elif isinstance(val, Arr) and val.ndim == 0 or not isinstance(val, Arr):
                    tv = tval(val)
                    v = lambda *i: tv
                else:
                    raise Unsupported("masked assignment of an array")
                old = self.snap()
                self.write_all(lambda *i: tm.ite(m(*i[:nm]), cast_t(v(*i), self.sort), old(*i)))
                return
            # scatter a[idx] = val
            g = k.snap()
            n = k._shape[0]
            vf, vs = bfn(val)
            old = self.snap()
            self._gather_ob(k, self._shape[0])
            if vs != ():
                raise Unsupported("scatter of arrays")
            b = tm.fresh("sc", I)
            self.write_all(lambda *i: tm.ite(tm.exists(I0, n, b, tm.eq(g(b), i[0])), vf(), old(*i)))
            return
        if builtins.len(key) == self.ndim > 1 and builtins.all(isinstance(k, Arr) and k.ndim == 1 and k.sort == I for k in key):
            return pair_scatter(self, key, val)
        if builtins.any(isinstance(k, IxArr) for k in key):
            return ix_assign(self, key, val, None)
        key = self._expand(key)
        if builtins.all(not isinstance(k, slice) and k is not None and not isinstance(k, Arr) for k in key):
            idx = tuple(self._norm_index(k, d) for k, d in zip(key, self._shape))
            bb = self.imap(*idx) if self.imap else idx
            if isinstance(val, Arr) and val.ndim:
                raise ValueError("setting an array element with a sequence.")
            tv = cast_t(tval(val), self.sort)
            if CTX.written is not None:
                CTX.written.append((self.buf, tuple(bb)))
            self.buf.update(lambda *i: tm.and_(*[tm.eq(x, y) for x, y in zip(i, bb)]), lambda *i: tv)
            return
        v = self._basic(key)
        f, sh = bfn(val)
        out, maps = bshape([v._shape, sh], lambda: f"assignment {CTX.where()}")
        if builtins.len(out) != builtins.len(v._shape):
            raise ValueError("could not broadcast input array")
        m = maps[1]
        w, CTX.written = CTX.written, None
        try:
            v.write_all(lambda *i: f(*m(*i)))
        finally:
            CTX.written = w
        if w is not None:
            # whole rows or columns: the indices that are fixed, and all along the rest
            along = self.imap is None and builtins.all(not isinstance(k, slice) or k == slice(None) for k in key) and builtins.all(k is not None for k in key)
            w.append((self.buf, tuple(WHOLE[d] if isinstance(k, slice) else self._norm_index(k, self._shape[d]) for d, k in enumerate(key)) if along else None))

    def __iter__(self):
        d = self._shape[0]
        if d.op != "num":
            raise Unsupported("iteration over an array of symbolic length")
        for k in range(int(tm.val(d))):
            yield self[k]

    def __len__(self):
        d = self._shape[0]
        if d.op != "num":
            raise Unsupported("len() of symbolic array")
        return int(tm.val(d))

    def __bool__(self):
        if builtins.all(d is I1 for d in self._shape):
            return builtins.bool(wrap_elem(self.elem(*[I0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __symterm__(self):
        if builtins.all(d is I1 for d in self._shape):
            return self.elem(*[I0] * self.ndim)
        raise Unsupported("array used as a scalar")

    def item(self, *a):
        if a:
            return self[a[0]]
        return wrap_elem(self.__symterm__())

    def tolist(self):
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    # -- elementwise
    def _un(self, f, sort=None):
        s = self.snap()
        return Arr.make(lambda *i: f(s(*i)), self._shape, sort or self.sort, None)

    def __neg__(self):
        return self._un(lambda t: tm.neg(tm.toint_bool(t)))

    def __pos__(self):
        return self

    def __abs__(self):
        return self._un(lambda t: tm.abs_(t))

    def __invert__(self):
        if self.sort != B:
            raise Unsupported("~ of non-bool")
        return self._un(tm.not_, B)

    # -- membership (index arrays)
    _mem = None

    def with_members(self, f):
        if f is not None:
            self._mem = (f, self.buf.ver)
        return self

    def members(self):
        if self._mem is None or self.imap is not None or self._mem[1] != self.buf.ver:
            return None
        return self._mem[0]

    _inv = None

    def with_inverse(self, f):
        """f(j): position of the member j (elements are distinct)"""
        if f is not None:
            self._inv = (f, self.buf.ver)
        return self

    def inverse(self):
        if self._inv is None or self.imap is not None or self._inv[1] != self.buf.ver:
            return None
        return self._inv[0]

    def contains(self, j):
        """term: some element equals the integer term j"""
        f = self.members()
        if f is not None:
            return f(j)
        g = self.snap()
        b = tm.fresh("in", I)
        return tm.exists(I0, self._shape[0], b, tm.eq(g(b), j))

    # -- methods
    def copy(self, order=None):
        s = self.snap()
        return Arr.make(s, self._shape, self.sort, self.dtype).with_members(self.members()).with_inverse(self.inverse())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, order=None, casting=None, subok=True):
        dt = as_dtype(dt)
        if not copy and dt == self.dtype:
            return self
        s = self.snap()
        so = sort_of(dt)
        return Arr.make(lambda *i: cast_t(s(*i), so), self._shape, so, dt).with_members(self.members() if so != B else None).with_inverse(self.inverse() if so == I else None)

    def fill(self, v):
        t = tval(v)
        self.write_all(lambda *i: t)

    def ravel(self, order=None):
        return reshape(self, -1)

    flatten = ravel

    def reshape(self, *sh, order=None):
        return reshape(self, sh[0] if builtins.len(sh) == 1 else sh)

    def squeeze(self, axis=None):
        return squeeze(self)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return sum(self, axis=axis, keepdims=keepdims)

    def mean(self, axis=None, **k):
        return mean(self, axis=axis)

    def max(self, axis=None, **k):
        return max(self, axis=axis)

    def min(self, axis=None, **k):
        return min(self, axis=axis)

    def any(self, axis=None, **k):
        return any(self, axis=axis)

    def all(self, axis=None, **k):
        return all(self, axis=axis)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        if not isinstance(o, Arr):
            return NotImplemented
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def cumsum(self, *a, **k):
        raise Unsupported("cumsum")

    def nonzero(self):
        return where(self)

    def std(self, *a, **k):
        raise Unsupported("std")

    def transpose(self, *a):
        return self.T

    def clip(self, lo=None, hi=None):
        return clip(self, lo, hi)

    def diagonal(self):
        return diag(self)

    def repeat(self, *a, **k):
        raise Unsupported("repeat")

    def __repr__(self):
        return f"Arr{tuple(self._shape)}"

    def __eq__(self, o):
        return _cmp2(self, o, tm.eq, lambda b, r: False)

    def __ne__(self, o):
        return _cmp2(self, o, lambda a, b: tm.not_(tm.eq(a, b)), lambda b, r: True)

    def __lt__(self, o):
        return _cmp2(self, o, tm.lt, lambda b, r: b > 0)

    def __le__(self, o):
        return _cmp2(self, o, tm.le, lambda b, r: b > 0)

    def __gt__(self, o):
        return _cmp2(self, o, lambda a, b: tm.lt(b, a), lambda b, r: b < 0)

    def __ge__(self, o):
        return _cmp2(self, o, lambda a, b: tm.le(b, a), lambda b, r: b < 0)


class IxArr:
    def __init__(self, a):
        self.a = a


def wrap_elem(t):
    return wrap(t) if t.sort == B else S(t)


def tval(v):
    if isinstance(v, Arr):
        return v.__symterm__()
    return term(v)


def bfn(v):
    """value -> (element function, shape) for broadcasting"""
    if isinstance(v, Masked):
        raise Unsupported("masked operand mixed with full array")
    if isinstance(v, Arr):
        return v.snap(), v._shape
    if isinstance(v, (list, tuple)):
        return bfn(array(v))
    if isinstance(v, real_np.ndarray):
        return bfn(array(v.tolist()))
    t = term(v)
    return (lambda *i: t), ()


def same_dim(a, b):
    if a is b:
        return True
    if a.op == "num" and b.op == "num":
        return False
    if CTX.entails(tm.eq(a, b)):
        return True
    if CTX.entails(tm.not_(tm.eq(a, b))):
        return False
    return None


def bshape(shapes, where=None):
    n = builtins.max(builtins.len(s) for s in shapes)
    out = []
    maps = [[] for _ in shapes]
    for k in range(n):
        ds = []
        for s in shapes:
            j = k - (n - builtins.len(s))
            ds.append(s[j] if j >= 0 else None)
        d = I1
        for x in ds:
            if x is None or x is I1:
                continue
            if d is I1:
                d = x
                continue
            r = same_dim(d, x)
            if r is True:
                continue
            if r is False:
                raise ValueError("operands could not be broadcast together")
            # the dims are not known equal: numpy would raise unless equal (or 1)
            if CTX.branch(tm.eq(d, x)):
                continue
            raise ValueError("operands could not be broadcast together")
        out.append(d)
        for j, x in enumerate(ds):
            if x is None:
                continue
            if x is I1 and d is not I1:
                maps[j].append(None)
            else:
                maps[j].append(k)
    fm = [(lambda *i, mm=tuple(m): tuple(I0 if q is None else i[q] for q in mm)) for m in maps]
    return tuple(out), fm


def _bin2(a, b, f, sort=None):
    if isinstance(a, Masked) or isinstance(b, Masked):
        return Masked.binop(a, b, f, sort)
    fa, sa = bfn(a)
    fb, sb = bfn(b)
    if sa == () and sb == ():
        return wrap_elem(f(fa(), fb()))
    sh, (ma, mb) = bshape([sa, sb])
    if sort is None:
        so = _probe(f, fa, ma, fb, mb, builtins.len(sh))
    else:
        so = sort
    return Arr.make(lambda *i: f(fa(*ma(*i)), fb(*mb(*i))), sh, so)


def _probe(f, fa, ma, fb, mb, n):
    i = tuple(tm.var(f"?p{k}", I) for k in range(n))
    return f(fa(*ma(*i)), fb(*mb(*i))).sort


def _num2(f):
    return lambda x, y: f(tm.toint_bool(x), tm.toint_bool(y))


def _cmp2(a, b, f, infv, r=False):
    if b is None:
        return Arr.make(lambda *i: tm.FALSE, a._shape, B)
    if isinstance(b, str):
        raise Unsupported("array compared with str")
    if is_inf(b):
        v = tm.bconst(infv(b, r))
        return a._un(lambda t: v, B)
    if isinstance(b, (Arr, S, int, float, real_np.generic, list, tuple, Masked, real_np.ndarray)):
        return _bin2(a, b, f, B)
    return NotImplemented


def _mkop(name, f, inf=None):
    g = _num2(f)

    def op(a, b):
        if isinstance(b, (Arr, Masked, S, int, float, real_np.generic, list, tuple, real_np.ndarray, builtins.bool)):
            if is_inf(b):
                return _inf_op(name, a, b, False)
            r = _bin2(a, b, g)
            if name in ("add", "sub") and r.__class__ is Arr and a.__class__ in (Arr, MaskIdx) and a.members() is not None and isscalar(b) and tval(b).sort == I:
                mf, c = a.members(), tval(b)
                r.with_members(lambda j: mf(tm.sub(j, c) if name == "add" else tm.add(j, c)))
                pf = a.inverse()
                if pf is not None:
                    r.with_inverse(lambda j: pf(tm.sub(j, c) if name == "add" else tm.add(j, c)))
            return r
        return NotImplemented

    def rop(a, b):
        if isinstance(b, (Arr, Masked, S, int, float, real_np.generic, list, tuple, real_np.ndarray, builtins.bool)):
            if is_inf(b):
                return _inf_op(name, a, b, True)
            return _bin2(b, a, g)
        return NotImplemented

    def iop(a, b):
        if isinstance(a, Masked):
            return op(a, b)
        f2, sh = bfn(b)
        s = a.snap()
        out, (ma, mb) = bshape([a._shape, sh])
        if builtins.len(out) != builtins.len(a._shape):
            raise ValueError("non-broadcastable output operand")
        for x, y in zip(out, a._shape):
            if same_dim(x, y) is not True:
                raise ValueError("non-broadcastable output operand")
        r = lambda *i: g(s(*ma(*i)), f2(*mb(*i)))
        probe = r(*[tm.var(f"?p{k}", I) for k in range(a.ndim)])
        if a.sort == I and probe.sort == R:
            raise TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'")
        a.write_all(r)
        return a

    setattr(Arr, f"__{name}__", op)
    setattr(Arr, f"__r{name}__", rop)
    setattr(Arr, f"__i{name}__", iop)


def _inf_op(name, a, b, r):
    raise Unsupported("array op with inf")


_mkop("add", tm.add)
_mkop("sub", tm.sub)
_mkop("mul", tm.mul)
_mkop("truediv", tm.div)
_mkop("pow", tm.rpow)


def _floordiv(a, b):
    from .sym import _floordiv as f
    return f(a, b)


def _mod2(a, b):
    from .sym import _mod as f
    return f(a, b)


_mkop("floordiv", _floordiv)
_mkop("mod", _mod2)


def _mkbit(name, f):
    def op(a, b):
        if isinstance(b, (Arr, Masked, S, builtins.bool, real_np.bool_, real_np.ndarray, list)):
            if a.sort != B:
                raise Unsupported("bit op on ints")
            return _bin2(a, b, f, B)
        return NotImplemented

    def iop(a, b):
        r = op(a, b)
        s = r.snap()
        a.write_all(s)
        return a
    setattr(Arr, f"__{name}__", op)
    setattr(Arr, f"__r{name}__", op)
    setattr(Arr, f"__i{name}__", iop)


_mkbit("and", tm.and_)
_mkbit("or", tm.or_)
_mkbit("xor", lambda a, b: tm.not_(tm.iff(a, b)))


class Masked(Arr):
    """a[mask]: the selected elements in order; only order-free uses are modelled."""

    @staticmethod
    def key(marr):
        b = tm.var("?m", I)
        return marr.elem(*[tm.var(f"?m{k}", I) for k in range(marr.ndim)]).id

    @staticmethod
    def of(a, m):
        r = object.__new__(Masked)
        for x, y in zip(a._shape, m._shape):
            sd = same_dim(x, y)
            if sd is False:
                raise IndexError("boolean index did not match")
            if sd is None:
                raise Unsupported("mask of unknown length")
        r.fn = a.snap()
        r.m = m.snap()
        r.nm = m.ndim
        r.base = a._shape
        r.marr_key = Masked.key(m)
        r.marr = m
        r.buf = types.SimpleNamespace(sort=a.sort, dtype=a.dtype)
        r._dtype = a.dtype
        r.mask = m
        r.count = None
        return r

    def _like(self, fn, sort):
        r = object.__new__(Masked)
        r.__dict__.update(self.__dict__)
        r.fn = fn
        r.buf = types.SimpleNamespace(sort=sort, dtype={R: float64_dtype, I: int64_dtype, B: bool_dtype}[sort])
        r._dtype = r.buf.dtype
        return r

    @property
    def _shape(self):
        if self.nm != 1:
            raise Unsupported("shape of nd-masked")
        b = tm.fresh("m", I)
        n = tm.sum_(I0, self.base[0], b, tm.ite(self.m(b), I1, I0))
        return (n,) + tuple(self.base[1:])

    @_shape.setter
    def _shape(self, v):
        pass

    @property
    def ndim(self):
        return builtins.len(self.base) - self.nm + 1

    def snap(self):
        raise Unsupported("order-dependent use of a boolean-masked array")

    def elem(self, *i):
        raise Unsupported("element of a boolean-masked array")

    def _un(self, f, sort=None):
        s = self.fn
        return self._like(lambda *i: f(s(*i)), sort or self.sort)

    @staticmethod
    def binop(a, b, f, sort):
        x = a if isinstance(a, Masked) else b
        if isinstance(a, Masked) and isinstance(b, Masked):
            if a.marr_key != b.marr_key:
                raise Unsupported("different masks")
            fa, fb = a.fn, b.fn
        elif isinstance(a, Masked):
            fb, sb = bfn(b)
            if sb != ():
                raise Unsupported("masked op array")
            fa = a.fn
        else:
            fa, sa = bfn(a)
            if sa != ():
                raise Unsupported("masked op array")
            fb = b.fn
        g = lambda *i: f(fa(*i), fb(*i))
        so = sort or g(*[tm.var(f"?p{k}", I) for k in range(builtins.len(x.base))]).sort
        return x._like(g, so)

    def full(self, neutral):
        """array over the full range with `neutral` outside the mask"""
        m, f, nm = self.m, self.fn, self.nm
        return Arr.make(lambda *i: tm.ite(m(*i[:nm]), f(*i), neutral), self.base, self.sort)

    def copy(self, order=None):
        return self

    def astype(self, dt, **k):
        so = sort_of(as_dtype(dt))
        s = self.fn
        return self._like(lambda *i: cast_t(s(*i), so), so)


class MaskIdx(Arr):
    """np.where(mask)[0]: sorted positions where mask holds."""

    def __init__(self, marr):
        self.marr = marr.copy() if isinstance(marr, Arr) else marr
        n = marr._shape[0]
        b = tm.fresh("m", I)
        cnt = tm.sum_(I0, n, b, tm.ite(self.marr.elem(b), I1, I0))
        key = Masked.key(self.marr)
        name = f"nz{key}"
        c = tm.var(f"cnt{key}", I)
        m = self.marr.snap()
        CTX.assume(tm.and_(tm.le(I0, c), tm.le(c, n)))
        CTX.assume(tm.iff(tm.eq(c, I0), tm.not_(tm.exists(I0, n, b, m(b)))))
        CTX.facts[name] = lambda k: [tm.implies(tm.and_(tm.le(I0, k), tm.lt(k, c)),
                                                tm.and_(tm.le(I0, tm.sel(name, k, sort=I)), tm.lt(tm.sel(name, k, sort=I), n), m(tm.sel(name, k, sort=I))))]
        # np.where returns positions in increasing order
        CTX.facts[("pair", name)] = lambda k, l: [tm.implies(tm.and_(tm.le(I0, k), tm.lt(k, l), tm.lt(l, c)),
                                                             tm.lt(tm.sel(name, k, sort=I), tm.sel(name, l, sort=I)))]
        super().__init__(Buf(lambda k: tm.sel(name, k, sort=I), (c,), I))
        self.with_members(lambda j: tm.and_(tm.le(I0, j), tm.lt(j, n), m(j)))

    def astype(self, dt, **k):
        return self

    def copy(self, order=None):
        return self


# ------------------------------------------------------------------ numpy functions
ndarray = Arr
inf = math.inf
nan = math.nan
pi = math.pi
e = math.e
newaxis = None


def isscalar(x):
    return isinstance(x, (S, str)) or real_np.isscalar(x)


def asarray(x, dtype=None, order=None, copy=None, **k):
    if isinstance(x, Arr):
        if dtype is None or as_dtype(dtype) == x.dtype:
            return x
        return x.astype(dtype)
    return array(x, dtype=dtype)


asanyarray = asarray
ascontiguousarray = asarray
asfortranarray = asarray


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, Arr):
        r = x.copy()
        return r.astype(dtype) if dtype is not None else r
    if hasattr(x, "toarray"):
        return array(x.toarray())
    if isinstance(x, real_np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        if x and builtins.all(isinstance(v, str) for v in x):
            return real_np.array(x)  # names are concrete
        els = [array(v) if isinstance(v, (list, tuple, real_np.ndarray)) else v for v in x]
        if els and builtins.any(isinstance(v, Arr) and v.ndim > 0 for v in els):
            r = stack(els)
        else:
            ts = [tval(v) for v in els]
            sort = R
            if ts and builtins.all(t.sort == I for t in ts):
                sort = I
            if ts and builtins.all(t.sort == B for t in ts):
                sort = B

            def f(i):
                if i.op == "num":
                    # an index outside the array only occurs under a false guard
                    # (bounds are checked where the program indexes); as below,
                    # the value there is immaterial
                    k = int(tm.val(i))
                    return cast_t(ts[k if 0 <= k < builtins.len(ts) else -1], sort)
                r = cast_t(ts[-1], sort)
                for k in range(builtins.len(ts) - 2, -1, -1):
                    r = tm.ite(tm.eq(i, tm.num(k, I)), cast_t(ts[k], sort), r)
                return r
            r = Arr.make(f if ts else (lambda i: tm.num(0, sort)), [builtins.len(ts)], sort)
            if builtins.all(t.sort == I for t in ts):
                r.with_members(lambda j: tm.or_(*[tm.eq(j, t) for t in ts]))
        return r.astype(dtype) if dtype is not None else r
    if x is None:
        raise Unsupported("array(None)")
    if isinstance(x, range):
        return array(list(x), dtype)
    t = term(x)
    r = Arr.make(lambda: t, (), t.sort)
    return r.astype(dtype) if dtype is not None else r


def _shape_arg(s):
    if isinstance(s, (tuple, list)):
        return [dim(x) for x in s]
    if isinstance(s, Arr):
        raise Unsupported("array shape")
    return [dim(s)]


def full(shape, fill_value, dtype=None, order=None):
    t = tval(fill_value)
    if dtype is not None:
        t = cast_t(t, sort_of(as_dtype(dtype)))
    return Arr.make(lambda *i: t, _shape_arg(shape), t.sort, as_dtype(dtype) if dtype is not None else None)


def zeros(shape, dtype=None, order=None):
    return full(shape, 0.0, dtype or float64_dtype)


def ones(shape, dtype=None, order=None):
    return full(shape, 1.0, dtype or float64_dtype)


def empty(shape, dtype=None, order=None):
    dt = as_dtype(dtype)
    nm = tm.fresh("empty").args[0]
    return Arr.symbol(nm, _shape_arg(shape), sort_of(dt), dtype=dt)


def _like(f):
    def g(a, *args, dtype=None, **k):
        if isinstance(a, S) or isinstance(a, (int, float)):
            return f((), *args, dtype=dtype)
        if isinstance(a, (list, tuple)):
            a = array(a)
        return f(tuple(a._shape), *args, dtype=dtype or a.dtype)
    return g


zeros_like = _like(zeros)
ones_like = _like(ones)
empty_like = _like(empty)


def full_like(a, v, dtype=None):
    return full(tuple(a._shape), v, dtype or a.dtype)


def arange(*a, dtype=None):
    if builtins.len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
        if builtins.len(a) > 2:
            raise Unsupported("arange step")
    lt_, ht = term(lo), term(hi)
    if lt_.sort != I or ht.sort != I:
        raise Unsupported("float arange")
    n = tm.sub(ht, lt_)
    r = Arr.make(lambda i: tm.add(i, lt_), [n], I, as_dtype(dtype) if dtype else None)
    return r.with_members(lambda j: tm.and_(tm.le(lt_, j), tm.lt(j, ht))).with_inverse(lambda j: tm.sub(j, lt_))


def intersect1d(a, b, **k):
    """sorted common values: its length equals that of b (whose entries are distinct) iff every entry of b is in a"""
    a, b = asarray(a), asarray(b)
    if b.inverse() is None:
        raise Unsupported("intersect1d of arrays that may hold duplicates")
    ma, mb = a.members(), b.members()
    if ma is None or mb is None:
        raise Unsupported("intersect1d")
    n = b._shape[0]
    c = tm.fresh("common", I)
    CTX.assume(tm.and_(tm.le(I0, c), tm.le(c, n), tm.le(c, a._shape[0])))
    g = b.snap()
    k_ = tm.fresh("m", I)
    missing = tm.exists(I0, n, k_, tm.not_(ma(g(k_))))
    CTX.assume(tm.iff(tm.eq(c, n), tm.not_(missing)))
    j = tm.var("?j", I)
    t = mb(j)
    if t.op == "sel" and t.args[0] in CTX.facts:
        # the same fact per element (instantiated where a member of b is mentioned)
        old = CTX.facts[t.args[0]]
        CTX.facts[t.args[0]] = lambda j: old(j) + [tm.implies(tm.and_(tm.eq(c, n), mb(j)), ma(j))]
    nm = tm.fresh("common_values").args[0]
    return Arr.symbol(nm, [c], I).with_members(lambda j: tm.and_(ma(j), mb(j)))


def _elem(x, f, sort=None):
    if isinstance(x, Arr):
        return x._un(f, sort)
    if isinstance(x, (list, tuple, real_np.ndarray)):
        return array(x)._un(f, sort)
    return wrap_elem(f(term(x)))


def exp(x, **k):
    return _elem(x, lambda t: tm.exp(t), R)


def expm1(x, **k):
    return _elem(x, lambda t: tm.sub(tm.exp(t), tm.ONE), R)


def log(x, **k):
    return _elem(x, lambda t: tm.log(t), R)


def log1p(x, **k):
    return _elem(x, lambda t: tm.log(tm.add(tm.ONE, tm.toreal(t))), R)


def arctan(x, **k):
    return _elem(x, lambda t: tm.fn("arctan", tm.toreal(t)), R)


def tanh(x, **k):
    return _elem(x, lambda t: tm.fn("tanh", tm.toreal(t)), R)


def log2(x, **k):
    return _elem(x, lambda t: tm.div(tm.log(t), tm.log(tm.num(2, R))), R)


def sqrt(x, **k):
    return _elem(x, lambda t: tm.sqrt(t), R)


def square(x, **k):
    return _elem(x, lambda t: tm.ipow(t, 2))


def power(x, y):
    return _bin2(x, y, _num2(tm.rpow))


def absolute(x, **k):
    if is_inf(x):
        return math.inf
    return _elem(x, tm.abs_)


abs = absolute
fabs = absolute


def sign(x):
    return _elem(x, lambda t: tm.ite(tm.lt(tm.num(0, t.sort), t), tm.num(1, t.sort), tm.ite(tm.lt(t, tm.num(0, t.sort)), tm.num(-1, t.sort), tm.num(0, t.sort))))


def isfinite(x):
    if isinstance(x, float):
        return real_np.bool_(math.isfinite(x))
    if isinstance(x, S):
        return real_np.True_
    return _elem(x, lambda t: tm.TRUE, B)


def isnan(x):
    if isinstance(x, float):
        return math.isnan(x)
    return _elem(x, lambda t: tm.FALSE, B)


def isinf(x):
    if isinstance(x, float):
        return math.isinf(x)
    return _elem(x, lambda t: tm.FALSE, B)


def floor(x):
    return _elem(x, lambda t: tm.toreal(tm.floor_(t)), R)


def ceil(x):
    return _elem(x, lambda t: tm.toreal(tm.neg(tm.floor_(tm.neg(t)))), R)


class _UFunc2:
    def __init__(self, name, f, inf=None, sort=None):
        self.name, self.f, self.inf, self.sort = name, f, inf, sort

    def __call__(self, a, b, out=None, **k):
        if out is not None:
            raise Unsupported("out=")
        if self.inf is not None and (is_inf(a) or is_inf(b)):
            return self.inf(a, b)
        if self.name in _PYOPS and not isinstance(a, (list, tuple)):
            return _PYOPS[self.name](a, b)
        return _bin2(a, b, self.f, self.sort)

    def reduce(self, *a, **k):
        raise Unsupported(f"{self.name}.reduce")

    def outer(self, a, b):
        return _bin2(asarray(a)[:, None], asarray(b)[None, :], self.f, self.sort)


import operator as _op
_PYOPS = {"less": _op.lt, "less_equal": _op.le, "greater": _op.gt, "greater_equal": _op.ge, "equal": _op.eq, "not_equal": _op.ne}


def _maxinf(a, b):
    x, o = (a, b) if is_inf(a) else (b, a)
    if x < 0:
        return o if not is_inf(o) else builtins.max(a, b)
    return x if not isinstance(o, Arr) else (_ for _ in ()).throw(Unsupported("inf array"))


def _mininf(a, b):
    x, o = (a, b) if is_inf(a) else (b, a)
    if x > 0:
        return o if not is_inf(o) else builtins.min(a, b)
    return x if not isinstance(o, Arr) else (_ for _ in ()).throw(Unsupported("inf array"))


maximum = _UFunc2("maximum", _num2(tm.max_), _maxinf)
minimum = _UFunc2("minimum", _num2(tm.min_), _mininf)
fmax, fmin = maximum, minimum
less = _UFunc2("less", tm.lt)
less_equal = _UFunc2("less_equal", tm.le)
greater = _UFunc2("greater", lambda a, b: tm.lt(b, a))
greater_equal = _UFunc2("greater_equal", lambda a, b: tm.le(b, a))
equal = _UFunc2("equal", tm.eq)
not_equal = _UFunc2("not_equal", lambda a, b: tm.not_(tm.eq(a, b)))
add = _UFunc2("add", _num2(tm.add))
subtract = _UFunc2("subtract", _num2(tm.sub))
multiply = _UFunc2("multiply", _num2(tm.mul))
divide = true_divide = _UFunc2("divide", _num2(tm.div))
logical_and = _UFunc2("logical_and", lambda a, b: tm.and_(cast_t(a, B), cast_t(b, B)), None, B)
logical_or = _UFunc2("logical_or", lambda a, b: tm.or_(cast_t(a, B), cast_t(b, B)), None, B)
ufunc = _UFunc2


def logical_not(a):
    return _elem(a, lambda t: tm.not_(cast_t(t, B)), B)


def clip(x, lo=None, hi=None, out=None, a_min=None, a_max=None, **k):
    lo = lo if lo is not None else a_min
    hi = hi if hi is not None else a_max
    r = x
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        raise Unsupported("clip out")
    return r


def where(c, a=None, b=None):
    if a is None:
        if isinstance(c, Arr) and c.ndim == 1:
            return (MaskIdx(c if c.sort == B else c != 0),)
        if isinstance(c, real_np.ndarray):
            return tuple(array(v.tolist()) if v.size else zeros(0, dtype=int) for v in real_np.where(c))
        raise Unsupported("np.where with one argument")
    if isinstance(c, builtins.bool):
        return a if c else b
    if is_inf(a) or is_inf(b):
        raise Unsupported("where with inf")
    fc, sc = bfn(c)
    fa, sa = bfn(a)
    fb, sb = bfn(b)
    if sc == () and sa == () and sb == ():
        return wrap_elem(tm.ite(cast_t(fc(), B), *tm.unify(fa(), fb())))
    sh, (mc, ma, mb) = bshape([sc, sa, sb])
    g = lambda *i: tm.ite(cast_t(fc(*mc(*i)), B), *tm.unify(fa(*ma(*i)), fb(*mb(*i))))
    p = [tm.var(f"?p{k}", I) for k in range(builtins.len(sh))]
    x, y = tm.unify(fa(*ma(*p)), fb(*mb(*p)))
    return Arr.make(g, sh, x.sort)


def flatnonzero(c):
    return where(c)[0]


def nonzero(c):
    return where(c)


def count_nonzero(c):
    return sum(asarray(c) != 0)


def sum(a, axis=None, keepdims=False, **k):
    if isinstance(a, Masked):
        if axis is not None:
            raise Unsupported("masked sum axis")
        return sum(a.full(tm.num(0, a.sort if a.sort != B else I)) if a.sort != B else a.full(tm.FALSE))
    if not isinstance(a, Arr):
        if isinstance(a, (list, tuple)):
            a = array(a)
        else:
            return a
    f = a.snap()
    num = lambda t: tm.toint_bool(t)
    n = a.ndim
    if n == 0:
        return wrap_elem(f())
    if axis is None:
        axes = list(range(n))
    else:
        axes = [axis % n] if isinstance(axis, int) else [x % n for x in axis]
    bs = {k: tm.fresh("s", I) for k in axes}

    def g(*i):
        it = iter(i)
        full_ = [bs[k] if k in bs else next(it) for k in range(n)]
        t = num(f(*full_))
        for k in reversed(axes):
            t = tm.sum_(I0, a._shape[k], bs[k], t)
        return t
    rest = [a._shape[k] for k in range(n) if k not in bs]
    if keepdims:
        raise Unsupported("keepdims")
    if not rest:
        return S(g())
    return Arr.make(g, rest, I if a.sort == B else a.sort)


def mean(a, axis=None, **k):
    a = asarray(a)
    if isinstance(a, Masked):
        return sum(a) / ext(a._shape[0])
    n = tm.mul(I1, *a._shape) if axis is None else a._shape[axis]
    return sum(a, axis=axis) / ext(n)


def unique(a, **k):
    """the distinct values: at least one, and exactly one if and only if all are equal"""
    a = asarray(a)
    inverse = k.pop("return_inverse", False)
    if k or a.ndim != 1 or a.sort == B or (inverse and a.sort != I):
        raise Unsupported("unique")
    f, n = a.snap(), a._shape[0]
    cnt, b = tm.fresh("n_unique", I), tm.fresh("u", I)
    CTX.assume(tm.and_(tm.le(I0, cnt), tm.le(cnt, n), tm.implies(tm.le(I1, n), tm.le(I1, cnt))))
    CTX.assume(tm.implies(tm.le(I1, n), tm.iff(tm.eq(cnt, I1), tm.forall(I0, n, b, tm.eq(f(b), f(I0))))))
    u = tm.fresh("unique").args[0]
    event = {"of": a.copy(), "count": S(cnt)}
    CTX.events.append(("call", "unique", event))
    if not inverse:
        return Arr.symbol(u, [cnt], a.sort)
    # the position of a value among the distinct ones is a function of the value, and the value is found there
    # (outside its range the array of labels is arbitrary, so it may be taken to repeat its first label there)
    at = tm.fresh("position").args[0]
    CTX.facts[at] = lambda x: [tm.implies(tm.le(I1, n), tm.and_(tm.le(I0, tm.sel(at, x, sort=I)), tm.lt(tm.sel(at, x, sort=I), cnt), tm.eq(tm.sel(u, tm.sel(at, x, sort=I), sort=I), x)))]
    event["inverse"] = Arr.make(lambda i: tm.sel(at, f(i), sort=I), [n], I)
    return Arr.symbol(u, [cnt], a.sort), Arr.make(lambda i: tm.sel(at, f(i), sort=I), [n], I)


def average(a, axis=None, weights=None, **k):
    a = asarray(a)
    if weights is None:
        return mean(a, axis)
    w = asarray(weights)
    if axis is not None:
        if a.ndim == 2 and w.ndim == 1:
            s = sum(w)
            return dot(w, a) / s if axis == 0 else dot(a, w) / s
        if a.ndim == w.ndim == 1 and axis in (0, -1):
            return sum(a * w) / sum(w)
        raise Unsupported("average axis")
    return sum(a * w) / sum(w)


def any(a, axis=None, **k):
    if isinstance(a, (builtins.bool, real_np.bool_)):
        return builtins.bool(a)
    if isinstance(a, S):
        return _toB(a)
    if isinstance(a, Masked):
        return any(a.full(tm.FALSE)) if a.sort == B else any(a != 0)
    a = asarray(a)
    if axis is not None and a.ndim == 2:
        f = a.snap()
        b = tm.fresh("s", I)
        ax = axis % 2
        return Arr.make(lambda i: tm.exists(I0, a._shape[ax], b, cast_t(f(*((b, i) if ax == 0 else (i, b))), B)), [a._shape[1 - ax]], B)
    f = a.snap()
    bs = [tm.fresh("s", I) for _ in range(a.ndim)]
    t = cast_t(f(*bs), B)
    for b, d in reversed(list(zip(bs, a._shape))):
        t = tm.exists(I0, d, b, t)
    return wrap(t)


def all(a, axis=None, **k):
    if isinstance(a, (builtins.bool, real_np.bool_)):
        return builtins.bool(a)
    if isinstance(a, S):
        return _toB(a)
    if isinstance(a, Masked):
        return all(a.full(tm.TRUE)) if a.sort == B else all(a != 0)
    a = asarray(a)
    if a.sort != B:
        a = a != 0
    r = any(~a, axis=axis)
    if isinstance(r, Arr):
        return ~r
    return (not r) if isinstance(r, builtins.bool) else wrap(tm.not_(r.t))


_extmemo = {}


def _extremum(a, axis, ismax):
    if isinstance(a, Masked):
        if axis is not None or a.nm != 1 or builtins.len(a.base) != 1:
            raise Unsupported("max of masked")
        n, f, m = a.base[0], a.fn, a.m
        b = tm.fresh("x", I)
        if not CTX.branch(tm.exists(I0, n, b, m(b))):
            raise ValueError("zero-size array to reduction operation has no identity")
        M = tm.fresh("max" if ismax else "min", a.sort)
        CTX.assume(tm.forall(I0, n, b, tm.or_(tm.not_(m(b)), tm.le(f(b), M) if ismax else tm.le(M, f(b)))))
        CTX.assume(tm.exists(I0, n, b, tm.and_(m(b), tm.eq(f(b), M))))
        x = tm.fresh("x", I)
        for sign in (lambda v: tm.le(tm.ZERO, v), lambda v: tm.le(v, tm.ZERO)):    # M is one of the selected entries
            if CTX.entails(tm.or_(tm.lt(x, I0), tm.le(n, x), tm.not_(m(x)), sign(f(x)))):
                CTX.assume(sign(M))
        return S(M)
    a = asarray(a)
    if a.ndim == 0:
        return wrap_elem(a.elem())
    if axis is not None:
        raise Unsupported("max axis")
    keep = [k for k, d in enumerate(a._shape) if not (d.op == "num" and tm.val(d) == 1)]
    if keep and len(keep) < a.ndim:
        a = a[tuple(slice(None) if k in keep else 0 for k in range(a.ndim))]
    f = a.snap()
    if builtins.all(d.op == "num" for d in a._shape) and a.ndim == 1:
        n = int(tm.val(a._shape[0]))
        if n == 0:
            raise ValueError("zero-size array to reduction operation")
        r = f(tm.num(0, I))
        for k in range(1, n):
            r = (tm.max_ if ismax else tm.min_)(r, f(tm.num(k, I)))
        return S(r)
    n = tm.mul(I1, *a._shape)
    if not CTX.entails(tm.lt(I0, n)):
        if not CTX.branch(tm.lt(I0, n)):
            raise ValueError("zero-size array to reduction operation has no identity")
    can = [tm.var(f"@9{k}.0", I) for k in range(a.ndim)]
    body = f(*can)
    key = (ismax, tm.alpha(body).id, tuple(d.id for d in a._shape))
    M = _extmemo.get(key)
    if M is None:
        M = tm.fresh("max" if ismax else "min", a.sort)
        _extmemo[key] = M
    bs = [tm.fresh("x", I) for _ in range(a.ndim)]
    v = f(*bs)
    bound = tm.le(v, M) if ismax else tm.le(M, v)
    ex = tm.eq(v, M)
    nb = tm.not_(bound)
    for b, d in reversed(list(zip(bs, a._shape))):
        nb = tm.exists(I0, d, b, nb)
        ex = tm.exists(I0, d, b, ex)
    CTX.assume(tm.not_(nb))
    CTX.assume(ex)
    if ismax and v.op != "num" and CTX.entails(tm.le(tm.ZERO, v)):   # no bound on the indices needed: only called non-negative if it is for all
        CTX.assume(tm.le(tm.ZERO, M))
    return S(M)


def max(a, axis=None, **k):
    return _extremum(a, axis, True)


def min(a, axis=None, **k):
    return _extremum(a, axis, False)


amax, amin = max, min


def linspace(start, stop, num=50, endpoint=True, dtype=None):
    if not endpoint:
        raise Unsupported("linspace without end point")
    n = term(num)
    if not CTX.branch(tm.le(tm.num(2, I), n)):
        return Arr.make(lambda k: term(start), [n], R)
    a, b = tm.toreal(term(start)), tm.toreal(term(stop))
    return Arr.make(lambda k: tm.add(a, tm.div(tm.mul(tm.toreal(k), tm.sub(b, a)), tm.toreal(tm.sub(n, I1)))), [n], R)


def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    x = linspace(start, stop, num, endpoint)
    return exp(x) if base == math.e else base ** x


def argmin(a, axis=None):
    a = asarray(a)
    if axis is None and a.ndim > 1:
        return _flat_argmin(a)
    if a.ndim != 1:
        raise Unsupported("argmin nd")
    M = min(a)
    k = tm.fresh("argmin", I)
    f = a.snap()
    b = tm.fresh("x", I)
    CTX.assume(tm.and_(tm.le(I0, k), tm.lt(k, a._shape[0])))
    CTX.assume(tm.forall(I0, a._shape[0], b, tm.le(f(k), f(b))))
    CTX.assume(tm.forall(I0, k, b, tm.lt(f(k), f(b))))
    return S(k)


class FlatIndex:
    """position in the row-major order of an array, kept as the multi-index it stands for"""

    def __init__(self, idx, shape):
        self.idx, self.shape = idx, shape


def _flat_argmin(a):
    """the first smallest entry in row-major order"""
    f, sh = a.snap(), a._shape
    ks = [tm.fresh("argmin", I) for _ in sh]
    for k, d in zip(ks, sh):
        CTX.assume(tm.and_(tm.le(I0, k), tm.lt(k, d)))
    def every(q, hi, body):
        """body(index) for all indices of axis q below hi"""
        if sh[q].op == "num" and tm.val(sh[q]) <= 16:
            return tm.and_(*[tm.implies(tm.lt(tm.num(v, I), hi), body(tm.num(v, I))) for v in range(int(tm.val(sh[q])))])
        x = tm.fresh("x", I)
        return tm.forall(I0, hi, x, body(x))

    def rest(q, ix, body):
        return body(ix) if q == a.ndim else every(q, sh[q], lambda x: rest(q + 1, ix + [x], body))
    for first in range(a.ndim):
        # entries agreeing with the result before axis `first`, smaller index there: strictly larger
        CTX.assume(every(first, ks[first], lambda x: rest(first + 1, ks[:first] + [x], lambda ix: tm.lt(f(*ks), f(*ix)))))
    CTX.assume(rest(0, [], lambda ix: tm.le(f(*ks), f(*ix))))
    CTX.events.append(("call", "argmin", {"at": [S(k) for k in ks]}))
    return FlatIndex(ks, list(sh))


def unravel_index(k, shape):
    if isinstance(k, FlatIndex):
        sh = [dim(d) for d in shape]
        if builtins.len(sh) == builtins.len(k.shape) and builtins.all(same_dim(x, y) is True for x, y in zip(sh, k.shape)):
            return tuple(S(i) for i in k.idx)
    raise Unsupported("unravel_index")


def sort(a, axis=-1):
    """sorted entries: a non-decreasing permutation"""
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("sort nd")
    n, f = a._shape[0], a.snap()
    pi, inv = tm.fresh("perm").args[0], tm.fresh("perm").args[0]
    inside = lambda v: tm.and_(tm.le(I0, v), tm.lt(v, n))
    p = Arr.symbol(pi, [n], I, fact=lambda v, i: inside(v)).snap()
    q = Arr.symbol(inv, [n], I, fact=lambda v, i: inside(v)).snap()
    b = tm.fresh("x", I)
    CTX.assume(tm.forall(I0, n, b, tm.and_(inside(p(b)), inside(q(b)), tm.eq(p(q(b)), b), tm.eq(q(p(b)), b))))
    CTX.assume(tm.forall(I0, tm.sub(n, I1), b, tm.le(f(p(b)), f(p(tm.add(b, I1))))))
    return Arr.make(lambda i: f(p(i)), [n], a.sort)


def tile(a, reps):
    a = asarray(a)
    if a.ndim == 1 and isinstance(reps, tuple) and builtins.len(reps) == 2 and reps[1] == 1:
        f = a.snap()
        return Arr.make(lambda i, j: f(j), [dim(reps[0]), a._shape[0]], a.sort)
    raise Unsupported("tile")


def argmax(a, axis=None):
    return argmin(-asarray(a), axis)


def dot(a, b):
    if hasattr(b, "__symdot__"):
        return b.__symdot__(a)
    if isinstance(a, (list, tuple)):
        a = array(a)
    if isinstance(b, (list, tuple)):
        b = array(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr) or a.ndim == 0 or b.ndim == 0:
        return a * b
    if isinstance(a, Masked) or isinstance(b, Masked):
        return sum(a * b)
    fa, fb = a.snap(), b.snap()
    m, n = a._shape[-1], b._shape[-2] if b.ndim > 1 else b._shape[0]
    r = same_dim(m, n)
    if r is False or (r is None and not CTX.branch(tm.eq(m, n))):
        raise ValueError("shapes not aligned")
    k = tm.fresh("d", I)

    def prod(x, y):
        return tm.mul(tm.toint_bool(x), tm.toint_bool(y))
    if a.ndim == 1 and b.ndim == 1:
        return S(tm.sum_(I0, m, k, prod(fa(k), fb(k))))
    so = R if R in (a.sort, b.sort) else I
    if a.ndim == 2 and b.ndim == 1:
        return Arr.make(lambda i: tm.sum_(I0, m, k, prod(fa(i, k), fb(k))), [a._shape[0]], so)
    if a.ndim == 1 and b.ndim == 2:
        return Arr.make(lambda j: tm.sum_(I0, m, k, prod(fa(k), fb(k, j))), [b._shape[1]], so)
    if a.ndim == 2 and b.ndim == 2:
        return Arr.make(lambda i, j: tm.sum_(I0, m, k, prod(fa(i, k), fb(k, j))), [a._shape[0], b._shape[1]], so)
    raise Unsupported("dot of >2d")


matmul = dot
inner = dot


def vdot(a, b):
    return dot(a, b)


def outer(a, b):
    return _bin2(asarray(a)[:, None], asarray(b)[None, :], _num2(tm.mul))


def concatenate(xs, axis=0, **k):
    xs = [asarray(x) for x in xs]
    if builtins.any(isinstance(x, Masked) for x in xs):
        raise Unsupported("concatenate masked")
    nd = xs[0].ndim
    if nd == 0:
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = axis % nd
    fs = [x.snap() for x in xs]
    offs = [I0]
    for x in xs:
        offs.append(tm.add(offs[-1], x._shape[ax]))
    sort = R
    sorts = {x.sort for x in xs}
    if sorts == {I} or sorts == {B}:
        sort = sorts.pop()

    def g(*i):
        j = i[ax]
        r = None
        for k in range(builtins.len(xs) - 1, -1, -1):
            ii = list(i)
            ii[ax] = tm.sub(j, offs[k])
            v = cast_t(fs[k](*ii), sort)
            if r is None:
                r = v
            else:
                c = tm.lt(j, offs[k + 1])
                r = tm.ite(c, v, r)
        return r
    sh = list(xs[0]._shape)
    sh[ax] = offs[-1]
    for x in xs[1:]:
        for d in range(nd):
            if d != ax and same_dim(x._shape[d], xs[0]._shape[d]) is not True:
                raise ValueError("all the input array dimensions must match")
    r = Arr.make(g, sh, sort)
    if nd == 1 and builtins.all(x.members() is not None for x in xs):
        ms = [x.members() for x in xs]
        r.with_members(lambda j: tm.or_(*[m(j) for m in ms]))
    return r


def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, axis=0 if xs[0].ndim == 1 else 1)


def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], axis=0)


def column_stack(xs):
    return concatenate([x[:, None] if x.ndim == 1 else x for x in xs], axis=1)


def append(a, b, axis=None):
    return concatenate([atleast_1d(a), atleast_1d(b)])


def insert(a, k, v):
    if isinstance(k, int) and k == 0:
        return concatenate([atleast_1d(v), a])
    raise Unsupported("insert")


def stack(xs, axis=0):
    if hasattr(xs, "__symstack__"):
        return xs.__symstack__(axis)
    xs = [asarray(x) for x in xs]
    if axis == 0:
        return concatenate([x[None] if x.ndim else x.reshape(1) for x in xs], axis=0)
    return concatenate([x[:, None] for x in xs], axis=1)


def atleast_1d(x):
    x = asarray(x)
    return x if x.ndim >= 1 else Arr.make(lambda i, f=x.snap(): f(), [1], x.sort)


def atleast_2d(x):
    x = asarray(x)
    if x.ndim >= 2:
        return x
    if x.ndim == 1:
        return x[None, :]
    return Arr.make(lambda i, j, f=x.snap(): f(), [1, 1], x.sort)


def _reshape_list(els, sh):
    """a list of N equally shaped arrays, to an array whose leading (numeric) dimensions have N entries"""
    sh, lead, N = list(sh), [], 1
    while sh and isinstance(sh[0], int) and sh[0] > 0 and N * sh[0] <= builtins.len(els):
        N *= sh[0]
        lead.append(sh.pop(0))
    if N != builtins.len(els):
        raise Unsupported("reshape of a list")
    els = [x.__symstack__(0) if hasattr(x, "__symstack__") else asarray(x) for x in els]
    if builtins.any(builtins.len(e._shape) != builtins.len(els[0]._shape) or builtins.any(same_dim(x, y) is not True for x, y in zip(e._shape, els[0]._shape)) for e in els):
        raise Unsupported("reshape of a list of different shapes")
    rest = [els[0]._shape[k] for k in range(els[0].ndim)]
    extra = 0
    for k, d in enumerate(sh):
        if k < builtins.len(rest):
            if not (isinstance(d, int) and d == -1) and same_dim(dim(d), rest[k]) is not True:
                raise Unsupported("reshape of a list")
        elif isinstance(d, int) and d in (1, -1):
            extra += 1
        else:
            raise Unsupported("reshape of a list")
    if builtins.len(sh) < builtins.len(rest) or builtins.sum(isinstance(d, int) and d == -1 for d in sh) > 1:
        raise Unsupported("reshape of a list")
    fs = [e.snap() for e in els]

    def g(*ix):
        head, tail = ix[:builtins.len(lead)], ix[builtins.len(lead):builtins.len(ix) - extra]
        r = None
        for t in range(N - 1, -1, -1):
            k, c = t, []
            for d in reversed(lead):
                c.append(k % d)
                k //= d
            cond = tm.and_(*[tm.eq(h, tm.num(v, I)) for h, v in zip(head, reversed(c))])
            if cond is tm.FALSE:
                continue
            v = fs[t](*tail)
            r = v if r is None else tm.ite(cond, v, r)
        return fs[-1](*tail) if r is None else r
    return Arr.make(g, [tm.num(d, I) for d in lead] + rest + [I1] * extra, els[0].sort)


def reshape(a, sh, order=None):
    if isinstance(a, list) and isinstance(sh, (tuple, list)) and a and builtins.any(hasattr(x, "__symstack__") or isinstance(x, Arr) for x in a):
        return _reshape_list(a, sh)
    a = asarray(a)
    if not isinstance(sh, (tuple, list)):
        sh = (sh,)
    sh = [x for x in sh]
    # supported: insertion/removal of unit dims, same shape
    old = [d for d in a._shape if d is not I1]
    known = [dim(x) for x in sh if not (isinstance(x, int) and x == -1)]
    newd = []
    minus = [isinstance(x, int) and x == -1 for x in sh]
    if builtins.sum(minus) == 1:
        rest = [d for d in known if d is not I1]
        cand = list(old)
        for d in rest:
            if d in cand:
                cand.remove(d)
            else:
                raise Unsupported("reshape")
        if builtins.len(cand) > 1:
            if builtins.len(a._shape) == 2 and builtins.len(sh) == 1:
                raise Unsupported("ravel of a matrix")
            raise Unsupported("reshape")
        m = cand[0] if cand else I1
        newd = [m if f else dim(x) for f, x in zip(minus, sh)]
    else:
        newd = known
    if builtins.len([d for d in newd if d is not I1]) != builtins.len(old) or builtins.any(
            same_dim(x, y) is not True for x, y in zip([d for d in newd if d is not I1], old)):
        # scalar-size case
        raise Unsupported(f"reshape {a._shape} -> {sh}")
    onz = [k for k, d in enumerate(a._shape) if d is not I1]
    nnz = [k for k, d in enumerate(newd) if d is not I1]

    def imap(*i):
        out = [I0] * a.ndim
        for o, n in zip(onz, nnz):
            out[o] = i[n]
        return tuple(out)

    def inv(*b):
        out = [I0] * builtins.len(newd)
        for o, n in zip(onz, nnz):
            out[n] = b[o]
        return tm.TRUE, tuple(out)
    return a.view(newd, imap, inv)


def ravel(a):
    return reshape(a, -1)


def squeeze(a, axis=None):
    if not isinstance(a, Arr):
        return a
    # a symbolic dimension may be 1, in which case it is dropped: fork
    keep = [k for k, d in enumerate(a._shape) if not (d is I1 or (d.op != "num" and CTX.branch(tm.eq(d, I1))))]
    if builtins.len(keep) == a.ndim:
        return a
    if not keep:
        return Arr.make(lambda f=a.snap(), z=(I0,) * a.ndim: f(*z), (), a.sort)
    sh = [a._shape[k] for k in keep]

    def imap(*i):
        out = [I0] * a.ndim
        for k, x in zip(keep, i):
            out[k] = x
        return tuple(out)
    return a.view(sh, imap, lambda *b: (tm.TRUE, tuple(b[k] for k in keep)))


def broadcast_arrays(*xs):
    xs = [asarray(x) for x in xs]
    sh, maps = bshape([x._shape for x in xs])
    return tuple(Arr.make(lambda *i, f=x.snap(), m=m: f(*m(*i)), sh, x.sort) for x, m in zip(xs, maps))


def broadcast_to(x, shape):
    x = asarray(x)
    sh, maps = bshape([x._shape, tuple(_shape_arg(shape))])
    return Arr.make(lambda *i, f=x.snap(), m=maps[0]: f(*m(*i)), sh, x.sort)


def diag(a, k=0):
    a = asarray(a)
    if k != 0:
        raise Unsupported("diag k")
    f = a.snap()
    if a.ndim == 1:
        return Arr.make(lambda i, j: tm.ite(tm.eq(i, j), f(i), tm.num(0, a.sort)), [a._shape[0]] * 2, a.sort)
    return Arr.make(lambda i: f(i, i), [a._shape[0]], a.sort)


def eye(n, m=None, **k):
    return Arr.make(lambda i, j: tm.ite(tm.eq(i, j), tm.ONE, tm.ZERO), [dim(n), dim(m if m is not None else n)], R)


identity = eye


def diag_indices_from(a):
    n = a._shape[0]
    if same_dim(n, a._shape[1]) is not True:
        raise ValueError("All dimensions of input must be of equal length")
    r = arange(ext(n))
    return (r, r)


def ix_(*xs):
    return tuple(IxArr(asarray(x)) for x in xs)


def ix_assign(self, key, val, combine):
    """a[np.ix_(r, c)] = v for index arrays of distinct entries"""
    ks = [k.a for k in key]
    if builtins.any(not isinstance(k, IxArr) for k in key) or builtins.len(ks) != self.ndim:
        raise Unsupported("np.ix_ assignment")
    mem, pos = [k.members() for k in ks], [k.inverse() for k in ks]
    if None in mem or None in pos:
        raise Unsupported("np.ix_ assignment with possibly repeated indices")
    for k, d in zip(ks, self._shape):
        self._gather_ob(k, d)
    f, sh = bfn(val)
    out, maps = bshape([tuple(k._shape[0] for k in ks), sh], lambda: f"assignment {CTX.where()}")
    if builtins.len(out) != builtins.len(ks):
        raise ValueError("could not broadcast input array")
    m, old = maps[1], self.snap()
    self.write_all(lambda *i: tm.ite(tm.and_(*[q(x) for q, x in zip(mem, i)]),
                                     cast_t(f(*m(*[q(x) for q, x in zip(pos, i)])), self.sort), old(*i)))


def pair_gather(self, ks):
    """a[r, c] for index arrays of one length"""
    f, gs = self.snap(), [k.snap() for k in ks]
    for k, d in zip(ks, self._shape):
        self._gather_ob(k, d)
    return Arr.make(lambda i: f(*[g(i) for g in gs]), [ks[0]._shape[0]], self.sort)


def pair_scatter(self, ks, val):
    """a[r, c] = v, r of distinct entries"""
    mem, pos = ks[0].members(), ks[0].inverse()
    if mem is None or pos is None:
        raise Unsupported("assignment with possibly repeated indices")
    for k, d in zip(ks, self._shape):
        self._gather_ob(k, d)
    f, sh = bfn(val)
    out, maps = bshape([(ks[0]._shape[0],), sh], lambda: f"assignment {CTX.where()}")
    m, old, gs = maps[1], self.snap(), [k.snap() for k in ks]

    def new(*i):
        k = pos(i[0])
        c = [mem(i[0])] + [tm.eq(g(k), x) for g, x in zip(gs[1:], i[1:])]
        return tm.ite(tm.and_(*c), cast_t(f(*m(k)), self.sort), old(*i))
    self.write_all(new)


class finfo:
    def __init__(self, dt):
        dt = as_dtype(dt) if not isinstance(dt, (S, float)) else float64_dtype
        r = real_np.finfo(dt.real)
        self.eps = float(r.eps)
        self.max = float(r.max)
        self.min = float(r.min)
        self.tiny = float(r.tiny)
        self.resolution = float(r.resolution)
        self.epsneg = float(r.epsneg)


def issubdtype(a, b):
    a = as_dtype(a)
    if isinstance(b, type) and b in (number,):
        return a.kind in "fi"
    if isinstance(b, type) and b in (floating,):
        return a.kind == "f"
    if isinstance(b, type) and b in (integer,):
        return a.kind == "i"
    return a == as_dtype(b)


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


def result_type(*a):
    return float64_dtype


def dtype(d):
    return as_dtype(d)


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return abs(asarray(a) - b) <= (atol + rtol * abs(asarray(b)))


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return all(isclose(a, b, rtol, atol))


def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shape, b._shape):
        if not CTX.branch(tm.eq(x, y)):
            return False
    return all(a == b)


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


def ndim(a):
    return asarray(a).ndim


def copyto(dst, src):
    dst[...] = src


def copy(a):
    return asarray(a).copy()


def array_of(x):
    return x


def vectorize(f, **k):
    raise Unsupported("vectorize")


# ------------------------------------------------------------------ numexpr
class _NE(types.ModuleType):
    class _necompiler:
        pass

    @staticmethod
    def evaluate(expr, local_dict=None, global_dict=None, out=None, **k):
        fr = sys._getframe(1)
        env = dict(global_dict or fr.f_globals)
        env.update(local_dict if local_dict is not None else fr.f_locals)
        ns = dict(exp=exp, log=log, log1p=log1p, expm1=expm1, sqrt=sqrt, abs=abs, where=where, sum=sum, maximum=maximum, minimum=minimum)
        ns = {**{n: v for n, v in env.items() if not n.startswith("__")}, **ns}
        r = eval(compile(expr.strip(), "<numexpr>", "eval"), {"__builtins__": {}}, ns)
        if out is not None:
            out[:] = r
            return out
        return r


numexpr = _NE("numexpr")


# ------------------------------------------------------------------ scipy.special
class _Special(types.ModuleType):
    @staticmethod
    def xlogy(x, y):
        return _bin2(x, y, lambda a, b: tm.ite(tm.eq(a, tm.num(0, a.sort)), tm.ZERO, tm.mul(tm.toreal(a), tm.log(b))), R)

    @staticmethod
    def xlog1py(x, y):
        return _bin2(x, y, lambda a, b: tm.ite(tm.eq(a, tm.num(0, a.sort)), tm.ZERO, tm.mul(tm.toreal(a), tm.log(tm.add(tm.ONE, tm.toreal(b))))), R)

    @staticmethod
    def expit(x):
        return _elem(x, lambda t: tm.div(tm.ONE, tm.add(tm.ONE, tm.exp(tm.neg(tm.toreal(t))))), R)

    @staticmethod
    def logit(x):
        return _elem(x, lambda t: tm.log(tm.div(t, tm.sub(tm.ONE, tm.toreal(t)))), R)

    @staticmethod
    def gammaln(x):
        return _elem(x, lambda t: tm.fn("lgamma", tm.toreal(t)), R)

    loggamma = gammaln

    @staticmethod
    def log1p(x):
        return log1p(x)

    @staticmethod
    def expm1(x):
        return expm1(x)

    def __getattr__(self, n):
        raise Unsupported(f"scipy.special.{n}")


special = _Special("scipy.special")
