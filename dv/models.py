"""Models (assumed contracts) of the libraries glum calls: everything that is not
numpy's array algebra (symnp.py).  Each is part of the trusted base."""
import math
import sys
import types
import warnings as _real_warnings
from . import terms as tm
from .terms import T, R, I, B
from .sym import S, CTX, Unsupported, term, wrap, is_inf
from . import symnp as snp
from .symnp import Arr, dim, ext, cast_t, I0, I1


class Missing:
    """name that exists in the real library but has no model: usable in annotations, not callable."""

    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self._name}.{n}")

    def __call__(self, *a, **k):
        raise Unsupported(f"no model of {self._name}")

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __getitem__(self, k):
        return self

    def __instancecheck__(self, x):
        return False

    def __symisinstance__(self, c):
        return None

    def __mro_entries__(self, bases):
        return ()

    def __hash__(self):
        return hash(self._name)

    def __eq__(self, o):
        return isinstance(o, Missing) and o._name == self._name

    def __repr__(self):
        return f"<unmodelled {self._name}>"


class Mod(types.ModuleType):
    def __init__(self, name, **k):
        super().__init__(name)
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(f"{self.__name__}.{n}")


def record(name, **k):
    CTX.events.append(("call", name, k))


# ------------------------------------------------------------------ linear algebra
class LinAlgError(Exception):
    pass


def _mat(a):
    if isinstance(a, SymSparse):
        return a.arr
    return snp.asarray(a)


def norm(x, ord=None, axis=None, **k):
    if axis is not None:
        raise Unsupported("norm axis")
    x = snp.asarray(x)
    if x.ndim != 1:
        raise Unsupported("norm of a matrix")
    if ord == 1:
        return snp.sum(abs(x))
    if ord is None or ord == 2:
        return snp.sqrt(snp.sum(x * x))
    if ord == math.inf:
        return snp.max(abs(x))
    raise Unsupported("norm ord")


def solve(a, b, assume_a="gen", **k):
    """contract of scipy.linalg.solve: returns x with a @ x = b, or raises LinAlgError."""
    A, b_ = _mat(a), snp.asarray(b)
    if A.ndim != 2:
        raise Unsupported("solve")
    if CTX.choose(2, "solve raises") == 1:
        record("linalg.solve", A=A.copy(), b=b_.copy(), assume_a=assume_a, raised=True)
        raise LinAlgError("singular")
    nm = tm.fresh("solve").args[0]
    x = Arr.symbol(nm, [A._shape[1]] + list(b_._shape[1:]))
    x.solves = (A.copy(), b_.copy(), assume_a)
    x.buf.solves = x.solves
    record("linalg.solve", A=A.copy(), b=b_.copy(), assume_a=assume_a, x=x, value=x.copy(), raised=False)
    return x


def lstsq(a, b, **k):
    A, b_ = _mat(a), snp.asarray(b)
    nm = tm.fresh("lstsq").args[0]
    x = Arr.symbol(nm, [A._shape[1]] + list(b_._shape[1:]))
    x.buf.solves = (A.copy(), b_.copy(), "lstsq")
    record("linalg.lstsq", A=A.copy(), b=b_.copy(), x=x)
    return x, None, None, None


def inv(a, **k):
    A = _mat(a)
    nm = tm.fresh("inv").args[0]
    x = Arr.symbol(nm, A._shape)
    x.buf.inverse_of = A.copy()
    record("linalg.inv", A=A.copy(), x=x, value=x.copy())
    return x


def cond(a, p=None):
    """condition number: some number not below one"""
    r = tm.fresh("cond")
    CTX.assume(tm.le(tm.ONE, r))
    record("linalg.cond", A=_mat(a).copy(), value=S(r))
    return S(r)


class ArpackNoConvergence(RuntimeError):
    pass


def _eigs(A, m, name):
    """eigenvalues of a symmetric matrix in increasing order, the first m of them"""
    nm = tm.fresh("eig").args[0]
    x = Arr.symbol(nm, [m], fact=lambda v, j: tm.le(tm.sel(nm, I0), v))
    record("eigenvalues", A=A.copy(), x=x, by=name)
    x.buf.eigs_of = A.copy()
    return x


def eigvalsh(a, **k):
    A = _mat(a)
    return _eigs(A, A._shape[0], "eigvalsh")


def eigsh(a, k=6, sigma=None, which="LM", return_eigenvectors=True, **kw):
    if sigma is not None or which != "SA" or return_eigenvectors:
        raise Unsupported("eigsh other than the smallest eigenvalues")
    A = a.arr if isinstance(a, SymSparse) else _mat(a)
    if CTX.choose(2, "Lanczos does not converge") == 1:
        raise ArpackNoConvergence("no convergence")
    return _eigs(A, term(k), "eigsh")


# ------------------------------------------------------------------ scipy.sparse
class _Coo:
    def __init__(self, row, col, data):
        self.row, self.col, self.data = row, col, data


class SymSparse:
    """sparse matrix = its dense value + a storage format; nnz and data are only known through
    nnz == 0 => all zero, and (nnz == n and data == diagonal) => diagonal."""
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, arr, fmt="csc", diag=None):
        self.arr, self.fmt, self._diag = arr, fmt, diag
        self._nnz = self._coo = None

    ndim = 2

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.arr.dtype

    def _facts(self):
        if self._nnz is None:
            n = self.arr._shape[0]
            if self._diag is not None:
                self._nnz = n
                self._data = self._diag
                return
            self._nnz = tm.fresh("nnz", I)
            f = self.arr.snap()
            i, j = tm.fresh("i", I), tm.fresh("j", I)
            CTX.assume(tm.le(I0, self._nnz))
            CTX.assume(tm.implies(tm.eq(self._nnz, I0), tm.forall(I0, n, i, tm.forall(I0, n, j, tm.eq(f(i, j), tm.ZERO)))))
            nm = tm.fresh("data").args[0]
            self._data = Arr.symbol(nm, [self._nnz])
            alleq = tm.forall(I0, n, i, tm.eq(tm.sel(nm, i), f(i, i)))
            off = tm.forall(I0, n, i, tm.forall(I0, n, j, tm.or_(tm.eq(i, j), tm.eq(f(i, j), tm.ZERO))))
            CTX.assume(tm.implies(tm.and_(tm.eq(self._nnz, n), alleq), off))
            # the same facts per element, instantiated where an element is mentioned
            isd = tm.bconst(CTX.choose(2, "sparse matrix stored as a full diagonal") == 1)
            CTX.assume_path(tm.eq(self._nnz, n) if isd is tm.TRUE else tm.not_(tm.and_(tm.eq(self._nnz, n), alleq)))
            nnz, old = self._nnz, CTX.facts.get(nm)
            CTX.facts[nm] = lambda k: (old(k) if old else []) + [tm.implies(tm.and_(isd, tm.le(I0, k), tm.lt(k, n)), tm.eq(tm.sel(nm, k), f(k, k)))]
            pr = f(tm.var("?i", I), tm.var("?j", I))
            if pr.op == "sel" and {x.args[0] for x in pr.args[1:]} == {"?i", "?j"}:
                old2 = CTX.facts.get(pr.args[0])

                def el(i, j):
                    inr = tm.and_(tm.le(I0, i), tm.lt(i, n), tm.le(I0, j), tm.lt(j, n))
                    z = tm.eq(f(i, j), tm.ZERO)
                    return (old2(i, j) if old2 else []) + [tm.implies(tm.and_(inr, tm.eq(nnz, I0)), z), tm.implies(tm.and_(inr, isd), tm.or_(tm.eq(i, j), z))]
                CTX.facts[pr.args[0]] = el
            anyd = tm.exists(I0, self._nnz, i, tm.not_(tm.eq(tm.sel(nm, i), tm.ZERO)))
            if CTX.choose(2, "sparse matrix has a nonzero value") == 1:
                CTX.assume_path(anyd)
                CTX.assume_path(tm.exists(I0, n, i, tm.exists(I0, n, j, tm.not_(tm.eq(f(i, j), tm.ZERO)))))
            else:
                CTX.assume_path(tm.not_(anyd))
                self._elems(lambda i, j: tm.eq(f(i, j), tm.ZERO))

    def _elems(self, fact):
        """assume fact(i, j) for every element"""
        f, n = self.arr.snap(), self.arr._shape[0]
        i, j = tm.fresh("i", I), tm.fresh("j", I)
        CTX.assume_path(tm.forall(I0, n, i, tm.forall(I0, n, j, fact(i, j))))
        pr = f(tm.var("?i", I), tm.var("?j", I))
        if pr.op == "sel" and {x.args[0] for x in pr.args[1:]} == {"?i", "?j"}:
            old = CTX.facts.get(pr.args[0])
            CTX.facts[pr.args[0]] = lambda i, j: (old(i, j) if old else []) + [tm.implies(tm.and_(tm.le(I0, i), tm.lt(i, n), tm.le(I0, j), tm.lt(j, n)), fact(i, j))]

    @property
    def nnz(self):
        self._facts()
        return ext(self._nnz)

    @property
    def data(self):
        self._facts()
        return self._data

    def diagonal(self):
        return self._diag if self._diag is not None else snp.diag(self.arr)

    def toarray(self):
        return self.arr.copy()

    todense = toarray

    @property
    def A(self):
        return self.toarray()

    def tocsc(self, copy=False):
        return SymSparse(self.arr, "csc", self._diag)

    def tocsr(self, copy=False):
        return SymSparse(self.arr, "csr", self._diag)

    def tocoo(self):
        """coordinates of the stored entries: known only is that the rest is zero when all of them are on the diagonal"""
        if self._coo is not None:
            return self._coo
        self._facts()
        row, col = [Arr.symbol(tm.fresh(x).args[0], [self._nnz], I) for x in ("row", "col")]
        k = tm.fresh("k", I)
        alldiag = tm.forall(I0, self._nnz, k, tm.eq(row.elem(k), col.elem(k)))
        if self._diag is not None:
            CTX.assume_path(alldiag)
        elif CTX.choose(2, "sparse entries all on the diagonal") == 1:
            CTX.assume_path(alldiag)
            f = self.arr.snap()
            self._elems(lambda i, j: tm.or_(tm.eq(i, j), tm.eq(f(i, j), tm.ZERO)))
        else:
            CTX.assume_path(tm.not_(alldiag))
        self._coo = _Coo(row, col, self._data)
        return self._coo

    def copy(self):
        return SymSparse(self.arr.copy(), self.fmt, None if self._diag is None else self._diag.copy())

    @property
    def T(self):
        return SymSparse(self.arr.T, {"csc": "csr", "csr": "csc"}.get(self.fmt, self.fmt), self._diag)

    def transpose(self):
        return self.T

    def __mul__(self, o):
        if isinstance(o, Arr) and o.ndim > 0 or isinstance(o, SymSparse):
            raise Unsupported("sparse * array")
        return SymSparse(self.arr * o, self.fmt, None if self._diag is None else self._diag * o)

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SymSparse):
            d = None if self._diag is None or o._diag is None else self._diag + o._diag
            return SymSparse(self.arr + o.arr, "csc" if "csc" in (self.fmt, o.fmt) else self.fmt, d)
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self.arr + o

    __radd__ = __add__

    def __matmul__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(snp.dot(self.arr, o.arr), self.fmt)
        return snp.dot(self.arr, o)

    def __rmatmul__(self, o):
        return snp.dot(o, self.arr)

    def __symdot__(self, a):
        return snp.dot(a, self.arr)

    dot = __matmul__

    def __lt__(self, o):
        return self.arr < o

    def __getitem__(self, key):
        if isinstance(key, tuple) and key[0] == slice(None) and isinstance(key[1], Arr):
            return SymSparse(_cols(self.arr, key[1]), self.fmt)
        raise Unsupported("sparse index")

    def __abs__(self):
        return SymSparse(abs(self.arr), self.fmt, None if self._diag is None else abs(self._diag))

    def sum(self, axis=None):
        r = snp.sum(self.arr, axis=axis)
        return r if axis is None else r[None, :] if axis == 0 else r[:, None]

    def max(self):
        return snp.max(self.arr)

    def __symterm__(self):
        raise Unsupported("sparse as a scalar")


def issparse(x):
    return isinstance(x, SymSparse)


def _diags(v, *a, shape=None, format=None, **k):
    v = snp.asarray(v)
    return SymSparse(snp.diag(v), format or "dia", v.copy())


def _dia_matrix(x, shape=None, **k):
    if isinstance(x, tuple):
        v, off = x
        if not (isinstance(off, int) and off == 0):
            raise Unsupported("dia_matrix offsets")
        return SymSparse(snp.diag(snp.asarray(v)), "dia", snp.asarray(v).copy())
    raise Unsupported("dia_matrix")


def _fmtclass(fmt):
    def conv(x, *a, **k):
        if isinstance(x, SymSparse):
            return SymSparse(x.arr, fmt, x._diag)
        if isinstance(x, Arr):
            return SymSparse(x.copy(), fmt)
        if isinstance(x, tuple) and fmt == "dia":
            return _dia_matrix(x, *a, **k)
        raise Unsupported(f"{fmt}_matrix({type(x).__name__})")
    return conv


class _SpMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymSparse) and (cls.fmt is None or x.fmt == cls.fmt)

    def __call__(cls, *a, **k):
        return _fmtclass(cls.fmt)(*a, **k)


def _spclass(name, fmt):
    return _SpMeta(name, (), {"fmt": fmt})


# ------------------------------------------------------------------ tabmat
class MatrixBase:
    pass


class Names:
    """the list of names of a design's columns"""

    def __init__(self, X, kind, prefix):
        self.X, self.kind, self.prefix = X, kind, prefix


class Design(MatrixBase):
    """design matrix of unknown storage: element (i,j) -> value.  Assumed contract of tabmat:
    matvec, transpose_matvec, sandwich and indexing compute the mathematical products."""
    __array_priority__ = 3000
    __array_ufunc__ = None
    __hash__ = None

    kind = None

    def __new__(cls, arr=None, kind=None, *a, **k):
        return object.__new__(KINDS.get(kind, cls) if cls is Design else cls)

    def __init__(self, arr, kind=None, column_names=None, term_names=None):
        if type(self) in KINDS.values():
            kind = type(self).kind
        if isinstance(arr, Design):
            arr = arr.arr
        elif isinstance(arr, SymSparse):
            arr = arr.arr
        self.arr = snp.asarray(arr)
        self.kind = kind
        self.column_names, self.term_names = column_names, term_names

    ndim = 2

    @property
    def shape(self):
        return self.arr.shape

    @property
    def dtype(self):
        return self.arr.dtype

    def __symlen__(self):
        return self.shape[0]

    def _elem(self):
        return self.arr.snap()

    def toarray(self):
        return self.arr.copy()

    @property
    def A(self):
        return self.toarray()

    def unpack(self):
        return SymSparse(self.arr, "csc") if self.kind == "sparse" else self.arr

    def astype(self, *a, **k):
        return self

    def copy(self):
        return Design(self.arr.copy(), self.kind)

    def get_names(self, type="column", missing_prefix=None, **k):
        return Names(self, type, missing_prefix)

    def getcol(self, j):
        return Design(self.arr[:, j][:, None])

    def matvec(self, v, cols=None, out=None):
        v = snp.asarray(v)
        X = self.arr
        if isinstance(cols, snp.MaskIdx):
            # columns where a condition holds
            fx, fv, m, p = X.snap(), v.snap(), cols.marr.snap(), X._shape[1]
            if v.ndim != 1:
                raise Unsupported("matvec of a matrix with columns")
            if not CTX.entails(tm.and_(tm.eq(p, v._shape[0]), tm.eq(p, cols.marr._shape[0]))):
                raise ValueError("dimension mismatch")
            k = tm.fresh("d", I)
            r = Arr.make(lambda i: tm.sum_(I0, p, k, tm.ite(m(k), tm.mul(fx(i, k), tm.toreal(fv(k))), tm.ZERO)), [X._shape[0]])
            if out is not None:
                out += r
                return out
            return r
        if cols is not None:
            X = _cols(X, cols)
            v = v[cols]
        r = snp.dot(X, v)
        if out is not None:
            out += r
            return out
        return r

    def transpose_matvec(self, v, rows=None, cols=None, out=None):
        if out is not None:
            raise Unsupported("transpose_matvec out")
        v = snp.asarray(v)
        X = self.arr if cols is None else _cols(self.arr, cols)
        w = _rowmask(rows, X)
        fx, fv = X.snap(), v.snap()
        i = tm.fresh("r", I)
        n = X._shape[0]
        if snp.same_dim(n, v._shape[0]) is not True and not CTX.entails(tm.eq(n, v._shape[0])):
            raise ValueError("dimension mismatch")
        if v.ndim == 2:
            return Arr.make(lambda j, k: tm.sum_(I0, n, i, w(i, tm.mul(fx(i, j), fv(i, k)))), [X._shape[1], v._shape[1]])
        return Arr.make(lambda j: tm.sum_(I0, n, i, w(i, tm.mul(fx(i, j), tm.toreal(fv(i))))), [X._shape[1]])

    def sandwich(self, d, rows=None, cols=None):
        d = snp.asarray(d)
        X = self.arr if cols is None else _cols(self.arr, cols)
        w = _rowmask(rows, X)
        fx, fd = X.snap(), d.snap()
        i = tm.fresh("r", I)
        n = X._shape[0]
        if snp.same_dim(n, d._shape[0]) is not True and not CTX.entails(tm.eq(n, d._shape[0])):
            raise ValueError("dimension mismatch")
        return Arr.make(lambda j, k: tm.sum_(I0, n, i, w(i, tm.mul(fx(i, j), tm.toreal(fd(i)), fx(i, k)))), [X._shape[1]] * 2)

    def multiply(self, v):
        v = snp.asarray(v)
        return Design(self.arr * (v if v.ndim == 2 else v[:, None]))

    def dot(self, v):
        return self.matvec(v)

    def __matmul__(self, v):
        if isinstance(v, Design):
            return Design(snp.dot(self.arr, v.arr))
        v = snp.asarray(v)
        if v.ndim == 2:
            return snp.dot(self.arr, v)
        return self.matvec(v)

    def __rmatmul__(self, v):
        v = snp.asarray(v)
        if v.ndim == 2:
            return self.transpose_matvec(v.T).T
        return self.transpose_matvec(v)

    def __symdot__(self, a):
        return self.__rmatmul__(a)

    @property
    def T(self):
        return Design(self.arr.T)

    def __getitem__(self, key):
        if isinstance(key, tuple):
            r, c = key
            a = self.arr
            if not (isinstance(c, slice) and c == slice(None)):
                a = _cols(a, c)
            if not (isinstance(r, slice) and r == slice(None)):
                a = a[r]
            return Design(a)
        return Design(self.arr[key])

    def standardize(self, weights, center_predictors, scale_predictors):
        """tabmat contract: column means/stds weighted by `weights` (which sum to one); returns
        (matrix with centred/scaled columns, means, stds or None)."""
        n, p = self.arr._shape
        fx, fw = self.arr.snap(), snp.asarray(weights).snap()
        i = tm.fresh("r", I)
        nm = tm.fresh("colmean").args[0]
        # a function of the weighted first and second moments of the columns: the same for the same data
        j0 = tm.var("?column", I)
        m1, m2 = tm.sum_(I0, n, i, tm.mul(fw(i), fx(i, j0))), tm.sum_(I0, n, i, tm.mul(fw(i), fx(i, j0), fx(i, j0)))
        sd = f"colstd#{tm.alpha(m1).id}.{tm.alpha(m2).id}"
        means = Arr.make(lambda j: tm.sum_(I0, n, i, tm.mul(fw(i), fx(i, j))), [p])
        record("standardize", weights=weights, center=center_predictors, scale=scale_predictors)
        stds = None
        mult = None
        if scale_predictors:
            stds = Arr.symbol(sd, [p], fact=lambda v, j: tm.le(tm.ZERO, v))
            fs = stds.snap()
            # tabmat: mult = 1/std (1 where the std is numerically zero)
            thr = tm.num(1e-7)
            mult = Arr.make(lambda j: tm.ite(tm.lt(tm.abs_(fs(j)), thr), tm.ONE, tm.div(tm.ONE, fs(j))), [p])
        fm = means.snap()
        if center_predictors:
            if mult is None:
                shift = Arr.make(lambda j: tm.neg(fm(j)), [p])
            else:
                g = mult.snap()
                shift = Arr.make(lambda j: tm.neg(tm.mul(fm(j), g(j))), [p])
        else:
            shift = Arr.make(lambda j: tm.ZERO, [p])
            means = Arr.make(lambda j: tm.ZERO, [p]) if not center_predictors else means
        X = StandardizedMatrix(self, shift, mult)
        return X, means, stds


def _cols(a, cols):
    f, g = a.snap(), snp.asarray(cols)
    if isinstance(g, snp.Masked) or g.sort == B:
        raise Unsupported("boolean column selection")
    h = g.snap()
    a_shape = a._shape
    b = tm.fresh("g", I)
    goal = tm.forall(I0, g._shape[0], b, tm.and_(tm.le(I0, g.elem(b)), tm.lt(g.elem(b), a_shape[1])))
    if not CTX.entails(goal):
        CTX.oblige(f"column selection in bounds ({CTX.where()})", goal, "index")
    return Arr.make(lambda i, j: f(i, h(j)), [a_shape[0], g._shape[0]])


def _rowmask(rows, X):
    """rows is a set of distinct row numbers: weight of each row in the sum."""
    if rows is None:
        return lambda i, t: t
    if isinstance(rows, snp.MaskIdx):
        m = rows.marr.snap()
        return lambda i, t: tm.ite(m(i), t, tm.ZERO)
    rows = snp.asarray(rows)
    # arange(n)?
    b = tm.fresh("g", I)
    f = rows.snap()
    if rows.ndim == 1 and f(b) is b and snp.same_dim(rows._shape[0], X._shape[0]) is True:
        return lambda i, t: t
    raise Unsupported("row selection by an arbitrary index array")


class StandardizedMatrix(Design):
    def __init__(self, mat, shift, mult=None):
        self.mat, self.shift, self.mult = mat, shift, mult
        self.kind = "standardized"

    @property
    def arr(self):
        f, s = self.mat.arr.snap(), snp.asarray(self.shift).snap()
        m = None if self.mult is None else snp.asarray(self.mult).snap()
        return Arr.make(lambda i, j: tm.add(s(j), f(i, j) if m is None else tm.mul(m(j), f(i, j))), self.mat.arr._shape)

    @property
    def shape(self):
        return self.mat.shape

    @property
    def dtype(self):
        return self.mat.dtype

    def unstandardize(self):
        return self.mat


class DenseMatrix(Design):
    kind = "dense"


class SparseMatrix(Design):
    kind = "sparse"


class CategoricalMatrix(Design):
    kind = "cat"


class SplitMatrix(Design):
    """column blocks: matrices[k] holds the columns indices[k]"""
    kind = "split"

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, matrices, indices=None):
        self.kind = "split"
        self.column_names = self.term_names = None
        if isinstance(matrices, Arr) or isinstance(matrices, Design):  # an already split matrix of unknown blocks
            a = matrices.arr if isinstance(matrices, Design) else matrices
            p1 = tm.fresh("split", I)
            CTX.assume(tm.and_(tm.le(I0, p1), tm.le(p1, a._shape[1])))
            self.matrices = [DenseMatrix(a[:, :S(p1)]), SparseMatrix(a[:, S(p1):])]
            self.indices = [snp.arange(S(p1)), snp.arange(S(p1), S(a._shape[1]))]
            self._arr = a
            return
        self.matrices, self.indices = list(matrices), list(indices)
        self._arr = None

    @property
    def arr(self):
        if self._arr is not None:
            return self._arr
        blocks, at = [], I0
        for m, ix in zip(self.matrices, self.indices):
            ix, b = snp.asarray(ix), tm.fresh("g", I)
            if not (CTX.entails(tm.eq(ix._shape[0], m.arr._shape[1])) and CTX.entails(tm.forall(I0, ix._shape[0], b, tm.eq(ix.elem(b), tm.add(at, b))))):
                raise Unsupported("split matrix with interleaved columns")
            at = tm.add(at, ix._shape[0])
            blocks.append(m.arr)
        return snp.concatenate(blocks, axis=1)

    def copy(self):
        return SplitMatrix([m.copy() for m in self.matrices], [i.copy() for i in self.indices])


KINDS = {"dense": DenseMatrix, "sparse": SparseMatrix, "cat": CategoricalMatrix, "split": SplitMatrix}


def _tm_hstack(xs):
    xs = [x.arr if isinstance(x, Design) else snp.asarray(x) for x in xs]
    return Design(snp.concatenate(xs, axis=1))


# ------------------------------------------------------------------ assembling
class _Warn(types.ModuleType):
    def __getattr__(self, n):
        return getattr(_real_warnings, n)

    @staticmethod
    def warn(msg, cat=None, *a, **k):
        CTX.events.append(("warn", cat))

    class catch_warnings:
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return []

        def __exit__(self, *a):
            return False

    @staticmethod
    def simplefilter(*a, **k):
        pass

    filterwarnings = simplefilter


class SymRng:
    """random generator: any value in the documented range"""

    def randint(self, lo, hi=None, size=None, **k):
        v = tm.fresh("rand", I)
        lo, hi = (0, lo) if hi is None else (lo, hi)
        CTX.assume(tm.and_(tm.le(term(lo), v), tm.lt(v, term(hi))))
        return S(v)


def check_random_state(x):
    return x if isinstance(x, SymRng) else SymRng()


class _Cdf:
    def __init__(self, name, lo0):
        self.name = name

    def cdf(self, x, *df):
        return snp._elem(x, lambda t: tm.fn(self.name + "_cdf", tm.toreal(t), *[term(d) for d in df]), R)

    def ppf(self, x, *df):
        return snp._elem(x, lambda t: tm.fn(self.name + "_ppf", tm.toreal(t), *[term(d) for d in df]), R)

    def sf(self, x, *df):
        return 1 - self.cdf(x, *df)


def _min_samples(x, samples, features):
    for d, m in ((0, samples), (1, features)):
        if m and d < x.ndim and (d == 0 or x.ndim == 2):
            c = tm.le(tm.num(m, I), x._shape[d])
            if not CTX.entails(c) and not CTX.branch(c):
                raise ValueError("minimum number of samples or features")


def check_array(x, accept_sparse=False, dtype="numeric", copy=False, ensure_2d=True, allow_nd=False, ensure_min_samples=1, ensure_min_features=1, **k):
    """assumed contract of sklearn.utils.check_array on finite numeric input: value unchanged, converted to the
    (first) dtype asked for, copied when asked or converted, number of dimensions and rows checked."""
    if isinstance(x, SymSparse):
        if not accept_sparse:
            raise TypeError("sparse")
        ok = [accept_sparse] if isinstance(accept_sparse, str) else list(accept_sparse) if accept_sparse is not True else [x.fmt]
        _min_samples(x.arr, ensure_min_samples, ensure_min_features)
        r = x.copy() if copy else x
        return r if x.fmt in ok else SymSparse(r.arr, ok[0], r._diag)
    if isinstance(x, (list, tuple)):
        x = snp.array(x)
    if not isinstance(x, Arr):
        if isinstance(x, Design):
            raise Unsupported("check_array of a design matrix")
        raise ValueError("Expected array")
    y = x
    if dtype is not None and not (isinstance(dtype, str) and dtype == "numeric"):
        ok = [snp.as_dtype(d) for d in (dtype if isinstance(dtype, (list, tuple)) else [dtype])]
        if x.dtype not in ok:
            y = x.astype(ok[0])
    if ensure_2d and x.ndim != 2:
        raise ValueError("Expected 2D array")
    if not allow_nd and x.ndim >= 3:
        raise ValueError("Found array with dim 3")
    _min_samples(x, ensure_min_samples, ensure_min_features)
    return y.copy() if copy and y is x else y


def column_or_1d(y, dtype=None, warn=False, **k):
    """assumed contract of sklearn.utils.column_or_1d"""
    y = snp.asarray(y)
    if y.ndim == 1:
        return y
    if y.ndim == 2 and CTX.branch(tm.eq(y._shape[1], tm.num(1, I))):
        return y[:, 0]
    raise ValueError("y should be a 1d array")


def check_consistent_length(*xs):
    """assumed contract of sklearn.utils.check_consistent_length"""
    ns = [term(x.shape[0]) for x in xs if x is not None]
    for m in ns[1:]:
        c = tm.eq(ns[0], m)
        if not CTX.entails(c) and not CTX.branch(c):
            raise ValueError("inconsistent numbers of samples")


def validate_data(est, X="no_validation", y="no_validation", reset=True, **k):
    """assumed contract of sklearn.utils.validation.validate_data with a target: both checked, the design converted or copied as asked"""
    if y is None or isinstance(y, str) or isinstance(X, str):
        raise Unsupported("validate_data without target")
    X = check_array(X, **{a: v for a, v in k.items() if a not in ("ensure_all_finite", "force_all_finite")})
    y = column_or_1d(y)
    check_consistent_length(X, y)
    est.n_features_in_ = X.shape[1]
    return X, y


def prange(*a, **k):
    from .load import SymRange, sym_range
    r = sym_range(*a)
    if isinstance(r, SymRange):
        r.par = True
        return r
    return r


class _SymNp(Mod):
    pass


def MODELS(loader):
    import numpy as real_np
    np = _SymNp("numpy")
    for n, v in vars(snp).items():
        if not n.startswith("_") and n not in ("tm", "T", "R", "I", "B", "S", "CTX", "Unsupported", "term", "wrap", "sys", "types",
                                               "math", "real_np", "builtins", "dim", "ext", "is_inf", "is_nan", "I0", "I1"):
            np.__dict__[n] = v
    np.__dict__.update(min=snp.min, max=snp.max, inf=math.inf, nan=math.nan, pi=math.pi, e=math.e, newaxis=None)
    np.linalg = Mod("numpy.linalg", norm=norm, solve=solve, inv=inv, cond=cond, eigvalsh=eigvalsh, LinAlgError=LinAlgError)
    np.random = Mod("numpy.random", RandomState=SymRng)
    np.import_array = lambda: None
    np.__dict__["ndarray"] = Arr
    np.uint32 = np.int32 = snp.int32
    np.float64, np.float32 = snp.float64, snp.float32

    linalg = Mod("scipy.linalg", norm=norm, solve=solve, inv=inv, lstsq=lstsq, eigvalsh=eigvalsh, LinAlgError=LinAlgError)
    spm = _spclass("spmatrix", None)
    sparse = Mod("scipy.sparse", issparse=issparse, spmatrix=spm, csc_matrix=_spclass("csc_matrix", "csc"),
                 csr_matrix=_spclass("csr_matrix", "csr"), dia_matrix=_spclass("dia_matrix", "dia"), diags=_diags,
                 eye=lambda n, format=None, **k: SymSparse(snp.eye(n), format or "dia"),
                 isspmatrix=issparse, isspmatrix_csc=lambda x: issparse(x) and x.fmt == "csc",
                 isspmatrix_csr=lambda x: issparse(x) and x.fmt == "csr",
                 isspmatrix_dia=lambda x: issparse(x) and x.fmt == "dia",
                 csc_array=_spclass("csc_array", "csc"))
    sparse.linalg = Mod("scipy.sparse.linalg", eigsh=eigsh, ArpackNoConvergence=ArpackNoConvergence)
    stats = Mod("scipy.stats", norm=_Cdf("norm", 0), chi2=_Cdf("chi2", 0))
    optimize = Mod("scipy.optimize")
    scipy = Mod("scipy", linalg=linalg, sparse=sparse, stats=stats, optimize=optimize, special=snp.special)
    tmod = Mod("tabmat", MatrixBase=MatrixBase, StandardizedMatrix=StandardizedMatrix, DenseMatrix=DenseMatrix,
               SparseMatrix=SparseMatrix, SplitMatrix=SplitMatrix,
               CategoricalMatrix=CategoricalMatrix, hstack=_tm_hstack,
               as_tabmat=lambda x, **k: x if isinstance(x, MatrixBase) else Design(x.arr, "sparse") if isinstance(x, SymSparse) else Design(snp.asarray(x), "dense"))
    warn = _Warn("warnings")
    def capture_context(c):
        """assumed contract of formulaic: nothing stays nothing, a mapping stays itself (frames of callers are not modelled)"""
        if isinstance(c, int) and not isinstance(c, bool):
            raise Unsupported("evaluation context of the caller's frame")
        return c

    def check_is_fitted(est, attributes=None, **k):
        """assumed contract of sklearn: an error unless (all of) the attributes exist"""
        names = [attributes] if isinstance(attributes, str) else attributes
        if not (all(hasattr(est, a) for a in names) if names else any(a.endswith("_") and not a.startswith("__") for a in vars(est))):
            raise ValueError("not fitted")
    skexc = Mod("sklearn.exceptions", ConvergenceWarning=type("ConvergenceWarning", (UserWarning,), {}), NotFittedError=ValueError)
    skval = Mod("sklearn.utils.validation", check_random_state=check_random_state, check_is_fitted=check_is_fitted,
                validate_data=validate_data)
    skutils = Mod("sklearn.utils", check_array=check_array, validation=skval, check_random_state=check_random_state,
                  column_or_1d=column_or_1d, assert_all_finite=lambda x, **k: None, check_consistent_length=check_consistent_length)

    class BaseEstimator:
        pass

    class RegressorMixin:
        pass
    skbase = Mod("sklearn.base", BaseEstimator=BaseEstimator, RegressorMixin=RegressorMixin)
    def check_cv(cv=5, y=None, **k):
        """assumed contract of sklearn: an object with folds of its own stays itself"""
        if not hasattr(cv, "split"):
            raise Unsupported("built-in cross-validation folds")
        return cv

    class Parallel:
        """assumed contract of joblib: the results of the jobs, in the order of the jobs"""

        def __init__(self, *a, **k):
            pass

        def __call__(self, jobs):
            return [f(*a, **k) for f, a, k in jobs]
    skms = Mod("sklearn.model_selection", check_cv=check_cv)
    sk = Mod("sklearn", utils=skutils, exceptions=skexc, base=skbase, model_selection=skms, __version__="1.6.0")
    cyp = Mod("cython.parallel", prange=prange)
    nwm = Mod("narwhals.stable.v2", dependencies=Mod("narwhals.dependencies", is_into_dataframe=lambda x: False))  # data frames: see P25
    out = {
        "numpy": np, "numpy.linalg": np.linalg, "scipy": scipy, "scipy.linalg": linalg, "scipy.sparse": sparse, "scipy.sparse.linalg": sparse.linalg, "scipy.stats": stats,
        "scipy.optimize": optimize, "scipy.special": snp.special, "numexpr": snp.numexpr, "tabmat": tmod, "warnings": warn,
        "sklearn": sk, "sklearn.utils": skutils, "sklearn.utils.validation": skval, "sklearn.exceptions": skexc,
        "sklearn.base": skbase, "sklearn.model_selection": skms, "cython": Mod("cython", parallel=cyp), "cython.parallel": cyp,
        "pandas": Mod("pandas"), "narwhals": Mod("narwhals", stable=Mod("narwhals.stable", v2=nwm)), "narwhals.stable.v2": nwm,
        "narwhals.typing": Mod("narwhals.typing"), "formulaic": Mod("formulaic", utils=Mod("formulaic.utils", context=Mod("formulaic.utils.context", capture_context=capture_context))), "joblib": Mod("joblib", delayed=lambda f: lambda *a, **k: (f, a, k), Parallel=Parallel),
    }
    return out
