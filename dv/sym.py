"""Symbolic scalars and the path explorer."""
import math
import numbers
import operator
import numpy as _np
from . import terms as tm
from .terms import T, R, I, B
from .prove import Prover


class Unsupported(Exception):
    """the code uses something the verifier has no model for (undecided, never a violation)"""


class Infeasible(BaseException):
    pass


class PathDone(BaseException):
    pass


class Ctx:
    def __init__(self):
        self.reset()

    def reset(self):
        self.assumptions = []   # global facts (preconditions, definitional facts of fresh symbols)
        self.path = []          # branch conditions of the current path
        self.facts = {}         # array name -> (idx terms -> [facts])
        self.decisions = []     # prefix of forced decisions
        self.pos = 0
        self.alts = []          # alternatives discovered in this run
        self.obligations = []   # (label, kind, assumptions, goal)
        self.pyx = 0
        self.spec = 0
        self.replay = 0         # re-executing the last iteration of a loop: its obligations are those of the arbitrary iteration
        self.merge = set()      # functions in which `if c: x = e` becomes x = ite(c, e, x)
        self.loops = {}
        self.nbranch = 0
        self.maxpaths = 4000
        self._provers = {}
        self.scope = []
        self.events = []
        self.written = None
        self.reads = None

    # -- assumptions
    def assume(self, t):
        t = term(t)
        if t is tm.TRUE:
            return
        if t.op == "and":
            for x in t.args:
                self.assume(x)
            return
        if t not in self.assumptions:
            self.assumptions.append(t)

    def prover(self):
        key = (tuple(a.id for a in self.assumptions), tuple(a.id for a in self.path), len(self.facts))
        p = self._provers.get(key)
        if p is None:
            p = Prover(self.assumptions + self.path, dict(self.facts))
            if len(self._provers) > 600:
                self._provers.clear()
            self._provers[key] = p
        return p

    def entails(self, t):
        t = term(t)
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        return self.prover().ask(t, 1000)

    def branch(self, c):
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        p = self.prover()
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            if isinstance(d, tuple):
                # forced (entailed)
                return d[0]
            self.path.append(c if d else tm.not_(c))
            tm.node((tm._fresh[0], tm._fresh[1], d))
            return d
        if p.ask(c, 1000):
            self.decisions.append((True,))
            self.pos += 1
            return True
        if p.ask(tm.not_(c), 1000):
            self.decisions.append((False,))
            self.pos += 1
            return False
        self.alts.append(self.decisions[: self.pos] + [False])
        self.decisions.append(True)
        self.pos += 1
        self.nbranch += 1
        self.path.append(c)
        tm.node((tm._fresh[0], tm._fresh[1], True))
        return True

    def choose(self, n, what=""):
        """finite nondeterministic choice 0..n-1 (explored exhaustively)."""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            for k in range(n - 1, 0, -1):
                self.alts.append(self.decisions[: self.pos] + [k])
            self.decisions.append(0)
            d = 0
        self.pos += 1
        tm.node((tm._fresh[0], tm._fresh[1], "choose", d))
        return d

    def oblige(self, label, goal, kind="ensures"):
        if self.replay:
            return
        goal = term(goal)
        self.obligations.append((label, kind, list(self.assumptions), list(self.path), dict(self.facts), goal))


CTX = Ctx()


def explore(run, on_path=None, max_paths=3000):
    """run() once per path; returns list of (path conds, result)."""
    ctx = CTX
    outer = (ctx.decisions, ctx.pos, ctx.alts)
    base = len(ctx.path)
    at = tuple(tm._fresh)
    stack = [[]]
    results = []
    n = 0
    try:
        while stack:
            n += 1
            if n > max_paths:
                raise Unsupported(f"more than {max_paths} paths")
            ctx.decisions, ctx.pos, ctx.alts = list(stack.pop()), 0, []
            tm.node((*at, "explore"))
            try:
                r = run()
                ok = True
            except Infeasible:
                ok = False
            except PathDone:
                ok = None
                r = None
            conds = ctx.path[base:]
            if ok:
                results.append((conds, r))
            if on_path is not None:
                on_path(ok, conds, r if ok else None)
            del ctx.path[base:]
            stack.extend(ctx.alts)
    finally:
        del ctx.path[base:]
        ctx.decisions, ctx.pos, ctx.alts = outer
        tm.node((*at, "after"))
    return results


# ------------------------------------------------------------------ scalars
def term(x, like=None):
    if isinstance(x, T):
        return x
    if isinstance(x, S):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return tm.bconst(bool(x))
    if isinstance(x, (int, _np.integer)):
        return tm.num(int(x), I)
    if isinstance(x, (float, _np.floating)):
        if math.isinf(x) or math.isnan(x):
            raise Unsupported("non-finite constant in a term")
        return tm.num(float(x), R)
    from fractions import Fraction
    if isinstance(x, Fraction):
        return tm.num(x, R)
    if hasattr(x, "__symterm__"):
        return x.__symterm__()
    raise Unsupported(f"cannot make a term of {type(x).__name__}")


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def is_nan(x):
    return isinstance(x, (float, _np.floating)) and math.isnan(x)


class S:
    """symbolic scalar"""
    __slots__ = ("t",)
    __array_priority__ = 1000
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, t):
        self.t = t

    # numpy-scalar look
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        from . import symnp
        return {R: symnp.float64_dtype, I: symnp.int64_dtype, B: symnp.bool_dtype}[self.t.sort]

    def item(self):
        return self

    def astype(self, *a, **k):
        return self

    def copy(self):
        return self

    def squeeze(self):
        return self

    def sum(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self if self.t.sort == B else S(tm.not_(tm.eq(self.t, tm.num(0, self.t.sort))))

    all = any

    def __bool__(self):
        t = self.t
        if t.sort != B:
            t = tm.not_(tm.eq(t, tm.num(0, t.sort)))
        return CTX.branch(t)

    def __index__(self):
        if self.t.op == "num" and self.t.sort == I:
            return int(tm.val(self.t))
        raise Unsupported(f"symbolic integer used as a concrete index: {self.t!r}")

    def __int__(self):
        if self.t.op == "num":
            return int(tm.val(self.t))
        raise Unsupported("int() of a symbolic value")

    def __float__(self):
        if self.t.op == "num":
            return float(tm.val(self.t))
        raise Unsupported("float() of a symbolic value")

    def __repr__(self):
        return f"<{self.t!r}>"

    def __format__(self, spec):
        return repr(self)

    def __str__(self):
        return repr(self)


def wrap(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return S(t)


def _defer(o):
    return not isinstance(o, (S, numbers.Number, _np.generic))


def _arith(name, f, infrule):
    def op(a, b):
        if _defer(b):
            return NotImplemented
        if is_inf(b):
            return infrule(a, b, False)
        if is_nan(b):
            return math.nan
        return wrapnum(f(numt(a.t), numt(term(b))))

    def rop(a, b):
        if _defer(b):
            return NotImplemented
        if is_inf(b):
            return infrule(a, b, True)
        if is_nan(b):
            return math.nan
        return wrapnum(f(numt(term(b)), numt(a.t)))

    setattr(S, f"__{name}__", op)
    setattr(S, f"__r{name}__", rop)


def numt(t):
    return tm.toint_bool(t)


def wrapnum(t):
    return S(t)


def _inf_add(a, b, r):
    return float(b)


def _inf_sub(a, b, r):
    return float(b) if r else -float(b)


def _inf_mul(a, b, r):
    if CTX.entails(tm.lt(tm.num(0, a.t.sort), a.t)):
        return float(b)
    if CTX.entails(tm.lt(a.t, tm.num(0, a.t.sort))):
        return -float(b)
    raise Unsupported("inf * symbolic of unknown sign")


def _inf_div(a, b, r):
    if r:
        return _inf_mul(a, b, r)
    return S(tm.ZERO)


_arith("add", tm.add, _inf_add)
_arith("sub", tm.sub, _inf_sub)
_arith("mul", tm.mul, _inf_mul)
_arith("truediv", tm.div, _inf_div)


def _nope(a, b, r):
    raise Unsupported("inf operand")


def _floordiv(a, b):
    if a.sort == I and b.sort == I:
        return tm.floor_(tm.div(a, b))
    return tm.toreal(tm.floor_(tm.div(a, b)))


def _mod(a, b):
    if a.sort == I and b.sort == I:
        r = T("fn", ("mod", a, b), I)
        CTX.assume(tm.implies(tm.lt(tm.num(0, I), b), tm.and_(tm.le(tm.num(0, I), r), tm.lt(r, b))))
        CTX.assume(tm.implies(tm.and_(tm.le(tm.num(0, I), a), tm.lt(a, b)), tm.eq(r, a)))
        return r
    raise Unsupported("real modulo")


_arith("floordiv", _floordiv, _nope)
_arith("mod", _mod, _nope)


def _pow(a, b):
    return tm.rpow(a, b)


_arith("pow", _pow, _nope)


def _cmp(name, f, infv):
    def op(a, b):
        if b is None:
            if name == "eq":
                return False
            if name == "ne":
                return True
        if isinstance(b, str):
            return name == "ne"
        if _defer(b):
            return NotImplemented
        if is_inf(b):
            return infv(b)
        if is_nan(b):
            return name == "ne"
        return wrap(f(a.t, term(b)))

    setattr(S, f"__{name}__", op)


_cmp("lt", tm.lt, lambda b: b > 0)
_cmp("le", tm.le, lambda b: b > 0)
_cmp("gt", lambda a, b: tm.lt(b, a), lambda b: b < 0)
_cmp("ge", lambda a, b: tm.le(b, a), lambda b: b < 0)
_cmp("eq", tm.eq, lambda b: False)
_cmp("ne", lambda a, b: tm.not_(tm.eq(a, b)), lambda b: True)
S.__neg__ = lambda a: S(tm.neg(numt(a.t)))
S.__pos__ = lambda a: a
S.__abs__ = lambda a: S(tm.abs_(numt(a.t)))
S.__invert__ = lambda a: wrap(tm.not_(a.t)) if a.t.sort == B else _raise("~ on int")


def _raise(m):
    raise Unsupported(m)


def _bit(name, fb, fi):
    def op(a, b):
        if _defer(b):
            return NotImplemented
        tb = term(b)
        if a.t.sort == B and tb.sort == B:
            return wrap(fb(a.t, tb))
        return S(fi(a.t, tb))

    def rop(a, b):
        if _defer(b):
            return NotImplemented
        tb = term(b)
        if a.t.sort == B and tb.sort == B:
            return wrap(fb(tb, a.t))
        return S(fi(tb, a.t))

    setattr(S, f"__{name}__", op)
    setattr(S, f"__r{name}__", rop)


def _opaque(name):
    def f(a, b):
        r = T("fn", (name, a, b), I)
        CTX.assume(tm.implies(tm.and_(tm.le(tm.num(0, I), a), tm.le(tm.num(0, I), b)), tm.le(tm.num(0, I), r)))
        return r
    return f


_bit("and", tm.and_, _opaque("bitand"))
_bit("or", tm.or_, _opaque("bitor"))
_bit("xor", lambda a, b: tm.not_(tm.iff(a, b)), _opaque("xor"))
_bit("lshift", None, _opaque("shl"))
_bit("rshift", None, _opaque("shr"))

numbers.Number.register(S)
