"""Term language of the verifier: hash-consed terms over Real / Int / Bool.

Reals are mathematical reals, ints are mathematical integers (stated as an
assumption in every evidence file).  All smart constructors below perform only
equivalences that hold for every value of the arguments (with total division:
x * b**-1 at b == 0 is some unspecified value and is never cancelled here).
"""
from fractions import Fraction
import math

R, I, B = "R", "I", "B"


class T:
    __slots__ = ("op", "args", "sort", "_h", "_fv", "id")
    _tab = {}
    _n = 0

    def __new__(cls, op, args, sort):
        key = (op, tuple(a.id if isinstance(a, T) else ("#", type(a).__name__, a) for a in args), sort)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.sort = op, tuple(args), sort
            t._fv = None
            T._n += 1
            t.id = T._n
            t._h = hash(key)
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __reduce__(self):
        return (T, (self.op, self.args, self.sort))

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of a raw term")


def num(x, sort=None):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, int):
        f = Fraction(x)
        if sort is None:
            sort = I
    else:
        x = float(x)
        if math.isinf(x) or math.isnan(x):
            raise ValueError("non-finite constant")
        f = Fraction(repr(x))
    if sort is None:
        sort = R
    return T("num", (f,), sort)


TRUE = T("true", (), B)
FALSE = T("false", (), B)
ZERO = num(0, R)
ONE = num(1, R)


def bconst(b):
    return TRUE if b else FALSE


def var(name, sort=R):
    return T("var", (name,), sort)


_fresh = [0, 0]     # (node of the path tree, counter within the node)
_nodes = {}


def node(key):
    """enter a node of the tree of executions: the same prefix of decisions gives the same fresh names when it is re-executed"""
    _fresh[0] = _nodes.setdefault(key, len(_nodes) + 1)
    _fresh[1] = 0


def fresh(prefix, sort=R):
    _fresh[1] += 1
    n, k = _fresh
    return var(f"{prefix}!{n}.{k}" if n else f"{prefix}!{k}", sort)


def is_num(t):
    return t.op == "num"


def val(t):
    return t.args[0]


def _coef(t):
    """split t into (rational coefficient, rest-term or None)."""
    if t.op == "num":
        return val(t), None
    if t.op == "mul" and t.args[0].op == "num":
        rest = t.args[1:]
        return val(t.args[0]), rest[0] if len(rest) == 1 else T("mul", rest, t.sort)
    return Fraction(1), t


def _sort(ts):
    return I if all(t.sort == I for t in ts) else R


def add(*ts):
    sort = _sort(ts)
    acc = {}
    c = Fraction(0)
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "add":
            stack.extend(t.args[::-1])
            continue
        k, r = _coef(t)
        if r is None:
            c += k
        else:
            acc[r] = acc.get(r, 0) + k
    out = []
    for r, k in acc.items():
        if k == 0:
            continue
        out.append(r if k == 1 else mul(num(k, I if (r.sort == I and k.denominator == 1) else R), r))
    out.sort(key=lambda t: t.id)
    if c != 0:
        out.append(num(c, I if (c.denominator == 1 and sort == I) else R))
    if not out:
        return num(0, sort)
    if len(out) == 1:
        return out[0]
    return T("add", out, sort)


def mul(*ts):
    sort = _sort(ts)
    c = Fraction(1)
    exps = {}
    stack = list(ts)[::-1]
    while stack:
        t = stack.pop()
        if t.op == "mul":
            stack.extend(t.args[::-1])
            continue
        if t.op == "num":
            c *= val(t)
            continue
        if t.op == "pow" :
            b, e = t.args
        else:
            b, e = t, 1
        exps.setdefault(b, []).append(e)
    if c == 0:
        return num(0, sort)
    out = []
    for b, es in exps.items():
        p = sum(e for e in es if e > 0)
        n = sum(e for e in es if e < 0)
        if p:
            out.append(ipow(b, p))
        if n:
            out.append(ipow(b, n))
    if not out:
        return num(c, sort)
    out.sort(key=lambda t: t.id)
    if c != 1:
        if len(out) == 1 and out[0].op == "add":
            cc = num(c, I if (c.denominator == 1 and sort == I) else R)
            return add(*[mul(cc, a) for a in out[0].args])
        return T("mul", [num(c, I if (c.denominator == 1 and sort == I) else R)] + out, sort)
    if len(out) == 1:
        return out[0]
    return T("mul", out, sort)


def ipow(b, e):
    if e == 0:
        return num(1, b.sort)
    if e == 1:
        return b
    if b.op == "num" and (val(b) != 0 or e > 0):
        return num(val(b) ** e, b.sort if e > 0 else R)
    if b.op == "pow" and (e > 0) == (b.args[1] > 0) and e > 0:
        return ipow(b.args[0], b.args[1] * e)
    if b.op == "mul":
        return mul(*[ipow(a, e) for a in b.args])
    if b.op == "pow":  # (x^k)^e, total division: 1/(x^k) == (1/x)^k also at 0 if 1/0=:u? keep only safe ones
        k = b.args[1]
        if (k > 0 and e < 0):
            return T("pow", (b.args[0], k * e), R)
    return T("pow", (b, e), b.sort if e > 0 else R)


def neg(t):
    return mul(num(-1, I), t) if t.sort == I else mul(num(-1, R), t)


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    b = toreal(b)
    return mul(toreal(a), ipow(b, -1))


def toreal(t):
    if t.sort == R:
        return t
    if t.sort == B:
        return ite(t, ONE, ZERO)
    if t.op == "num":
        return num(val(t), R)
    return T("toreal", (t,), R)


def toint_bool(t):
    return ite(t, num(1, I), num(0, I)) if t.sort == B else t


def unify(a, b):
    if a.sort == B and b.sort == B:
        return a, b
    if a.sort == B:
        a = toint_bool(a)
    if b.sort == B:
        b = toint_bool(b)
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
    return a, b


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    a, b = unify(a, b)
    if a is b:
        return a
    if a.sort == B:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "eq" and a.op == "num" and a.args[0] == 0:
        # t == 0 ? 0 : t * rest
        for x, y in (c.args, c.args[::-1]):
            if x.op == "num" and x.args[0] == 0 and (y is b or b.op == "mul" and y in b.args):
                return b
    return T("ite", (c, a, b), a.sort)


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return T("not", (c,), B)


def and_(*cs):
    out = []
    seen = set()
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c.op == "and":
            stack.extend(c.args[::-1])
            continue
        if c is TRUE or c in seen:
            continue
        if c is FALSE or not_(c) in seen:
            return FALSE
        seen.add(c)
        out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", out, B)


def or_(*cs):
    out = []
    seen = set()
    stack = list(cs)[::-1]
    while stack:
        c = stack.pop()
        if c.op == "or":
            stack.extend(c.args[::-1])
            continue
        if c is FALSE or c in seen:
            continue
        if c is TRUE or not_(c) in seen:
            return TRUE
        seen.add(c)
        out.append(c)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", out, B)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return not_(b)
    if b is FALSE:
        return not_(a)
    return T("iff", (a, b), B)


def le(a, b):
    a, b = unify(toint_bool(a), toint_bool(b))
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return bconst(val(a) <= val(b))
    d = sub(a, b)
    if d.op == "num":
        return bconst(val(d) <= 0)
    return T("le", (a, b), B)


def lt(a, b):
    return not_(le(b, a))


def eq(a, b):
    if a.sort == B and b.sort == B:
        return iff(a, b)
    a, b = unify(a, b)
    if a is b:
        return TRUE
    if a.op == "num" and b.op == "num":
        return bconst(val(a) == val(b))
    if a.op == "sel" and b.op == "sel" and a.args[0] == b.args[0] and a.args[0] in INJECTIVE:
        return eq(a.args[1], b.args[1])
    d = sub(a, b)
    if d.op == "num":
        return bconst(val(d) == 0)
    if INJECTIVE and d.op == "add" and len(d.args) == 2 and (a.op == "add" or b.op == "add"):
        (k1, x), (k2, y) = _coef(d.args[0]), _coef(d.args[1])
        if x is not None and y is not None and k1 == -k2 and abs(k1) == 1 and x.op == y.op == "sel":
            return eq(x, y)
    if a.id > b.id:
        a, b = b, a
    return T("eq", (a, b), B)


def fn(name, *args, sort=R):
    return T("fn", (name,) + tuple(args), sort)


SYMM = set()  # names of declared symmetric matrices


# inverse functions of injective index arrays: name of the inverse -> name of the array.  An index array is
# constrained inside its range only, so it may be taken to be injective on all integers.
INVERSE = {}
INJECTIVE = set()
MEMBER = {}  # membership predicate -> (array, length): holds of an element iff its index is in range


def sel(name, *idx, sort=R):
    if name in INVERSE and idx[0].op == "sel" and idx[0].args[0] == INVERSE[name]:
        return idx[0].args[1]
    if name in MEMBER and idx[0].op == "sel" and idx[0].args[0] == MEMBER[name][0]:
        k = idx[0].args[1]
        return and_(le(num(0, I), k), lt(k, MEMBER[name][1]))
    if name in SYMM and len(idx) == 2 and idx[0].id > idx[1].id:
        idx = (idx[1], idx[0])
    return T("sel", (name,) + tuple(idx), sort)


def exp(x):
    x = toreal(x)
    if x.op == "num" and val(x) == 0:
        return ONE
    if x.op == "fn" and x.args[0] == "log" and False:
        return x.args[1]
    return fn("exp", x)


def log(x):
    x = toreal(x)
    if x.op == "num" and val(x) == 1:
        return ZERO
    if x.op == "fn" and x.args[0] == "exp":
        return x.args[1]
    return fn("log", x)


def rpow(b, e):
    """general power b**e (real)."""
    if e.op == "num" and val(e).denominator == 1 and abs(val(e)) <= 64:
        k = int(val(e))
        return ipow(b if (b.sort == I and k >= 0) else toreal(b), k)
    b, e = toreal(b), toreal(e)
    if e.op == "num" and val(e) == Fraction(1, 2):
        return sqrt(b)
    return fn("pow", b, e)


def sqrt(x):
    x = toreal(x)
    if x.op == "num":
        f = val(x)
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return num(Fraction(a, b), R)
    return fn("sqrt", x)


def abs_(x):
    if x.op == "num":
        return num(abs(val(x)), x.sort)
    return ite(le(num(0, x.sort), x), x, neg(x))


def max_(a, b):
    a, b = unify(a, b)
    return ite(le(b, a), a, b)


def min_(a, b):
    a, b = unify(a, b)
    return ite(le(a, b), a, b)


def sum_(lo, hi, b, body):
    """sum of body for lo <= b < hi."""
    if body.op == "num" and val(body) == 0:
        return num(0, body.sort)
    if lo.op == "num" and hi.op == "num":
        l, h = int(val(lo)), int(val(hi))
        if h - l <= 64:
            if h <= l:
                return num(0, body.sort)
            return add(*[subst(body, {b: num(k, I)}) for k in range(l, h)])
    return T("sum", (lo, hi, b, body), body.sort)


def exists(lo, hi, b, body):
    if body is FALSE:
        return FALSE
    if lo.op == "num" and hi.op == "num" and val(hi) - val(lo) <= 64:
        return or_(*[subst(body, {b: num(k, I)}) for k in range(int(val(lo)), int(val(hi)))])
    if b not in free(body):
        return and_(lt(lo, hi), body)
    return T("exists", (lo, hi, b, body), B)


def forall(lo, hi, b, body):
    return not_(exists(lo, hi, b, not_(body)))


def free(t):
    """free variables (T of op var)."""
    if t._fv is not None:
        return t._fv
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        u = stack[-1]
        if u._fv is not None:
            stack.pop()
            continue
        kids = [a for a in u.args if isinstance(a, T)]
        todo = [k for k in kids if k._fv is None]
        if todo:
            stack.extend(todo)
            continue
        if u.op == "var":
            fv = frozenset([u])
        elif u.op in ("sum", "exists"):
            lo, hi, b, body = u.args
            fv = lo._fv | hi._fv | (body._fv - {b})
        else:
            fv = frozenset().union(*[k._fv for k in kids]) if kids else frozenset()
        u._fv = fv
        stack.pop()
    return t._fv


def rebuild(t, args):
    op = t.op
    if op == "add":
        return add(*args)
    if op == "mul":
        return mul(*args)
    if op == "pow":
        return ipow(*args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return not_(*args)
    if op == "and":
        return and_(*args)
    if op == "or":
        return or_(*args)
    if op == "iff":
        return iff(*args)
    if op == "le":
        return le(*args)
    if op == "eq":
        return eq(*args)
    if op == "toreal":
        return toreal(*args)
    if op == "sel":
        return sel(*args, sort=t.sort)
    if op == "sum":
        return sum_(*args)
    if op == "exists":
        return exists(*args)
    if op == "fn":
        n = args[0]
        if n == "exp":
            return exp(args[1])
        if n == "log":
            return log(args[1])
        if n == "pow":
            return rpow(args[1], args[2])
        if n == "sqrt":
            return sqrt(args[1])
        if n == "floor":
            return floor_(args[1])
        return T("fn", args, t.sort)
    return T(op, args, t.sort)


def floor_(x):
    if x.sort == I:
        return x
    if x.op == "num":
        return num(math.floor(val(x)), I)
    if x.op == "toreal":
        return x.args[0]
    return T("fn", ("floor", x), I)


def subst(t, m):
    memo = {}
    keys = frozenset(m)

    def go(u):
        if u in m:
            return m[u]
        if not (free(u) & keys):
            return u
        r = memo.get(u)
        if r is not None:
            return r
        if u.op in ("sum", "exists"):
            lo, hi, b, body = u.args
            nb = b
            mm = m
            if b in m:
                mm = {k: v for k, v in m.items() if k is not b}
            if any(b in free(v) for k, v in mm.items() if k in free(body)):
                nb = fresh(b.args[0].split("!")[0], b.sort)
                body = subst(body, {b: nb})
            r = rebuild(u, (subst(lo, mm) if mm is not m else go(lo), subst(hi, mm) if mm is not m else go(hi), nb,
                            subst(body, mm) if (mm is not m or nb is not b) else go(body)))
        else:
            r = rebuild(u, [go(a) if isinstance(a, T) else a for a in u.args])
        memo[u] = r
        return r

    return go(t)


def replace(t, f):
    """bottom-up rewriting: f(term) -> term or None."""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is None:
            if u.op in ("num", "var", "true", "false"):
                v = u
            elif u.op in ("sum", "exists"):
                lo, hi, b, body = u.args
                v = rebuild(u, (go(lo), go(hi), b, go(body)))
            else:
                v = rebuild(u, [go(a) if isinstance(a, T) else a for a in u.args])
            w = f(v)
            r = v if w is None else w
            memo[u] = r
        return r

    return go(t)


def subterms(t):
    seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        yield u
        stack.extend(a for a in u.args if isinstance(a, T))


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op = t.op
    if depth > 12:
        return "..."
    s = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    if op == "num":
        f = val(t)
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if op == "var":
        return t.args[0]
    if op in ("true", "false"):
        return op
    if op == "add":
        return "(" + " + ".join(s(a) for a in t.args) + ")"
    if op == "mul":
        return "*".join(s(a) for a in t.args)
    if op == "pow":
        return f"{s(t.args[0])}^{t.args[1]}"
    if op == "ite":
        return f"(if {s(t.args[0])} then {s(t.args[1])} else {s(t.args[2])})"
    if op == "fn":
        return f"{t.args[0]}({', '.join(s(a) for a in t.args[1:])})"
    if op == "sel":
        return f"{t.args[0]}[{', '.join(s(a) for a in t.args[1:])}]"
    if op == "sum":
        return f"Sum({s(t.args[2])} in {s(t.args[0])}..{s(t.args[1])}: {s(t.args[3])})"
    if op == "exists":
        return f"Exists({s(t.args[2])} in {s(t.args[0])}..{s(t.args[1])}: {s(t.args[3])})"
    if op == "le":
        return f"({s(t.args[0])} <= {s(t.args[1])})"
    if op == "eq":
        return f"({s(t.args[0])} == {s(t.args[1])})"
    if op == "not":
        a = t.args[0]
        if a.op == "le":
            return f"({s(a.args[1])} < {s(a.args[0])})"
        return f"!{s(a)}"
    if op == "and":
        return "(" + " & ".join(s(a) for a in t.args) + ")"
    if op == "or":
        return "(" + " | ".join(s(a) for a in t.args) + ")"
    if op == "toreal":
        return s(t.args[0])
    return f"{op}({', '.join(s(a) for a in t.args)})"


# ---------------------------------------------------------------- numeric evaluation
class Undefined(Exception):
    pass


def _lgamma(x):
    try:
        return math.lgamma(x)
    except ValueError:
        raise Undefined
    except OverflowError:
        raise Undefined


FUNS = {
    "exp": math.exp,
    "log": math.log,
    "sqrt": math.sqrt,
    "pow": lambda a, b: float(a) ** b,
    "lgamma": _lgamma,
    "arctan": math.atan,
    "tanh": math.tanh,
    "floor": math.floor,
}


def ev(t, env, memo=None):
    """numeric value of a term; env maps var name -> number and array name -> array/callable."""
    if memo is None:
        memo = {}
    return _ev(t, env, memo)


def _ev(t, env, memo):
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    a = t.args
    try:
        if op == "num":
            r = int(a[0]) if t.sort == I else float(a[0])
        elif op == "var":
            r = env[a[0]]
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        elif op == "add":
            r = sum(_ev(x, env, memo) for x in a)
        elif op == "mul":
            r = 1
            for x in a:
                r = r * _ev(x, env, memo)
        elif op == "pow":
            b = _ev(a[0], env, memo)
            if b == 0 and a[1] < 0:
                raise Undefined
            r = (float(b) if t.sort == R else b) ** a[1]
        elif op == "toreal":
            r = float(_ev(a[0], env, memo))
        elif op == "ite":
            r = _ev(a[1] if _ev(a[0], env, memo) else a[2], env, memo)
        elif op == "not":
            r = not _ev(a[0], env, memo)
        elif op == "and":
            r = all(_ev(x, env, memo) for x in a)
        elif op == "or":
            r = any(_ev(x, env, memo) for x in a)
        elif op == "iff":
            r = bool(_ev(a[0], env, memo)) == bool(_ev(a[1], env, memo))
        elif op == "le":
            r = _ev(a[0], env, memo) <= _ev(a[1], env, memo)
        elif op == "eq":
            r = _ev(a[0], env, memo) == _ev(a[1], env, memo)
        elif op == "fn":
            name = a[0]
            f = env.get(name) or FUNS.get(name)
            if f is None:
                raise Undefined(name)
            r = f(*[_ev(x, env, memo) for x in a[1:]])
            if isinstance(r, complex):
                raise Undefined
        elif op == "sel":
            f = env[a[0]]
            idx = tuple(int(_ev(x, env, memo)) for x in a[1:])
            if callable(f):
                r = f(*idx)
            else:
                if any(k < 0 or k >= s for k, s in zip(idx, f.shape)):
                    r = 0.0  # outside the array: arbitrary
                else:
                    r = f[idx].item()
        elif op in ("sum", "exists"):
            lo, hi = int(_ev(a[0], env, memo)), int(_ev(a[1], env, memo))
            name = a[2].args[0]
            acc = 0 if op == "sum" else False
            for k in range(lo, hi):
                e2 = dict(env)
                e2[name] = k
                v = _ev(a[3], e2, _sub_memo(memo, a[2]))
                if op == "sum":
                    acc += v
                elif v:
                    acc = True
                    break
            r = acc
        else:
            raise Undefined(op)
    except (ValueError, OverflowError, ZeroDivisionError) as e:
        raise Undefined(str(e))
    memo[t] = r
    return r


class _Sub(dict):
    pass


def _sub_memo(memo, b):
    # share only results that do not depend on the binder
    m = {}
    for k, v in memo.items():
        if b not in free(k):
            m[k] = v
    return m


# ---------------------------------------------------------------- differentiation
class NotDifferentiable(Exception):
    pass


def diff(t, x):
    """d t / d x, x a var or a sel-term (treated as an independent scalar).

    ite-conditions that depend on x make the result valid only in the interior
    of each region (stated where used)."""
    memo = {}

    def depends(u):
        if x.op == "var":
            return x in free(u)
        return any(s is x or (s.op == "sel" and s.args[0] == x.args[0]) for s in subterms(u))

    def go(u):
        if u is x:
            return ONE
        if not depends(u):
            return ZERO
        r = memo.get(u)
        if r is not None:
            return r
        a = u.args
        if u.op == "add":
            r = add(*[go(k) for k in a])
        elif u.op == "mul":
            r = add(*[mul(go(k), *[m for j, m in enumerate(a) if j != i]) for i, k in enumerate(a)])
        elif u.op == "pow":
            r = mul(num(a[1], R), ipow(a[0], a[1] - 1), go(a[0]))
        elif u.op == "ite":
            r = ite(a[0], go(a[1]), go(a[2]))
        elif u.op == "toreal":
            raise NotDifferentiable(show(u))
        elif u.op == "fn":
            n = a[0]
            if n == "exp":
                r = mul(u, go(a[1]))
            elif n == "log":
                r = mul(ipow(a[1], -1), go(a[1]))
            elif n == "sqrt":
                r = mul(num(Fraction(1, 2), R), ipow(u, -1), go(a[1]))
            elif n == "arctan":
                r = mul(ipow(add(ONE, mul(a[1], a[1])), -1), go(a[1]))
            elif n == "tanh":
                r = mul(sub(ONE, mul(u, u)), go(a[1]))
            elif n == "pow":
                if depends(a[2]):
                    r = mul(u, add(mul(go(a[2]), log(a[1])), mul(a[2], ipow(a[1], -1), go(a[1]))))
                else:
                    r = mul(a[2], rpow(a[1], sub(a[2], ONE)), go(a[1]))
            else:
                raise NotDifferentiable(n)
        elif u.op == "sum":
            lo, hi, b, body = a
            if x.op == "var":
                r = sum_(lo, hi, b, go(body))
            else:
                # x = v[i0]: derivative of sum_k f(v[k]) via delta
                raise NotDifferentiable("sum wrt element")
        elif u.op == "sel":
            if x.op == "sel" and u.args[0] == x.args[0]:
                same = and_(*[eq(p, q) for p, q in zip(u.args[1:], x.args[1:])])
                r = ite(same, ONE, ZERO)
            else:
                raise NotDifferentiable(show(u))
        else:
            raise NotDifferentiable(u.op)
        memo[u] = r
        return r

    return go(t)


def alpha(t):
    """t with its bound variables renamed by nesting height: equal up to renaming => the same term"""
    memo = {}

    def go(u):
        r = memo.get(u)
        if r is not None:
            return r
        if u.op in ("sum", "exists"):
            lo, hi, b, body = u.args
            (lo, h0), (hi, h1), (bd, h2) = go(lo), go(hi), go(body)
            h = max(h0, h1, h2)
            nb = var(f"@a{h}", b.sort)
            r = (rebuild(u, (lo, hi, nb, subst(bd, {b: nb}))), h + 1)
        else:
            parts = [go(a) if isinstance(a, T) else (a, 0) for a in u.args]
            h = max([p[1] for p in parts], default=0)
            r = (rebuild(u, [p[0] for p in parts]) if h else u, h)
        memo[u] = r
        return r

    return go(t)[0]
