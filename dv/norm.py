"""Normal form of terms: polynomials over atoms with multi-index sums.

Sound rewriting used before (and next to) the SMT back ends:
  * polynomial arithmetic with rational coefficients, 0/1 indicator atoms for
    conditions (ite(c,a,b) = [c]*a + (1-[c])*b),
  * exp/log/pow laws, each applied only when the positivity side condition is
    established by the oracle (current assumptions + SMT),
  * linearity of finite sums, exchange of nested sums, alpha-renaming,
  * x * x**-1 = 1 only when the oracle establishes x != 0.
Convention: 1/0 == 0 (definedness is a separate obligation).
"""
from fractions import Fraction
from itertools import permutations
from . import terms as tm
from .terms import T, R, I, B


class Blowup(Exception):
    pass


MAXMONO = 4000


class Norm:
    def __init__(self, oracle):
        self.o = oracle  # has .nonneg/.pos/.nonzero/.decide
        self.memo = {}
        self.roots = {}  # atom exp(log(a)/d) -> (d, polynomial of a)
        self.tmemo = {}
        self.bmemo = {}
        self.cutmemo = {}

    # ------------------------------------------------ polynomials
    @staticmethod
    def const(c):
        return {(): Fraction(c)} if c else {}

    @staticmethod
    def padd(*ps):
        acc = {}
        for p in ps:
            for m, c in p.items():
                v = acc.get(m, 0) + c
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
        return acc

    @staticmethod
    def pscale(p, c):
        return {m: k * c for m, k in p.items()} if c else {}

    def mmul(self, m1, m2):
        """product of monomials -> (monomial) with exponent laws."""
        if not m1:
            return m2
        if not m2:
            return m1
        d = dict(m1)
        for a, e in m2:
            if a in d:
                if a.op == "ind":
                    d[a] = 1
                    continue
                e0 = d[a]
                if e0 > 0 and e > 0 or e0 < 0 and e < 0 or self.o.nonzero(a):
                    s = e0 + e
                    if s:
                        d[a] = s
                    else:
                        del d[a]
                else:
                    # a possibly 0: keep positive and negative apart through a guard atom
                    # a^p * a^-n  with p>n: a^(p-n) also at 0 (0 = 0) ; p<n: (1/a)^(n-p) also at 0; p==n: [a!=0]
                    s = e0 + e
                    if s:
                        d[a] = s
                    else:
                        del d[a]
                        d[ind(tm.not_(tm.eq(a, tm.num(0, a.sort))))] = 1
            else:
                d[a] = e
        if len(d) > 1:
            cut = [a for a in d if a.op == "ind" and a.args[0].op in ("le", "eq")]
            for a in cut:
                for f in [f for f in d if f.op != "ind"]:
                    r = self.indcut(a, f)
                    if r is not None:
                        del d[a]
                        if r is not tm.TRUE:
                            d[ind(r)] = 1
                        break
        return tuple(sorted(d.items(), key=lambda x: x[0].id))

    def indcut(self, a, f):
        """f * [0 <= f * q] == f * [0 <= q] for f >= 0 (both are 0 when f == 0); None: not applicable."""
        c = a.args[0]
        if c.args[0 if c.op == "le" else 1] is not tm.ZERO:
            return None
        key = (c, f)
        if key in self.cutmemo:
            return self.cutmemo[key]
        self.cutmemo[key] = None
        q = self.nf(c.args[1 if c.op == "le" else 0])
        com = [(x, e) for x, e in self.content(q) if x is f and e > 0]
        if com and (c.op == "eq" or self.o.nonneg(f)):
            r = self.bsplit(self.pdivmono(q, tuple(com)), c.op)
            if r is tm.TRUE or r.op in ("le", "eq"):
                self.cutmemo[key] = r
        return self.cutmemo[key]

    def pmul(self, p, q):
        r = self.pmul0(p, q)
        if self.roots and any(a in self.roots and abs(e) >= self.roots[a][0] for m in r for a, e in m):
            out = {}
            for m, c in r.items():
                rest, extra = [], None
                for a, e in m:
                    if a in self.roots and abs(e) >= self.roots[a][0]:
                        d, base = self.roots[a]
                        k = abs(e) // d
                        f = self.ppow(base, k) if e > 0 else self.ppow(self.inv(base), k)
                        extra = f if extra is None else self.pmul0(extra, f)
                        e2 = (abs(e) - k * d) * (1 if e > 0 else -1)
                        if e2:
                            rest.append((a, e2))
                    else:
                        rest.append((a, e))
                t = {tuple(rest): c}
                out = self.padd(out, self.pmul0(t, extra) if extra is not None else t)
            return out
        return r

    def reduce_inv(self, p):
        """cancel 1/q against an exact multiple of q, for multi-term q known to be nonzero."""
        again = True
        while again:
            again = False
            for a in {a for m in p for a, e in m if a.op == "poly" and e < 0}:
                if not self.o.nonzero(a):
                    continue
                q = self.nf(a.args[0])
                if len(q) < 2 or self.inds(q):
                    continue
                low = min(e for m in p for x, e in m if x is a)
                grp = {m: c for m, c in p.items() if (a, low) in m}
                rest = {m: c for m, c in p.items() if m not in grp}
                num = {tuple(x for x in m if x[0] is not a): c for m, c in grp.items()}
                quo, rem = self.divmod(num, q)
                if not quo:
                    continue
                f = {((a, low + 1),): Fraction(1)} if low + 1 else self.const(1)
                p = self.padd(rest, self.pmul(quo, f), self.pmul(rem, {((a, low),): Fraction(1)}))
                again = True
                break
        return p

    def divmod(self, p, q):
        """p = quotient * q + remainder, no term of the remainder divisible by the leading term of q."""
        key = lambda m: (sum(e for _, e in m), tuple((a.id, e) for a, e in m))
        lm = max(q, key=key)
        lc = q[lm]
        out, rem = {}, {}
        for _ in range(200):
            if not p:
                return out, rem
            m = max(p, key=key)
            d = dict(m)
            if not all(d.get(a, 0) >= e for a, e in lm):
                rem[m] = p[m]
                p = {k: c for k, c in p.items() if k != m}
                continue
            c = p[m] / lc
            for a, e in lm:
                d[a] -= e
                if not d[a]:
                    del d[a]
            t = {tuple(sorted(d.items(), key=lambda x: x[0].id)): c}
            out = self.padd(out, t)
            p = self.padd(p, self.pscale(self.pmul0(t, q), -1))
        raise Blowup

    def pmul0(self, p, q):
        if len(p) * len(q) > 40000:
            raise Blowup
        acc = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                m = self.mmul(m1, m2)
                v = acc.get(m, 0) + c1 * c2
                if v:
                    acc[m] = v
                else:
                    acc.pop(m, None)
        if len(acc) > MAXMONO:
            raise Blowup
        return acc

    def ppow(self, p, e):
        r = self.const(1)
        for _ in range(e):
            r = self.pmul(r, p)
        return r

    @staticmethod
    def atom(a, e=1):
        return {((a, e),): Fraction(1)}

    def toT(self, p):
        """canonical term of a polynomial (memoised by content)."""
        out = []
        for m, c in sorted(p.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])):
            fs = [tm.num(c, R)] if (c != 1 or not m) else []
            for a, e in m:
                fs.append(tm.ipow(self.unatom(a), e))
            out.append(tm.mul(*fs) if len(fs) > 1 else fs[0])
        if not out:
            return tm.ZERO
        return tm.toreal(tm.add(*out)) if len(out) > 1 else tm.toreal(out[0])

    @staticmethod
    def unatom(a):
        if a.op == "ind":
            return tm.ite(a.args[0], tm.ONE, tm.ZERO)
        return tm.toreal(a)

    # ------------------------------------------------ main
    def nf(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._nf(t)
            self.memo[t] = r
        return r

    def _nf(self, t):
        op, a = t.op, t.args
        if op == "num":
            return self.const(a[0])
        if op == "var":
            return self.atom(t)
        if op == "toreal":
            return self.nf(a[0])
        if op == "add":
            return self.padd(*[self.nf(x) for x in a])
        if op == "mul":
            r = self.const(1)
            for x in a:
                r = self.pmul(r, self.nf(x))
            return r
        if op == "pow":
            p = self.nf(a[0])
            if a[1] > 0:
                return self.ppow(p, a[1])
            return self.ppow(self.inv(p), -a[1])
        if op == "ite":
            c = self.bnf(a[0])
            if c is tm.TRUE:
                return self.nf(a[1])
            if c is tm.FALSE:
                return self.nf(a[2])
            ip = self.indpoly(c)
            x, y = self.nf(a[1]), self.nf(a[2])
            return self.padd(self.pmul(ip, self.padd(x, self.pscale(y, -1))), y)
        if op == "ind":
            return self.indpoly(self.bnf(a[0]))
        if op == "sel":
            idx = [self.canonI(x) if isinstance(x, T) else x for x in a[1:]]
            # lift ite out of indices
            for k, x in enumerate(idx):
                if x.op == "ite":
                    c, u, v = x.args
                    i1 = list(idx); i1[k] = u
                    i2 = list(idx); i2[k] = v
                    return self.nf(tm.ite(c, tm.sel(a[0], *i1, sort=t.sort), tm.sel(a[0], *i2, sort=t.sort)))
            return self.atom(tm.sel(a[0], *idx, sort=t.sort))
        if op == "fn":
            return self.fnf(t)
        if op == "sum":
            return self.sumnf(t)
        if op in ("msum", "poly"):
            return self.nf(plain(t))
        raise ValueError(op)

    def canonI(self, t):
        """canonical integer index term."""
        if t.op in ("num", "var"):
            return t
        if t.op == "ite":
            c = self.bnf(t.args[0])
            return tm.ite(c, self.canonI(t.args[1]), self.canonI(t.args[2]))
        return t

    # ---- case splits on indicator atoms
    def inds(self, p):
        s = set()
        for m in p:
            for a, e in m:
                if a.op == "ind":
                    s.add(a)
        return sorted(s, key=lambda a: a.id)

    def setind(self, p, a, v):
        acc = {}
        for m, c in p.items():
            if any(b is a for b, _ in m):
                if v == 0:
                    continue
                m = tuple(x for x in m if x[0] is not a)
            w = acc.get(m, 0) + c
            if w:
                acc[m] = w
            else:
                acc.pop(m, None)
        return acc

    def split(self, p, f, depth=0):
        """f applied to a polynomial without indicator atoms."""
        s = self.inds(p)
        if not s:
            return f(p)
        if depth > 8:
            raise Blowup
        a = s[0]
        p1 = self.split(self.setind(p, a, 1), f, depth + 1)
        p0 = self.split(self.setind(p, a, 0), f, depth + 1)
        ip = self.atom(a)
        return self.padd(self.pmul(ip, self.padd(p1, self.pscale(p0, -1))), p0)

    def inv(self, p):
        return self.split(p, self._inv)

    def lead(self, p):
        m = min(p, key=lambda m: (len(m), tuple((a.id, e) for a, e in m)))
        return p[m]

    def _inv(self, p):
        if not p:
            return {}
        if len(p) == 1:
            (m, c), = p.items()
            return {tuple((a, -e) for a, e in m): 1 / c}
        # content
        com = self.content(p)
        if com:
            q = self.pdivmono(p, com)
            return self.pmul({tuple((a, -e) for a, e in com): Fraction(1)}, self._inv(q))
        c = self.lead(p)
        q = self.toT(self.pscale(p, 1 / c))
        return {((T("poly", (q,), R), -1),): 1 / c}

    def content(self, p):
        """common monomial factor (min exponents) over atoms known nonzero."""
        ms = list(p)
        cand = {}
        for m in ms:
            for a, e in m:
                cand.setdefault(a, []).append(e)
        out = []
        for a, es in cand.items():
            if a.op == "ind":
                continue
            mn = min(es) if len(es) == len(ms) else min(min(es), 0)
            if mn == 0:
                continue
            if not self.o.nonzero(a):
                if mn > 0 and len(es) == len(ms):
                    # x*q with x possibly zero: fine for inverse under inv(0)=0 (multiplicative)
                    out.append((a, mn))
                continue
            out.append((a, mn))
        return tuple(sorted(out, key=lambda x: x[0].id))

    def pdivmono(self, p, com):
        d = dict(com)
        acc = {}
        for m, c in p.items():
            e = dict(m)
            for a, k in d.items():
                e[a] = e.get(a, 0) - k
                if e[a] == 0:
                    del e[a]
            mm = tuple(sorted(e.items(), key=lambda x: x[0].id))
            acc[mm] = acc.get(mm, 0) + c
        return acc

    def fnf(self, t):
        name = t.args[0]
        args = t.args[1:]
        if name == "exp":
            return self.split(self.nf(args[0]), self._exp)
        if name == "log":
            return self.split(self.nf(args[0]), self._log)
        if name == "pow":
            b, e = args
            bp = self.nf(b)
            if not self.inds(bp) and not self.inds(self.nf(e)):
                if self.o.pos(self.toT(bp)):
                    return self._exp(self.pmul(self.nf(e), self._log(bp)))
                tb, te = self.toT(bp), self.toT(self.nf(e))
                if self.o.pos(te) and (not bp or self.o.ask(tm.eq(tb, tm.ZERO))):
                    return {}
                return self.atom(tm.fn("pow", tb, te))
            return self.split(bp, lambda q: self.split(self.nf(e), lambda r: self.fnf(tm.fn("pow", self.toT(q), self.toT(r)))))
        if name == "sqrt":
            p = self.nf(args[0])
            if not self.inds(p) and self.o.pos(self.toT(p)):
                return self._exp(self.pscale(self._log(p), Fraction(1, 2)))
            return self.split(p, lambda q: self.atom(tm.fn("sqrt", self.toT(q))))
        if name == "floor":
            return self.atom(tm.fn("floor", self.toT(self.nf(args[0])), sort=I))
        # generic uninterpreted function: canonicalise args, split indicators
        def go(i, acc):
            if i == len(args):
                return self.atom(tm.fn(name, *acc, sort=t.sort))
            if args[i].sort == B:
                return go(i + 1, acc + [self.bnf(args[i])])
            if args[i].sort == I:
                return go(i + 1, acc + [self.canonI(args[i])])
            return self.split(self.nf(args[i]), lambda q: go(i + 1, acc + [self.toT(q)]))
        return go(0, [])

    def _exp(self, p):
        """exp of an indicator-free polynomial."""
        p = self.reduce_inv(p)
        r = self.const(1)
        for m, c in p.items():
            if m == ():
                # exp(const)
                if c.denominator == 1:
                    r = self.pmul(r, self.atom(tm.fn("exp", tm.ONE), int(c)))
                else:
                    base = tm.fn("exp", tm.num(Fraction(1, c.denominator), R))
                    r = self.pmul(r, self.atom(base, int(c.numerator)))
                continue
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "log" and c.denominator == 1 \
                    and self.o.pos(m[0][0].args[1]):
                k = int(c)
                q = self.nf(m[0][0].args[1])
                r = self.pmul(r, self.ppow(q, k) if k > 0 else self.ppow(self.inv(q), -k))
                continue
            base = tm.fn("exp", self.toT({m: Fraction(1, c.denominator)}))
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "fn" and m[0][0].args[0] == "log" and base not in self.roots and self.o.pos(m[0][0].args[1]):
                q = self.nf(m[0][0].args[1])
                if not self.inds(q):
                    self.roots[base] = (c.denominator, q)
            r = self.pmul(r, self.atom(base, int(c.numerator)))
        return r

    def _log(self, p):
        if not p:
            return self.atom(tm.fn("log", tm.ZERO))
        com = self.content_pos(p)
        q = self.pdivmono(p, com) if com else p
        res = {}
        for a, e in com:
            res = self.padd(res, self.pscale(self.logatom(a), e))
        if len(q) == 1:
            (m, c), = q.items()
            if c > 0 and all(self.o.pos(a) for a, _ in m):
                for a, e in m:
                    res = self.padd(res, self.pscale(self.logatom(a), e))
                if c != 1:
                    res = self.padd(res, self.logconst(c))
                return res
            return self.padd(res, self.atom(tm.fn("log", self.toT(q))))
        c = self.lead(q)
        if c > 0 and c != 1:
            q = self.pscale(q, 1 / c)
            res = self.padd(res, self.logconst(c))
        return self.padd(res, self.atom(tm.fn("log", self.toT(q))))

    def logconst(self, c):
        r = {}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while n > 1 and d < 10000:
                while n % d == 0:
                    r = self.padd(r, self.pscale(self.atom(tm.fn("log", tm.num(d, R))), s))
                    n //= d
                d += 1
            if n > 1:
                r = self.padd(r, self.pscale(self.atom(tm.fn("log", tm.num(n, R))), s))
        return r

    def logatom(self, a):
        if a.op == "fn" and a.args[0] == "exp":
            return self.nf(a.args[1])
        if a.op == "poly":
            return self.atom(tm.fn("log", a.args[0]))
        return self.atom(tm.fn("log", tm.toreal(a)))

    def content_pos(self, p):
        com = []
        for a, e in self.content(p):
            if self.o.pos(a):
                com.append((a, e))
        # poly atoms (inverse of multi-term): 1/q factors present in every monomial
        return tuple(com)

    # ------------------------------------------------ conditions
    def bnf(self, c):
        r = self.bmemo.get(c)
        if r is None:
            r = self._bnf(c)
            self.bmemo[c] = r
        return r

    def _bnf(self, c):
        op, a = c.op, c.args
        if op in ("true", "false"):
            return c
        if op == "not":
            return tm.not_(self.bnf(a[0]))
        if op == "and":
            return tm.and_(*[self.bnf(x) for x in a])
        if op == "or":
            return tm.or_(*[self.bnf(x) for x in a])
        if op == "iff":
            return tm.iff(self.bnf(a[0]), self.bnf(a[1]))
        if op in ("le", "eq"):
            x, y = a
            if x.sort == I and y.sort == I and not _has_nonlin(x) and not _has_nonlin(y):
                r = c
            else:
                p = self.padd(self.nf(y), self.pscale(self.nf(x), -1))
                # split indicators into boolean structure
                return self.bsplit(p, op)
            d = self.o.decide(r)
            if d is not None:
                return tm.bconst(d)
            return r
        if op == "exists":
            lo, hi, b, body = a
            sub = Norm(self.o.extend([tm.le(lo, b), tm.lt(b, hi)]))
            return tm.exists(lo, hi, b, sub.bnf(body))
        return c

    def bsplit(self, p, op, depth=0):
        s = self.inds(p)
        if s and depth < 6:
            a = s[0]
            c = a.args[0]
            return tm.or_(
                tm.and_(c, self.bsplit(self.setind(p, a, 1), op, depth + 1)),
                tm.and_(tm.not_(c), self.bsplit(self.setind(p, a, 0), op, depth + 1)),
            )
        if not p:
            return tm.TRUE
        if set(p) == {()}:
            v = p[()]
            return tm.bconst(v >= 0 if op == "le" else v == 0)
        k = self.lead(p)
        # drop positive common factors
        com = []
        for a, e in self.content(p):
            if self.o.pos(a) or (op == "eq" and self.o.nonzero(a)):
                com.append((a, e))
        if com:
            p = self.pdivmono(p, tuple(com))
            if set(p) == {()}:
                v = p[()]
                return tm.bconst(v >= 0 if op == "le" else v == 0)
            k = self.lead(p)
        if op == "eq":
            t = self.toT(self.pscale(p, 1 / k))
            r = tm.eq(t, tm.ZERO)
        else:
            t = self.toT(self.pscale(p, 1 / abs(k)))
            r = tm.le(tm.ZERO, t)
        d = self.o.decide(r)
        if d is not None:
            return tm.bconst(d)
        return r

    def indpoly(self, c):
        if c is tm.TRUE:
            return self.const(1)
        if c is tm.FALSE:
            return {}
        if c.op == "not":
            return self.padd(self.const(1), self.pscale(self.indpoly(c.args[0]), -1))
        if c.op == "and":
            r = self.const(1)
            for x in c.args:
                r = self.pmul(r, self.indpoly(x))
            return r
        if c.op == "or":
            r = self.const(1)
            for x in c.args:
                r = self.pmul(r, self.padd(self.const(1), self.pscale(self.indpoly(x), -1)))
            return self.padd(self.const(1), self.pscale(r, -1))
        if c.op == "iff":
            x, y = self.indpoly(c.args[0]), self.indpoly(c.args[1])
            return self.padd(self.const(1), self.pscale(x, -1), self.pscale(y, -1), self.pscale(self.pmul(x, y), 2))
        return self.atom(ind(c))

    # ------------------------------------------------ sums
    def sumnf(self, t):
        lo, hi, b, body = t.args
        lo, hi = self.canonI(lo), self.canonI(hi)
        # shift so that lower bound is 0
        if not (lo.op == "num" and tm.val(lo) == 0):
            body = tm.subst(body, {b: tm.add(b, lo)})
            hi = tm.sub(hi, lo)
            lo = tm.num(0, I)
        e = self.threshold(b, hi, body)
        if e is not None:
            # split the range where a condition of the body changes
            f1, f2 = tm.fresh("@s", I), tm.fresh("@s", I)
            r = {}
            for l, u, f in ((lo, e, f1), (e, hi, f2)):
                if u is l:
                    continue
                d = self.canonI(tm.sub(u, l))
                if d.op == "num" and tm.val(d) == 1:
                    r = self.padd(r, self.nf(tm.toreal(tm.subst(body, {b: l}))))
                    continue
                part = self.extend_range(f, l, u).simp(tm.subst(body, {b: f}))
                r = self.padd(r, self.nf(tm.toreal(tm.sum_(l, u, f, part))))
            return r
        h = height(body) + 1
        for a in (lo, hi):
            h = max(h, height(a) + 1)
        nb = tm.var(f"@{h}.0", I)
        if nb in tm.free(body) and nb is not b:
            raise Blowup
        body = tm.subst(body, {b: nb})
        sub = Norm(self.o.extend([tm.le(tm.num(0, I), nb), tm.lt(nb, hi)]))
        p = sub.nf(body)
        # delta elimination: [nb == e] * f(nb)  -> [0<=e<hi] f(e)
        acc = {}
        for m, c in p.items():
            acc = self.padd(acc, self.pscale(self.summono(nb, hi, m), c))
        return acc

    def extend_range(self, b, lo, hi):
        return Norm(self.o.extend([tm.le(lo, b), tm.lt(b, hi)]))

    def simp(self, t):
        """decide the integer conditions of t in the current context"""
        ren = {}
        fv = tm.free(t)
        for c in tm.subterms(t):
            if c.op in ("le", "eq") and c.args[0].sort == I and tm.free(c) <= fv and not _has_nonlin(c.args[0]) and not _has_nonlin(c.args[1]):
                d = self.o.decide(c)
                if d is not None:
                    ren[c] = tm.bconst(d)
        return tm.replace(t, ren.get) if ren else t

    def threshold(self, b, hi, body):
        cs = [c for c in tm.subterms(body) if c.op in ("le", "eq") and c.args[0].sort == I and b in tm.free(c)]
        for c in sorted(cs, key=lambda c: c.id):
            x, y = c.args
            if _has_nonlin(x) or _has_nonlin(y):
                continue
            d = tm.sub(y, x)
            k = tm.sub(tm.subst(d, {b: tm.add(b, tm.num(1, I))}), d)
            if k.op != "num" or abs(tm.val(k)) != 1:
                continue
            e = tm.subst(d, {b: tm.num(0, I)})
            up = tm.val(k) > 0
            if c.op == "le":
                e = tm.neg(e) if up else tm.add(e, tm.num(1, I))
            else:
                e = tm.neg(e) if up else e
                if e.op == "num" and tm.val(e) == 0:
                    e = tm.num(1, I)
                elif not (self.canonI(tm.sub(hi, e)).op == "num" and tm.val(self.canonI(tm.sub(hi, e))) == 1):
                    continue
            e = self.canonI(e)
            if not tm.free(e) <= (tm.free(body) | tm.free(hi)):
                continue
            if self.o.decide(tm.and_(tm.lt(tm.num(0, I), e), tm.lt(e, hi))) is True:
                return e
        return None

    def summono(self, b, hi, m):
        inside, outside = [], []
        for a, e in m:
            (inside if b in tm.free(a) else outside).append((a, e))
        out = {tuple(outside): Fraction(1)}
        if not inside:
            n = self.nf(hi) if self.o.decide(tm.le(tm.num(0, I), hi)) else None
            if n is None:
                n = self.nf(tm.ite(tm.le(tm.num(0, I), hi), hi, tm.num(0, I)))
            return self.pmul(out, n)
        # delta
        for k, (a, e) in enumerate(inside):
            if a.op == "ind" and a.args[0].op == "eq":
                x, y = a.args[0].args
                for u, v in ((x, y), (y, x)):
                    if u is b and b not in tm.free(v):
                        rest = [z for j, z in enumerate(inside) if j != k]
                        body = tm.mul(tm.ONE, *[tm.ipow(self.unatom(q), ee) if q.op != "poly" else tm.ipow(q.args[0], ee) for q, ee in rest])
                        cond = tm.and_(tm.le(tm.num(0, I), v), tm.lt(v, hi))
                        return self.pmul(out, self.nf(tm.ite(cond, tm.subst(body, {b: v}), tm.ZERO)))
        # merge nested sums (msum atoms with positive exponent) that contain b
        binders = [(b, hi)]
        factors = []
        for a, e in inside:
            if a.op == "msum" and e > 0:
                for _ in range(e):
                    ren = {}
                    for (nb, nh) in a.args[0]:
                        f = tm.fresh("@s", I)
                        ren[nb] = f
                        binders.append((f, tm.subst(nh, ren)))
                    for fa, fe in a.args[1]:
                        factors.append((subst_atom(fa, ren), fe))
            else:
                factors.append((a, e))
        return self.pmul(out, self.mk_msum(binders, factors))

    def mk_msum(self, binders, factors):
        # connected components
        bs = [b for b, _ in binders]
        comp = {b: b for b in bs}

        def find(x):
            while comp[x] is not x:
                x = comp[x]
            return x

        fb = []
        for a, e in factors:
            used = [b for b in bs if b in tm.free(a)]
            fb.append(used)
            for u in used[1:]:
                comp[find(u)] = find(used[0])
        for b, h in binders:
            for u in bs:
                if u in tm.free(h):
                    comp[find(u)] = find(b)
        groups = {}
        for b, h in binders:
            groups.setdefault(find(b), ([], []))[0].append((b, h))
        outside = []
        for (a, e), used in zip(factors, fb):
            if used:
                groups[find(used[0])][1].append((a, e))
            else:
                outside.append((a, e))
        r = {tuple(sorted(outside, key=lambda x: x[0].id)): Fraction(1)}
        for bl, fl in groups.values():
            if not fl:
                x = self.const(1)
                for b, h in bl:
                    x = self.pmul(x, self.nf(h))
                r = self.pmul(r, x)
            else:
                r = self.pmul(r, self.canon_msum(bl, fl))
        return r

    def canon_msum(self, bl, fl):
        if len(bl) > 5:
            raise Blowup
        h = 0
        for a, _ in fl:
            h = max(h, height_excluding(a, {b for b, _ in bl}))
        for _, hi in bl:
            h = max(h, height_excluding(hi, {b for b, _ in bl}))
        h += 1
        best = None
        for perm in permutations(range(len(bl))):
            ren = {bl[j][0]: tm.var(f"@{h}.{k}", I) for k, j in enumerate(perm)}
            bnew = tuple((tm.var(f"@{h}.{k}", I), tm.subst(bl[j][1], ren)) for k, j in enumerate(perm))
            # range of binder k may only mention earlier binders
            ok = True
            for k, (b, hi) in enumerate(bnew):
                if any(bb in tm.free(hi) for bb, _ in bnew[k:]):
                    ok = False
            if not ok:
                continue
            fs = {}
            for a, e in fl:
                a2 = subst_atom(a, ren)
                fs[a2] = fs.get(a2, 0) + e if a2.op != "ind" else 1
            fnew = tuple(sorted(fs.items(), key=lambda x: x[0].id))
            key = (tuple(hi.id for _, hi in bnew), tuple((a.id, e) for a, e in fnew))
            if best is None or key < best[0]:
                best = (key, bnew, fnew)
        if best is None:
            raise Blowup
        _, bnew, fnew = best
        return self.atom(MS(bnew, fnew))


def subst_atom(a, ren):
    if a.op == "ind":
        return ind(tm.subst(a.args[0], ren))
    if a.op == "poly":
        return T("poly", (tm.subst(a.args[0], ren),), R)
    if a.op == "msum":
        return MS(tuple((b, tm.subst(h, ren)) for b, h in a.args[0]),
                  tuple(sorted(((subst_atom(x, ren), e) for x, e in a.args[1]), key=lambda x: x[0].id)))
    return tm.subst(a, ren)


_ms = {}


def MS(binders, factors):
    """multi-sum atom; args = (binders, factors, plain sum term)"""
    key = (tuple((b.id, h.id) for b, h in binders), tuple((a.id, e) for a, e in factors))
    r = _ms.get(key)
    if r is not None:
        return r
    body = tm.mul(tm.ONE, *[
        tm.ipow(plain(a), e) for a, e in factors
    ])
    t = body
    for b, h in reversed(binders):
        t = tm.sum_(tm.num(0, I), h, b, t)
    r = object.__new__(T)
    r.op, r.args, r.sort = "msum", (binders, factors, t), R
    r._fv = tm.free(t)
    T._n += 1
    r.id = T._n
    r._h = hash(("msum", r.id))
    _ms[key] = r
    return r


def plain(a):
    if a.op == "ind":
        return tm.ite(a.args[0], tm.ONE, tm.ZERO)
    if a.op == "poly":
        return a.args[0]
    if a.op == "msum":
        return a.args[2]
    return tm.toreal(a)


Norm.unatom = staticmethod(plain)


def ind(c):
    r = T("ind", (c,), R)
    return r


def _has_nonlin(t):
    return any(u.op in ("fn", "sum", "ite") for u in tm.subterms(t))


def height(t):
    h = 0
    for u in tm.subterms(t):
        if u.op == "var" and u.args[0].startswith("@") and not u.args[0].startswith("@s"):
            h = max(h, int(u.args[0][1:].split(".")[0]))
        if u.op in ("sum",):
            pass
    return h


def height_excluding(a, bs):
    h = 0
    for u in tm.subterms(plain(a)):
        if u.op == "var" and u not in bs and u.args[0].startswith("@") and not u.args[0].startswith("@s"):
            h = max(h, int(u.args[0][1:].split(".")[0]))
    return h
