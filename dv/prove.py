"""Discharging obligations: normal form (norm.py), z3, then cvc5."""
import sys, time
from fractions import Fraction
from . import terms as tm
from .terms import T, R, I, B
from .norm import Norm, Blowup, MS, plain, ind

try:
    import z3
except ImportError:  # z3 lives in the shared tools venv, same python version
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3

STATS = {"z3_calls": 0, "z3_time": 0.0, "cvc5_calls": 0, "cvc5_time": 0.0, "oracle": 0}

ZI = tm.num(0, I)


class Unsupported(Exception):
    pass


class Enc:
    """T -> z3, real atoms canonicalised by a Norm, UF for selections."""

    def __init__(self, facts, ack=False, norm=None):
        self.facts = facts
        self.memo = {}
        self.ack = ack
        self.side = []
        self.consts = {}
        self.bound = set()
        self.norm = norm
        self.apps = {"exp": [], "log": []}
        self.sels = {}

    def const(self, key, name, sort):
        c = self.consts.get(key)
        if c is None:
            n = f"{name}#{len(self.consts)}"
            c = z3.Real(n) if sort == R else z3.Int(n) if sort == I else z3.Bool(n)
            self.consts[key] = c
        return c

    def e(self, t):
        if t.op in ("msum", "ind", "poly"):
            t = plain_keep(t)
        r = self.memo.get(t)
        if r is None:
            r = self._e(t)
            if not (tm.free(t) & self.bound):
                self.memo[t] = r
        return r

    def _e(self, t):
        op, a = t.op, t.args
        if op == "num":
            f = a[0]
            return z3.IntVal(int(f)) if t.sort == I else z3.RealVal(str(f))
        if op == "var":
            if t.sort == R:
                return z3.Real(a[0])
            if t.sort == I:
                return z3.Int(a[0])
            return z3.Bool(a[0])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "add":
            return z3.Sum(*[self.cast(x, t.sort) for x in a])
        if op == "mul":
            r = None
            for x in a:
                v = self.cast(x, t.sort)
                r = v if r is None else r * v
            return r
        if op == "pow":
            b = self.cast(a[0], R if a[1] < 0 else t.sort)
            if a[1] > 0:
                r = b
                for _ in range(a[1] - 1):
                    r = r * b
                return r
            if tm.free(a[0]) & self.bound:
                r = z3.If(b == 0, z3.RealVal(0), 1 / b)
            else:
                r = self.const(("inv", a[0]), "inv", R)
                self.side.append(z3.If(b == 0, r == 0, r * b == 1))
            s = r
            for _ in range(-a[1] - 1):
                s = s * r
            return s
        if op == "toreal":
            return z3.ToReal(self.e(a[0]))
        if op == "ite":
            return z3.If(self.e(a[0]), self.cast(a[1], t.sort), self.cast(a[2], t.sort))
        if op == "not":
            return z3.Not(self.e(a[0]))
        if op == "and":
            return z3.And(*[self.e(x) for x in a])
        if op == "or":
            return z3.Or(*[self.e(x) for x in a])
        if op == "iff":
            return self.e(a[0]) == self.e(a[1])
        if op in ("le", "eq"):
            s = R if R in (a[0].sort, a[1].sort) else I
            x, y = self.cast(a[0], s), self.cast(a[1], s)
            return x <= y if op == "le" else x == y
        if op == "sel":
            return self.esel(t)
        if op == "fn":
            return self.efn(t)
        if op in ("sum", "msum"):
            if tm.free(t) & self.bound:
                # uninterpreted in the bound variables it depends on
                fv = sorted(tm.free(t) & self.bound, key=lambda v: v.args[0])
                f = z3.Function(f"sum#{tm.alpha(t).id}", *[z3.IntSort()] * len(fv), z3.RealSort())
                return f(*[self.e(v) for v in fv])
            return self.const(tm.alpha(t), "sum", R)
        if op == "exists":
            lo, hi, b, body = a
            fv = set(self.bound)
            self.bound.add(b)
            try:
                bb = z3.Int(b.args[0])
                n0 = len(self.side)
                body_e = self.e(body)
                f = self.guard_facts(body)
                inner = self.side[n0:]
                del self.side[n0:]
                for s in inner:
                    self.side.append(s)
                # facts about selections with bound indices hold for all b: add universally
                if f:
                    self.side.append(z3.ForAll([bb], z3.And(*f)))
                return z3.Exists([bb], z3.And(self.e(lo) <= bb, bb < self.e(hi), body_e))
            finally:
                self.bound = fv
        raise Unsupported(op)

    def guard_facts(self, body):
        out = []
        for u in tm.subterms(body):
            if u.op == "sel" and (tm.free(u) & self.bound) and u.args[0] in self.facts:
                for f in self.facts[u.args[0]](*u.args[1:]):
                    out.append(self.e(f))
        return out

    def cast(self, t, s):
        r = self.e(t)
        if s == R and t.sort == I:
            return z3.ToReal(r)
        return r

    def esel(self, t):
        name, idx = t.args[0], t.args[1:]
        if not (tm.free(t) & self.bound):
            self.sels[t] = True
            if self.ack:
                return self.const(t, name, t.sort)
        f = z3.Function(name, *([z3.IntSort()] * len(idx)), z3.RealSort() if t.sort == R else (z3.IntSort() if t.sort == I else z3.BoolSort()))
        return f(*[self.e(i) for i in idx])

    def efn(self, t):
        name, args = t.args[0], t.args[1:]
        if name == "floor":
            return z3.ToInt(self.cast(args[0], R))
        if (tm.free(t) & self.bound) or not self.ack:
            f = z3.Function("f_" + name, *[zsort(x.sort) for x in args], zsort(t.sort))
            r = f(*[self.e(x) for x in args])
        else:
            for x in args:
                if x.sort != B:
                    self.e(x)
            r = self.const(t, name, t.sort) if t.sort != B else z3.Bool(f"b#{t.id}")
        if not (tm.free(t) & self.bound) and name in self.apps and (t, r) not in self.apps[name]:
            self.apps[name].append((t, r))
            if name == "exp":
                self.side.append(r > 0)
                x = self.cast(args[0], R)
                self.side.append(r >= 1 + x)
                self.side.append(z3.Implies(x == 0, r == 1))
                self.side.append((r > 1) == (x > 0))
            if name == "log":
                x = self.cast(args[0], R)
                self.side.append(z3.Implies(x > 0, r <= x - 1))
                # log x >= 1 - 1/x  (x > 0), written without division
                self.side.append(z3.Implies(x > 0, r * x >= x - 1))
                self.side.append(z3.Implies(x == 1, r == 0))
                self.side.append(z3.Implies(x > 0, (r > 0) == (x > 1)))
                self.side.append(z3.Implies(z3.And(x > 0, x != 1), r < x - 1))
        if name == "sqrt":
            x = self.cast(args[0], R)
            if not (tm.free(t) & self.bound):
                self.side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
        if name == "pow" and not (tm.free(t) & self.bound):
            self.side.append(z3.Implies(self.cast(args[0], R) > 0, r > 0))
            self.side.append(z3.Implies(z3.And(self.cast(args[0], R) == 0, self.cast(args[1], R) > 0), r == 0))
            self.side.append(z3.Implies(self.cast(args[0], R) == 1, r == 1))
        return r

    def finish(self):
        """pairwise monotonicity of exp/log applications, array facts."""
        out = []
        for name in ("exp", "log"):
            ap = self.apps[name]
            if len(ap) <= 8:
                for i in range(len(ap)):
                    for j in range(i):
                        x, y = self.cast(ap[i][0].args[1], R), self.cast(ap[j][0].args[1], R)
                        if name == "exp":
                            out.append((x < y) == (ap[i][1] < ap[j][1]))
                            out.append((x == y) == (ap[i][1] == ap[j][1]))
                        else:
                            out.append(z3.Implies(z3.And(x > 0, y > 0), (x < y) == (ap[i][1] < ap[j][1])))
        done = set()
        for _ in range(3):
            todo = [s for s in self.sels if s not in done]
            if not todo:
                break
            for s in todo:
                done.add(s)
                f = self.facts.get(s.args[0])
                if f:
                    for g in f(*s.args[1:]):
                        out.append(self.e(g))
                pf = self.facts.get(("pair", s.args[0]))
                if pf:
                    for o in list(self.sels):
                        if o is not s and o.args[0] == s.args[0] and len(done) < 40:
                            for g in pf(s.args[1], o.args[1]) + pf(o.args[1], s.args[1]):
                                out.append(self.e(g))
        return self.side + out


def plain_keep(t):
    if t.op == "msum":
        return t
    return plain(t)


def zsort(s):
    return {R: z3.RealSort(), I: z3.IntSort(), B: z3.BoolSort()}[s]


def _has_quant(ts):
    return any(u.op == "exists" for t in ts for u in tm.subterms(t))


class Prover:
    def __init__(self, assumptions, facts=None, timeout=8000, depth=0):
        self.assume = []
        for a in assumptions:
            if a.op == "and":
                self.assume.extend(a.args)
            elif a is not tm.TRUE:
                self.assume.append(a)
        self.aset = set(self.assume)
        self.facts = facts or {}
        self.timeout = timeout
        self.cache = {}
        self._norm = None
        self._nassume = None
        self.depth = depth
        self.reason = ""
        self.children = {}

    @property
    def norm(self):
        if self._norm is None:
            self._norm = Norm(self)
        return self._norm

    def extend(self, more):
        more = [m for m in more if m is not tm.TRUE]
        key = tuple(m.id for m in more)
        p = self.children.get(key)
        if p is None:
            p = Prover(self.assume + more, self.facts, self.timeout, self.depth + 1)
            self.children[key] = p
        return p

    # ---------------------------------------------------------- oracle
    def pos(self, t):
        if t.op in ("ind", "poly", "msum"):
            t = plain_keep(t)
        k = ("p", t)
        r = self.cache.get(k)
        if r is None:
            r = self.qpos(t)
            if r is None:
                if t.sort == R and t.op in ("var", "sel", "add", "mul", "fn", "toreal", "ite", "pow", "msum", "sum"):
                    r = self.ask(tm.lt(tm.num(0, t.sort), t)) if t.op not in ("msum", "sum") else False
                else:
                    r = False
                if not r and t.sort == R and t.op in ("add", "mul", "sum", "msum", "pow"):
                    self.cache[k] = False
                    r = self.spos(t)
            self.cache[k] = r
        return r

    def spos(self, t):
        """positivity of a term with sums, from the assumptions about sums (each sum opaque, in normal form)"""
        if self.nospos:
            return False
        if not any(u.op in ("sum", "msum") for u in tm.subterms(t)):
            return False
        if self._sumass is None:
            self._sumass = [a for a in self.assume if (a.op in ("le", "eq") or (a.op == "not" and a.args[0].op in ("le", "eq"))) and any(u.op == "sum" for u in tm.subterms(a))
                            and not any(u.op in ("exists", "ite") for u in tm.subterms(a))]
            if len(self._sumass) > 12:
                self._sumass = []
        if not self._sumass:
            return False
        if self._sumnf is None:
            p = Prover([a for a in self.assume if not any(u.op in ("exists", "sum", "msum") for u in tm.subterms(a))], self.facts, self.timeout, self.depth + 1)
            p.nospos = True
            self._sumnorm = Norm(p)
            try:
                self._sumnf = [self._sumnorm.bnf(a) for a in self._sumass]
            except Blowup:
                self._sumnf = []
        try:
            g = self._sumnorm.bnf(tm.lt(tm.ZERO, plain(t)))
        except Blowup:
            return False
        if g is tm.TRUE:
            return True
        want = {u for u in tm.subterms(g) if u.op in ("sum", "msum")}
        if not any(want & set(tm.subterms(a)) for a in self._sumnf):
            return False
        STATS["oracle"] += 1
        rest = [a for a in self.relevant(g) if not any(u.op in ("exists", "sum") for u in tm.subterms(a))]
        return self.smt(g, 400, assume=self._sumnf + rest) == "unsat"

    nospos = False
    _sumass = _sumnf = None

    def qpos(self, t):
        op = t.op
        if op == "num":
            return tm.val(t) > 0
        if op == "fn" and t.args[0] == "exp":
            return True
        if op == "fn" and t.args[0] == "pow":
            return self.pos(t.args[1])
        if op == "pow":
            return True if self.pos(t.args[0]) else None
        if op == "mul":
            if all(self.pos(x) for x in t.args):
                return True
        if op == "add":
            if all(self.pos(x) for x in t.args):
                return True
        if tm.lt(tm.num(0, t.sort), t) in self.aset:
            return True
        if op == "toreal":
            return self.ask(tm.lt(ZI, t.args[0]))
        return None

    def nonneg(self, t):
        if t.op in ("ind", "poly", "msum"):
            t = plain_keep(t)
        k = ("nn", t)
        r = self.cache.get(k)
        if r is None:
            z = tm.num(0, t.sort)
            r = self.pos(t) or tm.le(z, t) in self.aset
            if not r and t.op in ("var", "sel", "mul", "toreal", "pow"):
                r = self.ask(tm.le(z, t))
            self.cache[k] = r
        return r

    def nonzero(self, t):
        if t.op == "ind":
            return False
        if t.op in ("poly", "msum"):
            t = plain_keep(t)
        k = ("z", t)
        r = self.cache.get(k)
        if r is None:
            if self.pos(t):
                r = True
            elif t.op == "mul":
                r = all(self.nonzero(x) for x in t.args)
            elif t.op == "pow":
                r = self.nonzero(t.args[0])
            elif t.op in ("msum", "sum"):
                r = False
                for a in self.assume:
                    if a.op == "not" and a.args[0].op == "eq" and t in (a.args[0].args) :
                        r = True
            else:
                r = self.ask(tm.not_(tm.eq(t, tm.num(0, t.sort))))
            self.cache[k] = r
        return r

    def decide(self, c):
        if c in self.aset:
            return True
        if tm.not_(c) in self.aset:
            return False
        if c.op == "exists" or any(u.op in ("sum", "msum", "exists") for u in tm.subterms(c)):
            return None
        k = ("d", c)
        if k in self.cache:
            return self.cache[k]
        r = None
        if self.ask(c):
            r = True
        elif self.ask(tm.not_(c)):
            r = False
        self.cache[k] = r
        return r

    def ask(self, c, timeout=400):
        """quick entailment query on raw terms (no normal form)."""
        if c is tm.TRUE:
            return True
        if c is tm.FALSE and not self.assume:
            return False
        if c in self.aset:
            return True
        k = ("a", c)
        if k in self.cache:
            return self.cache[k]
        self.cache[k] = False  # cut cycles
        STATS["oracle"] += 1
        r = self.smt(c, timeout, raw=True, quick=True) == "unsat"
        self.cache[k] = r
        return r

    # ---------------------------------------------------------- SMT
    def relevant(self, c):
        """assumptions sharing (transitively) a symbol with c"""
        want = set(syms(c))
        for u in tm.subterms(c):
            if u.op == "sel":
                want |= self.fsyms(u)
        out = []
        rest = list(self.assume)
        changed = True
        while changed:
            changed = False
            keep = []
            for a in rest:
                s = syms(a)
                if not s or (s & want):
                    out.append(a)
                    want |= s
                    changed = True
                else:
                    keep.append(a)
            rest = keep
        return out

    def fsyms(self, u):
        """symbols of the facts known about the elements of the array u selects from"""
        f = self.facts.get(u.args[0])
        if f is None:
            return set()
        r = _FS.get(f)
        if r is None:
            _FS[f] = r = set()
            ix = [tm.var(f"?f{k}", I) for k in range(len(u.args) - 1)]
            for g in f(*ix):
                r |= syms(g)
            r -= {f"?f{k}" for k in range(len(ix))}
        return r

    def smt(self, goal, timeout, raw=True, quick=False, assume=None):
        ass = self.relevant(goal) if assume is None else assume
        if quick:
            ass = [a for a in ass if not any(u.op in ("exists", "sum") for u in tm.subterms(a))]
        allc = ass + [tm.not_(goal)]
        quant = _has_quant(allc)
        best = "unknown"
        for ack in ((True, False) if not quant else (False,)):
            enc = Enc(self.facts, ack=ack)
            try:
                fs = [enc.e(a) for a in allc]
                fs += enc.finish()
            except Unsupported as e:
                self.reason = f"unsupported: {e}"
                return "unknown"
            if ack:
                hasint = any(s.sort == I for a in allc for s in tm.subterms(a))
                s = z3.SolverFor("QF_NRA") if not hasint else z3.Solver()
            else:
                if ack is False and not enc.sels and not any(enc.apps.values()) and not quant:
                    break  # identical to the first query
                s = z3.Solver()
            s.set("timeout", int(timeout))
            s.add(*fs)
            t0 = time.time()
            r = str(s.check())
            STATS["z3_calls"] += 1
            STATS["z3_time"] += time.time() - t0
            if r == "unsat":
                return "unsat"
            if r == "sat":
                best = "sat"
                self.model = (s.model(), enc)
                if quick:
                    if ack and enc.sels:
                        continue
                    return "sat"
            else:
                self.reason = f"z3: {s.reason_unknown()}"
                best = "unknown" if ack else best
        return best

    def cvc5(self, goal, timeout):
        try:
            import cvc5  # noqa
        except ImportError:
            return "unknown"
        enc = Enc(self.facts, ack=False)
        try:
            ass = self.relevant(goal)
            fs = [enc.e(a) for a in ass + [tm.not_(goal)]] + enc.finish()
        except Unsupported:
            return "unknown"
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        t0 = time.time()
        try:
            slv = cvc5.Solver()
            slv.setOption("tlimit-per", str(int(timeout)))
            parser = cvc5.InputParser(slv)
            parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
            sm = parser.getSymbolManager()
            res = "unknown"
            while True:
                cmd = parser.nextCommand()
                if cmd.isNull():
                    break
                o = cmd.invoke(slv, sm)
                if "unsat" in o:
                    res = "unsat"
                elif o.strip() == "sat":
                    res = "sat"
        except Exception as e:
            self.reason = f"cvc5: {e}"
            res = "unknown"
        STATS["cvc5_calls"] += 1
        STATS["cvc5_time"] += time.time() - t0
        return res

    # ---------------------------------------------------------- goals
    def prove(self, g):
        """-> (bool, backend)"""
        try:
            known = {}
            for a in self.assume:
                if a.op == "eq" and a.args[0].sort == I:
                    for v, w in (a.args, a.args[::-1]):
                        if v.op == "var" and w.op == "num":
                            known[v] = w
            if known:
                # dimensions known to be a number
                g = tm.subst(g, known)
                extra = [b for b in (tm.subst(a, known) for a in self.assume) if b is not tm.TRUE and b not in self.aset]
                if extra:
                    return self.extend(extra).prove1(g)
            return self.prove1(g)
        except Blowup:
            return self.prove1(g)

    def prove1(self, g):
        try:
            r = self._prove(g, 0)
            if not r[0] and (self.infeasible() or self.smt(tm.FALSE, 2000, assume=self.assume) == "unsat"):
                return (True, "z3")
            return r
        except Blowup:
            self.reason = "normal form too large"
            r = self.final(g)
            return r
        except RecursionError:
            self.reason = "recursion limit"
            return (False, "unknown")

    def _prove(self, g, d):
        if g is tm.TRUE:
            return (True, "norm")
        if g in self.aset:
            return (True, "norm")
        if g.op == "and":
            bk = "norm"
            for x in g.args:
                ok, b = self._prove(x, d)
                if not ok:
                    return (False, b)
                bk = b if b != "norm" else bk
            return (True, bk)
        if g.op == "or":
            # implication form: assume negations of all but one
            if any(x in self.aset for x in g.args):
                return (True, "norm")
            parts = sorted(g.args, key=lambda x: (prio(x)))
            last = parts[-1]
            ext = self.extend([tm.not_(x) for x in parts[:-1]])
            r = ext._prove(last, d + 1)
            if not r[0] and ext.infeasible():
                return (True, "z3")
            self.reason = ext.reason
            if not r[0] and hasattr(ext, "model"):
                self.model = ext.model
            return r
        if g.op == "iff":
            a, b = g.args
            r = self._prove(tm.implies(a, b), d)
            if not r[0]:
                return r
            return self._prove(tm.implies(b, a), d)
        if g.op == "ite":
            c, a, b = g.args
            return self._prove(tm.and_(tm.implies(c, a), tm.implies(tm.not_(c), b)), d)
        if g.op == "not" and g.args[0].op == "exists":
            lo, hi, b, body = g.args[0].args
            nb = tm.fresh("k", I)
            ext = self.extend([tm.le(lo, nb), tm.lt(nb, hi)])
            r = ext._prove(tm.not_(tm.subst(body, {b: nb})), d)
            self.reason = ext.reason
            return r
        if g.op == "not" and g.args[0].op in ("and", "or", "iff", "not"):
            u = g.args[0]
            if u.op == "and":
                return self._prove(tm.or_(*[tm.not_(x) for x in u.args]), d)
            if u.op == "or":
                return self._prove(tm.and_(*[tm.not_(x) for x in u.args]), d)
        if g.op == "eq" and (g.args[0].sort == R or g.args[1].sort == R):
            a, b = g.args
            p = self.norm.padd(self.norm.nf(a), self.norm.pscale(self.norm.nf(b), -1))
            r = self.is_zero(p, 0)
            if r:
                return (True, r)
            return self.final(g)
        if g.op == "le" and (g.args[0].sort == R or g.args[1].sort == R):
            a, b = g.args
            if any(u.op == "exists" for x in self.assume for u in tm.subterms(x)) and self.smt(g, 2000) == "unsat":
                return (True, "z3")
            p = self.norm.padd(self.norm.nf(b), self.norm.pscale(self.norm.nf(a), -1))
            if not p:
                return (True, "norm")
            r = self.is_nonneg(p, 0)
            if r:
                return (True, r)
            return self.final(g)
        return self.final(g)

    def final(self, g):
        r = self.smt(g, self.timeout)
        if r == "unsat":
            return (True, "z3")
        try:
            gn = self.norm.bnf(g)
            an = []
            for a in self.relevant(g):
                try:
                    an.append(self.norm_assume(a))
                except Blowup:
                    an.append(a)
            if gn is tm.TRUE:
                return (True, "norm")
            r2 = self.smt(gn, self.timeout, assume=an)
            if r2 == "unsat":
                return (True, "z3")
        except Blowup:
            r2 = "unknown"
        inst = self.instances(g)
        if inst:
            ext = self.extend(inst)
            ext.instanced = True
            r4 = ext._prove(g, 0)
            if r4[0]:
                return r4
        r3 = self.cvc5(g, self.timeout)
        if r3 == "unsat":
            return (True, "cvc5")
        return (False, "sat" if "sat" in (r, r2, r3) else "unknown")

    def instances(self, g):
        """universal assumptions about sums, at the index variables of the goal (to the solvers a sum under a quantifier is opaque)"""
        if getattr(self, "instanced", False):
            return []
        ix = []
        for u in tm.subterms(g):
            if u.op == "sel":
                for i in u.args[1:]:
                    if i.op == "var" and i in tm.subterms(g) and i not in ix:
                        ix.append(i)
        bound = {u.args[2] for u in tm.subterms(g) if u.op in ("sum", "exists")}
        ix = [i for i in ix if i not in bound][:4]
        out = []
        for a in self.assume:
            if a.op == "not" and a.args[0].op == "exists":
                lo, hi, b, body = a.args[0].args
                if any(u.op == "sum" and b in tm.free(u) for u in tm.subterms(body)):
                    out += [tm.implies(tm.and_(tm.le(lo, i), tm.lt(i, hi)), tm.not_(tm.subst(body, {b: i}))) for i in ix]
        return out[:24]

    def norm_assume(self, a):
        """normal form of an assumption, without using that assumption (no self-rewriting to true)."""
        others = [x for x in self.assume if x is not a]
        p = Prover(others, self.facts, self.timeout, self.depth + 1)
        return Norm(p).bnf(a)

    # polynomial p (over atoms) == 0 ?
    def is_zero(self, p, d):
        nm = self.norm
        if not p:
            return "norm"
        if d > 12:
            return None
        # clear inverses
        for m in p:
            for a, e in m:
                if e < 0:
                    if self.nonzero(a):
                        mx = max((-ee for mm in p for aa, ee in mm if aa is a and ee < 0), default=0)
                        q = {}
                        base = nm.nf(plain(a)) if a.op == "poly" else nm.atom(a)
                        for mm, c in p.items():
                            ex = 0
                            rest = []
                            for aa, ee in mm:
                                if aa is a:
                                    ex = ee
                                else:
                                    rest.append((aa, ee))
                            q = nm.padd(q, nm.pmul({tuple(rest): c}, nm.ppow(base, mx + ex)))
                        return self.is_zero(q, d + 1)
        inds = nm.inds(p)
        if inds:
            a = self.pick(inds)
            c = a.args[0]
            e1 = self.extend([c])
            p1 = e1.renorm(nm.setind(p, a, 1), c)
            r = e1.infeasible() or e1.is_zero(p1, d + 1)
            if not r:
                self.reason = e1.reason
                return None
            e0 = self.extend([tm.not_(c)])
            p0 = e0.renorm(nm.setind(p, a, 0))
            r0 = e0.infeasible() or e0.is_zero(p0, d + 1)
            if not r0:
                self.reason = e0.reason
                return None
            return r if r != "norm" else r0
        # merge sums
        g = self.merge_sum(p)
        if g is not None:
            (b, hi), body, rest = g
            if not rest:
                e1 = self.extend([tm.le(ZI, b), tm.lt(b, hi)])
                r = e1.infeasible() or e1.is_zero(e1.norm.nf(body), d + 1)
                if r:
                    return r
        t = tm.eq(nm.toT(p), tm.ZERO)
        r = self.smt(t, self.timeout)
        if r == "unsat":
            return "z3"
        return None

    def renorm(self, p, c=None):
        """normal form again under more assumptions; c: an equation just assumed (a variable in it is eliminated)"""
        t = tm.add(*[tm.mul(tm.num(k, R), *[tm.ipow(plain(a), e) for a, e in m]) for m, k in p.items()]) if p else tm.ZERO
        if c is not None and c.op == "eq" and c.args[0].sort == I:
            for v, w in (c.args, c.args[::-1]):
                if v.op == "var" and v not in tm.free(w):
                    t = tm.toreal(tm.subst(t, {v: w}))
                    break
        return self.norm.nf(t)

    def pick(self, inds):
        return min(inds, key=lambda a: (len(list(tm.subterms(a))), a.id))

    def infeasible(self):
        for a in self.assume:
            if tm.not_(a) in self.aset:
                return "norm"
        k = "infeasible"
        if k not in self.cache:
            self.cache[k] = self.ask(tm.FALSE, 1000)
        return "z3" if self.cache[k] else None

    def merge_sum(self, p):
        """p = sum over a common range of a body (all monomials containing exactly one sum atom) + rest."""
        rng = None
        terms = []
        rest = {}
        for m, c in p.items():
            ms = [(a, e) for a, e in m if a.op == "msum"]
            if len(ms) >= 1:
                pick = None
                for a, e in ms:
                    if e == 1 and (rng is None or a.args[0][0][1] is rng):
                        pick = a
                        break
                if pick is not None:
                    if rng is None:
                        rng = pick.args[0][0][1]
                    terms.append((m, c, pick))
                    continue
            rest[m] = c
        if not terms:
            return None
        h = tm.fresh("k", I)
        body = []
        for m, c, a in terms:
            fs = [tm.ipow(plain(x), e) for x, e in m if x is not a]
            b0, hi0 = a.args[0][0]
            inner = tm.mul(tm.ONE, *[tm.ipow(plain(x), e) for x, e in a.args[1]])
            for b, hh in reversed(a.args[0][1:]):
                inner = tm.sum_(ZI, hh, b, inner)
            inner = tm.subst(inner, {b0: h})
            body.append(tm.mul(tm.num(c, R), *fs, inner))
        return (h, rng), tm.add(*body), rest

    def is_nonneg(self, p, d):
        nm = self.norm
        if not p:
            return "norm"
        if d > 8:
            return None
        if set(p) == {()}:
            return "norm" if p[()] >= 0 else None
        inds = nm.inds(p)
        if inds:
            a = self.pick(inds)
            c = a.args[0]
            e1 = self.extend([c])
            r = e1.infeasible() or e1.is_nonneg(e1.renorm(nm.setind(p, a, 1), c), d + 1)
            if not r:
                self.reason = e1.reason
                return None
            e0 = self.extend([tm.not_(c)])
            r0 = e0.infeasible() or e0.is_nonneg(e0.renorm(nm.setind(p, a, 0)), d + 1)
            if not r0:
                self.reason = e0.reason
                return None
            return r
        # clear positive denominators (multiply by a positive even/pos power)
        for m in p:
            for a, e in m:
                if e < 0 and self.pos(a):
                    mx = max(-ee for mm in p for aa, ee in mm if aa is a and ee < 0)
                    q = {}
                    base = nm.nf(plain(a)) if a.op == "poly" else nm.atom(a)
                    for mm, c in p.items():
                        ex = 0
                        rest = []
                        for aa, ee in mm:
                            if aa is a:
                                ex = ee
                            else:
                                rest.append((aa, ee))
                        q = nm.padd(q, nm.pmul({tuple(rest): c}, nm.ppow(base, mx + ex)))
                    return self.is_nonneg(q, d + 1)
        # common positive factor
        com = tuple((a, e) for a, e in nm.content(p) if self.pos(a))
        if com:
            return self.is_nonneg(nm.pdivmono(p, com), d + 1)
        g = self.merge_sum(p)
        if g is not None:
            (b, hi), body, rest = g
            e1 = self.extend([tm.le(ZI, b), tm.lt(b, hi)])
            r = e1.infeasible() or e1.is_nonneg(e1.norm.nf(body), d + 1)
            if r and (not rest or self.is_nonneg(rest, d + 1)):
                return r
        t = tm.le(tm.ZERO, nm.toT(p))
        an = []
        for a in self.relevant(t):
            try:
                an.append(self.norm_assume(a))
            except Blowup:
                an.append(a)
        r = self.smt(t, self.timeout, assume=an)
        if r == "unsat":
            return "z3"
        return None


def prio(x):
    # the disjunct to prove last: equalities / inequalities / forall over plain guards
    if x.op == "not" and x.args[0].op == "exists":
        return 3
    if x.op == "and":
        return 3
    if x.op == "eq":
        return 2
    if x.op == "iff":
        return 2
    if x.op == "le" or (x.op == "not" and x.args[0].op == "le"):
        return 1
    return 0


_FS = {}


def syms(t):
    out = set()
    for u in tm.subterms(t):
        if u.op == "var":
            out.add(u.args[0])
        elif u.op == "sel":
            out.add(u.args[0])
        elif u.op == "msum":
            out |= syms(u.args[2])
    return out
