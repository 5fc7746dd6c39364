"""Mechanical Cython -> Python translation (run on every check, from the current .pyx).

Uses Cython's own parser.  Dropped: C storage types (kept as coercions at typed
assignments), nogil/gil blocks (body kept), the thread schedule of prange (kept
as a loop whose iterations must be independent), compiler directives.
Every loop body becomes a closure so that the verifier can cut the loop."""
from Cython.Compiler.Main import Context, CompilationOptions
from Cython.Compiler.Scanning import FileSourceDescriptor
from Cython.Compiler import Errors


def contains_return(n):
    if type(n).__name__ == "ReturnStatNode":
        return True
    for a in getattr(n, "child_attrs", None) or []:
        c = getattr(n, a, None)
        for y in (c if isinstance(c, list) else [c]):
            if y is not None and hasattr(y, "child_attrs") and contains_return(y):
                return True
    return False


class CyUnsupported(Exception):
    pass


FLOATS = {"float", "double", "floating", "DOUBLE"}
INTS = {"int", "long", "short", "char", "UINT32_t", "size_t", "Py_ssize_t", "unsigned", "ssize_t", "int32_t", "int64_t"}


def parse(path, name):
    opts = CompilationOptions(language_level=3)
    ctx = Context.from_options(opts)
    Errors.init_thread()
    Errors.open_listing_file(None, echo_to_stderr=False) if hasattr(Errors, "open_listing_file") else None
    sd = FileSourceDescriptor(path)
    scope = ctx.find_module(name, pos=(sd, 1, 0), need_pxd=0)
    return ctx.parse(sd, scope, pxd=False, full_module_name=name)


class Fn:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.locals = []
        self.args = []
        self.refs = set()
        self.nloop = 0


class Translator:
    def __init__(self, path, modname):
        self.tree = parse(path, modname)
        self.out = []
        self.ind = 0
        self.fn = None
        self.loopdepth = 0
        self.typedefs = {}
        self.functions = []

    def w(self, s):
        self.out.append("    " * self.ind + s)

    def translate(self):
        self.stmt(self.tree.body)
        return "\n".join(self.out) + "\n"

    # ------------------------------------------------------------ types
    def kind(self, bt, decl=None):
        n = type(bt).__name__
        if decl is not None and type(decl).__name__ == "CPtrDeclaratorNode":
            return "ptr"
        if n == "CSimpleBaseTypeNode":
            nm = bt.name
            if nm is None:
                return "o"
            nm = self.typedefs.get(nm, nm)
            if nm in FLOATS:
                return "f"
            if nm == "bint":
                return "b"
            if nm in INTS or nm in ("int",):
                if nm == "UINT32_t" or getattr(bt, "signed", 1) == 0:
                    return "u"
                return "i"
            if nm == "numeric":
                return "n"
            return "o"
        if n == "MemoryViewSliceTypeNode":
            k = self.kind(bt.base_type_node)
            return "v" + k
        if n in ("CTupleBaseTypeNode", "CComplexBaseTypeNode"):
            return "o"
        if n == "CConstOrVolatileTypeNode":
            return self.kind(bt.base_type)
        return "o"

    @staticmethod
    def declname(d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name

    def coerce(self, k, e):
        if k == "f":
            return f"__cf__({e})"
        if k in ("i",):
            return f"__ci__({e})"
        if k == "u":
            return f"__cu__({e})"
        if k and k.startswith("v"):
            return f"__cv__({e}, {k[1:]!r})"
        return e

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise CyUnsupported(f"statement {type(n).__name__} at {n.pos[1:]}")
        m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.stmt(s)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        self.stmt(n)
        if len(self.out) == k:
            self.w("pass")
        self.ind -= 1

    def s_CImportStatNode(self, n):
        pass

    def s_FromCImportStatNode(self, n):
        mod = str(n.module_name)
        for it in n.imported_names:
            pos, name, as_name = it[0], it[1], it[2]
            tgt = as_name or name
            if mod == "libc.math":
                self.w(f"{tgt} = __libc__({str(name)!r})")
            elif mod.startswith("cython"):
                if name == "prange":
                    self.w(f"{tgt} = __prange__")
            else:
                self.w(f"# cimport {mod}.{name}")

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value if hasattr(n.module, "module_name") else str(n.module)
        for name, target in n.items:
            t = target.name if hasattr(target, "name") else str(target)
            self.w(f"from {mod} import {name} as {t}")

    def s_SingleAssignmentNode(self, n):
        l, r = n.lhs, n.rhs
        if type(r).__name__ == "ImportNode":
            self.w(f"import {r.module_name.value} as {l.name}")
            return
        if type(l).__name__ == "NameNode":
            k = self.fn.types.get(l.name) if self.fn else None
            self.w(f"{l.name} = {self.coerce(k, self.ex(r))}")
        elif type(l).__name__ == "TupleNode":
            tmp = "__t"
            self.w(f"{tmp} = {self.ex(r)}")
            for j, a in enumerate(l.args):
                k = self.fn.types.get(a.name) if (self.fn and type(a).__name__ == "NameNode") else None
                self.w(f"{self.ex(a)} = {self.coerce(k, f'{tmp}[{j}]')}")
        else:
            self.w(f"{self.ex(l)} = {self.ex(r)}")

    def s_CascadedAssignmentNode(self, n):
        self.w(f"__t = {self.ex(n.rhs)}")
        for l in n.lhs_list:
            k = self.fn.types.get(l.name) if (self.fn and type(l).__name__ == "NameNode") else None
            self.w(f"{self.ex(l)} = {self.coerce(k, '__t')}")

    def s_InPlaceAssignmentNode(self, n):
        l = self.ex(n.lhs)
        r = self.ex(n.rhs)
        op = n.operator
        e = f"__div__({l}, {r})" if op == "/" else f"({l} {op} ({r}))"
        k = self.fn.types.get(n.lhs.name) if (self.fn and type(n.lhs).__name__ == "NameNode") else None
        self.w(f"{l} = {self.coerce(k, e)}")

    def s_CTypeDefNode(self, n):
        nm = self.declname(n.declarator)
        bt = n.base_type
        b = getattr(bt, "name", None)
        if b is not None:
            b = str(b)
            base = b.replace("_t", "")
            if base.startswith("uint"):
                self.typedefs[nm] = "UINT32_t"
            elif base.startswith("float"):
                self.typedefs[nm] = "double"
            elif base.startswith("int"):
                self.typedefs[nm] = "int"
            else:
                self.typedefs[nm] = b

    def s_FusedTypeNode(self, n):
        names = [str(getattr(t, "name", "")) for t in n.types]
        if all(type(t).__name__ == "MemoryViewSliceTypeNode" for t in n.types):
            self.typedefs[n.name] = "__view__"
        elif set(names) <= FLOATS:
            self.typedefs[n.name] = "double"
        elif set(names) <= INTS:
            self.typedefs[n.name] = "int"
        else:
            self.typedefs[n.name] = "numeric"

    def s_CEnumDefNode(self, n):
        for it in n.items:
            self.w(f"{it.name} = {self.ex(it.value)}")

    def s_ExprStatNode(self, n):
        self.w(self.ex(n.expr))

    def s_PassStatNode(self, n):
        self.w("pass")

    def s_CVarDefNode(self, n):
        k0 = n.base_type
        for d in n.declarators:
            nm = self.declname(d)
            k = self.kind(k0, d)
            if self.fn is not None:
                self.fn.types[nm] = k
            df = default_of(d)
            if df is not None:
                ptr = type(d).__name__ == "CPtrDeclaratorNode"
                self.w(f"{nm} = {self.ex(df) if ptr else self.coerce(k, self.ex(df))}")

    def s_GILStatNode(self, n):
        self.stmt(n.body)

    def s_GILExitNode(self, n):
        pass

    def s_IfStatNode(self, n):
        first = True
        m = self.mergeable(n)
        if m is not None:
            c, x, e = m
            self.w(f"if __merge__({self.fn.name!r}):")
            self.w(f"    {x} = __ifx__({c}, lambda: {e}, lambda: {x})")
            self.w(f"elif {c}:")
            self.w(f"    {x} = {e}")
            return
        for c in n.if_clauses:
            self.w(f"{'if' if first else 'elif'} {self.ex(c.condition)}:")
            self.block(c.body)
            first = False
        if n.else_clause is not None:
            self.w("else:")
            self.block(n.else_clause)

    def mergeable(self, n):
        """`if c: x = e` on a local scalar: (c, x, e)"""
        if self.fn is None or len(n.if_clauses) != 1 or n.else_clause is not None:
            return None
        b = n.if_clauses[0].body
        if type(b).__name__ == "StatListNode" and len(b.stats) == 1:
            b = b.stats[0]
        if type(b).__name__ != "SingleAssignmentNode" or type(b.lhs).__name__ != "NameNode":
            return None
        k = self.fn.types.get(b.lhs.name)
        if k not in ("f", "i"):
            return None
        return self.ex(n.if_clauses[0].condition), b.lhs.name, self.coerce(k, self.ex(b.rhs))

    def s_ReturnStatNode(self, n):
        v = "None" if n.value is None else self.ex(n.value)
        if self.fn.ret and self.fn.ret in ("f", "i", "u"):
            v = self.coerce(self.fn.ret, v)
        if self.loopdepth:
            self.w(f"return ('r', {v})")
        else:
            self.w(f"return {v}")

    def s_BreakStatNode(self, n):
        self.w("return ('b',)")

    def s_ContinueStatNode(self, n):
        self.w("return None")

    def s_RaiseStatNode(self, n):
        self.w(f"raise {self.ex(n.exc_type)}")

    def s_AssertStatNode(self, n):
        pass

    def assigned(self, n):
        names = set()

        def go(x):
            t = type(x).__name__
            if t in ("SingleAssignmentNode", "InPlaceAssignmentNode"):
                lhs(x.lhs)
            elif t == "CascadedAssignmentNode":
                for l in x.lhs_list:
                    lhs(l)
            elif t in ("ForInStatNode",):
                lhs(x.target)
            elif t == "CVarDefNode":
                for d in x.declarators:
                    if default_of(d) is not None:
                        names.add(self.declname(d))
            elif t == "AmpersandNode" and type(x.operand).__name__ == "NameNode":
                names.add(x.operand.name)
            for a in getattr(x, "child_attrs", None) or []:
                c = getattr(x, a, None)
                if isinstance(c, list):
                    for y in c:
                        if y is not None:
                            go(y)
                elif c is not None and hasattr(c, "child_attrs"):
                    go(c)

        def lhs(l):
            if type(l).__name__ == "NameNode":
                names.add(l.name)
            elif type(l).__name__ == "TupleNode":
                for a in l.args:
                    lhs(a)
        go(n)
        return sorted(names)

    def loop_tail(self, k, n):
        inner = self.loopdepth
        if contains_return(n.body):
            self.w(f"if __s{k} is not None and __s{k}[0] == 'r':")
            self.w(f"    return __s{k}" if inner else f"    return __s{k}[1]")
        if n.else_clause is not None:
            self.w(f"if __s{k} is None:")
            self.block(n.else_clause)

    def s_ForInStatNode(self, n):
        fn = self.fn
        fn.nloop += 1
        k = fn.nloop
        it = n.iterator.sequence
        names = [x for x in self.assigned(n.body)]
        tgt = n.target
        tn = [tgt.name] if type(tgt).__name__ == "NameNode" else [a.name for a in tgt.args]
        allnames = sorted(set(names) | set(tn))
        self.w(f"def __b{k}(__it):")
        self.ind += 1
        self.w(f"nonlocal {', '.join(allnames)}")
        if len(tn) == 1:
            self.w(f"{tn[0]} = {self.coerce(fn.types.get(tn[0]), '__it')}")
        else:
            self.w(f"{', '.join(tn)} = __it")
        self.loopdepth += 1
        self.stmt(n.body)
        self.loopdepth -= 1
        self.ind -= 1
        self.w(f"__s{k} = __loop__({fn.name!r}, {k}, {self.ex(it)}, __b{k}, {tuple(allnames)!r}, {tuple(tn)!r})")
        self.loop_tail(k, n)

    def s_WhileStatNode(self, n):
        fn = self.fn
        fn.nloop += 1
        k = fn.nloop
        allnames = self.assigned(n.body)
        self.w(f"def __c{k}():")
        self.w(f"    return {self.ex(n.condition)}")
        self.w(f"def __b{k}(__it):")
        self.ind += 1
        if allnames:
            self.w(f"nonlocal {', '.join(allnames)}")
        self.loopdepth += 1
        self.stmt(n.body)
        self.loopdepth -= 1
        self.ind -= 1
        self.w(f"__s{k} = __while__({fn.name!r}, {k}, __c{k}, __b{k}, {tuple(allnames)!r})")
        self.loop_tail(k, n)

    # ------------------------------------------------------------ functions
    def func(self, name, args, body, ret):
        fn = Fn(name)
        fn.ret = ret
        old, self.fn = self.fn, fn
        oldl, self.loopdepth = self.loopdepth, 0
        sig = []
        for a in args:
            if type(a).__name__ == "CArgDeclNode":
                nm = self.declname(a.declarator) or str(a.base_type.name)
                k = self.kind(a.base_type, a.declarator)
                if a.base_type.__class__.__name__ == "CSimpleBaseTypeNode" and self.typedefs.get(a.base_type.name) == "__view__":
                    k = "vf"
                if not self.declname(a.declarator):
                    k = "o"
                d = getattr(a, "default", None)
                sig.append(f"{nm}={self.ex(d)}" if d is not None else nm)
                fn.args.append(nm)
                fn.types[nm] = k
            else:
                raise CyUnsupported("argument")
        self.functions.append((name, [(a, fn.types[a]) for a in fn.args]))
        self.w(f"def {name}({', '.join(sig)}):")
        self.ind += 1
        self.collect_types(body)
        for a in fn.args:
            k = fn.types[a]
            if k in ("f", "i", "u") or k.startswith("v"):
                self.w(f"{a} = {self.coerce(k, a)}")
        names = [x for x in self.assigned(body) if x not in fn.args]
        for x in names:
            self.w(f"{x} = __UNINIT__({x!r})")
        for x in self.ampersands(body):
            self.w(f"def __set_{x}(__v):")
            self.w(f"    nonlocal {x}")
            self.w(f"    {x} = {self.coerce(fn.types.get(x), '__v')}")
        self.stmt(body)
        self.ind -= 1
        self.w("")
        self.fn, self.loopdepth = old, oldl

    def collect_types(self, body):
        def go(x):
            if type(x).__name__ == "CVarDefNode":
                for d in x.declarators:
                    self.fn.types[self.declname(d)] = self.kind(x.base_type, d)
            for a in getattr(x, "child_attrs", None) or []:
                c = getattr(x, a, None)
                if isinstance(c, list):
                    for y in c:
                        if y is not None:
                            go(y)
                elif c is not None and hasattr(c, "child_attrs"):
                    go(c)
        go(body)

    def ampersands(self, body):
        names = []

        def go(x):
            if type(x).__name__ == "AmpersandNode" and type(x.operand).__name__ == "NameNode":
                if x.operand.name not in names:
                    names.append(x.operand.name)
            for a in getattr(x, "child_attrs", None) or []:
                c = getattr(x, a, None)
                if isinstance(c, list):
                    for y in c:
                        if y is not None:
                            go(y)
                elif c is not None and hasattr(c, "child_attrs"):
                    go(c)
        go(body)
        return names

    def s_DefNode(self, n):
        self.func(n.name, n.args, n.body, None)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        ret = self.kind(n.base_type) if n.base_type is not None else None
        self.func(self.declname(d.base), d.args, n.body, ret)

    # ------------------------------------------------------------ expressions
    def ex(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise CyUnsupported(f"expression {type(n).__name__} at {n.pos[1:]}")
        return m(n)

    def e_NameNode(self, n):
        return str(n.name)

    def e_IntNode(self, n):
        return str(n.value).rstrip("uUlL")

    def e_FloatNode(self, n):
        return str(n.value)

    def e_BoolNode(self, n):
        return str(bool(n.value))

    def e_NoneNode(self, n):
        return "None"

    def e_UnicodeNode(self, n):
        return repr(str(n.value))

    e_StringNode = e_BytesNode = e_UnicodeNode

    def e_IdentifierStringNode(self, n):
        return repr(str(n.value))

    def b(self, n, op):
        return f"({self.ex(n.operand1)} {op} {self.ex(n.operand2)})"

    def e_AddNode(self, n):
        return self.b(n, "+")

    def e_SubNode(self, n):
        return self.b(n, "-")

    def e_MulNode(self, n):
        return self.b(n, "*")

    def e_DivNode(self, n):
        if n.operator == "//":
            return f"__fdiv__({self.ex(n.operand1)}, {self.ex(n.operand2)})"
        return f"__div__({self.ex(n.operand1)}, {self.ex(n.operand2)})"

    def e_ModNode(self, n):
        return self.b(n, "%")

    def e_PowNode(self, n):
        return f"__pow__({self.ex(n.operand1)}, {self.ex(n.operand2)})"

    def e_IntBinopNode(self, n):
        return self.b(n, n.operator)

    def e_UnaryMinusNode(self, n):
        return f"(-{self.ex(n.operand)})"

    def e_UnaryPlusNode(self, n):
        return self.ex(n.operand)

    def e_NotNode(self, n):
        return f"(not {self.ex(n.operand)})"

    def e_BoolBinopNode(self, n):
        return f"({self.ex(n.operand1)} {n.operator} {self.ex(n.operand2)})"

    def e_PrimaryCmpNode(self, n):
        op = {"is_not": "is not", "not_in": "not in"}.get(n.operator, n.operator)
        s = f"({self.ex(n.operand1)} {op} {self.ex(n.operand2)}"
        c = n.cascade
        while c is not None:
            s += f" {c.operator} {self.ex(c.operand2)}"
            c = c.cascade
        return s + ")"

    def e_CondExprNode(self, n):
        return f"({self.ex(n.true_val)} if {self.ex(n.test)} else {self.ex(n.false_val)})"

    def e_AttributeNode(self, n):
        return f"{self.ex(n.obj)}.{n.attribute}"

    def e_IndexNode(self, n):
        return f"{self.ex(n.base)}[{self.ex(n.index)}]"

    def e_SliceIndexNode(self, n):
        a = self.ex(n.start) if n.start is not None and type(n.start).__name__ != "NoneNode" else ""
        b = self.ex(n.stop) if n.stop is not None and type(n.stop).__name__ != "NoneNode" else ""
        return f"{self.ex(n.base)}[{a}:{b}]"

    def e_SliceNode(self, n):
        f = lambda x: "" if x is None or type(x).__name__ == "NoneNode" else self.ex(x)
        return f"slice({f(n.start) or 'None'}, {f(n.stop) or 'None'}, {f(n.step) or 'None'})"

    def e_TupleNode(self, n):
        return "(" + ", ".join(self.ex(a) for a in n.args) + ("," if len(n.args) == 1 else "") + ")"

    def e_ListNode(self, n):
        return "[" + ", ".join(self.ex(a) for a in n.args) + "]"

    def e_SimpleCallNode(self, n):
        return f"{self.ex(n.function)}({', '.join(self.ex(a) for a in n.args)})"

    def e_GeneralCallNode(self, n):
        pos = [self.ex(a) for a in n.positional_args.args]
        kw = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kw.append(f"{it.key.value}={self.ex(it.value)}")
        return f"{self.ex(n.function)}({', '.join(pos + kw)})"

    def e_TypecastNode(self, n):
        k = self.kind(n.base_type, n.declarator)
        return self.coerce(k, self.ex(n.operand)) if k != "o" else self.ex(n.operand)

    def e_AmpersandNode(self, n):
        o = n.operand
        if type(o).__name__ == "NameNode":
            return f"__ref__(lambda: {o.name}, __set_{o.name})"
        if type(o).__name__ == "IndexNode":
            return f"__arrptr__({self.ex(o.base)}, {self.ex(o.index)})"
        raise CyUnsupported("address-of")


def default_of(d):
    """initial value of a declarator (kept on the innermost name)"""
    while d is not None:
        v = getattr(d, "default", None)
        if v is not None:
            return v
        d = getattr(d, "base", None)
    return None


def translate(path, modname):
    t = Translator(path, modname)
    src = t.translate()
    return src, t.functions


if __name__ == "__main__":
    import sys
    for m in ("_functions", "_cd_fast"):
        print(translate(f"{sys.argv[1] if len(sys.argv) > 1 else '/repo'}/src/glum/{m}.pyx", m)[0])
