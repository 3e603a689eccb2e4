"""Cython .pyx -> Python `ast`, from Cython's own parse tree.

The output is an ordinary ast.Module that lib/pyflow.py can analyse, plus the C
level facts a Python tree cannot carry: extern prototypes, struct layouts,
C types of arguments and cdef variables.
  &x        -> __addr__(x)          <T>x -> __cast__("T", x)
  sizeof(x) -> __sizeof__(x)        cdef T v = e -> v = e  (type in .ctypes)
"""
import ast
from Cython.Compiler import Nodes, ExprNodes
from Cython.Compiler.TreeFragment import parse_from_strings

BINOP = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
         "%": ast.Mod, "**": ast.Pow, "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor,
         "<<": ast.LShift, ">>": ast.RShift, "@": ast.MatMult}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE,
       "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn}


class Unsupported(Exception):
    pass


class CyModule:
    def __init__(self):
        self.tree = None
        self.externs = {}    # fname -> [(ctype, argname)]
        self.structs = {}    # name -> [(ctype, field, [dims])]
        self.ctypes = {}     # (func or '', var) -> ctype
        self.cglobals = []   # module level cdef variables
        self.func_args = {}  # func -> [(ctype, name)]


def _type(base, decl=None):
    n = type(base).__name__
    if n == "CSimpleBaseTypeNode":
        t = base.name or "object"
        if base.is_basic_c_type:
            if base.signed == 0:
                t = "unsigned " + t
            if base.longness == -1:
                t = "short " + t if t != "int" else "short"
                if base.signed == 0:
                    t = "unsigned short"
            elif base.longness:
                t = "long " * base.longness + (t if t not in ("int",) else "")
                t = t.strip()
        elif base.module_path:
            t = ".".join(list(base.module_path) + [t])
    elif n == "TemplatedTypeNode":
        args = [_type(a) if hasattr(a, "name") or hasattr(a, "base_type_node") else getattr(a, "value", "?")
                for a in base.positional_args]
        kw = ""
        if base.keyword_args is not None:
            kw = "," + ",".join("%s=%s" % (i.key.value, getattr(i.value, "value", "?"))
                                for i in base.keyword_args.key_value_pairs)
        t = "%s[%s%s]" % (_type(base.base_type_node), ",".join(map(str, args)), kw)
    elif n == "MemoryViewSliceTypeNode":
        t = _type(base.base_type_node) + "[" + ",".join(":" for _ in base.axes) + "]"
    elif n == "CComplexBaseTypeNode":
        t, _ = _declarator(base.base_type, base.declarator)
        return t
    elif n == "CConstOrVolatileTypeNode" or n == "CQualifiedTypeNode":
        t = _type(base.base_type)
    else:
        t = getattr(base, "name", None) or n
    return t


def _declarator(base, d):
    """-> (ctype string, name)"""
    t = _type(base)
    dims = []
    while True:
        n = type(d).__name__
        if n == "CPtrDeclaratorNode":
            t += " *"
            d = d.base
        elif n == "CArrayDeclaratorNode":
            dims.append(int(d.dimension.value) if d.dimension is not None and hasattr(d.dimension, "value") else None)
            d = d.base
        elif n == "CNameDeclaratorNode":
            break
        elif n in ("CConstDeclaratorNode", "CReferenceDeclaratorNode"):
            d = d.base
        elif n == "CFuncDeclaratorNode":
            d = d.base
        else:
            raise Unsupported(n)
    dims.reverse()
    if dims:
        t += "".join("[%s]" % x for x in dims)
    return t, d.name


class Conv:
    def __init__(self, src=""):
        self.m = CyModule()
        self.fn = ""
        self.src = src.split("\n")

    def loc(self, node, src):
        pos = getattr(src, "pos", None)
        node.lineno = pos[1] if pos else 1
        node.col_offset = pos[2] if pos else 0
        node.end_lineno = node.lineno
        node.end_col_offset = node.col_offset
        return node

    # ---------------------------------------------------------------- stmts
    def body(self, n):
        r = self.stmts(n)
        return r or [ast.Pass(lineno=1, col_offset=0)]

    def stmts(self, n):
        if n is None:
            return []
        if isinstance(n, list):
            out = []
            for x in n:
                out += self.stmts(x)
            return out
        k = type(n).__name__
        f = getattr(self, "s_" + k, None)
        try:
            if f is None:
                raise Unsupported("statement %s at %s" % (k, n.pos[1:]))
            r = f(n)
        except (Unsupported, AttributeError, TypeError, KeyError) as e:
            r = self.python(n)
            if r is None:
                raise Unsupported("statement %s at %s: %s" % (k, n.pos[1:], e))
        if r is None:
            return []
        if not isinstance(r, list):
            r = [r]
        for x in r:
            if not hasattr(x, "lineno"):
                self.loc(x, n)
        return r

    def python(self, n):
        """a statement in plain Python syntax, read by Python's own parser"""
        no = n.pos[1] - 1
        if no >= len(self.src):
            return None
        first = self.src[no]
        ind = len(first) - len(first.lstrip())
        if n.pos[2] < ind or first.lstrip().startswith(("elif", "else", "except", "finally")):
            return None
        for end in range(no + 1, min(len(self.src), no + 400) + 1):
            nxt = self.src[end] if end < len(self.src) else ""
            if nxt.strip() and len(nxt) - len(nxt.lstrip()) > ind or end < len(self.src) and nxt.lstrip().startswith((")", "]", "}", "elif", "else", "except", "finally")) and len(nxt) - len(nxt.lstrip()) == ind:
                continue
            try:
                t = ast.parse("if 1:\n" + "\n".join(" " + x for x in self.src[no:end]) if ind else "\n".join(self.src[no:end]))
            except SyntaxError:
                if not nxt.strip() and end < len(self.src):
                    continue
                return None
            ast.increment_lineno(t, no - (1 if ind else 0))
            return list(t.body[0].body) if ind else list(t.body)
        return None

    def s_CClassDefNode(self, n):
        return ast.ClassDef(name=n.class_name, bases=[], keywords=[], body=self.body(n.body), decorator_list=[])

    def s_StatListNode(self, n):
        return self.stmts(n.stats)

    def s_FromCImportStatNode(self, n):
        out = []
        for t in n.imported_names:
            out.append(ast.alias(name=t[1], asname=t[2]))
        return ast.ImportFrom(module=n.module_name, names=out, level=n.relative_level or 0)

    def s_CImportStatNode(self, n):
        return ast.Import(names=[ast.alias(name=n.module_name, asname=n.as_name)])

    def s_FromImportStatNode(self, n):
        names = [ast.alias(name=a, asname=(b.name if getattr(b, "name", a) != a else None)) for a, b in n.items]
        return ast.ImportFrom(module=n.module.module_name.value or None, names=names, level=max(n.module.level or 0, 0))

    def s_CDefExternNode(self, n):
        self.extern(n.body)

    def extern(self, n):
        if n is None:
            return
        if type(n).__name__ == "StatListNode":
            for x in n.stats:
                self.extern(x)
            return
        k = type(n).__name__
        if k == "CStructOrUnionDefNode":
            self.s_CStructOrUnionDefNode(n)
        elif k == "CVarDefNode":
            for d in n.declarators:
                dd = d
                while type(dd).__name__ == "CPtrDeclaratorNode":
                    dd = dd.base
                if type(dd).__name__ == "CFuncDeclaratorNode":
                    args = [_declarator(a.base_type, a.declarator) for a in dd.args]
                    t, name = _declarator(n.base_type, dd)
                    self.m.externs[name] = args
        elif k == "CTypeDefNode":
            pass

    def s_CStructOrUnionDefNode(self, n):
        fl = []
        for a in n.attributes or []:
            for d in a.declarators:
                t, name = _declarator(a.base_type, d)
                dims = []
                if "[" in t and "[:" not in t:
                    i = t.index("[")
                    dims = [int(x) if x != "None" else None for x in t[i + 1:-1].split("][")]
                    t = t[:i]
                fl.append((t, name, dims))
        self.m.structs[n.name] = fl

    def s_CTypeDefNode(self, n):
        return None

    def s_CEnumDefNode(self, n):
        return None

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            t, name = _declarator(n.base_type, d)
            self.m.ctypes[(self.fn, name)] = t
            if not self.fn:
                self.m.cglobals.append(name)
            dd = d
            while getattr(dd, "default", None) is None and hasattr(dd, "base"):
                dd = dd.base
            if getattr(dd, "default", None) is not None:
                out.append(self.loc(ast.Assign(targets=[self.loc(ast.Name(id=name, ctx=ast.Store()), n)],
                                               value=self.e(dd.default)), n))
        return out

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        return self.func(n, d.base.name, d.args, n.body)

    def s_DefNode(self, n):
        return self.func(n, n.name, n.args, n.body, n.star_arg, n.starstar_arg)

    def func(self, n, name, args, body, star=None, sstar=None):
        a = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[], vararg=None, kwarg=None)
        old, self.fn = self.fn, name
        ct = []
        for x in args:
            t, nm = _declarator(x.base_type, x.declarator)
            if not nm:      # untyped: name is in the base type
                nm, t = x.base_type.name, "object"
            ct.append((t, nm))
            self.m.ctypes[(name, nm)] = t
            a.args.append(self.loc(ast.arg(arg=nm), x))
            dfl = x.default if x.default is not None else getattr(x.declarator, "default", None)
            if dfl is not None:
                a.defaults.append(self.e(dfl))
        if star is not None:
            a.vararg = ast.arg(arg=star.name)
        if sstar is not None:
            a.kwarg = ast.arg(arg=sstar.name)
        self.m.func_args[name] = ct
        b = self.body(body)
        self.fn = old
        return ast.FunctionDef(name=name, args=a, body=b, decorator_list=[], returns=None)

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = n.rhs.module_name.value
            return ast.Import(names=[ast.alias(name=mod, asname=n.lhs.name if n.lhs.name != mod.split(".")[0] or n.rhs.is_import_as_name else None)])
        return ast.Assign(targets=[self.e(n.lhs, ast.Store())], value=self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.e(x, ast.Store()) for x in n.lhs_list], value=self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.e(n.lhs, ast.Store()), op=BINOP[n.operator](), value=self.e(n.rhs))

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or getattr(n, "cond", None)
        return ast.Assert(test=self.e(c), msg=None)

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        return ast.Delete(targets=[self.e(x, ast.Del()) for x in n.args])

    def s_IfStatNode(self, n):
        orelse = self.stmts(n.else_clause)
        for c in reversed(n.if_clauses):
            i = self.loc(ast.If(test=self.e(c.condition), body=self.body(c.body), orelse=orelse), c)
            orelse = [i]
        return orelse

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.body(n.body), orelse=self.stmts(n.else_clause))

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence if hasattr(n.iterator, "sequence") else n.iterator
        return ast.For(target=self.e(n.target, ast.Store()), iter=self.e(it), body=self.body(n.body),
                       orelse=self.stmts(n.else_clause))

    def s_ForFromStatNode(self, n):
        one = self.loc(ast.Constant(value=1), n)
        lo, hi = self.e(n.bound1), self.e(n.bound2)
        if n.relation1 == "<":
            lo = self.loc(ast.BinOp(left=lo, op=ast.Add(), right=one), n)
        if n.relation2 == "<=":
            hi = self.loc(ast.BinOp(left=hi, op=ast.Add(), right=one), n)
        rng = self.loc(ast.Call(func=self.loc(ast.Name(id="range", ctx=ast.Load()), n), args=[lo, hi], keywords=[]), n)
        return ast.For(target=self.e(n.target, ast.Store()), iter=rng, body=self.body(n.body), orelse=[])

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            p = c.pattern
            if isinstance(p, list):
                t = self.loc(ast.Tuple(elts=[self.e(x) for x in p], ctx=ast.Load()), c) if len(p) > 1 else self.e(p[0]) if p else None
            else:
                t = self.e(p) if p is not None else None
            hs.append(self.loc(ast.ExceptHandler(type=t,
                                                 name=getattr(c.target, "name", None), body=self.body(c.body)), c))
        return ast.Try(body=self.body(n.body), handlers=hs, orelse=self.stmts(n.else_clause), finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.body(n.finally_clause))

    def s_WithStatNode(self, n):
        return ast.With(items=[ast.withitem(context_expr=self.e(n.manager),
                                            optional_vars=self.e(n.target, ast.Store()) if n.target is not None else None)],
                        body=self.body(n.body))

    def s_GILStatNode(self, n):
        return self.stmts(n.body)

    # ---------------------------------------------------------------- exprs
    def e(self, n, ctx=None):
        k = type(n).__name__
        f = getattr(self, "e_" + k, None)
        if f is None:
            raise Unsupported("expression %s at %s" % (k, n.pos[1:]))
        r = f(n, ctx or ast.Load())
        return self.loc(r, n)

    def e_NameNode(self, n, c):
        return ast.Name(id=str(n.name), ctx=c)

    def e_IntNode(self, n, c):
        return ast.Constant(value=int(str(n.value).rstrip("uUlL"), 0))

    def e_FloatNode(self, n, c):
        return ast.Constant(value=float(n.value))

    def e_BoolNode(self, n, c):
        return ast.Constant(value=bool(n.value))

    def e_NoneNode(self, n, c):
        return ast.Constant(value=None)

    def e_EllipsisNode(self, n, c):
        return ast.Constant(value=...)

    def _s(self, n, c):
        return ast.Constant(value=str(n.value))
    e_UnicodeNode = e_StringNode = e_IdentifierStringNode = _s

    def e_BytesNode(self, n, c):
        return ast.Constant(value=bytes(str(n.value), "latin1"))

    def e_NullNode(self, n, c):
        return ast.Name(id="NULL", ctx=c)

    def e_JoinedStrNode(self, n, c):
        vs = []
        for v in n.values:
            if type(v).__name__ == "FormattedValueNode":
                vs.append(self.loc(ast.FormattedValue(value=self.e(v.value), conversion=-1, format_spec=None), v))
            else:
                vs.append(self.e(v))
        return ast.JoinedStr(values=vs)

    def e_AttributeNode(self, n, c):
        return ast.Attribute(value=self.e(n.obj), attr=str(n.attribute), ctx=c)

    def e_AmpersandNode(self, n, c):
        return self.call("__addr__", n, self.e(n.operand))

    def e_TypecastNode(self, n, c):
        t, _ = _declarator(n.base_type, n.declarator)
        return self.call("__cast__", n, self.loc(ast.Constant(value=t), n), self.e(n.operand))

    def e_SizeofVarNode(self, n, c):
        return self.call("__sizeof__", n, self.e(n.operand))

    def e_SizeofTypeNode(self, n, c):
        t, _ = _declarator(n.base_type, n.declarator)
        return self.call("__sizeof__", n, self.loc(ast.Name(id=t, ctx=ast.Load()), n))

    def call(self, nm, n, *a):
        return ast.Call(func=self.loc(ast.Name(id=nm, ctx=ast.Load()), n), args=list(a), keywords=[])

    def e_SimpleCallNode(self, n, c):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, c):
        pos = n.positional_args
        args = [self.e(a) for a in pos.args] if hasattr(pos, "args") else [self.loc(ast.Starred(value=self.e(pos), ctx=c), n)]
        kws = []
        if n.keyword_args is not None:
            for i in n.keyword_args.key_value_pairs:
                kws.append(self.loc(ast.keyword(arg=str(i.key.value), value=self.e(i.value)), n))
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def e_IndexNode(self, n, c):
        return ast.Subscript(value=self.e(n.base), slice=self.e(n.index), ctx=c)

    def e_SliceIndexNode(self, n, c):
        sl = ast.Slice(lower=self.e(n.start) if n.start is not None else None,
                       upper=self.e(n.stop) if n.stop is not None else None, step=None)
        return ast.Subscript(value=self.e(n.base), slice=self.loc(sl, n), ctx=c)

    def e_SliceNode(self, n, c):
        g = lambda x: None if x is None or type(x).__name__ == "NoneNode" else self.e(x)
        return ast.Slice(lower=g(n.start), upper=g(n.stop), step=g(n.step))

    def e_TupleNode(self, n, c):
        return ast.Tuple(elts=[self.e(x, type(c)()) for x in n.args], ctx=c)

    def e_ListNode(self, n, c):
        return ast.List(elts=[self.e(x, type(c)()) for x in n.args], ctx=c)

    def e_DictNode(self, n, c):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs], values=[self.e(i.value) for i in n.key_value_pairs])

    def e_SetNode(self, n, c):
        return ast.Set(elts=[self.e(x) for x in n.args])

    def _b(self, n, c):
        return ast.BinOp(left=self.e(n.operand1), op=BINOP[n.operator](), right=self.e(n.operand2))
    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_NumBinopNode = _b
    e_IntBinopNode = e_BitwiseOrNode = e_BinopNode = e_MatMultNode = _b

    def e_UnaryMinusNode(self, n, c):
        return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))

    def e_UnaryPlusNode(self, n, c):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand))

    def e_NotNode(self, n, c):
        return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))

    def e_BoolBinopNode(self, n, c):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op=op, values=[self.e(n.operand1), self.e(n.operand2)])

    def e_PrimaryCmpNode(self, n, c):
        ops, comps = [CMP[n.operator]()], [self.e(n.operand2)]
        x = n.cascade
        while x is not None:
            ops.append(CMP[x.operator]())
            comps.append(self.e(x.operand2))
            x = x.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n, c):
        return ast.IfExp(test=self.e(getattr(n, "condition", None) or n.test), body=self.e(n.true_val), orelse=self.e(n.false_val))


def parse_pyx(path):
    import io
    import contextlib
    from Cython.Compiler import Errors
    src = open(path, encoding="utf-8").read()
    with contextlib.redirect_stderr(io.StringIO()):
        tree = parse_from_strings("m", src)
    c = Conv(src)
    body = c.body(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    ast.fix_missing_locations(m)
    c.m.tree = m
    return c.m


if __name__ == "__main__":
    import sys
    m = parse_pyx(sys.argv[1])
    print(ast.unparse(m.tree))
    print(m.externs, m.structs, m.func_args, sep="\n")
