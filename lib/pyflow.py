"""pyflow: whole-package dataflow over Python/Cython source (no execution).

Structured gated value numbering: every expression becomes a hash-consed term
(`Node`); control joins become phi(cond, a, b); loop-carried variables become
opaque mu nodes; package functions are inlined at call sites.  Side effects are
kept as an ordered event trace, each event with the control conditions (guards),
loops and try-regions it sits under.  Terms are canonical (commutative
arithmetic, comparison direction, string formatting / path joining / constants),
so that re-ordered statements, extracted helpers, renamed locals, keyword vs
positional arguments and rewritten loops produce the same terms.
"""
import ast
import builtins
import os
import string

# ------------------------------------------------------------------ terms


class Node:
    __slots__ = ("op", "args", "id", "_key", "_txt")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple(_k(a) for a in args)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args = op, args
            Node._n += 1
            r.id = Node._n
            r._key = key
            r._txt = None
            cls._tab[key] = r
        return r

    def __repr__(self):
        if self._txt is None:
            self._txt = show(self)
        return self._txt

    def __lt__(self, o):
        return self.id < o.id


def _k(a):
    if isinstance(a, Node):
        return ("#", a.id)
    if isinstance(a, tuple):
        return tuple(_k(x) for x in a)
    if isinstance(a, (bool, int, float, complex)):
        return (type(a).__name__, a)
    return a


def C(v):
    return Node("const", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(n, v=...):
    return n.op == "const" and (v is ... or (n.args[0] == v and type(n.args[0]) == type(v)))


def cval(n, default=None):
    return n.args[0] if n.op == "const" else default


def show(n, depth=0):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ", ".join(show(x, depth) for x in n) + ")"
        return repr(n)
    if depth > 14:
        return "…"
    o, a = n.op, n.args
    d = depth + 1
    if o == "const":
        return repr(a[0])
    if o in ("param", "glob", "func"):
        return str(a[0])
    if o == "attr":
        return show(a[0], d) + "." + a[1]
    if o == "sub":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "slice":
        return ":".join("" if is_const(x, None) else show(x, d) for x in a)
    if o == "call":
        return "%s(%s)" % (show(a[0], d), ", ".join([show(x, d) for x in a[1]] + ["%s=%s" % (k, show(v, d)) for k, v in a[2]]))
    if o == "poly":
        return "(" + " + ".join(("*".join(([] if c == 1 and m else [repr(c)]) + [show(x, d) for x in m])) for m, c in a[0]) + ")"
    if o == "bin":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1], d), a[0], show(a[2], d))
    if o == "phi":
        return "phi(%s ? %s : %s)" % tuple(show(x, d) for x in a)
    if o == "strcat":
        return "'" + "".join(p if isinstance(p, str) else "{%s%s}" % (show(p.args[0], d), ":" + p.args[1] if p.args[1] else "") for p in a[0]) + "'"
    if o == "tuple":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ",)"
    if o == "list":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


def walk(n, seen=None):
    """all sub-nodes"""
    stack, seen = [n], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        stack.extend(x.args)


def contains(n, pred):
    return any(pred(x) for x in walk(n))


def subst(n, fn, memo=None):
    """Rebuild n bottom-up; fn(node)->replacement or None (before recursion)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, Node):
            return x
        if x.id in memo:
            return memo[x.id]
        r = fn(x)
        if r is None:
            na = tuple(go(y) for y in x.args)
            r = rebuild(x.op, na) if any(p is not q for p, q in zip(na, x.args)) else x
        memo[x.id] = r
        return r
    return go(n)


def rebuild(op, a):
    if op == "bin":
        return mk_bin(*a)
    if op == "poly":
        r = None
        for m, c in a[0]:
            t = None if c == 1 and m else C(c)
            for f in m:
                t = f if t is None else mk_bin("*", t, f)
            r = t if r is None else mk_bin("+", r, t)
        return r if r is not None else C(0)
    if op == "cmp":
        return mk_cmp(*a)
    if op == "not":
        return mk_not(a[0])
    if op == "and":
        return mk_and(a[0])
    if op == "or":
        return mk_or(a[0])
    if op == "phi":
        return mk_phi(*a)
    if op == "sub":
        return mk_sub(*a)
    if op == "strcat":
        return mk_strcat(a[0])
    return Node(op, *a)


# canonical constructors -------------------------------------------------

def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def to_poly(n):
    if n.op == "poly":
        return dict(n.args[0])
    if n.op == "const" and isnum(n.args[0]):
        return {(): n.args[0]} if n.args[0] != 0 else {}
    return {(n,): 1}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(p.items(), key=lambda mc: (len(mc[0]), tuple(x.id for x in mc[0]))))
    return Node("poly", items)


STR_PARAMS = set()      # names of parameters annotated as str in the analysed entry
STATEFUL = {"readline", "readlines", "read", "pop", "popleft", "popitem", "now", "today", "random", "randint", "choice", "permutation", "rand", "randn"}
STR_METHODS = {"strftime", "format", "replace", "lower", "upper", "strip", "rstrip", "lstrip", "zfill", "decode", "join", "title", "removesuffix",
               "removeprefix", "isoformat", "rjust", "ljust"}


def stringish(n, depth=0):
    o = n.op
    if o == "strcat":
        return True
    if o == "const":
        return isinstance(n.args[0], str)
    if depth > 12:
        return False
    if o == "param":
        return n.args[0] in STR_PARAMS
    if o == "phi":
        return stringish(n.args[1], depth + 1) or stringish(n.args[2], depth + 1)
    if o == "sub":
        b = n.args[0]
        if b.op == "call" and b.args[0].op in ("attr", "bound") and b.args[0].args[1] in ("split", "rsplit", "splitlines", "partition", "rpartition"):
            return n.args[1].op != "slice"
        return stringish(b, depth + 1)
    if o == "call":
        f = n.args[0]
        if f.op in ("attr", "bound"):
            return f.args[1] in STR_METHODS and not (f.args[1] == "replace" and not stringish(f.args[0], depth + 1))
        return f.op == "glob" and f.args[0] in ("str", "os.path.basename", "os.path.dirname", "os.fspath")
    return False


def listish(n):
    return n.op in ("list", "tuple", "comp", "append", "concat", "listmul")


def mk_bin(op, a, b):
    ca, cb = cval(a, ...), cval(b, ...)
    if op == "+" and (stringish(a) or stringish(b)):
        return mk_strcat((Node("fmt", a, ""), Node("fmt", b, "")))
    if op == "%" and stringish(a):
        r = pct_format(a, b)
        if r is not None:
            return r
    if op == "/" and (stringish(a) or stringish(b) or a.op == "path" or
                      (a.op == "call" and a.args[0].op == "glob" and a.args[0].args[0].endswith("Path"))):
        return mk_path((a, b))
    if op == "+" and (listish(a) or listish(b)):
        if a.op == b.op and a.op in ("list", "tuple"):
            return Node(a.op, a.args[0] + b.args[0])
        return Node("concat", a, b)
    if op == "*" and (listish(a) or listish(b)):
        l, k = (a, b) if listish(a) else (b, a)
        if l.op in ("list", "tuple") and isinstance(cval(k), int) and 0 <= cval(k) <= 64:
            return Node(l.op, l.args[0] * cval(k))
        return Node("listmul", l, k)
    if ca is not ... and cb is not ... and isinstance(ca, (int, float)) and isinstance(cb, (int, float)):
        try:
            r = {"+": lambda: ca + cb, "-": lambda: ca - cb, "*": lambda: ca * cb, "/": lambda: ca / cb,
                 "//": lambda: ca // cb, "%": lambda: ca % cb, "**": lambda: ca ** cb,
                 "<<": lambda: ca << cb, ">>": lambda: ca >> cb, "&": lambda: ca & cb,
                 "|": lambda: ca | cb, "^": lambda: ca ^ cb}[op]()
            if isinstance(r, (int, float)):
                return C(r)
        except Exception:
            pass
    if op == "+":
        p = to_poly(a)
        for m, c in to_poly(b).items():
            p[m] = p.get(m, 0) + c
        return from_poly(p)
    if op == "-":
        p = to_poly(a)
        for m, c in to_poly(b).items():
            p[m] = p.get(m, 0) - c
        return from_poly(p)
    if op == "*":
        pa, pb = to_poly(a), to_poly(b)
        p = {}
        for m, c in pa.items():
            for m2, c2 in pb.items():
                mm = tuple(sorted(m + m2, key=lambda x: x.id))
                p[mm] = p.get(mm, 0) + c * c2
        return from_poly(p)
    if op == "**" and cb == 2:
        return mk_bin("*", a, a)
    if op in ("&", "|", "^") and b.id < a.id:
        a, b = b, a
    return Node("bin", op, a, b)


def mk_neg(a):
    return mk_bin("*", C(-1), a)


def mk_strcat(parts):
    out = []

    def add(p):
        if isinstance(p, str):
            if p == "":
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
            return
        v, spec = p.args
        if v.op == "const" and spec == "" and not isinstance(v.args[0], float):
            add(str(v.args[0]))
        elif v.op == "const" and spec:
            try:
                add(format(v.args[0], spec))
            except Exception:
                out.append(p)
        elif v.op == "strcat" and spec in ("", "s"):
            for q in v.args[0]:
                add(q)
        elif v.op == "call" and v.args[0] == Node("glob", "str") and len(v.args[1]) == 1 and spec in ("", "s"):
            add(Node("fmt", v.args[1][0], ""))
        else:
            if spec in ("s",):
                p = Node("fmt", v, "")
            out.append(p)
    for p in parts:
        add(p)
    if not out:
        return C("")
    if len(out) == 1:
        if isinstance(out[0], str):
            return C(out[0])
    # collapse duplicated path separators
    out = [p.replace("//", "/") if isinstance(p, str) and "://" not in p else p for p in out]
    return Node("strcat", tuple(out))


def mk_path(parts):
    seq = []
    for i, p in enumerate(parts):
        if p.op == "call" and p.args[0].op == "glob" and p.args[0].args[0] in ("pathlib.Path", "str", "os.fspath") and len(p.args[1]) == 1:
            p = p.args[1][0]
        if i:
            seq.append("/")
        seq.append(Node("fmt", p, ""))
    return mk_strcat(tuple(seq))


def pct_format(a, b):
    parts, vals = [], (list(b.args[0]) if b.op == "tuple" else [b])
    if a.op != "const":
        return None
    s, i = a.args[0], 0
    import re
    pos = 0
    for m in re.finditer(r"%(?:%|([-+ 0#]*\d*(?:\.\d+)?)([sdifrgexX]))", s):
        parts.append(s[pos:m.start()])
        pos = m.end()
        if m.group(0) == "%%":
            parts.append("%")
            continue
        if i >= len(vals):
            return None
        fl, ty = m.group(1), m.group(2)
        spec = fl + (ty if ty not in "sdi" or fl else ("d" if ty in "di" else ""))
        parts.append(Node("fmt", vals[i], spec.replace("i", "d")))
        i += 1
    parts.append(s[pos:])
    return mk_strcat(tuple(parts))


def mk_cmp(op, a, b):
    """canonical: '<' and '==' , 'is', 'in' ; everything else by negation"""
    if op == ">":
        return mk_cmp("<", b, a)
    if op == ">=":
        return mk_not(mk_cmp("<", a, b))
    if op == "<=":
        return mk_not(mk_cmp("<", b, a))
    if op == "!=":
        return mk_not(mk_cmp("==", a, b))
    if op == "is not":
        return mk_not(mk_cmp("is", a, b))
    if op == "not in":
        return mk_not(mk_cmp("in", a, b))
    if op == "in" and b.op in ("list", "tuple", "set") and 0 < len(b.args[0]) <= 12:
        return mk_or(tuple(mk_cmp("==", a, x) for x in b.args[0]))
    if op == "is" and (is_const(a, None) or is_const(b, None) or is_const(b, True) or is_const(b, False)):
        if is_const(a, None):
            a, b = b, a
        if a.op == "const":
            return C(a.args[0] is b.args[0])
        if b.args[0] is None and a.op in ("strcat", "list", "tuple", "dict", "poly", "obj", "comp"):
            return FALSE
        return Node("cmp", "is", a, b)
    ca, cb = cval(a, ...), cval(b, ...)
    if ca is not ... and cb is not ...:
        try:
            return C({"<": lambda: ca < cb, "==": lambda: ca == cb, "is": lambda: ca is cb, "in": lambda: ca in cb}[op]())
        except Exception:
            pass
    if op in ("==", "is"):
        if a is b and a.op != "mu":
            return TRUE
        if op == "==" and is_const(b, True) and boolish(a):
            return a
        if op == "==" and is_const(b, False) and boolish(a):
            return mk_not(a)
        if (b.id < a.id and b.op != "const") or a.op == "const":
            a, b = b, a
    return Node("cmp", op, a, b)


def boolish(n):
    return n.op in ("cmp", "not", "and", "or") or (n.op == "const" and isinstance(n.args[0], bool))


def mk_not(a):
    if a.op == "const":
        return C(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return Node("not", a)


def mk_and(xs):
    out = []
    for x in xs:
        for y in (x.args[0] if x.op == "and" else (x,)):
            if y.op == "const":
                if not y.args[0]:
                    return y
                continue
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Node("and", tuple(sorted(out)))


def mk_or(xs):
    out = []
    for x in xs:
        for y in (x.args[0] if x.op == "or" else (x,)):
            if y.op == "const":
                if y.args[0]:
                    return y
                continue
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # de morgan: keep as not(and(not..)) so that guards flatten the same way
    return mk_not(mk_and(tuple(mk_not(o) for o in out)))


def mk_phi(c, a, b):
    if c.op == "const":
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == "not":
        return mk_phi(c.args[0], b, a)
    if is_const(a, True) and is_const(b, False):
        return c
    return Node("phi", c, a, b)


def mk_sub(base, idx):
    if base.op in ("tuple", "list") and isinstance(cval(idx), int) and not isinstance(cval(idx), bool):
        i = idx.args[0]
        if -len(base.args[0]) <= i < len(base.args[0]):
            return base.args[0][i]
    if base.op in ("tuple", "list") and idx.op == "slice" and all(x.op == "const" for x in idx.args):
        return Node(base.op, base.args[0][slice(*[x.args[0] for x in idx.args])])
    if base.op == "dict" and idx.op == "const":
        for k, v in base.args[0]:
            if k.op == "const" and k.args[0] == idx.args[0]:
                return v
    if base.op == "update" and base.args[1] is idx:
        return base.args[2]
    if base.op == "update" and base.args[1].op == "const" and idx.op == "const":
        return mk_sub(base.args[0], idx)
    if base.op == "comp" and base.args[0] in ("list", "gen") and idx.op == "iterel" and not base.args[4]:
        # element of a comprehension, iterated: inline the element at the index asked for
        own = Node("iterel", mk_len(base.args[2]), base.args[3])
        if base.args[2].op == "tuple" or own is idx or own == idx:
            return base.args[1]
        return subst(base.args[1], lambda x: idx if x == own else None)
    if base.op == "phi":
        a, b = mk_sub(base.args[1], idx), mk_sub(base.args[2], idx)
        if a.op != "sub" or b.op != "sub" or base.args[1].op in ("tuple", "list", "dict"):
            return mk_phi(base.args[0], a, b)
    return Node("sub", base, idx)


def neg_guard(g):
    return (g[0], not g[1])


def norm_guard(c, pol):
    """-> list of (cond, bool) literals (conjunction); None if statically false"""
    if c.op == "const":
        return [] if bool(c.args[0]) == pol else None
    if c.op == "not":
        return norm_guard(c.args[0], not pol)
    if c.op == "and" and pol:
        out = []
        for x in c.args[0]:
            g = norm_guard(x, True)
            if g is None:
                return None
            out += g
        return out
    return [(c, pol)]


def guard_node(gs):
    return mk_and(tuple(c if p else mk_not(c) for c, p in gs))


# ------------------------------------------------------------------ events

class Event:
    __slots__ = ("kind", "f", "args", "kw", "node", "guards", "loops", "trys", "file", "line", "fn", "idx", "extra")

    def __repr__(self):
        return "%s:%s %s %s(%s) guards=%s" % (os.path.basename(self.file), self.line, self.kind, self.f,
                                             ", ".join(map(repr, self.args)), [("" if p else "!") + repr(c) for c, p in self.guards])

    def where(self):
        return "%s:%d" % (self.file, self.line)

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return dict(self.kw).get(name, default)


class State:
    __slots__ = ("env", "heap", "guards")

    def __init__(self, env, heap, guards):
        self.env, self.heap, self.guards = env, heap, guards

    def copy(self):
        return State(dict(self.env), dict(self.heap), list(self.guards))


class Func:
    def __init__(self, module, node, cls=None, closure=None):
        self.module, self.node, self.cls, self.closure = module, node, cls, closure
        self.name = getattr(node, "name", "<lambda>")
        self.qual = module.name + "." + (cls + "." if cls else "") + self.name

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]


class Module:
    def __init__(self, name, path, tree, pkg):
        self.name, self.path, self.tree, self.pkg = name, path, tree, pkg
        self.funcs, self.classes, self.imports, self.assigns = {}, {}, {}, {}
        self.cache = {}
        self.collect(tree.body)

    def collect(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = s
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(s, ast.ImportFrom):
                base = self.name.split(".")
                if s.level:
                    base = base[:-s.level] if not self.is_pkg() else base[:len(base) - s.level + 1]
                    mod = ".".join(base + ([s.module] if s.module else []))
                else:
                    mod = s.module
                for a in s.names:
                    self.imports[a.asname or a.name] = mod + "." + a.name
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.assigns.setdefault(n.id, []).append(s)
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.assigns.setdefault(s.target.id, []).append(s)
            elif isinstance(s, (ast.Try, ast.If, ast.With)):
                self.collect(s.body)
                for h in getattr(s, "handlers", []):
                    pass
                if not isinstance(s, ast.Try):
                    self.collect(getattr(s, "orelse", []))

    def is_pkg(self):
        return self.path.endswith("__init__.py")


ALIAS = {"numpy.short": "numpy.int16", "numpy.ubyte": "numpy.uint8", "numpy.ushort": "numpy.uint16",
         "numpy.intc": "numpy.int32", "numpy.byte": "numpy.int8", "osgeo.gdal": "gdal", "osgeo.gdalconst": "gdalconst",
         "osgeo.osr": "osr", "os.path": "os.path", "numpy.bool8": "numpy.bool_"}


class Package:
    def __init__(self, root=None, files=None, overrides=None):
        root = root or os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src", "python")
        self.root = root
        self.mods = {}
        self.cy = {}
        self.overrides = overrides or {}   # dotted -> Node
        self.objargs, self.objheap, self.objcls = {}, {}, {}
        base = os.path.join(root, "pycold")
        for d, dn, fs in os.walk(base):
            dn.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                if f.endswith(".py"):
                    name = rel[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    try:
                        tree = ast.parse(open(p, encoding="utf-8").read(), p)
                    except SyntaxError:
                        raise
                    self.mods[name] = Module(name, p, tree, self)
                elif f.endswith(".pyx"):
                    import cyast
                    m = cyast.parse_pyx(p)
                    name = rel[:-4].replace(os.sep, ".")
                    self.cy[name] = m
                    self.mods[name] = Module(name, p, m.tree, self)
        # same objects in the package used through bare names (scripts): import path fallbacks
        self.attach_yaml()

        # a dict subclass filled from a yaml file of the package: its instances are that document
        for n, m in self.mods.items():
            for c, nd in m.classes.items():
                if not any(isinstance(x, ast.Attribute) and x.attr in ("safe_load", "load", "full_load") for x in ast.walk(nd)):
                    continue
                skip = set(id(x) for x in ast.walk(nd))
                files = {x.value for x in ast.walk(m.tree) if id(x) not in skip and isinstance(x, ast.Constant) and isinstance(x.value, str)
                         and os.path.basename(x.value) in {os.path.basename(k) for k in self.yaml} and x.value.endswith((".yaml", ".yml"))}
                if len(files) != 1:
                    continue
                doc = [v for k, v in self.yaml.items() if os.path.basename(k) == os.path.basename(next(iter(files)))][0]
                for v, ass in m.assigns.items():
                    if any(isinstance(getattr(a, "value", None), ast.Call) and isinstance(a.value.func, ast.Name) and a.value.func.id == c for a in ass):
                        self.overrides.setdefault(n + "." + v, doc)

    def all_functions(self):
        """(module, 'fn' or 'Class.fn') of the package"""
        out = []
        for n, m in sorted(self.mods.items()):
            out += [(n, f) for f in m.funcs]
            for c, nd in m.classes.items():
                out += [(n, c + "." + s.name) for s in nd.body if isinstance(s, ast.FunctionDef)]
        return out

    def attach_yaml(self):
        import yaml
        self.yaml = {}
        base = os.path.join(self.root, "pycold")
        for d, _, fs in os.walk(base):
            for f in fs:
                if f.endswith((".yaml", ".yml")):
                    p = os.path.join(d, f)
                    self.yaml[os.path.relpath(p, base)] = to_node(yaml.safe_load(open(p)))

    def resolve(self, dotted):
        """dotted name -> ('func', Func) | ('class', Module, name) | ('mod', Module) | ('var', Module, name) | None"""
        seen = set()
        while dotted not in seen:
            seen.add(dotted)
            if dotted in self.mods:
                return ("mod", self.mods[dotted])
            mod, _, nm = dotted.rpartition(".")
            if mod in self.mods:
                m = self.mods[mod]
                if nm in m.funcs:
                    return ("func", Func(m, m.funcs[nm]))
                if nm in m.classes:
                    return ("class", m, nm)
                if nm in m.assigns:
                    return ("var", m, nm)
                if nm in m.imports:
                    dotted = m.imports[nm]
                    continue
            # Class.method
            m2, _, cl = mod.rpartition(".")
            if m2 in self.mods and cl in self.mods[m2].classes:
                f = method(self.mods[m2], cl, nm)
                if f:
                    return ("func", f)
            return None
        return None


def method(m, cl, nm):
    for s in m.classes[cl].body:
        if isinstance(s, ast.FunctionDef) and s.name == nm:
            return Func(m, s, cl)
    for b in m.classes[cl].bases:
        if isinstance(b, ast.Name) and b.id in m.classes:
            f = method(m, b.id, nm)
            if f:
                return f
    return None


def to_node(v):
    if isinstance(v, dict):
        return Node("dict", tuple((to_node(k), to_node(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return Node("list" if isinstance(v, list) else "tuple", tuple(to_node(x) for x in v))
    return C(v)


def to_py(n):
    if n.op == "dict":
        return {to_py(k): to_py(v) for k, v in n.args[0]}
    if n.op in ("list", "tuple"):
        return [to_py(x) for x in n.args[0]]
    return n.args[0] if n.op == "const" else n


def assigned_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, ast.Store):
                b = n
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    if isinstance(b, ast.Attribute):
                        break
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                b = n.func.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
    return out


def assigned_attrs(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Attribute):
                    out.add(b.attr)
    return out


def inplace_names(body):
    """(names, attributes) of the containers changed in place"""
    names, attrs = set(), set()

    def root(b):
        while isinstance(b, ast.Subscript):
            b = b.value
        if isinstance(b, ast.Name):
            names.add(b.id)
        elif isinstance(b, ast.Attribute):
            attrs.add(b.attr)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                root(n)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                root(n.func.value)
    return names, attrs


MUTATORS = {"append", "extend", "insert", "update", "add", "pop", "remove", "clear", "sort", "reverse"}
BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.LShift: "<<", ast.RShift: ">>", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
        ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


OPFN = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!=", "is_": "is", "is_not": "is not", "add": "+", "sub": "-",
        "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%", "and_": "&", "or_": "|", "xor": "^", "lshift": "<<", "rshift": ">>"}


class Limit(Exception):
    pass


class Raised(Exception):
    """a failing call on its way to a handler"""
    def __init__(self, name, st):
        self.name, self.st = name, st


class Interp:
    """One analysis of one entry point."""

    def __init__(self, pkg, stop=(), max_depth=10, inline=True):
        self.pkg = pkg
        self.events = []
        self.stop = set(stop)      # qualified names never inlined
        self.max_depth = max_depth
        self.inline = inline
        self.stack = []            # Func stack
        self.loops = []
        self.trys = []
        self.loopinfo = {}
        self.nloop = 0
        self.nobj = 0
        self.modvars = []
        self.ntry = 0
        self.rets = []
        self.objcls = pkg.objcls
        self.lambdas = {}
        self.unknown = []
        self.muted = 0
        self.nth = {}
        self.funcs_seen = set()
        self.eff = {}              # function -> what it changes in place
        self.want, self.got, self.outs = set(), {}, None

    # -------------------------------------------------------------- entry
    def run(self, dotted, args=None, selfinit=None):
        r = self.pkg.resolve(dotted)
        if r is None or r[0] != "func":
            raise KeyError(dotted)
        f = r[1]
        st = State({}, {}, [])
        env = {}
        a = f.node.args
        allp = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        STR_PARAMS.clear()
        STR_PARAMS.update(x.arg for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None and "id='str'" in ast.dump(x.annotation)
                          and "List" not in ast.dump(x.annotation) and "list" not in ast.dump(x.annotation))
        for p in allp:
            env[p] = (args or {}).get(p) or Node("param", p)
        if a.vararg:
            env[a.vararg.arg] = Node("param", "*" + a.vararg.arg)
        if a.kwarg:
            env[a.kwarg.arg] = Node("param", "**" + a.kwarg.arg)
        if f.cls and allp and allp[0] == "self":
            o, st = self.new_obj(f.module, f.cls, None, None, st, init_params=True)
            env["self"] = o
        ret, st = self.run_body(f, env, st)
        self.ret = ret
        self.final = st
        return self

    def emit(self, kind, fnode, args=(), kw=(), st=None, line=0, node=None, extra=None):
        e = Event()
        e.kind, e.f, e.args, e.kw, e.node = kind, fnode, tuple(args), tuple(kw), node
        e.guards = tuple(st.guards) if st is not None else ()
        e.loops, e.trys = tuple(self.loops), tuple(self.trys)
        fr = self.stack[-1] if self.stack else None
        e.file = fr.module.path if fr else ""
        e.fn = fr.qual if fr else ""
        e.line = line
        e.idx = len(self.events)
        e.extra = extra
        if not self.muted:
            self.events.append(e)
        if kind == "call" and self.fail is not None and st is not None and self.fail[0](gid(fnode) or ""):
            raise Raised(self.fail[1], st.copy())
        return e

    fail = None                    # (predicate on the called name, exception class name): that call always fails
    failing = 0                    # depth of handlers entered because of it
    pend = None                    # failures under a condition inside the try block being run

    def caught_by(self, h, name, st):
        """does a handler catch the exception class: True, False, None (class not known)"""
        if h.type is None:
            return True
        ty = self.expr(h.type, st)
        exc = getattr(builtins, name, None)
        res = False
        for t in (ty.args[0] if ty.op in ("tuple", "list") else (ty,)):
            c = getattr(builtins, (gid(t) or "").split(".")[-1], None)
            if c is None or exc is None or not isinstance(c, type):
                res = None if res is False and exc is None else res
            elif issubclass(exc, c):
                return True
        return res

    def try_failing(self, s, st):
        """a try statement when some call in it fails"""
        self.ntry += 1
        tid = self.ntry
        base = list(st.guards)
        keep = len(self.loops), len(self.trys), len(self.lc or [])
        outer, self.pend = self.pend, []
        mark = self.failing
        cx = self.lc[-1] if self.lc else {"exits": [], "conts": []}
        nc = len(cx["conts"]), len(cx["exits"])
        self.trys.append((tid, "body"))
        try:
            body = self.block(s.body, st.copy())
        except Raised as x:
            body = None
            self.pend.append(x)
        pend, self.pend = self.pend, outer
        self.loops, self.trys, self.lc = self.loops[:keep[0]], self.trys[:keep[1]], (self.lc or [])[:keep[2]]
        if body is not None and s.orelse:
            self.trys.append((tid, "else"))
            body = self.block(s.orelse, body)
            self.trys.pop()
        res, left = body, []
        for x in pend:
            h = next((h for h in s.handlers if self.caught_by(h, x.name, x.st)), None)
            if h is None:
                left.append(x)
                continue
            hs = x.st.copy()
            if h.name:
                hs.env[h.name] = Node("excval", tid)
            self.failing += 1
            self.trys.append((tid, "handler%d" % s.handlers.index(h)))
            try:
                o = self.block(h.body, hs)
            except Raised as y:
                y.st = hs if y.st is None else y.st
                left.append(y)
                o = None
            self.failing = mark
            self.trys = self.trys[:keep[1]]
            if o is not None:
                res = o if res is None else self.join(Node("exc", tid, C(x.name)), o, res, base, None, None)
        if s.finalbody:
            self.trys.append((tid, "finally"))
            if res is not None:
                res = self.block(s.finalbody, res)
            # leaving the try by continue or break runs the finally block too
            cx["conts"][nc[0]:] = [y for y in (self.block(s.finalbody, c) for c in cx["conts"][nc[0]:]) if y is not None]
            cx["exits"][nc[1]:] = [(k, y) for k, y in ((k, self.block(s.finalbody, c)) for k, c in cx["exits"][nc[1]:]) if y is not None]
            for x in left:
                x.st = self.block(s.finalbody, x.st)
                if x.st is None:
                    left = []
                    break
            if res is None and not left and not pend:
                self.block(s.finalbody, st.copy())
            self.trys.pop()
        self.emit("endtry", C(tid), st=res if res is not None else st, line=s.lineno, extra=(tid, body is not None, ()))
        if left:
            if res is not None and self.pend is not None:
                self.pend += left
            else:
                raise left[0]
        return res

    def new_obj(self, module, cls, args, kw, st, init_params=False, line=0):
        self.nobj += 1
        tag = self.nobj
        if self.modvars:
            tag = "%s#%d" % (self.modvars[-1], self.nobj)
        o = Node("obj", module.name + "." + cls, tag)
        self.objcls[o] = (module, cls)
        self.pkg.objargs[o] = (tuple(args or ()), tuple(kw or ()))
        st = st.copy()
        init = method(module, cls, "__init__")
        cnode = module.classes[cls]
        isdc = any("dataclass" in ast.dump(d) for d in cnode.decorator_list)
        if init is not None:
            ps = init.params()[1:]
            env = {"self": o}
            if init_params:
                for p in ps + [x.arg for x in init.node.args.kwonlyargs]:
                    env[p] = Node("param", p)
                self.muted += 1
            else:
                env.update(self.bind(init, [o] + list(args), kw, st))
            try:
                _, st = self.run_body(init, env, st)
            finally:
                if init_params:
                    self.muted -= 1
        elif isdc:
            flds = []
            for s in cnode.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    if s.value is not None and isinstance(s.value, ast.Call) and any(
                            k.arg == "init" and getattr(k.value, "value", True) is False for k in s.value.keywords):
                        continue
                    flds.append((s.target.id, s.value))
            vals = {}
            if init_params:
                vals = {n: Node("param", n) for n, _ in flds}
            else:
                for (n, _), v in zip(flds, args):
                    vals[n] = v
                for k, v in kw:
                    vals[k] = v
            for n, d in flds:
                if n not in vals and d is not None:
                    vals[n] = self.expr(d, State({}, {}, []))
            for n, v in vals.items():
                st.heap[(o, n)] = v
            post = method(module, cls, "__post_init__")
            if post:
                if init_params:
                    self.muted += 1
                _, st = self.run_body(post, {"self": o}, st)
                if init_params:
                    self.muted -= 1
        return o, st

    def bind(self, f, args, kw, st):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        rest = []
        for i, v in enumerate(args):
            if v.op == "star":
                if v.args[0].op in ("tuple", "list"):
                    pass
                continue
            if i < len(names):
                env[names[i]] = v
            else:
                rest.append(v)
        extra = []
        allnames = set(names) | {x.arg for x in a.kwonlyargs}
        for k, v in kw:
            if k in allnames:
                env[k] = v
            elif k is not None:
                extra.append((C(k), v))
        # defaults are evaluated in the module scope
        dst = State({}, {}, [])
        off = len(names) - len(a.defaults)
        for i, d in enumerate(a.defaults):
            if names[off + i] not in env:
                env[names[off + i]] = self.at_module(f.module, d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.at_module(f.module, d)
        for n in names:
            if n not in env:
                env[n] = Node("unbound", n)
        if a.vararg:
            env[a.vararg.arg] = Node("tuple", tuple(rest))
        if a.kwarg:
            env[a.kwarg.arg] = Node("dict", tuple(extra))
        return env

    def at_module(self, m, expr):
        self.muted += 1
        ol, ot, self.loops, self.trys = self.loops, self.trys, [], []
        self.stack.append(Func(m, ast.FunctionDef(name="<module>", args=None, body=[], decorator_list=[])))
        try:
            return self.expr(expr, State({}, {}, []))
        finally:
            self.stack.pop()
            self.muted -= 1
            self.loops, self.trys = ol, ot

    def run_body(self, f, env, st):
        self.stack.append(f)
        self.funcs_seen.add(f.qual)
        if len(self.stack) > 60:
            raise Limit()
        sub = State(dict(f.closure or {}), dict(st.heap), list(st.guards))
        sub.env.update(env)
        saved, self.rets = self.rets, []
        want, self.want = self.want, set()
        self.got = {}
        oldl = getattr(self, "lc", None)
        self.lc = []
        ng = len(st.guards)
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.expr(f.node.body, sub)
                self.rets.append((sub, v))
            else:
                out = self.block(f.node.body, sub)
                if out is not None:
                    self.rets.append((out, NONE))
        except Raised as x:
            x.st = st.copy()
            raise
        finally:
            self.stack.pop()
            rets, self.rets = self.rets, saved
            self.lc = oldl
        if not rets:
            # never returns normally
            return Node("noreturn", f.qual), State(st.env, st.heap, st.guards + [(FALSE, True)])
        s0, v0 = rets[-1]
        val, heap = v0, dict(s0.heap)
        got = {q: s0.env[q] for q in want if q in s0.env}
        for s, v in reversed(rets[:-1]):
            c = guard_node(s.guards[ng:])
            val = mk_phi(c, v, val)
            got = {q: mk_phi(c, s.env[q], x) for q, x in got.items() if q in s.env}
            heap = self.merge_dict(c, s.heap, heap)
        # guards: exceptions may have cut paths; keep disjunction if all returns share literals
        common = [g for g in rets[0][0].guards[ng:] if all(g in s.guards[ng:] for s, _ in rets)]
        if len(rets) > 1:
            extra = [guard_node([g for g in s.guards[ng:] if g not in common]) for s, _ in rets]
            d = mk_or(tuple(extra))
            d = self.simp_or(extra, d)
            g2 = norm_guard(d, True) or []
        else:
            g2 = []
        self.got = got
        ns = State(st.env, heap, list(st.guards) + common + [g for g in g2 if g not in common])
        return val, ns

    def simp_or(self, extra, d):
        """drop a disjunction that covers every case (if/else chains of returns)"""
        atoms = []
        for e in extra:
            for x in (e.args[0] if e.op == "and" else (e,)):
                x = x.args[0] if x.op == "not" else x
                if x not in atoms and x.op != "const":
                    atoms.append(x)
        if len(atoms) > 10:
            return TRUE
        def ev(n, asg):
            if n.op == "const":
                return bool(n.args[0])
            if n in asg:
                return asg[n]
            if n.op == "not":
                return not ev(n.args[0], asg)
            if n.op == "and":
                return all(ev(x, asg) for x in n.args[0])
            if n.op == "or":
                return any(ev(x, asg) for x in n.args[0])
            return False
        for bits in range(1 << len(atoms)):
            asg = {a: bool(bits >> i & 1) for i, a in enumerate(atoms)}
            if not any(ev(e, asg) for e in extra):
                return d
        return TRUE

    def merge_dict(self, c, a, b, undef=None):
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                if isinstance(k, tuple):  # heap
                    x = x if x is not None else Node("attr", k[0], k[1])
                    y = y if y is not None else Node("attr", k[0], k[1])
                else:
                    x = x if x is not None else Node("undef", k)
                    y = y if y is not None else Node("undef", k)
            out[k] = x if x is y else mk_phi(c, x, y)
        return out

    # -------------------------------------------------------------- stmts
    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown.append((type(s).__name__, s.lineno))
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        return st
    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        for a in s.names:
            st.env[a.asname or a.name.split(".")[0]] = self.gname(a.name if a.asname else a.name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].module
        tmp = Module(m.name, m.path, ast.Module(body=[s], type_ignores=[]), self.pkg)
        for k, v in tmp.imports.items():
            st.env[k] = self.gname(v)
        return st

    def s_Expr(self, s, st):
        self.expr(s.value, st)
        if st.guards and st.guards[-1] == (FALSE, True):
            return None
        return st

    def s_Assert(self, s, st):
        c = self.expr(s.test, st)
        self.emit("assert", c, st=st, line=s.lineno)
        for g in norm_guard(c, True) or []:
            if g not in st.guards:
                st.guards.append(g)
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
        return st

    def s_FunctionDef(self, s, st):
        fn = Func(self.stack[-1].module, s, None, dict(st.env))
        n = Node("func", "<local>" + s.name, id(s))
        self.lambdas[n] = fn
        st.env[s.name] = n
        return st

    def s_ClassDef(self, s, st):
        st.env[s.name] = Node("localclass", s.name)
        return st

    def s_Return(self, s, st):
        v = self.expr(s.value, st) if s.value is not None else NONE
        self.emit("return", v, st=st, line=s.lineno, extra=len(self.stack))
        self.rets.append((st.copy(), v))
        for l in self.lc_ctx():
            l["exits"].append(("return", st.copy()))
        return None

    def lc_ctx(self):
        return self.lc or []

    def s_Raise(self, s, st):
        v = self.expr(s.exc, st) if s.exc is not None else Node("reraise")
        self.emit("raise", v, st=st, line=s.lineno)
        if self.failing:
            n = gid(v.args[0]) if v.op == "call" else gid(v)
            raise Raised(n if hasattr(builtins, n or "") else self.fail[1], st.copy())
        return None

    def s_Break(self, s, st):
        if self.lc:
            self.lc[-1]["exits"].append(("break", st.copy()))
        self.emit("break", NONE, st=st, line=s.lineno)
        return None

    def s_Continue(self, s, st):
        if self.lc:
            self.lc[-1]["conts"].append(st.copy())
        return None

    def s_Assign(self, s, st):
        v = self.expr(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s.lineno)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, st), st, s.lineno)
        return st

    def s_AugAssign(self, s, st):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s.target)
        for n in ast.walk(load):
            n.lineno, n.col_offset = s.lineno, s.col_offset
        a = self.expr(load, st)
        b = self.expr(s.value, st)
        self.assign(s.target, mk_bin(BINOPS[type(s.op)], a, b), st, s.lineno)
        return st

    def assign(self, t, v, st, line):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, Node("sub", v, Node("slice", C(i), NONE, NONE)), st, line)
                else:
                    self.assign(x, self.elem(v, i, len(t.elts)), st, line)
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st)
            self.emit("setattr", b, (C(t.attr), v), st=st, line=line)
            st.heap[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st)
            i = self.expr(t.slice, st)
            self.emit("setitem", b, (i, v), st=st, line=line, extra=self.rootname(t))
            self.store_back(t.value, Node("update", b, i, v), st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, line)

    def rootname(self, t):
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return getattr(t, "id", None)

    def store_back(self, t, v, st):
        """functional update of the variable that holds a mutated container"""
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value, st, quiet=True)
            st.heap[(b, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value, st, quiet=True)
            i = self.expr(t.slice, st, quiet=True)
            self.store_back(t.value, Node("update", b, i, v), st)

    def elem(self, v, i, n=None):
        if v.op == "zipel":
            return v.args[0][i]
        return mk_sub(v, C(i))

    def s_If(self, s, st):
        c = self.expr(s.test, st)
        gt, gf = norm_guard(c, True), norm_guard(c, False)
        # a guard already established
        if gt is not None and all(g in st.guards for g in gt):
            if gt or c.op == "const":
                return self.block(s.body, st)
        if gt is not None and any(neg_guard(g) in st.guards for g in gt):
            gt = None
        if gt is None:
            return self.block(s.orelse, st)
        if gf is None:
            return self.block(s.body, st)
        base = list(st.guards)
        a, b = st.copy(), st.copy()
        a.guards += [g for g in gt if g not in a.guards]
        b.guards += [g for g in gf if g not in b.guards]
        ag0, bg0 = list(a.guards), list(b.guards)
        a = self.branch(s.body, a)
        b = self.branch(s.orelse, b)
        return self.join(c, a, b, base, ag0, bg0)

    def branch(self, body, st):
        if self.fail is None or self.pend is None:
            return self.block(body, st)
        keep = len(self.loops), len(self.trys), len(self.lc or [])
        try:
            return self.block(body, st)
        except Raised as x:
            self.loops, self.trys, self.lc = self.loops[:keep[0]], self.trys[:keep[1]], (self.lc or [])[:keep[2]]
            self.pend.append(x)
            return None

    def join(self, c, a, b, base, ag0=None, bg0=None):
        if a is None:
            return b
        if b is None:
            return a
        out = State(self.merge_dict(c, a.env, b.env), self.merge_dict(c, a.heap, b.heap), list(base))
        ea = [g for g in a.guards if g not in base]
        eb = [g for g in b.guards if g not in base]
        if ag0 is not None and len(a.guards) == len(ag0) and len(b.guards) == len(bg0):
            return out
        d = self.simp_or([guard_node(ea), guard_node(eb)], mk_or((guard_node(ea), guard_node(eb))))
        for g in norm_guard(d, True) or []:
            if g not in out.guards:
                out.guards.append(g)
        return out

    def s_With(self, s, st):
        vs = []
        for it in s.items:
            v = self.expr(it.context_expr, st)
            self.emit("with", v, st=st, line=s.lineno)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s.lineno)
            vs.append(v)
        r = self.block(s.body, st)
        for v in reversed(vs):
            self.emit("endwith", v, st=r if r is not None else st, line=s.lineno)
        return r

    def s_Try(self, s, st):
        if self.fail is not None:
            return self.try_failing(s, st)
        self.ntry += 1
        tid = self.ntry
        base = list(st.guards)
        before = st.copy()
        self.trys.append((tid, "body"))
        i0 = len(self.events)
        body = self.block(s.body, st.copy())
        self.trys.pop()
        names, _ = self.changed_by(s.body)
        outs = []
        excs = []
        for hi, h in enumerate(s.handlers):
            hs = before.copy()
            for n in names:
                # value at the raising point: before or any value given in the body
                after = body.env.get(n) if body is not None else None
                b4 = before.env.get(n, Node("undef", n))
                if after is None or after is not b4:
                    hs.env[n] = Node("partial", tid, b4, after if after is not None else Node("undef", n))
            ty = self.expr(h.type, hs) if h.type is not None else Node("glob", "BaseException")
            g = Node("exc", tid, ty)
            excs.append(g)
            hs.guards.append((g, True))
            if h.name:
                hs.env[h.name] = Node("excval", tid)
            self.trys.append((tid, "handler%d" % hi))
            outs.append((g, self.block(h.body, hs)))
            self.trys.pop()
        if body is not None and s.orelse:
            self.trys.append((tid, "else"))
            body = self.block(s.orelse, body)
            self.trys.pop()
        res = body
        for g, o in outs:
            if o is None:
                continue
            if res is None:
                res = o
            else:
                res = self.join(g, o, res, base, None, None)
        if res is not None:
            # paths through handlers that rejoin need no guard
            res.guards = [x for x in res.guards if x in base] if (body is not None and any(o is not None for _, o in outs)) else res.guards
        if s.finalbody:
            self.trys.append((tid, "finally"))
            fs = res if res is not None else before.copy()
            r2 = self.block(s.finalbody, fs)
            self.trys.pop()
            if res is not None:
                res = r2
        # extra: (try id, does the body fall through, which handlers fall through)
        self.emit("endtry", C(tid), st=res if res is not None else before, line=s.lineno, extra=(tid, body is not None, tuple(o is not None for _, o in outs)))
        return res
    s_TryStar = s_Try

    def s_For(self, s, st):
        it = self.expr(s.iter, st)
        lit = self.literal_iter(it) if self.small_unroll else None
        if lit is not None and 0 < len(lit) <= 16 and not s.orelse and not any(
                isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b)):
            for x in lit:
                self.assign(s.target, x, st, s.lineno)
                st = self.block(s.body, st)
                if st is None:
                    return None
            return st
        return self.loop(s, st, it, s.target, s.body, s.orelse)

    small_unroll = False
    fresh = False                   # every newly made array is a value of its own

    def literal_iter(self, it):
        """elements of an iterable whose length is fixed in the source"""
        if it.op in ("list", "tuple"):
            return list(it.args[0])
        if it.op == "dict":
            return [k for k, _ in it.args[0]]
        if it.op == "call" and it.args[0].op == "glob" and not it.args[2]:
            g, a = it.args[0].args[0], it.args[1]
            if g == "range" and all(isinstance(cval(x), int) for x in a) and 1 <= len(a) <= 3:
                r = range(*[cval(x) for x in a])
                return [C(i) for i in r] if len(r) <= 16 else None
            if g == "enumerate" and a:
                l = self.literal_iter(a[0])
                k = cval(a[1]) if len(a) > 1 else 0
                return [Node("tuple", (C(i + k), x)) for i, x in enumerate(l)] if l is not None and isinstance(k, int) else None
            if g == "zip":
                ls = [self.literal_iter(x) for x in a]
                return [Node("tuple", t) for t in zip(*ls)] if ls and all(l is not None for l in ls) else None
        if it.op == "call" and it.args[0].op in ("attr", "bound") and it.args[0].args[0].op == "dict" and not it.args[1]:
            d = it.args[0].args[0].args[0]
            return {"items": lambda: [Node("tuple", (k, v)) for k, v in d], "keys": lambda: [k for k, _ in d], "values": lambda: [v for _, v in d]}.get(
                it.args[0].args[1], lambda: None)()
        return None

    def elem_of(self, it):
        """the loop element term of iterating `it`"""
        depth = len(self.loops)
        if it.op == "call" and it.args[0].op == "glob" and not it.args[2]:
            g, a = it.args[0].args[0], it.args[1]
            if g == "enumerate" and len(a) in (1, 2):
                x = self.elem_of(a[0])
                i = self.index_of(a[0])
                return Node("zipel", (mk_bin("+", i, a[1]) if len(a) == 2 else i, x))
            if g == "zip":
                return Node("zipel", tuple(self.elem_of(x) for x in a))
            if g == "range":
                if len(a) == 1:
                    lo, hi = C(0), a[0]
                else:
                    lo, hi = a[0], a[1]
                if len(a) < 3:
                    # shift so that it starts at 0
                    return mk_bin("+", Node("iterel", mk_bin("-", hi, lo), depth), lo)
                n = mk_len(it)
                return mk_bin("+", mk_bin("*", a[2], Node("iterel", n, depth)), lo)
            if g in ("list", "tuple", "iter", "sorted", "tqdm.tqdm") and len(a) == 1 and g != "sorted":
                return self.elem_of(a[0])
        return mk_sub(it, Node("iterel", mk_len(it), depth))

    def index_of(self, it):
        return Node("iterel", mk_len(it), len(self.loops))

    def loop(self, s, st, it, target, body, orelse, cond=None):
        self.nloop += 1
        lid = self.nloop
        names, attrs = self.changed_by(body)
        el = self.elem_of(it) if it is not None else None
        pre = st.copy()
        ls = st.copy()
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)} if target is not None else set()
        mus = {}
        for n in names:
            if n not in tnames and n in st.env:
                mus[n] = Node("mu", lid, n)
                ls.env[n] = mus[n]
            elif n not in tnames:
                ls.env.pop(n, None)
        # heap cells possibly written in the loop
        for (o, a) in list(ls.heap):
            if a in attrs:
                mus[(o, a)] = Node("mu", lid, (o, a))
                ls.heap[(o, a)] = mus[(o, a)]
        info = {"id": lid, "iter": it, "line": s.lineno, "elem": el, "updates": {}, "pre": {}}
        self.loopinfo[lid] = info
        self.loops.append(lid)
        ctx = {"exits": [], "conts": []}
        if self.lc is None:
            self.lc = []
        self.lc.append(ctx)
        base = list(ls.guards)
        if target is not None:
            self.emit("loop", it, st=ls, line=s.lineno, extra=lid)
            self.assign(target, el, ls, s.lineno)
        else:
            c = self.expr(cond, ls)
            info["cond"] = c
            self.emit("loop", c, st=ls, line=s.lineno, extra=lid)
            g = norm_guard(c, True)
            ls.guards += [x for x in (g or []) if x not in ls.guards]
        gb = list(ls.guards)
        end = self.block(body, ls)
        self.lc.pop()
        self.loops.pop()
        # merge continue states
        ends = ([end] if end is not None else []) + ctx["conts"]
        out = pre.copy()
        final = None
        if ends:
            final = ends[0]
            for e in ends[1:]:
                cnd = guard_node([g for g in e.guards if g not in gb]) 
                final = State(self.merge_dict(cnd, e.env, final.env), self.merge_dict(cnd, e.heap, final.heap), final.guards)
        breaks = [x for k, x in ctx["exits"] if k == "break"]
        info["breaks"] = [(guard_node([g for g in b.guards if g not in gb]), b.env) for b in breaks]
        infinite = cond is not None and is_const(info.get("cond", NONE)) and bool(cval(info["cond"]))
        for n in names | tnames:
            vals = []
            if final is not None and n in final.env:
                vals.append(final.env[n])
            bv = [b.env[n] for b in breaks if n in b.env]
            p = pre.env.get(n)
            if n in mus:
                info["updates"][n] = vals[0] if vals else None
                info["pre"][n] = p
                r = self.close_loop(lid, n, mus[n], p, vals[0] if vals else None, bv, info, el, it, gb, final)
                out.env[n] = r
            else:
                allv = list(dict.fromkeys(vals + bv))
                if len(allv) == 1:
                    out.env[n] = Node("last", lid, allv[0]) if p is None else Node("phi", Node("ran", lid), Node("last", lid, allv[0]), p)
                elif allv:
                    out.env[n] = Node("loopout", lid, n)
        if final is not None:
            for k in set(final.heap) | set(x for b in breaks for x in b.heap):
                fv, p = final.heap.get(k), pre.heap.get(k)
                if fv is not p:
                    bvh = [b.heap.get(k) for b in breaks]
                    if p is not None and k in mus and all(self.settled(x, mus[k], p) for x in [fv] + bvh):
                        out.heap[k] = p
                    else:
                        info["updates"][k] = fv
                        out.heap[k] = Node("eta", lid, k[1], p if p is not None else NONE)
        if infinite and not breaks:
            return None
        if orelse:
            r = self.block(orelse, out.copy())
            if r is None:
                return out if breaks else None
            out = r
        # guards of the pre-state remain
        out.guards = base
        if cond is not None and not breaks and info["cond"].op != "const" and not any(
                x.op == "mu" and x.args[0] == lid for x in walk(info["cond"])):
            pass
        return out

    def settled(self, v, mu, pre):
        """an iteration that starts with the value pre ends with it"""
        if v is None:
            return False
        if v.op == "phi":
            return self.settled(v.args[1], mu, pre) and self.settled(v.args[2], mu, pre)
        return v is mu or v is pre

    def close_loop(self, lid, n, mu, pre, upd, bv, info, el, it, gb, final):
        if pre is not None and upd is not None and all(self.settled(x, mu, pre) for x in [upd] + list(bv)):
            return pre
        if upd is mu and not bv:
            return pre
        if upd is None and not bv:
            return pre
        # list building: init list, update append(mu, e) (possibly conditional)
        conds = []
        u = upd
        while u is not None and u.op == "phi" and (u.args[1] is mu or u.args[2] is mu):
            if u.args[2] is mu:
                conds.append(u.args[0])
                u = u.args[1]
            else:
                conds.append(mk_not(u.args[0]))
                u = u.args[2]
        if not bv and u is not None and u.op == "append" and u.args[0] is mu and pre is not None and it is not None:
            comp = Node("comp", "list", u.args[1], it, len(self.loops), tuple(conds))
            if pre.op == "list" and not pre.args[0]:
                return comp
            return Node("concat", pre, comp)
        return Node("eta", lid, n, pre if pre is not None else NONE)

    def s_While(self, s, st):
        # counting while -> for
        f = self.while_as_for(s, st)
        if f is not None:
            return f
        return self.loop(s, st, None, None, s.body, s.orelse, cond=s.test)

    def while_as_for(self, s, st):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)):
            return None
        v = t.left.id
        if not s.body or s.orelse or v not in st.env:
            return None
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == v and isinstance(last.value, ast.Constant) and last.value.value == 1):
            if not (isinstance(last, ast.Assign) and ast.unparse(last) in ("%s = %s + 1" % (v, v), "%s = 1 + %s" % (v, v))):
                return None
        for b in s.body[:-1]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Store):
                    return None
                if isinstance(n, ast.Continue):
                    return None
        lo = st.env[v]
        hi = self.expr(t.comparators[0], st)
        if isinstance(t.ops[0], ast.LtE):
            hi = mk_bin("+", hi, C(1))
        rng = Node("call", Node("glob", "range"), (lo, hi) if not is_const(lo, 0) else (hi,), ())
        r = self.loop(s, st, rng, ast.Name(id=v, ctx=ast.Store()), s.body[:-1], [])
        if r is not None:
            r.env[v] = hi
        return r

    # -------------------------------------------------------------- exprs
    def expr(self, e, st, quiet=False):
        if quiet:
            self.muted += 1
            try:
                return self.expr(e, st)
            finally:
                self.muted -= 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown.append((type(e).__name__, getattr(e, "lineno", 0)))
            return Node("opaque", ast.dump(e))
        return m(e, st)

    def e_Constant(self, e, st):
        return C(e.value)

    def gname(self, dotted):
        """canonical term for a global dotted name"""
        if dotted in self.pkg.overrides:
            return self.pkg.overrides[dotted]
        r = self.pkg.resolve(dotted)
        if r is not None:
            if r[0] == "func":
                n = Node("func", r[1].qual)
                self.lambdas.setdefault(n, r[1])
                return n
            if r[0] == "class":
                return Node("class", r[1].name + "." + r[2])
            if r[0] == "mod":
                return Node("glob", r[1].name)
            if r[0] == "var":
                return self.modvar(r[1], r[2])
        d = dotted
        for k, v in ALIAS.items():
            if d == k or d.startswith(k + "."):
                d = v + d[len(k):]
        return Node("glob", d)

    def modvar(self, m, name):
        key = m.name + "." + name
        if key in self.pkg.overrides:
            return self.pkg.overrides[key]
        if name in m.cache:
            return m.cache[name]
        m.cache[name] = Node("glob", key)  # recursion guard
        ss = m.assigns[name]
        v = None
        if len(ss) == 1 and isinstance(ss[0], (ast.Assign, ast.AnnAssign)):
            self.muted += 1
            self.modvars.append(key)
            self.stack.append(Func(m, ast.FunctionDef(name="<module>", args=None, body=[], decorator_list=[])))
            ol, ot, self.loops, self.trys = self.loops, self.trys, [], []
            try:
                st = State({}, {}, [])
                if isinstance(ss[0], ast.Assign):
                    val = self.expr(ss[0].value, st)
                    for t in ss[0].targets:
                        self.assign(t, val, st, ss[0].lineno)
                    v = st.env.get(name)
                else:
                    v = self.expr(ss[0].value, st)
            finally:
                self.stack.pop()
                self.modvars.pop()
                self.muted -= 1
                self.loops, self.trys = ol, ot
                self.pkg.objheap.update(st.heap)
        if v is None:
            v = Node("glob", key)
        m.cache[name] = v
        return v

    def e_Name(self, e, st):
        n = e.id
        if n in st.env:
            return st.env[n]
        fr = self.stack[-1]
        m = fr.module
        if n in m.funcs or n in m.classes or n in m.assigns:
            return self.gname(m.name + "." + n)
        if n in m.imports:
            return self.gname(m.imports[n])
        if self.fail is not None and not hasattr(builtins, n):
            return Node("undef", n)       # a failure left it without a value, or with that of an earlier iteration
        return Node("glob", n)

    def e_Attribute(self, e, st):
        b = self.expr(e.value, st)
        return self.attr(b, e.attr, st)

    def attr(self, b, a, st):
        if (b, a) in st.heap:
            return st.heap[(b, a)]
        if (b, a) in self.pkg.objheap:
            return self.pkg.objheap[(b, a)]
        if b.op == "glob":
            return self.gname(b.args[0] + "." + a)
        if b.op == "phi" and (b.args[1].op in ("obj", "ntuple") or b.args[2].op in ("obj", "ntuple")):
            return mk_phi(b.args[0], self.attr(b.args[1], a, st), self.attr(b.args[2], a, st))
        if b.op == "obj" and b in self.objcls:
            m, cl = self.objcls[b]
            f = method(m, cl, a)
            if f is not None:
                if any(isinstance(d, ast.Name) and d.id == "property" for d in f.node.decorator_list):
                    v, s2 = self.run_body(f, {"self": b}, st)
                    return v
                return Node("bound", b, a)
            for s in m.classes[cl].body:
                if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a for t in s.targets):
                    return self.at_module(m, s.value)
        if b.op == "class":
            return self.gname(b.args[0] + "." + a)
        return Node("attr", b, a)

    def e_Subscript(self, e, st):
        b = self.expr(e.value, st)
        i = self.expr(e.slice, st)
        return mk_sub(b, i)

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.expr(x, st)
        return Node("slice", g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, st):
        return self.seq("tuple", e, st)

    def e_List(self, e, st):
        return self.seq("list", e, st)

    def seq(self, op, e, st):
        out = []
        dyn = False
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.expr(x.value, st)
                if v.op in ("list", "tuple"):
                    out += list(v.args[0])
                else:
                    out.append(Node("star", v))
            else:
                out.append(self.expr(x, st))
        return Node(op, tuple(out))

    def e_Set(self, e, st):
        return Node("set", tuple(self.expr(x, st) for x in e.elts))

    def e_Dict(self, e, st):
        items = []
        for k, v in zip(e.keys, e.values):
            vv = self.expr(v, st)
            if k is None:
                if vv.op == "dict":
                    items += list(vv.args[0])
                else:
                    items.append((Node("star", vv), vv))
            else:
                items.append((self.expr(k, st), vv))
        return Node("dict", tuple(items))

    def e_BinOp(self, e, st):
        a, b = self.expr(e.left, st), self.expr(e.right, st)
        return mk_bin(BINOPS[type(e.op)], a, b)

    def e_UnaryOp(self, e, st):
        a = self.expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            return mk_not(a)
        if isinstance(e.op, ast.USub):
            if a.op == "const" and isnum(a.args[0]):
                return C(-a.args[0])
            return mk_neg(a)
        if isinstance(e.op, ast.UAdd):
            return a
        return Node("invert", a)

    def e_BoolOp(self, e, st):
        # evaluate later operands under the guards of the earlier ones
        vs = []
        s2 = st
        isand = isinstance(e.op, ast.And)
        depth = len(st.guards)
        added = []
        for x in e.values:
            v = self.expr(x, st)
            vs.append(v)
            g = norm_guard(v, isand)
            if g:
                g = [y for y in g if y not in st.guards]
                st.guards.extend(g)
                added.extend(g)
        for g in added:
            if g in st.guards:
                st.guards.remove(g)
        if isand:
            return mk_and(tuple(vs)) if all(map(boolish, vs)) or True else None
        return mk_or(tuple(vs))

    def e_Compare(self, e, st):
        l = self.expr(e.left, st)
        out = []
        for op, c in zip(e.ops, e.comparators):
            r = self.expr(c, st)
            out.append(mk_cmp(CMPS[type(op)], l, r))
            l = r
        return mk_and(tuple(out)) if len(out) > 1 else out[0]

    def e_IfExp(self, e, st):
        c = self.expr(e.test, st)
        gt, gf = norm_guard(c, True), norm_guard(c, False)
        if gt is None:
            return self.expr(e.orelse, st)
        if gf is None:
            return self.expr(e.body, st)
        s1, s2 = st.copy(), st.copy()
        s1.guards += gt
        s2.guards += gf
        return mk_phi(c, self.expr(e.body, s1), self.expr(e.orelse, s2))

    def e_NamedExpr(self, e, st):
        v = self.expr(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Lambda(self, e, st):
        fn = Func(self.stack[-1].module, e, None, dict(st.env))
        n = Node("func", "<lambda>", id(e))
        self.lambdas[n] = fn
        return n

    def e_Starred(self, e, st):
        return Node("star", self.expr(e.value, st))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(str(v.value))
            else:
                spec = ""
                if v.format_spec is not None:
                    sp = self.e_JoinedStr(v.format_spec, st)
                    spec = cval(sp, "?")
                parts.append(Node("fmt", self.expr(v.value, st), spec))
        return mk_strcat(tuple(parts))

    def e_FormattedValue(self, e, st):
        return mk_strcat((Node("fmt", self.expr(e.value, st), ""),))

    def e_Await(self, e, st):
        return self.expr(e.value, st)

    def e_Yield(self, e, st):
        return NONE

    def comp(self, kind, e, st, elt_fn):
        st = State(dict(st.env), dict(st.heap), list(st.guards))
        conds = []
        iters = []
        n0 = len(self.loops)
        for g in e.generators:
            it = self.expr(g.iter, st)
            self.nloop += 1
            el = self.elem_of(it)
            iters.append(it)
            self.loopinfo[self.nloop] = {"id": self.nloop, "iter": it, "line": e.lineno, "elem": el, "updates": {}, "pre": {}}
            self.loops.append(self.nloop)
            self.assign(g.target, el, st, e.lineno)
            for c in g.ifs:
                cv = self.expr(c, st)
                conds.append(cv)
                st.guards += [x for x in (norm_guard(cv, True) or []) if x not in st.guards]
        v = elt_fn(st)
        del self.loops[n0:]
        r = Node("comp", kind, v, iters[0] if len(iters) == 1 else Node("tuple", tuple(iters)), n0, tuple(conds))
        return r

    def e_ListComp(self, e, st):
        return self.comp("list", e, st, lambda s: self.expr(e.elt, s))

    def e_SetComp(self, e, st):
        return self.comp("set", e, st, lambda s: self.expr(e.elt, s))

    def e_GeneratorExp(self, e, st):
        return self.comp("gen", e, st, lambda s: self.expr(e.elt, s))

    def e_DictComp(self, e, st):
        return self.comp("dict", e, st, lambda s: Node("tuple", (self.expr(e.key, s), self.expr(e.value, s))))

    # -------------------------------------------------------------- calls
    def e_Call(self, e, st):
        # method call on a mutable local
        f = self.expr(e.func, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.expr(a.value, st)
                if v.op in ("tuple", "list"):
                    args += list(v.args[0])
                elif v.op == "ntuple":
                    args += [x for _, x in v.args[1]]
                else:
                    args.append(Node("star", v))
            else:
                args.append(self.expr(a, st))
        kw = []
        for k in e.keywords:
            v = self.expr(k.value, st)
            if k.arg is None:
                if v.op == "dict":
                    for kk, vv in v.args[0]:
                        kw.append((cval(kk, "**"), vv))
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        srt = (f.op == "glob" and f.args[0] in ("sorted", "min", "max")) or (f.op == "attr" and f.args[1] == "sort")
        if srt:
            kw = [(k, self.key_term(v, st, e) if k == "key" else v) for k, v in kw]
        self.outs = None
        r = self.call(f, args, kw, st, e)
        if self.outs is not None and f.op in ("func", "bound"):
            # containers the callee changed in place
            fn, off, vals = self.outs
            an = self.arg_nodes(e, fn, off)
            for q, v in vals.items():
                if q in an and isinstance(an[q], (ast.Name, ast.Attribute, ast.Subscript)):
                    self.store_back(an[q], v, st)
        self.outs = None
        # container mutators
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS:
            b = self.expr(e.func.value, st, quiet=True)
            if b.op not in ("glob", "func", "obj"):
                if e.func.attr == "append" and len(args) == 1:
                    if b.op == "list":
                        nv = Node("list", b.args[0] + (args[0],))
                    else:
                        nv = Node("append", b, args[0])
                    self.store_back(e.func.value, nv, st)
                elif e.func.attr == "extend" and len(args) == 1:
                    self.store_back(e.func.value, mk_bin("+", b, args[0]) if listish(b) else Node("concat", b, args[0]), st)
                elif isinstance(e.func.value, (ast.Name, ast.Attribute)):
                    self.store_back(e.func.value, Node("mut", b, e.func.attr, tuple(args), tuple(sorted(kw, key=lambda q: q[0]))), st)
        # out parameters: &name handed to a native function
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == "__addr__":
                o = a.args[0]
                if isinstance(o, ast.Name):
                    st.env[o.id] = Node("out", f, i)
        return r

    # what a function of the package changes in place
    def callee(self, e, module, cls, around):
        """the package function a call expression names, without evaluating anything"""
        f = e.func
        if isinstance(f, ast.Name):
            for a in around:
                for d in ast.walk(a):
                    if isinstance(d, ast.FunctionDef) and d.name == f.id and d is not a:
                        return Func(module, d, None, {}), 0
            r = self.pkg.resolve(module.name + "." + f.id)
            return (r[1], 0) if r and r[0] == "func" else None
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id in module.imports:
                r = self.pkg.resolve(module.imports[f.value.id] + "." + f.attr)
                if r:
                    return (r[1], 0) if r[0] == "func" else None
            if isinstance(f.value, ast.Name) and f.value.id == "self" and cls and cls in module.classes:
                g = method(module, cls, f.attr)
            else:
                g = next((x for m in self.pkg.mods.values() for c in m.classes for x in [method(m, c, f.attr)] if x), None)
            if g is not None:
                st = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in g.node.decorator_list)
                return g, 0 if st else 1
        return None

    def call_effects(self, body, module, cls, around, seen):
        names, attrs = set(), set()
        for s in body:
            for n in ast.walk(s):
                if not isinstance(n, ast.Call):
                    continue
                c = self.callee(n, module, cls, around)
                if c is None or c[0].qual in self.stop:
                    continue
                ps, at, free = self.effects(c[0], seen)
                attrs |= at
                names |= free
                for q, a in self.arg_nodes(n, c[0], c[1]).items():
                    if q in ps:
                        while isinstance(a, ast.Subscript):
                            a = a.value
                        if isinstance(a, ast.Name):
                            names.add(a.id)
                        elif isinstance(a, ast.Attribute):
                            attrs.add(a.attr)
        return names, attrs

    def arg_nodes(self, e, fn, off):
        """parameter -> argument expression of a plain call"""
        out, ps = {}, fn.params()
        for i, a in enumerate(e.args):
            if isinstance(a, ast.Starred):
                break
            if i + off < len(ps):
                out[ps[i + off]] = a
        for k in e.keywords:
            if k.arg is not None:
                out[k.arg] = k.value
        return out

    def effects(self, fn, seen=()):
        """(parameters, attributes, enclosing variables) a function changes in place"""
        k = id(fn.node)
        if k in self.eff:
            return self.eff[k]
        if k in seen or isinstance(fn.node, ast.Lambda):
            return set(), set(), set()
        body = fn.node.body
        names, attrs = inplace_names(body)
        n2, a2 = self.call_effects(body, fn.module, fn.cls, [fn.node], tuple(seen) + (k,))
        names |= n2
        attrs |= a2 | assigned_attrs(body)
        a = fn.node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        nonloc = {x for s in ast.walk(fn.node) if isinstance(s, ast.Nonlocal) for x in s.names}
        stored = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        free = ((names - params - stored) | nonloc) if fn.closure is not None else set()
        r = (names & params - stored, attrs, free)
        if not seen:
            self.eff[k] = r
        return r

    def changed_by(self, body):
        """(names, attributes) of the current function that a block changes, calls included"""
        f = self.stack[-1]
        n, a = self.call_effects(body, f.module, f.cls, [f.node], ())
        return assigned_names(body) | n, assigned_attrs(body) | a

    def key_term(self, v, st, e):
        """sort keys as a term over the element"""
        if v.op != "func":
            return v
        self.muted += 1
        try:
            return Node("lam", self.call(v, [Node("param", "$el")], [], st.copy(), e))
        finally:
            self.muted -= 1

    def canon_kw(self, f, args, kw):
        return args, tuple(sorted(kw, key=lambda x: x[0]))

    def call(self, f, args, kw, st, e):
        line = getattr(e, "lineno", 0)
        # functools.partial
        if f.op == "partialf":
            args = list(f.args[1]) + args
            kw = list(f.args[2]) + [k for k in kw]
            f = f.args[0]
        if f.op == "phi":
            s1, s2 = st.copy(), st.copy()
            s1.guards += norm_guard(f.args[0], True) or []
            s2.guards += norm_guard(f.args[0], False) or []
            return mk_phi(f.args[0], self.call(f.args[1], args, kw, s1, e), self.call(f.args[2], args, kw, s2, e))
        fn = None
        selfarg = None
        if f.op == "func":
            fn = self.lambdas.get(f)
        elif f.op == "bound":
            m, cl = self.objcls[f.args[0]]
            fn = method(m, cl, f.args[1])
            static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.node.decorator_list)
            selfarg = None if static else f.args[0]
        elif f.op == "class":
            m, cl = self.pkg.resolve(f.args[0])[1:]
            base = [ast.unparse(b) for b in m.classes[cl].bases]
            if "Exception" not in "".join(base) and "Error" not in "".join(base):
                self.emit("new", f, args, kw, st=st, line=line)
                if len(self.stack) < self.max_depth:
                    o, s2 = self.new_obj(m, cl, args, kw, st, line=line)
                    st.heap = s2.heap
                    return o
            return Node("call", f, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
        if fn is not None:
            full = ([selfarg] if selfarg is not None else []) + list(args)
            self.emit("enter", Node("func", fn.qual), full, kw, st=st, line=line, extra=fn)
            rec = any(x.qual == fn.qual and x.node is fn.node for x in self.stack)
            gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn.node))
            if self.inline and not rec and not gen and fn.qual not in self.stop and len(self.stack) < self.max_depth:
                env = self.bind(fn, full, kw, st)
                ps, _, free = self.effects(fn)
                if fn.closure is not None and self.stack and any(n is fn.node for n in ast.walk(self.stack[-1].node)):
                    # a local function sees the variables of its function as they are now
                    fn.closure.update({k: x for k, x in st.env.items() if k not in env})
                self.want = ps | free
                v, s2 = self.run_body(fn, env, st)
                out = {q: x for q, x in self.got.items() if x is not env.get(q)}
                for q in free:
                    if q in out and q in st.env:
                        st.env[q] = out[q]
                st.heap = s2.heap
                st.guards = s2.guards
                self.outs = (fn, 1 if selfarg is not None else 0, {q: x for q, x in out.items() if q in ps})
                self.emit("leave", Node("func", fn.qual), (v,), (), st=st, line=line)
                return v
            # opaque: normalise the binding by parameter name
            env = self.bind(fn, full, kw, st)
            r = Node("call", Node("func", fn.qual), (), tuple(sorted(env.items())))
            ev = self.emit("call", Node("func", fn.qual), (), tuple(sorted(env.items())), st=st, line=line, node=r)
            return r
        r = self.builtin(f, args, kw, st)
        if r is not None:
            self.emit("call", f, args, kw, st=st, line=line, node=r)
            return r
        node = Node("call", f, tuple(args), tuple(sorted(kw, key=lambda x: x[0])))
        if (f.op == "attr" and f.args[1] in STATEFUL) or (f.op == "glob" and f.args[0] in ("next", "input", "pickle.load")) or \
                self.fresh and f.op == "glob" and f.args[0] in ("numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones"):
            # every call of a reader or generator gives a new value
            k = self.nth.get(node, 0)
            self.nth[node] = k + 1
            if k:
                node = Node("again", node, k)
        ev = self.emit("call", f, args, kw, st=st, line=line, node=node)
        if f.op == "glob" and f.args[0] in ("sys.exit", "exit", "os._exit", "quit"):
            st.guards.append((FALSE, True))
        return node

    def builtin(self, f, args, kw, st):
        """canonical values of a few pure calls; None -> generic call node"""
        g = f.args[0] if f.op == "glob" else None
        if g == "os.path.join":
            return mk_path(tuple(args))
        if g in ("pathlib.Path", "os.fspath") and len(args) == 1 and not kw:
            return args[0] if args[0].op in ("strcat",) else None
        if g == "str" and len(args) == 1 and not kw:
            if stringish(args[0]):
                return args[0]
            if args[0].op == "const" and isinstance(args[0].args[0], int):
                return C(str(args[0].args[0]))
            return None
        if g == "len" and len(args) == 1:
            return mk_len(args[0])
        if g in ("int", "math.floor", "numpy.floor") and len(args) == 1 and not kw:
            x = args[0]
            if x.op == "const" and isnum(x.args[0]):
                return C(int(x.args[0]))
            if x.op == "bin" and x.args[0] == "/":
                return mk_bin("//", x.args[1], x.args[2])
            if g == "int" and x.op == "bin" and x.args[0] in ("//",):
                return x
            return None
        if g is not None and g.startswith("operator.") and len(args) == 2 and not kw and g[9:] in OPFN:
            o = OPFN[g[9:]]
            return mk_cmp(o, args[0], args[1]) if o in ("<", "<=", ">", ">=", "==", "!=", "is", "is not") else mk_bin(o, args[0], args[1])
        if g == "divmod" and len(args) == 2 and not kw:
            return Node("tuple", (mk_bin("//", args[0], args[1]), mk_bin("%", args[0], args[1])))
        if g in ("numpy.floor_divide", "numpy.mod", "numpy.remainder", "numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide",
                 "numpy.true_divide", "numpy.bitwise_and", "numpy.bitwise_or", "numpy.left_shift", "numpy.right_shift") and len(args) == 2 and not kw:
            return mk_bin({"floor_divide": "//", "mod": "%", "remainder": "%", "add": "+", "subtract": "-", "multiply": "*", "divide": "/",
                           "true_divide": "/", "bitwise_and": "&", "bitwise_or": "|", "left_shift": "<<", "right_shift": ">>"}[g[6:]], args[0], args[1])
        if g in ("numpy.greater", "numpy.greater_equal", "numpy.less", "numpy.less_equal", "numpy.equal", "numpy.not_equal") and len(args) == 2 and not kw:
            return mk_cmp({"greater": ">", "greater_equal": ">=", "less": "<", "less_equal": "<=", "equal": "==", "not_equal": "!="}[g[6:]], args[0], args[1])
        if g == "functools.partial" and args:
            return Node("partialf", args[0], tuple(args[1:]), tuple(kw))
        if g == "namedtuple" or g == "collections.namedtuple":
            flds = args[1] if len(args) > 1 else dict(kw).get("field_names", NONE)
            if flds.op == "const":
                flds = tuple(flds.args[0].replace(",", " ").split())
            elif flds.op in ("list", "tuple"):
                flds = tuple(cval(x) for x in flds.args[0])
            else:
                return None
            return Node("ntclass", cval(args[0]), flds)
        if f.op == "ntclass":
            vals = dict(zip(f.args[1], args))
            vals.update(dict(kw))
            return Node("ntuple", f, tuple((k, vals.get(k, Node("unbound", k))) for k in f.args[1]))
        if g == "dict" and not args:
            return Node("dict", tuple((C(k), v) for k, v in kw))
        if g in ("list", "tuple") and len(args) == 1 and args[0].op in ("list", "tuple"):
            return Node(g, args[0].args[0])
        if g in ("list",) and not args:
            return Node("list", ())
        if g == "list" and len(args) == 1 and args[0].op == "call" and args[0].args[0] == Node("glob", "range") and len(args[0].args[1]) == 1 \
                and isinstance(cval(args[0].args[1][0]), int) and cval(args[0].args[1][0]) <= 64:
            return Node("list", tuple(C(i) for i in range(cval(args[0].args[1][0]))))
        if g == "yaml.safe_load" or g == "yaml.load":
            return None
        if f.op == "attr":
            b, m = f.args
            if m == "format" and b.op == "const" and isinstance(b.args[0], str):
                return self.fmt(b.args[0], args, dict(kw))
            if m == "format" and b.op == "strcat" and not kw and sum(x.count("{}") for x in b.args[0] if isinstance(x, str)) == len(args) \
                    and not any("{" in x.replace("{}", "") or "}" in x.replace("{}", "") for x in b.args[0] if isinstance(x, str)):
                rest, parts = list(args), []
                for x in b.args[0]:
                    if isinstance(x, str) and "{}" in x:
                        k = x.count("{}")
                        x, rest = self.fmt(x, tuple(rest[:k]), {}), rest[k:]
                    parts.append(x if isinstance(x, (str,)) or x.op == "fmt" else Node("fmt", x, ""))
                return mk_strcat(tuple(parts))
            if m == "joinpath":
                return mk_path((b,) + tuple(args))
            if m == "_replace" and b.op == "ntuple":
                d = dict(b.args[1])
                d.update(dict(kw))
                return Node("ntuple", b.args[0], tuple((k, d[k]) for k, _ in b.args[1]))
            if m == "get" and b.op == "dict" and args and args[0].op == "const":
                for k, v in b.args[0]:
                    if k is args[0]:
                        return v
                return args[1] if len(args) > 1 else NONE
            if m in ("keys",) and b.op == "dict":
                return Node("list", tuple(k for k, _ in b.args[0]))
            if m == "values" and b.op == "dict":
                return Node("list", tuple(v for _, v in b.args[0]))
            if m == "items" and b.op == "dict":
                return Node("list", tuple(Node("tuple", (k, v)) for k, v in b.args[0]))
            if b.op == "const" and isinstance(b.args[0], str) and all(a.op == "const" for a in args) and not kw and \
                    m in ("lower", "upper", "strip", "split", "replace", "rstrip", "lstrip", "zfill", "startswith", "endswith"):
                try:
                    return to_node(getattr(b.args[0], m)(*[a.args[0] for a in args]))
                except Exception:
                    return None
            if b.op == "const" and m == "join" and len(args) == 1 and args[0].op in ("list", "tuple"):
                parts = []
                for i, x in enumerate(args[0].args[0]):
                    if i:
                        parts.append(b.args[0])
                    parts.append(Node("fmt", x, ""))
                return mk_strcat(tuple(parts))
        return None

    def fmt(self, s, args, kw):
        parts = []
        i = 0
        try:
            it = list(string.Formatter().parse(s))
        except ValueError:
            return None
        for lit, field, spec, conv in it:
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                v = args[i] if i < len(args) else Node("unbound", "fmt")
                i += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else Node("unbound", "fmt")
            else:
                v = kw.get(field.split(".")[0].split("[")[0], Node("unbound", field))
                if field.split(".")[0] != field:
                    v = Node("attr", v, field)
            parts.append(Node("fmt", v, spec or ""))
        return mk_strcat(tuple(parts))


def mk_len(x):
    if x.op in ("list", "tuple"):
        if not any(a.op == "star" for a in x.args[0]):
            return C(len(x.args[0]))
    if x.op == "dict":
        return C(len(x.args[0]))
    if x.op == "comp" and not x.args[4] and x.args[2].op != "tuple":
        return mk_len(x.args[2])
    if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("list", "tuple", "iter", "reversed", "sorted", "zip", "enumerate") and len(x.args[1]) >= 1:
        return mk_len(x.args[1][0])
    if x.op == "call" and x.args[0] == Node("glob", "range"):
        a = x.args[1]
        if len(a) == 1:
            return a[0]
        if len(a) == 2:
            return mk_bin("-", a[1], a[0])
        if len(a) == 3:
            return Node("call", Node("glob", "int"), (Node("call", Node("glob", "numpy.ceil"), (mk_bin("/", mk_bin("-", a[1], a[0]), a[2]),), ()),), ())
    return Node("call", Node("glob", "len"), (x,), ())


def gid(n):
    """dotted name of a glob/func/class term"""
    if n.op in ("glob", "func", "class"):
        return n.args[0]
    if n.op == "attr":
        return "." + n.args[1]
    if n.op == "bound":
        return "." + n.args[1]
    return n.op
