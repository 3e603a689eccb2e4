"""Queries over pyflow terms and events shared by the checks."""
import math
import pyflow as P
from report import Broken

ARRS = ["dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas"]
API = {"cold_detect": "cold", "obcold_reconstruct": "obcold_reconstruction_procedure", "sccd_detect": "sccd", "sccd_update": "sccd"}
PASSTHROUGH = {"astype", "copy", "view", "ravel", "flatten", "squeeze", "item", "__array__"}
PASSFN = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.array", "numpy.require", "numpy.copy", "int", "float", "bool", "numpy.int64",
          "numpy.asanyarray", "numpy.ravel"}


STRM = {"split", "rsplit", "replace", "lower", "upper", "strip", "lstrip", "rstrip", "zfill", "startswith", "endswith", "find", "rfind", "index", "partition",
        "rpartition", "removesuffix", "removeprefix", "count", "isdigit"}


class Unknown(Exception):
    pass


def strip(n):
    """the value behind views, dtype conversions, address-of and [0]"""
    while True:
        if n.op == "call" and n.args[0].op == "attr" and n.args[0].args[1] in PASSTHROUGH:
            n = n.args[0].args[0]
        elif n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] in PASSFN and n.args[1]:
            n = n.args[1][0]
        elif n.op == "call" and P.gid(n.args[0]) == "__addr__" and n.args[1]:
            n = n.args[1][0]
            if n.op == "sub" and P.is_const(n.args[1], 0):
                n = n.args[0]
        elif n.op == "cast":
            n = n.args[-1]
        else:
            return n


def native(pkg, it):
    """[(event, extern signature)] of native calls"""
    ext = next(iter(pkg.cy.values())).externs
    return [(e, ext[e.f.args[0]]) for e in it.events if e.kind == "call" and e.f.op == "glob" and e.f.args[0] in ext]


def api_call(pkg, fn, fresh=False):
    it = P.Interp(pkg)
    it.fresh = fresh
    it.run("pycold.colds." + fn)
    nc = [x for x in native(pkg, it) if x[0].f.args[0] == API[fn]]
    if not nc:
        raise Broken("pycold.%s never reaches the native %s" % (fn, API[fn]))
    return it, nc


def params_of(pkg, dotted):
    r = pkg.resolve(dotted)
    if r is None or r[0] != "func":
        raise Broken("no function " + dotted)
    a = r[1].node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def leaf(n, env):
    return env[n] if n in env else None


_FREE = {}


def free_of(x):
    """iteration variables a term mentions"""
    if x.id not in _FREE:
        _FREE[x.id] = tuple(y for y in P.walk(x) if y.op == "iterel" or (y.op == "param" and y.args[0] == "$el"))
    return _FREE[x.id]


def ev(n, env, fn=None, memo=None, cc=None):
    """value of a pure term when its leaves are given (finite decision tables);
    env maps Node -> value; fn(node) may supply values of further nodes"""
    memo = {} if memo is None else memo
    cc = {} if cc is None else cc      # results of list terms, shared by the nested evaluations

    def go(x):
        if x.id in memo:
            return memo[x.id]
        if x.op in ("comp", "mut") or (x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("sorted", "zip", "enumerate", "list", "numpy.arange")):
            k = (x.id, tuple((y.id, env[y]) for y in free_of(x) if y in env))
            try:
                hash(k)
            except TypeError:
                k = None
            if k is None:
                r = go2(x)
            else:
                if k not in cc:
                    cc[k] = go2(x)
                r = cc[k]
        else:
            r = go2(x)
        memo[x.id] = r
        return r

    go.env = env

    def srt(v, kw):
        key = kw.get("key")
        kf = None
        if key is not None:
            if key.op != "lam":
                raise Unknown("key")
            kf = lambda el: ev(key.args[0], {**env, P.Node("param", "$el"): el}, fn, None, cc)
        return sorted(v, key=kf, reverse=bool(go(kw["reverse"])) if "reverse" in kw else False)

    def go2(x):
        if x in env:
            return env[x]
        if fn is not None:
            v = fn(x, go)
            if v is not None:
                return v
        o, a = x.op, x.args
        if o == "const":
            return a[0]
        if o == "not":
            return not go(a[0])
        if o in ("and", "or"):
            bad = None
            for y in a[0]:
                try:
                    if bool(go(y)) == (o == "or"):
                        return o == "or"
                except Unknown as ex:
                    bad = ex
            if bad is not None:
                raise bad
            return o == "and"
        if o == "phi":
            return go(a[1]) if go(a[0]) else go(a[2])
        if o == "cmp":
            p, q = go(a[1]), go(a[2])
            return {"<": lambda: p < q, "==": lambda: p == q, "is": lambda: p is q, "in": lambda: p in q}[a[0]]()
        if o == "poly":
            s = None
            for m, c in a[0]:
                t = None
                for f in m:
                    t = go(f) if t is None else t * go(f)
                t = c if t is None else t if c == 1 else t * c
                s = t if s is None else s + t
            return 0 if s is None else s
        if o == "bin":
            p, q = go(a[1]), go(a[2])
            return {"/": lambda: p / q, "//": lambda: p // q, "%": lambda: p % q, "**": lambda: p ** q, "<<": lambda: p << q,
                    ">>": lambda: p >> q, "&": lambda: p & q, "|": lambda: p | q, "^": lambda: p ^ q}[a[0]]()
        if o in ("tuple", "list"):
            return tuple(go(y) for y in a[0])
        if o == "set":
            return tuple(go(y) for y in a[0])
        if o == "zipel":
            return tuple(go(y) for y in a[0])
        if o == "sub":
            return go(a[0])[go(a[1])]
        if o == "slice":
            return slice(*[None if y is None else go(y) for y in a])
        if o == "strcat":
            return "".join(y if isinstance(y, str) else format(go(y.args[0]), y.args[1]) for y in a[0])
        if o == "call" and a[0].op in ("attr", "bound") and a[0].args[1] in STRM and not a[2]:
            b = go(a[0].args[0])
            if isinstance(b, str):
                return getattr(b, a[0].args[1])(*[go(y) for y in a[1]])
        if o == "attr":
            b = go(a[0])
            if not isinstance(b, P.Node):
                try:
                    return getattr(b, a[1])
                except AttributeError:
                    raise Unknown(repr(x)[:200])
        if o == "comp":
            its = [a[2]]
            if a[2].op == "tuple" and a[2].args[0] and any(P.Node("iterel", P.mk_len(a[2].args[0][0]), a[3]) in P.walk(y) for y in (a[1],) + tuple(a[4]) + tuple(a[2].args[0][1:])):
                its = list(a[2].args[0])      # several generators
            out = []

            def gen(k, e2):
                if k == len(its):
                    if all(ev(c, e2, fn, None, cc) for c in a[4]):
                        out.append(ev(a[1], e2, fn, None, cc))
                    return
                q = its[k]
                n = len(q.args[0]) if q.op in ("tuple", "list", "set") else ev(q, e2, fn, None, cc)
                if not isinstance(n, int):
                    n = len(n)
                keys = [P.Node("iterel", P.mk_len(q), a[3] + k)]
                parts = [q]
                while parts:
                    w = parts.pop()
                    if w.op == "comp" and w.args[0] in ("list", "gen") and not w.args[4] and w.args[2].op != "tuple":      # elements of it were fused in
                        keys.append(P.Node("iterel", P.mk_len(w.args[2]), w.args[3]))
                        parts.append(w.args[2])
                    if w.op == "call" and P.gid(w.args[0]) in ("enumerate", "zip", "list", "tuple", "iter") and w.args[1]:
                        for v in (w.args[1] if P.gid(w.args[0]) == "zip" else w.args[1][:1]):
                            keys.append(P.Node("iterel", P.mk_len(v), a[3] + k))
                            parts.append(v)
                if len(its) == 1:      # positions of arrays the source is computed from element by element
                    for y in P.walk(a[1]):
                        if y.op == "iterel" and y.args[1] == a[3] and y not in keys and y not in e2 and y.args[0].op == "call" and y.args[0].args[1] and y.args[0].args[1][0] in P.walk(q):
                            keys.append(y)
                for i in range(n):
                    gen(k + 1, {**e2, **{y: i for y in keys}})
            gen(0, dict(env))
            return set(out) if a[0] == "set" else out
        if o == "mut" and a[1] == "sort":
            return srt(go(a[0]), dict(a[3]))
        if o == "call" and a[0].op == "glob" and a[0].args[0] == "sorted":
            return srt(go(a[1][0]), dict(a[2]))
        if o == "mut" and a[1] == "reverse":
            return list(reversed(go(a[0])))
        if o in ("concat", "append"):
            return list(go(a[0])) + (list(go(a[1])) if o == "concat" else [go(a[1])])
        if o == "glob":
            c = {"numpy.inf": math.inf, "math.inf": math.inf, "numpy.nan": math.nan, "math.nan": math.nan, "True": True, "False": False}
            if a[0] in c:
                return c[a[0]]
        if o == "call" and a[0].op == "glob" and not a[2]:
            g = a[0].args[0]
            f = {"int": int, "float": float, "numpy.floor": math.floor, "math.floor": math.floor, "numpy.ceil": math.ceil, "math.ceil": math.ceil,
                 "abs": abs, "max": max, "min": min, "numpy.minimum": min, "numpy.maximum": max, "bool": bool, "round": round, "divmod": divmod,
                 "numpy.isnan": lambda v: v != v, "math.isnan": lambda v: v != v, "numpy.abs": abs, "numpy.logical_and": lambda p, q: p and q,
                 "numpy.logical_or": lambda p, q: p or q, "numpy.logical_not": lambda p: not p, "len": len, "numpy.int16": int, "numpy.int32": int,
                 "numpy.int64": int, "numpy.uint8": int, "numpy.trunc": math.trunc, "math.trunc": math.trunc, "str": str, "set": set, "list": list,
                 "tuple": tuple, "any": any, "all": all, "sum": sum, "sorted": sorted, "numpy.unique": lambda v: sorted(set(v)),
                 "numpy.shape": lambda v: v.shape, "numpy.ndim": lambda v: v.ndim, "numpy.size": lambda v: v.size,
                 "hasattr": lambda v, n: hasattr(v, n)}.get(g)
            if f is not None:
                return f(*[go(y) for y in a[1]])
        raise Unknown(repr(x)[:200])
    return go(n)


def leaves(n):
    """non-interpreted sub-terms"""
    out = []
    for x in P.walk(n):
        if x.op not in ("const", "not", "and", "or", "phi", "cmp", "poly", "bin"):
            out.append(x)
    return out


def field_of(n):
    """name of the structured-record field a term reads, or None"""
    if n.op == "sub" and n.args[1].op == "const" and isinstance(n.args[1].args[0], str):
        return n.args[1].args[0]
    if n.op == "attr":
        return n.args[1]
    return None


def guarded_by(e, pred):
    return any(pred(c, p) for c, p in e.guards)


def alts(n):
    """the values a merged value can take, without those whose computation raises"""
    out, seen = [], set()
    stack = [n]
    while stack:
        x = strip(stack.pop())
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "phi":
            stack += [x.args[1], x.args[2]]
            continue
        if x.op == "sub" and x.args[0].op in ("tuple", "list") and x.args[1].op == "const" and isinstance(x.args[1].args[0], int) \
                and not -len(x.args[0].args[0]) <= x.args[1].args[0] < len(x.args[0].args[0]):
            continue
        if x.op in ("sub", "attr") and x.args[0].op == "phi":
            mk = lambda b: P.Node(x.op, b, *x.args[1:])
            f = lambda b: b.args[0][x.args[1].args[0]] if (x.op == "sub" and b.op in ("tuple", "list") and x.args[1].op == "const"
                                                           and isinstance(x.args[1].args[0], int) and 0 <= x.args[1].args[0] < len(b.args[0])) else mk(b)
            stack += [f(x.args[0].args[1]), f(x.args[0].args[2])]
            continue
        if x.op == "attr" and x.args[0].op == "sub" and x.args[0].args[0].op in ("tuple", "list") and x.args[0].args[1].op == "const" \
                and isinstance(x.args[0].args[1].args[0], int) and x.args[0].args[1].args[0] >= len(x.args[0].args[0].args[0]):
            continue
        out.append(x)
    return out


def records(it, name):
    """construction events of a named tuple class"""
    out = []
    for e in it.events:
        if e.kind == "call" and e.f.op == "ntclass" and e.f.args[0] == name:
            names = e.f.args[1]
            vals = dict(zip(names, e.args))
            for k, v in dict(e.kw).items():
                vals[k] = v
            out.append((e, vals))
    return out


class Arr:
    """shape-only stand-in of an array argument"""
    def __init__(self, *shape):
        self.shape, self.ndim, self.size = tuple(shape), len(shape), math.prod(shape)

    def __len__(self):
        if not self.shape:
            raise TypeError
        return self.shape[0]


TYPES = {"numbers.Integral": int, "numbers.Real": (int, float), "int": int, "float": float, "bool": bool, "str": str, "numpy.ndarray": Arr,
         "list": list, "tuple": tuple, "numbers.Number": (int, float)}


def shape_hook(x, go):
    if x.op == "call" and not x.args[2]:
        g = P.gid(x.args[0])
        if g == "isinstance" and x.args[1][1].op == "glob":
            t = x.args[1][1].args[0]
            for k, v in TYPES.items():
                if t == k or t.endswith("." + k.split(".")[-1]):
                    return isinstance(go(x.args[1][0]), v)
        if g == "callable":
            return callable(go(x.args[1][0]))
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in PASSTHROUGH:
        return go(x.args[0].args[0])
    if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("numpy.asarray", "numpy.ascontiguousarray", "numpy.array") and x.args[1]:
        return go(x.args[1][0])
    return None


def holds(guards, env, hook=None):
    """True/False/None: conjunction of guards under env (None = unknown)"""
    res = True
    for c, p in guards:
        try:
            v = bool(ev(c, env, hook)) == p
        except (Unknown, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, ValueError):
            res = None
            continue
        if not v:
            return False
    return res


def fires(e, env, hook=None, limit=4096):
    """can the event happen under env, for some iteration of its enumerable loops?"""
    its = []
    for c, p in e.guards:
        for x in P.walk(c):
            if x.op == "iterel" and x not in env and x not in its and not any(y.op == "comp" and x in P.walk(y) for y in P.walk(c)):
                its.append(x)
    envs = [dict(env)]
    for i in its:
        try:
            n = ev(i.args[0], env, hook)
        except Exception:
            return None
        if not isinstance(n, int) or n * len(envs) > limit:
            return None
        envs = [dict(q, **{}) | {i: k} for q in envs for k in range(n)]
    rs = [holds(e.guards, q, hook) for q in envs]
    if any(r is True for r in rs):
        return True
    return False if all(r is False for r in rs) else None


def blocked(it, native_event, env, hook=None):
    """under env the native call is not reached: a guard is false or an earlier raise fires"""
    if holds(native_event.guards, env, hook) is False:
        return True
    for e in it.events:
        if e.idx >= native_event.idx:
            break
        if e.kind == "raise" and fires(e, env, hook):
            return True
    return False


def pick(n, env, hook=None, missed=None):
    """follow the branches of merges whose condition env decides; undecided conditions go to `missed`"""
    while True:
        n = strip(n)
        if n.op != "phi":
            return n
        try:
            v = bool(ev(n.args[0], env, hook))
        except (Unknown, TypeError, KeyError, IndexError, AttributeError, ValueError):
            if missed is not None:
                missed.append(n.args[0])
            return n
        n = n.args[1] if v else n.args[2]


def native_out(e, sig, pname):
    for i, (ct, cn) in enumerate(sig):
        if cn == pname:
            return P.Node("out", e.f, i), i
    raise KeyError(pname)
