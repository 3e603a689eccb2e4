"""Shared facts for the checks over the native code (LLVM IR)."""
import llir
from llir import Ins

ROOTS = ["cold", "obcold_reconstruction_procedure", "sccd"]
ALLOC = {"malloc", "calloc", "realloc", "allocate_2d_array"}
_mods = {}


def module(**kw):
    k = repr(sorted(kw.items()))
    if k not in _mods:
        _mods[k] = llir.Module(roots=ROOTS, **kw)
    return _mods[k]


def is_alloc(i, gsl=False):
    return i.op == "call" and i.callee.k == "fn" and i.ty == "ptr" and \
        (i.callee.name in ALLOC or (gsl and i.callee.name.startswith("gsl_") and (i.callee.name.endswith("_alloc") or i.callee.name.endswith("_calloc"))))


def own(m):
    return {f.name: f for f in m.fns.values() if not f.decl}


def callees_first(m):
    fs = own(m)
    calls = {n: m.callees(f) & set(fs) for n, f in fs.items()}
    order, seen = [], set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        for c in sorted(calls[n]):
            visit(c)
        order.append(n)
    for n in fs:
        visit(n)
    return [fs[n] for n in order]


def is_error_message(m, i):
    """a message logged with level ERROR: the project's way to state that a step failed"""
    return i.op == "call" and i.callee.k == "fn" and i.callee.name == "write_message" and len(i.ops) > 2 and m.string(i.ops[2]) == "ERROR"


def root(v, depth=0):
    """the object a pointer is derived from"""
    while isinstance(v, Ins) and v.op in ("gep", "bitcast", "addrspacecast", "freeze"):
        v = v.ops[0]
    return v


def deep_root(v):
    """the parameter or allocation a pointer is reached from, through any number of loads"""
    while isinstance(v, Ins) and v.op in ("gep", "bitcast", "addrspacecast", "freeze", "load"):
        v = v.ops[0]
    return v


def deep_writes(m):
    """{function: indices of the parameters through which it writes, at any depth}"""
    fs = callees_first(m)
    out = {f.name: set() for f in fs}
    ch = True
    while ch:
        ch = False
        for f in fs:
            ix = {a: k for k, a in enumerate(f.args)}
            for i in f.instrs():
                hit = []
                if i.op == "store":
                    hit = [deep_root(i.ops[1])]
                elif i.op == "call" and i.callee.k == "fn":
                    n = i.callee.name
                    for j, o in enumerate(i.ops):
                        if o.ty == "ptr" and (j in out[n] if n in out else n not in ("free", "printf", "fprintf") and not (n.startswith("llvm.mem") and j)):
                            hit.append(deep_root(o))
                for h in hit:
                    if h in ix and ix[h] not in out[f.name]:
                        out[f.name].add(ix[h])
                        ch = True
    return out
