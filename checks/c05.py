"""C05 the caller's arrays and packs are never modified."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import pyflow as P
import pyq
from report import main, Broken

FRESH = {"numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones", "numpy.copy", "numpy.zeros_like", "numpy.empty_like", "numpy.full_like", "numpy.concatenate",
         "copy.deepcopy", "copy.copy", "numpy.sort", "numpy.append", "numpy.where", "deepcopy", "numpy.stack", "numpy.array"}
ALIASM = {"view", "ravel", "squeeze", "reshape", "__array__", "transpose", "swapaxes"}
ALIASF = {"numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray", "numpy.require", "numpy.ravel", "numpy.squeeze", "numpy.atleast_1d", "numpy.asfortranarray", "memoryview"}
MUT = {"sort", "resize", "fill", "put", "partition", "itemset", "setfield", "byteswap", "append", "extend", "insert", "pop", "remove", "clear", "reverse", "update", "setflags"}
MUTF = {"numpy.copyto": 0, "numpy.put": 0, "numpy.place": 0, "numpy.putmask": 0, "numpy.fill_diagonal": 0}


def false_kw(call, name):
    v = dict(call.args[2]).get(name)
    return v is not None and P.is_const(v, False)


def roots(n, seen=None):
    """caller-owned storage a value may alias: set of parameter names"""
    seen = set() if seen is None else seen
    if n.id in seen:
        return set()
    seen.add(n.id)
    o, a = n.op, n.args
    if o == "param":
        return {a[0]}
    if o == "phi":
        return roots(a[1], seen) | roots(a[2], seen)
    if o in ("sub", "attr", "cast", "slice"):
        return roots(a[0], seen) if isinstance(a[0], P.Node) else set()
    if o == "call":
        f = a[0]
        g = P.gid(f)
        if g == "__addr__":
            # &view[i] points into the viewed array, &scalar to a C local
            return roots(a[1][0], seen) if a[1][0].op == "sub" else set()
        if f.op == "attr":
            if f.args[1] in ALIASM:
                return roots(f.args[0], seen)
            if f.args[1] in ("astype", "byteswap") and false_kw(n, "copy"):
                return roots(f.args[0], seen)
            return set()
        if f.op == "glob":
            if f.args[0] in ALIASF and a[1]:
                return roots(a[1][0], seen)
            if f.args[0] == "numpy.array" and (false_kw(n, "copy") or P.is_const(dict(a[2]).get("copy", P.FALSE), None)) and a[1]:
                return roots(a[1][0], seen)
        return set()
    if o in ("mu", "setitem", "store", "upd"):
        out = set()
        for x in a:
            if isinstance(x, P.Node):
                out |= roots(x, seen)
        return out
    return set()


def run(r):
    r.rule("native", "memory a native entry point may write (LLVM parameter effects) never aliases caller-owned storage")
    r.rule("store", "no Python store or in-place method targets caller-owned storage")
    pkg = P.Package()
    eff = cfacts.param_effects(set(pyq.API.values()))
    for f in pyq.API.values():
        if f not in eff:
            raise Broken("native function %s not found" % f)
    nptr = 0
    for api, cfn in list(pyq.API.items()) + [("sccd_identify", None)]:
        it = P.Interp(pkg).run("pycold.colds." + api)
        if cfn:
            for e, sig in pyq.native(pkg, it):
                at = eff.get(e.f.args[0])
                if at is None:
                    continue
                if len(at) != len(sig):
                    raise Broken("arity of %s" % e.f.args[0])
                for (ct, cn), x, a in zip(sig, at, e.args):
                    if "ptr" not in x:
                        continue
                    nptr += 1
                    rt = roots(a)
                    ro = "readonly" in x or "readnone" in x
                    r.check(ro or not rt, "native", "%s:%s" % (api, cn), "the native code may write '%s', which aliases the caller's %s" % (cn, ", ".join(sorted(rt))), e.where())
        for e in it.events:
            tgt = None
            if e.kind in ("setitem", "setattr", "augset", "delitem"):
                tgt = e.f if isinstance(e.f, P.Node) else None
            elif e.kind == "call" and e.f.op == "attr" and e.f.args[1] in MUT:
                tgt = e.f.args[0]
            elif e.kind == "call" and e.f.op == "glob" and e.f.args[0] in MUTF and e.args:
                tgt = e.args[0]
            elif e.kind == "call" and "out" in dict(e.kw):
                tgt = dict(e.kw)["out"]
            if tgt is None:
                continue
            rt = roots(tgt)
            # rebinding an entry of a local dict/list literal is not the caller's
            r.check(not rt, "store", "%s:%s" % (api, str(tgt)[:80]), "%s modifies the caller's %s" % (e.fn, ", ".join(sorted(rt))), e.where())
        r.ok("store", api + ":events", "%d events" % len(it.events))
    r.info["pointer_arguments"] = nptr
    r.info["readonly_parameters"] = {f: sum("readonly" in x for x in v) for f, v in eff.items()}
    r.floor("native", 40)


main("C05", run, explanation="Pointer-parameter effects of the native entry points inferred by LLVM over the linked bitcode, joined with an alias analysis of the terms passed for them; every Python store event checked for caller-owned roots.")
