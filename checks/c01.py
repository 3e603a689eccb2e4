"""C01 record layout agreement: C struct == Cython declaration == NumPy dtype (== every consumer copy)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import pyflow as P
import pipe
from report import main, Broken

STRUCTS = ["Output_t", "Output_sccd", "output_nrtqueue", "output_nrtmodel", "Output_sccd_pinpoint"]
NP = {"numpy.int8": ("i", 1), "numpy.uint8": ("u", 1), "numpy.int16": ("i", 2), "numpy.uint16": ("u", 2),
      "numpy.int32": ("i", 4), "numpy.uint32": ("u", 4), "numpy.int64": ("i", 8), "numpy.uint64": ("u", 8),
      "numpy.float32": ("f", 4), "numpy.single": ("f", 4), "numpy.float64": ("f", 8), "numpy.double": ("f", 8),
      "numpy.int_": ("i", 8), "numpy.uintc": ("u", 4), "numpy.longlong": ("i", 8), "numpy.bool_": ("u", 1)}
NPSTR = {"i1": ("i", 1), "u1": ("u", 1), "i2": ("i", 2), "u2": ("u", 2), "i4": ("i", 4), "u4": ("u", 4), "i8": ("i", 8),
         "u8": ("u", 8), "f4": ("f", 4), "f8": ("f", 8), "int16": ("i", 2), "int32": ("i", 4), "uint32": ("u", 4),
         "float32": ("f", 4), "uint8": ("u", 1), "int64": ("i", 8), "float64": ("f", 8), "short": ("i", 2)}
CT = {"int": ("i", 4), "short": ("i", 2), "short int": ("i", 2), "float": ("f", 4), "double": ("f", 8), "long": ("i", 8),
      "unsigned int": ("u", 4), "unsigned char": ("u", 1), "unsigned short": ("u", 2), "char": ("i", 1), "signed char": ("i", 1),
      "int16": ("i", 2), "uint8": ("u", 1), "int8": ("i", 1), "_Bool": ("u", 1), "bool": ("u", 1), "long long": ("i", 8),
      "unsigned long": ("u", 8), "int32_t": ("i", 4), "int16_t": ("i", 2), "uint32_t": ("u", 4), "uint8_t": ("u", 1), "uint16_t": ("u", 2)}


def np_fields(n):
    """numpy.dtype(...) term -> [(name, kind, dims)], align"""
    if not (n.op == "call" and n.args[0] == P.Node("glob", "numpy.dtype")):
        return None
    a, kw = n.args[1], dict(n.args[2])
    spec = a[0]
    if spec.op not in ("list", "tuple"):
        return None
    al = kw.get("align", a[1] if len(a) > 1 else P.FALSE)
    out = []
    for f in spec.args[0]:
        if f.op != "tuple":
            return None
        e = f.args[0]
        ty = e[1]
        kind = NP.get(ty.args[0]) if ty.op == "glob" else NPSTR.get(str(P.cval(ty)).lstrip("<=@")) if ty.op == "const" else None
        if kind is None:
            return None
        dims = []
        if len(e) > 2:
            s = e[2]
            dims = [P.cval(x) for x in s.args[0]] if s.op in ("tuple", "list") else [P.cval(s)]
        out.append((P.cval(e[0]), kind, dims))
    return out, bool(P.cval(al, False))


def layout(fields, align):
    off, mx, out = 0, 1, []
    for n, (k, w), dims in fields:
        if align:
            off = (off + w - 1) // w * w
            mx = max(mx, w)
        out.append((n, (k, w), dims, off))
        c = w
        for d in dims:
            c *= d
        off += c
    if align:
        off = (off + mx - 1) // mx * mx
    return out, off


def run(r):
    r.rule("np-native", "the NumPy dtype of every buffer passed for a native record pointer has the field names, order, element type, shape, offset and size of the C struct")
    r.rule("cy-native", "the Cython declaration of every native struct lists the same fields, order, types and dimensions as the header")
    r.rule("copy", "every other structured dtype in the package that shares a record's leading fields equals that record's layout")
    r.rule("pack", "every definition of the state pack tuple has the same fields in the same order, and its length constant matches")
    L = cfacts.record_layouts("output.h", STRUCTS)
    if sorted(L) != sorted(STRUCTS):
        raise Broken("structs missing from output.h: %s" % (set(STRUCTS) - set(L)))
    native = {}
    for s, (size, al, fl) in L.items():
        for f in fl:
            if f[1] not in CT:
                raise Broken("unknown C type %s in %s" % (f[1], s))
        native[s] = ([(n, CT[t], d, o) for n, t, d, o in fl], size)
    pkg = P.Package()
    cyname, cy = next(((n, m) for n, m in pkg.cy.items() if n.endswith("_colds_cython")), (None, None))
    if cy is None:
        raise Broken("no _colds_cython.pyx")
    # Cython declarations
    for s in STRUCTS:
        if s not in cy.structs:
            raise Broken("struct %s not declared in the pyx" % s)
        a = [(n, CT.get(t), d) for t, n, d in cy.structs[s]]
        b = [(n, k, d) for n, k, d, _ in native[s][0]]
        r.check(a == b, "cy-native", s, "Cython declares %s as %s, the header as %s" % (s, a, b), "src/python/pycold/_colds_cython.pyx")
    # dtype of the buffers at native call sites: pointer parameter type -> dtype term
    ext = cy.externs
    seen = {}
    for fn in ("_cold_detect", "_obcold_reconstruct", "_sccd_detect", "_sccd_update"):
        it = P.Interp(pkg).run(cyname + "." + fn)
        for e in it.events:
            if e.kind == "call" and e.f.op == "glob" and e.f.args[0] in ext:
                for i, (ct, an) in enumerate(ext[e.f.args[0]]):
                    st = ct.replace("*", "").strip()
                    if st in native and i < len(e.args):
                        found = False
                        for n in P.walk(e.args[i]):
                            f = np_fields(n) if n.op == "call" else None
                            if f:
                                found = True
                                seen.setdefault((fn, st), []).append((f, e.where()))
                        if not found and not P.contains(e.args[i], lambda x: P.gid(x).endswith("PyMem_Malloc") or P.gid(x) == ".copy"):
                            r.bad("np-native", "%s:%s:nodtype" % (fn, st), "buffer passed for %s has no structured dtype" % st, e.where())
    for (fn, st), fs in seen.items():
        for (f, al), w in fs:
            lay, size = layout(f, al)
            ok = lay == native[st][0] and size == native[st][1]
            diff = [x for x in zip(lay, native[st][0]) if x[0] != x[1]][:2]
            r.check(ok, "np-native", "%s:%s" % (fn, st),
                    "NumPy dtype handed to native %s differs: %s size %d vs %d" % (st, diff or "field count", size, native[st][1]), w)
    for fn, want in (("_cold_detect", {"Output_t"}), ("_obcold_reconstruct", {"Output_t"}),
                     ("_sccd_detect", set(STRUCTS[1:])), ("_sccd_update", {"Output_sccd", "output_nrtqueue", "output_nrtmodel"})):
        miss = want - {s for f, s in seen if f == fn}
        if miss:
            raise Broken("no dtype found for %s in %s" % (miss, fn))
    # all other structured dtypes in the package (module level or inside functions)
    ident = {s: {n for n, _, _, _ in native[s][0]} for s in STRUCTS}
    import ast
    for m in pkg.mods.values():
        for call in [c for c in ast.walk(m.tree) if isinstance(c, ast.Call)]:
            it = P.Interp(pkg)
            n = it.at_module(m, call) if isinstance(call.func, (ast.Attribute, ast.Name)) and (
                getattr(call.func, "attr", None) or getattr(call.func, "id", "")) == "dtype" else None
            f = np_fields(n) if n is not None else None
            if not f:
                continue
            names = {x[0] for x in f[0]}
            best = max(STRUCTS, key=lambda s: len(names & ident[s]) - 0.1 * len(names ^ ident[s]))
            if len(names & ident[best]) < 2:
                continue
            got = [(x[0], x[1], x[2]) for x in f[0]]
            want = [(a, b, c) for a, b, c, _ in native[best][0]]
            bad = [x for x in got if x not in want] + [x for x in want if x not in got]
            r.check(got == want, "copy", "%s:%s" % (m.name, best),
                    "dtype resembling %s in %s differs from the native record: %s" % (best, m.name, bad or "field order"),
                    "%s:%d" % (m.path, call.lineno))
    # records loaded from a stage's file and cast: the record the stage stored
    for method in ("COLD", "OBCOLD"):
        it = pipe.stage(pkg, "pycold.imagetool.export_change_map.main", method=method, coefs=None)
        done = set()
        for e in it.events:
            for t in list(e.args) + [v for _, v in e.kw]:
                for x in P.walk(t):
                    if x.op != "call" or x.id in done or not P.gid(x.args[0]).startswith("numpy.") or not x.args[1]:
                        continue
                    done.add(x.id)
                    k = dict(x.args[2]).get("dtype", x.args[1][1] if len(x.args[1]) > 1 else None)
                    f = np_fields(k) if k is not None and k.op == "call" else None
                    if f and P.contains(x.args[1][0], lambda q: P.gid(q) == "numpy.load"):
                        got = [(a, b, c) for a, b, c in f[0]]
                        want = [(a, b, c) for a, b, c, _ in native["Output_t"][0]]
                        r.check(got == want, "copy", "export_change_map:" + method, "%s records are read back as %s" % (method, [a for a, _, _ in got]), e.where())
    # the state pack tuple
    defs = {}
    for m in pkg.mods.values():
        for nm in m.assigns:
            if nm in ("SccdOutput", "SccdReccgPinpoint"):
                v = P.Interp(pkg).modvar(m, nm)
                if v.op == "ntclass":
                    defs.setdefault(nm, []).append((m, v.args[1]))
    ref = ("position", "rec_cg", "min_rmse", "nrt_mode", "nrt_model", "nrt_queue")
    for m, fl in defs.get("SccdOutput", []):
        r.check(fl == ref, "pack", m.name + ".SccdOutput", "state pack fields are %s" % (fl,), m.path)
    for rel, y in pkg.yaml.items():
        s = P.mk_sub(P.mk_sub(y, P.C("SCCD")), P.C("PACK_ITEM"))
        if s.op == "const":
            r.check(s.args[0] == len(ref), "pack", rel + ":PACK_ITEM", "PACK_ITEM is %r" % s.args[0], rel)
    for m in pkg.mods.values():
        if "PACK_ITEM" in m.assigns:
            v = P.Interp(pkg).modvar(m, "PACK_ITEM")
            r.check(P.cval(v) == len(ref), "pack", m.name + ".PACK_ITEM", "PACK_ITEM is %r" % v, m.path)
    r.floor("np-native", 9)
    r.floor("cy-native", 5)
    r.floor("copy", 5)
    r.floor("pack", 2)
    r.info["structs"] = {s: native[s][1] for s in STRUCTS}


main("C01", run, explanation="Record layouts extracted by clang from output.h, by Cython's parser from the .pyx and by value-numbering dataflow from the NumPy dtype expressions; compared field by field at every native call site and for every structured dtype in the package.")
