"""C03 every argument of the pixel API reaches the native detector unchanged, under its own meaning."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import pyflow as P
import pyq
from report import main, Broken

# position-independent meaning of every native scalar/array parameter, from the C declarations' own names
MEANING = {"buf_b": "ts_b", "buf_g": "ts_g", "buf_r": "ts_r", "buf_n": "ts_n", "buf_s1": "ts_s1", "buf_s2": "ts_s2", "buf_t": "ts_t",
           "fmask_buf": "qas", "valid_date_array": "dates", "pos": "pos", "tcg": "t_cg", "conse": "conse", "b_output_cm": "b_output_cm",
           "b_outputCM": "b_output_cm", "starting_date": "starting_date", "b_c2": "b_c2", "cm_output_interval": "cm_output_interval",
           "CM_OUTPUT_INTERVAL": "cm_output_interval", "gap_days": "gap_days", "break_dates": "break_dates", "b_pinpoint": "b_pinpoint",
           "gate_tcg": "gate_tcg", "predictability_tcg": "predictability_tcg"}
COUNT = {"valid_num_scenes": pyq.ARRS, "break_date_len": ["break_dates"]}
DEFAULTED = {"starting_date", "cm_output_interval"}


def same(n, name, api_params):
    """n is the user's value of `name`; a 0 may be replaced by the documented default"""
    n = pyq.strip(n)
    p = P.Node("param", name)
    if n is p or (n.op == "phi" and pyq.alts(n) == [p]):
        return True
    if name in DEFAULTED and n.op == "phi":
        a, b = n.args[1], n.args[2]
        conds = [x for x in P.walk(n.args[0])]
        if all(x.op in ("cmp", "const", "param", "not", "and") for x in conds):
            # on the branch where the value is non-zero it is the user's value
            z = n.args[0]
            if z.op == "cmp" and z.args[0] == "==" and p in z.args[1:] and P.C(0) in z.args[1:]:
                return same(b, name, api_params)
            bo = P.Node("param", "b_output_cm")
            if bo in conds:
                return same(a, name, api_params) and same(b, name, api_params)
    return False


NARROW = {"int8", "int16", "int32", "uint8", "uint16", "uint32", "byte", "ubyte", "short", "ushort", "intc", "uintc", "float16", "float32", "half", "single", "bool", "bool_",
          "i1", "i2", "i4", "u1", "u2", "u4", "f2", "f4", "b", "h", "i", "B", "H", "I", "e", "f", "?"}
WHOLE = {"int", "round", "numpy.int64", "numpy.int32", "numpy.int16", "math.floor", "math.ceil", "math.trunc", "numpy.floor", "numpy.ceil", "numpy.rint", "numpy.round", "numpy.trunc", "bool"}


def dtype_of(d):
    """short name of a dtype term"""
    if d.op == "const" and isinstance(d.args[0], str):
        v = P.cval(d, d.args[0])
        return str(v).lstrip("<=>|")
    g = P.gid(d)
    if g == "numpy.dtype" or d.op == "call" and P.gid(d.args[0]) == "numpy.dtype" and d.args[1]:
        return dtype_of(d.args[1][0])
    return g.split(".")[-1] if g else None


def lossy(n, floating):
    """conversion on the way of a value that may change it, or None"""
    for x in P.walk(n):
        if x.op != "call":
            continue
        kw = dict(x.args[2]) if len(x.args) > 2 else {}
        d = None
        if x.args[0].op == "attr" and x.args[0].args[1] in ("astype", "view"):
            d = kw.get("dtype") or (x.args[1][0] if x.args[1] else None)
        elif P.gid(x.args[0]) in ("numpy.asarray", "numpy.array", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.require"):
            d = kw.get("dtype") or (x.args[1][1] if len(x.args[1]) > 1 else None)
        elif floating and P.gid(x.args[0]) in WHOLE:
            return P.gid(x.args[0])
        elif (P.gid(x.args[0]) or "").startswith("numpy.") and P.gid(x.args[0]).split(".")[-1] in NARROW:
            return P.gid(x.args[0])
        if d is not None and dtype_of(d) in NARROW:
            return "conversion to " + dtype_of(d)
    return None


def length_of(n):
    """the array whose number of elements n is"""
    if n.op == "sub" and P.is_const(n.args[1], 0) and n.args[0].op == "attr" and n.args[0].args[1] == "shape":
        return n.args[0].args[0]
    if n.op == "call" and P.gid(n.args[0]) == "len":
        return n.args[1][0]
    if n.op == "attr" and n.args[1] == "size":
        return n.args[0]
    return None


def run(r):
    r.rule("forward", "the term passed for a native parameter is the API parameter of that meaning (through dtype conversion, views and address-of only)")
    r.rule("count", "the length handed to the native code is the length of the observation arrays")
    r.rule("prototype", "the Cython declaration of a native entry point lists the same parameter meanings and types as the C header")
    r.rule("width", "no conversion between the user and the native code narrows an array or a number")
    r.rule("used", "every scalar or array parameter of a pixel API function reaches the native call")
    pkg = P.Package()
    cyname, cy = next(iter(pkg.cy.items()))
    # declarations against the headers
    protos = {}
    for h, fns in (("cold.h", ["cold", "obcold_reconstruction_procedure"]), ("s_ccd.h", ["sccd"])):
        protos.update(cfacts.prototypes(h, fns))
    norm = lambda t: t.replace(" int", "").replace("short", "short").replace("_Bool", "bool").replace(" ", "").replace("struct", "")
    for fn, args in sorted(cy.externs.items()):
        if fn not in protos:
            continue
        cargs = protos[fn]
        if not r.check(len(cargs) == len(args), "prototype", fn + ":arity", "%s declared with %d parameters, header has %d" % (fn, len(args), len(cargs)), "cold.h/s_ccd.h"):
            continue
        for i, ((ct, cn), (ht, hn)) in enumerate(zip(args, cargs)):
            tn = norm(ct) == norm(ht)
            # parameter names, where both sides give one, must carry the same meaning
            m1, m2 = MEANING.get(cn, cn).lower(), MEANING.get(hn, hn).lower()
            known = cn in MEANING and hn in MEANING
            r.check(tn and (not known or m1 == m2), "prototype", "%s:%d" % (fn, i),
                    "parameter %d of %s is '%s %s' in Cython, '%s %s' in the header" % (i, fn, ct, cn, ht, hn), "src/cxx")
    for api in pyq.API:
        ps = pyq.params_of(pkg, "pycold.colds." + api)
        it, calls = pyq.api_call(pkg, api)
        for e, sig in calls:
            hdr = protos[e.f.args[0]]
            reached = set()
            for i, (ct, cn) in enumerate(sig):
                if i >= len(e.args):
                    r.bad("forward", "%s:%s" % (api, cn), "native argument missing", e.where())
                    continue
                a = e.args[i]
                # the header's name decides the meaning
                name = MEANING.get(hdr[i][1] if i < len(hdr) and hdr[i][1] in MEANING else cn)
                key = cn
                if cn in COUNT or (i < len(hdr) and hdr[i][1] in COUNT):
                    arrs = COUNT.get(cn) or COUNT[hdr[i][1]]
                    n = a
                    al = []
                    for v in pyq.alts(n):
                        b = length_of(v)
                        al += pyq.alts(b) if b is not None else [None]
                    r.check(bool(al) and all(b is not None and b.op == "param" and b.args[0] in arrs for b in al), "count", "%s:%s" % (api, cn),
                            "length passed for %s is %r" % (cn, a), e.where())
                    continue
                if name is None:
                    continue
                if name not in ps:
                    # an option this API does not expose must be a constant
                    r.check(pyq.strip(a).op == "const", "forward", "%s:%s" % (api, key), "%s passes %r for %s" % (api, a, cn), e.where())
                    continue
                if r.check(same(a, name, ps), "forward", "%s:%s" % (api, key),
                           "%s passes %s for native parameter '%s' (expected the value of '%s')" % (api, repr(pyq.strip(a))[:120], cn, name), e.where()):
                    reached.add(name)
                    low = lossy(a, "double" in ct or "float" in ct) if "bool" not in ct else None
                    r.check(low is None, "width", "%s:%s" % (api, key), "%s changes large or fractional values of %s on the way: %s" % (api, name, low), e.where())
            need = {MEANING.get(cn, cn): ct for ct, cn in sig}
            for ct, nm in next(iter(pkg.cy.values())).func_args.get("_" + api, ()):
                w = need.get(MEANING.get(nm, nm))
                if w is None or "*" in w or "ndarray" in ct:
                    continue
                ok = ct in ("object", "") or ("double" in ct or "long double" in ct if w == "double" else
                                              ct in ("bint", "bool", "int", "long") if w in ("bool", "bint", "_Bool") else
                                              ("int" in ct or "long" in ct or ct == "Py_ssize_t") and "bint" not in ct and "short" not in ct and "unsigned" not in ct)
                r.check(ok, "width", "%s:%s:type" % (api, nm), "%s takes %s as %s, the native code as %s" % (api, nm, ct, w), e.where())
            if api.startswith("sccd") and "pos" in ps:
                for c, vals in pyq.records(it, "SccdOutput"):
                    if r.check("position" in vals and same(vals["position"], "pos", ps), "forward", "%s:position" % api,
                               "the pack returned by %s does not carry the pixel's position" % api, c.where()):
                        reached.add("pos")
            for p in ps:
                if p in ("sccd_pack", "n_cm", "b_monitor_init"):
                    continue
                r.check(p in reached, "used", "%s:%s" % (api, p), "parameter %s of %s never reaches the native detector" % (p, api), e.where())
    r.floor("forward", 55)
    r.floor("count", 5)
    r.floor("prototype", 55)
    r.floor("used", 55)
    r.floor("width", 70)


main("C03", run, explanation="Whole-package gated value numbering from each public pixel function through validation and the Cython layer to the native call; the term reaching each native parameter is compared with the API parameter of that meaning, and the Cython prototypes with the C headers (clang).")
