"""C02 capacities, codes and scales shared by Python and C."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import cflow
import nrtstate
import pyflow as P
import pyq
from llir import Ins
from report import main, Broken
from worlds import affine

# native pointer parameter -> (C capacity macro, why)
CAP = {"cold": {"rec_cg": "NUM_FC"}, "obcold_reconstruction_procedure": {"rec_cg": "NUM_FC"},
       "sccd": {"rec_cg": "NUM_FC", "nrt_queue": "MAX_OBS_QUEUE", "nrt_model": 1, "min_rmse": "TOTAL_IMAGE_BANDS_SCCD", "rec_cg_pinpoint": "NUM_FC"}}
YAML = [("COMMON", "JULIAN_LANDSAT4_LAUNCH", "ORDINAL_LANDSAT4_LAUNCH"), ("COMMON", "SLOPE_SCALE", "SLOPE_SCALE"), ("COMMON", "NAN_VAL", "NA_VALUE"),
        ("SCCD", "NRT_VOID", "NRT_VOID"), ("SCCD", "NRT_MONITOR_STANDARD", "NRT_MONITOR_STANDARD"), ("SCCD", "NRT_QUEUE_STANDARD", "NRT_QUEUE_STANDARD"),
        ("SCCD", "NRT_MONITOR_SNOW", "NRT_MONITOR_SNOW"), ("SCCD", "NRT_QUEUE_SNOW", "NRT_QUEUE_SNOW"), ("SCCD", "NRT_MONITOR2QUEUE", "NRT_MONITOR2QUEUE"),
        ("SCCD", "NRT_BAND", "TOTAL_IMAGE_BANDS_SCCD")]


def elements(n):
    """number of elements of a freshly made 1-d array term, None if not fresh/constant"""
    n = pyq.strip(n)
    if n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
        s = n.args[1][0] if n.args[1] else dict(n.args[2]).get("shape")
        if s is not None and s.op in ("tuple", "list") and len(s.args[0]) == 1:
            s = s.args[0][0]
        return P.cval(s) if s is not None else None
    return None


def native(r, epoch, delay):
    """every day number the native code stores in 16 bits has lost the epoch, every one it reads from the state gets it back"""
    x = nrtstate.load()
    if x is None:
        raise Broken("sccd has other parameters than the Cython declaration")
    m, f, arg, lay = x
    path = nrtstate.Paths(m)
    date = lambda v: abs(abs(v) - 725000) < 10000
    n = 0
    for g in cflow.own(m).values():
        for i in g.instrs():
            if i.op == "store" and isinstance(i.ops[0], Ins) and i.ops[0].ty == "i16":
                seen, st = set(), [i.ops[0]]
                while st:
                    v = st.pop()
                    if v in seen or not isinstance(v, Ins):
                        continue
                    seen.add(v)
                    if v.op in ("phi", "select") + nrtstate.CASTS:
                        st += v.ops[1:] if v.op == "select" else v.ops
                        continue
                    a = affine(v)
                    c = (a or {}).get(None, 0)
                    if a and date(c):
                        n += 1
                        r.check(c % 65536 == -epoch % 65536, "offset", "native:%s:stored" % g.name, "a day number is stored with offset %d, the epoch is %d" % (c, epoch), i.where())
    size = lay["output_nrtqueue"][0]
    for i in f.instrs():
        if i.op != "load" or i.ty != "i16":
            continue
        b, lv = path.path(i.ops[0])
        if len(lv) != 1 or b not in (arg["nrt_model"], arg["nrt_queue"]):
            continue
        un = nrtstate.units(lay["output_nrtmodel" if b is arg["nrt_model"] else "output_nrtqueue"])
        c0 = dict(lv[0]).get(None, 0)
        name = un.get(c0 if b is arg["nrt_model"] else c0 % size, ("",))[0]
        if not name.endswith("since1982"):
            continue
        # the sums the value ends in
        tops, st, seen = [], [i], set()
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in v.users:
                if u.op in ("sext", "zext", "trunc", "freeze") or u.op in ("add", "sub") and affine(u) is not None:
                    st.append(u)
                elif u.op == "icmp":
                    # a comparison of two sums is one sum against zero
                    d, sign = {}, 1
                    for o in u.ops:
                        for k, c in (affine(o) or {None: 0} if isinstance(o, Ins) else {None: o.v}).items():
                            d[k] = d.get(k, 0) + sign * c
                        sign = -1
                    if date(d.get(None, 0)) or sum(1 for k, c in d.items() if k is not None and c) > 1:
                        tops.append((d, u))
                else:
                    a = affine(v)
                    if a is not None:
                        tops.append((a, u))
        for a, u in tops:
            k = [c for v, c in a.items() if v is not None and nrtstate.core(v) is i]
            if len(k) != 1 or k[0] == 0:
                continue
            n += 1
            c = a.get(None, 0)
            raw = c == 0 and (u.op in ("phi", "select") or u.op == "store" and u.ops[0].ty == "i16")
            own = c - k[0] * epoch
            r.check(raw or own == 0 or u.op == "icmp" and ((abs(own) < 10000 if delay is None else abs(abs(own) - delay) < 2)), "offset", "native:sccd:" + name, "%s is used with offset %d, the epoch is %d" % (name, c * k[0], epoch), u.where())
    if n < 8:
        raise Broken("only %d native day numbers found" % n)


def run(r):
    r.rule("capacity", "the array passed for a native output buffer has at least the native capacity")
    r.rule("window", "for every window length above the native tail length some guard of the native call is false")
    r.rule("constant", "configuration constant equals the native macro")
    r.rule("default", "default window of the S-CCD functions is the window Python decodes the model tail with")
    r.rule("offset", "a stored since-1982 day number is used only after adding the native epoch")
    r.rule("fill", "the fill value Python pre-fills native outputs with is the native NA value")
    r.rule("pack", "the number of pack items Python reads and writes is the number of fields of the pack")
    raw = cfacts.macros(["cold.h", "s_ccd.h", "output.h", "defines.h", "const.h"])
    mac = lambda n: n if isinstance(n, int) else cfacts.macro_value(raw, n)
    for need in ("NUM_FC", "MAX_OBS_QUEUE", "DEFAULT_CONSE_SCCD", "ORDINAL_LANDSAT4_LAUNCH", "SLOPE_SCALE", "NA_VALUE"):
        if mac(need) is None:
            raise Broken("macro %s not found in the C headers" % need)
    pkg = P.Package()
    tail = mac("DEFAULT_CONSE_SCCD")
    epoch = mac("ORDINAL_LANDSAT4_LAUNCH")
    for api, cfn in pyq.API.items():
        it, calls = pyq.api_call(pkg, api)
        for e, sig in calls:
            args = {cn: a for (ct, cn), a in zip(sig, e.args)}
            for cn, cap in CAP.get(cfn, {}).items():
                if cn not in args:
                    raise Broken("%s has no parameter %s" % (cfn, cn))
                need = mac(cap)
                al = pyq.alts(args[cn])
                sizes = [elements(x) for x in al]
                if cn == "rec_cg_pinpoint" and P.is_const(pyq.strip(args.get("b_pinpoint", P.NONE)), False):
                    need = 1
                if any(s is None for s in sizes) and cn in ("nrt_model", "min_rmse"):
                    # a restored part of the pack: its size is the layout's (C01)
                    ok = all(s is not None and s >= need for s in sizes if s is not None)
                    r.check(ok, "capacity", "%s:%s" % (api, cn), "buffer for %s has %s elements, native code needs %s" % (cn, sizes, need), e.where())
                    continue
                if any(s is None for s in sizes):
                    r.undecided("capacity", "%s:%s" % (api, cn), repr(al)[:200], e.where())
                    continue
                r.check(all(s >= need for s in sizes), "capacity", "%s:%s" % (api, cn),
                        "buffer passed for %s holds %s records, the native code writes up to %s" % (cn, sizes, need), e.where())
            for k in ("cm_outputs", "cm_outputs_date"):
                if k in args:
                    for x in pyq.alts(args[k]):
                        if x.op == "call" and P.gid(x.args[0]) == "numpy.full":
                            r.check(P.cval(x.args[1][1] if len(x.args[1]) > 1 else dict(x.args[2]).get("fill_value", P.NONE)) == mac("NA_VALUE"), "fill", "%s:%s" % (api, k),
                                    "%s is pre-filled with %r, native NA is %s" % (k, x.args[1][1:], mac("NA_VALUE")), e.where())
            if cfn == "sccd":
                p = P.Node("param", "conse")
                for k in range(tail + 1, tail + 8):
                    blocked = False
                    for c, pol in e.guards:
                        try:
                            if bool(pyq.ev(c, {p: k})) != pol:
                                blocked = True
                                break
                        except (pyq.Unknown, TypeError, KeyError, IndexError, ZeroDivisionError):
                            continue
                    r.check(blocked, "window", "%s:conse=%d" % (api, k), "%s runs the native detector with conse=%d, the native arrays hold %d" % (api, k, tail), e.where())
        if api.startswith("sccd"):
            for e, vals in pyq.records(it, "SccdOutput"):
                r.ok("pack", api, e.where())
    # configuration
    y = {}
    for path, doc in pkg.yaml.items():
        doc = P.to_py(doc)
        if isinstance(doc, dict) and "SCCD" in doc:
            y = doc
            yp = path
    if not y:
        raise Broken("constants.yaml not found")
    for sec, key, m in YAML:
        if key not in y.get(sec, {}):
            continue
        r.check(y[sec][key] == mac(m), "constant", "%s.%s" % (sec, key), "%s.%s is %s, native %s is %s" % (sec, key, y[sec][key], m, mac(m)), yp)
    r.floor("constant", 6)
    # default window
    for api in ("sccd_detect", "sccd_update"):
        a = pkg.resolve("pycold.colds." + api)[1].node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        i = names.index("conse") - (len(names) - len(a.defaults))
        dv = getattr(a.defaults[i], "value", None) if i >= 0 else None
        if "DEFAULT_CONSE" in y.get("SCCD", {}):
            r.check(dv == y["SCCD"]["DEFAULT_CONSE"], "default", api, "default conse of %s is %s, the tail is decoded with %s" % (api, dv, y["SCCD"]["DEFAULT_CONSE"]), "colds.py")
    # pack items
    cls = {len(e.f.args[1]) for api in ("sccd_detect",) for e, v in pyq.records(pyq.api_call(pkg, api)[0], "SccdOutput")}
    if "PACK_ITEM" in y.get("SCCD", {}):
        r.check(cls == {y["SCCD"]["PACK_ITEM"]}, "pack", "PACK_ITEM", "pack has %s fields, PACK_ITEM is %s" % (cls, y["SCCD"]["PACK_ITEM"]), yp)
    # epoch
    fns = ["pycold.colds.sccd_identify"]
    for mod, fn in sorted(pkg.all_functions()):
        fns.append(mod + "." + fn)
    seen = set()
    ndate = 0
    for f in fns:
        if f in seen:
            continue
        seen.add(f)
        node = pkg.resolve(f)
        if node is None or node[0] != "func":
            continue
        src = P.ast.dump(node[1].node)
        lits = [x.value for x in P.ast.walk(node[1].node) if isinstance(x, P.ast.Constant) and isinstance(x.value, int) and not isinstance(x.value, bool) and 715000 < x.value < 735000]
        for v in lits:
            r.check(v == epoch, "offset", f + ":literal", "day offset %d in %s, the native epoch is %d" % (v, f, epoch), f)
        if "since1982" not in src:
            continue
        it = P.Interp(pkg)
        it.run(f)
        terms = [it.ret] if it.ret is not None else []
        for e in it.events:
            terms += [a for a in e.args if isinstance(a, P.Node)]
        polys, reads = set(), set()
        for t in terms:
            for x in P.walk(t):
                if x.op == "poly":
                    polys.add(x)
        def is_read(x):
            while x.op == "sub":
                if isinstance(P.cval(x.args[1]), str) and P.cval(x.args[1]).endswith("since1982"):
                    return True
                x = x.args[0]
            return False
        good, bad = set(), []
        for p in polys:
            coef = {tuple(sorted(y.id for y in m)): c for m, c in p.args[0]}
            todo = {}
            for m, c in p.args[0]:
                rd = [y for y in m if is_read(y)]
                if len(rd) != 1:
                    continue
                good.add(rd[0].id)
                rest = tuple(sorted(y.id for y in m if y is not rd[0]))
                todo[rest] = todo.get(rest, 0) + c
            for rest, c in todo.items():
                if abs(c) < 1e-12:          # a difference of two stored days
                    continue
                ndate += 1
                got = coef.get(rest, 0) / c
                r.check(abs(got - epoch) < 1e-6 * epoch, "offset", f + ":since1982",
                        "%s uses a stored day number with offset %s, the native epoch is %d" % (f, got, epoch), f)
        for t in terms:
            tops = list(t.args[0]) if t.op == "tuple" else [t]
            for x in tops:
                x = pyq.strip(x)
                if x.op == "sub" and is_read(x) and P.cval(x.args[1]) is None or (x.op == "sub" and isinstance(P.cval(x.args[1]), int) and is_read(x.args[0])):
                    if x.id not in good and t is it.ret:
                        r.bad("offset", f + ":raw", "%s returns a stored day number without the epoch" % f, f)
    if not ndate:
        raise Broken("no since-1982 day number is decoded anywhere")
    native(r, epoch, mac("STATUS_DELEY_DAYS"))
    r.floor("capacity", 10)
    r.floor("window", 14)


main("C02", run, explanation="C macros from the preprocessor; buffer sizes, window guards and epoch offsets from value-numbered terms at the native call sites and in every function reading stored day numbers.")
