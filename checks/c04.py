"""C04 out-of-domain options and malformed arrays are refused before the native code."""
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pyq
from report import main, Broken

R, I, B = "real", "integral", "boolean"
# documented domains: (kind, low, low closed, high, high closed)
DOC = {"t_cg": (R, 0, False, None, False), "pos": (I, 0, False, None, False), "starting_date": (I, 0, True, None, False), "n_cm": (I, 0, True, None, False),
       "conse": (I, 0, False, 12, False), "b_output_cm": B, "cm_output_interval": (I, 0, True, None, False), "b_c2": B, "b_monitor_init": B,
       "gap_days": (R, 0, True, None, False), "b_pinpoint": B, "gate_tcg": (R, 0, False, None, False), "predictability_tcg": (R, 0, False, None, False),
       "dist_conse": (I, 0, False, 6, True), "t_cg_scale100": (R, 0, False, None, False), "t_cg_singleband_scale1000": (R, None, False, None, False),
       "t_angle_scale100": (I, 0, False, 18000, False), "transform_mode": B}
VAL = "pycold._param_validation."


def indoc(d, v):
    if d == B:
        return isinstance(v, (bool, int))
    k, lo, lc, hi, hc = d
    if k == I and not isinstance(v, int) or not isinstance(v, (int, float)) or v != v:
        return False
    lo, hi = (-math.inf if lo is None else lo), (math.inf if hi is None else hi)
    return (v > lo or (lc and v == lo)) and (v < hi or (hc and v == hi))


def cells(bounds):
    out = {math.nan, math.inf, -math.inf, 0, 1, -1, 0.5, -0.5, 1.5, 10 ** 9, -10 ** 9, 1e-9, -1e-9}
    for b in bounds:
        if b is not None:
            out |= {b, b - 1, b + 1, b + 0.5, b - 0.5, float(b), b + 1e-6, b - 1e-6}
    return sorted((v for v in out if v == v), key=float) + [math.nan, "abc", None, "1"]


KINDS = {"str": str, "int": int, "float": float, "bool": bool, "numbers.Real": (int, float), "numbers.Integral": int, "list": list, "tuple": tuple, "bytes": bytes}


def run(r):
    r.rule("bound", "every documented option is handed to the validator under its own name, unconditionally, before the native call")
    r.rule("domain", "the constraint of an option accepts no value outside the documented domain (decided over all order cells of the bounds)")
    r.rule("interval", "the interval constraint accepts exactly the numbers of its type between its bounds, by its closedness")
    r.rule("raise", "the validator raises whenever no constraint of a parameter is satisfied")
    r.rule("ndim", "with one array not one-dimensional the native call is not reached")
    r.rule("length", "with one array of another length the native call is not reached")
    pkg = P.Package()
    vfn = VAL + "validate_parameter_constraints"
    if pkg.resolve(vfn) is None:
        raise Broken("validator not found")
    # the interval decision procedure
    it = P.Interp(pkg)
    it.run(VAL + "Interval.__contains__")
    contains = it.ret
    it2 = P.Interp(pkg)
    it2.run(VAL + "Interval.is_satisfied_by")
    sat = it2.ret
    prm = lambda n: P.Node("param", n)

    def accepts(typ, lo, hi, closed, v):
        env = {prm("left"): lo, prm("right"): hi, prm("closed"): closed, prm("val"): v}

        def hook(x, go):
            if x.op == "call" and P.gid(x.args[0]) == "isinstance":
                k = KINDS.get(P.gid(x.args[1][1])) if x.args[1][1].op == "glob" else None
                return isinstance(go(x.args[1][0]), k or {"real": (int, float), "integral": int}[typ])
            if x.op == "cmp" and x.args[0] == "in" and x.args[2].op == "obj":
                return bool(pyq.ev(contains, env, hook))
            if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] == "__contains__":
                return bool(pyq.ev(contains, env, hook))
            return None
        return bool(pyq.ev(sat, env, hook))
    n = 0
    decidable = True
    for typ in (R, I):
        for lo, hi in ((0, None), (0, 12), (None, 5), (None, None), (-3, 3), (0.5, 2.5)):
            if typ == I and isinstance(lo, float):
                continue
            for cl in ("left", "right", "both", "neither"):
                want = (typ, lo, cl in ("left", "both"), hi, cl in ("right", "both"))
                for v in list(cells((lo, hi))) + ["1"]:
                    n += 1
                    try:
                        got = accepts(typ, lo, hi, cl, v)
                    except pyq.Unknown as ex:
                        r.undecided("interval", "unknown", str(ex))
                        decidable = False
                        break
                    r.check(got <= indoc(want, v), "interval", "%s[%s,%s]%s" % (typ, lo, hi, cl), "an interval %s over [%s,%s] closed=%s %s %r" % (typ, lo, hi, cl, "accepts" if got else "rejects", v), VAL + "Interval")
    r.info["interval_cells"] = n
    # the validator loop
    it = P.Interp(pkg)
    it.run(vfn)
    table, params = prm("parameter_constraints"), prm("params")
    raises = [e for e in it.events if e.kind == "raise" and e.fn == vfn and e.loops]
    if not r.check(bool(raises), "raise", "exists", "the validator never raises for an unsatisfied parameter", vfn):
        return
    ok = False
    for e in raises:
        okg = True
        for c, p in e.guards:
            has_sat = P.contains(c, lambda x: x.op in ("attr", "bound") and x.args[1] in ("is_satisfied_by",)) or P.contains(c, lambda x: x.op == "call" and P.gid(x.args[0]) in ("any", "all"))
            if c.op == "cmp" and c.args[0] == "in" and c.args[2] is table and p:
                continue
            if c.op == "cmp" and c.args[0] == "==" and any(P.is_const(y, "no_validation") for y in c.args[1:]) and not p:
                continue
            if has_sat or not P.contains(c, lambda x: x is table or x is params):
                continue
            if P.contains(c, lambda x: x.op == "attr" and x.args[1] in ("values", "items", "keys")) or P.contains(c, lambda x: x is params or x is table):
                # conditions on names or constraints that let a parameter through
                if c.op == "cmp" and c.args[0] in ("==", "in") and P.contains(c, lambda x: x.op == "const" and isinstance(x.args[0], (str, type(None)))):
                    okg = False
                    r.bad("raise", "skip", "the validator skips parameters when %s is %s" % (str(c)[:120], p), e.where())
        ok = ok or okg
    if ok:
        r.ok("raise", "unsatisfied", raises[0].where())
    for e in it.events:
        if e.kind == "break" and e.fn == vfn and len(e.loops) >= 2:
            own = [c for c, p in e.guards if not (c.op == "cmp" and (c.args[2] is table or any(P.is_const(y, "no_validation") for y in c.args[1:])))]
            r.check(bool(own), "raise", "break", "the validator accepts a parameter without asking its constraint", e.where())
            for val in (None, "x", 0, True):
                for ln in (1, 2):
                    def hook(x, go):
                        if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] == "is_satisfied_by" or x.op == "call" and P.gid(x.args[0]) and P.gid(x.args[0]).endswith(".is_satisfied_by"):
                            return False
                        if x.op == "call" and P.gid(x.args[0]) == "len":
                            return ln
                        return None
                    env = {x: val for c, p in e.guards for x in P.walk(c) if x.op == "sub" and P.is_const(x.args[1], 1) and P.contains(x.args[0], lambda y: y.op == "attr" and y.args[1] == "items")}
                    asked = [g for g in e.guards if P.contains(g[0], lambda x: x.op in ("attr", "bound") and x.args[1] == "is_satisfied_by")]
                    if not asked:
                        continue
                    r.check(pyq.holds(asked, env, hook) is not True, "raise", "break:%r" % (val,), "the validator accepts %r although no constraint is satisfied by it" % (val,), e.where())
    # every public function
    for api in list(pyq.API) + ["sccd_identify"]:
        dotted = "pycold.colds." + api
        it = P.Interp(pkg).run(dotted)
        nat = [e for e, _ in pyq.native(pkg, it)]
        first = min([e.idx for e in nat], default=None)
        if api != "sccd_identify" and first is None:
            raise Broken("no native call in " + api)
        ent = [e for e in it.events if e.kind == "enter" and P.gid(e.f) in (vfn,) or (e.kind == "enter" and str(e.f.args[0]) == vfn)]
        tabs = []
        for e in ent:
            a = dict(zip(("parameter_constraints", "params", "caller_name"), e.args))
            a.update(dict(e.kw))
            t, pr = a.get("parameter_constraints"), a.get("params")
            if t is None or pr is None or t.op != "dict" or pr.op != "dict":
                r.undecided("bound", api, "table or parameter dictionary not a literal", e.where())
                continue
            tabs.append((e, {P.cval(k): v for k, v in t.args[0]}, {P.cval(k): v for k, v in pr.args[0]}))
        if ent and not tabs:
            continue
        for p in pyq.params_of(pkg, dotted):
            if p not in DOC:
                continue
            got = [(e, t) for e, t, pr in tabs if p in pr and pyq.strip(pr[p]) is prm(p)]
            if not r.check(bool(got), "bound", "%s:%s" % (api, p), "%s never validates %s" % (api, p), dotted):
                continue
            e, t = got[0]
            r.check(not e.guards and not e.trys and (first is None or e.idx < first), "bound", "%s:%s:always" % (api, p), "%s validates %s only under a condition" % (api, p), e.where())
            if not r.check(p in t, "domain", "%s:%s" % (api, p), "no constraint is registered for %s, so any value passes" % p, "pycold/colds.py"):
                continue
            cons = t[p]
            if cons.op not in ("list", "tuple", "set"):
                r.check(not P.is_const(cons, "no_validation"), "domain", "%s:%s" % (api, p), "%s is exempt from validation" % p, "pycold/colds.py")
                continue
            wrong, unk = [], False
            for c in cons.args[0]:
                if c.op == "obj" and c.args[0].endswith(".Interval") and c in pkg.objargs:
                    a, kw = pkg.objargs[c]
                    m = dict(zip(("type", "left", "right", "closed"), a))
                    m.update(dict(kw))
                    ty = str(m["type"].args[0]).split(".")[-1].lower() if m["type"].op == "glob" else "?"
                    lo, hi, cl = (P.cval(m[k]) for k in ("left", "right", "closed"))
                    if ty not in (R, I):
                        wrong.append("type %s" % ty)
                        continue
                    for v in cells((lo, hi) + ((DOC[p][1], DOC[p][3]) if DOC[p] != B else ())):
                        acc = indoc((ty, lo, cl in ("left", "both"), hi, cl in ("right", "both")), v)
                        if acc and not indoc(DOC[p], v):
                            wrong.append(repr(v))
                elif P.is_const(c, "boolean"):
                    if DOC[p] != B and DOC[p][0] != I:
                        wrong.append("any boolean")
                    elif DOC[p] != B and not (indoc(DOC[p], 0) and indoc(DOC[p], 1)):
                        wrong.append("any boolean")
                elif c.op == "const" or c.op == "glob":
                    nm = P.cval(c, c.args[0])
                    if nm is None or nm in ("verbose", "array-like", "random_state", "missing_values", "callable", "str", "object", "float", "int", "complex"):
                        wrong.append("constraint %r" % nm)
                else:
                    unk = True
            if unk:
                r.undecided("domain", "%s:%s" % (api, p), repr(cons)[:150])
            r.check(not wrong, "domain", "%s:%s" % (api, p), "the constraint of %s accepts %s, outside its documented domain" % (p, ", ".join(wrong[:4])), "pycold/colds.py")
        if api == "sccd_identify":
            continue
        arrs = pyq.ARRS + (["break_dates"] if api == "obcold_reconstruct" else [])
        base = {prm(a): pyq.Arr(50) for a in arrs}
        if api == "obcold_reconstruct":
            base[prm("break_dates")] = pyq.Arr(3)
        for e in nat:
            if pyq.blocked(it, e, base, pyq.shape_hook):
                r.undecided("ndim", api, "the well-formed shapes are refused by the evaluated guards", e.where())
                continue
            for a in arrs:
                for shp in ((50, 1), (1, 50), (50, 50)):
                    env = dict(base)
                    env[prm(a)] = pyq.Arr(*shp)
                    r.check(pyq.blocked(it, e, env, pyq.shape_hook), "ndim", "%s:%s" % (api, a), "%s reaches the native code with %s of shape %s" % (api, a, shp), e.where())
            for a in pyq.ARRS:
                for ln in (49, 51, 1, 0):
                    env = dict(base)
                    env[prm(a)] = pyq.Arr(ln)
                    r.check(pyq.blocked(it, e, env, pyq.shape_hook), "length", "%s:%s" % (api, a), "%s reaches the native code with %s of length %d and 50 dates" % (api, a, ln), e.where())
    # the boolean constraint
    mk = P.Interp(pkg)
    mk.run(VAL + "make_constraint")
    boo = [o for o in pkg.objargs if o.args[0] == VAL + "_Booleans"]
    inst = {str(a[0].args[0]).split(".")[-1] for o, (a, k) in pkg.objargs.items() if o.args[0] == VAL + "_InstancesOf" and a and a[0].op == "glob"}
    bit = P.Interp(pkg)
    bit.run(VAL + "_Booleans.__init__")
    tys = set()
    for (o, at), v in bit.final.heap.items():
        if v.op in ("list", "tuple"):
            for c in v.args[0]:
                if c.op == "obj" and c in pkg.objargs and pkg.objargs[c][0]:
                    tys.add(str(pkg.objargs[c][0][0].args[0]).split(".")[-1])
    r.check(tys <= {"bool", "bool_", "Integral", "int"}, "domain", "boolean", "the boolean constraint accepts %s" % sorted(tys), VAL + "_Booleans")
    r.floor("bound", 40)
    r.floor("domain", 25)


main("C04", run, explanation="Validator entry events and native-call guards from interprocedural value numbering; constraint objects decided over the order cells of their bounds; guards and raises evaluated over abstract array shapes.")
