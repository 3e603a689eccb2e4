"""C14 change magnitudes, angles and sums narrowed to integer output fields are saturated, never wrapped or undefined."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import cflow
import nums
import paths
import pyflow as P
import ranges
from cflow import root
from llir import Ins
from report import main, Broken

# argument -> (record, fields); None: every element
OUT = {"cold": {"cm_outputs": None}, "sccd": {"nrt_model": ("output_nrtmodel", ("norm_cm", "cm_angle")), "rec_cg_pinpoint": ("Output_sccd_pinpoint", ("norm_cm", "cm_angle"))}}
# argument -> (record, fields) kept as 32-bit unsigned sums
SUM = {"sccd": {"nrt_model": ("output_nrtmodel", ("rmse_sum",))}}
LIMIT = {"i16": 32768, "i32": 1 << 32}


def offset(m, p):
    c = 0
    while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
        if p.op == "gep":
            c += m.gep_offset(p)[0]
        p = p.ops[0]
    return c


def extent(lay):
    """{field: (offset, size)}"""
    fl = lay[2]
    return {n: (o, (fl[k + 1][3] if k + 1 < len(fl) else lay[0]) - o) for k, (n, t, d, o) in enumerate(fl)}


def sources(m, f, v, out, seen, ty="i16"):
    """the conversions to the field's type a stored value comes from"""
    if v in seen:
        return
    seen.add(v)
    if not isinstance(v, Ins):
        return
    if v.op in ("fptosi", "fptoui", "trunc") and v.ty == ty:
        w = v.ops[0]
        if v.op == "trunc" and isinstance(w, Ins) and w.op in ("sext", "zext") and w.ops[0].ty == ty:
            return sources(m, f, w.ops[0], out, seen, ty)
        out.add(v)
    elif v.op in ("phi", "select", "freeze"):
        for o in v.ops[1 if v.op == "select" else 0:]:
            sources(m, f, o, out, seen, ty)
    elif v.op == "load":
        r = root(v.ops[0])
        if isinstance(r, Ins) and r.op == "alloca" or r.k == "arg":
            for i in f.instrs():
                if i.op == "store" and i.ops[0].ty == ty and root(i.ops[1]) is r:
                    if r.k != "arg" or offset(m, i.ops[1]) == offset(m, v.ops[0]):
                        sources(m, f, i.ops[0], out, seen, ty)
    elif v.op in ("add", "sub", "mul"):
        out.add(v)                      # 16-bit arithmetic: must be shown not to wrap


def unsigned(g):
    return g if g[0] >= 0 else (0, (1 << 32) - 1)


def narrowing(r, m, f, name, cn, lay, outs, ty, rule):
    sites = {}
    stores = 0
    for arg, what in outs.items():
        a = f.args[cn.index(arg)]
        for i in f.instrs():
            if i.op != "store" or root(i.ops[1]) is not a:
                continue
            field = arg
            if what is not None:
                size, fields = lay[what[0]][0], extent(lay[what[0]])
                o = offset(m, i.ops[1]) % size
                hit = [n for n in what[1] if fields[n][0] <= o < fields[n][0] + fields[n][1]]
                if not hit:
                    continue
                field = "%s.%s" % (arg, hit[0])
            stores += 1
            out = set()
            sources(m, f, i.ops[0], out, set(), ty)
            for s in out:
                sites.setdefault(s, set()).add(field)
    if not stores:
        raise Broken("%s writes no %s" % (name, ", ".join(outs)))
    cells = {}
    for i in f.bbs[0].ins:
        if i.op == "alloca":
            c = (i, 0)
            us = [u for u in f.instrs() if u.op in ("load", "store") and u.ops[-1] is i]
            tys = {(u.ty if u.op == "load" else u.ops[0].ty) for u in us}
            if len(tys) == 1 and (tys & set(ranges.FLOATS) or next(iter(tys)) in ("i32", "i64", "i16")):
                cells[c] = ranges.full(next(iter(tys)))
    rel = ranges.relevant(f, m, [o for s in sites for o in s.ops], set(cells), floats=True)
    rel |= set(sites)
    th = {0, 1, 32767, 32768, 18000, 999999, (1 << 32) - 1}
    d = ranges.Ranges(m, f, rel, cells, th)
    fl = paths.Flow(f, track=False)
    fl.solve(d, init=d.start())
    seen = {}

    def look(s, i):
        if i in sites:
            if i.op in ("fptosi", "fptoui", "trunc"):
                g = d.get(s, i.ops[0])
            else:
                x, y = d.get(s, i.ops[0]), d.get(s, i.ops[1])
                if ty == "i32":
                    x, y = unsigned(x), unsigned(y)
                c = [p * q for p in x for q in y]
                g = {"add": (x[0] + y[0], x[1] + y[1]), "sub": (x[0] - y[1], x[1] - y[0]), "mul": (min(c), max(c))}[i.op]
            o = seen.get(i)
            seen[i] = (min(g[0], o[0]), max(g[1], o[1])) if o else g
    d.on_step = look
    for b, tab in fl.states.items():
        for k, st in tab.items():
            s = d.copy(st)
            for i in b.ins:
                if i.op != "phi":
                    s = d.step(s, i, {}, fl)
    for i, fields in sites.items():
        if i not in seen:
            r.undecided(rule, "%s:%s" % (name, "+".join(sorted(fields))), "conversion not reached by the analysis", i.where())
            continue
        lo, hi = seen[i]
        for fd in sorted(fields):
            r.check(hi < LIMIT[ty], rule, "%s:%s" % (name, fd),
                    "%s: the value converted to %s bits for %s is not bounded by %d" % (name, ty[1:], fd, LIMIT[ty] - 1), i.where())
    r.info["%s:%s" % (name, rule)] = {"stores": stores, "conversions": len(sites), "tracked values": len(rel)}


def angles(r):
    """inverse cosines, logarithms and square roots of the live code take numbers inside their domain"""
    m = cflow.module(inline=False, passes="function(sroa,early-cse,sccp,adce)")
    n = 0
    for f in cflow.own(m).values():
        calls = [i for i in f.instrs() if nums.Nums._fn(i) in ("acos", "asin")]
        if not calls:
            continue
        d, fl = nums.solve(m, f, [o for c in calls for o in c.ops])
        bad, seen = {}, set()

        def look(s, i):
            if i in calls:
                seen.add(i)
                lo, hi = d.get(s, i.ops[0])
                if d.mnan(s, i.ops[0]):
                    bad[i] = "may not be a number (0 divided by 0)"
                elif lo < -1 or hi > 1:
                    bad.setdefault(i, "is not kept within -1 and 1")
        d.on_step = look
        for b, tab in fl.states.items():
            for st in tab.values():
                s = d.copy(st)
                for i in b.ins:
                    if i.op != "phi":
                        s = d.step(s, i, {}, fl)
        for i in calls:
            n += 1
            if i not in seen:
                r.undecided("angle", f.name, "not reached by the analysis", i.where())
                continue
            r.check(i not in bad, "angle", f.name, "%s: the cosine of which the angle is taken %s" % (f.name, bad.get(i)), i.where())
    if not n:
        r.undecided("angle", "none", "no inverse cosine found")


def run(r):
    r.rule("saturate", "the value converted to 16 bits for a change magnitude or angle field is at most 32767 on every path")
    r.rule("sum", "a sum of squares kept in an unsigned 32-bit field is at most 4294967295 on every path")
    r.rule("angle", "every inverse cosine in the live code is taken of a number within -1 and 1")
    pkg = P.Package()
    ext = next(iter(pkg.cy.values())).externs
    lay = cfacts.record_layouts("output.h", ["output_nrtmodel", "Output_sccd_pinpoint"])
    m = cflow.module(inline=True, files=("cold.c", "s_ccd.c"), passes="function(sroa,early-cse,sccp,adce)")
    own = cflow.own(m)
    for rule, ty, table in (("saturate", "i16", OUT), ("sum", "i32", SUM)):
        for name, outs in table.items():
            f = own[name]
            cn = [b for a, b in ext[name]]
            if len(cn) != len(f.args):
                raise Broken("%s has %d parameters, the Cython declaration %d" % (name, len(f.args), len(cn)))
            narrowing(r, m, f, name, cn, lay, outs, ty, rule)
    angles(r)
    r.floor("saturate", 8)
    r.floor("sum", 1)
    r.assumptions.append("magnitudes are numbers (the fit error is not 0) and not below -32768: they are norms")


main("C14", run, explanation="value-range analysis (with branch refinement) of the operands of narrowing conversions that reach integer output fields, and NaN/zero tracking of the arguments of inverse cosines, on LLVM IR")
