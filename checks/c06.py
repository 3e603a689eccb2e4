"""C06 native record, queue and model-tail writes stay inside the caller's buffers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import cfacts
import paths
import pyflow as P
import pyq
import ranges
from cflow import root
from llir import Ins
from report import main, Broken

BUF = {"cold": ["rec_cg"], "obcold_reconstruction_procedure": ["rec_cg"], "sccd": ["rec_cg", "rec_cg_pinpoint", "nrt_queue", "nrt_model"]}
CNT = {"cold": ["num_fc"], "obcold_reconstruction_procedure": ["num_fc"], "sccd": ["num_fc", "num_fc_pinpoint", "num_nrt_queue", "nrt_mode"]}


def least(s):
    """smallest value a size can take, None if that is not known"""
    v = []
    for x in pyq.alts(s):
        if x.op == "call" and P.gid(x.args[0]) in ("min", "max", "int") and x.args[1]:
            q = [least(y) for y in x.args[1]]
            k = [y for y in q if y is not None]
            v.append(None if P.gid(x.args[0]) == "max" and not k or P.gid(x.args[0]) != "max" and len(k) < len(q) else (max if P.gid(x.args[0]) == "max" else min)(k))
        else:
            v.append(P.cval(x))
    return None if not v or any(not isinstance(x, int) for x in v) else min(v)


def elements(n):
    n = pyq.strip(n)
    if n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] in ("numpy.zeros", "numpy.empty", "numpy.full", "numpy.ones"):
        s = n.args[1][0] if n.args[1] else dict(n.args[2]).get("shape")
        if s is not None and s.op in ("tuple", "list") and len(s.args[0]) == 1:
            s = s.args[0][0]
        return least(s) if s is not None else None
    return None


def capacities(pkg):
    """{entry: {parameter position: (name, smallest buffer any API function passes)}}"""
    out = {}
    for api, cfn in pyq.API.items():
        it, calls = pyq.api_call(pkg, api)
        for e, sig in calls:
            pp = [cn for ct, cn in sig]
            for cn in BUF[cfn]:
                if cn not in pp:
                    continue
                k = pp.index(cn)
                if cn == "rec_cg_pinpoint" and P.is_const(pyq.strip(e.args[pp.index("b_pinpoint")]), False):
                    continue
                for x in pyq.alts(e.args[k]):
                    n = elements(x)
                    if n is not None:
                        o = out.setdefault(cfn, {}).setdefault(k, (cn, n))
                        out[cfn][k] = (cn, min(o[1], n))
    return out


def window(pkg):
    """{entry: largest window length an API function lets through to the native code}"""
    out = {}
    for api, cfn in pyq.API.items():
        it, calls = pyq.api_call(pkg, api)
        for e, sig in calls:
            pp = [cn for ct, cn in sig]
            if "conse" not in pp:
                continue
            x = e.args[pp.index("conse")]
            best = None
            for k in range(1, 400):
                env = {P.Node("param", "conse"): k}
                try:
                    v = pyq.ev(x, env)
                except (pyq.Unknown, TypeError, KeyError, IndexError, ZeroDivisionError):
                    return {}
                blocked = False
                for c, pol in e.guards:
                    try:
                        if bool(pyq.ev(c, env)) != pol:
                            blocked = True
                            break
                    except (pyq.Unknown, TypeError, KeyError, IndexError, ZeroDivisionError):
                        continue
                if not blocked:
                    best = max(best or 0, v)
            o = out.get(cfn)
            best = best if best is not None else 0
            out[cfn] = max(o, best) if o is not None else best
    return out


def run(r):
    r.rule("bound", "every index of a store into a caller-provided record, queue or model buffer is below the capacity of that buffer (and of the array member indexed) on every path")
    pkg = P.Package()
    caps = capacities(pkg)
    ext = next(iter(pkg.cy.values())).externs
    wins = window(pkg)
    m = cflow.module(inline=True, files=("cold.c", "s_ccd.c"), passes="function(sroa,early-cse,sccp,adce)")
    own = cflow.own(m)
    for name in cflow.ROOTS:
        f = own[name]
        cn = [b for a, b in ext[name]]
        if len(cn) != len(f.args):
            raise Broken("%s has %d parameters, the Cython declaration %d" % (name, len(f.args), len(cn)))
        bufs = {f.args[k]: v for k, v in caps.get(name, {}).items()}
        if len(bufs) < len(BUF[name]):
            raise Broken("no capacity known for the buffers of %s" % name)
        counters = {}
        for c in CNT[name]:
            k = cn.index(c)
            lim = (0, 0)
            if name == "sccd" and c == "num_fc":
                lim = (0, caps[name][cn.index("rec_cg")][1])       # an update starts from the records of the pack
            if c == "num_nrt_queue":
                lim = (0, caps[name][cn.index("nrt_queue")][1])
            if c == "nrt_mode":
                lim = (0, 15)
            counters[(f.args[k], 0)] = lim
        win = wins.get(name)
        argr = {}
        if win is not None and win < 390 and "conse" in cn:
            argr[f.args[cn.index("conse")]] = (1, win)
        # indexes of stores into the buffers
        obl = []
        for i in f.instrs():
            if i.op == "store":
                chain(m, i, i.ops[1], bufs, obl)
            elif i.op == "call" and i.callee.k == "fn" and i.callee.name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                chain(m, i, i.ops[0], bufs, obl)
            elif i.op == "call" and i.callee.k == "fn" and not i.callee.name.startswith("llvm.dbg"):
                for a in i.ops:
                    if root(a) in bufs:
                        chain(m, i, a, bufs, obl)
        if not obl:
            raise Broken("%s writes no record" % name)
        rel = ranges.relevant(f, m, [x for _, x, _, _ in obl if isinstance(x, Ins)], set(counters))
        th = {0, 1, 2}
        for v in rel:
            for o in v.ops:
                if o.k == "int":
                    th |= {o.v, o.v - 1, o.v + 1}
            for u in v.users:
                for o in u.ops:
                    if o.k == "int":
                        th |= {o.v, o.v - 1, o.v + 1}
        for _, c in bufs.values():
            th |= {c, c - 1, c + 1}
        d = ranges.Ranges(m, f, rel, counters, th, argr)
        fl = paths.Flow(f, track=False)
        byins = {}
        for o in obl:
            byins.setdefault(o[0], []).append(o)
        fl.solve(d, init=d.start())
        # report with the stable states
        seen = {}

        def look(s, i):
            for _, x, lim, what in byins.get(i, ()):
                g = d.get(s, x)
                o = seen.get((i, what))
                seen[(i, what)] = (min(g[0], o[0]), max(g[1], o[1])) if o else g
        d.on_step = look
        for b, tab in fl.states.items():
            for k, st in tab.items():
                s = d.copy(st)
                for i in b.ins:
                    if i.op != "phi":
                        s = d.step(s, i, {}, fl)
        un = 0
        for i, x, lim, what in obl:
            if (i, what) not in seen:
                un += 1                     # no feasible path
                continue
            lo, hi = seen[(i, what)]
            key = "%s:%s" % (name, what)
            if hi >= lim:
                r.bad("bound", key, "%s: a store into %s may use index %s, the buffer holds %d" % (name, what, "without bound" if hi > 1e6 else int(hi), lim), i.where())
            else:
                r.ok("bound", "%s:%d" % (key, i.bb.no), i.where())
                if lo < 0:
                    r.info["lower bound not shown"] = r.info.get("lower bound not shown", 0) + 1
        r.info[name] = {"blocks": len(f.bbs), "stores into caller buffers": len(obl), "tracked values": len(rel), "obligations on infeasible paths": un}
        if un * 20 > len(obl):
            r.undecided("bound", name, "%d of %d stores look unreachable" % (un, len(obl)))
    r.floor("bound", 150)
    r.assumptions.append("the counters the caller passes start at 0 (at most the capacity for an update), the buffers are distinct objects (C05)")


def chain(m, ins, p, bufs, out):
    """index obligations along the address computation of a store"""
    steps = []
    while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
        if p.op == "gep":
            steps.append(p)
        p = p.ops[0]
    if p not in bufs:
        return
    name, cap = bufs[p]
    first = True
    for g in reversed(steps):
        for n, (ix, lim) in enumerate(m.gep_bounds(g)):
            if n == 0:
                if first:
                    out.append((ins, ix, cap, name))
                elif ix.k != "int" or ix.v != 0:
                    out.append((ins, ix, 1, name + " member"))
            elif lim is not None:
                out.append((ins, ix, lim, "%s[..][%d]" % (name, lim)))
        first = False


main("C06", run, explanation="interval analysis of index values and counters on LLVM IR with the procedures inlined into each native entry point")
