"""C08 a failure inside the detectors is reported, never turned into output."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import paths
import pyflow as P
import pyq
from cflow import is_alloc
from llir import Ins
from report import main, Broken

OTHER = 77777          # an error value the callee does not name


class Ends(paths.Dom):
    def __init__(self, site):
        self.rets = {}
        self.use = None
        self.site = site

    def step(self, s, i, env, flow):
        if i.op == "ret":
            self.rets.setdefault(flow.ev(i.ops[0], env) if i.ops else "void", i)
        elif i.op in ("load", "store") and self.site is not None:
            p = i.ops[0 if i.op == "load" else 1]
            r = cflow.root(p)
            if self.use is None and (r is self.site or (isinstance(r, Ins) and r in flow.tracked and env.get(r) == 0)) and flow.ev(r, env) == 0:
                self.use = i
                return None
        return s


def returns_int(f):
    t = [i for i in f.instrs() if i.op == "ret"]
    return t and t[0].ops and t[0].ops[0].ty == "i32"


def gsl_style(f):
    """the bundled copy of GSL's robust fit uses GSL's own codes (1 is "converged")"""
    return any(os.path.basename(i.file) == "multirobust.c" for i in f.bbs[0].ins + f.bbs[-1].ins)


def native_side(r):
    m = cflow.module(passes="function(sroa,early-cse,sccp,adce)")
    err = {}
    nullret = set()
    rec = 0
    for f in cflow.callees_first(m):
        sites = []
        for i in f.instrs():
            if i.op != "call" or i.callee.k != "fn":
                continue
            if cflow.is_error_message(m, i):
                sites.append((i, None, "error report", "message"))
            elif is_alloc(i):
                sites.append((i, 0, "failed allocation (%s)" % i.callee.name, "alloc"))
            elif err.get(i.callee.name):
                for c in sorted(err[i.callee.name]):
                    sites.append((i, c, "error status %s of %s" % (c if c != OTHER else "", i.callee.name), "status"))
        if f.name == "write_message":
            continue
        rets = {i.ops[0].v for i in f.instrs() if i.op == "ret" and i.ops and i.ops[0].k == "int"}
        for i in f.instrs():
            if i.op == "ret" and i.ops and isinstance(i.ops[0], Ins) and i.ops[0].op == "phi":
                rets |= {o.v for o in i.ops[0].ops if o.k == "int"}
        if returns_int(f) and 0 in rets and rets & {-1, 1} and not gsl_style(f):       # the project's ERROR and FAILURE
            err.setdefault(f.name, set()).update(rets & {-1, 1})
        if not sites:
            continue
        own = cflow.own(m)
        fl = paths.Flow(f, ptr_tokens=lambda i: ("p", id(i)) if is_alloc(i) else None,
                        useful_call=lambda i: i.callee.k == "fn" and i.callee.name in own and i.ty == "i32")
        try:
            fl.solve(paths.Dom(), init=0)
        except paths.TooBig as ex:
            r.undecided("report", f.name, str(ex))
            continue
        base = {b: list(t) for b, t in fl.states.items()}
        ptr = f.bbs and any(i.op == "ret" and i.ops and i.ops[0].ty == "ptr" for i in f.instrs())
        count = {}
        for i, c, what, kind in sites:
            d = Ends(i if kind == "alloc" else None)
            for k in base.get(i.bb, ()):
                env = dict(k[0])
                if c is not None:
                    env[i] = c
                try:
                    fl.solve_from(d, i, env, dict(k[1]))
                except paths.TooBig as ex:
                    r.undecided("report", f.name, str(ex), i.where())
            n = count.setdefault((kind, i.callee.name, c), [0])
            n[0] += 1
            name = i.name.rstrip("0123456789.") if kind == "alloc" else ""
            key = "%s:%s:%s%s" % (f.name, kind, i.callee.name, "" if c in (None, 0) else "=%s" % c)
            if d.use is not None:
                r.bad("report", key + ":used", "%s: the result of %s is used (%s) without a NULL check" % (f.name, i.callee.name, d.use.where()), i.where())
                continue
            if not d.rets:
                r.ok("report", key, i.where())          # no return is reached: the process does not go on
                continue
            for v, at in d.rets.items():
                if ptr:
                    r.check(v == 0, "report", key, "%s: after a %s the function does not return NULL" % (f.name, what), i.where())
                    nullret.add(f.name)
                elif v == "void":
                    r.bad("report", key, "%s: a %s is swallowed, the function returns normally (%s)" % (f.name, what, at.where()), i.where())
                elif v == 0:
                    r.bad("report", key, "%s: after a %s the function can return success" % (f.name, what), i.where())
                elif v is None:
                    x = at.ops[0]
                    bad = _may_be_zero(fl, x)
                    if bad:
                        r.undecided("report", key, "returned value after the failure not determined", i.where())
                    err.setdefault(f.name, set()).add(OTHER)
                else:
                    r.ok("report", key, i.where())
                    err.setdefault(f.name, set()).add(v)
        # a value that means failure must not also be a regular answer: callers are analysed with it as failure
        rec += len(sites)
        if returns_int(f) and any(i.op == "ret" and isinstance(i.ops[0], Ins) and i.ops[0].op != "phi" for i in f.instrs()):
            err.setdefault(f.name, set()).add(OTHER)
    for n in cflow.ROOTS:
        if not err.get(n):
            raise Broken("native entry point %s reports no failure at all" % n)
        r.info["error values of " + n] = sorted(err[n])
    r.info["failure sites"] = rec
    r.info["status-returning procedures"] = sorted(err)


def _may_be_zero(fl, x):
    return not (isinstance(x, Ins) and x.op == "load")


def results(it, e):
    """the terms that stand for the native call's result"""
    return {y for x in it.events for c, p in x.guards for y in P.walk(c) if y.op == "call" and y.args[0] is e.f}


def after(it, e, res, v):
    """does a raise follow the native call when its result is v: True, False or None (not decided)"""
    out = False
    for x in it.events:
        if x.kind != "raise" or x.idx <= e.idx:
            continue
        new = [g for g in x.guards if g not in e.guards]
        about = [g for g in new if any(y in res for y in P.walk(g[0]))]
        h = pyq.holds(about, {y: v for y in res})
        if h is False or not about or pyq.holds(about, {y: 0 for y in res}) is True and v:
            continue                       # not on a failure branch
        if h is None or len(about) < len(new):
            out = None
        else:
            return True
    return out


def run(r):
    r.rule("report", "on every path after a failed allocation, an ERROR report or a callee's error status, the procedure ends with an error value (NULL for allocators) and does not use the missing memory")
    r.rule("raise", "when the native detector's result is not 0, every path of the Python API call raises before returning")
    native_side(r)
    pkg = P.Package()
    for api in ("cold_detect", "obcold_reconstruct", "sccd_detect", "sccd_update"):
        it, ncs = pyq.api_call(pkg, api)
        for e, sig in ncs:
            res = results(it, e)
            for v in (1, -1, 2, 0):
                a = after(it, e, res, v)
                if a is None and v:
                    r.undecided("raise", "%s:%s" % (api, v), "guard of the error not decided", e.where())
                elif v:
                    r.check(a, "raise", "%s:%s" % (api, v), "%s returns records although the native detector reported failure (%d)" % (api, v), e.where())
                else:
                    r.check(a is not True, "raise", "%s:0" % api, "%s raises although the native detector succeeded" % api, e.where())
    r.floor("report", 300)
    r.floor("raise", 16)
    r.assumptions.append("GSL's own allocators abort the process instead of returning NULL (default error handler)")


main("C08", run, explanation="interprocedural failure-propagation analysis on LLVM IR (path-sensitive forward exploration from every failure site) and guard analysis of the Cython callers")
