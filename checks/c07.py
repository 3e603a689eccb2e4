"""C07 native working memory is released exactly once on every successful return."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import paths
from cflow import is_alloc, root
from llir import Ins
from report import main, Broken

RELEASE = {"free", "gsl_multifit_linear_free", "free_2d_array", "gsl_vector_free", "gsl_matrix_free", "gsl_multifit_robust_free", "gsl_permutation_free", "gsl_vector_int_free"}
# procedures analysed on their own; any other helper is inlined into its callers
PROCS = ("cold", "stand_procedure", "stand_procedure_fixeddays", "inefficientobs_procedure", "obcold_reconstruction_procedure", "sccd", "sccd_standard", "sccd_snow",
         "step1_cold_initialize", "step1_ssm_initialize", "step2_KF_ChangeDetection", "step3_processing_end", "KF_ts_predict_conse", "KF_ts_filter_regular",
         "KF_ts_filter_falsechange", "allocate_2d_array", "free_2d_array", "write_message", "auto_ts_fit_float", "auto_ts_fit_sccd", "auto_ts_fit",
         "auto_ts_predict_float", "auto_mask", "auto_robust_fit", "dofit", "c_glmnet", "adjust_median_variogram", "matlab_unique", "MeanAngl_float",
         "matlab_2d_array_norm_float", "matlab_2d_float_median", "matlab_float_2d_partial_median", "filter1step_missingobs", "filter1step_validobs",
         "fit_cft2vec_a", "vec_a2fit_cft", "initialize_ssmconstants", "gsl_multifit_robust_alloc", "gsl_multifit_robust_free", "gsl_multifit_robust",
         "robust_madsigma", "robust_test_convergence", "robust_robsigma", "robust_sigma", "robust_covariance", "preprocessing", "update_cft", "find_index_clrx",
         "angle_decaying", "max_array_int")
ERRVALS = (-1, 1)          # the project's ERROR and FAILURE
CAP = 64


class Own(paths.Dom):
    """state: set of ownership maps {(token, 'L'|'F')}, one per distinguishable history"""

    def __init__(self, chk, f, m):
        self.chk, self.f, self.m = chk, f, m
        self.rep = {}
        self.handed = set()

    def bad(self, what, tok, i, text):
        self.rep.setdefault((what, tok), (i, text))

    def join(self, a, b, block):
        u = a | b
        if len(u) > CAP:
            u = frozenset([frozenset((t, "U") for e in u for t, _ in e)])
        return u, u != a

    def _set(self, st, tok, new, i):
        out = set()
        for e in st:
            d = dict(e)
            old = d.get(tok)
            if new == "L" and old == "L":
                self.bad("again", tok, i, "is allocated again while the block of the previous pass is still held")
            if new == "F" and old == "F":
                self.bad("double", tok, i, "is released a second time")
            if old != "U" or new == "L":
                d[tok] = new
            out.add(frozenset(d.items()))
        return frozenset(out)

    def token(self, v, env, flow):
        v = root(v)
        t = flow.ev(v, env)
        return t if isinstance(t, tuple) else None

    def maybe(self, v, seen=None):
        """allocation sites a pointer may come from when its value is not determined"""
        seen = seen if seen is not None else set()
        v = root(v)
        if v in seen:
            return set()
        seen.add(v)
        if isinstance(v, Ins):
            if v.op in ("phi", "select"):
                return {x for o in v.ops for x in self.maybe(o, seen)}
            if v.op == "call" and v in self.chk.allocs:
                return {("p", v)}
        return set()

    def step(self, st, i, env, flow):
        if i.op == "call" and i.callee.k == "fn":
            n = i.callee.name
            if i in self.chk.allocs:
                if n == "realloc":
                    t = self.token(i.ops[0], env, flow)
                    if t:
                        st = self._set(st, t, "F", i)
                st = self._set(st, ("p", i), "L", i)
                for k in [k for k in env if isinstance(k, tuple) and k[1] == ("p", i)]:
                    del env[k]
                return st
            if n in RELEASE or n in self.chk.frees:
                for k, a in enumerate(i.ops):
                    if n in RELEASE and k or n in self.chk.frees and k not in self.chk.frees[n]:
                        continue
                    t = self.token(a, env, flow)
                    if t:
                        st = self._set(st, t, "F", i)
                        self.chk.released.add(t[1])
                    elif root(a).k == "arg":
                        self.chk.param_free.setdefault(self.f.name, set()).add(root(a).v)
                    else:
                        for t in self.maybe(a):
                            st = frozenset(frozenset({**dict(e), t: "U"}.items()) for e in st)
                return st
            for a in i.ops:
                if a.ty == "ptr":
                    self.used(st, a, i, env, flow)
            return st
        if i.op == "store":
            self.used(st, i.ops[1], i, env, flow)
            if i.ops[0].ty == "ptr":
                t = self.token(i.ops[0], env, flow)
                r = root(i.ops[1])
                ct = self.token(i.ops[1], env, flow) or (("obj", r) if isinstance(r, Ins) and r.op == "alloca" else None)
                off = self.offset(i.ops[1])
                if ct is not None and off is not None:
                    env.pop(("cell", ct, off), None)
                    if t is not None:
                        env[("cell", ct, off)] = t
                elif t is not None or self.maybe(i.ops[0]):      # ownership moves where it is not followed
                    for q in ({t} if t else self.maybe(i.ops[0])):
                        st = frozenset(frozenset({**dict(e), q: "U"}.items()) for e in st)
            return st
        if i.op == "load":
            self.used(st, i.ops[0], i, env, flow)
            if i.ty == "ptr":
                r = root(i.ops[0])
                ct = self.token(i.ops[0], env, flow) or (("obj", r) if isinstance(r, Ins) and r.op == "alloca" else None)
                off = self.offset(i.ops[0])
                if ct is not None and off is not None and ("cell", ct, off) in env:
                    env[i] = env[("cell", ct, off)]
            return st
        if i.op == "ret":
            v = flow.ev(i.ops[0], env) if i.ops else None
            if i.ops and i.ops[0].ty == "i32" and v in ERRVALS:
                return st
            if i.ops and i.ops[0].ty == "ptr":
                if v == 0:
                    return st
                if isinstance(v, tuple):
                    st = frozenset(frozenset({**dict(e), v: "U"}.items()) for e in st)
                    inner = {x for k, x in env.items() if isinstance(k, tuple) and k[1] == v}
                    self.handed |= {(k[2], x[1]) for k, x in env.items() if isinstance(k, tuple) and k[1] == v}
                    for q in inner:
                        st = frozenset(frozenset({**dict(e), q: "U"}.items()) for e in st)
            for e in st:
                for t, s in e:
                    if s == "L":
                        self.bad("leak", t, i, "is not released when the procedure returns%s" % (" %s" % v if v is not None else ""))
        return st

    def used(self, st, p, i, env, flow):
        t = self.token(p, env, flow)
        if t is None:
            return
        for e in st:
            if dict(e).get(t) == "F":
                self.bad("use", t, i, "is used after its release")

    def offset(self, p):
        off = 0
        while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                c, var = self.m.gep_offset(p)
                if var:
                    return None
                off += c
            p = p.ops[0]
        return off


class Fields(paths.Dom):
    """fields of the argument object released on every path"""

    def __init__(self, offset):
        self.offset, self.out = offset, None

    def join(self, a, b, block):
        return a & b, (a & b) != a

    def step(self, st, i, env, flow):
        if i.op == "call" and i.callee.k == "fn" and i.callee.name in RELEASE:
            v = i.ops[0]
            if isinstance(v, Ins) and v.op == "load" and root(v.ops[0]).k == "arg":
                return st | {self.offset(v.ops[0])}
            if root(v).k == "arg":
                return st | {"object"}
        if i.op == "ret":
            self.out = st if self.out is None else self.out & st
        return st


def constructor(r, m, own, d, dtor, where):
    """a block handed out inside a workspace object is released by the workspace's destructor"""
    f = own.get(dtor)
    if f is None or not d.handed:
        return
    fl = paths.Flow(f, ptr_tokens=lambda i: ("f", i) if i.op == "load" and i.ty == "ptr" else None)
    q = Fields(d.offset)
    fl.solve(q, init=frozenset())
    for a in sorted({a for _, a in d.handed}, key=lambda x: x.line):
        offs = {o for o, x in d.handed if x is a}
        r.check(q.out is not None and offs & q.out, "released", "%s:%s" % (dtor, a.callee.name + "+%d" % min(offs)),
                "%s does not release the block allocated at %s" % (dtor, a.where()), where)
    r.check(q.out is not None and "object" in q.out, "released", "%s:object" % dtor, "%s does not release the workspace itself" % dtor, where)


class Check:
    def __init__(self):
        self.frees = {}
        self.param_free = {}
        self.released = set()


def run(r):
    r.rule("released", "an allocated block is released (or handed out) on every path to a return that reports no failure")
    r.rule("once", "no path releases a block twice, allocates over a block still held, or uses a block after its release")
    m = cflow.module(inline=True, keep=PROCS, passes="function(sroa,early-cse),globalopt,function(loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),instsimplify,early-cse,sccp,adce)",
                     flags=["-unroll-threshold=3000", "-unroll-full-max-count=64"])
    fs = cflow.callees_first(m)
    own = cflow.own(m)
    c = Check()
    for f in fs:
        if f.name in ("allocate_2d_array", "free_2d_array", "gsl_multifit_robust_free", "write_message"):
            continue
        c.allocs = {i for i in f.instrs() if is_alloc(i, gsl=True)}
        if not c.allocs:
            for i in f.instrs():
                if i.op == "call" and i.callee.k == "fn" and i.callee.name in RELEASE and root(i.ops[0]).k == "arg":
                    c.frees.setdefault(f.name, set()).add(root(i.ops[0]).v)
            continue
        fl = paths.Flow(f, ptr_tokens=lambda i: ("p", i) if i in c.allocs else None, useful_call=lambda i: i.ty == "i32" and i.callee.k == "fn" and i.callee.name in own,
                        extra_uses=lambda i: [root(o) for o in i.ops if o.ty == "ptr"])
        d = Own(c, f, m)
        try:
            fl.solve(d, init=frozenset([frozenset()]))
        except paths.TooBig as ex:
            r.undecided("released", f.name, str(ex))
            continue
        if f.name.endswith("_alloc"):
            constructor(r, m, own, d, f.name[:-6] + "_free", "src/cxx/multirobust.c")
        r.info.setdefault("analysed", {})[f.name] = {"blocks": len(f.bbs), "allocation sites": len(c.allocs), "path states": sum(len(t) for t in fl.states.values())}
        if c.param_free.get(f.name):
            c.frees[f.name] = c.param_free[f.name]
        for a in sorted(c.allocs, key=lambda i: (i.line, i.bb.no)):
            name = "%s:%s" % (f.name, nm(a))
            for what, rule in (("leak", "released"), ("again", "once"), ("double", "once"), ("use", "once")):
                hit = d.rep.get((what, ("p", a)))
                if hit:
                    at, text = hit
                    r.bad(rule, "%s:%s" % (name, what), "%s: the block allocated at %s (%s) %s (%s)" % (f.name, a.where(), a.callee.name, text, at.where()), at.where())
                else:
                    r.ok(rule, "%s:%s:%d" % (name, what, a.bb.no), a.where())
    r.floor("released", 150)
    r.assumptions.append("error returns are outside the statement: RETURN_ERROR leaves without releasing anything")


def nm(a):
    return "%s" % (a.name.rstrip("0123456789.") or a.callee.name)


main("C07", run, explanation="ownership typestate on LLVM IR with path states kept apart by flags, status values and repeated conditions")
