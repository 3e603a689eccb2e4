"""The near-real-time model and queue in the native code: what is saved to and restored from each field.
Everything is read off LLVM IR in which the standard and the snow procedure, the saving step and any helper are
inlined into sccd() and loops with fixed bounds are unrolled."""
import cfacts
import cflow
from llir import Ins
from worlds import affine, comb

KEEP = ("cold", "stand_procedure", "stand_procedure_fixeddays", "inefficientobs_procedure", "obcold_reconstruction_procedure", "sccd",
        "step1_cold_initialize", "step1_ssm_initialize", "step2_KF_ChangeDetection", "KF_ts_predict_conse", "KF_ts_filter_regular",
        "KF_ts_filter_falsechange", "allocate_2d_array", "free_2d_array", "write_message", "auto_ts_fit_float", "auto_ts_fit_sccd", "auto_ts_fit",
        "auto_ts_predict_float", "auto_mask", "auto_robust_fit", "dofit", "c_glmnet", "adjust_median_variogram", "preprocessing")
SIZE = {"int": 4, "float": 4, "short": 2, "short int": 2, "unsigned char": 1, "unsigned int": 4, "double": 8}
CASTS = ("trunc", "sext", "zext", "fptrunc", "fpext", "sitofp", "fptosi", "uitofp", "fptoui", "freeze")


def load():
    """(module, sccd(), its parameters by name, {struct: layout})"""
    from pyflow import Package
    m = cflow.module(inline=True, keep=KEEP,
                     passes="function(sroa,early-cse),globalopt,function(loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),instsimplify,early-cse,sccp,adce)",
                     flags=["-unroll-threshold=20000", "-unroll-full-max-count=64"])
    ext = next(iter(Package().cy.values())).externs
    f = cflow.own(m)["sccd"]
    names = [b for _, b in ext["sccd"]]
    if len(names) != len(f.args):
        return None
    return m, f, dict(zip(names, f.args)), cfacts.record_layouts("output.h", ["output_nrtmodel", "output_nrtqueue"])


def units(lay):
    """{byte offset: (field, element)}"""
    out = {}
    for n, ty, dims, off in lay[2]:
        k = 1
        for d in dims:
            k *= d
        for j in range(k):
            out[off + j * SIZE[ty]] = (n, j, SIZE[ty])
    return out


class Paths:
    def __init__(self, m):
        self.m, self.memo, self.open = m, {}, set()

    def path(self, p, d=0):
        """(base, ((leaf factors), ...)): a canonical address; each level but the last is loaded from"""
        lv = []
        while True:
            tot = {}
            while isinstance(p, Ins) and p.op in ("gep", "bitcast", "freeze"):
                if p.op == "gep":
                    c, vs = self.m.gep_offset(p)
                    tot = comb(tot, {None: c}, 1)
                    for sc, ix in vs:
                        tot = comb(tot, {k: v * sc for k, v in self.aff(ix).items()}, 1)
                p = p.ops[0]
            lv.append(tot)
            if isinstance(p, Ins) and p.op == "load" and p.ty == "ptr":
                p = p.ops[0]
                continue
            return p, tuple(frozenset(t.items()) for t in reversed(lv))

    def aff(self, v):
        r = self.memo.get(v)
        if r is None:
            a = affine(v)
            r = {}
            for k, c in ({v: 1} if a is None else a).items():
                r = comb(r, self.iv(k, c), 1)
            self.memo[v] = r
        return r

    def iv(self, k, c):
        """a counter that advances by a constant in every turn of its loop is its start plus that many turns"""
        if isinstance(k, Ins) and k.op == "phi" and len(k.ops) == 2 and k not in self.open:
            for a, b in (k.ops, k.ops[::-1]):
                st = affine(b) if isinstance(b, Ins) else None
                if st and set(st) <= {k, None} and st.get(k) == 1 and st.get(None, 0):
                    self.open.add(k)
                    a0 = self.aff(a) if isinstance(a, Ins) or a.k == "arg" else {None: a.v} if a.k == "int" else None
                    self.open.discard(k)
                    if a0 is None:
                        break
                    return comb({x: v * c for x, v in a0.items() if v}, {("turn", k.bb): st[None] * c}, 1)
        return {k: c}

    def term(self, v, d=0):
        """(core, constant added): core is ("mem", base, levels), ("gsl", ...), ("const", c) or ("value", v)"""
        add = 0
        while isinstance(v, Ins):
            if v.op in CASTS:
                v = v.ops[0]
            elif v.op in ("add", "sub") and not isinstance(v.ops[1], Ins) and v.ops[1].k == "int":
                add += v.ops[1].v if v.op == "add" else -v.ops[1].v
                v = v.ops[0]
            elif v.op == "add" and not isinstance(v.ops[0], Ins) and v.ops[0].k == "int":
                add += v.ops[0].v
                v = v.ops[1]
            else:
                break
        if not isinstance(v, Ins):
            return (("const", v.v) if v.k in ("int", "fp") else ("value", v)), add
        if v.op == "load":
            return ("mem",) + self.path(v.ops[0]), add
        if v.op == "call" and v.callee.k == "fn" and v.callee.name in ("gsl_matrix_get", "gsl_vector_get"):
            return ("gsl",) + self.path(v.ops[0]) + tuple(self.term(o)[0] for o in v.ops[1:]), add
        return ("value", v), add


def dests(P, ins):
    """where a loaded value goes, unchanged but for a constant: (kind, place, constant added, instruction)"""
    out, st, seen = [], [(ins, 0)], set()
    while st:
        v, add = st.pop()
        if (v, add) in seen:
            continue
        seen.add((v, add))
        for u in v.users:
            if u.op in CASTS:
                st.append((u, add))
            elif u.op in ("add", "sub") and any(not isinstance(o, Ins) and o.k == "int" for o in u.ops) and not (u.op == "sub" and u.ops[1] is v):
                c = [o for o in u.ops if not isinstance(o, Ins)][0].v
                st.append((u, add + (c if u.op == "add" else -c)))
            elif u.op == "store" and u.ops[0] is v:
                out.append((("mem",) + P.path(u.ops[1]), add, u))
            elif u.op == "phi":
                out.append((("value", u), add, u))
            elif u.op == "call" and u.callee.k == "fn" and u.callee.name == "gsl_matrix_set" and u.ops[3] is v:
                out.append((("gsl",) + P.path(u.ops[0]) + tuple(P.term(o)[0] for o in u.ops[1:3]), add, u))
            else:
                out.append((("use", u), add, u))
    return out


def web(v):
    """the values a chain of phis and selects stands for, with the phis themselves"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Ins) and x.op in ("phi",) + CASTS:
            st += x.ops
        elif isinstance(x, Ins) and x.op == "select":
            st += x.ops[1:]
    return seen


def core(v):
    """the value behind conversions"""
    while isinstance(v, Ins) and v.op in CASTS:
        v = v.ops[0]
    return v
