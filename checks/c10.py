"""C10 only valid observations enter a model."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import cfacts
import llir
import paths
import pyflow as P
from cflow import root
from llir import Ins, loops
from report import main, Broken
from worlds import Worlds, affine, comb, element, small_counters, strip

QA = {"clear": 0, "water": 1, "shadow": 2, "snow": 3, "cloud": 4, "fill": 255}
BANDS = ["buf_b", "buf_g", "buf_r", "buf_n", "buf_s1", "buf_s2", "buf_t"]
NAMES = ["blue", "green", "red", "NIR", "SWIR1", "SWIR2", "thermal"]
# accepted values of a band (scaled reflectance; thermal in 0.1 K, 0 when absent)
LO = [-199, 1, 1, 1, 1, 1, 1801]
HI = [9999] * 6 + [3438]
# loops over a fixed list (of bands) are unrolled
UNROLL = "function(sroa,early-cse,loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),sroa,instsimplify,early-cse,sccp,adce)"
ROWS = {"cold": 7, "obcold_reconstruction_procedure": 7, "sccd": 6}


def okband(b, v, c2):
    return LO[b] <= v <= HI[b] or (b == 6 and (c2 or v == 0))


# ------------------------------------------------------------------ preprocessing
def consts(f):
    """the constants the function compares with"""
    out = set()
    for i in f.instrs():
        if i.op == "icmp":
            out |= {o.v for o in i.ops if o.k == "int"}
    return out


class Range(Worlds):
    """one round of the range check: what is stored to id_range[i] in each case"""

    def __init__(self, worlds, atom, iv, idr, at, keep):
        super().__init__(worlds, atom, reset=iv, keep=keep)
        self.idr, self.at, self.ends, self.iv = idr, at, {}, iv

    def step(self, s, i, env, flow):
        if i.op == "store":
            e = element(i.ops[1])
            if e is not None and e[0] is self.idr:
                out = set()
                for w, pe in s:
                    d = dict(pe)
                    d["id"] = self.val(i.ops[0], w, d) if e[1] == self.at else None
                    out.add((w, frozenset(d.items())))
                return frozenset(out)
        return s

    def phis(self, s, pairs, env, flow):
        if any(x is self.iv for x, _ in pairs):
            for w, pe in s:
                self.ends.setdefault(w, set()).add(dict(pe).get("id", "unset"))
        return super().phis(s, pairs, env, flow)


def range_check(r, pkg):
    protos = cfacts.prototypes("utilities.h", ["preprocessing"])["preprocessing"]
    m = llir.Module(roots=["preprocessing"], inline=True, files=("utilities.c",), passes=UNROLL)
    f = {x.name: x for x in m.fns.values() if not x.decl}["preprocessing"]
    pos = {n: k for k, n in enumerate(protos)} if isinstance(protos, dict) else None
    names = ["buf_b", "buf_g", "buf_r", "buf_n", "buf_s1", "buf_s2", "buf_t", "fmask_buf", "valid_num_scenes", "id_range", "clear_sum",
             "water_sum", "shadow_sum", "sn_sum", "cloud_sum", "b_c2"]
    if len(f.args) != len(names):
        raise Broken("preprocessing has %d parameters, expected %d" % (len(f.args), len(names)))
    arg = dict(zip(names, f.args))
    sts = []
    for i in f.instrs():
        if i.op == "store":
            e = element(i.ops[1])
            if e is not None and e[0] is arg["id_range"]:
                sts.append((i, e[1]))
    if not sts:
        raise Broken("preprocessing writes no id_range")
    lps = loops(f)
    groups = {}
    for i, at in sts:
        ph = [x for x in at if isinstance(x, Ins) and x.op == "phi" and x.bb in lps]
        if len(ph) != 1:
            raise Broken("%s: index of id_range is not a loop counter" % i.where())
        groups.setdefault((ph[0], tuple(sorted(at.items(), key=repr))), at)
    if len(groups) != 1:
        raise Broken("id_range is written by %d loops" % len(groups))
    (iv, _), at = next(iter(groups.items()))
    keep = {i for i in f.instrs() if i.op == "phi" and i.bb not in lps}
    cs = consts(f)
    order = [(k, arg[b]) for k, b in enumerate(BANDS)]
    start = [i for i in iv.bb.ins if i.op == "phi"][-1]

    def solve(worlds, atom):
        d = Range(worlds, atom, iv, arg["id_range"], at, keep)
        fl = paths.Flow(f, track=False)
        fl.solve_from(d, start, {}, {}, d.full)
        return d

    def atom_for(get):
        def atom(v, w):
            if v.op == "load":
                e = element(v.ops[0])
                if e is not None and e[1] == at:
                    for k, a in order:
                        if e[0] is a:
                            return get(w, k)
                    if e[0] is arg["fmask_buf"]:
                        return get(w, "qa")
            return None
        return atom

    class Arg:
        pass
    # b_c2 is an i1/i8 argument, not an instruction: bind it through the evaluator
    for k in range(7):
        cells = {LO[k] - 1, LO[k], HI[k], HI[k] + 1, 0, -1, 1, 10 ** 6, -10 ** 6}
        for c in cs:
            for x in (c, (c + 27320) // 10 if k == 6 else c):
                cells |= {x - 1, x, x + 1}
        worlds = [(q, v, c2) for q in QA.values() for v in sorted(cells) for c2 in (0, 1)]
        d = solve(worlds, None) if False else None
        at_ = atom_for(lambda w, key, k=k: w[0] if key == "qa" else (w[1] if key == k else None))
        d = solve_c2(solve, worlds, at_, arg["b_c2"], lambda w: w[2])
        if not d.ends:
            raise Broken("the range check loop has no end")
        for w in worlds:
            q, v, c2 = w
            got = d.ends.get(w, set())
            if okband(k, v, c2) and q != 255:
                continue
            what = "fill" if q == 255 else "%s value %d" % (NAMES[k], v)
            bad = [x for x in got if x != 0 and x != "unset"]
            if bad and d.opaque:
                r.undecided("range", NAMES[k], "a condition reads memory that is not followed", sts[0][0].where())
            elif bad:
                r.bad("range", "fill" if q == 255 else NAMES[k], "an observation with %s is marked as in range%s" % (what, " (Collection 2)" if c2 else ""), sts[0][0].where())
            else:
                r.ok("range", "%s QA %d%s" % (what, q, " C2" if c2 else ""), sts[0][0].where())
    # valid observations are accepted
    for which, vec in (("lowest", LO), ("highest", HI), ("no thermal", HI[:6] + [0])):
        worlds = [(q, c2) for q in (0, 1, 3) for c2 in (0, 1)]
        at_ = atom_for(lambda w, key: w[0] if key == "qa" else vec[key])
        d = solve_c2(solve, worlds, at_, arg["b_c2"], lambda w: w[1])
        for w in worlds:
            got = d.ends.get(w, set())
            if d.opaque and 1 in got:
                r.undecided("accept", which, "a condition reads memory that is not followed", sts[0][0].where())
                continue
            r.check(got == {1}, "accept", which, "an observation with QA %d and the %s valid values is not marked as in range" % (w[0], which), sts[0][0].where())
    # unknown codes
    worlds = [(q, 0) for q in (-1, 5, 100, 254, 256)]
    d = solve_c2(solve, worlds, atom_for(lambda w, key: w[0] if key == "qa" else None), arg["b_c2"], lambda w: w[1])
    for w in worlds:
        r.check(w not in d.ends, "codes", "QA %d" % w[0], "the unknown QA code %d is not refused" % w[0], sts[0][0].where())


def solve_c2(solve, worlds, atom, c2, get):
    orig = Worlds.val

    def val(self, v, w, pe, d=0):
        return get(w) if v is c2 else orig(self, v, w, pe, d)
    Range.val = val
    try:
        return solve(worlds, atom)
    finally:
        del Range.val


# ------------------------------------------------------------------ procedures
class Context(Worlds):
    """(mode, snow, few) under which a point is reached"""

    def __init__(self, worlds, atoms, numfc, mode, on, until, flags):
        super().__init__(worlds, lambda v, w: atoms[v](w) if v in atoms else None)
        self.numfc, self.mode, self.look = numfc, mode, on
        # the blocks before the last append, and what can depend on the cases
        self.before, st = set(until), list(until)
        while st:
            for b in st.pop().preds:
                if b not in self.before:
                    self.before.add(b)
                    st.append(b)
        flags = [x for x in flags if x.bb in self.before]
        self.rel, st = set(atoms) | set(flags), list(atoms) + flags
        while st:
            for u in st.pop().users:
                if u not in self.rel and (u.op in paths.PURE or u.op in ("phi", "fcmp", "sitofp", "uitofp", "fpext")):
                    self.rel.add(u)
                    st.append(u)
        self.keepset = {x for x in self.rel if x.op == "phi" and x.ty.startswith("i") and x.bb in self.before}

    def step(self, s, i, env, flow):
        if i.bb not in self.before:
            return None
        self.look(s, i)
        if i.op == "store":
            rt = root(i.ops[1])
            if rt is self.mode:
                return frozenset(((None,) + w[1:], pe) for w, pe in s)
            if rt is self.numfc:
                return frozenset((w[:3] + (None,), pe) for w, pe in s)
        return s

    def refine(self, s, c, truth, env, flow):
        if c in self.rel:
            s = super().refine(s, c, truth, env, flow)
        if s is None:
            return None
        if isinstance(c, Ins) and c.op == "icmp" and c.ops[1].k == "int":
            x = strip(c.ops[0])
            if isinstance(x, Ins) and x.op == "load" and root(x.ops[0]) is self.numfc:
                f = {"eq": lambda n: n == c.ops[1].v, "ne": lambda n: n != c.ops[1].v, "slt": lambda n: n < c.ops[1].v, "sle": lambda n: n <= c.ops[1].v,
                     "sgt": lambda n: n > c.ops[1].v, "sge": lambda n: n >= c.ops[1].v}.get(c.pred)
                if f and f(0) == truth and f(1) != truth and f(40) != truth:
                    return frozenset((w[:3] + (True,), pe) for w, pe in s)
        return s


def slice_loads(v, d=0, seen=None):
    seen = set() if seen is None else seen
    if not isinstance(v, Ins) or d > 20 or v in seen:
        return set()
    seen.add(v)
    if v.op == "load":
        return {root(v.ops[0])}
    if v.op in ("phi", "call", "gep"):
        return set()
    out = set()
    for o in v.ops:
        out |= slice_loads(o, d + 1, seen)
    return out


class Append(Worlds):
    """one round of a loop that appends observations"""

    def __init__(self, worlds, atom, iv, keep, body, date, rows, nrows):
        super().__init__(worlds, atom, reset=iv, keep=keep)
        self.iv, self.body, self.date, self.rows, self.nrows = iv, body, date, rows, nrows
        self.in_, self.out, self.holes, self.wrong = set(), set(), set(), []

    def step(self, s, i, env, flow):
        if i.bb not in self.body:
            return None
        if i is self.date:
            out = set()
            for w, pe in s:
                self.in_.add(w)
                out.add((w, frozenset(dict(pe, D=1).items())))
            return frozenset(out)
        if i in self.rows:
            out = set()
            for w, pe in s:
                d = dict(pe)
                row = self.val(self.rows[i], w, d)
                v = self.val(i.ops[0], w, d)
                if row is None:
                    self.wrong.append((i, "a band value goes to an unknown series"))
                else:
                    want = {1000.0 + 10 * row} if row < 6 else {(1000.0 + 10 * 6) * 10 - 27320, 0.0}
                    if row >= self.nrows:
                        self.wrong.append((i, "series %d is written, there are %d" % (row, self.nrows)))
                    elif v is None or float(v) not in want:
                        src = [k for k in range(7) if v is not None and float(v) == 1000.0 + 10 * k]
                        self.wrong.append((i, "the %s series gets %s" % (NAMES[row], "the %s band" % NAMES[src[0]] if src else "another value than that observation's %s" % NAMES[row])))
                    else:
                        d["M"] = d.get("M", 0) | (1 << row)
                out.add((w, frozenset(d.items())))
            return frozenset(out)
        return s

    def phis(self, s, pairs, env, flow):
        if any(x is self.iv for x, _ in pairs):
            for w, pe in s:
                d = dict(pe)
                if not d.get("D"):
                    self.out.add(w)
                else:
                    self.holes |= {k for k in range(self.nrows) if not d.get("M", 0) >> k & 1}
        return super().phis(s, pairs, env, flow)


def procedures(r, pkg):
    ext = next(iter(pkg.cy.values())).externs
    m = cflow.module(inline=True, files=("cold.c", "s_ccd.c", "utilities.c"), keep=("preprocessing",), passes="function(sroa,early-cse,sccp,adce)")
    own = cflow.own(m)
    for name in cflow.ROOTS:
        f = own[name]
        cn = [b for a, b in ext[name]]
        if len(cn) != len(f.args):
            raise Broken("%s has %d parameters, the Cython declaration %d" % (name, len(f.args), len(cn)))
        arg = dict(zip(cn, f.args))
        pre = [i for i in f.instrs() if i.op == "call" and i.callee.k == "fn" and i.callee.name == "preprocessing"]
        if not pre:
            raise Broken("%s does not call preprocessing" % name)
        for c in pre:
            for k, b in enumerate(BANDS + ["fmask_buf"]):
                r.check(root(c.ops[k]) is arg[b] and c.ops[k] is arg[b], "inputs", "%s:%s" % (name, b), "the range check of %s does not get %s as its %s" % (name, b, b), c.where())
        idr = {root(c.ops[9]) for c in pre}
        slots = {"clear": {root(c.ops[10]) for c in pre}, "snow": {root(c.ops[13]) for c in pre}}
        lps = loops(f)
        dates = []
        for i in f.instrs():
            if i.op == "store":
                v = strip(i.ops[0])
                if isinstance(v, Ins) and v.op == "load":
                    e = element(v.ops[0])
                    if e is not None and e[0] is arg["valid_date_array"]:
                        dates.append((i, e[1]))
        if not dates:
            raise Broken("%s takes no date" % name)
        # context of each append
        ctx = {i: set() for i, _ in dates}

        atoms = {}
        turn = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
        for v in f.instrs():
            if v.op in ("fcmp", "icmp") and v.pred[1:] in turn:
                a, b = v.ops
                for x, y, p in ((a, b, v.pred[1:]), (b, a, turn[v.pred[1:]])):
                    if v.op == "fcmp" and y.k == "fp" and slice_loads(x) & slots["snow"]:
                        atoms[v] = lambda w, g=p in ("gt", "ge"): int(w[1] == g)
                    if v.op == "icmp" and y.k == "int" and y.v > 1 and slice_loads(x) & slots["clear"]:
                        atoms[v] = lambda w, g=p in ("lt", "le"): int(w[2] == g)
            if v.op == "load" and "nrt_mode" in arg and root(v.ops[0]) is arg["nrt_mode"]:
                atoms[v] = lambda w: w[0]

        def look(s, i):
            if i in ctx:
                ctx[i] |= {w for w, _ in s}
        modes = (0, 1, 2, 3, 4, 5, 11, 12) if name == "sccd" else (None,)
        worlds = [(md, sn, few, None) for md in modes for sn in (False, True) for few in (False, True)]
        d = Context(worlds, atoms, arg["num_fc"], arg.get("nrt_mode"), look, [i.bb for i, _ in dates], small_counters(f, {}))
        paths.Flow(f, track=False).solve(d, init=d.full)
        for i, at in dates:
            ph = [x for x in at if isinstance(x, Ins) and x.op == "phi" and x.bb in lps]
            if len(ph) != 1 or not ctx[i]:
                if not ctx[i]:
                    continue
                r.undecided("enter", name, "an observation is taken outside a simple loop", i.where())
                continue
            iv = ph[0]
            body = lps[iv.bb]
            rows = {}
            for b in body:
                for x in b.ins:
                    if x.op == "store" and x.ops[0].ty in ("float", "double"):
                        e = element(x.ops[1])
                        if e is not None and isinstance(e[0], Ins) and e[0].op == "load":
                            g = element(e[0].ops[0])
                            if g is not None and isinstance(g[0], Ins):
                                base = e[0].ops[0]
                                ix = base.ops[-1] if isinstance(base, Ins) and base.op == "gep" else None
                                rows[x] = ix
            zero = llir.V("int", "i64", 0)
            rows = {x: (ix if ix is not None else zero) for x, ix in rows.items()}

            series = root(i.ops[1])

            def atom2(v, w):
                if v.op == "load":
                    if root(v.ops[0]) is series:
                        return 500          # the last date taken so far
                    e = element(v.ops[0])
                    if e is None:
                        return None
                    if e[1] == at:
                        if e[0] is arg["fmask_buf"]:
                            return w[0]
                        if e[0] in idr:
                            return w[1]
                        if e[0] is arg["valid_date_array"]:
                            return w[2]
                        for k, b in enumerate(BANDS):
                            if e[0] is arg[b]:
                                return 1000 + 10 * k
                return None
            ws = [(q, g, t) for q in QA.values() for g in (0, 1) for t in (500, 501, 90000)]
            keep = {p for p in small_counters(f, lps) if p.bb in body and p is not iv}
            ap = Append(ws, atom2, iv, keep, body, i, rows, ROWS[name])
            start = [x for x in iv.bb.ins if x.op == "phi"][-1]
            paths.Flow(f, track=False).solve_from(ap, start, {}, {}, ap.full)
            # what this append may take
            kinds = set()
            for md, sn, few, none in ctx[i]:
                if name == "sccd":
                    kinds.add("snow" if (sn if md == 0 else md in (3, 4)) else "standard")
                else:
                    kinds.add("standard" if not few and not none else "snow" if sn else "fallback")
            std = {(q, 1) for q in (0, 1)}
            most = {"standard": std, "snow": {(q, g) for q in (0, 1, 3) for g in (0, 1)}, "fallback": {(q, 1) for q in QA.values()}}
            may = set.intersection(*(most[k] for k in kinds))
            kind = "/".join(sorted(kinds))
            for q, g in sorted({w[:2] for w in ws}):
                taken = {w[2] for w in ap.in_ if w[:2] == (q, g)}
                left = {w[2] for w in ap.out if w[:2] == (q, g) and w[2] > 500}
                nm = [k for k, v in QA.items() if v == q][0] + ("" if g else ", out of range")
                key = "%s:%s:%s" % (name, kind, nm)
                if ap.opaque and (taken and (q, g) not in may or left and taken):
                    r.undecided("enter", key, "a condition reads memory that is not followed", i.where())
                elif taken and (q, g) not in may:
                    r.bad("enter", key, "%s: an observation with QA %s enters the series of the %s procedure" % (name, nm, kind), i.where())
                elif left and (q, g) in std:
                    r.bad("enter", key, "%s: a valid observation (QA %s) of a new date can be left out of the series of the %s procedure" % (name, nm, kind), i.where())
                else:
                    r.ok("enter", key, i.where())
            for x, why in ap.wrong:
                r.bad("bands", "%s:%s" % (name, why), "%s: %s" % (name, why), x.where())
            r.check(not ap.holes, "bands", "%s:%s" % (name, i.where()), "%s: the %s series keep no value for an observation that is taken" % (name, ", ".join(NAMES[k] for k in sorted(ap.holes))), i.where())
        r.info[name] = {"appends": len(dates)}


def run(r):
    r.rule("range", "an observation is marked as in range only if it is not fill and every optical band (and the thermal band unless Collection 2) lies in its valid range")
    r.rule("accept", "an observation with all bands at the ends of their valid ranges is marked as in range")
    r.rule("codes", "a QA code that is none of the documented ones is refused")
    r.rule("inputs", "the range check sees the caller's own band and QA series")
    r.rule("enter", "an observation is appended to a series exactly when its QA and range mark satisfy what the procedure (standard, snow, fallback) requires")
    r.rule("bands", "the values appended for an observation are that observation's, each band in its own series")
    pkg = P.Package()
    range_check(r, pkg)
    procedures(r, pkg)
    r.floor("range", 100)
    r.floor("enter", 60)


main("C10", run, explanation="finite case analysis on LLVM IR: QA codes, range marks and order cells of band values; branch conditions split the cases, everything else is taken both ways")
