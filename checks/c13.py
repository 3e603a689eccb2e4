"""C13 unordered dates are refused by COLD and the reconstruction."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import paths
import pyflow as P
from cflow import root
from llir import Ins, NEG, SWAP, dominates, dominators, loops
from report import main, Broken

ENTRIES = ["cold", "obcold_reconstruction_procedure"]


class Scan:
    """the dates argument, the number of dates and affine forms over them"""

    def __init__(self, f, dates, n):
        self.f, self.dates, self.n = f, dates, n
        self.slots = {}
        for i in f.instrs():
            if i.op == "store" and i.ops[0] is n and isinstance(i.ops[1], Ins) and i.ops[1].op == "alloca":
                self.slots[i.ops[1]] = i
        self.late = {}
        for a in self.slots:
            late = set()
            for u in f.instrs():
                if u.op == "call" and a in u.ops and not u.callee.name.startswith("llvm.") or \
                        u.op == "store" and u.ops[1] is a and u is not self.slots[a]:
                    st = [s for s in u.bb.succs]
                    late |= {x for x in u.bb.ins[u.idx + 1:]}
                    seen = set()
                    while st:
                        b = st.pop()
                        if b not in seen:
                            seen.add(b)
                            late |= set(b.ins)
                            st += b.succs
            self.late[a] = late

    def aff(self, v, d=0):
        """{leaf or "n": factor} with the constant under None; None when not affine"""
        if v is self.n:
            return {"n": 1}
        if not isinstance(v, Ins):
            return {None: v.v} if v.k == "int" else None
        if d > 20:
            return None
        if v.op in ("sext", "zext", "freeze", "trunc"):
            return self.aff(v.ops[0], d + 1)
        if v.op == "load" and v.ops[0] in self.slots:
            return {"n": 1} if v not in self.late[v.ops[0]] else {v: 1}
        if v.op in ("add", "sub"):
            a, b = self.aff(v.ops[0], d + 1), self.aff(v.ops[1], d + 1)
            return None if a is None or b is None else comb(a, b, 1 if v.op == "add" else -1)
        if v.op in ("phi", "load", "call"):
            return {v: 1}
        return None

    def index(self, v):
        """affine index k when v is dates[k]"""
        while isinstance(v, Ins) and v.op in ("sext", "trunc", "freeze"):
            v = v.ops[0]
        if not isinstance(v, Ins) or v.op != "load":
            return None
        tot = {}
        p = v.ops[0]
        while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                if len(p.ops) != 2:
                    return None
                a = self.aff(p.ops[1])
                if a is None:
                    return None
                tot = comb(tot, a, 1)
            p = p.ops[0]
        return tot if p is self.dates else None


def comb(a, b, s):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def const(a):
    return a.get(None, 0) if a is not None and not [k for k in a if k is not None] else None


class After(paths.Dom):
    """what happens once an unordered pair was seen"""

    def __init__(self, outs):
        self.outs, self.bad, self.rets = outs, [], 0

    def step(self, s, i, env, flow):
        if i.op == "ret":
            v = flow.ev(i.ops[0], env)
            self.rets += 1
            if not (isinstance(v, int) and v != 0):
                self.bad.append(("returns %s" % ("success" if v == 0 else "a status that is not known to be an error"), i))
        w = written(i)
        if w is not None and w in self.outs:
            self.bad.append(("goes on to write output", i))
            return None
        return s


def written(i):
    if i.op == "store":
        return root(i.ops[1])
    if i.op == "call" and i.callee.k == "fn" and not i.callee.name.startswith("llvm.dbg"):
        for a in i.ops:
            if a.ty == "ptr" and root(a).k == "arg":
                return root(a)
    return None


def compare(sc, i):
    """(k, unordered when true, equal dates refused, index values) for a comparison of adjacent dates"""
    a, b, p = i.ops[0], i.ops[1], i.pred
    if isinstance(a, Ins) and a.op == "sub" and b.k == "int" and b.v == 0:
        a, b = a.ops
    x, y = term(sc, a), term(sc, b)
    if x is None or y is None:
        return None
    d = const(comb(x, y, -1))
    if d not in (1, -1):
        return None
    if d == 1:                      # first operand is the later position
        x, y, p = y, x, SWAP[p]
    # now: dates[k] p dates[k+1]
    m = {"sgt": (True, False), "sle": (False, False), "sge": (True, True), "slt": (False, True)}.get(p)
    return (x,) + m if m else (x, None, None)


def term(sc, v):
    t = sc.index(v)
    if t is not None:
        return t
    while isinstance(v, Ins) and v.op in ("sext", "trunc", "freeze"):
        v = v.ops[0]
    if isinstance(v, Ins) and v.op == "phi" and len(v.ops) == 2:
        # the date of the previous round carried in a variable
        for n in (0, 1):
            nxt, first = sc.index(v.ops[n]), sc.index(v.ops[1 - n])
            if nxt is None or first is None:
                continue
            iv = [k for k in nxt if isinstance(k, Ins) and k.op == "phi" and k.bb is v.bb]
            if len(iv) != 1 or iv[0].blocks[:] is None:
                continue
            start = sc.aff(iv[0].ops[iv[0].blocks.index(v.blocks[1 - n])])
            step = const(comb(sc.aff(iv[0].ops[iv[0].blocks.index(v.blocks[n])]) or {"?": 1}, {iv[0]: 1}, -1))
            if start is None or step not in (1, -1):
                continue
            prev = comb(nxt, {None: step * nxt[iv[0]]}, -1)
            at = comb({k: c for k, c in prev.items() if k is not iv[0]}, {k: c * prev[iv[0]] for k, c in start.items()}, 1)
            if const(comb(at, first, -1)) == 0:
                return prev
    return None


def run(r):
    r.rule("scan", "a loop compares every adjacent pair of dates, once per round, over all positions, and an unordered pair always ends in an error status")
    r.rule("first", "every write to the caller's records happens after the scan has completed")
    pkg = P.Package()
    ext = next(iter(pkg.cy.values())).externs
    m = cflow.module(inline=True, files=("cold.c",), passes="function(sroa,early-cse,sccp,adce)")
    own = cflow.own(m)
    for name in ENTRIES:
        f = own[name]
        cn = [b for a, b in ext[name]]
        if len(cn) != len(f.args):
            raise Broken("%s has %d parameters, the Cython declaration %d" % (name, len(f.args), len(cn)))
        arg = dict(zip(cn, f.args))
        sc = Scan(f, arg["valid_date_array"], arg["valid_num_scenes"])
        outs = {arg["rec_cg"], arg["num_fc"]} | {arg[k] for k in ("cm_outputs", "cm_outputs_date") if k in arg}
        writes = [i for i in f.instrs() if written(i) in outs]
        if not writes:
            raise Broken("%s writes no output" % name)
        idom = dominators(f)
        lps = loops(f)
        cands = []
        for i in f.instrs():
            if i.op == "icmp" and i.ops[0].ty != "ptr":
                c = compare(sc, i)
                if c is not None:
                    cands.append((i, c))
        good = []
        why = []
        for i, (k, bad_when, eq) in cands:
            w = judge(sc, f, i, k, bad_when, eq, lps, idom, outs)
            if isinstance(w, str):
                why.append("%s: %s" % (i.where(), w))
            else:
                good.append((i, w))
        if not good:
            r.bad("scan", name, "%s has no complete check of the order of the dates%s" % (name, (": " + "; ".join(why)) if why else ""), f.bbs[0].ins[0].where())
            continue
        best = None
        for i, hd in good:
            early = [w for w in writes if not (dominates(idom, hd, w.bb) and w.bb not in lps[hd])]
            if best is None or len(early) < len(best[1]):
                best = (i, early)
        r.ok("scan", name, best[0].where())
        for w in writes:
            if w in best[1]:
                r.bad("first", "%s:%s" % (name, written(w).name or cn[f.args.index(written(w))]), "%s writes to the caller's %s before or without the check of the dates" % (name, cn[f.args.index(written(w))]), w.where())
            else:
                r.ok("first", "%s:%s" % (name, w.where()), w.where())
    r.floor("scan", 2)
    r.assumptions.append("the status is turned into a Python exception (C08) and the dates reach the entry point unchanged (C03)")


def judge(sc, f, i, k, bad_when, eq, lps, idom, outs):
    """the header of the scanning loop, or the reason why this comparison is no complete scan"""
    if bad_when is None:
        return "compares adjacent dates without telling their order"
    if eq:
        return "refuses repeated dates"
    inside = [h for h, body in lps.items() if i.bb in body]
    if not inside:
        return "is not in a loop"
    h = min(inside, key=lambda x: len(lps[x]))
    body = lps[h]
    ivs = [v for v in k if isinstance(v, Ins)]
    if len(ivs) != 1 or ivs[0].bb is not h or abs(k[ivs[0]]) != 1:
        return "does not move with the loop"
    iv = ivs[0]
    latches = [b for b in h.preds if b in body]
    entry = [n for n, b in enumerate(iv.blocks) if b not in body]
    steps = set()
    for n, b in enumerate(iv.blocks):
        if b in body:
            a = sc.aff(iv.ops[n])
            steps.add(const(comb(a, {iv: 1}, -1)) if a is not None else None)
    if len(steps) != 1 or not steps <= {1, -1} or len(entry) != 1:
        return "does not visit every position"
    step = steps.pop()
    if not all(dominates(idom, i.bb, b) for b in latches):
        return "is skipped in some rounds"
    start = sc.aff(iv.ops[entry[0]])
    if start is None:
        return "starts at an unknown position"
    sub = lambda a, x: comb({t: c for t, c in a.items() if t is not iv}, {t: c * a.get(iv, 0) for t, c in x.items()}, 1)
    first = sub(k, start)
    # what happens after an unordered pair
    fl = paths.Flow(f, track=True)
    d = After(outs)
    fl.solve_from(d, i, {i: int(bad_when)}, {})
    if d.bad:
        return "after an unordered pair the function %s (%s)" % (d.bad[0][0], d.bad[0][1].where())
    quiet = ordered_edges(f, i, bad_when)
    last = None
    for b in body:
        for n, s in enumerate(b.succs):
            if s in body:
                continue
            t = b.term
            if t.op != "br" or not t.ops:
                return "leaves the loop in an unknown way"
            if s not in quiet.get(b, ()):
                continue                                     # only after an unordered pair
            c = t.ops[0]
            if isinstance(c, Ins) and c.op == "phi" and c.bb is b:
                live = {o for o, p in zip(c.ops, c.blocks) if b in quiet.get(p, ())}
                c = live.pop() if len(live) == 1 else None   # the other parts of the condition decide nothing here
            if not isinstance(c, Ins) or c.op != "icmp":
                return "may leave the loop early (%s)" % t.where()
            p = c.pred if s is t.blocks[1] else NEG[c.pred]        # the loop goes on when p holds
            x, y = sc.aff(c.ops[0]), sc.aff(c.ops[1])
            if x is None or y is None:
                return "may leave the loop early (%s)" % t.where()
            if iv in y:
                x, y, p = y, x, SWAP[p]
            if x.get(iv) != 1 or iv in y:
                return "may leave the loop early (%s)" % t.where()
            y = comb(y, {q: z for q, z in x.items() if q is not iv}, -1)          # iv p y
            p = {"ult": "slt", "ule": "sle", "ugt": "sgt", "uge": "sge"}.get(p, p)
            if step == 1 and p in ("slt", "sle", "ne"):
                end = comb(y, {None: 0 if p == "sle" else 1}, -1)
            elif step == -1 and p in ("sgt", "sge", "ne"):
                end = comb(y, {None: 0 if p == "sge" else 1}, 1)
            else:
                return "runs in an unknown direction"
            if not dominates(idom, b, i.bb):
                end = comb(end, {None: step}, 1)             # tested after the comparison: one more round
            if last is not None and last != end:
                return "has two different ends"
            last = end
    if last is None:
        return "has no end"
    final = sub(k, last)
    lo, hi = (first, final) if step * k[iv] == 1 else (final, first)
    if const(lo) != 0:
        return "the first pair compared is not the first one"
    if const(comb(hi, {"n": 1, None: -2}, -1)) != 0:
        return "the last pair compared is not the last one"
    return h


class Ordered(paths.Dom):
    """executions in which the comparison never finds an unordered pair"""

    def __init__(self, i, v):
        self.i, self.v = i, v

    def step(self, s, i, env, flow):
        if i is self.i:
            env[i] = self.v
        return s


def ordered_edges(f, i, bad_when):
    fl = paths.Flow(f, track=True)
    fl.solve(Ordered(i, int(not bad_when)), init=0)
    out = {}
    for b, tab in fl.states.items():
        for k, st in tab.items():
            for s, _, _ in fl._run(b, dict(k[0]), dict(k[1]), st, 0):
                out.setdefault(b, set()).add(s)
    return out


main("C13", run, explanation="typestate over LLVM IR: affine coverage of the adjacent-pair scan, path-sensitive outcome of an unordered pair, dominance of output writes")
