"""Interval domain over LLVM IR integers and scalar memory cells (for lib/paths.Flow)."""
import math
import paths
from cflow import root
from llir import Ins, NEG, SWAP

INF = float("inf")
TOP = (-INF, INF)


def width(ty):
    return int(ty[1:]) if ty.startswith("i") else 64


FLOATS = ("float", "double")


def full(ty):
    if ty in FLOATS:
        return TOP
    w = width(ty)
    return (0, 1) if w == 1 else (-(1 << (w - 1)), (1 << (w - 1)) - 1)


def meet(a, b):
    lo, hi = max(a[0], b[0]), min(a[1], b[1])
    return (lo, hi) if lo <= hi else None


class State:
    __slots__ = ("env", "cells")

    def __init__(self, env=None, cells=None):
        self.env, self.cells = env or {}, cells or {}


class Ranges(paths.Dom):
    """cells: {(root value id, offset)} scalar memory the analysis follows; init: their initial ranges"""

    def __init__(self, m, fn, relevant, init, thresholds, args=None):
        self.args = args or {}
        self.m, self.fn, self.rel, self.init = m, fn, relevant, init
        self.th = sorted(set(thresholds))
        self.visits = {}
        self.on_step = None

    def start(self):
        return State({}, {k: (v, None) for k, v in self.init.items()})

    def copy(self, s):
        return State(dict(s.env), dict(s.cells))

    # ---------------------------------------------------------------- values
    def get(self, s, v):
        if not isinstance(v, Ins):
            if v in self.args:
                return self.args[v]
            return (v.v, v.v) if v.k == "int" else (v.v, v.v) if v.k == "fp" else full(v.ty) if v.ty.startswith("i") else TOP
        r = s.env.get(v)
        if r is None and v.op == "load":
            for c, l in s.cells.values():
                if l is v:
                    return c
        return r or full(v.ty)

    def fit(self, r, ty):
        f = full(ty)
        if r[0] < f[0] or r[1] > f[1]:
            # signed overflow is undefined in C: a value the program may have lies in the type's range
            r = (max(r[0], f[0]), min(r[1], f[1]))
            if r[0] > r[1]:
                return f
        return r

    def cell(self, p):
        off = 0
        while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                c, var = self.m.gep_offset(p)
                if var:
                    return None
                off += c
            p = p.ops[0]
        if p.k == "arg" or (isinstance(p, Ins) and p.op == "alloca"):
            return (p, off)
        return None

    def arith(self, s, i):
        o = i.op
        if i.ty in FLOATS or o in ("fptosi", "fptoui"):
            return self.farith(s, i)
        a = self.get(s, i.ops[0])
        if o in ("sext",):
            return a if i.ops[0].ty != "i1" else (-a[1], -a[0])
        if o == "zext":
            if a[0] >= 0:
                return a
            return (0, (1 << width(i.ops[0].ty)) - 1)
        if o == "trunc":
            f = full(i.ty)
            return a if a[0] >= f[0] and a[1] <= f[1] else f
        if o == "freeze":
            return a
        b = self.get(s, i.ops[1]) if len(i.ops) > 1 else TOP
        if o == "add":
            return self.fit((a[0] + b[0], a[1] + b[1]), i.ty)
        if o == "sub":
            return self.fit((a[0] - b[1], a[1] - b[0]), i.ty)
        if o == "mul":
            c = [x * y for x in a for y in b if abs(x) != INF and abs(y) != INF]
            return self.fit((min(c), max(c)), i.ty) if len(c) == 4 else full(i.ty)
        if o == "select":
            t, e = self.get(s, i.ops[1]), self.get(s, i.ops[2])
            c = i.ops[0]
            s1, s2 = self.copy(s), self.copy(s)
            s1, s2 = self._assume(s1, c, True), self._assume(s2, c, False)
            out = [self.get(x, v) for x, v in ((s1, i.ops[1]), (s2, i.ops[2])) if x is not None]
            if not out:
                return full(i.ty)
            return (min(x[0] for x in out), max(x[1] for x in out))
        if o == "srem" and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
            return (0, min(a[1], b[0] - 1))
        if o == "srem" and b[0] == b[1] and b[0] > 0:
            return (-b[0] + 1, b[0] - 1)
        if o == "sdiv" and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
            return (a[0] // b[0], a[1] // b[0])
        if o == "and" and b[0] == b[1] and b[0] >= 0:
            return (0, b[0])
        if o == "icmp":
            return (0, 1)
        return full(i.ty)

    def farith(self, s, i):
        o = i.op
        a = self.get(s, i.ops[0])
        if o in ("fptosi", "fptoui"):
            f = full(i.ty)
            if a[0] > f[0] - 1 and a[1] < f[1] + 1:
                return (int(a[0]), int(a[1]))
            return f
        if o in ("fpext", "fptrunc", "freeze", "sitofp", "uitofp"):
            return a
        if o == "fneg":
            return (-a[1], -a[0])
        if o == "call":
            n = i.callee.name if i.callee.k == "fn" else ""
            if n.startswith(("llvm.minnum", "fmin")):
                return (min(a[0], self.get(s, i.ops[1])[0]), min(a[1], self.get(s, i.ops[1])[1]))
            if n.startswith(("llvm.maxnum", "fmax")):
                return (max(a[0], self.get(s, i.ops[1])[0]), max(a[1], self.get(s, i.ops[1])[1]))
            if n.startswith(("llvm.round", "llvm.floor", "llvm.ceil", "llvm.rint", "llvm.trunc", "llvm.nearbyint")) or n.rstrip("f") in ("round", "rint", "trunc"):
                return tuple(x if abs(x) == INF else float(math.floor(x) if k == 0 else math.ceil(x)) for k, x in enumerate(a))
            if n.startswith(("llvm.fmuladd", "llvm.fma")):
                b, e = self.get(s, i.ops[1]), self.get(s, i.ops[2])
                c = [0.0 if 0 in (x, y) else x * y for x in a for y in b]
                lo, hi = (0.0 if a[0] <= 0 <= a[1] else min(c), max(c)) if i.ops[0] is i.ops[1] else (min(c), max(c))
                return (lo + e[0], hi + e[1])
            return TOP
        b = self.get(s, i.ops[1]) if len(i.ops) > 1 else TOP
        if o == "fadd":
            return (a[0] + b[0], a[1] + b[1])
        if o == "fsub":
            return (a[0] - b[1], a[1] - b[0])
        if o == "fmul" and i.ops[0] is i.ops[1]:
            c = [x * x for x in a]
            return (0.0 if a[0] <= 0 <= a[1] else min(c), max(c))
        if o == "fmul":
            c = [0.0 if 0 in (x, y) else x * y for x in a for y in b]
            return (min(c), max(c))
        if o == "fdiv" and b[0] == b[1] and b[0] > 0:
            return (a[0] / b[0], a[1] / b[0])
        if o == "select":
            out = []
            for truth, v in ((True, i.ops[1]), (False, i.ops[2])):
                x = self._assume(self.copy(s), i.ops[0], truth)
                if x is not None:
                    out.append(self.get(x, v))
            return (min(x[0] for x in out), max(x[1] for x in out)) if out else TOP
        return TOP

    # ---------------------------------------------------------------- transfer
    def step(self, s, i, env, flow):
        if self.on_step is not None:
            self.on_step(s, i)
        if i.op == "load":
            c = self.cell(i.ops[0])
            if i.ty.startswith("i") or i.ty in FLOATS:
                if c in s.cells:
                    if i in self.rel:
                        s.env[i] = s.cells[c][0]
                    s.cells[c] = (s.cells[c][0], i)
                elif i in self.rel:
                    s.env[i] = full(i.ty)
        elif i.op == "store":
            c = self.cell(i.ops[1])
            if c is not None:
                if c in s.cells or c in self.init:
                    s.cells[c] = (self.get(s, i.ops[0]), i.ops[0] if isinstance(i.ops[0], Ins) else None)
            else:
                r = root(i.ops[1])
                for k in list(s.cells):
                    if k[0] is r:
                        s.cells.pop(k)
        elif i.op == "call":
            for a in i.ops:
                r = root(a)
                for k in list(s.cells):
                    if k[0] is r:
                        s.cells.pop(k)
            if i in self.rel:
                s.env[i] = self.farith(s, i) if i.ty in FLOATS else full(i.ty)
        elif i in self.rel and i.op != "phi":
            s.env[i] = self.arith(s, i)
        return s

    def _narrow(self, s, v, r):
        """value v is now known to lie in r"""
        if not isinstance(v, Ins):
            return s if meet(self.get(s, v), r) else None
        n = meet(self.get(s, v), r)
        if n is None:
            return None
        if v in self.rel:                # else not followed: a remembered range would outlive a recomputation
            s.env[v] = n
        for k, (cr, last) in list(s.cells.items()):
            if last is v:
                s.cells[k] = (meet(cr, n) or n, v)
        if v.op in ("sext",) or (v.op == "zext" and n[0] >= 0):
            return self._narrow(s, v.ops[0], n)
        if v.op in ("fpext", "freeze") or v.op == "sitofp":
            return self._narrow(s, v.ops[0], n) if v.op != "sitofp" else s
        if v.op in ("add", "sub") and v.ops[1].k == "int":
            c = v.ops[1].v if v.op == "add" else -v.ops[1].v
            return self._narrow(s, v.ops[0], (n[0] - c, n[1] - c))
        return s

    def _assume(self, s, c, truth):
        if not isinstance(c, Ins):
            return s if c.k != "int" or bool(c.v) == truth else None
        if c.op == "xor" and c.ty == "i1" and c.ops[1].k == "int" and c.ops[1].v == 1:
            return self._assume(s, c.ops[0], not truth)
        if c.op == "and" and c.ty == "i1" and truth:
            s = self._assume(s, c.ops[0], True)
            return s and self._assume(s, c.ops[1], True)
        if c.op == "or" and c.ty == "i1" and not truth:
            s = self._assume(s, c.ops[0], False)
            return s and self._assume(s, c.ops[1], False)
        if c.op == "select" and c.ty == "i1":
            if truth and c.ops[2].k == "int" and not c.ops[2].v:
                s = self._assume(s, c.ops[0], True)
                return s and self._assume(s, c.ops[1], True)
            if not truth and c.ops[1].k == "int" and c.ops[1].v:
                s = self._assume(s, c.ops[0], False)
                return s and self._assume(s, c.ops[2], False)
            return s
        if c.op == "fcmp":
            return self._fassume(s, c, truth)
        if c.op != "icmp" or not c.ops[0].ty.startswith("i"):
            return s
        p = c.pred if truth else NEG[c.pred]
        a, b = c.ops
        for x, y, q in ((a, b, p), (b, a, SWAP[p])):
            yr = self.get(s, y)
            r = {"eq": yr, "slt": (-INF, yr[1] - 1), "sle": (-INF, yr[1]), "sgt": (yr[0] + 1, INF), "sge": (yr[0], INF)}.get(q)
            if q in ("ult", "ule") and yr[0] >= 0:
                r = (0, yr[1] - (q == "ult"))
            if q == "ne" and yr[0] == yr[1]:
                xr = self.get(s, x)
                if xr == yr:
                    return None
                if xr[0] == yr[0]:
                    r = (xr[0] + 1, INF)
                elif xr[1] == yr[0]:
                    r = (-INF, xr[1] - 1)
            if r is not None:
                s = self._narrow(s, x, r)
                if s is None:
                    return None
        return s

    def _fassume(self, s, c, truth):
        """the values are taken to be numbers: a NaN has no place in a range"""
        p = c.pred[1:]
        if p not in ("lt", "le", "gt", "ge", "eq"):
            return s
        if not truth:
            if p == "eq":
                return s
            p = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt"}[p]
        for x, y, q in ((c.ops[0], c.ops[1], p), (c.ops[1], c.ops[0], {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(p, p))):
            yr = self.get(s, y)
            s = self._narrow(s, x, yr if q == "eq" else (-INF, yr[1]) if q in ("lt", "le") else (yr[0], INF))
            if s is None:
                return None
        return s

    def refine(self, s, c, truth, env, flow):
        return self._assume(s, c, truth)

    def phis(self, s, pairs, env, flow):
        new = {x: self.get(s, v) for x, v in pairs if x in self.rel}
        last = {}
        for x, v in pairs:
            if x in self.rel and isinstance(v, Ins):
                last[v] = x
        s.env.update(new)
        for k, (cr, l) in list(s.cells.items()):
            if l in last:
                s.cells[k] = (cr, last[l])
            elif l is not None and any(x is l for x, _ in pairs):
                s.cells[k] = (cr, None)
        return s

    # ---------------------------------------------------------------- join
    def widen(self, o, n):
        lo = o[0] if n[0] >= o[0] else max([t for t in self.th if t <= n[0]], default=-INF)
        hi = o[1] if n[1] <= o[1] else min([t for t in self.th if t >= n[1]], default=INF)
        return (lo, hi)

    def join(self, a, b, block):
        ch = False
        self.visits[block] = self.visits.get(block, 0) + 1
        w = self.visits[block] > 6
        env = dict(a.env)
        for v, r in a.env.items():
            q = b.env.get(v)
            if q is None:
                continue                 # not computed on that path: a use there is dominated by another definition
            n = (min(r[0], q[0]), max(r[1], q[1]))
            if n != r:
                env[v] = self.fit(self.widen(r, n), v.ty) if w else n
                ch = True
        for v, q in b.env.items():
            if v not in a.env:
                env[v] = q
                ch = True
        cells = {}
        for k, (r, l) in a.cells.items():
            if k not in b.cells:
                ch = True
                continue
            q, l2 = b.cells[k]
            n = (min(r[0], q[0]), max(r[1], q[1]))
            if n != r:
                n = self.widen(r, n) if w else n
                ch = True
            if l is not l2 and l is not None:
                l = None
                ch = True
            cells[k] = (n, l)
        return State(env, cells), ch


FOPS = ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui")


def relevant(fn, m, seeds, cellset, floats=False):
    """integer values the seeds depend on (through memory cells and guarding comparisons)"""
    rel = set()
    work = list(seeds)
    stores = {}
    r = Ranges(m, fn, (), {}, ())
    for i in fn.instrs():
        if i.op == "store":
            c = r.cell(i.ops[1])
            if c in cellset:
                stores.setdefault(c, []).append(i.ops[0])
    while work:
        v = work.pop()
        if not isinstance(v, Ins) or v in rel or not (v.ty.startswith("i") or floats and v.ty in FLOATS):
            continue
        rel.add(v)
        if v.op == "load":
            c = r.cell(v.ops[0])
            if c in cellset:
                work += stores.get(c, [])
                continue
        elif v.op in ("phi", "add", "sub", "mul", "sext", "zext", "trunc", "select", "srem", "sdiv", "and", "or", "freeze", "xor", "shl"):
            work += v.ops
        elif floats and v.op in FOPS or v.op == "call" and floats:
            work += [o for o in v.ops if o.ty in FLOATS or v.op in ("sitofp", "uitofp")]
        for u in v.users:
            if u.op in ("icmp", "fcmp"):
                work += [o for o in u.ops if o is not v]
            elif u.op in ("sext", "zext", "add", "sub"):
                if any(x.op == "icmp" for x in u.users):
                    work.append(u)
    return rel
