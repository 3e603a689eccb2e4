"""Finite case analysis on LLVM IR: a state is the set of cases ("worlds") in which a
point can be reached. A case fixes the values of a few inputs; branch conditions that
are decided by them split the cases, all other conditions are taken both ways."""
import paths
from llir import Ins

NEGP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}


class Worlds(paths.Dom):
    """worlds: hashable cases; atom(v, world) gives the value of an instruction in a case (or None).
    A state is a frozenset of (world, frozenset of (phi, value))."""
    MAXV = 1 << 40

    def __init__(self, start, atom, reset=None, keep=None, on=None, limit=20000):
        self.begin, self.atom, self.reset_at, self.keepset, self.on, self.limit = frozenset(start), atom, reset, keep, on, limit
        self.full = frozenset((w, frozenset()) for w in start)

    def init(self):
        return self.full

    def val(self, v, w, pe, d=0):
        if not isinstance(v, Ins):
            return v.v if v.k in ("int", "fp") else 0 if v.k == "null" else None
        if d > 24:
            return None
        if v in pe:
            return pe[v]
        a = self.atom(v, w)
        if a is not None:
            return a
        o = v.op
        if o in ("zext", "sext", "trunc", "freeze"):
            x = self.val(v.ops[0], w, pe, d + 1)
            if x is None:
                return None
            if o == "zext" and v.ops[0].ty.startswith("i"):
                x = int(x) & ((1 << int(v.ops[0].ty[1:])) - 1)
            return paths._sx(int(x), v.ty)
        if o in ("sitofp", "uitofp", "fpext", "fptrunc"):
            x = self.val(v.ops[0], w, pe, d + 1)
            return None if x is None else float(x)
        if o in ("fptosi",):
            x = self.val(v.ops[0], w, pe, d + 1)
            return None if x is None or abs(x) > 1e18 else int(x)
        if o in ("icmp", "fcmp"):
            a, b = self.val(v.ops[0], w, pe, d + 1), self.val(v.ops[1], w, pe, d + 1)
            if a is None or b is None:
                return None
            p = v.pred
            if o == "icmp" and p[0] == "u" and p[1:] in NEGP:
                wd = int(v.ops[0].ty[1:]) if v.ops[0].ty.startswith("i") else 64
                a, b, p = int(a) & ((1 << wd) - 1), int(b) & ((1 << wd) - 1), p[1:]
            elif p not in NEGP:
                p = p[1:]
            return int(NEGP[p](a, b)) if p in NEGP else None
        if o == "select":
            c = self.val(v.ops[0], w, pe, d + 1)
            if c is None:
                a, b = self.val(v.ops[1], w, pe, d + 1), self.val(v.ops[2], w, pe, d + 1)
                return a if a is not None and a == b else None
            return self.val(v.ops[1] if c else v.ops[2], w, pe, d + 1)
        if o in ("and", "or", "xor", "add", "sub", "mul", "fadd", "fsub", "fmul", "shl", "sdiv", "srem", "ashr"):
            a, b = self.val(v.ops[0], w, pe, d + 1), self.val(v.ops[1], w, pe, d + 1)
            if v.ty == "i1" and o in ("and", "or"):
                z = 0 if o == "and" else 1
                if a == z or b == z:
                    return z
            if o == "and" and 0 in (a, b) or o == "mul" and 0 in (a, b):
                return 0
            if o == "or" and v.ty != "i1" and (a or b) and self.boolean(v.ops[0]) and self.boolean(v.ops[1]):
                return 1
            if a is None or b is None:
                return None
            if o[0] == "f":
                return {"fadd": a + b, "fsub": a - b, "fmul": a * b}[o]
            a, b = int(a), int(b)
            if o in ("sdiv", "srem"):
                if b == 0:
                    return None
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if o == "sdiv" else a - q * b
            r = {"and": a & b, "or": a | b, "xor": a ^ b, "add": a + b, "sub": a - b, "mul": a * b,
                 "shl": a << b if 0 <= b < 64 else 0, "ashr": a >> b if 0 <= b < 64 else 0}[o]
            return paths._sx(r, v.ty)
        return None

    @staticmethod
    def boolean(v):
        return isinstance(v, Ins) and v.op == "zext" and v.ops[0].ty == "i1"

    # ------------------------------------------------------------- domain
    def step(self, s, i, env, flow):
        if self.on is not None:
            s = self.on(s, i, self)
        return s

    opaque = False      # a condition depends on memory that is not followed

    def unknown(self, v, d=0):
        """the value is read from memory reached through a local object or a stored pointer"""
        if not isinstance(v, Ins) or d > 20 or v in self.keepset:
            return False
        if v.op == "load":
            p = v.ops[0]
            while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
                p = p.ops[0]
            return isinstance(p, Ins) and p.op in ("alloca", "phi", "select", "load")
        return v.op not in ("phi", "call") and any(self.unknown(o, d + 1) for o in v.ops)

    def refine(self, s, c, truth, env, flow):
        out = set()
        for w, pe in s:
            x = self.val(c, w, dict(pe))
            if x is None and not self.opaque and self.unknown(c):
                self.opaque = True
            if x is None or bool(x) == truth:
                out.add((w, pe))
        return frozenset(out) or None

    def switch(self, s, v, case, cases):
        out = set()
        for w, pe in s:
            x = self.val(v, w, dict(pe))
            if x is None or (x == case if case is not None else x not in cases):
                out.add((w, pe))
        return frozenset(out) or None

    def phis(self, s, pairs, env, flow):
        if self.reset_at is not None and any(x is self.reset_at for x, _ in pairs):
            return self.full
        out = set()
        for w, pe in s:
            d = dict(pe)
            n = {}
            for x, v in pairs:
                if self.keepset is not None and x not in self.keepset:
                    continue
                y = self.val(v, w, d)
                n[x] = y if y is not None and abs(y) <= self.MAXV else None
            for x, _ in pairs:
                d.pop(x, None)
            for x, y in n.items():
                if y is not None:
                    d[x] = y
            out.add((w, frozenset(d.items())))
        if len(out) > self.limit:
            out = {(w, frozenset()) for w, _ in out}
        return frozenset(out)

    def join(self, a, b, block):
        n = a | b
        if len(n) > self.limit:
            n = frozenset((w, frozenset()) for w, _ in n)
            return n, n != a
        return n, len(n) != len(a)


def comb(a, b, s):
    out = dict(a)
    for k, c in b.items():
        out[k] = out.get(k, 0) + s * c
    return {k: c for k, c in out.items() if c}


def affine(v, d=0):
    """{leaf: factor} with the constant under None; None when not affine"""
    if not isinstance(v, Ins):
        return ({None: v.v} if v.v else {}) if v.k == "int" else {v: 1} if v.k == "arg" else None
    if d > 20:
        return None
    if v.op in ("sext", "zext", "freeze", "trunc"):
        return affine(v.ops[0], d + 1)
    if v.op in ("add", "sub"):
        a, b = affine(v.ops[0], d + 1), affine(v.ops[1], d + 1)
        return None if a is None or b is None else comb(a, b, 1 if v.op == "add" else -1)
    if v.op in ("phi", "load", "call"):
        return {v: 1}
    return None


def element(p):
    """(base pointer, affine element index) of an address base[k]"""
    tot = {}
    while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
        if p.op == "gep":
            if len(p.ops) != 2:
                return None
            a = affine(p.ops[1])
            if a is None:
                return None
            tot = comb(tot, a, 1)
        p = p.ops[0]
    return p, tot


def strip(v):
    while isinstance(v, Ins) and v.op in ("sext", "zext", "trunc", "freeze", "sitofp", "fpext", "fptrunc"):
        v = v.ops[0]
    return v


def small_counters(fn, loops):
    """flags and counters of loops with a small constant bound"""
    keep = set()
    for b in fn.bbs:
        for x in b.ins:
            if x.op != "phi" or not x.ty.startswith("i"):
                continue
            if x.ty == "i1":
                keep.add(x)
                continue
            if b in loops:
                if any(t.op == "icmp" and any(o.k == "int" and abs(o.v) <= 64 for o in t.ops if not isinstance(o, Ins)) and any(strip(o) is x for o in t.ops)
                       for t in b.ins + [u for u in x.users]) and any(not isinstance(o, Ins) and o.k == "int" for o in x.ops):
                    keep.add(x)
    ch = True
    while ch:                       # flags: every incoming value is a constant or another flag
        ch = False
        for b in fn.bbs:
            for x in b.ins:
                if x.op == "phi" and x not in keep and x.ty.startswith("i") and \
                        all((not isinstance(o, Ins) and o.k == "int") or o is x or strip(o) in keep or (isinstance(strip(o), Ins) and strip(o).op in ("icmp", "fcmp")) for o in x.ops):
                    keep.add(x)
                    ch = True
    return keep
