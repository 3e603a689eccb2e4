"""Ranges of floating-point values together with what may be NaN and what cannot be 0 (for lib/paths.Flow)."""
import paths
import ranges
from llir import Ins
from ranges import FLOATS, INF

SAME = ("fpext", "fptrunc", "freeze", "fneg")


class NState(ranges.State):
    __slots__ = ("nan", "nz")

    def __init__(self, env=None, cells=None, nan=frozenset(), nz=frozenset()):
        super().__init__(env, cells)
        self.nan, self.nz = nan, nz


class Nums(ranges.Ranges):
    """nan: values that may not be numbers; nz: values known to differ from 0. Loaded values and arguments are taken to be numbers."""

    def start(self):
        s = super().start()
        return NState(s.env, s.cells)

    def copy(self, s):
        return NState(dict(s.env), dict(s.cells), s.nan, s.nz)

    def mnan(self, s, v):
        return v in s.nan if isinstance(v, Ins) else v.k == "fp" and v.v != v.v

    def nonzero(self, s, v):
        if not isinstance(v, Ins):
            return v.k in ("fp", "int") and v.v != 0
        if v in s.nz:
            return True
        lo, hi = self.get(s, v)
        if lo > 0 or hi < 0:
            return True
        if v.op in SAME or self._fn(v) in ("sqrt", "fabs"):
            return self.nonzero(s, v.ops[0])
        if v.op == "fmul":
            return self.nonzero(s, v.ops[0]) and self.nonzero(s, v.ops[1])
        return False

    @staticmethod
    def _fn(i):
        if i.op != "call" or i.callee.k != "fn":
            return None
        n = i.callee.name
        if n.startswith("llvm."):
            return n.split(".")[1]
        return n[:-1] if n.endswith("f") else n

    def farith(self, s, i):
        f = self._fn(i)
        a = self.get(s, i.ops[0]) if i.ops else None
        if f == "sqrt":
            return (max(a[0], 0) ** 0.5, a[1] ** 0.5 if 0 <= a[1] < INF else INF)
        if f == "fabs":
            lo = 0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1]))
            return (lo, max(abs(a[0]), abs(a[1])))
        return super().farith(s, i)

    def _nan(self, s, i):
        o, f = i.op, self._fn(i)
        if o == "fdiv":
            return any(self.mnan(s, x) for x in i.ops) or not self.nonzero(s, i.ops[1])
        if o in ("fadd", "fsub", "fmul") or o in SAME:
            return any(self.mnan(s, x) for x in i.ops)
        if o == "select":
            for truth, v in ((True, i.ops[1]), (False, i.ops[2])):
                x = self._assume(self.copy(s), i.ops[0], truth)
                if x is not None and self.mnan(x, v):
                    return True
            return False
        if f in ("minnum", "maxnum", "fmin", "fmax"):
            return self.mnan(s, i.ops[0]) and self.mnan(s, i.ops[1])
        if f in ("acos", "asin"):
            lo, hi = self.get(s, i.ops[0])
            return self.mnan(s, i.ops[0]) or lo < -1 or hi > 1
        if f in ("sqrt", "log", "log10"):
            return self.mnan(s, i.ops[0]) or self.get(s, i.ops[0])[0] < 0
        if f is not None and i.ty in FLOATS:
            return any(self.mnan(s, x) for x in i.ops if x.ty in FLOATS)
        return False

    def step(self, s, i, env, flow):
        if i.ty in FLOATS and i.op != "phi":
            s.nz = s.nz - {i}
            n = self._nan(s, i)
            s = super().step(s, i, env, flow)
            s.nan = s.nan | {i} if n else s.nan - {i}
            return s
        return super().step(s, i, env, flow)

    def phis(self, s, pairs, env, flow):
        nan = {x for x, v in pairs if self.mnan(s, v)}
        nz = {x for x, v in pairs if x.ty in FLOATS and self.nonzero(s, v)}
        s = super().phis(s, pairs, env, flow)
        xs = {x for x, v in pairs}
        s.nan, s.nz = (s.nan - xs) | nan, (s.nz - xs) | nz
        return s

    @staticmethod
    def _through(v):
        out = {v}
        while isinstance(v, Ins) and v.op in SAME:
            v = v.ops[0]
            out.add(v)
        return out

    def _assume(self, s, c, truth):
        f = self._fn(c) if isinstance(c, Ins) else None
        if f == "is" and c.callee.name.startswith("llvm.is.fpclass") and c.ops[1].k == "int":
            isnan = c.ops[1].v & 3
            if (isnan == 3 and not truth) or (not isnan and truth):
                s.nan = s.nan - self._through(c.ops[0])
            return s
        return super()._assume(s, c, truth)

    def _fassume(self, s, c, truth):
        o, p = c.pred[:1], c.pred[1:]
        a, b = c.ops
        if c.pred in ("ord", "uno"):
            if (c.pred == "ord") == truth:
                s.nan = s.nan - self._through(a) - self._through(b)
            elif not self.mnan(s, a) and not self.mnan(s, b):
                return None
            return s
        maynan = self.mnan(s, a) or self.mnan(s, b)
        if (o == "o") == truth and p in ("lt", "le", "gt", "ge", "eq", "ne"):
            s.nan = s.nan - self._through(a) - self._through(b)
            maynan = False
        q = p if truth else {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne", "ne": "eq"}.get(p)
        for x, y, k in ((a, b, q), (b, a, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(q, q))):
            if isinstance(x, Ins):
                lo, hi = self.get(s, y)
                if k == "gt" and lo >= 0 or k == "lt" and hi <= 0 or k == "ne" and lo == hi == 0:
                    s.nz = s.nz | self._through(x)
        if a is b and isinstance(a, Ins):
            return s
        t = super()._fassume(s, c, truth)
        return s if t is None and maynan else t

    def join(self, a, b, block):
        st, ch = super().join(a, b, block)
        nan, nz = a.nan | b.nan, a.nz & b.nz
        return NState(st.env, st.cells, nan, nz), ch or nan != a.nan or nz != a.nz


def solve(m, fn, seeds):
    """the states of fn with every float value followed: (domain, flow)"""
    rel = {i for i in fn.instrs() if i.ty in FLOATS} | ranges.relevant(fn, m, seeds, set(), floats=True)
    d = Nums(m, fn, rel, {}, {-1, 0, 1})
    fl = paths.Flow(fn, track=False)
    fl.solve(d, init=d.start())
    return d, fl
