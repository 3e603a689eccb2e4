"""Path-sensitive forward dataflow over LLVM IR.

States are kept apart by the values of flags (phis and call results that are
compared with constants) and by the outcome of conditions that are tested more
than once, so paths that contradict themselves are not joined (property
simulation).  A domain supplies the state and its transfer functions.
"""
import heapq
from llir import Ins, V, NEG, SWAP, rpo

PURE = {"icmp", "zext", "sext", "trunc", "and", "or", "xor", "select", "add", "sub", "mul", "srem", "sdiv", "urem", "udiv", "shl", "ashr", "lshr", "freeze"}
NONARITH = {"icmp", "zext", "sext", "trunc", "select", "and", "or", "xor", "freeze"}


class TooBig(Exception):
    pass


def _sx(v, ty):
    if isinstance(v, int) and ty.startswith("i"):
        w = int(ty[1:])
        if w == 1:
            return v & 1
        v &= (1 << w) - 1
        if v >> (w - 1):
            v -= 1 << w
    return v


class Flow:
    LIMIT = 400

    def __init__(self, fn, ptr_tokens=None, track=True, extra_uses=None, useful_call=None, loose=False):
        """ptr_tokens(ins) -> hashable token for a call whose pointer result is tracked, or None"""
        self.fn = fn
        self.order = rpo(fn)
        self.num = {b: i for i, b in enumerate(self.order)}
        self.ptok = ptr_tokens or (lambda i: None)
        self.track = track
        self.loose = loose      # a difference of loaded values is an unknown value, not a reason to give up on a flag
        self.useful_call = useful_call or (lambda i: False)
        self._canon = {}
        self._leaf = {}
        self.tracked = self._tracked() if track else set()
        self._conds()
        self._live(extra_uses or (lambda i: ()))

    # --------------------------------------------------------- preparation
    def _tracked(self):
        cand = {i for b in self.order for i in b.ins if i.op == "phi" and (i.ty.startswith("i") or i.ty == "ptr")}
        ch = True
        while ch:
            ch = False
            for p in list(cand):
                if not all(self._okin(v, cand) for v in p.ops) or not any(self._useful(v, cand) for v in p.ops):
                    cand.discard(p)
                    ch = True
        return cand

    def _okin(self, v, cand, d=0):
        if not isinstance(v, Ins) or d > 6:
            return not isinstance(v, Ins)
        if v.op == "phi":
            return v in cand or True
        if v.op in NONARITH:
            return all(self._okin(o, cand, d + 1) for o in v.ops)
        if self.loose and v.op == "sub" and all(isinstance(o, Ins) and o.op == "load" for o in v.ops):
            return True
        return v.op in ("call", "load", "gep", "extractvalue", "fptosi", "sitofp", "fcmp", "alloca", "bitcast", "inttoptr")

    def _useful(self, v, cand, d=0):
        if d > 6:
            return False
        if not isinstance(v, Ins):
            return v.k in ("int", "null", "undef")
        if v.op == "phi":
            return v in cand
        if v.op in NONARITH:
            return any(self._useful(o, cand, d + 1) for o in v.ops)
        return v.op == "call" and (self.ptok(v) is not None or self.useful_call(v))

    def canon(self, v, d=0):
        """structural identity of a pure expression"""
        if not isinstance(v, Ins):
            return (v.k, v.v) if v.k in ("int", "fp") else (v.k, id(v))
        if v in self._canon:
            return self._canon[v]
        if v.op in PURE and v.op not in ("select",) and d < 12:
            r = (v.op, v.pred, v.ty) + tuple(self.canon(o, d + 1) for o in v.ops)
        else:
            r = ("leaf", id(v))
            self._leaf[id(v)] = v
        self._canon[v] = r
        return r

    def cond(self, v):
        """(canonical condition, polarity); boolean wrappers are peeled"""
        pol = True
        while isinstance(v, Ins):
            if v.op == "xor" and v.ty == "i1" and v.ops[1].k == "int" and v.ops[1].v == 1:
                pol = not pol
                v = v.ops[0]
            elif v.op == "icmp" and v.pred in ("eq", "ne") and v.ops[1].k == "int" and v.ops[1].v == 0 and isinstance(v.ops[0], Ins) \
                    and (v.ops[0].op == "zext" and v.ops[0].ops[0].ty == "i1"):
                if v.pred == "eq":
                    pol = not pol
                v = v.ops[0].ops[0]
            elif v.op == "freeze":
                v = v.ops[0]
            else:
                break
        if isinstance(v, Ins) and v.op == "icmp":
            a, b, p = self.canon(v.ops[0]), self.canon(v.ops[1]), v.pred
            if p in ("ne", "sge", "sgt", "uge", "ugt"):
                p = NEG[p]
                pol = not pol
            if p == "eq" and repr(a) > repr(b):
                a, b = b, a
            return ("icmp", p, a, b), pol
        return self.canon(v), pol

    @staticmethod
    def _leaves(c, out):
        if isinstance(c, tuple):
            if c and c[0] == "leaf":
                out.add(c[1])
            else:
                for x in c:
                    Flow._leaves(x, out)
        return out

    def _conds(self):
        cnt = {}
        self.bcond = {}
        for b in self.order:
            t = b.term
            if t.op == "br" and t.ops:
                c, pol = self.cond(t.ops[0])
                self.bcond[b] = (c, pol)
                cnt.setdefault(c, set()).add(b)
        self.multi = {c: bs for c, bs in cnt.items() if len(bs) > 1} if self.track else {}
        self.cleaves = {c: self._leaves(c, set()) for c in self.multi}
        # blocks from which another test of the condition is reachable without redefining its leaves
        self.cond_at = {b: set() for b in self.order}
        for c, bs in self.multi.items():
            defs = {self._leaf[i].bb for i in self.cleaves[c]}
            seen = set()
            st = list(bs)
            while st:
                x = st.pop()
                if x in seen or x not in self.cond_at:
                    continue
                seen.add(x)
                self.cond_at[x].add(c)
                if x not in defs:
                    st += x.preds
        self.kill = {}
        for c in self.multi:
            for i in self.cleaves[c]:
                self.kill.setdefault(self._leaf[i], []).append(c)

    def _live(self, extra):
        """blocks at whose entry (after the phis) a tracked leaf is still wanted"""
        leaves = set(self.tracked)
        users = {}

        def base(v, d=0):
            if not isinstance(v, Ins):
                return ()
            if v in self.tracked:
                return (v,)
            if v.op in ("call", "load", "phi"):
                return (v,)
            if v.op in PURE and d < 12:
                return tuple(x for o in v.ops for x in base(o, d + 1))
            return ()
        self.base = base
        for b in self.order:
            for i in b.ins:
                if i.op == "phi":
                    if i in self.tracked:
                        for v, p in zip(i.ops, i.blocks):
                            for x in base(v):
                                users.setdefault(x, set()).add((p, True))
                elif i.op in ("br", "switch", "ret"):
                    for o in i.ops[:1]:
                        for x in base(o):
                            users.setdefault(x, set()).add((b, False))
                else:
                    for x in extra(i):
                        for y in base(x):
                            users.setdefault(y, set()).add((b, False))
                    if i.op == "select" or i.op == "icmp":
                        pass
        self.live_at = {b: set() for b in self.order}
        self.live_out = {b: set() for b in self.order}
        for x, us in users.items():
            if x not in self.tracked and x.op == "phi":
                continue
            st = []
            for b, edge in us:
                if b not in self.live_at:
                    continue
                if edge:
                    self.live_out[b].add(x)
                if x.bb is b:
                    if x.op == "phi":
                        self.live_at[b].add(x)
                    elif not edge:
                        continue
                    continue
                st.append(b)
            seen = set()
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                self.live_at[b].add(x)
                for p in b.preds:
                    if p not in self.live_out:
                        continue
                    self.live_out[p].add(x)
                    if p is x.bb:
                        if x.op == "phi":
                            self.live_at[p].add(x)
                    else:
                        st.append(p)

    # --------------------------------------------------------- evaluation
    def ev(self, v, env, d=0):
        if not isinstance(v, Ins):
            if v.k == "int":
                return v.v
            if v.k == "null":
                return 0
            return None
        if v in env:
            return env[v]
        t = self.ptok(v) if v.op in ("call", "load") else None
        if t is not None:
            return t
        if d > 12:
            return None
        o = v.op
        if o in ("zext", "sext", "trunc", "freeze"):
            a = self.ev(v.ops[0], env, d + 1)
            if not isinstance(a, int):
                return None
            if o == "zext":
                w = int(v.ops[0].ty[1:])
                a &= (1 << w) - 1
            elif o == "sext" and v.ops[0].ty == "i1":
                a = -a
            return _sx(a, v.ty)
        if o == "icmp":
            a, b = self.ev(v.ops[0], env, d + 1), self.ev(v.ops[1], env, d + 1)
            if isinstance(a, tuple) and b == 0 and v.pred in ("eq", "ne"):
                return int(v.pred == "ne")          # a successful allocation is not NULL
            if not isinstance(a, int) or not isinstance(b, int):
                if self.canon(v.ops[0]) == self.canon(v.ops[1]):
                    return int(v.pred in ("eq", "sge", "sle", "uge", "ule"))
                return None
            if v.pred[0] == "u":
                w = int(v.ops[0].ty[1:]) if v.ops[0].ty.startswith("i") else 64
                a &= (1 << w) - 1
                b &= (1 << w) - 1
            return int({"eq": a == b, "ne": a != b}.get(v.pred, {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}.get(v.pred[1:])))
        if o == "select":
            c = self.ev(v.ops[0], env, d + 1)
            if c is None:
                a, b = self.ev(v.ops[1], env, d + 1), self.ev(v.ops[2], env, d + 1)
                return a if a is not None and a == b else None
            return self.ev(v.ops[1] if c else v.ops[2], env, d + 1)
        if o in ("and", "or") and v.ty == "i1":
            a, b = self.ev(v.ops[0], env, d + 1), self.ev(v.ops[1], env, d + 1)
            z = 0 if o == "and" else 1
            if a == z or b == z:
                return z
            return None if a is None or b is None else (1 - z)
        if o in ("add", "sub", "mul", "and", "or", "xor", "srem", "sdiv", "shl", "ashr"):
            a, b = self.ev(v.ops[0], env, d + 1), self.ev(v.ops[1], env, d + 1)
            if not isinstance(a, int) or not isinstance(b, int):
                return None
            if o in ("srem", "sdiv"):
                if b == 0:
                    return None
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return _sx(q if o == "sdiv" else a - q * b, v.ty)
            return _sx({"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b, "shl": a << b if 0 <= b < 64 else 0,
                        "ashr": a >> b if 0 <= b < 64 else 0}[o], v.ty)
        return None

    def assume(self, v, truth, env, facts):
        """add what a branch outcome tells; False when it contradicts"""
        k = self.ev(v, env)
        if isinstance(k, int):
            return bool(k) == truth
        c, pol = self.cond(v)
        t = truth == pol
        if c in facts:
            return facts[c] == t
        if c in self.multi:
            facts[c] = t
        if isinstance(v, Ins):
            if v.op == "icmp" and ((v.pred == "eq" and truth) or (v.pred == "ne" and not truth)):
                for a, b in ((v.ops[0], v.ops[1]), (v.ops[1], v.ops[0])):
                    if b.k == "int":
                        self._bind(a, b.v, env)
            elif v.op == "xor" and v.ty == "i1" and v.ops[1].k == "int" and v.ops[1].v == 1:
                return self.assume(v.ops[0], not truth, env, facts)
            elif v.op == "and" and v.ty == "i1" and truth:
                return self.assume(v.ops[0], True, env, facts) and self.assume(v.ops[1], True, env, facts)
            elif v.op == "or" and v.ty == "i1" and not truth:
                return self.assume(v.ops[0], False, env, facts) and self.assume(v.ops[1], False, env, facts)
            elif v.op == "select" and v.ty == "i1":
                if truth and v.ops[2].k == "int" and v.ops[2].v == 0:
                    return self.assume(v.ops[0], True, env, facts) and self.assume(v.ops[1], True, env, facts)
                if not truth and v.ops[1].k == "int" and v.ops[1].v == 1:
                    return self.assume(v.ops[0], False, env, facts) and self.assume(v.ops[2], False, env, facts)
        return True

    def _bind(self, a, c, env):
        if isinstance(a, Ins):
            if a.op in ("call", "load") or a in self.tracked:
                if a not in env:
                    env[a] = c
            elif a.op in ("sext", "zext"):
                self._bind(a.ops[0], c, env)

    # --------------------------------------------------------- solving
    def _key(self, b, env, facts):
        live = self.live_at[b]
        ca = self.cond_at[b]
        return (frozenset((x, v) for x, v in env.items() if v is not None and (isinstance(x, tuple) or x in live)),
                frozenset((c, t) for c, t in facts.items() if c in ca))

    def solve_from(self, dom, ins, env, facts, init=0):
        """continue from just after an instruction"""
        return self.solve(dom, init, (ins, env, facts))

    def solve(self, dom, init=None, start=None):
        """run from the entry (or from just after instruction start with state init)"""
        entry = self.order[0]
        self.dom = dom
        self.states = {}
        heap = []
        seq = 0
        queued = set()
        if start is None:
            k = self._key(entry, {}, {})
            self.states.setdefault(entry, {})[k] = init
            heapq.heappush(heap, (0, seq, entry, k))
            queued.add((entry, k))
        else:
            env0 = dict(start[1])
            b = start[0].bb
            for s, k, st in self._run(b, env0, dict(start[2]), init, start[0].idx + 1):
                self._merge(s, k, st, heap, queued)
        steps = 0
        while heap:
            _, _, b, k = heapq.heappop(heap)
            queued.discard((b, k))
            steps += 1
            if steps > 400000:
                raise TooBig("%s: too many states" % self.fn.name)
            st = dom.copy(self.states[b][k])
            env, facts = dict(k[0]), dict(k[1])
            for s, k2, st2 in self._run(b, env, facts, st, 0):
                self._merge(s, k2, st2, heap, queued)
        return self

    def _merge(self, s, k, st, heap, queued):
        tab = self.states.setdefault(s, {})
        if k not in tab:
            if len(tab) >= self.LIMIT:
                k = (k[0], frozenset())
                if k not in tab and len(tab) >= 2 * self.LIMIT:
                    k = (frozenset(), frozenset())
            if k not in tab:
                tab[k] = st
                if (s, k) not in queued:
                    queued.add((s, k))
                    self._push(heap, s, k)
                return
        n, ch = self.dom.join(tab[k], st, s)
        if ch:
            tab[k] = n
            if (s, k) not in queued:
                queued.add((s, k))
                self._push(heap, s, k)

    _seq = 0

    def _push(self, heap, s, k):
        Flow._seq += 1
        heapq.heappush(heap, (self.num[s], Flow._seq, s, k))

    def _run(self, b, env, facts, st, i0):
        dom = self.dom
        for i in b.ins[i0:]:
            if i.op == "phi":
                continue
            if i in self.kill:
                for c in self.kill[i]:
                    facts.pop(c, None)
            if i.op in ("call", "load") and i in env:
                del env[i]
            if i is b.term:
                break
            st = dom.step(st, i, env, self)
            if st is None:
                return
        t = b.term
        if t.op in ("ret", "unreachable"):
            st = dom.step(st, t, env, self)
            return
        outs = []
        if t.op == "br" and t.ops:
            for s, truth in ((t.blocks[0], True), (t.blocks[1], False)):
                e2, f2 = dict(env), dict(facts)
                if not self.assume(t.ops[0], truth, e2, f2):
                    continue
                s2 = dom.refine(dom.copy(st), t.ops[0], truth, e2, self)
                if s2 is not None:
                    outs.append((s, e2, f2, s2))
        elif t.op == "switch":
            k = self.ev(t.ops[0], env)
            for n, s in enumerate(t.blocks):
                e2 = dict(env)
                if n:
                    c = t.ops[n].v
                    if isinstance(k, int) and k != c:
                        continue
                    self._bind(t.ops[0], c, e2)
                elif isinstance(k, int) and k in [o.v for o in t.ops[1:]]:
                    continue
                s2 = dom.switch(dom.copy(st), t.ops[0], t.ops[n].v if n else None, [o.v for o in t.ops[1:]])
                if s2 is not None:
                    outs.append((s, e2, dict(facts), s2))
        else:
            outs.append((t.blocks[0], env, facts, st))
        for s, e2, f2, s2 in outs:
            phis = [x for x in s.ins if x.op == "phi"]
            if phis:
                new = {}
                pairs = []
                for x in phis:
                    v = x.ops[x.blocks.index(b)]
                    pairs.append((x, v))
                    if x in self.tracked:
                        new[x] = self.ev(v, e2)
                s2 = dom.phis(s2, pairs, e2, self)
                if s2 is None:
                    continue
                for x in phis:
                    for c in self.kill.get(x, ()):
                        f2.pop(c, None)
                    e2.pop(x, None)
                for x, v in new.items():
                    if v is not None:
                        e2[x] = v
            yield s, self._key(s, e2, f2), s2


class Dom:
    """a domain with no state"""
    def copy(self, s):
        return s

    def join(self, a, b, block):
        return a, False

    def step(self, s, i, env, flow):
        return s

    def refine(self, s, cond, truth, env, flow):
        return s

    def switch(self, s, v, case, cases):
        return s

    def phis(self, s, pairs, env, flow):
        return s
