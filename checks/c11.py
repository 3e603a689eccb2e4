"""C11 every published segment record is completely filled in."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cfacts
import cflow
import paths
from cflow import root
from llir import Ins, V, loops
from report import main, Broken
from worlds import affine, comb, strip

PROCS = ("cold", "stand_procedure", "stand_procedure_fixeddays", "inefficientobs_procedure", "obcold_reconstruction_procedure", "sccd", "sccd_standard", "sccd_snow",
         "step1_cold_initialize", "step1_ssm_initialize", "step2_KF_ChangeDetection", "step3_processing_end", "KF_ts_predict_conse", "KF_ts_filter_regular",
         "KF_ts_filter_falsechange", "allocate_2d_array", "free_2d_array", "write_message", "auto_ts_fit_float", "auto_ts_fit_sccd", "auto_ts_fit", "auto_ts_predict_float",
         "auto_mask", "auto_robust_fit", "dofit", "c_glmnet", "adjust_median_variogram", "preprocessing")
STRUCTS = {"Output_t": 4, "Output_sccd": 4, "Output_sccd_pinpoint": 4}
SIZE = {"int": 4, "float": 4, "short": 2, "short int": 2, "unsigned char": 1, "unsigned int": 4, "double": 8}
ALL = -1                # every bit set
SPAN = 2                # slots kept: the current one and two before it


def units(lay):
    """{byte offset: field} of every scalar in a record"""
    out = {}
    for n, ty, dims, off in lay[2]:
        k = 1
        for d in dims:
            k *= d
        for j in range(k):
            out[off + j * SIZE[ty]] = n
    return out


class Fill(paths.Dom):
    """per path: which scalars of the slots around the current count have been assigned.
    A state is a set of alternatives (values, slots, known): values {load of the counter: distance
    from the current count}, slots {distance: bit set}, known {linear form: lower bound}"""
    CAP = 48

    def __init__(self, m, f, rec, cnt, size, need, zero, arrays, writes):
        self.m, self.f, self.rec, self.cnt, self.size, self.zero = m, f, rec, cnt, size, zero
        # a slot is a bit set: assigned scalars, scalars whose last value was the constant 0, sites that counted it in
        self.bit = {u: 1 << j for j, u in enumerate(sorted(need))}
        self.need = (1 << len(self.bit)) - 1
        self.zbit = {u: 1 << (len(self.bit) + j) for j, u in enumerate(sorted(zero))}
        pubs = [i for i in f.instrs() if i.op == "store" and i.ops[1] is cnt]
        self.atbit = {i: 1 << (len(self.bit) + len(zero) + j) for j, i in enumerate(pubs)}
        self.pool = {}
        self.writes = writes
        # fields copied from a work array: whoever recomputes the array makes the copy stale
        self.src = {}
        for i in f.instrs():
            if i.op == "store" and root(i.ops[1]) is rec:
                v = i.ops[0]
                while isinstance(v, Ins) and v.op in ("bitcast", "fptrunc", "fpext"):
                    v = v.ops[0]
                if isinstance(v, Ins) and v.op == "load":
                    b = root(v.ops[0])
                    if isinstance(b, Ins) and b.op == "load":
                        b = root(b.ops[0])
                    if cflow.is_alloc(b) if isinstance(b, Ins) else False:
                        off, p = 0, i.ops[1]
                        while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
                            off += m.gep_offset(p)[0] if p.op == "gep" else 0
                            p = p.ops[0]
                        self.src.setdefault(b, set()).update({off % size} & arrays)
        self.src = {b: sum(self.bit.get(u, 0) for u in us) for b, us in self.src.items()}
        self.pub, self.bad, self.flat = set(), {}, {}
        self.lps = loops(f)
        # facts are kept only about the quantities that decide whether a loop that counts records in goes on
        self.keys = set()
        for h, body in self.lps.items():
            if any(i.op == "store" and i.ops[1] is cnt for b in body for i in b.ins):
                for b in body:
                    t = b.term
                    if t.op == "br" and t.ops and isinstance(t.ops[0], Ins) and t.ops[0].op == "icmp" and any(x not in body for x in b.succs):
                        d, _ = self.diff(t.ops[0])
                        if d is not None:
                            self.keys |= {frozenset(d.items()), frozenset((x, -y) for x, y in d.items())}

    def init(self):
        return frozenset([(frozenset(), frozenset(), frozenset())])

    # slots not mentioned: below the current count everything is assigned (it was published), above nothing is
    @staticmethod
    def slot(sl, k):
        return dict(sl).get(k, ALL if k < 0 else 0)

    def missing(self, x):
        return self.need & ~x

    def dist(self, v, vals, d=0):
        v = strip(v)
        if not isinstance(v, Ins) or d > 6:
            return None
        x = dict(vals).get(v)
        if x is not None:
            return x
        if v.op in ("add", "sub") and v.ops[1].k == "int":
            a = self.dist(v.ops[0], vals, d + 1)
            return None if a is None else a + (v.ops[1].v if v.op == "add" else -v.ops[1].v)
        return None

    def place(self, p, vals):
        """(slot distance, byte offset) of an address inside the record array"""
        off, dist, var = 0, None, False
        while isinstance(p, Ins) and p.op in ("gep", "bitcast"):
            if p.op == "gep":
                c, vs = self.m.gep_offset(p)
                off += c
                for sc, ix in vs:
                    if sc == self.size and dist is None:
                        dist = self.dist(ix, vals)
                        if dist is None:
                            return None
                    else:
                        var = True
            p = p.ops[0]
        if p is not self.rec or dist is None or var:
            return None
        return dist + off // self.size, off % self.size

    def step(self, s, i, env, flow):
        if i.op == "load" and i.ops[0] is self.cnt or i.op == "store" and (i.ops[1] is self.cnt or root(i.ops[1]) is self.rec) or \
                i.op == "call" and i.callee.k == "fn" and any(o is self.cnt or o.ty == "ptr" and (root(o) is self.rec or root(o) in self.src) for o in i.ops) or i.op == "ret":
            return frozenset(self.one(x, i, env, flow) for x in s)
        return s

    def fill(self, sl, at, offs, val=None):
        k, off = at
        x = self.slot(sl, k)
        if x == ALL:
            return sl
        for u in offs:
            x |= self.bit.get(u, 0)
        if off in self.zbit:        # remember whether the last value was the constant 0
            x &= ~self.zbit[off]
            if val is not None and val.k in ("int", "fp") and val.v == 0:
                x |= self.zbit[off]
        d = dict(sl)
        d[k] = x
        return self.intern(frozenset(d.items()))

    def intern(self, x):
        return self.pool.setdefault(x, x)

    def one(self, s, i, env, flow):
        vals, sl, kn = s
        if i.op == "load":
            d = {k: v for k, v in vals if k is not i}
            d[i] = 0
            return (self.intern(frozenset(d.items())), sl, kn)
        if i.op == "store":
            p = i.ops[1]
            if p is self.cnt:
                k = self.dist(i.ops[0], vals)
                if k is None:
                    return (frozenset(), frozenset(), kn)
                if k == 1:
                    self.pub.add(i)
                    self.lost(sl, -1, i)
                    x = self.slot(sl, 0)
                    if x != ALL and any(i.bb in b for b in self.lps.values()):
                        for z in self.zero:
                            if x & self.zbit[z]:
                                self.flat.setdefault(i, set()).add(z)
                    if self.missing(x):
                        sl = frozenset([(a, b) for a, b in sl if a != 0] + [(0, x | self.atbit[i])])
                nsl = {}
                for q in range(-SPAN, 2):
                    x = self.slot(sl, q + k)
                    if k == 1 and q == -1 and not self.missing(x):
                        x = ALL
                    if x != (ALL if q < 0 else 0):
                        nsl[q] = x
                return (self.intern(frozenset((a, b - k) for a, b in vals if abs(b - k) <= 3)), self.intern(frozenset(nsl.items())), kn)
            at = self.place(p, vals)
            if at is not None:
                return (vals, self.fill(sl, at, {at[1]}, i.ops[0]), kn)
            return s
        if i.op == "call":
            n = i.callee.name
            for j, o in enumerate(i.ops):
                if o.ty == "ptr" and root(o) in self.src and j in self.writes.get(n, ()) and not n.startswith(("free", "llvm.")):
                    x = self.slot(sl, 0)
                    sl = self.intern(frozenset([(a, b) for a, b in sl if a != 0] + [(0, x & ~self.src[root(o)])]))
                if o.ty == "ptr" and root(o) is self.rec and n.startswith(("llvm.memset", "llvm.memcpy")) and j == 0 and i.ops[2].k == "int":
                    at = self.place(o, vals)
                    if at is not None:
                        sl = self.fill(sl, at, {u for u in self.bit if at[1] <= u < at[1] + i.ops[2].v})
                elif o is self.cnt and not n.startswith("llvm."):
                    # the callee works on the same records: it is analysed on its own
                    vals, sl = frozenset(), frozenset(x for x in sl if x[0] < 0)
            return (vals, sl, kn)
        if i.op == "ret" and self.success(i, env, flow):
            self.lost(sl, -1, i)
        return s

    def lost(self, sl, k, i):
        """record k is final here"""
        x = self.slot(sl, k)
        if self.missing(x):
            at = [t for t, b in self.atbit.items() if x & b]
            self.bad.setdefault(at[0] if at else i, set()).update(u for u, b in self.bit.items() if not x & b)

    def success(self, i, env, flow):
        if not i.ops:
            return True
        k = flow.ev(i.ops[0], env)
        return not (isinstance(k, int) and k in (-1, 1))

    def refine(self, s, c, truth, env, flow):
        if not (isinstance(c, Ins) and c.op == "icmp"):
            return s
        out = set()
        for x in s:
            y = self.cond(x, c, truth)
            if y is not None:
                out.add(y)
        return frozenset(out) or None

    def cond(self, s, c, truth):
        vals, sl, kn = s
        if c.ops[1].k == "int":     # a count that is not positive: there is no record below it
            off, x = 0, strip(c.ops[0])
            while isinstance(x, Ins) and x.op in ("add", "sub") and x.ops[1].k == "int":
                off += x.ops[1].v if x.op == "add" else -x.ops[1].v
                x = strip(x.ops[0])
            if isinstance(x, Ins) and x.op == "load" and dict(vals).get(x) == 0:
                n = c.ops[1].v - off
                f = {"eq": lambda v: v == n, "ne": lambda v: v != n, "slt": lambda v: v < n, "sle": lambda v: v <= n, "sgt": lambda v: v > n, "sge": lambda v: v >= n}.get(c.pred)
                if f and all(f(v) != truth for v in range(1, 64)):
                    return (vals, frozenset(x for x in sl if x[0] >= 0), kn)
            return s
        d, k = self.diff(c)
        if d is None:
            return s
        known = dict(kn)
        pos, neg = frozenset(d.items()), frozenset((x, -y) for x, y in d.items())
        # what the condition says:  d <= u  and/or  -d <= w
        pred = c.pred if truth else {"slt": "sge", "sle": "sgt", "sgt": "sle", "sge": "slt", "eq": "ne", "ne": "eq"}[c.pred]
        if pred == "ne":
            if known.get(pos) == -k and known.get(neg) == k:
                return None
            return s
        new = {}
        if pred in ("slt", "sle", "eq"):
            new[neg] = k + (pred == "slt")              # -d >= k
        if pred in ("sgt", "sge", "eq"):
            new[pos] = -k + (pred == "sgt")             # d >= -k
        for key, lo in new.items():
            other = known.get(neg if key is pos else pos)
            if other is not None and lo + other > 0:
                return None
        if pos in self.keys or neg in self.keys:
            for key, lo in new.items():
                known[key] = max(lo, known.get(key, lo))
            return (vals, sl, frozenset(known.items()))
        return s

    def diff(self, c):
        """(linear form without its constant, constant) of the difference a comparison looks at"""
        if c.pred not in ("slt", "sle", "sgt", "sge", "eq", "ne"):
            return None, 0
        a, b = affine(c.ops[0]), affine(c.ops[1])
        if a is None or b is None:
            return None, 0
        d = comb(a, b, -1)
        k = d.pop(None, 0)
        return (d, k) if len(d) == 2 else (None, 0)

    def phis(self, s, pairs, env, flow):
        xs = {x for x, _ in pairs}
        out = set()
        for vals, sl, kn in s:
            if kn:
                kn = frozenset((k, lo) for k, lo in kn if not any(v in xs for v, _ in k))
            out.add((vals, sl, kn))
        return frozenset(out)

    def join(self, a, b, block):
        # alternatives are kept apart only when they differ in what is known or in which published record is incomplete
        by = {}
        for x in list(a) + list(b):
            key = (x[2], tuple(bool(self.missing(self.slot(x[1], k))) for k in range(-SPAN, 0)))
            by[key] = self.merge(by[key], x) if key in by else x
        n = list(by.values())
        if len(n) > self.CAP:
            acc = n[0]
            for y in n[1:]:
                acc = self.merge(acc, y)
            n = [acc]
        n = frozenset(n)
        return n, n != a

    def merge(self, a, b):
        db = dict(b[0])
        sl = {}
        for k in range(-SPAN, 2):
            x, y = self.slot(a[1], k), self.slot(b[1], k)
            z = x & y
            if z != (ALL if k < 0 else 0):
                sl[k] = z
        return (self.intern(frozenset((k, v) for k, v in a[0] if db.get(k) == v)), self.intern(frozenset(sl.items())), a[2] & b[2])


def pairs(f, m, sizes):
    """(record array, counter, struct) triples: arrays of records indexed by the value of a counter parameter"""
    out = set()
    for i in f.instrs():
        if i.op != "gep":
            continue
        b = root(i)
        if getattr(b, "k", "") != "arg":
            continue
        c, vs = m.gep_offset(i)
        for sc, ix in vs:
            if sc in sizes and i.ops[0] is b:
                x = strip(ix)
                while isinstance(x, Ins) and x.op in ("add", "sub") and x.ops[1].k == "int":
                    x = strip(x.ops[0])
                if isinstance(x, Ins) and x.op == "load" and getattr(x.ops[0], "k", "") == "arg":
                    out.add((b, x.ops[0], sizes[sc]))
    return out


def positions(r, f, m, lay, cn):
    """the pixel position goes into every record before a successful return"""
    size = lay[0]
    off = [o for n, t, d, o in lay[2] if n == "pos"][0]
    arg = dict(zip(cn, f.args))
    rec, pos = arg["rec_cg"], arg["pos"]
    lps = loops(f)
    heads = set()
    for i in f.instrs():
        if i.op == "store" and root(i.ops[1]) is rec:
            o, vs = 0, []
            p = i.ops[1]
            while isinstance(p, Ins) and p.op == "gep":
                c, v = m.gep_offset(p)
                o += c
                vs += v
                p = p.ops[0]
            if o != off or len(vs) != 1 or vs[0][0] != size or strip(i.ops[0]) is not pos:
                continue
            iv = strip(vs[0][1])
            if isinstance(iv, Ins) and iv.op == "phi" and iv.bb in lps:
                init = [q for q, b in zip(iv.ops, iv.blocks) if b not in lps[iv.bb]]
                t = iv.bb.term
                c = t.ops[0] if t.op == "br" and t.ops else None
                body_ok = all(b in lps[iv.bb] for b in [i.bb])
                if all(getattr(q, "k", "") == "int" and q.v == 0 for q in init) and isinstance(c, Ins) and c.op == "icmp" and body_ok and \
                        any(strip(x) is iv for x in c.ops) and any(isinstance(strip(x), Ins) and strip(x).op == "load" and strip(x).ops[0] is arg["num_fc"] for x in c.ops) and \
                        c.pred in ("slt", "sgt", "ne", "ult", "ugt"):
                    heads.add(iv.bb)
    where = "src/cxx/cold.c"
    if not heads:
        r.bad("pos", f.name, "%s: the records do not get the position of the pixel" % f.name, where)
        return
    # ways from where records are counted in to a return that skip the loop
    seen, st = set(), [i.bb for i in f.instrs() if i.op == "store" and i.ops[1] is arg["num_fc"] and not (i.ops[0].k == "int" and i.ops[0].v == 0)
                       or i.op == "call" and any(o is arg["num_fc"] for o in i.ops)]
    if not st:
        raise Broken("%s counts no record in" % f.name)
    while st:
        b = st.pop()
        if b in seen or b in heads:
            continue
        seen.add(b)
        st += b.succs
    bad = None
    for b in f.bbs:
        if b.term.op == "ret":
            v = b.term.ops[0]
            ins = list(zip(v.ops, v.blocks)) if isinstance(v, Ins) and v.op == "phi" and v.bb is b else [(v, b)]
            for o, p in ins:
                o = strip(o)
                if p in seen and not (o.k == "int" and o.v in (-1, 1)):
                    bad = p
    r.check(bad is None, "pos", f.name, "%s: a successful return leaves the position of the records unset" % f.name, bad.term.where() if bad else where)


def run(r):
    r.rule("filled", "at every store that counts a record in, every field (each band, each coefficient) of that record has been assigned on every path, or is assigned before every successful return; a field copied from a work array (coefficients, RMSE) has been copied since the array was last recomputed")
    r.rule("break", "a record counted in while the series goes on does not carry the constant 0 as break date or change probability")
    r.rule("pos", "every record of the result gets the pixel position before a successful return")
    lay = cfacts.record_layouts("output.h", list(STRUCTS))
    sizes = {lay[n][0]: n for n in STRUCTS}
    m = cflow.module(inline=True, keep=PROCS,
                     passes="function(sroa,early-cse),globalopt,function(loop-simplify,loop(loop-rotate,indvars,loop-unroll-full),instsimplify,early-cse,sccp,adce)",
                     flags=["-unroll-threshold=3000", "-unroll-full-max-count=64"])
    from pyflow import Package
    ext = next(iter(Package().cy.values())).externs
    n = 0
    writes = cflow.deep_writes(m)
    for f in cflow.callees_first(m):
        for rec, cnt, st in sorted(pairs(f, m, sizes), key=lambda t: (t[0].v, t[1].v)):
            fields = units(lay[st])
            need = frozenset(o for o, nm in fields.items() if nm != "pos")
            if not any(i.op == "store" and i.ops[1] is cnt for i in f.instrs()):
                continue
            multi = {nm for nm, t, dims, o in lay[st][2] if dims}
            zero = {o for o, nm in fields.items() if nm in ("t_break", "change_prob")}
            d = Fill(m, f, rec, cnt, lay[st][0], need, zero, {o for o, nm in fields.items() if nm in multi}, writes)
            try:
                paths.Flow(f, loose=True).solve(d, init=d.init())
            except paths.TooBig:
                r.undecided("filled", f.name, "too many states")
                continue
            n += len(d.pub)
            for i in sorted(set(d.pub) | set(d.bad), key=lambda t: t.where()):
                names = {fields[o] for o in d.bad.get(i, ())}
                for nm in sorted(set(fields.values()) - {"pos"}):
                    r.check(nm not in names, "filled", "%s:%s:%s" % (f.name, st, nm),
                            "%s: a record is counted in although on some path its %s was not assigned, or not since the fit it is copied from was redone" % (f.name, nm), i.where())
                for z in sorted(zero):
                    r.check(z not in d.flat.get(i, ()), "break", "%s:%s" % (f.name, fields[z]),
                            "%s: a segment that ends in a break is counted in with %s 0" % (f.name, fields[z]), i.where())
    plain = cflow.module(inline=True, keep=PROCS, passes="function(sroa,early-cse)")
    for name in ("cold", "obcold_reconstruction_procedure"):
        f = cflow.own(plain)[name]
        positions(r, f, plain, lay["Output_t"], [b for a, b in ext[name]])
    r.floor("filled", 40)
    r.floor("pos", 2)
    if n < 4:
        raise Broken("only %d publishing sites found" % n)


main("C11", run, explanation="must-assigned dataflow over record fields on LLVM IR (fixed loops unrolled), slots followed relative to the record counter")
