"""C32 the near-real-time state is complete and an update resumes from exactly what was saved."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nrtstate
import paths
from llir import Ins, V
from report import main, Broken
from worlds import Worlds, affine, comb, strip

ENTRY = (0, 1, 2, 3, 4, 5, 11, 12)
SNOW, MODEL, QUEUE = {3, 4}, {1, 3, 5, 11}, {2, 4, 5, 12}
RESUMED = ("obs", "obs_date_since1982", "covariance", "nrt_coefs", "H", "rmse_sum", "t_start_since1982", "num_obs")
FIXED = ("t_start_since1982", "H")       # belong to the segment: they stay while the model stays


class State(Worlds):
    """per path: (mode given, mode now, model or queue written, units of the model assigned)"""

    def __init__(self, m, f, arg, P, bits, nq):
        start = [(e, e, 0, 0) for e in ENTRY]
        super().__init__(start, lambda v, w: w[1] if v in self.loads else None)
        self.mode, self.model, self.count, self.P, self.bits, self.nq = arg["nrt_mode"], arg["nrt_model"], arg["num_nrt_queue"], P, bits, nq
        # what is followed: values computed from the mode, and the status returned
        rel = {i for i in f.instrs() if i.op == "load" and i.ops[0] is self.mode}
        st = list(rel)
        while st:
            for u in st.pop().users:
                if u not in rel and (u.op in paths.PURE or u.op == "phi"):
                    rel.add(u)
                    st.append(u)
        back = [i.ops[0] for i in f.instrs() if i.op == "ret" and i.ops] + [i.ops[0] for i in f.instrs() if i.op == "store" and i.ops[1] is self.mode]
        seen = set()
        while back:
            x = back.pop()
            if isinstance(x, Ins) and x.op in ("phi", "select", "sext", "zext", "trunc") and x not in seen:
                seen.add(x)
                back += x.ops
        rel |= seen
        ch = True
        while ch:                       # flags
            ch = False
            for i in f.instrs():
                if i.op == "phi" and i not in rel and i.ty.startswith("i") and all((not isinstance(o, Ins) and o.k == "int") or o is i or strip(o) in rel or
                                                                                 isinstance(strip(o), Ins) and strip(o).op in ("icmp", "fcmp") for o in i.ops):
                    rel.add(i)
                    ch = True
        self.keepset = {x for x in rel if x.op == "phi" and x.ty.startswith("i")}
        self.loads = {i for i in f.instrs() if i.op == "load" and i.ops[0] is self.mode}
        self.late = [i for i in self.loads if any(u.bb is not i.bb or u.op == "phi" for u in i.users) or any(x.op == "store" and x.ops[1] is self.mode for x in i.bb.ins)]
        self.ends = {}
        self.unclear = False

    def step(self, s, i, env, flow):
        if i in self.loads:
            return frozenset((w, frozenset(x for x in pe if x[0] is not i)) for w, pe in s) if i in self.late else s
        if i.op == "store" and i.ops[1] is self.mode:
            out = set()
            for (e, c, t, b), pe in s:
                d = dict(pe)
                x = self.val(i.ops[0], (e, c, t, b), d)
                for j in self.late:         # what was read before keeps its value
                    if j not in d and c is not None:
                        d[j] = c
                out.add(((e, x, t | 4, b), frozenset(d.items())))
            return frozenset(out)
        add, touch = 0, 0
        if i.op == "store" and i.ops[1].ty == "ptr":
            if i.ops[1] is self.count:
                touch = 2
            elif i in self.bits:
                add, touch = self.bits[i], 1
        elif i.op == "call" and i in self.bits:
            add, touch = self.bits[i], 1
        if add or touch:
            return frozenset(((e, c, t | touch, b | add), pe) for (e, c, t, b), pe in s)
        if i.op == "ret":
            for w, pe in s:
                x = self.val(i.ops[0], w, dict(pe)) if i.ops else 0
                if x not in (-1, 1):
                    self.ends.setdefault(w[:3], set()).add((w[3], i))
        return s

    def phis(self, s, pairs, env, flow):
        return self.fold(super().phis(s, pairs, env, flow))

    @staticmethod
    def fold(s):
        by = {}
        for (e, c, t, b), pe in s:
            k = (e, c, t, pe)
            by[k] = by[k] & b if k in by else b
        return frozenset(((e, c, t, b), pe) for (e, c, t, pe), b in by.items())

    def join(self, a, b, block):
        n = self.fold(a | b)
        if len(n) > self.limit:
            raise paths.TooBig()
        return n, n != a


def turns(lv):
    """(levels without loop turns, {loop: factor of the last level})"""
    rest, t = [], {}
    for l in lv:
        rest.append(frozenset((k, c) for k, c in l if not isinstance(k, tuple)))
        for k, c in l:
            if isinstance(k, tuple):
                t.setdefault(k, []).append(c)
    return tuple(rest), t


def at(lv, n):
    """the address in turn n of every loop it depends on"""
    out = []
    for l in lv:
        d, c0 = {}, 0
        for k, c in l:
            if k is None:
                c0 += c
            elif isinstance(k, tuple):
                if k in n:
                    c0 += c * n[k]
                else:
                    d[k] = c
            else:
                d[k] = c
        if c0:
            d[None] = c0
        out.append(frozenset(d.items()))
    return tuple(out)


def cells(lv, extent):
    """{offset: turns} of the scalars of a field an address goes through; extent = (first, last + 1, size)"""
    d = dict(lv)
    lo, hi, sz = extent
    c0 = d.pop(None, 0)
    if not d:
        return {c0: {}}
    if len(d) != 1 or not isinstance(next(iter(d)), tuple):
        return None
    (k, c), = d.items()
    if c <= 0 or c % sz:
        return None
    return {o: {k: (o - c0) // c} for o in range(c0, hi, c) if o >= lo}


def sites(r, m, f, arg, lay, P):
    """{offset of the model: [(core, constant, instruction)]} of stores, {offset: [(core, constant, ins)]} of what loads restore"""
    un = nrtstate.units(lay["output_nrtmodel"])
    ext = {}
    for o, (n, j, sz) in un.items():
        lo, hi, _ = ext.get(n, (o, o + sz, sz))
        ext[n] = (min(lo, o), max(hi, o + sz), sz)
    sv, ld, bits = {}, {}, {}

    def spread(p, i, fn):
        b, lv = P.path(p)
        if b is not arg["nrt_model"] or len(lv) != 1:
            return False
        c0 = dict(lv[0]).get(None, 0)
        if c0 not in un:
            return None
        cs = cells(lv[0], ext[un[c0][0]])
        if cs is None:
            return None
        for o, n in cs.items():
            if o in un and un[o][0] == un[c0][0]:
                fn(o, n, len(cs) == 1)
        return True
    lost = []
    for i in f.instrs():
        if i.op == "store":
            core, add = P.term(i.ops[0])

            def one(o, n, single, core=core, add=add, i=i):
                sv.setdefault(o, []).append((place(core, n), add, i))
                bits.setdefault(i, set()).add(o)
            if spread(i.ops[1], i, one) is None:
                lost.append(i)
        elif i.op == "load":
            ds = None

            def two(o, n, single, i=i):
                nonlocal ds
                if ds is None:
                    ds = nrtstate.dests(P, i)
                for core, add, u in ds:
                    ld.setdefault(o, []).append((place(core, n), add, u))
            if spread(i.ops[0], i, two) is None:
                lost.append(i)
        elif i.op == "call" and i.callee.k == "fn" and i.callee.name.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
            n = i.ops[2].v if not isinstance(i.ops[2], Ins) and i.ops[2].k == "int" else None
            for j, tab in ((0, sv), (1, ld)):
                if j == 1 and "memset" in i.callee.name:
                    continue
                b, lv = P.path(i.ops[j])
                if b is not arg["nrt_model"] or len(lv) != 1:
                    continue
                d = dict(lv[0])
                c0 = d.pop(None, 0)
                if n is None or d:
                    lost.append(i)
                    continue
                for o in un:
                    if not c0 <= o < c0 + n:
                        continue
                    if "memset" in i.callee.name:
                        core = ("const", 0)
                    else:
                        b2, lv2 = P.path(i.ops[1 - j])
                        l2 = dict(lv2[-1])
                        l2[None] = l2.get(None, 0) + o - c0
                        core = ("mem", b2, lv2[:-1] + (frozenset((k, v) for k, v in l2.items() if v),))
                    tab.setdefault(o, []).append((core, 0, i))
                    if j == 0:
                        bits.setdefault(i, set()).add(o)
    for i in lost:
        r.undecided("resume", "model:%s" % i.op, "an address inside the model is not followed", i.where())
    return un, sv, ld, bits


def place(core, n):
    if core[0] in ("mem", "gsl"):
        lv = at(core[2], n)
        return core[:2] + (lv,) + core[3:] if lv is not None else ("lost",)
    return core


def shifted(core):
    """(what, {leaf: factor}, offset): an element of a series, its index told apart"""
    if core[0] != "mem":
        return None
    l = dict(core[2][-1])
    c = l.pop(None, 0)
    return (core[1], core[2][:-1]), l, c


def resume(r, m, f, arg, lay, P, un, sv, ld):
    init = {}
    for o in sorted(un):
        name, j, sz = un[o]
        if name not in RESUMED:
            continue
        back = [x for x in ld.get(o, ()) if x[0][0] != "use"]
        key = "%s" % name
        for core, add, i in sv.get(o, ()):
            if core[0] == "const":
                continue
            if core[0] == "lost":
                r.undecided("resume", key, "the value saved is not followed", i.where())
                continue
            if core[0] == "value":
                w = nrtstate.web(core[1])
                if inplace(core, o, arg, P):
                    continue
                got = [(c, a) for c, a, u in back if c[0] == "value" and c[1] in w]
            elif core[0] == "mem" and name in ("obs", "obs_date_since1982"):
                s = shifted(core)
                got = []
                for c, a, u in back:
                    t = shifted(c)
                    if t is not None and t[0] == s[0] and not t[1]:
                        got.append((c, a))
                        # the series is read back from its start: entry j of the tail is observation j
                        init.setdefault(name, set()).add((t[2] // 4 - k_of(name, j), s_key(s[1]), s[2] // 4 - k_of(name, j), i))
            else:
                got = [(c, a) for c, a, u in back if c == core]
            if not got and core[0] == "value":
                lv = [P.term(x) for x in nrtstate.web(core[1]) if not (isinstance(x, Ins) and x.op in ("phi", "select") + nrtstate.CASTS)]
                lv = [x for x in lv if x[0][0] != "const"]
                hit = [[(c, a + ad) for c, a, u in back if c == co] for co, ad in lv]
                if lv and all(hit):
                    got = [x for h in hit for x in h]
            if not got and name == "num_obs" and core[0] == "value" and any(inplace(x[0], o, arg, P) for x in sv[o]):
                continue        # counted on in the model itself
            if not got and name == "t_start_since1982" and core[0] == "mem" and not dict(core[2][-1]) and isinstance(core[1], Ins) and core[1].op == "call":
                continue        # the first date of a series that starts with the model: the field is left alone afterwards
            wrong = sorted({nrt(un, c2) for o2, xs in ld.items() for c2, a2, u2 in xs if c2 == core and o2 != o for c2 in [o2]})
            r.check(bool(got), "resume", key, "%s[%d] of the model is saved from a quantity that no update restores from it%s" % (name, j, "; it is restored from " + ", ".join(wrong) if wrong else ""), i.where())
            if got:
                r.check(any(a + add == 0 for c, a in got), "offset", key, "%s[%d] is saved with %+d and restored with %s" % (name, j, add, ", ".join("%+d" % a for c, a in got)), i.where())
    for name, xs in init.items():
        by = {}
        for t, leafs, s, i in xs:
            by.setdefault(leafs, set()).add(s)
            r.check(t == 0, "resume", name + ":order", "entry j of %s is restored as observation j%+d" % (name, t), i.where())
        for leafs, ss in by.items():
            i = [x[3] for x in xs if x[1] == leafs][0]
            r.check(len(ss) == 1, "resume", name + ":order", "the entries of %s are not saved in their order" % name, i.where())
    # the dates and the observations of one tail belong together
    a, b = ({(x[1], x[2]) for x in init.get(n, ())} for n in ("obs", "obs_date_since1982"))
    if a and b:
        ka, kb = {s for _, s in a}, {s for _, s in b}
        r.check(ka == kb, "resume", "tail", "the dates kept in the model belong to other observations than the values", "src/cxx/s_ccd.c")


def k_of(name, j):
    return j % 8


def s_key(l):
    return frozenset((type(k).__name__ if not isinstance(k, V) else k.op if isinstance(k, Ins) else k.k, c) for k, c in l.items())


def nrt(un, o):
    return "%s[%d]" % un[o][:2]


def deps(v, d=0):
    out, st = set(), [v]
    while st:
        x = st.pop()
        if x in out or not isinstance(x, Ins) or x.op in ("call",):
            continue
        out.add(x)
        if x.op != "load":
            st += x.ops
    return out


def inplace(core, o, arg, P):
    """the new value of the field is computed from the old one"""
    return core[0] == "value" and any(u.op == "load" and P.path(u.ops[0]) == (arg["nrt_model"], (frozenset([(None, o)] if o else []),)) for x in nrtstate.web(core[1]) for u in deps(x))


def queue(r, m, f, arg, lay, P):
    """every entry that is counted holds its date and all bands; the update reads entry k back as observation k"""
    q, cnt = arg["nrt_queue"], arg["num_nrt_queue"]
    size = lay["output_nrtqueue"][0]
    un = nrtstate.units(lay["output_nrtqueue"])
    groups, reads = {}, {}
    for i in f.instrs():
        if i.op not in ("store", "load"):
            continue
        b, lv = P.path(i.ops[1] if i.op == "store" else i.ops[0])
        if b is not q or len(lv) != 1:
            continue
        d = dict(lv[0])
        c0 = d.pop(None, 0)
        if len(d) != 1 or not isinstance(next(iter(d)), tuple) or list(d.values()) != [size] or c0 % size not in un or c0 >= size:
            r.undecided("queue", "address", "an address inside the queue is not followed", i.where())
            continue
        k = next(iter(d))
        if i.op == "store":
            groups.setdefault(k, {}).setdefault(c0, []).append((P.term(i.ops[0]), i))
        else:
            for core, add, u in nrtstate.dests(P, i):
                if core[0] != "use":
                    reads.setdefault(c0, []).append((core, add, u, k))
    for k, g in join(groups, un, P):
        ins = next(iter(g.values()))[0][1]
        missing = sorted({nrt(un, o) for o in un if o not in g})
        r.check(not missing, "queue", "complete", "an entry of the queue is saved without " + ", ".join(missing), ins.where())
        base = {}
        for o, xs in g.items():
            for (core, add), i in xs:
                s = shifted(core)
                if s is None:
                    r.undecided("queue", nrt(un, o), "the value saved is not followed", i.where())
                    continue
                idx = dict(s[1])
                step = sum(idx.pop(t, 0) for t in k)
                base.setdefault((frozenset(idx.items()), s[2]), []).append(i)
                r.check(step == 4, "queue", "order", "entry k of the queue does not hold observation k of the window", i.where())
                mine = [(c, a) for c, a, u, kk in reads.get(o, ()) if shifted(c) is not None and shifted(c)[0] == s[0] and dict(shifted(c)[1]) == {kk: 4} and shifted(c)[2] == 0]
                r.check(bool(mine), "resume", "queue:" + un[o][0], "%s of a queue entry is saved from a series into which no update restores it" % nrt(un, o), i.where())
                if mine:
                    r.check(any(a + add == 0 for c, a in mine), "offset", "queue:" + un[o][0], "%s is saved with %+d and restored with %s" % (nrt(un, o), add, ", ".join("%+d" % a for c, a in mine)), i.where())
        r.check(len(base) == 1, "queue", "order", "the values and the date of a queue entry belong to different observations", ins.where())
        for (idx, c0), xs in base.items():
            tail(r, m, cnt, dict(idx), c0, xs[0], P)
    if len(groups) < 1 or not reads:
        raise Broken("the queue is not saved or not restored")


def join(groups, un, P):
    """[(loops, {offset: stores})]: fields saved by loops over the same entries, one after the other, belong together"""
    out, part = [], []
    for k, g in groups.items():
        if set(g) >= set(un):
            out.append(((k,), g))
        else:
            part.append((k, g))
    while part:
        k, g = part.pop(0)
        ks, g = (k,), dict(g)
        for k2, g2 in list(part):
            if not set(g) & set(g2) and trip(k[1], P) is not None and trip(k[1], P) == trip(k2[1], P):
                ks += (k2,)
                g.update(g2)
                part.remove((k2, g2))
        out.append((ks, g))
    return out


def trip(bb, P):
    """(predicate, what the counter is compared with) of the loop a header or its latch leaves by"""
    for b in [bb] + list(bb.preds):
        t = b.ins[-1]
        if t.op == "br" and len(t.blocks) == 2 and isinstance(t.ops[0], Ins) and t.ops[0].op == "icmp":
            c = t.ops[0]
            d = norm(comb(P.aff(c.ops[0]) if isinstance(c.ops[0], Ins) else affine(c.ops[0]) or {}, P.aff(c.ops[1]) if isinstance(c.ops[1], Ins) else affine(c.ops[1]) or {}, -1), P)
            if ("turn", bb) in d:
                return c.pred, frozenset((("turn",) if x == ("turn", bb) else x, v) for x, v in d.items() if v)
    return None


def tail(r, m, cnt, idx, c0, ins, P):
    """first index + number of entries is the same position (the end of the series) however the window was chosen"""
    ph = [v for v in idx if isinstance(v, Ins) and v.op == "phi"]
    if len(ph) != 1 or len(ph[0].ops) != len(ph[0].blocks):
        return
    same = lambda a: None if a is None else norm(a, P)
    got = []
    for s, pred in zip(ph[0].ops, ph[0].blocks):
        b, n = pred, None
        while b is not None and n is None:
            for i in reversed(b.ins):
                if i.op == "store" and i.ops[1] is cnt:
                    n = i.ops[0]
                    break
            ps = list(dict.fromkeys(b.preds))
            b = ps[0] if len(ps) == 1 else None
        a, c = same(affine(s)), same(affine(n)) if n is not None else None
        if a is None or c is None:
            return
        got.append(frozenset((k, v) for k, v in comb(a, c, 1).items() if v))
    if len(got) > 1:
        r.check(len(set(got)) == 1, "queue", "end", "the queue does not end with the same observation when it is full: %s" % " / ".join(sorted("start + count = %d + %d terms" % (dict(g).get(None, 0), len(g)) for g in got)), ins.where())


def norm(a, P):
    out = {}
    for k, c in a.items():
        if isinstance(k, Ins) and k.op == "load":
            k = P.path(k.ops[0])
        out[k] = out.get(k, 0) + c
    return out


def run(r):
    r.rule("complete", "when a call ends with a model (modes 1, 3, 5, 11), either the model is untouched or every field of it, each band, coefficient and tail slot, has been assigned on every path (start date and noise stay with a kept segment)")
    r.rule("mode", "a call that changes the mode leaves the state that mode stands for, and a pixel stays with the procedure, standard or snow, it was given to")
    r.rule("resume", "every running quantity (covariance, coefficients, noise, sums of squares, counts, start date, observations and dates in waiting) is restored from the field, at the index, it was saved to")
    r.rule("offset", "what is subtracted on saving is added on restoring")
    r.rule("queue", "each counted queue entry holds the date and all bands of one observation, in order")
    x = nrtstate.load()
    if x is None:
        raise Broken("sccd has other parameters than the Cython declaration")
    m, f, arg, lay = x
    P = nrtstate.Paths(m)
    un, sv, ld, bits = sites(r, m, f, arg, lay, P)
    resume(r, m, f, arg, lay, P, un, sv, ld)
    queue(r, m, f, arg, lay, P)
    bit = {o: 1 << n for n, o in enumerate(sorted(un))}
    full = (1 << len(bit)) - 1
    fixed = sum(bit[o] for o in un if un[o][0] in FIXED)
    d = State(m, f, arg, P, {i: sum(bit[o] for o in os_) for i, os_ in bits.items()}, None)
    try:
        paths.Flow(f, track=False).solve(d, init=d.init())
    except paths.TooBig:
        r.undecided("complete", "sccd", "too many states")
        return
    where = "src/cxx/s_ccd.c"
    for (e, c, t), xs in sorted(d.ends.items(), key=repr):
        if c is None:
            r.undecided("mode", "from %d" % e, "the mode at the end is not followed", where)
            continue
        if t & 1 and c in MODEL:
            got = min((b for b, _ in xs), key=lambda b: bin(b).count("1"))
            for b, _ in xs:
                got &= b
            need = full & ~fixed if e in MODEL else full
            names = sorted({un[o][0] for o in un if need & bit[o] & ~got})
            site = [i for o in un if need & bit[o] & ~got for _, _, i in sv.get(o, ())][:1]
            r.check(not names, "complete", "%d->%d" % (e, c), "a call that starts in mode %d and ends in mode %d can leave %s of the model unassigned" % (e, c, ", ".join(names)), site[0].where() if site else where)
        if t & 4:
            ok = c in MODEL | QUEUE
            r.check(ok, "mode", "%d->%d" % (e, c), "a call that starts in mode %d ends in mode %d, which is not a mode of the protocol" % (e, c), where)
            if e:
                r.check((e in SNOW) == (c in SNOW), "mode", "%d->%d" % (e, c), "a pixel in mode %d is handed over in mode %d: it changes between the standard and the snow procedure" % (e, c), where)
            if c in QUEUE and c not in MODEL:
                r.check(bool(t & 2), "mode", "%d->%d:queue" % (e, c), "a call that starts in mode %d ends in mode %d without saving the queue" % (e, c), where)
            if c in MODEL - QUEUE and e not in MODEL:
                r.check(bool(t & 1), "mode", "%d->%d:model" % (e, c), "a call that starts in mode %d ends in mode %d without saving the model" % (e, c), where)
    r.floor("complete", 4)
    r.floor("resume", 20)
    r.floor("queue", 6)
    r.floor("mode", 8)


main("C32", run, explanation="save/restore map inversion and must-assigned dataflow over the modes on LLVM IR of the inlined S-CCD entry point")
