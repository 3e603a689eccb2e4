"""C09 detection depends on its inputs only."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import cflow
import paths
from cflow import root
from llir import Ins, loops
from report import main, Broken

# results that differ from run to run
SOURCES = {"rand", "random", "rand_r", "drand48", "erand48", "lrand48", "srand", "time", "clock", "gettimeofday", "clock_gettime", "getenv", "secure_getenv",
           "getpid", "getppid", "gethostname", "localtime", "localtime_r", "gmtime", "ctime", "arc4random", "getrandom", "times", "rdtsc", "gsl_rng_alloc", "gsl_rng_env_setup",
           "tmpnam", "mktemp", "strtok", "omp_get_thread_num", "sched_getcpu", "pthread_self"}
PRINT = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "fflush", "snprintf", "sprintf", "strftime", "localtime", "gmtime", "ctime", "localtime_r", "perror", "fwrite"}


class Unset(paths.Dom):
    """the locals that some path to here leaves unassigned. A loop counts as having run, and a
    search loop as having found: a local that a loop can assign is taken as assigned behind it."""

    def __init__(self, f, tok, objs):
        self.tok, self.objs, self.hits = tok, objs, {}
        self.loops = [b for b in loops(f).values()]
        self.memo = {}
        self.sets = {v: set() for v in objs}
        for i in f.instrs():
            if i.op == "store" and root(i.ops[1]) in self.sets:
                self.sets[root(i.ops[1])].add(i)

    def web(self, v, body):
        """does the loop assign the local that v stands for"""
        seen, st = set(), [v]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for o, p in zip(x.ops, x.blocks):
                if p not in body:
                    continue
                if isinstance(o, Ins) and o.op == "phi" and o.bb in body:
                    st.append(o)
                elif o not in self.tok:
                    return True
        return False

    def behind(self, v, bb):
        k = (v, bb)
        if k not in self.memo:
            if v.op == "phi":
                self.memo[k] = any(v.bb in body and bb not in body and self.web(v, body) for body in self.loops)
            elif v in self.objs:
                self.memo[k] = any(bb not in body and any(x.bb in body for x in self.sets[v]) for body in self.loops)
            else:
                self.memo[k] = False
        return self.memo[k]

    def un(self, s, v, bb):
        return isinstance(v, Ins) and (v in self.tok or v in s) and not self.behind(v, bb)

    def hit(self, i, o):
        self.hits.setdefault(i, o)

    def step(self, s, i, env, flow):
        if i in self.objs:
            return s | {i}
        if i.op == "phi":
            return s
        if i.op in ("select", "freeze"):
            if any(self.un(s, o, i.bb) for o in i.ops[-2:]):
                s = s | {i}
            if i.op == "select" and self.un(s, i.ops[0], i.bb):
                self.hit(i, i.ops[0])
            return s
        for k, o in enumerate(i.ops):
            if not isinstance(o, Ins):
                continue
            if o in self.objs:
                if o in s:
                    if i.op == "load":
                        if not self.behind(o, i.bb):
                            self.hit(i, o)
                    elif not (i.op == "call" and i.callee.k == "fn" and i.callee.name.startswith("llvm.")):
                        s = s - {o}         # assigned, or its address is given away
            elif self.un(s, o, i.bb):
                self.hit(i, o)
        if i.op == "store" and root(i.ops[1]) in s:
            s = s - {root(i.ops[1])}
        return s

    def found(self, x, v):
        """x joins what a loop assigns with v, the value on the ways out of the loop (or around it) that skip the assignment"""
        k = (x, v, "found")
        if k not in self.memo:
            res = False
            for body in self.loops:
                if x.bb in body:
                    continue
                exits = set(body)
                ch = True
                while ch:               # the blocks of a break
                    ch = False
                    for b in list(exits):
                        for t in b.succs:
                            if t not in exits and t is not x.bb and len(t.succs) == 1 and all(p in exits for p in t.preds):
                                exits.add(t)
                                ch = True
                ins = [(o, p) for o, p in zip(x.ops, x.blocks)]
                got = any(p in exits and o is not v and o not in self.tok for o, p in ins) or \
                    any(o is not v and self.derived(o, body, exits) for o, p in ins)
                if got and all(p in exits or self.guard(p, body) for o, p in ins if o is v):
                    res = True
            self.memo[k] = res
        return self.memo[k]

    def derived(self, o, body, exits, d=0):
        if not isinstance(o, Ins) or o.op != "phi" or d > 4:
            return False
        if o.bb in body:
            return self.web(o, body)
        return any(p in exits and q not in self.tok or self.derived(q, body, exits, d + 1) for q, p in zip(o.ops, o.blocks))

    @staticmethod
    def guard(p, body):
        """p goes around the loop because of a comparison of two variables (the loop would not run)"""
        st, n = [p], 0
        while st and n < 4:
            b = st.pop()
            n += 1
            t = b.term
            if t.op == "br" and t.ops and isinstance(t.ops[0], Ins) and t.ops[0].op == "icmp" and t.ops[0].pred[1:] in ("lt", "le", "gt", "ge") and \
                    all(isinstance(o, Ins) for o in t.ops[0].ops):
                return True
            if len(b.succs) == 1:
                st += b.preds
        return False

    def phis(self, s, pairs, env, flow):
        add = {x for x, v in pairs if self.un(s, v, x.bb) and not self.found(x, v)}
        return (s - {x for x, _ in pairs}) | add

    def join(self, a, b, block):
        n = a | b
        return n, n != a


def owner(v):
    """name of the source variable"""
    n = v.name if v.name and not v.name.startswith("vp.") else "a local"
    return n.split(".")[0] or "a local"


def gobj(p):
    g = root(p)
    while getattr(g, "k", "") == "cexpr":
        g = g.v[1][0]
    return g if getattr(g, "k", "") == "global" else None


def idle(g, fns):
    """what is read back from the object goes nowhere but into it or into messages (a counter nobody looks at)"""
    seen = set()
    st = [i for f in fns for i in f.instrs() if any(getattr(o, "ty", "") == "ptr" and gobj(o) is not None and gobj(o).name == g.name for o in i.ops)]
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        if i.op == "store":
            if gobj(i.ops[1]) is None or gobj(i.ops[1]).name != g.name or gobj(i.ops[0]) is not None:
                return False
        elif i.op == "call":
            if i.callee.k != "fn" or i.callee.name not in PRINT:
                return False
        elif i.op in ("ret", "br", "switch"):
            return False
        else:
            st += i.users
    return True


def globals_(r, m, fns):
    """stores to objects that outlive a call"""
    for f in fns:
        for i in f.instrs():
            tgt = []
            if i.op == "store":
                tgt = [(i.ops[1], "is written")]
            elif i.op == "call" and i.callee.k == "fn":
                n = i.callee.name
                if n.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                    tgt = [(i.ops[0], "is written")]
                elif i.callee.v.decl and n not in PRINT and not n.startswith("llvm."):
                    tgt = [(o, "is given to %s" % n) for o in i.ops if o.k in ("global", "cexpr")]
            for p, how in tgt:
                g = gobj(p)
                if g is not None and not g.v["const"] and not idle(g, fns):
                    r.bad("state", "%s:%s" % (f.name, g.name), "%s: %s, which outlives the call, %s" % (f.name, g.name, how), i.where())
        r.ok("state", f.name, "")


def sources(r, m, fns):
    for f in fns:
        for c in [i for i in f.instrs() if i.op == "call" and i.callee.k == "fn" and i.callee.name in SOURCES]:
            st, seen = [c] + [o for o in c.ops if isinstance(o, Ins)], set()
            bad = None
            while st and bad is None:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "alloca" or x is c or x.op != "call":
                    for u in x.users:
                        if u.op == "call":
                            n = u.callee.name if u.callee.k == "fn" else "?"
                            if n in PRINT or n in SOURCES:
                                st += [u] + [o for o in u.ops if isinstance(o, Ins) and root(o).op == "alloca" if isinstance(root(o), Ins)]
                            elif not n.startswith("llvm."):
                                bad = u
                        elif u.op == "store":
                            o = root(u.ops[1])
                            if u.ops[0] is x:
                                if isinstance(o, Ins) and o.op == "alloca":
                                    st.append(o)
                                else:
                                    bad = u
                        elif u.op in ("ret", "br", "switch"):
                            bad = u
                        else:
                            st.append(u)
            r.check(bad is None, "source", "%s:%s" % (f.name, c.callee.name), "%s: the result of %s() influences more than messages" % (f.name, c.callee.name), (bad or c).where())


def unwritten(r, f):
    """memory of this call that is read although nothing can have written it"""
    objs = {i: i for i in f.instrs() if i.op == "alloca" or i.op == "call" and i.callee.k == "fn" and i.callee.name in ("malloc", "allocate_2d_array")}
    use = {}
    for i in f.instrs():
        for k, o in enumerate(i.ops):
            if isinstance(o, Ins):
                g = root(o)
                if g in objs and i.op not in ("gep", "bitcast"):
                    kind = "load" if i.op == "load" else "free" if i.op == "call" and i.callee.k == "fn" and (i.callee.name in ("free", "free_2d_array") or i.callee.name.startswith("llvm.dbg") or i.callee.name.startswith("llvm.lifetime")) \
                        else "cmp" if i.op in ("icmp", "br") else "write"
                    use.setdefault(g, {}).setdefault(kind, []).append(i)
    for g, d in use.items():
        for l in d.get("load", ()):
            w = d.get("write", ())
            if w and (any(x.bb is l.bb and x.idx < l.idx for x in w) or reaches({x.bb for x in w}, l.bb)):
                r.ok("memory", "%s:%s" % (f.name, g.name), "")
            else:
                r.bad("memory", "%s:%s" % (f.name, l.where()), "%s: memory is read that nothing has written" % f.name, l.where())


_reach = {}


def reaches(bs, b):
    for x in bs:
        if x not in _reach:
            seen, st = set(), list(x.succs)
            while st:
                y = st.pop()
                if y not in seen:
                    seen.add(y)
                    st += y.succs
            _reach[x] = seen
        if b in _reach[x]:
            return True
    return False


def run(r):
    r.rule("state", "no native function writes an object that outlives the call (globals, function statics)")
    r.rule("source", "clocks, random numbers, the environment and the like influence nothing but messages")
    r.rule("assigned", "no path uses a local variable that it leaves unassigned")
    r.rule("memory", "memory allocated during the call is written before it is read")
    m = cflow.module(inline=True, mark=True, noalias=True, passes="function(sroa,early-cse,gvn,sccp,adce)",
                     flags=["-memdep-block-number-limit=20000", "-memdep-block-scan-limit=20000"])
    fns = list(cflow.own(m).values())
    if not set(cflow.ROOTS) <= {f.name for f in fns}:
        raise Broken("entry points not found")
    globals_(r, m, fns)
    sources(r, m, fns)
    for f in fns:
        tok = {i for i in f.instrs() if i.op == "call" and i.callee.k == "fn" and i.callee.name.startswith("vp.unset")}
        objs = {i for i in f.instrs() if i.op == "alloca" and "[" not in str(i.sty) and any(u.op in ("load", "store") and u.ops[-1] is i for u in i.users)}
        d = Unset(f, tok, objs)
        try:
            paths.Flow(f).solve(d, init=frozenset())
        except paths.TooBig:
            r.undecided("assigned", f.name, "too many states")
        for i, o in sorted(d.hits.items(), key=lambda x: x[0].where()):
            r.bad("assigned", "%s:%s" % (f.name, owner(o)), "%s: %s is used although a path leaves it unassigned" % (f.name, owner(o)), i.where())
        n = sum(1 for i in f.instrs() if i.op == "phi") + len(objs)
        for k in range(n):
            r.ok("assigned", "%s:%d" % (f.name, k), "")
        unwritten(r, f)
    r.floor("state", 3)
    r.floor("assigned", 500)
    r.floor("memory", 50)


if __name__ == "__main__":
    main("C09", run, explanation="global-effect, taint and definite-assignment analysis on LLVM IR (locals marked before optimisation)")
