"""C33 change-magnitude snapshots lie on one time grid, from the detector to the maps."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import cflow
import nrtstate
import paths
import pipe
import pyflow as P
import pyq
from llir import Ins, dominators
from report import main, Broken
from worlds import affine

PROCS = nrtstate.KEEP
BANDS = ("dates", "ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas")
D0 = 724000


def roles(m, ext):
    """{(function, parameter): name of the parameter of cold() it stands for}"""
    own = cflow.own(m)
    f = own["cold"]
    out, todo = {}, []
    for a, (ct, cn) in zip(f.args, ext["cold"]):
        out[a] = cn
    todo, seen = [f], set()
    while todo:
        g = todo.pop()
        if g in seen:
            continue
        seen.add(g)
        for i in g.instrs():
            if i.op == "call" and i.callee.k == "fn" and i.callee.name in own:
                h = own[i.callee.name]
                for a, o in zip(h.args, i.ops):
                    o = nrtstate.core(o)
                    if o in out:
                        out[a] = out[o]
                todo.append(h)
    return out, seen


def place(p):
    """(base, index value) of an address base[index]"""
    while isinstance(p, Ins) and p.op == "bitcast":
        p = p.ops[0]
    if isinstance(p, Ins) and p.op == "gep" and len(p.ops) == 2:
        b = p.ops[0]
        return b, p.ops[1]
    return p, None


def leaves(v):
    return [x for x in nrtstate.web(v) if not (isinstance(x, Ins) and x.op in ("phi", "select") + nrtstate.CASTS)]


def native(r, pkg):
    m = cflow.module(inline=True, keep=PROCS, passes="function(sroa,early-cse),globalopt,function(instsimplify,early-cse,adce)")
    ext = next(iter(pkg.cy.values())).externs
    role, fns = roles(m, ext)
    PT = nrtstate.Paths(m)
    want = {"cm_outputs", "cm_outputs_date"}
    n = 0
    for f in fns:
        st = {k: [] for k in want}
        for i in f.instrs():
            if i.op == "store":
                b, ix = place(i.ops[1])
                b = nrtstate.core(b)
                if role.get(b) in want:
                    st[role[b]].append((i, ix))
        if not any(st.values()):
            continue
        dom = dominators(f)
        for k in sorted(want):
            for i, ix in st[k]:
                n += 1
                tag = "%s:%s" % (f.name, k)
                # the slot
                dates = set()
                for q in ([] if ix is None else leaves(ix)):
                    ok, d = False, None
                    if isinstance(q, Ins) and q.op == "sdiv":
                        num, den = affine(q.ops[0]) or {}, nrtstate.core(q.ops[1])
                        ld = [x for x, c in num.items() if isinstance(x, Ins) and x.op == "load" and c == 1]
                        rest = {role.get(x): c for x, c in num.items() if x is not None and x not in ld}
                        ok = len(ld) == 1 and rest == {"starting_date": -1} and num.get(None, 0) == 0 and role.get(den) == "cm_output_interval"
                        if ok:
                            d = PT.path(ld[0].ops[0])
                    elif not isinstance(q, Ins):
                        continue            # the initial value of the variable
                    dates.add(d)
                    r.check(ok, "slot", tag, "%s: a change magnitude is stored at an index that is not (date - starting date) / interval" % f.name, i.where())
                if ix is None or not dates:
                    r.bad("slot", tag, "%s: a change magnitude is stored at a fixed place" % f.name, i.where())
                    continue
                # its partner
                other = st[(want - {k}).pop()]
                part = [j for j, jx in other if jx is not None and nrtstate.core(jx) is nrtstate.core(ix) and together(i.bb, j.bb, dom, f)]
                r.check(bool(part), "pair", tag, "%s: %s is stored in a slot without %s" % (f.name, *(("a magnitude", "its date") if k == "cm_outputs" else ("a date", "its magnitude"))), i.where())
                if k == "cm_outputs_date":
                    a = affine(i.ops[0]) or {}
                    ld = [x for x in a if isinstance(x, Ins) and x.op == "load"]
                    r.check(len(ld) == 1 and {PT.path(ld[0].ops[0])} == dates, "pair", tag + ":date", "%s: the date stored with a change magnitude is not the date its slot was chosen by" % f.name, i.where())
                else:
                    r.check(larger(i, ix, dom), "keep", tag, "%s: a change magnitude replaces the one in its slot although it is not known to be larger" % f.name, i.where())
    if n < 4:
        raise Broken("only %d stores of change magnitudes found" % n)


def together(a, b, dom, f):
    """both blocks run equally often"""
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        # y follows x on every way: straight line without another way in or out
        z, seen = x, set()
        while z not in seen and len(z.succs) == 1 and len(set(z.succs[0].preds)) == 1:
            seen.add(z)
            z = z.succs[0]
            if z is y:
                return True
    return False


def larger(i, ix, dom):
    """the store runs only when its value exceeds what the slot holds"""
    v = vals(i.ops[0])
    b, _ = place(i.ops[1])
    bb = i.bb
    seen = set()
    while bb is not None and bb not in seen:
        seen.add(bb)
        ps = list(dict.fromkeys(bb.preds))
        if len(ps) != 1:
            return False
        p = ps[0]
        t = p.ins[-1]
        if t.op == "br" and len(t.blocks) == 2 and isinstance(t.ops[0], Ins) and t.ops[0].op in ("icmp", "fcmp"):
            c = t.ops[0]
            yes = t.blocks[0] is bb
            pr = str(c.pred).lstrip("suo")
            for x, y, ps_ in ((c.ops[0], c.ops[1], pr), (c.ops[1], c.ops[0], {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(pr))):
                old = nrtstate.core(y)
                if isinstance(old, Ins) and old.op == "load" and vals(x) & v:
                    ob, ox = place(old.ops[0])
                    if ob is b and nrtstate.core(ox) is nrtstate.core(ix) and (ps_ in ("gt", "ge") if yes else ps_ in ("lt", "le")):
                        return True
        bb = p
    return False


def vals(v):
    """a value and what it is converted from"""
    out = set()
    while True:
        out.add(v)
        if isinstance(v, Ins) and v.op in nrtstate.CASTS:
            v = v.ops[0]
        else:
            return out


def hook(x, go):
    if x.op == "attr" and x.args[1] in ("shape", "ndim", "size"):
        v = go(x.args[0])
        if isinstance(v, np.ndarray):
            return getattr(v, x.args[1])
    if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("astype", "copy"):
        v = go(x.args[0].args[0])
        if isinstance(v, np.ndarray):
            return v
    if x.op == "call" and P.gid(x.args[0]) in ("numpy.ascontiguousarray", "numpy.asarray"):
        v = go(x.args[1][0])
        if isinstance(v, np.ndarray):
            return v
    if x.op == "sub":
        try:
            v = go(x.args[0])
            if isinstance(v, np.ndarray):
                k = go(x.args[1])
                if isinstance(k, (int, np.integer)):
                    return int(v[k])
        except pyq.Unknown:
            return None
    return None


def length(n, env):
    """number of elements of the buffer an argument is the address of"""
    n = pyq.strip(n)
    while n.op == "call" and P.gid(n.args[0]) == "__addr__":
        n = n.args[1][0]
    while n.op == "sub":
        n = n.args[0]
    n = pyq.pick(n, env, hook)
    if n.op == "call" and P.gid(n.args[0]) in ("numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones"):
        s = n.args[1][0] if n.args[1] else dict(n.args[2])["shape"]
        s = pyq.ev(s, env, hook)
        return s[0] if isinstance(s, tuple) else s
    raise pyq.Unknown("buffer")


def room(r, pkg, tier):
    it, nc = pyq.api_call(pkg, "cold_detect")
    prm = lambda n: P.Node("param", n)
    spans = (1, 2, 59, 60, 61, 119, 120, 365, 4000) if tier == "quick" else tuple(range(1, 130)) + (365, 3999, 4000, 4001)
    seen = 0
    for e, sig in nc:
        arg = {cn: a for (ct, cn), a in zip(sig, e.args)}
        for span in spans:
            for step in (0, 1, 32, 60, 61):
                for start in (0, D0, D0 - 1, D0 + 1, D0 - 100, D0 + span):
                    for ncm in (0, 1, 2, span // (step or 60), span // (step or 60) + 1):
                        dates = np.array([D0, D0 + span // 2, D0 + span])
                        env = {prm(b): np.array([1, 1, 1]) for b in BANDS}
                        env |= {prm("dates"): dates, prm("b_output_cm"): True, prm("starting_date"): start, prm("cm_output_interval"): step, prm("n_cm"): ncm, prm("pos"): 1}
                        reach = True
                        for c, p in e.guards:
                            try:
                                if bool(pyq.ev(c, env, hook)) != p:
                                    reach = False
                                    break
                            except (pyq.Unknown, TypeError, KeyError, IndexError):
                                continue
                        tag = "span%d step%d start%+d n%d" % (span, step, start - D0 if start else 0, ncm)
                        if not reach:
                            r.check(not (ncm == 0 and start in (0, D0, D0 - 1)), "room", "refused", "a call that leaves the number of snapshots to the function is refused (%s)" % tag, e.where())
                            continue
                        try:
                            s, k = pyq.ev(arg["starting_date"], env, hook), pyq.ev(arg["cm_output_interval"], env, hook)
                            ns = [length(arg[x], env) for x in ("cm_outputs", "cm_outputs_date")]
                        except (pyq.Unknown, TypeError, KeyError) as x:
                            r.undecided("room", "call", str(x)[:150], e.where())
                            return
                        seen += 1
                        r.check(k > 0 and s <= D0 and (D0 + span - s) // k < min(ns), "room", "cold_detect",
                                "the detector is given %s slots from day %+d on in steps of %s for dates from 0 to %d (%s)" % (ns, s - D0, k, span, tag), e.where())
                        r.check((start == 0 and s == D0 or s == start) and (step == 0 or k == step), "room", "cold_detect:grid", "the detector runs on another grid than the one asked for (%s)" % tag, e.where())
    if not seen:
        raise Broken("no combination of options reaches the detector")


def result(r, pkg):
    prm = lambda n: P.Node("param", n)
    for api in ("cold_detect", "obcold_reconstruct"):
        it, nc = pyq.api_call(pkg, api, fresh=True)
        for e, sig in nc:
            arg = {cn: a for (ct, cn), a in zip(sig, e.args)}
            num = pyq.native_out(e, sig, "num_fc")[0]
            call = e.f
            for cm in ((False, True) if api == "cold_detect" else (None,)):
                for k in (1, 2, 7):
                    tag = "%s%s" % (api, "" if cm is None else ":cm" if cm else ":plain")
                    env = {c: p for c, p in e.guards} | {call: 0, num: k}
                    for ev in it.events:
                        for c, _ in ev.guards:
                            for x in P.walk(c):
                                if x.op == "call" and x.args[0] is e.f or x.op == "call" and P.gid(x.args[0]) == P.gid(e.f):
                                    env[x] = 0
                    if cm is not None:
                        env[prm("b_output_cm")] = cm
                    miss = []
                    t = pyq.strip(pyq.pick(it.ret, env, None, miss))
                    if miss:
                        r.undecided("result", tag, str(miss[0])[:150], e.where())
                        continue
                    parts = [t]
                    if cm:
                        if not r.check(t.op in ("list", "tuple") and len(t.args[0]) == 3, "result", tag, "records, magnitudes and dates are not returned together", e.where()):
                            continue
                        parts = list(t.args[0])
                    rec = pyq.strip(pyq.pick(parts[0], env, None, miss))
                    ok = rec.op == "sub" and rec.args[1].op == "slice"
                    try:
                        ok = ok and (pyq.ev(rec.args[1].args[0], env) or 0) == 0 and pyq.ev(rec.args[1].args[1], env) == k and pyq.ev(rec.args[1].args[2], env) in (None, 1)
                    except pyq.Unknown as x:
                        r.undecided("result", tag, str(x)[:150], e.where())
                        continue
                    r.check(ok and same(arg["rec_cg"], rec, env), "result", tag + ":records", "%s does not return all and only the %d records the detector counted" % (api, k), e.where())
                    for nm, x in zip(("cm_outputs", "cm_outputs_date"), parts[1:]):
                        x = pyq.strip(pyq.pick(x, env, None, miss))
                        r.check(same(arg[nm], x, env), "result", tag + ":" + nm, "%s returns something else than the native %s in its place" % (api, nm), e.where())


def store_of(n, env):
    n = pyq.strip(n)
    while True:
        if n.op == "call" and P.gid(n.args[0]) == "__addr__":
            n = n.args[1][0]
        elif n.op == "sub":
            n = n.args[0]
        elif n.op in ("update", "mu"):
            n = n.args[0]
        elif n.op == "phi":
            m = pyq.pick(n, env)
            if m is n:
                return n
            n = m
        else:
            m = pyq.strip(n)
            if m is n:
                return n
            n = m


def same(a, b, env):
    return store_of(a, env) is store_of(b, env)


def tile_grid(r, pkg):
    """all pixels of a tile share the grid of the tile, and the block files hold what their name says"""
    tile = pipe.Tile(2, 3, 2, 2, first=723800, last=724700, interval=150)
    h = pipe.hook(tile)
    for tag, it in pipe.tile_runs(pkg):
        if not tag.startswith("OBCOLD"):
            continue
        env = {pipe.par(k): v for k, v in (("rank", 1), ("n_cores", 1), ("stack_path", "S"), ("yaml_path", "Y"), ("result_path", "R"))}
        for e in it.events:
            if e.kind == "call" and P.gid(e.f) == "pycold.colds.cold_detect":
                args = {k: e.arg(i, k) for k, i in (("b_output_cm", 12), ("starting_date", 13), ("n_cm", 14), ("cm_output_interval", 15))}
                v = {k: None if a is None else pipe.value(a, env, h) for k, a in args.items()}
                for k, want in (("starting_date", tile.first), ("cm_output_interval", tile.interval)):
                    a = args[k]
                    if a is not None and v[k] is None:
                        per = [x for x in P.walk(a) if x.op == "iterel" or x.op == "call" and P.gid(x.args[0]) in ("numpy.load", "os.listdir")]
                        if not per:
                            r.undecided("grid", "%s:%s" % (tag, k), "value not closed: %s" % str(a)[:120], e.where())
                            continue
                        r.bad("grid", "%s:%s" % (tag, k), "%s: the %s given to the detector depends on the block: %s" % (tag, k, str(a)[:120]), e.where())
                        continue
                    r.check(a is not None and v[k] == want, "grid", "%s:%s" % (tag, k), "%s: the detector is given %s = %s, the maps of the tile are assembled with %s" % (tag, k, v[k], want), e.where())
                if args["n_cm"] is not None and v["n_cm"] is not None and v["n_cm"] != 0:
                    need = (tile.last - tile.first) // tile.interval + 1
                    r.check(v["n_cm"] >= need, "grid", "%s:n_cm" % tag, "%s: %s slots for a span that needs %d" % (tag, v["n_cm"], need), e.where())
            a = pipe.file_access(e)
            if not a or a[0] != "w" or P.gid(e.f) != "numpy.save":
                continue
            arr = e.arg(1, "arr")
            nm = "".join(str(x.args[0]) for x in P.walk(pipe.pathof(a[1])) if x.op == "const") + str(pipe.pathof(a[1]))
            got = {P.cval(x.args[1]) for x in P.walk(arr) if x.op == "sub" and x.args[0].op == "call" and P.gid(x.args[0].args[0]) == "pycold.colds.cold_detect" and x.args[1].op == "const"}
            if not got:
                continue
            for key, k in (("CM_date_x", 2), ("CM_x", 1), ("record_change", 0)):
                if key in nm:
                    r.check(got == {k}, "grid", "%s:%s" % (tag, key), "%s: the file %s* holds the %s of the pixels" % (
                        tag, key, " and ".join({0: "records", 1: "magnitudes", 2: "dates"}.get(q, "part %r" % (q,)) for q in sorted(got, key=str))), e.where())
                    break


def run(r):
    r.rule("grid", "every pixel of a tile is given the starting date and interval of the tile, and the block files named after magnitudes and dates hold them")
    r.rule("slot", "every change magnitude and its date are stored at index (date of the test - starting date) / interval")
    r.rule("pair", "a magnitude and its date are stored together, in one slot, and the date is the one the slot was chosen by")
    r.rule("keep", "a stored magnitude is replaced only by a larger one")
    r.rule("room", "for every span, start and interval that passes the guards, the buffers have a slot for every observation date, and the grid is the one asked for")
    r.rule("result", "the records counted are returned, all and in order, with the magnitudes and the dates in that order")
    pkg = P.Package()
    native(r, pkg)
    room(r, pkg, r.tier if hasattr(r, "tier") else os.environ.get("VERIF_TIER", "quick"))
    result(r, pkg)
    tile_grid(r, pkg)
    r.floor("grid", 6)
    r.floor("slot", 4)
    r.floor("room", 3)


main("C33", run, explanation="index terms of the native stores on LLVM IR; guards and buffer sizes of the Python call as terms, folded over spans, starts and intervals")
