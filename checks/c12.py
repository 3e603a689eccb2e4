"""C12 the NRT pack carries exactly what its mode needs, and an update restores it."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pyq
from report import main, Broken

PROTO = (0, 1, 2, 3, 4, 5, 11, 12)
BAD = (6, 7, 8, 9, 10, 13, 14)
MODEL, QUEUE = {1, 3, 5, 11}, {2, 4, 5, 12}
EMPTYF = {"numpy.array", "numpy.empty", "numpy.zeros", "numpy.asarray"}


def is_empty(n):
    """np.array([]), np.empty(0), x[:0]"""
    n = pyq.strip(n)
    if n.op == "call" and n.args[0].op == "glob" and n.args[0].args[0] in EMPTYF and n.args[1]:
        a = n.args[1][0]
        return (a.op in ("list", "tuple") and not a.args[0]) or P.is_const(a, 0)
    if n.op in ("list", "tuple"):
        return not n.args[0]
    if n.op == "sub" and n.args[1].op == "slice":
        return P.is_const(n.args[1].args[1], 0)
    return False


def base(n):
    """the storage a slice or updated value is taken from"""
    while True:
        n = pyq.strip(n)
        if n.op == "sub" and n.args[1].op in ("slice", "tuple"):
            n = n.args[0]
        elif n.op in ("update", "mu") and isinstance(n.args[0], P.Node):
            n = n.args[0]
        else:
            return n


def unpack(t):
    """(pack fields, pinpoint fields or None) of a returned term"""
    def nt(x):
        return dict(x.args[1]) if x.op == "ntuple" else None
    t = pyq.strip(t)
    if t.op in ("list", "tuple") and len(t.args[0]) == 2:
        p, q = [pyq.strip(x) for x in t.args[0]]
        return (nt(p), nt(q), p, q)
    return (nt(t), None, t, None)


def same_store(arg, val, env, hook):
    """the buffer given to the native code is the storage of the returned field"""
    a, b = base(pyq.pick(base(arg), env, hook)), base(pyq.pick(base(val), env, hook))
    a, b = base(a), base(b)
    if a is b:
        return True
    return {x.id for x in pyq.alts(a)} == {x.id for x in pyq.alts(b)}


def run(r):
    r.rule("shape", "pinpoint off: one pack; pinpoint on: a pair of pack and pinpoint records; in every mode")
    r.rule("mode", "the pack holds the mode the native detector returned")
    r.rule("model", "the model field is the native model buffer in model modes and empty otherwise")
    r.rule("queue", "the queue field is the native queue buffer cut at the native count in queue modes and empty otherwise")
    r.rule("records", "the record field is the native record buffer cut at the native count (empty without records or in void mode)")
    r.rule("pinpoint", "the pinpoint field is the native pinpoint buffer cut at the native count")
    r.rule("raise", "a mode outside the protocol raises, one inside does not")
    r.rule("restore", "sccd_update hands the native code the mode, model, queue and records of the pack with their own counts")
    r.rule("identify", "sccd_identify returns the pack unchanged, without reading a model, in modes that have none or are already confirmed")
    pkg = P.Package()
    for api, pins in (("sccd_detect", (False, True)), ("sccd_update", (None,))):
        it, nc = pyq.api_call(pkg, api)
        for e, sig in nc:
            names = [n for _, n in sig]
            arg = {n: e.args[i] for i, n in enumerate(names)}
            out = {n: pyq.native_out(e, sig, n)[0] for n in names if n in ("nrt_mode", "num_fc", "num_nrt_queue", "num_fc_pinpoint")}
            call = next((x for ev in it.events if ev.kind in ("raise", "return") for c, _ in ev.guards for x in P.walk(c)
                         if x.op == "call" and P.gid(x.args[0]) == "sccd"), None)
            if call is None:
                raise Broken("%s: the native status is not consulted" % api)
            for pin in pins:
                for m in PROTO + BAD:
                    for cnt in (0, 3):
                        env = {c: p for c, p in e.guards}       # the native call was reached
                        env |= {out["nrt_mode"]: m, call: 0, out["num_fc"]: cnt, out["num_nrt_queue"]: cnt + 4, out["num_fc_pinpoint"]: 3 * cnt}
                        if pin is not None:
                            env[P.Node("param", "b_pinpoint")] = pin
                        tag = "%s:mode%d%s%s" % (api, m, "" if pin is None else ":pinpoint" if pin else ":plain", ":empty" if not cnt else "")
                        # raises after the native call decided by the mode
                        fired = None
                        for x in it.events:
                            if x.kind == "raise" and x.idx > e.idx:
                                g = [(c, p) for c, p in x.guards if P.contains(c, lambda y: y is call or y in out.values())]
                                h = pyq.holds(g, env) if g else None
                                if h:
                                    fired = x
                                elif h is None and g:
                                    r.undecided("raise", tag, "guard not decidable", x.where())
                        if m in BAD:
                            r.check(fired is not None, "raise", tag, "%s returns a pack for the invalid mode %d" % (api, m), e.where())
                            continue
                        if not r.check(fired is None, "raise", tag, "%s raises for mode %d of the protocol" % (api, m), fired.where() if fired else ""):
                            continue
                        miss = []
                        t = pyq.pick(it.ret, env, None, miss)
                        if miss:
                            r.undecided("shape", tag, "return value depends on " + str(miss[0])[:120], e.where())
                            continue
                        pk, pp, pt, qt = unpack(t)
                        if not r.check((pk is not None and "nrt_mode" in pk) and (pp is not None) == bool(pin), "shape", tag,
                                       "%s returns %s in mode %d" % (api, "no pack" if pk is None else "a bare pack although pinpoint is on" if pin else "something else than one pack", m), e.where()):
                            continue
                        f = {k: pyq.pick(v, env, None, miss) for k, v in pk.items()}
                        r.check(f["nrt_mode"] is out["nrt_mode"] or P.is_const(f["nrt_mode"], m), "mode", tag, "the pack of mode %d holds mode %s" % (m, str(f["nrt_mode"])[:80]), e.where())

                        def cut(val, a, cn, rule, want):
                            if not want:
                                r.check(is_empty(val), rule, tag, "in mode %d the %s is not empty" % (m, rule), e.where())
                                return
                            if is_empty(val):
                                return r.bad(rule, tag, "in mode %d the %s is dropped" % (m, rule), e.where())
                            r.check(same_store(a, val, env, None), rule, tag, "in mode %d the %s is not the native buffer: %s" % (m, rule, str(val)[:100]), e.where())
                            if cn is not None:
                                s = pyq.strip(val)
                                okc = s.op == "sub" and s.args[1].op == "slice" and s.args[1].args[1] is cn and \
                                    (P.is_const(s.args[1].args[0], 0) or P.is_const(s.args[1].args[0], None))
                                try:
                                    okc = okc or (s.op == "sub" and s.args[1].op == "slice" and pyq.ev(s.args[1].args[1], env) == env[cn]
                                                  and pyq.ev(s.args[1].args[0], env) in (0, None))
                                except pyq.Unknown:
                                    pass
                                okc = okc and not any(x.op == "slice" and len(x.args) > 2 and x.args[2] is not None and not P.is_const(x.args[2], None) and not P.is_const(x.args[2], 1)
                                                      for x in P.walk(val))
                                r.check(okc, rule, tag + ":count", "in mode %d the %s is not cut at its native count" % (m, rule), e.where())
                        cut(f["nrt_model"], arg["nrt_model"], None, "model", m in MODEL)
                        cut(f["nrt_queue"], arg["nrt_queue"], out["num_nrt_queue"], "queue", m in QUEUE)
                        if cnt == 0 or m == 0:
                            if not is_empty(f["rec_cg"]):
                                cut(f["rec_cg"], arg["rec_cg"], out["num_fc"], "records", True)
                        else:
                            cut(f["rec_cg"], arg["rec_cg"], out["num_fc"], "records", True)
                        if pp is not None:
                            g = {k: pyq.pick(v, env, None, miss) for k, v in pp.items()}
                            v = g.get("rec_cg_pinpoint")
                            if v is None:
                                r.bad("pinpoint", tag, "the pair has no pinpoint records", e.where())
                            elif cnt or not is_empty(v):
                                cut(v, arg["rec_cg_pinpoint"], out["num_fc_pinpoint"], "pinpoint", True)
            # restoring
            if api != "sccd_update":
                continue
            pack = P.Node("param", "sccd_pack")
            fld = lambda n: P.Node("attr", pack, n)
            r.check(pyq.strip(arg["nrt_mode"]) is fld("nrt_mode"), "restore", "mode", "the native code starts from mode %s" % str(arg["nrt_mode"])[:80], e.where())
            for cn, fn, dst in (("num_fc", "rec_cg", "rec_cg"), ("num_nrt_queue", "nrt_queue", "nrt_queue")):
                n = pyq.strip(arg[cn])
                ok = n.op == "call" and P.gid(n.args[0]) == "len" and n.args[1][0] is fld(fn) or \
                    n.op == "attr" and n.args[1] == "size" and n.args[0] is fld(fn) or \
                    n.op == "sub" and n.args[0].op == "attr" and n.args[0].args[1] == "shape" and n.args[0].args[0] is fld(fn)
                r.check(ok, "restore", cn, "%s starts from %s" % (cn, str(n)[:80]), e.where())
                for k in (0, 1, 5, 39):
                    env = {pyq.strip(arg[x]): 2 for x in ("num_fc", "num_nrt_queue")} | {n: k}
                    miss = []
                    v = pyq.pick(_deaddr(arg[dst]), env, None, miss)
                    if miss:
                        r.undecided("restore", dst, str(miss[0])[:150], e.where())
                        continue
                    if k == 0:
                        continue
                    st = [x for x in P.walk(v) if x.op == "slice" and len(x.args) > 2 and x.args[2] is not None and not P.is_const(x.args[2], None) and not P.is_const(x.args[2], 1)]
                    if st:
                        r.bad("restore", "%s:%d" % (dst, k), "the native %s takes every other entry or reverses them: %s" % (dst, str(st[0])[:80]), e.where())
                        continue
                    if P.contains(v, lambda x: x is fld(fn)):
                        # copied by a slice store or derived as a whole (concatenate, copy)
                        if v.op == "update":
                            src = v.args[-1]
                            okv = pyq.strip(src) is fld(fn)
                            if not okv and src.op == "sub" and src.args[0] is fld(fn) and src.args[1].op == "slice":
                                try:
                                    lo, hi = src.args[1].args[0], src.args[1].args[1]
                                    lo, hi = pyq.ev(lo, env) or 0, pyq.ev(hi, env)
                                    okv = lo == 0 and (hi is None or hi >= k)
                                    if v.args[1].op == "slice":
                                        dl, dh = pyq.ev(v.args[1].args[0], env) or 0, pyq.ev(v.args[1].args[1], env)
                                        okv = okv and dl == 0 and (dh is None or dh >= k)
                                except pyq.Unknown:
                                    r.undecided("restore", dst, "slice bounds", e.where())
                                    continue
                            r.check(okv, "restore", "%s:%d" % (dst, k), "with %d entries the native %s holds %s" % (k, dst, str(src)[:100]), e.where())
                        else:
                            r.ok("restore", "%s:%d" % (dst, k), e.where())
                    else:
                        r.bad("restore", dst, "with %d entries in the pack the native %s is %s" % (k, dst, str(v)[:120]), e.where())
            for m in PROTO + BAD:
                env = {fld("nrt_mode"): m, P.Node("param", "conse"): 6}
                if m in BAD:
                    b = pyq.holds([(c, p) for c, p in e.guards if P.contains(c, lambda x: x is fld("nrt_mode"))], env)
                    r.check(b is False, "raise", "start%d" % m, "sccd_update starts the detector from the invalid mode %d" % m, e.where())
                    continue
                g = [(c, p) for c, p in e.guards if P.contains(c, lambda x: x is fld("nrt_mode"))]
                r.check(pyq.holds(g, env) is not False, "raise", "start%d" % m, "sccd_update refuses a pack of mode %d" % m, e.where())
                if m in MODEL:
                    v = pyq.pick(_deaddr(arg["nrt_model"]), env)
                    r.check(pyq.strip(v) is fld("nrt_model") or P.contains(v, lambda x: x is fld("nrt_model")), "restore", "model:mode%d" % m,
                            "in mode %d the native model is %s, not the pack's" % (m, str(v)[:100]), e.where())
                rm = pyq.strip(arg["min_rmse"])
                r.check(P.contains(rm, lambda x: x is fld("min_rmse")), "restore", "min_rmse", "the minimum rmse of the pack is not restored", e.where())
    # identification
    it = P.Interp(pkg).run("pycold.colds.sccd_identify")
    pack = P.Node("param", "sccd_pack")
    fm = P.Node("attr", pack, "nrt_mode")
    reads_model = lambda n: P.contains(n, lambda x: x.op == "attr" and x.args[1] == "nrt_model" and x.args[0] is pack)
    for m in PROTO:
        env = {fm: m}
        miss = []
        v = pyq.pick(it.ret, env, None, miss)
        if m in MODEL - {3, 11}:
            r.check(bool(miss) or reads_model(v), "identify", "mode%d" % m, "sccd_identify never examines the model of a pack in mode %d" % m, "pycold.colds.sccd_identify")
            continue
        if miss and reads_model(miss[0]):
            r.bad("identify", "mode%d" % m, "sccd_identify reads the model of a pack in mode %d" % m, "pycold.colds.sccd_identify")
            continue
        if miss:
            r.undecided("identify", "mode%d" % m, str(miss[0])[:150])
            continue
        ok = v.op in ("tuple", "list") and len(v.args[0]) == 2 and v.args[0][0] is pack and P.is_const(v.args[0][1], 0)
        r.check(ok, "identify", "mode%d" % m, "sccd_identify returns %s for mode %d" % (str(v)[:120], m), "pycold.colds.sccd_identify")
    r.floor("mode", 20)
    r.floor("model", 20)
    r.floor("queue", 20)
    r.floor("restore", 8)


def _deaddr(n):
    n = pyq.strip(n) if P.gid(n.args[0] if n.op == "call" else n) == "__addr__" else n
    return n


main("C12", run, "other",
     "Every return term and guard of sccd_detect, sccd_update and sccd_identify is decided for each mode value, pinpoint setting and empty/non-empty native counts by finite evaluation of the value-numbered terms; "
     "the buffers handed to the native detector are compared with the fields of the pack and with the returned fields as storage.")
