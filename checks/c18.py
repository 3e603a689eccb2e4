"""C18 one bad pixel cannot spoil its block."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": None, "rank": 1, "n_cores": 1}
XY = re.compile(r"x(\d+)_y(\d+)")
ORDS = [723950, 723800]
FILL = -9999
EXC = ["RuntimeError", "ValueError", "TypeError", "IndexError", "MemoryError", "ZeroDivisionError", "OverflowError"]
SAVE = ("numpy.save", "pickle.dump", "numpy.savez", "numpy.savez_compressed")
DETECT = ("cold_detect", "sccd_detect")
RECON = ("obcold_reconstruct",)


def scenario(pkg, fn, names, exc, **params):
    """the stage when every call of a detector fails with exc (None: none fails)"""
    it = P.Interp(pkg, stop=pipe.STOP)
    it.small_unroll = True
    it.fail = (lambda g: exc is not None and g.split(".")[-1] in names, exc or "")
    it.escaped = None
    try:
        it.run(fn, args={k: P.C(v) for k, v in params.items()})
    except P.Raised as x:
        it.escaped = x
    return it


def last(e):
    return (P.gid(e.f) or "").split(".")[-1]


def saved(e):
    """(path term, value term) of a call that stores data"""
    g = P.gid(e.f)
    if e.kind != "call" or g not in SAVE:
        return None
    if g == "pickle.dump":
        f = e.arg(1, "file")
        return (pipe.pathof(f) if f is not None else None), e.arg(0, "obj")
    return e.arg(0, "file"), e.arg(1, "arr")


def stale(n, names):
    """parts of a term that belong to another pixel: values left from an earlier iteration, or no value at all"""
    for x in P.walk(n):
        if x.op in ("undef",):
            return "what '%s' holds from an earlier pixel, if any" % x.args[0]
        if x.op == "mu" and not isinstance(x.args[1], tuple):
            return "'%s' of an earlier pixel" % x.args[1]
        if x.op == "mu":
            return "a value of an earlier pixel"
    return None


def hook(t, empty, kind):
    """positions stand for what a detector returns: [pos] for the records, 10*pos+1 and 10*pos+2 for magnitudes and dates"""
    g = arrays.Grid(t)

    def load(p):
        m = XY.search(p)
        b = g.block(int(m[1]), int(m[2]))
        return np.stack([b] * 8, axis=-1)

    def extra(x, go):
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.full_like"):
            a, kw = x.args[1], dict(x.args[2])
            f = x.args[0].args[0].split(".")[-1]
            s = go(a[0] if a else kw["shape"])
            v = {"zeros": 0, "ones": 1}.get(f)
            if v is None:
                v = go(a[1] if len(a) > 1 else kw["fill_value"])
            return np.full(tuple(s) if isinstance(s, (list, tuple)) else s, v, dtype=np.int64)
        if x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] in DETECT + RECON:
            kw = dict(x.args[2])
            p = go(kw["pos"])
            rec = np.asarray([p])
            if "b_output_cm" in kw and go(kw["b_output_cm"]):
                return rec, np.full(t.n_cm, 10 * p + 1), np.full(t.n_cm, 10 * p + 2)
            return rec
        return None
    names = arrays.stack_names(ORDS)
    return arrays.hook(t, load, lambda d: (names[1:2] if empty else names) if d is None or "block_" in d else [], extra)


def block_pos(t, bx, by):
    return [((by - 1) * t.block_height + k // t.block_width) * t.n_cols + (bx - 1) * t.block_width + k % t.block_width + 1 for k in range(t.block_width * t.block_height)]


def all_blocks(t):
    return {(x + 1, y + 1) for x in range(t.n_block_x) for y in range(t.n_block_y)}


def family(p):
    return re.sub(r"x\d+_y\d+|block\d+", "#", p.split("/")[-1]) if isinstance(p, str) else None


def stores(it, t, env, h, want):
    """{family: {path: [value or None]}} of the stores whose path and conditions are decidable"""
    out, open_ = {}, []
    for e in it.events:
        s = saved(e)
        if s is None or s[0] is None or s[1] is None:
            continue
        if not want(s):
            continue
        ins = pipe.instances(e, [s[0], s[1]], env, h)
        if ins is None:
            open_.append(e)
            continue
        for asg, (p, v) in ins:
            if not isinstance(p, str):
                open_.append(e)
                continue
            out.setdefault(family(p), {}).setdefault(p, []).append((v, e, s[1]))
    return out, open_


def escape(r, tag, it, exc, names, where):
    """the loop over the pixels goes on after a failure"""
    call = next((e for e in it.events if e.kind == "call" and last(e) in names), None)
    if call is None:
        raise Broken("no detector call in %s" % tag)
    if it.escaped is not None:
        if exc == "RuntimeError":
            r.bad("goes_on", "%s:%s" % (tag, exc), "%s: %s of the detector for one pixel ends the run of the whole block" % (tag, exc), call.where())
        else:
            r.info.setdefault("ends the run", []).append("%s:%s" % (tag, exc))
        return False
    if not call.loops:
        r.undecided("goes_on", "%s:%s" % (tag, exc), "the detector is not called in a loop", call.where())
        return False
    loop = next((e for e in it.events if e.kind == "loop" and e.extra == call.loops[-1]), None)
    bad = None
    for e in it.events:
        if e.idx < call.idx or not any(str(w).startswith("handler") for _, w in e.trys):
            continue
        if e.kind == "break" and e.loops == call.loops:
            bad = e
        if e.kind == "return" and loop is not None and e.fn == loop.fn:
            bad = e
    r.check(bad is None, "goes_on", "%s:%s" % (tag, exc), "%s: after a %s for one pixel the remaining pixels of the block are skipped (%s)" % (tag, exc, bad.kind if bad else ""), (bad or call).where())
    return bad is None


def marks(it):
    """files created after the pixel loop that hold no data: markers"""
    out = set()
    for e in it.events:
        a = pipe.file_access(e)
        if a and a[0] == "w" and P.gid(e.f) not in SAVE and "finished" in repr(pipe.pathof(a[1])):
            out.add(repr(pipe.pathof(a[1]))[:200])
    return out


def run(r):
    r.rule("goes_on", "a detector failure for one pixel is caught inside the pixel loop and the loop continues with the next pixel")
    r.rule("failed", "magnitudes and dates of a failed pixel are stored in its own place, filled with -9999: no value of another pixel, no shift")
    r.rule("good", "magnitudes and dates of the pixels are stored in pixel order, each pixel once")
    r.rule("records", "each analysed pixel's records are stored exactly once; a failed pixel stores none")
    r.rule("empty", "a block without images stores a full set of -9999 magnitudes and dates")
    r.rule("finish", "the block is completed and marked even if every pixel failed")
    pkg = P.Package()
    deep = r.tier == "thorough"
    tiles = [pipe.Tile(2, 1, 2, 3), pipe.Tile(1, 2, 1, 2)] + ([pipe.Tile(3, 2, 2, 2), pipe.Tile(1, 1, 4, 1)] if deep else [])
    exc = EXC if deep else EXC[:4]
    fn = pipe.T + "tile_processing.main"
    for method, seed in (("COLD", None), ("SCCDOFFLINE", None), ("OBCOLD", None), ("OBCOLD", "/seed.tif")):
        tag = method + ("+seedmap" if seed else "")
        params = dict(method=method, seedmap_path=seed)
        good = scenario(pkg, fn, (), None, **params)
        stage(r, tag, good, tiles, method)
        for x in exc:
            it = scenario(pkg, fn, DETECT, x, **params)
            if escape(r, tag, it, x, DETECT, fn):
                failed(r, "%s:%s" % (tag, x), it, good, tiles, DETECT, method)
        if method == "OBCOLD":
            for x in exc:
                it = scenario(pkg, fn, RECON, x, **params)
                if escape(r, tag + ":reconstruction", it, x, RECON, fn):
                    failed(r, "%s:reconstruction:%s" % (tag, x), it, good, tiles, RECON, method)
    r.floor("goes_on", 4)
    r.floor("records", 3)
    r.floor("failed", 2)
    r.floor("good", 2)


def is_cm(s):
    t = repr(s[0])
    return re.search(r"CM(_date)?_x", t) is not None


def cmkind(p):
    f = family(p)
    return 2 if f.startswith("CM_date") else 1 if f.startswith("CM_#") else None


def cm_of_block(st, t, tag, want, r, rule):
    """compare the stored magnitudes and dates of every block with what is expected"""
    seen = {}
    for f, files in st.items():
        for p, vs in files.items():
            k, m = cmkind(p), XY.search(p)
            if k is None or m is None:
                continue
            seen.setdefault(k, {}).setdefault((int(m[1]), int(m[2])), []).extend(vs)
    bad, cnt, und, where = None, 0, False, ""
    for k, nm in ((1, "magnitudes"), (2, "dates")):
        if k not in seen:
            continue
        for b in all_blocks(t):
            vs = seen[k].get(b)
            if not vs:
                bad = bad or "%s: no change %s are stored for block %s" % (tag, nm, b)
                continue
            for v, e, term in vs:
                where = e.where()
                w = stale(term, DETECT)
                if w is not None and rule == "failed":
                    bad = bad or "%s: the change %s of a failed pixel are %s" % (tag, nm, w)
                    continue
                if v is None:
                    if void(term, e, t):
                        bad = bad or "%s: no change %s are collected for the pixels of a block" % (tag, nm)
                    else:
                        und = True
                    continue
                cnt += 1
                got = np.asarray(v).ravel().tolist()
                exp = want(k, b)
                if got != exp:
                    what = "%d values instead of %d" % (len(got), len(exp)) if len(got) != len(exp) else \
                        "%s at element %d, expected %s" % next((got[i], i, exp[i]) for i in range(len(exp)) if got[i] != exp[i])
                    bad = bad or "%s: the change %s of block %s of a %dx%d grid of %dx%d blocks hold %s" % (tag, nm, b, t.n_block_x, t.n_block_y, t.block_width, t.block_height, what)
    return bad, cnt, und, where


STACK = ("numpy.hstack", "numpy.concatenate", "numpy.vstack", "numpy.stack", "numpy.dstack")


def void(term, e, t, env=None, h=None):
    """the term stacks a list that is empty"""
    env = env or {par(k): v for k, v in ENV.items()}
    h = h or hook(t, False, None)
    for x in P.walk(term):
        if x.op == "call" and P.gid(x.args[0]) in STACK and x.args[1]:
            v = pipe.value(x.args[1][0], env, h)
            if isinstance(v, (list, tuple)) and len(v) == 0:
                return True
    return False


def stage(r, tag, it, tiles, method):
    env = {par(k): v for k, v in ENV.items()}
    if method == "OBCOLD":
        for rule, empty in (("good", False), ("empty", True)):
            bad, cnt, und, where = None, 0, False, ""
            for t in tiles:
                h = hook(t, empty, method)
                st, op = stores(it, t, env, h, is_cm)
                b, c, u, w = cm_of_block(st, t, tag, lambda k, bl, t=t, empty=empty: [FILL] * (t.n_cm * t.block_width * t.block_height) if empty else
                                         [10 * p + k for p in block_pos(t, *bl) for _ in range(t.n_cm)], r, rule)
                bad, cnt, und, where = bad or b, cnt + c, und or u or bool(op), w or where
            if bad is None and (und or cnt == 0):
                r.undecided(rule, tag, "stored magnitudes not closed", where)
            else:
                r.check(bad is None, rule, tag, bad or "", where)
    # records
    bad, cnt, und, where = None, 0, False, ""
    for t in tiles:
        h = hook(t, False, method)
        per = {}
        for e in it.events:
            s = saved(e)
            if s is None or s[0] is None or "record_change" not in repr(s[0]):
                continue
            where = e.where()
            if P.gid(e.f) == "pickle.dump":
                # one dump per pixel of the block
                call = next((x for x in P.walk(s[1]) if x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] in DETECT + RECON), None)
                if call is None:
                    und = True
                    continue
                ins = pipe.instances(e, [s[0], dict(call.args[2])["pos"]], env, h)
                vals = [(p, [v]) for _, (p, v) in ins] if ins is not None else None
            else:
                ins = pipe.instances(e, [s[0], s[1]], env, h)
                vals = [(p, np.asarray(v).ravel().tolist() if v is not None else None) for _, (p, v) in ins] if ins is not None else None
            if vals is None:
                und = True
                continue
            for p, v in vals:
                if not isinstance(p, str) or v is None or any(x is None for x in v):
                    und = True
                    continue
                per.setdefault(p, []).extend(v)
        for p, v in per.items():
            m = XY.search(p)
            if m is None:
                continue
            cnt += 1
            exp = block_pos(t, int(m[1]), int(m[2]))
            if sorted(v) != exp:
                lost, dup = sorted(set(exp) - set(v)), sorted({x for x in v if v.count(x) > 1})
                bad = bad or "%s: %s gets the records of the positions %s, expected each of %s once%s%s" % (
                    tag, p, sorted(v)[:8], exp[:8], "; missing %s" % lost[:4] if lost else "", "; repeated %s" % dup[:4] if dup else "")
        n = len([p for p in per if XY.search(p)])
        if n and n % t.nblocks and bad is None and not und:
            bad = "%s: records are stored for %d of %d blocks" % (tag, n, t.nblocks)
    if bad is None and (und or cnt == 0):
        r.undecided("records", tag, "stored records not closed", where)
        if cnt and not bad:
            r.ok("records", tag + ":partly", where)
    else:
        r.check(bad is None, "records", tag, bad or "", where)


def failed(r, tag, it, good, tiles, names, method):
    env = {par(k): v for k, v in ENV.items()}
    if method == "OBCOLD" and names is DETECT:
        bad, cnt, und, where = None, 0, False, ""
        for t in tiles:
            h = hook(t, False, method)
            st, op = stores(it, t, env, h, is_cm)
            b, c, u, w = cm_of_block(st, t, tag, lambda k, bl, t=t: [FILL] * (t.n_cm * t.block_width * t.block_height), r, "failed")
            bad, cnt, und, where = bad or b, cnt + c, und or u or bool(op), w or where
        if bad is None and cnt == 0 and not und:
            bad = "%s: no magnitudes are stored for a block whose pixels failed" % tag
        if bad is None and und:
            r.undecided("failed", tag, "stored magnitudes not closed", where)
        else:
            r.check(bad is None, "failed", tag, bad or "", where)
    # nothing is recorded for a failed pixel
    bad, where = None, ""
    t = tiles[0]
    h = hook(t, False, method)
    for e in it.events:
        s = saved(e)
        if s is None or s[0] is None or s[1] is None or "record_change" not in repr(s[0]):
            continue
        if names is RECON and any(x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] in DETECT for x in P.walk(s[1])):
            continue
        if names is DETECT and any(x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] in RECON for x in P.walk(s[1])):
            continue
        ins = pipe.instances(e, [s[0], s[1]], env, h)
        if ins is not None and not ins:
            continue           # its condition is false when nothing was recorded
        where = e.where()
        w = stale(s[1], names)
        if w is not None:
            bad = bad or "%s: for a failed pixel %s is stored as its record" % (tag, w)
            continue
        if void(s[1], e, t, ins[0][0] if ins else env, h):
            bad = bad or "%s: when no pixel of a block gives a record, stacking the empty list of records ends the run" % tag
    r.check(bad is None, "records", tag, bad or "", where)
    lost = marks(good) - marks(it)
    r.check(not lost, "finish", tag, "%s: the marker %s is not created when the pixels fail" % (tag, sorted(lost)[:1]), "")


main("C18", run, explanation="The stages are interpreted once per failure scenario (each exception class at the detector call, followed through the matching handler, else and finally blocks); "
     "what is stored is evaluated per block with positions standing for detector results, and compared with the run in which no pixel fails")
