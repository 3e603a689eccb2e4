"""C17 Completion markers appear only after the work they stand for."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pipe
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": 1983,
       "out_path": "O", "reccg_path": "R", "reference_path": "REF.tif", "year_lowbound": 1982, "year_uppbound": 1983, "coefs_bands": "0,3", "out_dir": "S",
       "source_dir": "/src", "low_date_bound": None, "upp_date_bound": None}
NAMES = {"ARD": ["LT05_CU_022010_20%02d0101_SR.tar" % k for k in range(5)], "ARD-C2": ["LT05_CU_022010_20%02d0101_SR.tar" % k for k in range(5)],
         "C2": ["LT05_L2SP_012031_20%02d0101_20200101_02_T1.tar" % k for k in range(5)], "HLS": ["HLS.L30.T10SEG.20%02d001T1.v2.0" % k for k in range(5)],
         "HLS14": ["/src/HLS.L30.T10SEG.20%02d001.v1.4.hdf" % k for k in range(5)]}


def digits(v):
    return re.sub(r"\d+", "#", v)


class Trace:
    """effects of one stage with their instances per worker"""
    def __init__(self, tag, it, envs):
        self.tag, self.it, self.envs = tag, it, envs
        self.acc = []
        for e in it.events:
            a = pipe.file_access(e)
            if a and a[1] is not None:
                self.acc.append((e, a[0], pipe.pathof(a[1])))
        self.memo = {}

    def inst(self, e, t, k):
        key = (e.idx, t.id, k)
        if key not in self.memo:
            ins = pipe.instances(e, [t], *self.envs[k])
            vs = None
            if ins is not None and all(v is not None for _, (v,) in ins):
                vs = [v for _, (v,) in ins]
            self.memo[key] = vs
        return self.memo[key]

    def names(self, e, t):
        out = set()
        for k in range(len(self.envs)):
            vs = self.inst(e, t, k)
            if vs is None:
                return None
            out |= set(vs)
        return out

    def fam(self, e, t):
        n = self.names(e, t)
        return None if n is None else {digits(v) for v in n}


def exists_terms(c):
    return [x.args[1][0] for x in P.walk(c) if x.op == "call" and P.gid(x.args[0]) in ("os.path.exists", "os.path.isfile", "os.path.lexists") and x.args[1]] + \
           [x.args[0].args[0] for x in P.walk(c) if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("exists", "is_file") and not x.args[1]]


def fam_of_term(t, env, h):
    """family of a probed name: evaluated for the first element of every list it ranges over"""
    its = pipe.iterels(t)
    v = pipe.value(t, {**env, **{i: 0 for i in its}}, h)
    return digits(v) if isinstance(v, str) else None


def analyse(r, tr, stats):
    it, tag = tr.it, tr.tag
    env0, h0 = tr.envs[0]
    # which names are waited for (a sleep is conditional on their absence)
    waits = []          # (sleep event, families)
    for e in it.events:
        if e.kind == "call" and P.gid(e.f) == "time.sleep":
            fams = set()
            outer = next((set(x.guards) for x in it.events if x.kind == "loop" and e.loops and x.extra == e.loops[-1]), set(e.guards))
            for c, p in e.guards:
                if (c, p) in outer:
                    continue
                for t in exists_terms(c):
                    f = fam_of_term(t, env0, h0)
                    if f:
                        fams.add(f)
            waits.append((e, fams))
    probed = set()
    for e, k, t in tr.acc:
        if k == "p":
            f = fam_of_term(t, env0, h0)
            if f:
                probed.add(f)
    writes = [(e, t) for e, k, t in tr.acc if k == "w"]
    fam = {}
    for e, t in writes:
        f = tr.fam(e, t)
        if f is None:
            f1 = fam_of_term(t, env0, h0)
            f = {f1} if f1 else set()
        fam[e.idx] = f
    # handles and their uses
    used = {}
    for e in it.events:
        if e.kind != "call":
            continue
        hs = [a for a in e.args if a.op == "call" and P.gid(a.args[0]) in ("open", "io.open", "gzip.open")]
        if e.f.op == "attr" and e.f.args[1] in ("write", "writelines"):
            hs.append(e.f.args[0])
        for x in hs:
            used.setdefault(x.id, []).append(e)
    closed = {}
    for e in it.events:
        if e.kind == "endwith":
            closed.setdefault(e.f.id, []).append(e.idx)
        if e.kind == "call" and e.f.op == "attr" and e.f.args[1] == "close":
            closed.setdefault(e.f.args[0].id, []).append(e.idx)

    def handle(e):
        return P.Node("call", e.f, e.args, e.kw) if e.kind == "call" and P.gid(e.f) in ("open", "io.open", "gzip.open") else None
    markers, data = [], []
    for e, t in writes:
        h = handle(e)
        touch = e.f.op == "attr" and e.f.args[1] == "touch"
        empty = touch or (h is not None and not used.get(h.id))
        if empty and fam[e.idx]:
            markers.append((e, t))
        elif not empty and P.gid(e.f) not in ("os.replace", "os.rename", "shutil.move") and not any(f.endswith(".log") for f in fam[e.idx]):
            data.append((e, t))
    endtry = {e.extra[0]: e for e in it.events if e.kind == "endtry"}
    for m, t in markers:
        mf = sorted(fam[m.idx])[0]
        key = "%s:%s" % (tag, mf)
        # nothing of the unit is written after its marker
        late = [w for w, wt in data if w.idx > m.idx and w.loops[:len(m.loops)] == m.loops and not excluded(m, w)]
        r.check(not late, "after", key, "%s is created before %s is written (%s)" % (mf, sorted(fam[late[0].idx])[:1] if late else "", late[0].where() if late else ""), m.where())
        early = [(w, wt) for w, wt in data if w.idx < m.idx and (not m.loops or w.loops[:1] == m.loops[:1] or not w.loops)]
        r.check(bool([1 for w, _ in data if w.idx < m.idx]), "after", key + ":work", "nothing is written before %s is created" % mf, m.where())
        depths = {i.args[1] for i in pipe.iterels(t)}
        for k in range(len(m.loops)):
            if k not in depths:
                inner = [w for w, wt in data if w.loops[:k + 1] == m.loops[:k + 1] and k in {i.args[1] for i in pipe.iterels(wt)}]
                r.check(not inner, "after", key + ":loop%d" % k, "%s is created in the first round of a loop that writes %s in every round" % (
                    mf, sorted(fam[inner[0].idx])[:1] if inner else ""), m.where())
        # a failure of the unit's output must not reach the marker
        for w, wt in early:
            for tid, part in w.trys:
                if (tid, "body") in m.trys or part != "body" or tid not in endtry:
                    continue
                sw = [fall or not leaves(it, (tid, "handler%d" % i)) for i, fall in enumerate(endtry[tid].extra[2])]
                r.check(not any(sw), "fail", key + ":" + sorted(fam[w.idx] or {"?"})[0],
                        "%s is created although writing %s may have failed: the exception is swallowed" % (mf, sorted(fam[w.idx])[:1]), w.where())
        r.ok("fail", key, m.where())
        r.check(not any(part == "finally" or part.startswith("handler") for _, part in m.trys), "fail", key + ":finally",
                "%s is created even when the work raised" % mf, m.where())
        # everything written through an open handle is closed before the marker
        for w, wt in early:
            h = handle(w)
            if h is not None and len(w.loops) >= len(m.loops):
                cl = [c for c in closed.get(h.id, []) if c < m.idx]
                r.check(bool(cl), "flush", key + ":" + sorted(fam[w.idx] or {"?"})[0], "%s is created while %s is still open" % (mf, sorted(fam[w.idx])[:1]), m.where())
        # the marker that lets a later run skip a unit is the unit's own
        for c, p in m.guards:
            for tt in exists_terms(c):
                if pipe.iterels(tt) <= pipe.iterels(t) and fam_of_term(tt, env0, h0) == mf and absent(c, p, tt):
                    for rank in range(len(tr.envs)):
                        ins = pipe.instances(m, [t, tt], *tr.envs[rank]) or []
                        wrong = [v for _, v in ins if v[0] != v[1] and None not in v]
                        r.check(not wrong, "skip", key, "a unit with marker %s is skipped when %s exists" % (wrong[0] if wrong else ("", "")), m.where())
        # and the marker is one that somebody looks at
        r.check(not fam[m.idx] or bool(fam[m.idx] & probed) or tag.startswith("prepare_ard"), "looked", key, "nobody looks for %s" % mf, m.where())
        stats["markers"] = stats.get("markers", 0) + 1
    # waited-for content is published by a rename of a finished file
    ren = {}
    for e in it.events:
        if e.kind == "call" and P.gid(e.f) in ("os.replace", "os.rename", "shutil.move"):
            ren[e.idx] = e
    waited = set().union(*[f for _, f in waits]) if waits else set()
    skipped = set()
    for w, wt in data:
        for c, p in w.guards:
            if any(True for _ in exists_terms(c)):
                for tt in exists_terms(c):
                    f = fam_of_term(tt, env0, h0)
                    if f and absent(c, p, tt):
                        skipped.add(f)
    readfam = set()
    for e, k, t in tr.acc:
        if k == "r":
            f = tr.fam(e, t)
            if f is None:
                f1 = fam_of_term(t, env0, h0)
                f = {f1} if f1 else set()
            readfam |= f
    for w, wt in data:
        for f in fam[w.idx] & (waited | skipped) & readfam:
            r.bad("atomic", "%s:%s" % (tag, f), "%s is written in place although other workers take its existence as completion and read it" % f, w.where())
    for f in waited & readfam:
        if not any(f in (fam[w.idx]) for w, _ in data):
            r.ok("atomic", "%s:%s" % (tag, f))
    for e in ren.values():
        src, dst = e.arg(0), e.arg(1)
        fs = tr.fam(e, pipe.pathof(dst))
        key = "%s:%s" % (tag, sorted(fs)[0] if fs else "?")
        prod = [w for w, wt in writes if wt is pipe.pathof(src) and w.idx < e.idx]
        r.check(bool(prod), "rename", key, "the file renamed to %s has not been written before" % (sorted(fs)[:1] if fs else dst), e.where())
        for w in prod:
            h = handle(w)
            if h is not None:
                r.check(any(c < e.idx for c in closed.get(h.id, [])), "flush", key + ":rename", "a file is renamed to %s while it is still open" % sorted(fs or ["?"])[0], e.where())
    # who waits for what
    for s, fams in waits:
        for f in sorted(fams):
            ws = [w for w, _ in writes if f in fam[w.idx]]
            if not ws:
                r.bad("deadlock", "%s:%s" % (tag, f), "waits for %s, which nobody creates" % f, s.where())
                continue
            own = min(w.idx for w in ws)
            r.check(own < s.idx, "deadlock", "%s:%s" % (tag, f), "a worker waits for %s before it creates its own share of it" % f, s.where())
            stats["waits"] = stats.get("waits", 0) + 1
    # collective calls in which every worker meets the others
    syncs = [c for c in it.events if c.kind == "call" and (c.f.args[1] if c.f.op == "attr" else (P.gid(c.f) or "").split(".")[-1]) in ("Barrier", "barrier", "allgather", "Allgather", "allreduce", "Allreduce", "alltoall", "gather", "Gather", "reduce")
             and all(pipe.instances(c, [], *x) != [] for x in tr.envs)]
    # reads of other workers' files come after a wait for their completion
    for e, k, t in tr.acc:
        if k != "r":
            continue
        for rank in range(len(tr.envs)):
            vs = tr.inst(e, t, rank)
            if not vs:
                continue
            for f in {digits(v) for v in vs}:
                src = [(w, wt) for w, wt in writes if f in fam[w.idx] and w.idx < e.idx]
                if not src:
                    continue
                own = set()
                closed_ok = True
                for w, wt in src:
                    o = tr.inst(w, wt, rank)
                    if o is None:
                        closed_ok = False
                    else:
                        own |= set(o)
                if not closed_ok:
                    continue
                if {v for v in vs if digits(v) == f} <= own:
                    r.ok("wait", "%s:%s:own" % (tag, f), e.where())
                    continue
                last = max(w.idx for w, _ in src)
                good = any(last < c.idx < e.idx and not excluded(c, e) and pipe.instances(c, [], *tr.envs[rank]) != [] for c in syncs)
                for s, fams in waits:
                    if not last < s.idx < e.idx or not fams:
                        continue
                    if pipe.instances(s, [], *tr.envs[rank]) == []:
                        continue       # this worker never gets to that wait
                    if f in fams:
                        good = True
                    for m, mt in markers:
                        if fam[m.idx] & fams and last < m.idx < s.idx and all(m.loops == w.loops[:len(m.loops)] for w, _ in src):
                            good = True
                r.check(good, "wait", "%s:%s" % (tag, f), "worker %d reads %s, which other workers write, without waiting for its completion" % (rank + 1, f), e.where())
                stats["reads"] = stats.get("reads", 0) + 1


def excluded(a, b):
    """the two events lie on different sides of a condition"""
    ga = {c.id: p for c, p in a.guards}
    return any(c.id in ga and ga[c.id] != p for c, p in b.guards)


def leaves(it, part):
    """the handler ends the work: it raises, returns or exits"""
    return any(part in e.trys and (e.kind in ("raise", "return") or (e.kind == "call" and P.gid(e.f) in ("exit", "sys.exit", "quit", "os._exit"))) for e in it.events)


def absent(c, p, t):
    """does the condition (c is p) require that the probed file is absent?"""
    def val(x, v):
        if x.op == "call" and (t in x.args[1] or (x.args[0].op == "attr" and x.args[0].args[0] is t)):
            return v
        if x.op == "not":
            q = val(x.args[0], v)
            return None if q is None else not q
        if x.op in ("and", "or"):
            qs = [val(y, v) for y in x.args[0]]
            if x.op == "and":
                return False if False in qs else None
            return True if True in qs else None
        return None
    v = val(c, True)
    return v is not None and v != p


def run(r):
    r.rule("after", "no output of a unit is written after its marker, in program order of one round of the marker's loop; the marker is not created in an inner round")
    r.rule("fail", "a marker is not created on a path where writing the unit's output raised (no swallowed exception, not in a handler or finally)")
    r.rule("flush", "files written through a handle are closed before the marker is created or before they are renamed into place")
    r.rule("skip", "the marker whose existence skips a unit is the one that unit's work creates")
    r.rule("looked", "every marker is one whose existence some stage tests")
    r.rule("atomic", "a file with content whose existence counts as completion and which is read in the same stage is published by a rename")
    r.rule("rename", "a rename publishes a file that has been written before")
    r.rule("deadlock", "a worker has created its share of what it waits for before it waits")
    r.rule("wait", "a worker reads files other workers write only after waiting for their completion")
    pkg = P.Package()
    stats = {}
    n = 3
    tile = pipe.Tile(2, 3, 2, 2, first=723800, last=724700, interval=150)
    base = {par(k): v for k, v in ENV.items()}
    for tag, it in pipe.tile_runs(pkg):
        envs = [({**base, par("rank"): k + 1, par("n_cores"): n}, pipe.hook(tile)) for k in range(n)]
        tr = Trace("tile_processing:" + tag, it, envs)
        # directory listings see what all workers wrote
        W = set()
        for e, k, t in tr.acc:
            if k == "w":
                W |= tr.names(e, t) or set()

        def names(d, W=W):
            if d.startswith("S/block"):
                return ["LT4022010%d%03d.npy" % (1982 + k, 10 + k) for k in range(3)]
            return sorted({w[len(d) + 1:].split("/")[0] for w in W if w.startswith(d + "/")})
        tr = Trace("tile_processing:" + tag, it, [(e, pipe.listing(names, pipe.hook(tile))) for e, _ in envs])
        analyse(r, tr, stats)
    for coll, names in NAMES.items():
        it = pipe.stage(pkg, pipe.T + "prepare_ard.main", collection=coll)
        envs = [({**base, par("rank"): k + 1, par("n_cores"): n}, pipe.listing(names, pipe.hook(tile))) for k in range(n)]
        analyse(r, Trace("prepare_ard:" + coll, it, envs), stats)
    for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        it = pipe.stage(pkg, pipe.T + "export_change_map.main", method=method, coefs=None if method != "COLD" else "a0,c1")
        envs = [(base, pipe.mpi(k, n, pipe.hook(tile))) for k in range(n)]
        analyse(r, Trace("export_change_map:" + method, it, envs), stats)
    r.info["analysed"] = stats
    r.floor("after", 15)
    r.floor("wait", 8)
    r.floor("deadlock", 8)
    r.floor("atomic", 4)
    r.floor("rename", 4)
    r.floor("flush", 4)


main("C17", run, explanation="Order of file effects in the interprocedural effect trace of every stage (program order, loop nesting, handlers, open handles, renames, sleeping waits), "
     "with file names evaluated per worker to tell own files from other workers' files.")
