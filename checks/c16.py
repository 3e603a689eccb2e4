"""C16 Every file a stage reads is named as its producer names it."""
import datetime
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pipe
import pyq
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": 1983,
       "out_path": "O", "reccg_path": "R", "reference_path": "REF.tif", "year_lowbound": 1982, "year_uppbound": 1983, "rank": 1, "n_cores": 1,
       "coefs_bands": "0,3"}
EXTERNAL = {"Y", "S", "R", "O", "/src", "REF.tif", "/seed.tif", "S/starting_last_dates.txt"}
SRC = {"ARD": "LT05_CU_022010_%Y%m%d_SR.tar", "ARD-C2": "LT05_CU_022010_%Y%m%d_20210401_02_SR.tar", "C2": "LT05_L2SP_012031_%Y%m%d_20200101_02_T1.tar",
       "HLS": "HLS.L30.T10SEG.%Y%jT185432.v2.0", "HLS14": "/src/HLS.S30.T10SEG.%Y%j.v1.4.hdf"}


def digits(v):
    return re.sub(r"\d+", "#", v)


def numbers(v):
    return tuple(int(x) for x in re.findall(r"\d+", v))


def npy(e, v):
    """name on disk: numpy adds the suffix"""
    if v is not None and e.kind == "call" and P.gid(e.f) == "numpy.save" and not v.endswith(".npy") and pipe.pathof(e.arg(0, "file")) is e.arg(0, "file"):
        return v + ".npy"
    return v


def accesses(it):
    out = []
    for e in it.events:
        a = pipe.file_access(e)
        if a:
            out.append((e, a[0], pipe.pathof(a[1]) if a[1] is not None else None))
    return out


def dirs_of(names):
    out = set()
    for w in names:
        while "/" in w:
            w = w[:w.rfind("/")]
            out.add(w)
    return out


def made_dirs(it, env, h):
    """directories the stage creates"""
    out = set()
    for e in it.events:
        if e.kind == "call" and P.gid(e.f) in ("os.makedirs", "os.mkdir"):
            ins = pipe.instances(e, [e.arg(0, "name") if e.arg(0, "name") is not None else e.arg(0)], env, h)
            out |= {v for _, (v,) in ins or [] if v is not None}
    return out


def written(r, tag, it, env, h):
    W = {}
    for e, k, t in accesses(it):
        if k != "w" or t is None:
            continue
        ins = pipe.instances(e, [t], env, h)
        if ins is None or any(v is None for _, (v,) in ins):
            r.undecided("read", tag, "output name not closed over the configuration", e.where())
            continue
        for _, (v,) in ins:
            W.setdefault(npy(e, v), e)
    # files also get their final name from a rename of a written file
    return W


def reads(r, tag, it, env, h, W, ext, stats):
    D = dirs_of(W) | made_dirs(it, env, h) | ext
    for e, k, t in accesses(it):
        if k not in "rpxd" or t is None:
            continue
        ins = pipe.instances(e, [t], env, h)
        if ins is None or any(v is None for _, (v,) in ins):
            r.undecided("read", tag, "name not closed over the configuration: %s" % str(t)[:120], e.where())
            continue
        what = {"r": "reads", "p": "probes", "x": "deletes", "d": "lists"}[k]
        rule = {"r": "read", "p": "probe", "x": "delete", "d": "list"}[k]
        fam = {}
        for _, (v,) in ins:
            good = v in W or v in ext or (k in "pd" and v in D)
            fam.setdefault(digits(v), []).append((v, good))
        for f, vs in fam.items():
            missing = [v for v, g in vs if not g]
            r.check(not missing, rule, "%s:%s" % (tag, f), "%s %s %s, which no stage writes (written there: %s)" % (
                tag, what, missing[:2], sorted(w for w in W if missing and w.rsplit("/", 1)[0] == missing[0].rsplit("/", 1)[0])[:3]), e.where())
            stats[rule] = stats.get(rule, 0) + len(vs)
        if k == "r" and any(x.op == "call" and P.gid(x.args[0]) in ("os.listdir", "glob.glob", "os.scandir") for x in P.walk(t)):
            selected(r, tag, e, ins, t, W, stats)


def selected(r, tag, e, ins, t, W, stats):
    """reads driven by a directory listing: exactly the files of that group, in unit order"""
    its = []
    for asg, _ in ins:
        its = [i for i in asg if i.op == "iterel" and i in pipe.iterels(t)]
        break
    if not its:
        return
    inner = max(its, key=lambda i: i.args[1])
    groups = {}
    for asg, (v,) in ins:
        key = tuple((i.id, asg[i]) for i in asg if i.op == "iterel" and i is not inner)
        groups.setdefault(key, []).append(v)
    for vs in groups.values():
        f = {digits(v) for v in vs}
        if len(f) != 1 or len(vs) < 2:
            if len(f) > 1:
                r.bad("select", "%s:%s" % (tag, sorted(f)[0]), "%s mixes files of different kinds in one group: %s" % (tag, sorted(f)), e.where())
            continue
        cols = list(zip(*[numbers(v) for v in vs]))
        vary = [i for i, c in enumerate(cols) if len(set(c)) > 1]
        const = {i: c[0] for i, c in enumerate(cols) if len(set(c)) == 1}
        want = sorted((w for w in W if digits(w) == next(iter(f)) and all(numbers(w)[i] == c for i, c in const.items())),
                      key=lambda w: numbers(w))
        if vs == want:
            r.ok("select", "%s:%s" % (tag, next(iter(f))), e.where())
        elif sorted(vs) != sorted(want):
            extra, lost = [v for v in vs if v not in want], [w for w in want if w not in vs]
            r.bad("select", "%s:%s" % (tag, next(iter(f))), "%s picks %d files where the group has %d (not picked: %s; repeated or foreign: %s)" % (
                tag, len(vs), len(want), lost[:2], extra[:2]), e.where())
        else:
            k = next(i for i in range(len(vs)) if vs[i] != want[i])
            r.bad("select", "%s:%s" % (tag, next(iter(f))), "%s reads the files of a group out of order for a listing in another order: %s at place %d instead of %s" % (
                tag, vs[k], k, want[k]), e.where())
        stats["select"] = stats.get("select", 0) + 1


def run(r):
    r.rule("read", "every file opened for reading, for every block, date and year, is one an earlier stage (or this one) writes, or an external input")
    r.rule("probe", "every file whose existence is tested or waited for is one some stage writes")
    r.rule("delete", "every file deleted is one the stage family writes")
    r.rule("list", "every directory listed is one the stages write into")
    r.rule("select", "files picked from a directory listing are exactly those of the wanted block, year or date group, in block or date order, whatever the order of the listing")
    r.rule("stack", "the stack files written by prepare_ard lie in the block folder the readers list, pass the readers' name filter, and the date the readers parse from the name is the scene date")
    r.rule("dates", "the first and last date written for the dataset are the first and last scene date, in the order the reader reads them")
    pkg = P.Package()
    stats = {}
    deep = r.tier == "thorough"
    tiles = [pipe.Tile(4, 3, 2, 3, first=723800, last=724700, interval=300), pipe.Tile(11, 1, 2, 2, first=723800, last=723850, interval=32),
             pipe.Tile(1, 11, 2, 2, first=723800, last=723850, interval=32)]
    if deep:
        tiles += [pipe.Tile(5, 5, 2, 2, first=723500, last=724600, interval=200),
                  pipe.Tile(1, 1, 4, 3, first=723800, last=723820, interval=5)]
    records = {}
    for ti, tile in enumerate(tiles):
        for tag, it in pipe.tile_runs(pkg):
            if ti and tag == "OBCOLD" and not deep:
                continue
            env = {par(k): v for k, v in ENV.items()}
            # the stack as prepare_ard leaves it (rule `stack` ties the two)
            stack = {"S/block_x%d_y%d/LT4022010%s.npy" % (x + 1, y + 1, (datetime.date.fromordinal(tile.first) + datetime.timedelta(d)).strftime("%Y%j"))
                     for x in range(tile.n_block_x) for y in range(tile.n_block_y) for d in (0, 40, 7)}
            W = written(r, "tile_processing:" + tag, it, env, pipe.hook(tile))
            for w in stack:
                W.setdefault(w, None)

            def names(d, W=W):
                return sorted({w[len(d) + 1:].split("/")[0] for w in W if w.startswith(d + "/")}, reverse=True)
            ext = set(EXTERNAL) | {"R/cm_maps", "R/OBIAresults", "R/obcold", "R/feature_maps"}
            reads(r, "tile_processing:" + tag, it, env, pipe.listing(names, pipe.hook(tile)), W, ext, stats)
            records.setdefault((ti, {"OBCOLD+seedmap": "OBCOLD"}.get(tag, tag)), set()).update(w for w in W if "/record_change" in w)
    # export of the maps
    for ti, tile in enumerate(tiles):
        for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
            for coefs in (None, "a0,c1"):
                if coefs and method == "SCCDOFFLINE":
                    continue
                tag = "export_change_map:" + method
                it = pipe.stage(pkg, pipe.T + "export_change_map.main", method=method, coefs=coefs)
                env = {par(k): v for k, v in ENV.items()}
                W, perrank = {}, []
                for rank in range(2):
                    h = pipe.mpi(rank, 2, pipe.hook(tile))
                    for w, e in written(r, tag, it, env, h).items():
                        W.setdefault(w, e)
                rec = records.get((ti, method)) or records[(0, method)]
                for w in rec:
                    W.setdefault(w, None)

                def names(d, W=W):
                    return sorted({w[len(d) + 1:].split("/")[0] for w in W if w.startswith(d + "/")}, reverse=True)
                for rank in range(2):
                    reads(r, tag, it, env, pipe.mpi(rank, 2, pipe.listing(names, pipe.hook(tile))), W, EXTERNAL | {"R/obcold"}, stats)
                # the records of a block are read from the block's own file, and every block's records are read
                got = set()
                for rank in range(2):
                    for e, k, t in accesses(it):
                        if k != "r":
                            continue
                        ins = pipe.instances(e, [t], env, pipe.mpi(rank, 2, pipe.hook(tile)))
                        got |= {v for _, (v,) in ins or [] if v is not None and "record_change" in v}
                if got and (ti, method) in records:
                    lost = records[(ti, method)] - got
                    # OBCOLD keeps the records of the first pass beside the reconstructed ones
                    lost = {w for w in lost if ("_obcold" in w) == (method == "OBCOLD")}
                    r.check(not lost, "read", "%s:unread" % tag, "%s never reads %s" % (tag, sorted(lost)[:2]), pipe.T + "export_change_map")
    stacks(r, pkg, tiles[0], deep)
    r.info["file_instances"] = stats
    r.floor("read", 20)
    r.floor("probe", 10)
    r.floor("select", 3)
    r.floor("stack", 5)
    r.floor("dates", 5)


def stacks(r, pkg, tile, deep):
    days = [datetime.date(2000, 12, 31), datetime.date(1999, 3, 1), datetime.date(2001, 1, 1), datetime.date(2000, 2, 29), datetime.date(1985, 10, 9)]
    if deep:
        days += [datetime.date(1990 + k, 1 + k % 12, 1 + 2 * k) for k in range(14)]
    gs = P.Interp(pkg)
    gs.small_unroll = True
    gs.run(pipe.T + "tile_processing.get_stack_date")
    rb = P.Interp(pkg)
    rb.small_unroll = True
    rb.run("pycold.utils.read_blockdata")
    for coll, fmt in SRC.items():
        it = pipe.stage(pkg, pipe.T + "prepare_ard.main", collection=coll)
        names = [d.strftime(fmt) for d in days]
        env = {par("rank"): 1, par("n_cores"): 1, par("out_dir"): "S", par("source_dir"): "/src", par("is_partition"): True, par("low_date_bound"): None,
               par("upp_date_bound"): None}
        h = pipe.listing(names, pipe.hook(tile))
        per = {}
        scenes = {}
        found = 0
        for name, day in zip(names, days):
            h1 = pipe.listing([name], pipe.hook(tile))
            for e, k, t in accesses(it):
                if k != "w" or P.gid(e.f) != "numpy.save":
                    continue
                ins = pipe.instances(e, [t], env, h1)
                if ins is None or any(v is None for _, (v,) in ins):
                    r.undecided("stack", coll, "stack file name not closed over the configuration", e.where())
                    continue
                for _, (v,) in ins:
                    v = npy(e, v)
                    if v.count("/") == 2:
                        per.setdefault(v.rsplit("/", 1)[0], []).append(v.rsplit("/", 1)[1])
                        scenes[v.rsplit("/", 1)[1]] = day
                        found += 1
        if not found:
            r.undecided("stack", coll, "no block file found")
            continue
        want = {"S/block_x%d_y%d" % (x + 1, y + 1) for x in range(tile.n_block_x) for y in range(tile.n_block_y)}
        r.check(set(per) == want, "stack", coll + ":folders", "%s: block folders %s are missing, %s are unknown to the readers" % (
            coll, sorted(want - set(per))[:2], sorted(set(per) - want)[:2]), "prepare_ard")
        folder, files = sorted(per.items())[0]
        r.check(len(set(files)) == len(days), "stack", coll + ":distinct", "%s: %d scenes of different dates give %d file names" % (coll, len(days), len(set(files))), "prepare_ard")
        # reader 1: get_stack_date
        env1 = {par("stack_path"): "S", par("block_x"): 1, par("block_y"): 1, par("low_datebound"): 0, par("high_datebound"): 0, par("nband"): 8}
        ls = pipe.listing(lambda d: list(per.get(d, [])) if d in per else None, pipe.hook(tile))
        for e, k, t in accesses(gs):
            if k != "r":
                continue
            ins = pipe.instances(e, [t], env1, ls)
            if ins is None or any(v is None for _, (v,) in ins):
                r.undecided("stack", coll, "reads of get_stack_date not closed", e.where())
                continue
            got = [v for _, (v,) in ins]
            order = [f for _, f in sorted((d, f) for f, d in scenes.items())]
            exp = ["S/block_x1_y1/" + f for f in order]
            r.check(sorted(got) == sorted(exp), "stack", coll + ":filter", "%s: the stack reader does not open %s and opens %s" % (
                coll, sorted(set(exp) - set(got))[:2], sorted(set(got) - set(exp))[:2]), e.where())
            r.check(got == exp, "stack", coll + ":order", "%s: the stack reader does not read the scenes in date order: %s" % (coll, [g[-22:] for g in got][:4]), e.where())
            ret = gs.ret
            dv = None
            if ret is not None:
                try:
                    v = pyq.ev(ret, env1, stack_hook(ls))
                    dv = v[1] if isinstance(v, tuple) and len(v) == 2 else None
                except pipe.FAIL:
                    dv = None
            if dv is None:
                r.undecided("stack", coll, "dates of get_stack_date not closed", e.where())
            else:
                r.check(list(dv) == sorted(d.toordinal() for d in days), "stack", coll + ":date",
                        "%s: the reader parses dates %s from the file names, the scenes are of %s" % (coll, list(dv)[:3], sorted(d.toordinal() for d in days)[:3]), e.where())
        env2 = {par("block_folder"): "S/block_x1_y1", par("total_pixels"): 6, par("total_bands"): 8}
        for e, k, t in accesses(rb):
            if k != "r":
                continue
            ins = pipe.instances(e, [t], env2, ls)
            if ins is None or any(v is None for _, (v,) in ins):
                r.undecided("stack", coll, "reads of read_blockdata not closed", e.where())
                continue
            got = [v for _, (v,) in ins]
            r.check(sorted(got) == sorted("S/block_x1_y1/" + f for f in files), "stack", coll + ":read_blockdata", "%s: read_blockdata opens %s of %s" % (coll, got[:2], files[:2]), e.where())
        written_dates(r, coll, it, env, h, days)


def stack_hook(then):
    """the array content is irrelevant for the dates"""
    def h(x, go):
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.dstack", "numpy.stack", "numpy.load", "numpy.concatenate"):
            return "array"
        return then(x, go)
    return h


def written_dates(r, coll, it, env, h, days):
    lines = []
    opened = None
    for e in it.events:
        a = pipe.file_access(e)
        if a and a[0] == "w" and "starting_last_dates" in repr(a[1]):
            opened = e
        if e.kind == "call" and e.f.op == "attr" and e.f.args[1] in ("write", "writelines") and opened is not None and e.fn == opened.fn and "starting_last" in repr(pipe.pathof(e.f.args[0])):
            v = pipe.instances(e, [e.arg(0)], env, date_hook(h))
            lines.append((e, v[0][1][0] if v and len(v) == 1 else None))
    if not lines or any(v is None for _, v in lines):
        r.undecided("dates", coll, "content of starting_last_dates.txt not closed", opened.where() if opened else "")
        return
    text = "".join(v for _, v in lines)
    want = "%d\n%d\n" % (min(days).toordinal(), max(days).toordinal())
    r.check(text.split() == want.split(), "dates", coll, "%s: the dataset dates file holds %r for scenes from %r" % (coll, text, want), lines[0][0].where())


def date_hook(then):
    def h(x, go):
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and x.args[1]:
            v = go(x.args[1][0])
            return (max if "max" in P.gid(x.args[0]) else min)(v)
        return then(x, go)
    return h


main("C16", run, explanation="The names of all files written, read, probed, deleted and listed by the pipeline stages, as terms over the configuration (value numbering with all helpers and "
     "methods inlined), are evaluated for several block grids; every name read must be in the set of names written.")
