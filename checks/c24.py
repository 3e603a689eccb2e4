"""C24 Work is divided so that every block is processed exactly once."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pipe
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": None,
       "out_path": "O", "reccg_path": "R", "reference_path": "REF.tif", "year_lowbound": 1982, "year_uppbound": 1984, "source_dir": "/src", "out_dir": "/out"}
FAMILY = [(re.compile(r"_x(\d+)_y(\d+)(_\w+)?\.npy$"), "grid"), (re.compile(r"block(\d+)_finished"), "block"), (re.compile(r"_block(\d+)(_\d+)?\.npy$"), "block"),
          (re.compile(r"OBIA_(\d+)_finished"), "date"), (re.compile(r"_(\d+)_finished"), "block"), (re.compile(r"CM_(?:date_)?maps_(\d+)_"), "date")]


_UR = {}


def uses_rank(t):
    if t.id not in _UR:
        _UR[t.id] = any((x.op == "param" and x.args[0] == "rank") or pipe.mpi_query(x) == "rank" for x in P.walk(t))
    return _UR[t.id]


def division(r, tag, it, tiles, cores, base_rank, envx, mk_hook):
    """who writes which file, for every worker count"""
    sites = {}
    for e in it.events:
        a = pipe.file_access(e)
        if not a or a[0] != "w":
            continue
        t = pipe.pathof(a[1])
        if "%s:%d" % (e.file, e.line) not in sites:
            sites["%s:%d" % (e.file, e.line)] = []
        sites["%s:%d" % (e.file, e.line)].append((e, t))
    done = 0
    for site, evs in sites.items():       # file names that are not closed over the configuration
        for e, t in list(evs):
            for tile in tiles[:2]:
                for n in cores:
                    h, env = mk_hook(tile, base_rank + n // 2, n)
                    ins = pipe.instances(e, [t], {**env, **envx}, h)
                    if ins is None or any(v[0] is None for _, v in ins):
                        if (e, t) in evs:
                            evs.remove((e, t))
    for tile in tiles:
        per_n = {}
        for n in cores:
            owners = {}
            per_n[n] = owners
            for site, evs in sites.items():
                for e, t in evs:
                    for k in range(n):
                        h, env = mk_hook(tile, k + base_rank, n)
                        env = {**env, **envx}
                        ins = pipe.instances(e, [t], env, h)
                        if ins is None or any(v[0] is None for _, v in ins):
                            r.undecided("once", tag, "file name not closed over the configuration", e.where())
                            break
                        seen = {}
                        for asg, (v,) in ins:
                            owners.setdefault(v, {}).setdefault(k + base_rank, e)
                            seen[v] = seen.get(v, 0) + 1
                        if uses_rank(t):
                            for v, c in seen.items():
                                r.check(c == 1, "once", "%s:%s:twice" % (tag, family(v)), "%s: worker %d of %d processes %s %d times" % (tag, k + base_rank, n, v, c), e.where())
                    else:
                        done += 1
            for v, ow in owners.items():
                e = next(iter(ow.values()))
                r.check(len(ow) == 1, "once", "%s:%s:shared" % (tag, family(v)),
                        "%s: with %d workers, %s is produced by workers %s" % (tag, n, v, sorted(ow)), e.where())
            cover(r, tag, tile, n, owners)
        every = {}
        for ow in per_n.values():
            for v, o in ow.items():
                every.setdefault(v, next(iter(o.values())))
        for n, ow in per_n.items():
            for v in set(every) - set(ow):
                r.bad("cover", "%s:%s:some" % (tag, family(v)), "%s: with %d workers nobody writes %s" % (tag, n, v), every[v].where())
    if not done:
        raise Broken(tag + ": no output site could be analysed")
    return sites


def family(v):
    return re.sub(r"\d+", "#", v.split("/")[-1])


SEEN = {}


def cover(r, tag, tile, n, owners):
    """every unit of a family is produced by someone"""
    fam = {}
    for v in owners:
        for rx, kind in FAMILY:
            m = rx.search(v.split("/")[-1])
            if m:
                unit = (int(m.group(1)), int(m.group(2))) if kind == "grid" else int(m.group(1))
                base = v.split("/")[-1]
                left = base[:m.start()] + "@" + base[m.end():] if kind != "date" else re.sub(r"\d+.*", "@", base) + (".tmp" if base.endswith(".tmp") else "")
                year = m.group(m.lastindex) if kind == "block" and m.lastindex == 2 else ""
                fam.setdefault((kind, v[:v.rfind("/") + 1] + left, str(year)), set()).add(unit)
                break
    SEEN.setdefault(tag, set()).update({k[1] for k in fam})
    for (kind, name, y), got in fam.items():
        want = {"grid": {(x + 1, z + 1) for x in range(tile.n_block_x) for z in range(tile.n_block_y)}, "block": set(range(1, tile.nblocks + 1)),
                "date": {tile.first + k * tile.interval for k in range(tile.n_cm)}}[kind]
        r.check(got == want, "cover", "%s:%s" % (tag, re.sub(r"\d+", "#", name)),
                "%s: with %d workers on a %dx%d grid %s%s: units left out %s, units that do not exist %s" % (
                    tag, n, tile.n_block_x, tile.n_block_y, name, y, sorted(want - got)[:6], sorted(got - want)[:6]))


def run(r):
    r.rule("once", "evaluated for every worker, each output file of a stage is written by exactly one worker of the division, once")
    r.rule("cover", "the files written by all workers together are those of every block of the grid (and every date of the dataset), for every worker count")
    r.rule("images", "prepare_ard: the images given to the stacking functions by all workers together are the source images, each once, whatever order each worker's directory listing has")
    r.rule("wait", "a worker that waits for the others waits for all blocks")
    pkg = P.Package()
    deep = r.tier == "thorough"
    grids = [(3, 2), (2, 3), (1, 1), (4, 1), (1, 5)] + ([(x, y) for x in range(1, 5) for y in range(1, 5)] if deep else [])
    tiles = [pipe.Tile(x, y, 2, 3) for x, y in dict.fromkeys(grids)]
    cores = list(range(1, 9)) + [16, 17, 20] + ([9, 11, 13, 15, 18, 25] if deep else [])
    envx = {par(k): v for k, v in ENV.items()}

    def hk(tile, rank, n):
        return pipe.hook(tile), {par("rank"): rank, par("n_cores"): n}
    nsites = 0
    for tag, it in pipe.tile_runs(pkg):
        # the report and the stand-alone branches use the same partition
        nsites += len(division(r, "tile_processing:" + tag, it, tiles, cores, 1, envx, hk))
    r.info["write_sites_tile_processing"] = nsites
    cc = [c for c in cores if c <= 17 or deep]
    for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        it = pipe.stage(pkg, pipe.T + "export_change_map.main", method=method, coefs=None if method != "COLD" else "a0,c1")

        def hm(tile, rank, n):
            return pipe.mpi(rank, n, pipe.hook(tile)), {}
        division(r, "export_change_map:" + method, it, tiles, cc, 0, envx, hm)
    # images of prepare_ard
    NAMES = {"ARD": ["LT05_CU_022010_20%02d0101_SR.tar" % k for k in range(7)], "ARD-C2": ["LT05_CU_022010_20%02d0101_SR.tar" % k for k in range(7)],
             "C2": ["LT05_L2SP_012031_20%02d0101_20200101_02_T1.tar" % k for k in range(7)], "HLS": ["HLS.L30.T10SEG.20%02d001T1.v2.0" % k for k in range(7)],
             "HLS14": ["/src/HLS.L30.T10SEG.20%02d001.v1.4.hdf" % k for k in range(7)]}
    for coll, names in NAMES.items():
        it = pipe.stage(pkg, pipe.T + "prepare_ard.main", collection=coll)
        stems = {n[:-4] if n.endswith(".tar") else n for n in names}
        ok = 0
        for e in it.events:
            if e.kind not in ("enter", "call") or not e.fn.endswith("prepare_ard.main") or not e.loops:
                continue
            for t in list(e.args) + [v for _, v in e.kw]:
                if not uses_rank(t) or t.op not in ("sub", "phi", "strcat"):
                    continue
                good = True
                for m in (0, 1, 2, 5, 7):
                    for n in range(1, 10):
                        got = []
                        for k in range(1, n + 1):
                            ls = names[:m]
                            ls = ls[k % max(1, m):] + ls[:k % max(1, m)]      # each worker lists in its own order
                            env = {**envx, par("rank"): k, par("n_cores"): n}
                            ins = pipe.instances(e, [t], env, pipe.listing(ls, pipe.hook(pipe.Tile(3, 2, 2, 3))))
                            if ins is None or any(v[0] not in stems for _, v in ins):
                                good = False
                                break
                            got += [v[0] for _, v in ins]
                        if not good:
                            break
                        want = sorted(x[:-4] if x.endswith(".tar") else x for x in names[:m])
                        ok += 1
                        r.check(sorted(got) == want, "images", "prepare_ard:" + coll, "%s: %d workers share %d images as %d jobs, left out %s, repeated %s" % (
                            coll, n, m, len(got), sorted(set(want) - set(got))[:2], sorted({g for g in got if got.count(g) > 1})[:2]), e.where())
                    if not good:
                        break
        if not ok:
            raise Broken("no image division found for collection " + coll)
        r.ok("images", "prepare_ard:%s: %d instances" % (coll, ok))
    # waiting loops: probes of completion files cover all units
    tile = pipe.Tile(3, 2, 2, 3)
    for tag, it in pipe.tile_runs(pkg)[2:]:
        got = {}
        for e in it.events:
            a = pipe.file_access(e)
            if not a or a[0] != "p":
                continue
            for rank in range(1, 5):
                ins = pipe.instances(e, [a[1]], {**envx, par("rank"): rank, par("n_cores"): 4}, pipe.hook(tile))
                if ins is None or any(v[0] is None for _, v in ins):
                    r.undecided("wait", tag, "probed names not closed over the configuration", e.where())
                    break
                for _, (v,) in ins:
                    for rx, kind in FAMILY:
                        m = rx.search(v.split("/")[-1])
                        if m and not uses_rank(a[1]):
                            got.setdefault((family(v), kind), {}).setdefault((e.where(), e.idx, rank), set()).add(int(m.group(1)))
                        if m:
                            break
        for (f, kind), by in got.items():
            want = set(range(1, tile.nblocks + 1)) if kind == "block" else {tile.first + k * tile.interval for k in range(tile.n_cm)}
            for (w, _, _), s in by.items():
                r.check(s == want, "wait", "%s:%s" % (tag, f), "%s waits for %s of %s only: missing %s" % (tag, f, kind, sorted(want - s)[:5]), w)
    r.info["families"] = {k: sorted(v) for k, v in SEEN.items()}
    r.info["grids"] = [(t.n_block_x, t.n_block_y) for t in tiles]
    r.info["worker_counts"] = cores
    r.floor("once", 8)
    r.floor("cover", 8)
    r.floor("images", 5)
    r.floor("wait", 3)


main("C24", run, explanation="The file names written by every stage, as terms over rank, worker count and tile configuration (value numbering, all helpers and methods inlined), are "
     "evaluated for all workers of small worker counts and grids; the files of all workers together must be each unit exactly once.")
