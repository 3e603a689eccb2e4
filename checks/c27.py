"""C27 image stacks are read in date order."""
import datetime
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": None}
BANDS = ("ts_b", "ts_g", "ts_r", "ts_n", "ts_s1", "ts_s2", "ts_t", "qas")
DETECT = ("cold_detect", "sccd_detect", "obcold_reconstruct")
XY = re.compile(r"x(\d+)_y(\d+)")
D = datetime.date


def name(prefix, d):
    return "%s%04d%03d.npy" % (prefix, d.year, d.timetuple().tm_yday)


# directory listings: names of the layers in the arbitrary order the file system gives them, with other files between
LISTS = [
    [("LT05_CU_0", D(2000, 12, 31)), ("LE07_CU_0", D(1999, 3, 1)), ("S30T10SEG", D(2001, 1, 1)), ("LC08_CU_0", D(2000, 2, 29)), ("LT04_CU_0", D(1985, 10, 9))],
    [("S30T10SEG", D(2019, 1, 2)), ("L30T10SEG", D(2019, 1, 1)), ("L30T10SEG", D(2018, 12, 31)), ("S30T10SEG", D(2018, 5, 30)), ("S30T10SEG", D(2020, 12, 31))],
    [("LC09_CU_0", D(2022, 6, 1))],
    [("LE07_CU_0", D(2003, 11, 7)), ("LT05_CU_0", D(2003, 10, 30)), ("LE07_CU_0", D(2003, 1, 10))],
]
OTHER = ["starting_last_dates.txt", "block_x1_y1_finished.txt", "tmp.npy"]


def listing(k):
    a = [name(*x) for x in LISTS[k]]
    return a[:1] + OTHER[:1] + a[1:] + OTHER[1:]


def source(t, tag=""):
    g = arrays.Grid(t)

    def load(p):
        m = XY.search(p)
        b = g.block(int(m[1]), int(m[2]))
        return np.stack([arrays.code(b, k, arrays.ordinal_of(p.split("/")[-1])) for k in range(8)], axis=-1)
    return g, load


def within(k, lo, hi):
    o = sorted(x[1].toordinal() for x in LISTS[k])
    return [x for x in o if (not lo or x >= lo) and (not hi or x <= hi)]


def bounds(k):
    """no bound, each bound on a layer, one day inside and outside of it, and a range without layers"""
    o = sorted(x[1].toordinal() for x in LISTS[k])
    mid = o[len(o) // 2]
    out = [(0, 0), (mid, 0), (0, mid), (mid, mid), (mid + 1, 0), (0, mid - 1), (o[0] + 1, o[-1] - 1), (o[-1] + 1, 0), (0, o[0] - 1)]
    return [b for b in out if b == (0, 0) or all(x >= 0 for x in b)]


def nothing(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] is None and v[1] is None


def readers(r, pkg, tiles):
    n = 0
    for fn, ps, env, bounded in (
            (pipe.T + "tile_processing.get_stack_date", {"dataset_info", "block_x", "block_y", "stack_path", "low_datebound", "high_datebound", "nband"},
             lambda t, lo, hi: {"stack_path": "S", "block_x": t.n_block_x, "block_y": t.n_block_y, "low_datebound": lo, "high_datebound": hi, "nband": 8}, True),
            ("pycold.utils.read_blockdata", {"block_folder", "total_pixels", "total_bands"},
             lambda t, lo, hi: {"block_folder": "S/block_x%d_y%d" % (t.n_block_x, t.n_block_y), "total_pixels": t.block_width * t.block_height, "total_bands": 8}, False)):
        q = pkg.resolve(fn)
        if q is None or q[0] != "func" or not set(q[1].params()) <= ps:
            continue
        where = "%s:%d" % (getattr(q[1].module, "path", "") or fn, q[1].node.lineno)
        it = P.Interp(pkg)
        it.small_unroll = True
        it.run(fn)
        tag = fn.split(".")[-1]
        bad, und, cnt = None, None, 0
        empty = None
        for t in tiles:
            g, load = source(t)
            px = g.block(t.n_block_x, t.n_block_y).ravel()
            for k in range(len(LISTS)):
                for lo, hi in (bounds(k) if bounded else [(0, 0)]):
                    want = within(k, lo, hi)
                    h = arrays.hook(t, load, lambda d, k=k: listing(k))
                    ret = value2(it, {par(a): b for a, b in env(t, lo, hi).items()}, h)
                    desc = "%s on %s with bounds %s..%s" % (tag, [x[1].isoformat() for x in LISTS[k]], day(lo), day(hi))
                    if ret is None:
                        und = und or desc
                        continue
                    cnt += 1
                    if not want:
                        if not nothing(ret):
                            bad = bad or "%s: no layer is in the range, the result is not (None, None)" % desc
                        continue
                    if nothing(ret) or not isinstance(ret, tuple) or len(ret) != 2:
                        bad = bad or "%s: gives no stack though %d layers are in the range" % (desc, len(want))
                        continue
                    s, dd = np.asarray(ret[0]), list(np.asarray(ret[1]).ravel())
                    if dd != want:
                        bad = bad or "%s: returns the dates %s, expected %s" % (desc, [day(x) for x in dd], [day(x) for x in want])
                    elif s.shape != (px.size, 8, len(want)):
                        bad = bad or "%s: the stack has shape %s, expected %s" % (desc, s.shape, (px.size, 8, len(want)))
                    else:
                        p, b, o = arrays.decode(s)
                        if not (o == np.asarray(want)[None, None, :]).all():
                            bad = bad or "%s: layers lie in the order %s next to the dates %s" % (desc, [day(x) for x in o[0, 0]], [day(x) for x in want])
                        elif not (p == px[:, None, None]).all() or not (b == np.arange(8)[None, :, None]).all():
                            bad = bad or "%s: pixels or bands of the layers are mixed" % desc
            if bounded:
                h = arrays.hook(t, load, lambda d: OTHER[:2])
                ret = value2(it, {par(a): b for a, b in env(t, 0, 0).items()}, h)
                if ret is None:
                    und = und or tag + " on a folder without layers"
                else:
                    cnt += 1
                    if not nothing(ret):
                        bad = bad or "%s on a folder without layers does not return (None, None)" % tag
        if und and bad is None:
            r.undecided("reader", tag, "not closed: " + und, where)
        else:
            r.check(bad is None, "reader", tag, bad or "", where)
        n += cnt > 0
        r.info["reader:" + tag] = "%d evaluations" % cnt
    return n


def value2(it, env, h):
    """the returned pair; when a part is not evaluable None"""
    n = it.ret
    if n is None:
        return None
    try:
        v = pyq.ev(n, env, h)
    except pipe.FAIL:
        return None
    return v


def day(o):
    return D.fromordinal(int(o)).isoformat() if 0 < o < 3000000 else str(o)


def detectors(r, tag, it, tiles):
    n = 0
    for e in it.events:
        if e.kind != "call" or not (P.gid(e.f) or "").endswith(DETECT):
            continue
        kw = dict(e.kw)
        args = [kw.get("dates")] + [kw.get(b) for b in BANDS]
        who = "%s:%s" % (tag, P.gid(e.f).split(".")[-1])
        if any(a is None for a in args):
            r.undecided("series", who, "arguments not bound", e.where())
            continue
        bad, und, cnt = None, False, 0
        both = P.Node("tuple", tuple(args))
        for t in tiles:
            g, load = source(t)
            for k in range(len(LISTS)):
                todo = bounds(k) if t is tiles[0] else [(0, 0)]
                for lo, hi in todo:
                    want = within(k, lo, hi)
                    txt = {par("low_datebound"): day(lo) if lo else None, par("upper_datebound"): day(hi) if hi else None}
                    h = arrays.hook(t, load, lambda d, k=k: listing(k) if d is None or "block_" in d else [])
                    env = {**{par(q): v for q, v in ENV.items()}, **txt, par("rank"): 1, par("n_cores"): 1}
                    ins = pipe.instances(e, [both], env, h)
                    if ins is None:
                        und = True
                        continue
                    ins = [(a, v[0] if v[0] is not None else [None]) for a, v in ins]
                    desc = "%s (layers %s, bounds %s..%s)" % (who, [x[1].isoformat() for x in LISTS[k]], day(lo), day(hi))
                    if not want:
                        live = [v for _, v in ins if v[0] is not None and np.asarray(v[0]).size]
                        if live and len(np.asarray(live[0][0]).ravel()):
                            bad = bad or "%s: the detector runs on dates outside the range" % desc
                        continue
                    got = False
                    for asg, v in ins:
                        if any(x is None for x in v):
                            und = True
                            continue
                        got = True
                        cnt += 1
                        dd = [int(x) for x in np.asarray(v[0]).ravel()]
                        if dd != want:
                            bad = bad or "%s: the detector gets the dates %s, expected %s" % (desc, [day(x) for x in dd], [day(x) for x in want])
                            continue
                        for q, s in enumerate(v[1:]):
                            p, b, o = arrays.decode(s)
                            if o.ravel().tolist() != want:
                                bad = bad or "%s: %s holds the values of %s next to the dates %s" % (desc, BANDS[q], [day(x) for x in o.ravel()], [day(x) for x in want])
                            elif set(b.ravel().tolist()) != {q}:
                                bad = bad or "%s: %s holds band %s of the stack, expected band %d" % (desc, BANDS[q], sorted(set(b.ravel().tolist())), q)
                    if not got and ins is not None and not und and bad is None:
                        bad = "%s: no pixel is analysed though %d layers are in the range" % (desc, len(want))
        if cnt == 0:
            if bad is None:
                r.undecided("series", who, "no call could be evaluated", e.where())
                continue
        n += 1
        if bad is None and und:
            r.undecided("series", who, "some calls could not be evaluated", e.where())
        else:
            r.check(bad is None, "series", who, bad or "", e.where())
        r.info["series:" + who] = "%d calls" % cnt
    return n


def run(r):
    r.rule("reader", "a block reader returns (stack, dates): every layer of the folder whose date is inside the inclusive bounds, once, oldest first, layer k of the stack being the image of "
           "dates[k]; (None, None) when there is none")
    r.rule("series", "a detector gets, for one pixel, the dates inside the requested range oldest first, and each band argument is that band of the stack on those dates")
    pkg = P.Package()
    tiles = [pipe.Tile(1, 1, 1, 2), pipe.Tile(2, 1, 2, 1)]
    if r.tier == "thorough":
        tiles += [pipe.Tile(3, 2, 2, 1), pipe.Tile(2, 2, 2, 2)]
        rng = np.random.default_rng(1)
        for _ in range(6):
            o = rng.choice(np.arange(D(1984, 1, 1).toordinal(), D(2023, 1, 1).toordinal()), 12, replace=False)
            LISTS.append([(("LT05_CU_0", "S30T10SEG", "L30T10SEG")[i % 3], D.fromordinal(int(x))) for i, x in enumerate(o)])
    a = readers(r, pkg, tiles)
    d = 0
    for tag, it in pipe.tile_runs(pkg):
        d += detectors(r, tag, it, tiles)
    for q in ("reconstruct_reccg",):
        fn = "pycold.ob_analyst.ObjectAnalystHPC." + q
        f = pkg.resolve(fn)
        if f is not None and f[0] == "func":
            it = P.Interp(pkg, stop=pipe.STOP)
            it.small_unroll = True
            it.run(fn, args={"img_stack": P.C(None), "img_dates_sorted": P.C(None)})
            for e in it.events:
                if e.kind == "call" and (P.gid(e.f) or "").endswith(DETECT):
                    d += standalone(r, fn, e, tiles)
    r.floor("series", 3)
    if a == 0 and d == 0:
        raise Broken("no reader of the image stack found")


def standalone(r, fn, e, tiles):
    kw = dict(e.kw)
    args = [kw.get("dates")] + [kw.get(b) for b in BANDS]
    who = fn.split(".")[-1] + ":" + P.gid(e.f).split(".")[-1]
    if any(a is None for a in args):
        return 0
    bad, cnt = None, 0
    for t in tiles:
        g, load = source(t)
        for k in range(len(LISTS)):
            want = within(k, 0, 0)

            def field(x, go):
                if x.op == "attr" and x.args[0].op in ("param", "new", "obj"):
                    return {"stack_path": "S", "band_num": 7, "result_path": "R"}.get(x.args[1])
                return None
            h = arrays.hook(t, load, lambda d, k=k: listing(k) if d is None or "block_" in d else [], field)
            env = {par("block_id"): t.nblocks, par("stack_path"): "S", par("result_path"): "R", par("band_num"): 7}
            for asg, (v,) in pipe.instances(e, [P.Node("tuple", tuple(args))], env, h) or ():
                if v is None or any(x is None for x in v):
                    continue
                cnt += 1
                if [int(x) for x in np.asarray(v[0]).ravel()] != want:
                    bad = bad or "%s: dates not in order" % who
                for q, s in enumerate(v[1:]):
                    p, b, o = arrays.decode(s)
                    if o.ravel().tolist() != want or set(b.ravel().tolist()) != {q}:
                        bad = bad or "%s: %s holds the values of %s, bands %s next to the dates %s" % (who, BANDS[q], [day(x) for x in o.ravel()], sorted(set(b.ravel().tolist())), [day(x) for x in want])
    if cnt:
        r.check(bad is None, "series", who, bad or "", e.where())
    else:
        r.undecided("series", who, "no call could be evaluated", e.where())
    return cnt > 0


main("C27", run, explanation="The block readers and the arguments of each detector call, recovered as terms by value numbering, are evaluated on symbolic image stacks whose elements carry "
     "their pixel, band and date, for scrambled directory listings and date bounds on and next to a layer")
