"""C29 break maps carry each pixel's own break under its own year."""
import collections
import datetime
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
import world
from pipe import par
from report import main, Broken

D = datetime.date
LOW, UPP = 2000, 2003
ENV = {"out_path": "O", "reccg_path": "R", "reference_path": "REF.tif", "yaml_path": "Y", "year_lowbound": LOW, "year_uppbound": UPP}
DT = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32), ("num_obs", np.int32), ("category", np.short), ("change_prob", np.short),
               ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7), ("magnitude", np.float32, 7)])
DTS = np.dtype([("t_start", np.int32), ("t_break", np.int32), ("num_obs", np.int32), ("coefs", np.float32, (6, 6)), ("rmse", np.float32, 6), ("magnitude", np.float32, 6)])
Pack = collections.namedtuple("SccdOutput", "position rec_cg min_rmse nrt_mode nrt_model nrt_queue")

DIST = (100, 200, 400, -500, 400, 300, 0)        # browning: NIR falls, red and SWIR rise
OPPO = (-100, -300, -400, -500, -400, -300, 0)   # NIR falls, everything else too
MIXED = (100, 300, 400, 500, 400, 300, 0)        # the same signs turned round
GROW = (-100, -200, -400, 500, -400, -300, 0)    # greening
ZERO = (0,) * 7
UPSLOPE = ((2, -50.0), (3, 60.0), (4, -50.0))
# per pixel: (break date or None, probability, magnitudes, slopes)
PIXELS = [
    [(D(2000, 2, 29), 100, MIXED, ())],
    [(D(2001, 12, 31), 100, OPPO, ()), (None, 0, ZERO, ())],
    [(D(2000, 12, 31), 100, GROW, ()), (None, 0, ZERO, UPSLOPE)],
    [(D(2002, 1, 1), 100, GROW, ())],
    [(None, 0, ZERO, UPSLOPE)],
    [(D(1999, 12, 31), 100, DIST, ()), (D(2001, 7, 4), 80, DIST, ()), (D(2003, 12, 31), 100, DIST, ()), (D(2004, 1, 1), 100, DIST, ()), (None, 0, ZERO, ())],
]
CAT = {"COLD": {1: 1, 2: 1, 3: 3, 4: 2, 6: 1}, "OBCOLD": {1: 1, 2: 1, 3: 3, 4: 2, 6: 1}, "SCCDOFFLINE": {1: 1, 2: 1, 3: 2, 4: 2, 6: 1}}


def records(pixels, positions):
    out = []
    for q, recs in zip(positions, pixels):
        for k, (b, prob, mag, slopes) in enumerate(recs):
            r = np.zeros((), dtype=DT)
            r["t_start"], r["t_end"], r["t_break"], r["pos"], r["change_prob"] = 729000 + 1000 * k, 729900 + 1000 * k, b.toordinal() if b else 0, q, prob
            r["magnitude"] = mag
            for band, s in slopes:
                r["coefs"][band][1] = s
            out.append(r)
    return np.array(out, dtype=DT)


def packs(pixels, positions):
    out = []
    for q, recs in zip(positions, pixels):
        a = np.zeros(len(recs), dtype=DTS)
        for k, (b, prob, mag, slopes) in enumerate(recs):
            a[k]["t_break"] = b.toordinal() if b else 0
            a[k]["magnitude"] = mag[:6]
        out.append(Pack(q, a, np.zeros(6), 0, np.array([]), np.array([])))
    return out


def cells(it, t, positions, pixels, method, order):
    """{(year, row, col): value} put into the block results, or None when not closed"""
    rec = records(pixels, positions)
    rec = rec[order(len(rec))]
    pk = packs(pixels, positions)
    env = {par(k): v for k, v in ENV.items()}
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(t, lambda p: rec)), pk)
    out, n = {}, 0
    for e in it.events:
        if e.kind != "setitem" or e.args[1].op == "const":
            continue
        base, idx = chain(e)
        if len(idx) != 3 or not any((x.op == "sub" and P.is_const(x.args[1], "t_break")) or (x.op == "attr" and x.args[1] == "t_break") for x in P.walk(e.args[1])):
            continue
        ins = pipe.instances(e, [P.Node("tuple", tuple(idx)), e.args[1]], env, h)
        if ins is None or any(v[0] is None or v[1] is None for _, v in ins):
            return None, e
        n += 1
        for _, (i, v) in ins:
            out[tuple(int(x) for x in i)] = int(v)
    return (out, e) if n else (None, None)


def chain(e):
    idx, b = [e.args[0]], e.f
    while b.op == "sub":
        idx.append(b.args[1])
        b = b.args[0]
    idx.reverse()
    flat = []
    for i in idx:
        flat += list(i.args[0]) if i.op == "tuple" else [i]
    return b, flat


def show(d):
    return {(LOW + k[0],) + k[1:]: v for k, v in sorted(d.items())}


def run(r):
    r.rule("cell", "the break map cell of year, row and column of a record's break holds category*1000 plus the day of year of that break; breaks below full probability or outside the years "
           "exported, and segments without break, leave no trace")
    r.rule("own", "the value of a pixel is the same whatever the other pixels of the block hold")
    r.rule("saved", "the map saved (and loaded, and exported) under a year is the map of that year")
    r.rule("latest", "the recent-disturbance map holds the latest and the first-disturbance map the earliest year in which the pixel has a break of category 1, else 0")
    r.rule("layers", "a coefficient raster holds the layer of the band and coefficient in its name, taken at July 1 of its year; each pixel's own coefficients are stored at its own place")
    pkg = P.Package()
    deep = r.tier == "thorough"
    f = pipe.T + "export_change_map.main"
    for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        it = pipe.stage(pkg, f, method=method, coefs=None)
        breaks(r, method, it, deep)
        years(r, method, it)
        every(r, method, it)
        folds(r, method, it)
        if method != "SCCDOFFLINE":
            layers(r, method, pkg, f)
    r.floor("cell", 2)
    r.floor("own", 2)
    r.floor("saved", 2)
    r.floor("latest", 2)


def breaks(r, method, it, deep):
    t = pipe.Tile(1, 1, 2, 3)
    pos = [1, 2, 3, 4, 5, 6]
    orders = [lambda n: list(range(n))]
    if method != "SCCDOFFLINE":
        # records come in any order of the pixels
        orders.append(lambda n: list(range(3, n)) + [0, 1, 2])
    all_, where = cells(it, t, pos, PIXELS, method, orders[0])
    if all_ is None:
        r.undecided("cell", method, "the stored break value is not closed", where.where() if where else "")
        return
    want = {}
    for q, recs in zip(pos, PIXELS):
        for b, prob, mag, _ in recs:
            if b is None or not LOW <= b.year <= UPP or (prob < 100 and method != "SCCDOFFLINE"):
                continue
            want[(b.year - LOW, (q - 1) // t.n_cols, (q - 1) % t.n_cols)] = CAT[method][q] * 1000 + b.timetuple().tm_yday
    bad = None
    for k in sorted(set(want) | set(all_)):
        if want.get(k) != all_.get(k):
            bad = "%s: pixel row %d, column %d: the map of %d holds %s, expected %s" % (method, k[1], k[2], LOW + k[0], all_.get(k, "nothing"), want.get(k, "nothing"))
            break
    r.check(bad is None, "cell", method, bad or "", where.where())
    bad = None
    for o in orders[1:]:
        c, _ = cells(it, t, pos, PIXELS, method, o)
        if c is not None and c != all_:
            bad = "%s: the map depends on the order of the records of different pixels in the file" % method
    tries = [(q, [p]) for q, p in zip(pos, PIXELS)]
    for q, p in tries:
        c, _ = cells(it, t, [q], p and [p[0]], method, orders[0])
        own = {k: v for k, v in all_.items() if (k[1] * t.n_cols + k[2] + 1) == q}
        if c is None:
            continue
        if c != own and bad is None:
            bad = "%s: pixel %d alone in its block gives %s, next to the other pixels %s" % (method, q, show(c), show(own))
    if deep:
        # any pair of pixels next to each other, both ways round
        for a in range(len(PIXELS)):
            for b in range(len(PIXELS)):
                c, _ = cells(it, t, [2, 3], [PIXELS[a], PIXELS[b]], method, orders[0])
                x, _ = cells(it, t, [2], [PIXELS[a]], method, orders[0])
                y, _ = cells(it, t, [3], [PIXELS[b]], method, orders[0])
                if None not in (c, x, y) and c != {**x, **y} and bad is None:
                    bad = "%s: two neighbouring pixels change each other's map: %s instead of %s" % (method, show(c), show({**x, **y}))
    r.check(bad is None, "own", method, bad or "", where.where())


YEAR = re.compile(r"_(\d+)\.npy$")
TIF = re.compile(r"(\d{4})_break_map")


def years(r, method, it, tag=""):
    """np.save(path of a year, results[index]): the index is that year's"""
    env = {par(k): v for k, v in ENV.items()}
    t = pipe.Tile(2, 1, 1, 1)
    h = pipe.mpi(0, 1, arrays.hook(t))
    bad, n, where = None, 0, ""
    for e in it.events:
        if e.kind == "call" and P.gid(e.f) == "numpy.save":
            p, v = e.arg(0, "file"), e.arg(1, "arr")
            if v is None or v.op != "sub" or not any(x.op in ("eta", "loopout") for x in P.walk(v.args[0])):
                continue
            i = v.args[1]
            if i.op == "tuple":
                i = i.args[0][-1]
            ins = pipe.instances(e, [p, i], env, h)
            for _, (a, k) in ins or ():
                m = YEAR.search(a) if isinstance(a, str) else None
                if m is None or not isinstance(k, int):
                    continue
                n += 1
                where = e.where()
                if int(m[1]) != LOW + k:
                    bad = bad or "%s: the results of %d are saved as %s" % (method, LOW + k, a)
    if n:
        r.check(bad is None, "saved", method + tag, bad or "", where)
    else:
        r.undecided("saved", method, "no saved year map with a decidable index")
    # exported under the same year
    bad, n = None, 0
    for e in it.events:
        if e.kind != "call" or e.f.op != "attr" or e.f.args[1] != "WriteArray":
            continue
        c = create_of(e)
        if c is None or not c.args[1]:
            continue
        src = [x for x in P.walk(e.args[0]) if x.op == "call" and P.gid(x.args[0]) == "numpy.load"]
        if not src:
            continue
        seen = []
        ins = pipe.instances(e, [c.args[1][0], e.args[0]], env, pipe.mpi(0, 1, arrays.hook(t, lambda p, s=seen: (s.append(p), np.zeros((1, 1, 14)))[1])))
        if ins is None:
            continue
        for asg, (p, _) in ins:
            seen.clear()
            pipe.value(e.args[0], asg, pipe.mpi(0, 1, arrays.hook(t, lambda q, s=seen: (s.append(q), np.zeros((1, 1, 14)))[1])))
            m = re.search(r"(\d{4})_", p.split("/")[-1]) if isinstance(p, str) else None
            ys = {YEAR.search(q)[1] for q in seen if YEAR.search(q)}
            if m is None or not ys:
                continue
            n += 1
            if ys != {m[1]}:
                bad = bad or "%s: the raster %s is made of the block maps of %s" % (method, p, sorted(ys))
    if n:
        r.check(bad is None, "saved", method + tag + ":exported", bad or "", "export_change_map")


def every(r, method, it, tag=""):
    """a block leaves one map for every year, whether or not it has records: the export reads them all"""
    env = {par(k): v for k, v in ENV.items()}
    t = pipe.Tile(2, 2, 1, 1)
    got = {}
    for there in (True, False):
        def extra(x, go, there=there):
            if x.op == "call" and P.gid(x.args[0]) in ("os.path.exists", "os.path.isfile"):
                return there
            if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("exists", "is_file"):
                return there
            return None
        h = pipe.mpi(0, 1, pipe.hook(t, extra))
        for e in it.events:
            a = pipe.file_access(e)
            if not a or a[0] != "w" or P.gid(e.f) != "numpy.save":
                continue
            for _, (p,) in pipe.instances(e, [pipe.pathof(a[1])], env, h) or ():
                m = re.search(r"([a-z_]+)(\d+)_(\d+)\.npy$", p) if isinstance(p, str) else None
                if m:
                    got.setdefault((m[1], there), {}).setdefault((int(m[2]), int(m[3])), e)
    fams = sorted({k for k, _ in got})
    if not fams:
        r.undecided("saved", method + tag + ":every", "no block map with a decidable name")
        return
    want = {(b, y) for b in range(1, t.nblocks + 1) for y in range(LOW, UPP + 1)}
    for k in fams:
        for there in (True, False):
            g = got.get((k, there), {})
            d = sorted(want ^ set(g))
            w = next(iter(g.values()), None) or next(iter(got[(k, not there)].values()))
            r.check(not d, "saved", "%s%s:every:%s:%s" % (method, tag, k, there), "%s: a block %s records %s the map %s of %d (block %d); every block saves one per exported year" % (
                (method, "with" if there else "without") + (("lacks", k, d[0][1], d[0][0]) if d[0] in want else ("has", k, d[0][1], d[0][0]))) if d else "", w.where())


def create_of(e):
    """the Create call behind WriteArray"""
    b = e.f.args[0]
    while b is not None and b.op in ("call", "attr"):
        if b.op == "call" and b.args[0].op in ("attr", "bound") and b.args[0].args[1] == "Create":
            return b
        b = b.args[0]
    return None


def folds(r, method, it):
    env = {par(k): v for k, v in ENV.items()}
    t = pipe.Tile(1, 1, 4, 4)
    rng = np.random.default_rng(7)
    maps = {y: rng.choice([-9999, 1001, 1366, 2001, 3100, 4200, 1999], size=(4, 4), p=[.5, .1, .1, .1, .05, .05, .1]) for y in range(LOW, UPP + 1)}
    maps[LOW][0, 0] = maps[UPP][0, 0] = 1010
    maps[LOW][0, 1], maps[UPP][0, 1] = 1365, -9999
    for y in maps:
        maps[y][3, 3] = -9999
        maps[y][3, 2] = 2050

    def load(p):
        return maps[int(TIF.search(p)[1])]
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(t, load)), None)
    for e in it.events:
        if e.kind != "call" or e.f.op != "attr" or e.f.args[1] != "WriteArray":
            continue
        c = create_of(e)
        p = pipe.value(c.args[1][0], env, h) if c is not None and c.args[1] else None
        if not isinstance(p, str) or "disturbance" not in p:
            continue
        kind = "recent" if "recent" in p else "first" if "first" in p else None
        if kind is None:
            continue
        lid = next((x.args[0] for x in P.walk(e.args[0]) if x.op == "eta"), None)
        out = np.zeros((4, 4), dtype=int)
        ok = lid is not None
        n = 0
        for s in it.events:
            if not ok or s.kind != "setitem" or not s.loops or s.loops[-1] != lid:
                continue
            ins = pipe.instances(s, [s.args[0], s.args[1]], env, h)
            if ins is None or any(a is None or b is None for _, (a, b) in ins):
                ok = False
                continue
            for _, (m, v) in ins:
                m = np.asarray(m)
                if m.shape != (4, 4) and not isinstance(v, (int, np.integer)):
                    ok = False
                    continue
                out[m if m.dtype == bool else tuple(m)] = v
                n += 1
        if not ok or not n:
            r.undecided("latest", "%s:%s" % (method, kind), "masked assignment not closed", e.where())
            continue
        seq = sorted(maps, reverse=kind == "first")
        want = np.zeros((4, 4), dtype=int)
        for y in seq:
            want[maps[y] // 1000 == 1] = y
        bad = None
        if not (want == out).all():
            i = tuple(int(x) for x in np.argwhere(want != out)[0])
            bad = "%s: the %s-disturbance map holds %d for a pixel with the break codes %s, expected %d" % (method, kind, out[i], {y: int(maps[y][i]) for y in sorted(maps)}, want[i])
        r.check(bad is None, "latest", "%s:%s" % (method, kind), bad or "", e.where())


def layers(r, method, pkg, f):
    """layer number of (band, coefficient) when stored and when exported"""
    it = P.Interp(pkg, stop=set(pipe.STOP) | {pipe.T + "export_change_map.extract_features"})
    it.small_unroll = True
    it.fail = (lambda g: False, "")
    it.run(f, args={"method": P.C(method), "coefs": P.C("a0,c1,rmse"), "coefs_bands": P.C("5,0")})
    env = {par(k): v for k, v in ENV.items()}
    years(r, method, it, ":coefs")
    every(r, method, it, ":coefs")
    t = pipe.Tile(1, 1, 2, 3)
    rec = records([PIXELS[k] for k in (0, 1, 3, 4)], [1, 3, 4, 6])
    out, put, place, days = {}, {}, {}, {}

    def extra(x, go):
        if x.op == "call" and (P.gid(x.args[0]) or "").endswith("extract_features"):
            kw = dict(x.args[2])
            return [("F", int(go(kw["band"])), n, {int(q) for q in go(kw["cold_plot"])["pos"]}, tuple(go(kw["ordinal_day_list"]))) for n in go(kw["feature_outputs"])]
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "split" and x.args[1]:
            return go(x.args[0].args[0]).split(go(x.args[1][0]))
        if x.op == "call" and P.gid(x.args[0]) == "str":
            return str(go(x.args[1][0]))
        return None
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(t, lambda p: rec if "record" in p else np.arange(14).reshape(1, 1, 14), None, extra)), None)
    for e in it.events:
        if e.kind == "setitem":
            base, idx = chain(e)
            if any(x.op == "call" and (P.gid(x.args[0]) or "").endswith("extract_features") for x in P.walk(e.args[1])):
                ins = pipe.instances(e, [P.Node("tuple", tuple(idx[:3])), e.args[1]], env, h)
                for _, (i, v) in ins or ():
                    if i is not None and v is not None:
                        put[(v[1], v[2])] = int(i[2])
                        place.setdefault((int(i[0]), int(i[1])), set()).update(v[3])
                        days[v[4]] = e
        if e.kind == "call" and e.f.op == "attr" and e.f.args[1] == "WriteArray":
            c = create_of(e)
            if c is None or not c.args[1]:
                continue
            ins = pipe.instances(e, [c.args[1][0], e.args[0]], env, h)
            for _, (p, v) in ins or ():
                m = re.search(r"_coefs_\w+_(\d+)_(\w+)\.tif", p) if isinstance(p, str) else None
                if m and v is not None and np.asarray(v).size == 1:
                    out[(int(m[1]), m[2])] = int(np.asarray(v).ravel()[0])
    if not put or not out:
        r.undecided("layers", method, "layer numbers not closed (%d stored, %d exported)" % (len(put), len(out)))
        return
    want = {((q - 1) // t.n_cols, (q - 1) % t.n_cols): {q} for q in (1, 3, 4, 6)}
    r.check(place == want, "layers", method + ":pixels", "%s: the coefficients of the pixels %s are stored at %s" % (method, sorted(q for (q,) in map(tuple, want.values())), place), "export_change_map")
    want = tuple(D(y, 7, 1).toordinal() for y in range(LOW, UPP + 1))
    r.check(set(days) == {want}, "layers", method + ":days", "%s: the coefficients are taken at the days %s, expected July 1 of each year exported" % (method, sorted(days)), "export_change_map")
    bad = next((k for k in sorted(set(put) | set(out)) if put.get(k) != out.get(k)), None)
    r.check(bad is None, "layers", method, "%s: band %s, coefficient %s is stored in layer %s and exported from layer %s" % ((method,) + bad + (put.get(bad), out.get(bad))) if bad else "", "export_change_map")


main("C29", run, explanation="The stored cell value and its indices, recovered by value numbering with loop-carried values followed through their recurrences, are evaluated on small record sets "
     "built to reveal leakage between pixels, years and probabilities")
