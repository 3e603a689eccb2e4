"""C31 object analysis works on the right snapshots and gives every object its own statistics and every pixel its own date."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pipe
import pyflow as P
import pyq
import world
from pipe import par
from report import main

O = "pycold.ob_analyst."
SEG = ("segmentation_floodfill", "segmentation_slic", "segmentation_watershed")
NA = -9999
LAUNCH = 723742
PPF = {0.9: 9.236, 0.7: 6.064, 0.75: 6.626, 0.95: 11.07, 0.99: 15.086}
KIND = re.compile(r"(CM_maps|CM_date_maps|yearlyclassification|obiaresult)_(\d+)")


class Table:
    """what the code needs of a data frame"""

    def __init__(self, cols):
        self.cols = {k: np.asarray(v) for k, v in cols.items()}
        if len({len(v) for v in self.cols.values()}) > 1:
            raise Misfit("columns of lengths %s" % {k: len(v) for k, v in self.cols.items()})

    def __len__(self):
        return len(next(iter(self.cols.values())))


class Misfit(Exception):
    """arrays of the analysis that do not belong together"""


FUN = ("r_", "argsort", "isin", "in1d", "bincount", "unique", "flatnonzero", "isnan", "zeros", "ones", "full", "full_like", "zeros_like", "ones_like", "multiply", "where", "diff", "concatenate",
       "array", "asarray", "maximum", "minimum", "sum", "mean", "searchsorted", "nonzero", "append", "argwhere", "take", "transpose", "dstack", "stack", "flip", "count_nonzero", "logical_and", "logical_or", "logical_not", "copy")
DT = {"numpy." + k: getattr(np, k) for k in ("int8", "byte", "int16", "int32", "int64", "uint8", "float32", "float64", "double", "bool_")} | {"float": float, "int": int, "bool": bool}


def mode(v):
    if not np.size(v):
        return float("nan")
    u, c = np.unique(v, return_counts=True)
    return u[np.argmax(c)]


def tools(it, own=None, load=None, tile=None):
    def extra(x, go):
        if own is not None:
            v = own(x, go)
            if v is not None:
                return v
        if x.op == "listmul":
            return list(go(x.args[0])) * int(go(x.args[1]))
        if x.op == "glob" and x.args[0] in DT:
            return DT[x.args[0]]
        if x.op == "glob" and x.args[0] in ("numpy.nan", "math.nan"):
            return float("nan")
        if x.op == "sub" and P.gid(x.args[0]) == "numpy.r_":
            return np.r_[tuple(go(x.args[1]))]
        if x.op == "sub":
            b = go(x.args[0])
            if isinstance(b, Table):
                k = go(x.args[1])
                if isinstance(k, str):
                    return b.cols[k]
                return Table({c: v[np.asarray(k, dtype=bool)] for c, v in b.cols.items()})
            if isinstance(b, np.ndarray) and not (x.args[1].op == "const" and isinstance(x.args[1].args[0], str)):
                i = go(x.args[1])
                return b[tuple(i) if isinstance(i, (tuple, list)) and not isinstance(i, list) else i]
        if x.op == "attr":
            if x.args[1] in ("loc", "iloc", "values") and not (x.args[0].op == "param" and x.args[0] not in go.env):
                return go(x.args[0])
            if x.args[0].op == "param" and not isinstance(go.env.get(x.args[0]), (Table, np.ndarray)):
                return None
            b = go(x.args[0])
            if isinstance(b, Table) and x.args[1] in b.cols:
                return b.cols[x.args[1]]
            if isinstance(b, np.ndarray) and x.args[1] in ("T", "shape", "size", "ndim", "dtype", "flat"):
                return getattr(b, x.args[1])
            return None
        if x.op == "neg":
            return -go(x.args[0])
        if x.op == "call":
            f, a, kw = x.args[0], x.args[1], dict(x.args[2])
            g = P.gid(f) or ""
            if g.startswith("numpy.") and g[6:] in FUN:
                v = getattr(np, g[6:])(*[go(y) for y in a], **{k: go(v) for k, v in kw.items()})
                if g == "numpy.unique" and "return_inverse" in kw:      # the numpy the package runs on returns it flat
                    v = tuple(np.ravel(q) for q in v)
                return v
            if g.endswith("stats.mode"):
                v = np.asarray(go(a[0])).ravel()
                k = bool(go(kw["keepdims"])) if "keepdims" in kw else False
                return (np.array([mode(v)]), np.array([1])) if k else (mode(v), 1)
            if g.endswith("chi2.ppf"):
                return PPF.get(round(float(go(a[0])), 3), 7.5)
            if g == "pandas.DataFrame":
                return Table({k: go(v) for k, v in zip([go(y) for y, _ in a[0].args[0]], [y for _, y in a[0].args[0]])})
            if g in ("len", "list", "dict", "zip", "sorted") and a:
                vs = [go(y) for y in a]
                if g in ("len", "dict") or any(isinstance(v, (np.ndarray, Table, dict, zip)) for v in vs):
                    return {"len": len, "list": list, "dict": lambda *q: dict(*[list(z) for z in q]), "zip": lambda *q: list(zip(*q)), "sorted": sorted}[g](*vs)
            if f.op == "call" and P.gid(f.args[0]) == "numpy.vectorize":
                fn = f.args[1][0]
                if fn.op == "attr" and fn.args[1] in ("get", "__getitem__"):
                    d = go(fn.args[0])
                    return np.vectorize(d.get)(go(a[0]))
            if f.op in ("attr", "bound"):
                m = f.args[1]
                if m in ("assign", "to_list", "tolist", "get", "reshape", "astype", "argsort", "ravel", "flatten", "copy", "sum", "mean", "min", "max", "squeeze", "transpose", "item", "items", "keys", "values", "to_numpy"):
                    b = go(f.args[0])
                    kw = {k: go(v) for k, v in kw.items()}
                    if isinstance(b, Table):
                        if m == "assign":
                            return Table({**b.cols, **kw})
                        if m == "copy":
                            return b
                        return None
                    if isinstance(b, np.ndarray):
                        if m in ("to_list", "tolist"):
                            return b.tolist()
                        if m == "to_numpy":
                            return b
                        if kw.get("kind") == "mergesort":
                            kw["kind"] = "stable"
                        return getattr(b, m)(*[go(y) for y in a], **kw)
                    if isinstance(b, dict):
                        return getattr(b, m)(*[go(y) for y in a])
        return None
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(tile or pipe.Tile(2, 4, 3, 2), load, None, extra)), None)

    def top(x, go):
        v = extra(x, go)
        return v if v is not None else h(x, go)
    return top


def interp(pkg, f, stop=()):
    it = P.Interp(pkg, stop=set(stop))
    it.small_unroll = True
    it.fail = (lambda g: False, "")
    it.run(f)
    return it


def where(pkg, f):
    k = pkg.resolve(f)[1]
    return "%s:%d" % (k.module.path, k.node.lineno)


def same(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) < 1e-6)).all())


def run(r):
    r.rule("snapshot", "the segmentation of a date gets the change magnitudes and dates of that date, and as substitute those of the date one interval before, with dates counted from year 1 and missing ones kept missing")
    r.rule("fill", "a missing magnitude or date of a pixel is replaced by the same pixel's value of the earlier snapshot; magnitudes are scaled; those below the object threshold do not take part")
    r.rule("seed", "flood-fill objects grow from the pixels over the peak threshold, the strongest first, over the pixels' own magnitude and date and within the tolerance of the seed")
    r.rule("mean", "the magnitude of an object is the mean over its own pixels; the background has none")
    r.rule("patch", "patches are the connected areas of the objects' pixels")
    r.rule("class", "the land class is taken from the map of the year before the date, not before the first year")
    r.rule("stats", "an object is judged by its own mean, the most frequent class of its own pixels and the size of its patch; exactly the pixels of change objects are marked")
    r.rule("judge", "an object is a change by the threshold and size slope of its own class alone (the default pair for class 255 and without class map; the uniform pair where given)")
    r.rule("result", "the stored break date of a pixel is its own change date where it is marked and known, 0 elsewhere; the first snapshot gives none")
    pkg = P.Package()
    execute(r, pkg)
    segments(r, pkg)
    stats(r, pkg)
    judge(r, pkg)


def judge(r, pkg):
    """decision of one object under parameter sets in which only its own class's pair can tell the outcome"""
    f = O + "is_change_object"
    it = interp(pkg, f)
    w0 = where(pkg, f)
    kinds = [("default", None)] + [("default", 255)] + [("C%d" % k, k) for k in range(1, 9)]

    def decide(cls, cm, n, pars, uni=(None, None)):
        row = Table({"label": [1], "mean_intensity": [float(cm)], "npixels": [n], "mode": [255 if cls is None else cls]})
        env = {par("stats_lut_row"): row, par("uniform_threshold"): uni[0], par("uniform_sizeslope"): uni[1], par("keyword"): "mean_intensity",
               par("classification_map"): None if cls is None else np.ones((2, 2)), par("parameters"): pars}

        def own(x, go):
            if x.op == "call" and P.gid(x.args[0]) in ("numpy.double", "numpy.float64", "float", "int", "numpy.int64", "numpy.log10", "math.log10", "min", "max", "numpy.minimum", "numpy.maximum"):
                a = [np.asarray(go(y)).item() for y in x.args[1]]
                return {"int": int, "int64": int, "log10": np.log10, "min": min, "max": max, "minimum": min, "maximum": max}.get(P.gid(x.args[0]).split(".")[-1], float)(*a)
            return None
        return bool(pyq.ev(it.ret, env, tools(it, own)))

    def table(own, thr, slope, other):
        """the other classes' pairs would decide the opposite way"""
        p = {}
        for k in ["default"] + ["C%d" % j for j in range(1, 9)]:
            p[k + "_threshold"], p[k + "_sizeslope"] = (thr, slope) if k == own else other
        return p
    YES, NO = (1e-9, 5.0), (1e9, 0.0)
    for own, cls in kinds:
        tag = "nomap" if cls is None else "class%d" % cls
        bad = None
        try:
            for n in (1, 30, 100000):
                for thr, other, want in ((50.0, YES, False), (0.5, NO, True)):
                    if decide(cls, 10, n, table(own, thr, 0.0, other)) != want:
                        bad = bad or "an object of magnitude 10 and %d pixels is %sa change at the threshold %g of its class (the other classes' thresholds: %g)" % (n, "no " if want else "", thr, other[0])
            for slope, other, want in ((0.0, YES, False), (1.0, NO, True)):
                if decide(cls, 10, 100000, table(own, 15.0, slope, other)) != want:
                    bad = bad or "a large object of magnitude 10 is %sa change at the threshold 15 and size slope %g of its class" % ("no " if want else "", slope)
            if cls is not None:
                for uni, t, want in (((50.0, 0.0), YES, False), ((0.5, 0.0), NO, True), ((15.0, 1.0), NO, True), ((15.0, 0.0), YES, False)):
                    if decide(cls, 10, 100000, table(own, *t, t), uni) != want:
                        bad = bad or "an object of magnitude 10 is %sa change at the uniform threshold %g and size slope %g" % ("no " if want else "", *uni)
        except pipe.FAIL as ex:
            r.undecided("judge", tag, "decision not closed: %s" % str(ex)[:80], w0)
            continue
        r.check(bad is None, "judge", tag, "%s: %s" % ("no class map" if cls is None else "class %d" % cls, bad), w0)
    r.floor("judge", 5)


def date_of(p):
    m = KIND.search(os.path.basename(p))
    return (m[1], int(m[2])) if m else None


def execute(r, pkg):
    f = O + "ObjectAnalystHPC.obia_execute"
    it = interp(pkg, f, {O + s for s in SEG} | {O + "object_analysis"})
    t = pipe.Tile(2, 4, 3, 2)
    n, m = t.n_rows, t.n_cols
    rng = np.random.default_rng(4)

    def raw(kind, d):
        g = np.random.default_rng(d * 7 + len(kind))
        v = g.integers(100, 12000, (n, m)).astype(np.int16)
        v[g.random((n, m)) < 0.25] = NA
        return v

    def load(p):
        k = date_of(p)
        if k is None:
            raise pyq.Unknown("file")
        if k[0] == "yearlyclassification":
            return np.full((n, m), k[1])
        return raw(*k)
    start = 723742 + 2000       # 1987
    marks = (rng.random((n, m)) < 0.6).astype(np.uint8)
    upd = rng.integers(724000, 738000, (n, m))
    upd[rng.random((n, m)) < 0.3] = NA
    for ivl in (32, 60):
        for k in (0, 1, 2, 12, 40):
            date = start + ivl * k
            for meth in ("floodfill", "slic", "watershed"):
                for them in ("TH", None):
                    def own(x, go):
                        if x.op == "call":
                            g = P.gid(x.args[0]) or ""
                            if g.startswith(O + "segmentation_"):
                                return ("objects", upd.copy(), "patches", "info")
                            if g == O + "object_analysis":
                                return marks
                        return None
                    h = tools(it, own, load, t)
                    env = {par("date"): date, par("cm_output_interval"): ivl, par("method"): meth, par("thematic_path"): them, par("starting_date"): start, par("result_path"): "R", par("cmmap_path"): None,
                           par("obia_path"): None, par("uniform_threshold"): None, par("uniform_sizeslope"): None, par("floodfill_ratio"): None}
                    tag = "%s:%d:%d%s" % (meth, ivl, k, "" if them else ":nomap")
                    called = {"seg": 0, "obj": 0}
                    for e in it.events:
                        g = P.gid(e.f) if e.kind == "call" else None
                        if g in {O + s for s in SEG} and (k in (0, 1, 12)) and them:
                            kw = dict(e.kw)
                            names = [("cm_array", "CM_maps", date), ("cm_array_l1", "CM_maps", date - ivl), ("cm_date_array", "CM_date_maps", date), ("cm_array_l1_date", "CM_date_maps", date - ivl)]
                            ins = pipe.instances(e, [kw.get(a) for a, _, _ in names], env, h)
                            if ins is None:
                                r.undecided("snapshot", tag, "call of %s not closed" % g, e.where())
                                continue
                            for _, vs in ins:
                                called["seg"] += 1
                                if g != O + "segmentation_" + meth:
                                    r.bad("snapshot", tag + ":method", "%s is called for method %s" % (g, meth), e.where())
                                for (a, kind, d), v in zip(names, vs):
                                    w = raw(kind, d).astype(int)
                                    if "date" in kind:
                                        w = np.where(w == NA, NA, w + LAUNCH)
                                    if v is None:
                                        r.undecided("snapshot", tag + ":" + a, "argument not closed", e.where())
                                    else:
                                        r.check(same(v, w), "snapshot", tag + ":" + a, "%s of date %d is not the %s snapshot of %d" % (a, date, "magnitude" if kind == "CM_maps" else "date", d), e.where())
                        if g == O + "object_analysis":
                            ins = pipe.instances(e, [dict(e.kw).get("classification_map")], env, h)
                            for _, (v,) in ins or ():
                                called["obj"] += 1
                                y = max(pipe_year(start), pipe_year(date) - 1)
                                if them:
                                    r.check(v is not None and np.shape(v) == (n, m) and (np.asarray(v) == y).all(), "class", tag, "the land classes of %s are used for a change of %d, expected %d" % (
                                        "no year" if v is None else np.asarray(v).ravel()[0], pipe_year(date), y), e.where())
                        if g == "numpy.save":
                            ins = pipe.instances(e, [e.arg(0, "file"), e.arg(1, "arr")], env, h)
                            if ins is None:
                                r.undecided("result", tag, "saved result not closed", e.where())
                            got = {}
                            for _, (p, v) in ins or ():
                                if p is None or v is None:
                                    r.undecided("result", tag, "saved result not closed", e.where())
                                    continue
                                b = re.search(r"_x(\d+)_y(\d+)\.npy$", p)
                                if b and date_of(p) == ("obiaresult", date):
                                    got[(int(b[1]), int(b[2]))] = v
                            full = np.where((marks == 1) & (upd > 0), upd, 0) if k else np.zeros((n, m), dtype=int)
                            bad = None
                            for (bx, by), v in got.items():
                                w = full[(by - 1) * t.block_height:by * t.block_height, (bx - 1) * t.block_width:bx * t.block_width]
                                if not same(v, w):
                                    bad = "block x%d y%d of date %d does not hold the change dates of its own marked pixels" % (bx, by, date)
                            if got:
                                r.check(bad is None, "result", tag, bad or "", e.where())
    r.floor("snapshot", 4)
    r.floor("class", 4)
    r.floor("result", 4)


def pipe_year(d):
    import datetime
    return datetime.date.fromordinal(d).year


def segments(r, pkg):
    n, m = 6, 6
    for s in SEG:
        f = O + s
        it = interp(pkg, f)
        w0 = where(pkg, f)
        if it.ret is None or it.ret.op not in ("tuple", "list") or len(it.ret.args[0]) != 4:
            r.undecided("fill", s, "the segmentation does not return four parts", w0)
            continue
        objs, dates, patch, info = it.ret.args[0]
        g = np.random.default_rng(9)
        cm, l1 = g.integers(100, 3000, (n, m)).astype(np.int16), g.integers(100, 3000, (n, m)).astype(np.int16)
        d0, d1 = g.integers(724000, 738000, (n, m)), g.integers(724000, 738000, (n, m))
        for a, q in ((cm, 0.3), (l1, 0.3), (d0, 0.4), (d1, 0.3)):
            a[g.random((n, m)) < q] = NA
        par_ = {"floodfill_thres": 0.1, "cm_scale": 100, "gate_probability": 0.9, "default_threshold": 12.0}
        env = {par("cm_array"): cm, par("cm_array_l1"): l1, par("cm_date_array"): d0, par("cm_array_l1_date"): d1, par("parameters"): par_, par("floodfill_ratio"): None, par("b_dist_prob_map"): False,
               par("peak_threshold"): None, par("low_bound"): None, par("date_interval"): 60}
        low = PPF[0.9]

        def cfg(x, go):
            if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str) and x.args[0] is par("parameters"):
                return par_[x.args[1].args[0]]
            return None
        h = tools(it, cfg)
        try:
            v = pyq.ev(dates, env, h)
            bad = not same(v, np.where(d0 == NA, d1, d0))
            r.check(not bad, "fill", s + ":dates", "a pixel does not keep its own change date, or its own earlier one where it has none", w0)
        except pipe.FAIL:
            r.undecided("fill", s + ":dates", "dates not closed", w0)
        # what is smoothed
        filled = np.where(cm == NA, l1 if "floodfill" not in s else np.where(l1 < low * 100, NA, l1), cm) / 100.0
        cut = low * (1 - par_["floodfill_thres"]) if "floodfill" in s else low
        want = np.where(filled < cut, np.nan, filled)
        cv = [e for e in it.events if e.kind == "call" and (P.gid(e.f) or "").endswith("convolution.convolve") or e.kind == "call" and (P.gid(e.f) or "").split(".")[-1] == "convolve"]
        for e in cv:
            try:
                v = pyq.ev(e.arg(0, "array"), env, h)
            except pipe.FAIL:
                r.undecided("fill", s + ":magnitudes", "magnitudes not closed", e.where())
                continue
            r.check(same(v, want), "fill", s + ":magnitudes", "the magnitudes segmented are not each pixel's own, or its earlier one where it has none, over the object threshold", e.where())
        # statistics of the objects
        lab = np.array([[0, 0, 3, 3, 0, 5], [0, 3, 3, 0, 5, 5], [0, 0, 0, 0, 5, 0], [7, 7, 0, 1, 1, 0], [7, 7, 0, 1, 1, 0], [0, 0, 0, 0, 0, 9]])
        G = np.arange(n * m).reshape(n, m) * 1.7 + 2
        full = g.integers(2000, 3000, (n, m)).astype(np.int16)
        env2 = {**env, par("cm_array"): full}

        def stat(x, go):
            if x is objs:
                return lab
            if x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] == "convolve":
                return G
            if x.op == "call" and (P.gid(x.args[0]) or "").split(".")[-1] in ("label", "sklabel"):
                return go(x.args[1][0])
            return cfg(x, go)
        h2 = tools(it, stat)
        seeds(r, it, s, env2, h2, G, full)
        try:
            v = pyq.ev(info, env2, h2)
        except Misfit as ex:
            r.bad("mean", s, str(ex), w0)
            v = None
        except pipe.FAIL:
            r.undecided("mean", s, "object table not closed", w0)
            v = None
        if isinstance(v, Table) and {"label", "mean_intensity"} <= set(v.cols):
            u = np.unique(lab)
            w = [NA if k == 0 else G[lab == k].mean() for k in u]
            r.check(same(v.cols["label"], u) and same(v.cols["mean_intensity"], w), "mean", s, "the mean magnitudes of the objects are %s, expected %s" % (
                dict(zip(v.cols["label"].tolist(), np.round(v.cols["mean_intensity"], 1).tolist())), dict(zip(u.tolist(), np.round(w, 1).tolist()))), w0)
        try:
            v = np.asarray(pyq.ev(patch, env2, h2))
            r.check(v.shape == lab.shape and same(v > 0, lab > 0) and len(np.unique(v[v > 0])) == 1, "patch", s, "the patches do not cover exactly the pixels of the objects", w0)
        except pipe.FAIL:
            r.undecided("patch", s, "patch map not closed", w0)


def seeds(r, it, s, env, h, G, cm):
    """the order, place and tolerance of the region growing"""
    for e in it.events:
        if e.kind != "call" or (P.gid(e.f) or "").split(".")[-1] != "floodFill":
            continue
        ins = None
        try:
            ins = pipe.instances(e, [e.arg(2, "seedPoint"), e.arg(4, "loDiff"), e.arg(5, "upDiff"), e.arg(0, "image")], env, h)
        except pipe.FAIL:
            pass
        if not ins or any(v is None for _, vs in ins for v in vs):
            r.undecided("seed", s, "seeds not closed", e.where())
            continue
        order = sorted(((G[p], p) for p in np.ndindex(G.shape) if G[p] > PPF[0.9]), key=lambda q: -q[0])
        want = [(int(p[1]), int(p[0])) for _, p in order]
        got = [tuple(int(q) for q in vs[0]) for _, vs in ins]
        r.check(got == want, "seed", s + ":order", "objects are not grown from the pixels over the peak threshold in descending order of magnitude, each at its own (column, row)", e.where())
        bad = None
        for (g, p), (_, (_, lo, up, im)) in zip(order, ins):
            w = [g * 0.1, g * 0.1, 60]
            if not same(lo, w) or not same(up, w):
                bad = bad or "the tolerance around the seed at %s is %s, expected %s" % (p, np.round(np.asarray(lo, dtype=float), 2).tolist(), np.round(w, 2).tolist())
            im = np.asarray(im)
            d = np.where(env[par("cm_date_array")] == NA, env[par("cm_array_l1_date")], env[par("cm_date_array")])
            if im.shape != G.shape + (3,) or not np.allclose(im, np.dstack([G, G, d]), rtol=1e-5):
                bad = bad or "the image grown over is not the smoothed magnitude and the change date of each pixel"
        if got == want:
            r.check(bad is None, "seed", s + ":range", bad or "", e.where())


def stats(r, pkg):
    f = O + "object_analysis"
    it = interp(pkg, f, {O + "is_change_object"})
    w0 = where(pkg, f)
    s1 = np.array([[0, 0, 3, 3, 0, 5, 5], [0, 4, 4, 0, 0, 5, 5], [0, 0, 0, 0, 0, 0, 0], [7, 7, 0, 9, 9, 0, 0], [7, 8, 0, 9, 9, 0, 12], [8, 8, 0, 9, 0, 0, 0]])
    s2 = np.array([[0, 0, 1, 1, 0, 2, 2], [0, 1, 1, 0, 0, 2, 2], [0, 0, 0, 0, 0, 0, 0], [3, 3, 0, 4, 4, 0, 0], [3, 3, 0, 4, 4, 0, 5], [3, 3, 0, 4, 0, 0, 0]])
    cls = np.array([[8, 8, 2, 2, 8, 6, 6], [8, 3, 3, 8, 8, 6, 5], [8] * 7, [4, 4, 8, 1, 1, 8, 8], [4, 255, 8, 2, 1, 8, 7], [255, 3, 8, 1, 8, 8, 8]])
    u = np.unique(s1)
    mean = {k: (NA if k == 0 else 10.0 + k) for k in u}
    for name, cmap in (("map", cls), ("nomap", None)):
        for sel, keep in (("some", {3, 7, 8, 12}), ("none", set()), ("all", set(u) - {0}), ("one", {9})):
            rows = []

            def own(x, go, keep=keep):
                if x.op == "call" and (P.gid(x.args[0]) or "") == O + "is_change_object":
                    t = go(dict(x.args[2])["stats_lut_row"])
                    if not isinstance(t, Table) or len(t) != 1:
                        raise Misfit("an object is judged by %d rows of the table" % (len(t) if isinstance(t, Table) else 0))
                    rows.append({k: v[0] for k, v in t.cols.items()})
                    return rows[-1]["label"] in keep
                return None
            try:
                v = pyq.ev(it.ret, {par("object_map_s1"): s1, par("object_map_s2"): s2, par("s1_info"): Table({"label": u, "mean_intensity": [mean[k] for k in u]}), par("classification_map"): cmap,
                                    par("uniform_threshold"): None, par("uniform_sizeslope"): None, par("parameters"): None}, tools(it, own))
            except Misfit as ex:
                r.bad("stats", name + ":" + sel, str(ex), w0)
                continue
            except pipe.FAIL as ex:
                r.undecided("stats", name + ":" + sel, "change map not closed: %s" % str(ex)[:80], w0)
                continue
            bad = None
            for row in rows:
                k = row["label"]
                if k == 0:
                    continue
                w = {"mean_intensity": mean[k], "npixels": (s2 == s2[s1 == k][0]).sum(), "mode": 255 if cmap is None else mode(cmap[s1 == k])}
                for c in w:
                    if c not in row or not abs(float(row[c]) - float(w[c])) <= 1e-9:
                        bad = bad or "object %d is judged with %s %s, its own is %s" % (k, {"mean_intensity": "mean magnitude", "npixels": "patch size", "mode": "land class"}[c], row.get(c), w[c])
            miss = [k for k in u if k and k not in {q["label"] for q in rows}]
            if bad is None and miss:
                bad = "the objects %s are never judged" % miss
            want = np.isin(s1, list(keep)).astype(int)
            if bad is None and not (np.shape(v) == s1.shape and (np.asarray(v) == want).all()):
                bad = "the marked pixels are not those of the change objects"
            r.check(bad is None, "stats", name + ":" + sel, bad or "", w0)
    r.floor("stats", 4)


main("C31", run, explanation="The arrays handed to the segmentation, its substituted magnitudes and dates, object statistics, change map and stored break dates are turned into terms by value numbering and evaluated on tagged maps; the image segmentation itself is left opaque")
