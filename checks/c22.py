"""C22 training and prediction use the same features of each pixel."""
import datetime
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
import world
from pipe import par
from report import main

K = "pycold.pyclassifier."
H = K + "PyClassifierHPC."
YEARS = [2001, 2000, 2005]
NAMES = ["a1", "c1", "rmse"]
BANDS = 2
FILL = -9999.0
MIXED = -77777.0
DT = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32)])
JULY = {datetime.date(y, 7, 1).toordinal(): y for y in range(1980, 2030)}
Y = re.compile(r"year(\d+)_block(\d+)\.npy$")
C = re.compile(r"classification(\d+|now)_block(\d+)\.npy$")


def feature(pos, band, name, year):
    """a number that tells the pixel, band, coefficient and year apart"""
    return float(((pos * 10 + band) * 20 + NAMES.index(name)) * 40 + year - 1990)


def tell(v):
    if v == MIXED:
        return "features of the records of several pixels, or of none"
    v = int(round(v))
    return "band %d, %s of the pixel %d in %d" % (v // 800 % 10, NAMES[v // 40 % 20] if v // 40 % 20 < len(NAMES) else "?", v // 8000, v % 40 + 1990) if v > 0 else "fill"


def tools(load=None, names=None, t=None, it=None, exists=None):
    def extra(x, go):
        if x.op == "call":
            g = P.gid(x.args[0]) or ""
            kw = dict(x.args[2])
            if g.endswith("extract_features"):
                ps = {int(q) for q in np.atleast_1d(go(kw["cold_plot"]))["pos"]}
                if len(ps) != 1:
                    return [np.full(len(go(kw["ordinal_day_list"])), MIXED) for n in go(kw["feature_outputs"])]
                return [np.array([feature(min(ps), int(go(kw["band"])), n, JULY.get(int(d), 1991)) for d in go(kw["ordinal_day_list"])]) for n in go(kw["feature_outputs"])]
            if g in ("numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones"):
                s = go(x.args[1][0] if x.args[1] else kw["shape"])
                return np.full(s, float(go(x.args[1][1] if len(x.args[1]) > 1 else kw["fill_value"])) if g == "numpy.full" else 0.0)
            if g.endswith("generate_sample_num"):
                return np.array(COUNT)
            if exists is not None and g in ("os.path.exists", "os.path.isfile"):
                return exists(go(x.args[1][0]))
            if g == "numpy.random.choice":
                a = go(x.args[1][0])
                n = int(go(x.args[1][1] if len(x.args[1]) > 1 else kw["size"]))
                return draw(a, n, x, go)
            if g == "numpy.array" and x.args[1]:
                return np.array(go(x.args[1][0]))
            if g == "numpy.all" and "axis" in kw:
                return np.all(go(x.args[1][0]), axis=go(kw["axis"]))
            if g in ("numpy.random.default_rng", "numpy.random.RandomState"):
                return RNG
            if x.args[0].op in ("attr", "bound"):
                m = x.args[0].args[1]
                if m == "predict" and len(x.args[1]) == 1:
                    return np.asarray(go(x.args[1][0]))[:, 0].copy()
                if m in ("choice", "permutation"):
                    a = go(x.args[1][0])
                    n = int(go(x.args[1][1])) if len(x.args[1]) > 1 else int(go(kw["size"])) if "size" in kw else None
                    return draw(a, n, x, go) if m == "choice" else np.asarray(np.arange(a) if np.ndim(a) == 0 else a)[::-1]
        if x.op == "listmul":
            return list(go(x.args[0])) * int(go(x.args[1]))
        return None
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(t, load, names, extra)), None)

    def top(x, go):
        v = extra(x, go)
        return v if v is not None else h(x, go)
    return top


class RNG:
    pass


def draw(a, n, x, go):
    """some sample: without replacement all different, with it the same one again and again"""
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    rep = dict(x.args[2]).get("replace", x.args[1][2] if len(x.args[1]) > 2 else None)
    return a[::-1][:n] if rep is not None and not go(rep) else a[np.zeros(1 if n is None else n, dtype=int)]


COUNT = [2, 1, 0, 3, 0, 1, 0, 1]


def tile():
    return pipe.Tile(2, 3, 3, 2)


def inblock(t, b):
    """1-based numbers of the block's pixels, row by row"""
    return arrays.Grid(t).block((b - 1) % t.n_block_x + 1, (b - 1) // t.n_block_x + 1).ravel() + 1


def run(r):
    r.rule("row", "the stored feature row of a block pixel and year holds, band by band in the order of the feature list, that pixel's own features at July 1 of that year; pixels without records hold fill")
    r.rule("sample", "each training row pairs the features of a pixel with that pixel's own label, as many per class as asked for, out of the whole tile")
    r.rule("count", "samples per class: proportional to the class area, kept between the minimum and the maximum, never more than the pixels of that class")
    r.rule("trained", "the model is trained on the feature files of the reference year, assembled block by block, against the label map")
    r.rule("class", "the class of a block pixel is predicted from its own feature row, 255 where the whole row is fill")
    r.rule("stage", "the class map saved for a year and block is predicted from the feature file of that year and block")
    pkg = P.Package()
    rows(r, pkg)
    samples(r, pkg)
    counts(r, pkg)
    trained(r, pkg)
    classes(r, pkg)
    stages(r, pkg)


def interp(pkg, f, stop=(), **params):
    it = P.Interp(pkg, stop=set(stop))
    it.small_unroll = True
    it.fail = (lambda g: False, "")
    it.run(f, args={k: P.C(v) for k, v in params.items()})
    return it


def rows(r, pkg):
    f = H + "step1_feature_generation"
    it = interp(pkg, f, {K + "extract_features"})
    t = tile()
    saves = [e for e in it.events if e.kind == "call" and P.gid(e.f) == "numpy.save"]
    if not saves:
        r.undecided("row", "save", "no feature file is saved", f)
    for b in (1, 2, 3, 6) if r.tier != "thorough" else range(1, 7):
        px = inblock(t, b)
        have = [px[0], px[4], px[5], px[2]] if b != 3 else [px[3]]
        rec = np.zeros(2 * len(have), dtype=DT)
        rec["pos"] = np.repeat(have, 2)
        env = {par("block_id"): b, par("year_list_to_predict"): YEARS, par("feature_outputs"): NAMES, par("band_num"): BANDS, par("tmp_path"): "T", par("record_path"): "R", par("logger"): None}
        seen = set()
        for tag, data, want_px in (("records", rec, have), ("empty", rec[:0], []), ("missing", None, [])):
            def load(p, d=data):
                if d is None or not p.endswith("record_change_x%d_y%d_cold.npy" % ((b - 1) % t.n_block_x + 1, (b - 1) // t.n_block_x + 1)):
                    raise pyq.Unknown("no such file")
                return d
            h = tools(load, None, t, it, lambda p, d=data: d is not None if "record" in p else None)
            for e in saves:
                ins = pipe.instances(e, [e.arg(0, "file"), e.arg(1, "arr")], env, h)
                for _, (p, v) in ins or ():
                    m = Y.search(p) if isinstance(p, str) else None
                    if m is None or v is None:
                        continue
                    y, v = int(m[1]), np.asarray(v, dtype=float)
                    seen.add((tag, y))
                    bad = None
                    if v.shape != (t.block_width * t.block_height, BANDS * len(NAMES)):
                        bad = "the feature array of a block has shape %s" % (v.shape,)
                    else:
                        for q in range(v.shape[0]):
                            for c in range(v.shape[1]):
                                want = feature(int(px[q]), c // len(NAMES), NAMES[c % len(NAMES)], y) if px[q] in want_px else FILL
                                if v[q, c] != want and bad is None:
                                    bad = "block %d, file of %d: column %d of pixel %d holds %s, expected %s" % (b, y, c, px[q], tell(v[q, c]), tell(want))
                    r.check(bad is None and int(m[2]) == b, "row", "%s:%d:%d" % (tag, b, y), bad or "features of block %d are saved as %s" % (b, p), e.where())
        for tag in ("records", "empty", "missing"):
            for y in YEARS:
                if (tag, y) not in seen:
                    r.undecided("row", "%s:%d:%d" % (tag, b, y), "feature file not closed", f)


def labels(t):
    rng = np.random.default_rng(5)
    lab = rng.integers(0, 10, (t.n_rows, t.n_cols))
    lab[0, 0], lab[0, 1], lab[5, 5], lab[3, 2], lab[2, 4] = 1, 1, 4, 4, 4
    lab[1, 1], lab[4, 4], lab[2, 1] = 2, 6, 8
    return lab


def samples(r, pkg):
    f = K + "PyClassifier.train_rfmodel"
    it = interp(pkg, f, {K + "generate_sample_num"})
    t = tile()
    lab = labels(t)
    full = np.zeros((t.n_rows, t.n_cols, 2))
    full[:, :, 0] = arrays.Grid(t).full + 1
    full[:, :, 1] = -full[:, :, 0]
    h = tools(None, None, t, it)
    env = {par("label"): lab, par("full_feature_array"): full}
    n = 0
    for e in it.events:
        if e.kind != "call" or e.f.op != "attr" or e.f.args[1] != "fit":
            continue
        ins = pipe.instances(e, [e.arg(0, "X"), e.arg(1, "y")], env, h)
        for _, (X, y) in ins or ():
            if X is None or y is None:
                continue
            n += 1
            X, y = np.asarray(X, dtype=float), np.asarray(y).ravel()
            bad = None
            if X.shape != (len(y), 2):
                bad = "the training array has shape %s for %d labels" % (X.shape, len(y))
            else:
                if (X[:, 1] != -X[:, 0]).any():
                    bad = "a training row mixes features of several pixels"
                for i in range(len(y)):
                    q = int(X[i, 0]) - 1
                    if bad is None and lab.ravel()[q] != y[i]:
                        bad = "the features of pixel %d (label %d) are given the label %d" % (q + 1, lab.ravel()[q], y[i])
                for c in range(8):
                    if bad is None and (y == c + 1).sum() != COUNT[c]:
                        bad = "%d samples of class %d, asked for %d" % ((y == c + 1).sum(), c + 1, COUNT[c])
                if bad is None and len(set(X[:, 0])) != len(y):
                    bad = "a pixel is sampled twice"
            r.check(bad is None, "sample", "fit", bad or "", e.where())
    if not n:
        r.undecided("sample", "fit", "training arrays not closed", f)


def counts(r, pkg):
    f = K + "generate_sample_num"
    it = interp(pkg, f)
    par_ = {"total_samples": 1000, "min_category_samples": 60, "max_category_samples": 400, "total_landcover_category": 8}
    rng = np.random.default_rng(2)
    worlds_ = {
        "mixed": np.repeat([1, 2, 3, 4, 5, 8], [5000, 600, 300, 40, 100, 1]),
        "one": np.repeat([7], [30]),
        "fillers": np.repeat([1, 2, 9, 255], [2000, 3000, 7000, 50]),
        "unlabelled": np.repeat([0, 1, 4], [1500, 500, 500]),
        "unlabelled, all": np.repeat([0, 1, 2, 3, 4, 5, 6, 7, 8], [900, 500, 40, 30, 20, 700, 80, 90, 100]),
    }

    def extra(x, go):
        if x.op == "call":
            g = P.gid(x.args[0]) or ""
            kw = {k: go(v) for k, v in dict(x.args[2]).items() if k in ("return_counts", "minlength", "axis")}
            if g in ("numpy.unique", "numpy.bincount", "numpy.minimum", "numpy.maximum", "numpy.clip", "numpy.round", "numpy.rint"):
                return getattr(np, g[6:])(*[go(y) for y in x.args[1]], **kw)
            if g in ("sum", "round", "numpy.sum"):
                v = [go(y) for y in x.args[1]]
                return np.sum(v[0]) if "sum" in g else round(*v)
            if g == "numpy.array":
                return np.array(go(x.args[1][0]))
            if g == "numpy.zeros":
                return np.zeros(go(x.args[1][0]), dtype=int)
        if x.op == "listmul":
            return list(go(x.args[0])) * int(go(x.args[1]))
        if x.op == "sub" and x.args[1].op == "const" and x.args[1].args[0] in par_ and x.args[0] is par("sample_parameters"):
            return par_[x.args[1].args[0]]
        return None
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(tile(), None, None, extra)), None)

    def top(x, go):
        v = extra(x, go)
        return v if v is not None else h(x, go)
    for name, lab in worlds_.items():
        rng.shuffle(lab)
        cnt = np.array([(lab == k).sum() for k in range(1, 9)])
        want = np.minimum(np.clip([round(c * 1000 / cnt.sum()) for c in cnt], 60, 400), cnt)
        try:
            v = pyq.ev(it.ret, {par("label"): lab, par("sample_parameters"): par_}, top)
        except pipe.FAIL:
            r.undecided("count", name, "value not closed", f)
            continue
        r.check(np.shape(v) == (8,) and (np.asarray(v) == want).all(), "count", name, "class areas %s give %s samples, expected %s" % (cnt.tolist(), np.asarray(v).tolist(), want.tolist()), f)


def block_features(t, year, b):
    px = inblock(t, b)
    return np.array([[feature(int(q), c // len(NAMES), NAMES[c % len(NAMES)], year) for c in range(BANDS * len(NAMES))] for q in px])


def trained(r, pkg):
    f = H + "step2_train_rf"
    it = interp(pkg, f, {K + "PyClassifier.train_rfmodel"})
    t = tile()
    lab = labels(t)
    names = lambda d: ["tmp_step1_predict_1_finished.txt", "rf.model"] + ["tmp_feature_year%d_block%d.npy" % (y, b) for y in (2005, 2001, 2000) for b in (2, 6, 1, 5, 4, 3)] + [
        "tmp_yearlyclassification2001_block1.npy"]

    def load(p):
        m = Y.search(p)
        return block_features(t, int(m[1]), int(m[2])) if m else lab
    h = tools(load, names, t, it)
    n = 0
    for e in it.events:
        if e.kind != "call" or not (P.gid(e.f) or "").endswith("train_rfmodel"):
            continue
        a, l = e.arg(0, "full_feature_array"), e.arg(1, "label")
        if a is None:
            kw = dict(e.kw)
            a, l = kw.get("full_feature_array"), kw.get("label")
        env = {par("year_list_to_predict"): YEARS, par("feature_outputs"): NAMES, par("band_num"): BANDS, par("tmp_path"): "T", par("ref_year"): 2001, par("seedmap_path"): "SEED.tif", par("logger"): None,
               par("rf_path"): None}
        ins = pipe.instances(e, [a, l], env, h)
        for _, (v, w) in ins or ():
            if v is None:
                continue
            n += 1
            v = np.asarray(v, dtype=float)
            bad = None
            if v.shape != (t.n_rows, t.n_cols, BANDS * len(NAMES)):
                bad = "the tile's feature array has shape %s" % (v.shape,)
            else:
                for q in range(t.n_rows * t.n_cols):
                    i, j = divmod(q, t.n_cols)
                    for c in range(v.shape[2]):
                        want = feature(q + 1, c // len(NAMES), NAMES[c % len(NAMES)], 2001)
                        if v[i, j, c] != want and bad is None:
                            bad = "row %d, column %d of the training features holds %s, expected %s" % (i, j, tell(v[i, j, c]), tell(want))
            r.check(bad is None, "trained", "features", bad or "", e.where())
            if w is not None:
                r.check(np.shape(w) == lab.shape and (np.asarray(w) == lab).all(), "trained", "labels", "the labels given to the training are not the label map", e.where())
    if not n:
        r.undecided("trained", "features", "training features not closed", f)


def classes(r, pkg):
    f = K + "PyClassifier.classification_block"
    it = interp(pkg, f)
    t = tile()
    X = np.array([[7.0 + k, k * 3.0, FILL] for k in range(6)])
    X[1] = FILL
    X[4] = [FILL, 5.0, FILL]
    h = tools(None, None, t, it)
    try:
        v = np.asarray(pyq.ev(it.ret, {par("tmp_feature"): X, par("rf_model"): "RF"}, h))
    except pipe.FAIL:
        r.undecided("class", "map", "class map not closed", f)
        return
    want = X[:, 0].copy()
    want[1] = 255
    want = want.reshape(t.block_height, t.block_width)
    bad = None
    if v.shape != want.shape:
        bad = "the class map of a block has shape %s" % (v.shape,)
    elif (v != want).any():
        i = tuple(int(q) for q in np.argwhere(v != want)[0])
        k = i[0] * t.block_width + i[1]
        bad = "row %d, column %d of the block is %s, expected %s" % (i + (v[i], "255: its features are all fill" if k == 1 else "the class predicted from feature row %d" % k))
    r.check(bad is None, "class", "map", bad or "", f)


def stages(r, pkg):
    t = tile()
    for m in ("step3_classification", "step3_classification_sccd"):
        f = H + m
        if not pkg.resolve(f):
            continue
        it = interp(pkg, f, {K + "PyClassifier.classification_block"})
        n = 0
        for b in (1, 4):
            env = {par("block_id"): b, par("year_list_to_predict"): YEARS, par("tmp_path"): "T", par("output_path"): "O", par("logger"): None, par("rf_path"): None}
            seen = []

            def extra(x, go):
                if x.op == "call" and (P.gid(x.args[0]) or "").endswith("classification_block"):
                    kw = dict(x.args[2])
                    return ("class", go(kw["tmp_feature"]))
                return None
            h0 = tools(lambda p: ("file", p), None, t, it)

            def h(x, go):
                v = extra(x, go)
                return v if v is not None else h0(x, go)
            for e in it.events:
                if e.kind != "call" or P.gid(e.f) != "numpy.save":
                    continue
                for _, (p, v) in pipe.instances(e, [e.arg(0, "file"), e.arg(1, "arr")], env, h) or ():
                    g = C.search(p) if isinstance(p, str) else None
                    if g is None or v is None:
                        continue
                    n += 1
                    ok = isinstance(v, tuple) and v[0] == "class" and isinstance(v[1], tuple) and re.search(r"_(?:year)?%s_block%d\.npy$" % (g[1], b), v[1][1]) and int(g[2]) == b
                    r.check(bool(ok), "stage", "%s:%d:%s" % (m, b, g[1]), "%s is made of %s" % (p, v[1] if isinstance(v, tuple) else v), e.where())
        if not n:
            r.undecided("stage", m, "saved class map not closed", f)


main("C22", run, explanation="The stored feature array, the training arrays and the class map are turned into terms by value numbering and evaluated on tiles whose every pixel, band, coefficient and year is told apart")
