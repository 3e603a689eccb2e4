"""C28 options reach the analysis they belong to, with the value the user gave."""
import ast
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
import world
from pipe import par
from report import main

CONSE, INTERVAL, PROB = 5, 45, 0.875
NEED = {"cold_detect": ("conse", "t_cg", "b_c2"), "sccd_detect": ("conse", "t_cg", "b_c2"), "obcold_reconstruct": ("conse", "b_c2")}
NEED_CM = ("starting_date", "n_cm", "cm_output_interval", "b_output_cm")


def is_g(f, name):
    g = P.gid(f) or ""
    return g == name or g.endswith("." + name)


def bind(pkg, dotted, e):
    """parameter -> term of a call to a function of the package; defaults as terms"""
    res = pkg.resolve(dotted)
    if not res or res[0] != "func":
        return None
    a = res[1].node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            out[n] = P.C(d.value)
    for n, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant):
            out[n.arg] = P.C(d.value)
    for n, t in zip(names, e.args):
        out[n] = t
    out.update(e.kw)
    return out


def leaf(inner):
    """chi-square quantiles as a tag, probability of the configuration, casts of decided values"""
    def h(x, go):
        if x.op == "call" and is_g(x.args[0], "chi2.ppf"):
            kw = dict(x.args[2])
            a = [go(y) for y in x.args[1]]
            return ("chi2",) + tuple(a) + tuple(go(kw[k]) for k in ("q", "df") if k in kw)
        if x.op == "sub" and P.is_const(x.args[1], "probability_threshold"):
            return PROB
        if x.op == "exc":
            return False
        return inner(x, go)
    return h


def run(r):
    r.rule("detector", "consecutive-observation count, change probability (as the chi-square quantile with 5 degrees of freedom), Collection-2 flag and, for OB-COLD, the grid of change-magnitude maps, "
           "given to a detector are the user's")
    r.rule("report", "the tile report states the options that were used")
    r.rule("forward", "an option handed on by a stage arrives under its own name with the user's value")
    r.rule("images", "an image is stacked exactly if its share of clear and water pixels among the filled ones exceeds the clear threshold and its date lies inside the inclusive bounds")
    r.rule("range", "the recorded first and last date are those of the images, cut to the bounds")
    r.rule("objects", "an object is a change object exactly if its scaled mean change magnitude exceeds the threshold of its own land class, by the size slope of that class; uniform values given replace them")
    pkg = P.Package()
    detectors(r, pkg)
    forwards(r, pkg)
    images(r, pkg)
    dates(r, pkg)
    objects(r, pkg)
    r.floor("detector", 8)
    r.floor("forward", 10)
    r.floor("images", 4)
    r.floor("objects", 8)


def detectors(r, pkg):
    tile = pipe.Tile(2, 1, 2, 3, interval=INTERVAL, conse=CONSE)
    for m in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        it = pipe.stage(pkg, pipe.T + "tile_processing.main", method=m)
        seen = set()
        for flag in (True, False):
            env = {par("b_c2"): flag, par("rank"): 1, par("n_cores"): 1, par("stack_path"): "S", par("result_path"): "R", par("yaml_path"): "Y"}
            h = leaf(pipe.hook(tile))
            for e in it.events:
                if e.kind != "call":
                    continue
                g = (P.gid(e.f) or "").split(".")[-1]
                if g not in NEED or not P.gid(e.f).startswith("pycold."):
                    continue
                b = bind(pkg, "pycold.colds." + g, e)
                if b is None:
                    continue
                want = {"conse": CONSE, "t_cg": ("chi2", PROB, 5), "b_c2": flag, "starting_date": tile.first, "n_cm": tile.n_cm, "cm_output_interval": INTERVAL, "b_output_cm": True}
                need = NEED[g] + (NEED_CM if m == "OBCOLD" and g == "cold_detect" else ())
                for k in need:
                    if k == "n_cm" and k not in b:
                        continue
                    name = "%s:%s:%s" % (m, g, k)
                    if k not in b:
                        r.check(False, "detector", name, "%s: %s is run without the user's %s" % (m, g, k), e.where())
                        continue
                    ins = pipe.instances(e, [b[k]], env, h)
                    vals = {v for _, (v,) in ins} if ins else {pipe.value(b[k], env, h)}
                    if (None in vals or not vals) and k in NEED_CM and P.contains(b[k], lambda x: x.op == "call" and P.gid(x.args[0]) in ("os.listdir", "os.scandir", "glob.glob", "numpy.load")):
                        r.check(False, "detector", name, "%s: %s gets a %s that depends on the images of the block or the pixel; the change-magnitude maps of a tile share one grid" % (m, g, k), e.where())
                        continue
                    if None in vals or not vals:
                        r.undecided("detector", name, "value not closed", e.where())
                        continue
                    bad = next((v for v in vals if v != want[k] and not (isinstance(v, bool) and v == want[k])), None) if len(vals) else None
                    r.check(vals == {want[k]}, "detector", name, "%s: %s gets %s=%s where the user set %s" % (m, g, k, bad, want[k]), e.where())
                    seen.add(g)
        # the report
        labels = {"Change probability threshold": PROB, "Conse": CONSE}
        for e in it.events:
            if e.kind == "call" and e.f.op in ("attr", "bound") and e.f.args[1] in ("write", "writelines") and e.args:
                v = pipe.value(e.args[0], env, h)
                for k, w in labels.items():
                    if isinstance(v, str) and v.startswith(k + ":"):
                        r.check(v.split(":", 1)[1].strip() == str(w), "report", "%s:%s" % (m, k), "the report of a %s run states %r where the user set %s" % (m, v.strip(), w), e.where())


# stage -> (runs, functions whose calls are looked at, options)
STACKERS = ["single_image_stacking", "single_image_stacking_hls", "single_image_stacking_hls14", "single_image_stacking_collection2"]


def forwards(r, pkg):
    opts = {"clear_threshold": 0.375, "low_date_bound": "2001-02-03", "upp_date_bound": "2004-05-06", "is_partition": False, "source_dir": "SRC/h030v006", "out_dir": "OUT"}
    pa = pipe.T + "prepare_ard."
    for coll in ("ARD", "ARD-C2", "C2", "HLS", "HLS14"):
        it = P.Interp(pkg, stop={pa + s for s in STACKERS})
        it.fail = (lambda g: False, "")
        it.run(pa + "main", args={"collection": P.C(coll), "rank": P.C(2), "hpc": P.C(True), "single_path": P.C(False)})
        env = {par(k): v for k, v in opts.items()}
        n = 0
        for e in it.events:
            if e.kind != "call" or not any(is_g(e.f, s) for s in STACKERS):
                continue
            n += 1
            b = bind(pkg, pa + (P.gid(e.f) or "").split(".")[-1], e) or {}
            want = {k: v for k, v in opts.items() if k in b or k not in ("source_dir",)}
            if coll in ("ARD", "ARD-C2"):
                want["b_c2"] = coll == "ARD-C2"
            same(r, "prepare_ard:" + coll, e, b, want, env, leaf(pipe.hook(pipe.Tile(1, 1, 2, 3))))
        r.check(n > 0, "forward", "prepare_ard:" + coll, "no image of a %s collection is stacked" % coll, pa + "main")
    # object analysis
    oa = "pycold.ob_analyst."
    opts = {"floodfill_ratio": 0.125, "uniform_threshold": 33.5, "uniform_sizeslope": 0.0625}
    env = {par(k): v for k, v in opts.items()}
    env[par("date")] = 724000
    for meth in ("floodfill",):
        for thematic in ("TH", None):
            it = P.Interp(pkg, stop={oa + s for s in ("segmentation_floodfill", "segmentation_slic", "segmentation_watershed", "object_analysis", "is_change_object")})
            it.run(oa + "ObjectAnalystHPC.obia_execute", args={"method": P.C(meth)})
            env[par("thematic_path")] = thematic
            h = leaf(pipe.hook(None))
            for e in it.events:
                if e.kind == "call" and is_g(e.f, "segmentation_floodfill"):
                    same(r, "obia_execute:segmentation", e, bind(pkg, oa + "segmentation_floodfill", e) or {}, {"floodfill_ratio": 0.125}, env, h)
                if e.kind == "call" and is_g(e.f, "object_analysis"):
                    b = bind(pkg, oa + "object_analysis", e) or {}
                    tag = "obia_execute:" + ("classified" if b.get("classification_map") is not None and not P.is_const(b["classification_map"], None) else "unclassified")
                    same(r, tag, e, b, {k: opts[k] for k in ("uniform_threshold", "uniform_sizeslope")}, env, h)
    it = P.Interp(pkg, stop={oa + "is_change_object"})
    it.run(oa + "object_analysis")
    env = {par(k): v for k, v in opts.items()}
    env[par("parameters")] = {"marker": 1}
    env[par("classification_map")] = "CLS"
    for e in it.events:
        if e.kind == "call" and is_g(e.f, "is_change_object"):
            same(r, "object_analysis", e, bind(pkg, oa + "is_change_object", e) or {},
                 {"uniform_threshold": 33.5, "uniform_sizeslope": 0.0625, "classification_map": "CLS", "parameters": {"marker": 1}}, env, leaf(pipe.hook(None)))


def same(r, tag, e, b, want, env, h):
    for k, w in want.items():
        name = "%s:%s" % (tag, k)
        if k not in b:
            r.check(False, "forward", name, "%s: the call of %s leaves out the user's %s" % (tag, (P.gid(e.f) or "?").split(".")[-1], k), e.where())
            continue
        v = pipe.value(b[k], env, h)
        if v is None and not P.is_const(b[k], None):
            r.undecided("forward", name, "value not closed", e.where())
            continue
        r.check(v == w and type(v) == type(w), "forward", name, "%s: %s gets %s=%r where the user set %r" % (tag, (P.gid(e.f) or "?").split(".")[-1], k, v, w), e.where())


# 3 clear and 2 water of 8 filled pixels, 12 of 20 pixels are fill
QA = np.array([0, 0, 0, 1, 1, 2, 3, 4] + [255] * 12).reshape(4, 5)
SHARE = 5 / 8
IMAGES = [  # function, parameters, name of the image, its date
    ("single_image_stacking", {"b_c2": False}, "LC08_CU_030006_20200716_20200911_C01_V01_SR", "2020-07-16"),
    ("single_image_stacking", {"b_c2": True}, "LE07_CU_030006_20001231_20200911_02_SR", "2000-12-31"),
    ("single_image_stacking_hls", {}, "HLS.L30.T18TYM.2020060T153249.v2.0", "2020-02-29"),
    ("single_image_stacking_hls14", {}, "D/HLS.S30.T18TYM.2019001.v1.4.hdf", "2019-01-01"),
    ("single_image_stacking_collection2", {}, "LT05_L2SP_013031_20080229_20200911_02_T1", "2008-02-29"),
]


def shift(day, k):
    import datetime
    return str(datetime.date.fromisoformat(day) + datetime.timedelta(k))


def images(r, pkg):
    for fn, params, folder, day in IMAGES:
        for part in (True, False):
            it = P.Interp(pkg, stop={pipe.T + "prepare_ard.qabitval_array" + s for s in ("", "_c2", "_HLS")})
            it.fail = (lambda g: False, "")
            it.run(pipe.T + "prepare_ard." + fn, args={**{k: P.C(v) for k, v in params.items()}, "is_partition": P.C(part)})
            tag = "%s%s%s" % (fn, ":c2" if params.get("b_c2") else "", ":blocks" if part else "")
            tile = pipe.Tile(1, 1, 5, 4)

            def extra(x, go):
                if x.op == "call" and "qabitval_array" in (P.gid(x.args[0]) or ""):
                    return QA
                if x.op == "call" and P.gid(x.args[0]) == "os.path.isdir":
                    return True
                if x.op == "cmp" and any(P.is_const(y, None) for y in x.args[1:]):
                    o = [y for y in x.args[1:] if not P.is_const(y, None)]
                    if o and any(q.op == "call" and (is_g(q.args[0], "LoadFile") or is_g(q.args[0], "Warp") or is_g(q.args[0], "Open") or is_g(q.args[0], "full")) for q in P.walk(o[0])):
                        return x.args[0] in ("is not", "!=")
                return None
            h = world.hook(it, arrays.hook(tile, None, None, extra))
            saves = [e for e in it.events if e.kind == "call" and P.gid(e.f) == "numpy.save"]
            cases = [(0.6, None, None, True, "a clear share of %.3f with the threshold 0.6" % SHARE), (0.65, None, None, False, "a clear share of %.3f with the threshold 0.65" % SHARE),
                     (0.3, None, None, True, "a clear share of %.3f with the threshold 0.3" % SHARE), (0, None, None, True, "no threshold"),
                     (0, day, None, True, "a lower bound on its own date"), (0, None, day, True, "an upper bound on its own date"),
                     (0, shift(day, 1), None, False, "a lower bound a day after its date"), (0, None, shift(day, -1), False, "an upper bound a day before its date"),
                     (0, shift(day, -1), shift(day, 1), True, "bounds around its date"), (0.6, shift(day, -40), shift(day, 40), True, "all options together")]
            for thr, lo, up, want, what in cases:
                env = {par("clear_threshold"): thr, par("low_date_bound"): lo, par("upp_date_bound"): up, par("folder"): folder, par("tmp_path"): "T", par("source_dir"): "S", par("out_dir"): "O"}
                live, unknown = [], False
                for e in saves:
                    st = True
                    for c, p in e.guards:
                        v = pipe.truth(c, env, h)
                        if v is None:
                            if any(x.op == "param" and x.args[0] in ("clear_threshold", "low_date_bound", "upp_date_bound") for x in P.walk(c)):
                                st = None
                            continue
                        if v != p:
                            st = False
                            break
                    if st is None:
                        unknown = True
                    elif st:
                        live.append(e)
                name = "%s:%s" % (tag, what)
                if unknown and not live:
                    r.undecided("images", name, "condition not closed", saves[0].where() if saves else "")
                    continue
                if unknown and not want:
                    r.undecided("images", name, "condition not closed", saves[0].where())
                    continue
                r.check(bool(live) == want, "images", name, "%s: an image of %s is %s with %s" % (tag, day, "stacked" if live else "left out", what),
                        (live or saves)[0].where() if saves else pipe.T + "prepare_ard." + fn)


def dates(r, pkg):
    names = {"ARD": ["LE07_CU_030006_20010402_20200911_C01_V01_SR.tar", "LC08_CU_030006_20200716_20200911_C01_V01_SR.tar", "LT05_CU_030006_20000229_20200911_C01_V01_SR.tar"],
             "C2": ["LE07_L2SP_013031_20010402_20200911_02_T1.tar", "LT05_L2SP_013031_20000229_20200911_02_T1.tar", "LC08_L2SP_013031_20200716_20200911_02_T1.tar"],
             "HLS": ["HLS.L30.T18TYM.2001092T153249.v2.0", "HLS.L30.T18TYM.2000060T153249.v2.0", "HLS.S30.T18TYM.2020198T153249.v2.0"]}
    import datetime
    o = lambda s: datetime.date.fromisoformat(s).toordinal()
    first, last = o("2000-02-29"), o("2020-07-16")
    for coll, ls in names.items():
        it = P.Interp(pkg, stop={pipe.T + "prepare_ard." + s for s in STACKERS})
        it.fail = (lambda g: False, "")
        it.run(pipe.T + "prepare_ard.main", args={"collection": P.C(coll), "rank": P.C(1), "hpc": P.C(False), "single_path": P.C(False)})
        tile = pipe.Tile(1, 1, 2, 3)
        ws = [e for e in it.events if e.kind == "call" and e.f.op in ("attr", "bound") and e.f.args[1] in ("writelines", "write")]
        for lo, up, want in ((None, None, (first, last)), ("2001-02-03", "2019-05-06", (o("2001-02-03"), o("2019-05-06"))), ("1990-01-01", "2030-01-01", (first, last))):
            env = {par("low_date_bound"): lo, par("upp_date_bound"): up, par("source_dir"): "S", par("out_dir"): "O"}

            def extra(x, go):
                if x.op == "call" and P.gid(x.args[0]) in ("numpy.max", "numpy.min") and len(x.args[1]) == 1 and not x.args[2]:
                    return (max if P.gid(x.args[0]).endswith("max") else min)(go(x.args[1][0]))
                return None
            h = leaf(pipe.listing(lambda d: ls if d is not None else ls, pipe.hook(tile, extra)))
            got = []
            for e in ws:
                if not any(pipe.truth(c, env, h) is not None and pipe.truth(c, env, h) != p for c, p in e.guards):
                    v = pipe.value(e.args[0], env, h)
                    if isinstance(v, str) and v.strip().isdigit():
                        got.append(int(v))
                    elif v is None:
                        got.append(None)
            name = "%s:%s..%s" % (coll, lo, up)
            if None in got or len(got) != 2:
                r.undecided("range", name, "recorded dates not closed (%d)" % len(got), ws[0].where() if ws else "")
                continue
            r.check(tuple(got) == want, "range", name, "%s: images from %d to %d with the bounds %s and %s are recorded as %s, expected %s" % (coll, first, last, lo, up, got, list(want)), ws[0].where())


def objects(r, pkg):
    f = "pycold.ob_analyst.is_change_object"
    it = P.Interp(pkg)
    it.run(f)
    ret = it.ret
    par_ = {"default_sizeslope": 0.31, "default_threshold": 12.0}
    for k in range(1, 9):
        par_["C%d_sizeslope" % k] = 0.05 * k + 0.01
        par_["C%d_threshold" % k] = 9.0 + 3 * k

    def hook(x, go):
        if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str):
            b = go(x.args[0])
            return b[x.args[1].args[0]] if isinstance(b, dict) else None
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.log10", "math.log10"):
            return float(np.log10(go(x.args[1][0])))
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.double", "numpy.float64"):
            return float(go(x.args[1][0]))
        if x.op == "call" and P.gid(x.args[0]) in ("min", "max", "numpy.minimum", "numpy.maximum", "numpy.min", "numpy.max"):
            a = [go(y) for y in x.args[1]]
            return (min if "min" in P.gid(x.args[0]) else max)(*a)
        return None
    for cls, cmap, uni in [(255, None, None)] + [(k, "C", None) for k in (255,) + tuple(range(1, 9))] + [(3, "C", (21.0, 0.21)), (255, "C", (21.0, 0.21))]:
        thr, slope = uni if uni else (par_["default_threshold"], par_["default_sizeslope"]) if cls == 255 else (par_["C%d_threshold" % cls], par_["C%d_sizeslope" % cls])
        name = "class %s%s%s" % (cls, "" if cmap else " without map", " uniform" if uni else "")
        bad, open_ = None, False
        for n in (1, 7, 250, 10 ** 4, 10 ** 5, 10 ** 7):
            scale = min(np.log10(n) * slope + 0.95, 2)
            for f_, want in ((0.995, False), (1.005, True)):
                row = {"npixels": n, "mode": cls, "mean_intensity": f_ * thr / scale}
                env = {par("stats_lut_row"): row, par("keyword"): "mean_intensity", par("classification_map"): cmap, par("parameters"): par_,
                       par("uniform_threshold"): uni[0] if uni else None, par("uniform_sizeslope"): uni[1] if uni else None}

                def hk(x, go, row=row):
                    if x.op == "sub" and x.args[1] is par("keyword"):
                        b = go(x.args[0])
                        return b[go(x.args[1])] if isinstance(b, dict) else None
                    return hook(x, go)
                try:
                    v = pyq.ev(ret, env, hk)
                except pipe.FAIL:
                    open_ = True
                    continue
                if bool(v) != want and bad is None:
                    bad = "an object of %d pixels of class %s with %.3f of the change magnitude needed is %s" % (n, cls, f_, "taken as change" if v else "left out")
        if open_ and bad is None:
            r.undecided("objects", name, "decision not closed", f)
        else:
            r.check(bad is None, "objects", name, bad or "", f)


main("C28", run, explanation="Option values followed from the command line and the parameter file to the calls and conditions that use them (inlined effect trace), evaluated with option values that all differ "
     "from each other and from every default")
