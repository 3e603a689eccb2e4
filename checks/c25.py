"""C25 raster outputs have the tile's grid: width, height, data type, georeference."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
import pyq
import world
from pipe import par
from report import main

# values a GDAL type holds without loss
HOLDS = {"GDT_Byte": ("uint8", "bool"), "GDT_Int16": ("int16", "uint8", "int8", "bool"), "GDT_UInt16": ("uint16", "uint8", "bool"), "GDT_Int32": ("int32", "int16", "uint16", "uint8", "int8", "bool"),
         "GDT_UInt32": ("uint32", "uint16", "uint8", "bool"), "GDT_Float32": ("float32", "int16", "uint16", "uint8", "int8", "bool"),
         "GDT_Float64": ("float64", "float32", "int32", "uint32", "int16", "uint16", "uint8", "int8", "bool")}
REF = "REF.tif"
TRANS = (1000.0, 30.0, 0.0, 5000.0, 0.0, -30.0)
T = pipe.Tile(2, 3, 4, 5)       # 8 columns, 15 rows


def is_g(f, name):
    g = P.gid(f) or ""
    return g == name or g.endswith("." + name)


def path_of(o, go):
    try:
        return go(o.args[1][0])
    except pipe.FAIL:
        return None


def ref_hook(inner, shapes):
    """gdal.Open(path).X; shapes: path -> (columns, rows)"""
    def opened(x):
        while x.op in ("attr", "call", "bound"):
            if x.op == "call" and is_g(x.args[0], "gdal.Open"):
                return x
            x = x.args[0]
        return None

    def h(x, go):
        if x.op == "attr" and x.args[1] in ("RasterXSize", "RasterYSize"):
            o = opened(x)
            if o is not None:
                return shapes(path_of(o, go))[0 if x.args[1] == "RasterXSize" else 1]
        if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] in ("GetGeoTransform", "GetProjection", "GetProjectionRef", "ReadAsArray"):
            o = opened(x)
            if o is not None:
                p, m = path_of(o, go), x.args[0].args[1]
                if m == "ReadAsArray":
                    return np.zeros(shapes(p)[::-1])
                return Geo(("trans", p)) if m == "GetGeoTransform" else ("proj", p)
        if x.op == "call" and P.gid(x.args[0]) == "numpy.indices":
            return np.indices(tuple(go(x.args[1][0])))
        if x.op == "exc":
            return False
        if x.op == "call" and x.args[0].op in ("attr", "bound", "glob") and (x.args[0].args[1] if x.args[0].op != "glob" else x.args[0].args[0]).split(".")[-1] == "bcast" and x.args[1]:
            try:
                v = inner(x, go)
            except pipe.FAIL:
                v = None
            return go(x.args[1][0]) if v is None else v
        return inner(x, go)
    return h


class Geo(tuple):
    """a geotransform that knows where it came from"""
    def __new__(cls, tag):
        o = tuple.__new__(cls, TRANS)
        o.tag = tag
        return o


def create_of(n):
    while n is not None and n.op in ("call", "attr", "bound"):
        if n.op == "call" and n.args[0].op in ("attr", "bound") and n.args[0].args[1] == "Create":
            return n
        n = n.args[0]
    return None


def method(e):
    return e.f.args[1] if e.kind == "call" and e.f.op in ("attr", "bound") else None


def active(e, env, h):
    for c, p in e.guards:
        v = pipe.truth(c, env, h)
        if v is not None and v != p:
            return False
    return True


def dtypes(x):
    """names of the element types an array term can have"""
    out = set()
    for y in P.walk(x):
        if y.op == "call" and P.gid(y.args[0]) in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty"):
            d = dict(y.args[2]).get("dtype")
            out.add((P.gid(d) or "").split(".")[-1] if d is not None else "float64")
    return out


def saved(it, env, h):
    """path -> element types of the arrays saved there"""
    out = {}
    for e in it.events:
        if e.kind == "call" and P.gid(e.f) == "numpy.save":
            for _, (p,) in pipe.instances(e, [e.arg(0, "file")], env, h) or ():
                if isinstance(p, str):
                    out.setdefault(p, set()).update(dtypes(e.arg(1, "arr")))
    return out


def rasters(r, tag, it, env, h, ref, georef, loads=None):
    n = 0
    sv = saved(it, env, h)
    made = []
    for e in it.events:
        if method(e) != "Create" or not active(e, env, h):
            continue
        n += 1
        node = P.Node("call", e.f, tuple(e.args), tuple(e.kw))
        W, H, B, typ = (e.arg(k, nm) for k, nm in ((1, "xsize"), (2, "ysize"), (3, "bands"), (4, "eType")))
        made.append((e, node))
        wr = [w for w in it.events if method(w) == "WriteArray" and same(create_of(w.f), e) and active(w, env, h)]
        name = "%s:%s" % (tag, where_name(e))
        w, hh = pipe.value(W, env, h), pipe.value(H, env, h)
        if w is None or hh is None:
            ins = pipe.instances(e, [W, H], env, h)
            if ins:
                w, hh = ins[0][1]
        shp = None
        arr = None
        for x in wr:
            if loads is not None:
                loads.clear()
            ins = pipe.instances(x, [x.args[0], e.args[0]], env, h)
            for _, (a, _) in ins or ():
                if isinstance(a, np.ndarray):
                    shp = a.shape
                    arr = x
        if shp is None:
            # filled in place: the shape it was made with
            for x in wr:
                b = x.args[0]
                while b.op in ("eta", "mu", "update", "mut"):
                    b = it.loopinfo[b.args[0]]["pre"].get(b.args[1]) if b.op in ("eta", "mu") else b.args[0]
                    if b is None:
                        break
                a = pipe.value(b, env, h) if b is not None else None
                if isinstance(a, np.ndarray):
                    shp, arr = a.shape, x
        if not wr:
            r.check(False, "size", name, "a raster is created but no array is written to it", e.where())
            continue
        if w is None or hh is None or shp is None:
            r.undecided("size", name, "width, height or array shape not closed", e.where())
        else:
            r.check((hh, w) == tuple(shp), "size", name, "the raster is created %d columns wide and %d rows high for an array of %d columns and %d rows"
                    % (w, hh, shp[1], shp[0]) if len(shp) == 2 else "the array written has %d dimensions" % len(shp), e.where())
        if B is not None and B.op == "const":
            r.check(B.args[0] == 1, "size", name + ":bands", "created with %s bands for one array" % B.args[0], e.where())
        g = (P.gid(typ) or "").split(".")[-1] if typ is not None else None
        if typ is not None and typ.op == "param":
            g = None
        if g in HOLDS and arr is not None:
            ds = dtypes(arr.args[0]).union(*[sv.get(p, ()) for p in loads or ()])
            if not ds and tag.startswith("index image"):
                a = pipe.value(arr.args[0], env, h)
                if a is not None:
                    i32 = np.iinfo(np.int32)
                    r.check(g in ("GDT_Int32", "GDT_UInt32", "GDT_Float64") and i32.min <= int(a.max()) <= i32.max, "type", name, "pixel indices above 65535 do not fit %s" % g, e.where())
            elif ds:
                bad = sorted(d for d in ds if d not in HOLDS[g])
                r.check(not bad, "type", name, "an array of %s is stored in a raster of %s" % (", ".join(bad), g), e.where())
            else:
                r.undecided("type", name, "element type not found", e.where())
        if georef:
            for setter, kind in (("SetGeoTransform", "trans"), ("SetProjection", "proj")):
                st = [s for s in it.events if method(s) == setter and same(create_of(s.f), e) and active(s, env, h)]
                vals = set()
                for s in st:
                    v = pipe.value(s.args[0], env, h)
                    vals.add(v.tag if isinstance(v, Geo) else v)
                if st and None in vals:
                    r.undecided("georef", name + ":" + kind, "argument not closed", st[0].where())
                    continue
                r.check(vals == {(kind, ref)}, "georef", name + ":" + kind, "the raster gets %s of %s, expected that of the reference image" % (
                    {"trans": "the geotransform", "proj": "the projection"}[kind], sorted(map(str, vals)) or "nothing"), e.where())
    return n


def same(c, e):
    """the Create call of a dataset is this event"""
    return c is not None and c.args[0] == e.f and tuple(c.args[1]) == tuple(e.args)


def where_name(e):
    s = pipe.pathof(e.args[0]) if e.args else ""
    return str(s)[-60:]


def run(r):
    r.rule("size", "a raster is created with the array's column count as width and row count as height, in one band")
    r.rule("type", "the raster's data type holds every value of the array's element type")
    r.rule("georef", "the raster gets geotransform and projection of the reference image, when one is given")
    r.rule("index", "the index image numbers row and column of every pixel from one, row*10000 + column")
    r.rule("grid", "all bands and the quality band of an image are warped onto the grid of the bounds and resolution asked for; the path raster is warped onto the grid of the image")
    pkg = P.Package()
    shapes = lambda p: (T.n_cols, T.n_rows) if p == REF else (31, 17)
    # break and coefficient maps
    for m in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        for coefs in (None, "a0,c1"):
            if coefs and m == "SCCDOFFLINE":
                continue
            it = P.Interp(pkg, stop=set(pipe.STOP) | {pipe.T + "export_change_map.extract_features"})
            it.small_unroll = True
            it.fail = (lambda g: False, "")
            it.run(pipe.T + "export_change_map.main", args={"method": P.C(m), "coefs": P.C(coefs), "coefs_bands": P.C("5,0")})
            env = {par("out_path"): "O", par("reccg_path"): "R", par("reference_path"): REF, par("yaml_path"): "Y", par("year_lowbound"): 2000, par("year_uppbound"): 2001}
            loads = set()
            load = lambda p, loads=loads: loads.add(p) or np.zeros((T.block_height, T.block_width, 4) if "coef" in p else (T.n_rows, T.n_cols) if p.endswith(".tif") else (T.block_height, T.block_width))
            h = world.hook(it, pipe.mpi(0, 1, ref_hook(arrays.hook(T, load), shapes)), None)
            rasters(r, "export %s%s" % (m, " coefs" if coefs else ""), it, env, h, REF, True, loads)
    # utilities
    for given in (True, False):
        it = P.Interp(pkg)
        it.run("pycold.utils.save_1band_fromrefimage", args={} if given else {"ref_image_path": P.C(None)})
        env = {par("out_path"): "O.tif", par("array"): np.zeros((T.n_rows, T.n_cols))}
        if given:
            env[par("ref_image_path")] = REF
        rasters(r, "save_1band_fromrefimage%s" % ("" if given else " without reference"), it, env, arr_hook(ref_hook(arrays.hook(T), shapes)), REF, given)
    it = P.Interp(pkg)
    it.run("pycold.utils.generate_rowcolimage")
    env = {par("ref_image_path"): REF, par("out_path"): "O.tif"}
    h = arr_hook(ref_hook(arrays.hook(T), shapes))
    rasters(r, "index image", it, env, h, REF, True)
    want = np.add.outer((np.arange(T.n_rows) + 1) * 10000, np.arange(T.n_cols) + 1)
    for w in it.events:
        if method(w) == "WriteArray":
            a = pipe.value(w.args[0], env, h)
            if a is None:
                r.undecided("index", "generate_rowcolimage", "not closed", w.where())
            else:
                ok = a.shape == want.shape and (a == want).all()
                k = None if ok or a.shape != want.shape else tuple(int(q) for q in np.argwhere(a != want)[0])
                r.check(ok, "index", "generate_rowcolimage", "row %d, column %d (from 0) is numbered %d, expected %d" % (k + (a[k], want[k])) if k else "shape %s" % (a.shape,), w.where())
    warps(r, pkg, shapes)
    r.floor("size", 8)
    r.floor("georef", 8)
    r.floor("grid", 2)


def arr_hook(inner):
    def h(x, go):
        if x.op == "attr" and x.args[1] == "shape":
            v = go(x.args[0])
            if isinstance(v, np.ndarray):
                return v.shape
        return inner(x, go)
    return h


def warps(r, pkg, shapes):
    # every band of a Collection-2 image
    it = P.Interp(pkg, stop=pipe.STOP)
    it.run(pipe.T + "prepare_ard.single_image_stacking_collection2")
    env = {par("bounds"): (10.0, 20.0, 30.0, 40.0), par("res"): 17}
    res = None
    h = pipe.hook(T)
    ws = [e for e in it.events if e.kind == "call" and is_g(e.f, "gdal.Warp")]
    for e in ws:
        kw = dict(e.kw)
        if res is None:
            res = pipe.value(kw["xRes"], env, h) if "xRes" in kw else "nothing"
        src = next((y for y in P.walk(e.arg(1)) if y.op == "call" and is_g(y.args[0], "gdal.Open")), None)
        nm = "C2:" + (str(src.args[1][0])[-16:] if src is not None else "?") + (":%d" % ws.index(e))
        if any(k is None for k in kw) or "options" in kw:
            r.undecided("grid", nm, "warp options not closed", e.where())
            continue
        bad = None
        for key, want in (("outputBounds", (10.0, 20.0, 30.0, 40.0)), ("xRes", res), ("yRes", res)):
            v = pipe.value(kw[key], env, h) if key in kw else "nothing"
            if isinstance(v, list):
                v = tuple(v)
            if v is not None and v != want and bad is None:
                bad = "the band is warped with %s=%s, expected %s of the tile" % (key, v, key)
        for key in ("resampleAlg", "targetAlignedPixels", "dstSRS", "width", "height"):
            if (repr(kw.get(key)) != repr(dict(ws[0].kw).get(key))) and bad is None:
                bad = "the band is warped with another %s than the quality band" % key
        fill = 1 if src is not None and "QA" in str(src.args[1][0]) else 0
        for key in ("srcNodata", "dstNodata"):
            v = pipe.value(kw[key], env, h) if key in kw else None
            if v != fill and bad is None:
                bad = "fill value %s=%s, expected %d" % (key, v, fill)
        r.check(bad is None, "grid", nm, bad or "", e.where())
    # the single-path raster
    for coll, name in (("ARD", "B1.tif"), ("ARD-C2", "B1.TIF")):
        it = P.Interp(pkg, stop=pipe.STOP)
        it.fail = (lambda g: False, "")
        it.run(pipe.T + "prepare_ard.main", args={"collection": P.C(coll), "rank": P.C(1), "hpc": P.C(True)})
        ref = lambda p: (T.n_cols, T.n_rows)
        extra = ref_hook(pipe.hook(T), ref)
        for e in it.events:
            if e.kind == "call" and (is_g(e.f, "gdal.WarpOptions") or is_g(e.f, "gdal.Warp")):
                kw = dict(e.kw)
                if "outputBounds" not in kw:
                    continue
                want = {"outputBounds": (TRANS[0], TRANS[3] + TRANS[5] * T.n_rows, TRANS[0] + TRANS[1] * T.n_cols, TRANS[3]), "width": T.n_cols, "height": T.n_rows}
                bad = None
                for k, w in want.items():
                    v = pipe.value(kw[k], {}, extra) if k in kw else "nothing"
                    v = tuple(v) if isinstance(v, list) else v
                    if v is None:
                        r.undecided("grid", "path raster %s:%s" % (coll, k), "not closed", e.where())
                    elif v != w and bad is None:
                        bad = "the path raster is warped with %s=%s, expected %s for a reference of %d columns and %d rows" % (k, v, w, T.n_cols, T.n_rows)
                r.check(bad is None, "grid", "path raster " + coll, bad or "", e.where())


main("C25", run, explanation="Raster creation, array and georeference calls of the effect trace, joined by the dataset term; width, height and array shape are evaluated on a tile whose sides and block "
     "grid all differ, the reference image being the only file of that size")
