"""C20 the stacked bands come from the sensor's own files, in one order, in one unit."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pyq
from report import main, Broken

M = "pycold.imagetool.prepare_ard."
ARD = "%s_CU_028010_20190203_20190401_C01_V01_SR"
ARD2 = "%s_CU_028010_20190203_20210401_02_SR"
C2 = "%s_L2SP_012030_20190203_20200828_02_T1"
SR, TH, ID = "reflectance", "temperature", "identity"


def ard(stem, opt, bt, q):
    return [("/T/%s/%s%s.%s" % (stem, stem, b, q), SR) for b in opt] + [("/T/%s/%s%s.%s" % (stem[:-3] + "_BT", stem[:-3], bt, q), TH)]


def cases():
    TM, OLI = ["1", "2", "3", "4", "5", "7"], ["2", "3", "4", "5", "6", "7"]
    for sat, opt, th in (("LT04", TM, "6"), ("LT05", TM, "6"), ("LE07", TM, "6"), ("LC08", OLI, "10"), ("LC09", OLI, "10")):
        f = ARD % sat
        yield "single_image_stacking", {"b_c2": False}, f, "ARD:" + sat, ard(f, ["B" + b for b in opt], "_BTB" + th, "tif"), "/T/%s/%s_PIXELQA.tif" % (f, f[:-3]), 1
        f = ARD2 % sat
        yield "single_image_stacking", {"b_c2": True}, f, "ARD-C2:" + sat, ard(f, ["_B" + b for b in opt], "_BT_B" + th, "TIF"), "/T/%s/%s_QA_PIXEL.TIF" % (f, f[:-3]), 2
        f = C2 % sat
        yield "single_image_stacking_collection2", {}, f, "C2:" + sat, [("/T/%s/%s_SR_B%s.TIF" % (f, f, b), SR) for b in opt] + [("/T/%s/%s_ST_B%s.TIF" % (f, f, th), TH)], \
            "/T/%s/%s_QA_PIXEL.TIF" % (f, f), 2
    for s, b, i in (("L30", ["B02", "B03", "B04", "B05", "B06", "B07"], [1, 2, 3, 4, 5, 6]), ("S30", ["B02", "B03", "B04", "B8A", "B11", "B12"], [1, 2, 3, 8, 11, 12])):
        f = "HLS.%s.T18TYM.2020033T153321.v1.5" % s
        yield "single_image_stacking_hls", {}, f, "HLS:" + s, [("/S/%s/%s.%s.tif" % (f, f, x), SR) for x in b] + [(None, ID)], "/S/%s/%s.Fmask.tif" % (f, f), 1
        f = "/S/x/HLS.%s.T18TYM.2020033.v1.4.hdf" % s
        yield "single_image_stacking_hls14", {}, f, "HLS14:" + s, [(k, SR) for k in i] + [(None, ID)], -1, 1


def scaled(kind, coll, dn):
    if coll == 1 or kind == ID:
        return dn
    return 10000 * (dn * 2.75e-05 - 0.2) if kind == SR else 10 * (dn * 0.00341802 + 149)


NAMES = ["blue", "green", "red", "nir", "swir1", "swir2", "thermal", "QA"]
LOAD = ("osgeo.gdal_array.LoadFile", "gdal_array.LoadFile")


def unblock(n, env):
    while True:
        n = pyq.pick(n, env)
        if n.op == "sub" and n.args[0].op != "tuple":
            n = n.args[0]
        elif n.op == "call" and P.gid(n.args[0]) == "numpy.lib.stride_tricks.as_strided":
            n = n.args[1][0]
        elif n.op == "call" and n.args[0].op == "attr" and n.args[0].args[1] in ("reshape", "swapaxes", "transpose"):
            n = n.args[0].args[0]
        else:
            return n


def resolve(n, env):
    """push the decided merges down into arithmetic"""
    n = pyq.pick(n, env)
    return n


def raws(n, env, out, seen):
    n = pyq.pick(n, env)
    if n.id in seen:
        return
    seen.add(n.id)
    if n.op == "call" and (P.gid(n.args[0]) in LOAD or (n.args[0].op == "attr" and n.args[0].args[1] == "ReadAsArray")):
        out.append(n)
        return
    kids = []
    if n.op == "update":
        kids = list(n.args)
    elif n.op == "poly":
        kids = [f for m, _ in n.args[0] for f in m]
    elif n.op == "call":
        kids = list(n.args[1]) + ([n.args[0].args[0]] if n.args[0].op == "attr" else [])
        if P.gid(n.args[0]) in ("numpy.full", "numpy.zeros", "numpy.full_like", "numpy.zeros_like"):
            kids = []
    else:
        kids = [a for a in n.args if isinstance(a, P.Node)]
    for k in kids:
        raws(k, env, out, seen)


def path_of(n, env):
    """file path or sub-dataset index a load reads"""
    def op(x):
        if P.gid(x.args[0]) in LOAD:
            return x.args[1][0] if x.args[1] else dict(x.args[2]).get("filename")
        c = x.args[0].args[0]
        c = pyq.pick(c, env)
        while c.op == "call" and P.gid(c.args[0]) in ("osgeo.gdal.Warp", "gdal.Warp", "osgeo.gdal.Translate", "gdal.Translate"):
            c = pyq.pick(c.args[1][1], env)
        if c.op == "call" and P.gid(c.args[0]) in ("osgeo.gdal.Open", "gdal.Open"):
            return c.args[1][0]
        if c.op == "call" and c.args[0].op == "attr" and c.args[0].args[1] == "GetRasterBand":
            d = c.args[0].args[0]
            return d.args[1][0] if d.op == "call" and P.gid(d.args[0]) in ("osgeo.gdal.Open", "gdal.Open") else None
        return None
    p = op(n)
    if p is None:
        raise pyq.Unknown("load " + str(n)[:80])
    p = pyq.strip(p)
    if p.op == "sub" and P.is_const(p.args[1], 0) and p.args[0].op == "sub" and P.contains(p.args[0].args[0], lambda x: x.op == "attr" and x.args[1] == "GetSubDatasets"):
        return pyq.ev(p.args[0].args[1], env)
    return os.path.normpath(pyq.ev(p, env))


def run(r):
    r.rule("band", "each of the eight stacked layers is read from the file the sensor and collection use for that band")
    r.rule("scale", "each layer is scaled to 1e-4 reflectance or 0.1 kelvin (Collection 2), or kept (scaled products)")
    r.rule("layers", "the stack has exactly eight layers of 16-bit integers")
    r.rule("name", "the stacked file is named <sensor:3><path/tile:6><year:4><doy:3>..., so that the date is at the position its readers parse")
    pkg = P.Package()
    cache = {}
    for fn, flags, folder, tag, want, qa, coll in cases():
        if fn not in cache:
            it = P.Interp(pkg)
            it.small_unroll = True
            it.run(M + fn)
            cache[fn] = it
        it = cache[fn]
        env = {P.Node("param", k): v for k, v in flags.items()}
        env |= {P.Node("param", "folder"): folder, P.Node("param", "tmp_path"): "/T", P.Node("param", "source_dir"): "/S", P.Node("param", "out_dir"): "/O",
                P.Node("param", "path_array"): None, P.Node("param", "low_date_bound"): None, P.Node("param", "upp_date_bound"): None}
        saves = [e for e in it.events if e.kind == "call" and P.gid(e.f) == "numpy.save"]
        if not saves:
            raise Broken(fn + " saves nothing")
        for k, e in enumerate(saves):
            at = e.where()
            a = e.args[1]
            st = pyq.strip(a)
            if st.op != "call" or P.gid(st.args[0]) not in ("numpy.dstack", "numpy.stack") or st.args[1][0].op not in ("list", "tuple"):
                r.undecided("layers", tag, "stack not recognised: " + str(st)[:100], at)
                continue
            ls = list(st.args[1][0].args[0])
            if not r.check(len(ls) == 8, "layers", tag + ":%d" % k, "%s stacks %d layers" % (fn, len(ls)), at):
                continue
            ok16 = P.contains(a, lambda x: x.op == "glob" and x.args[0] in ("numpy.int16", "numpy.short")) or P.contains(a, lambda x: P.is_const(x, "int16"))
            r.check(ok16, "layers", tag + ":%d:dtype" % k, "the stack is not converted to 16-bit integers", at)
            for j, (nm, (src, kind)) in enumerate(zip(NAMES, want + [(qa, "qa")])):
                key = "%s:%s:%d" % (tag, nm, k)
                t = unblock(ls[j], env)
                rs = []
                raws(t, env, rs, set())
                try:
                    got = [path_of(x, env) for x in rs]
                except (pyq.Unknown, TypeError, KeyError, IndexError) as ex:
                    r.undecided("band", key, str(ex)[:150], at)
                    continue
                if P.contains(t, lambda x: x.op == "undef") and not got and src is not None:
                    r.bad("band", key, "%s is never read for %s" % (nm, tag), at)
                    continue
                if src is None:
                    r.check(not got, "band", key, "%s of %s is read from %s" % (nm, tag, got), at)
                    continue
                if not r.check(sorted(set(map(str, got))) == [str(src)], "band", key, "%s of %s is read from %s instead of %s" % (nm, tag, got, src), at):
                    continue
                if kind == "qa":
                    continue
                for dn in (1, 7273, 12345, 30000, 43636, 65535):
                    try:
                        def hook(x, go):
                            if x in rs:
                                return dn
                            if x.op == "sub" or (x.op == "call" and P.gid(x.args[0]) == "numpy.lib.stride_tricks.as_strided"):
                                return go(unblock(x, env)) if unblock(x, env) is not x else None
                            if x.op == "update":
                                return None
                            if x.op == "phi":
                                y = pyq.pick(x, env)
                                return go(y) if y is not x else None
                            y = pyq.strip(x)
                            return go(y) if y is not x else None
                        v = pyq.ev(t, env, hook)
                    except (pyq.Unknown, TypeError, KeyError, IndexError) as ex:
                        r.undecided("scale", key, "%s %s" % (type(ex).__name__, str(ex)[:120]), at)
                        break
                    w = scaled(kind, coll, dn)
                    r.check(isinstance(v, (int, float)) and abs(v - w) <= 1.0, "scale", key, "%s of %s: raw %d becomes %s instead of %.1f" % (nm, tag, dn, v, w), at)
            # file name
            p = e.args[0]

            def nh(x, go):
                if x.op == "iterel":
                    return 0
                if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] == "strftime" and P.is_const(x.args[1][0], "%j"):
                    d = x.args[0].args[0]
                    if d.op == "call" and str(P.gid(d.args[0])).endswith("datetime"):
                        import datetime
                        return datetime.datetime(*[go(y) for y in d.args[1]]).strftime("%j")
                if x.op == "phi":
                    y = pyq.pick(x, env)
                    return go(y) if y is not x else None
                return None
            try:
                path = pyq.ev(p, env, nh)
                name = os.path.basename(path)
                sat = tag.split(":")[1]
                day = "033" if "HLS" in tag else "034"
                wantyd = {"HLS": "2020033", "HLS14": "2020033"}.get(tag.split(":")[0], "2019034")
                sen = {"LT04": "LT4", "LT05": "LT5", "LE07": "LE7", "LC08": "LC8", "LC09": "LC9"}.get(sat, sat)
                r.check(name[9:16] == wantyd, "name", tag + ":date:%d" % k, "stacks of %s are named %s: no date at position 9" % (tag, name), at)
                r.check(name[0:3] == sen, "name", tag + ":sensor:%d" % k, "stacks of %s are named %s" % (tag, name), at)
            except (pyq.Unknown, TypeError, KeyError, IndexError, ValueError) as ex:
                r.undecided("name", tag, "%s %s" % (type(ex).__name__, str(ex)[:150]), at)
    r.floor("band", 250)
    r.floor("scale", 100)


main("C20", run, "other", "The eight layers of every np.save of a stacking function are value-numbered terms; for each sensor and collection the sensor conditions, file names and scalings are evaluated on a scene name of that product and compared with the product table.")
