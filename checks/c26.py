"""C26 a near-real-time pack that is listed, dumped and loaded again is the same pack."""
import collections
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ast
import numpy as np
import pipe
import pyflow as P
import pyq
from pipe import par
from report import main, Broken

U = "pycold.utils."
CLASS = {}


class Lost(Exception):
    """the records cannot be converted"""


SAMPLES = {"none": (0, 0, 0), "queue": (0, 0, 5), "one": (1, 1, 1), "model": (0, 1, 0), "segments": (2, 0, 0), "segments+queue": (1, 0, 3), "segments+model": (3, 1, 0), "all": (2, 1, 4)}


def kind(name, fields):
    return CLASS.setdefault((name, tuple(fields)), collections.namedtuple(name, fields))


def tools(values):
    """evaluation of pack terms on real records; values(node, go) gives the outside values"""
    def h(x, go):
        v = values(x, go)
        if v is not None:
            return v
        if x.op == "ntuple":
            if any(y.op == "star" for _, y in x.args[1]):
                k = kind(x.args[0].args[0], x.args[0].args[1])
                i = next(j for j, (_, y) in enumerate(x.args[1]) if y.op == "star")
                return k(*([go(y) for _, y in x.args[1][:i]] + list(go(x.args[1][i][1].args[0]))))._replace(**{f: go(y) for f, y in x.args[1][i + 1:] if y.op != "unbound"})
            if any(y.op == "unbound" for _, y in x.args[1]):
                raise Lost("a pack without the field " + ", ".join(k for k, y in x.args[1] if y.op == "unbound"))
            return kind(x.args[0].args[0], x.args[0].args[1])(*[go(y) for _, y in x.args[1]])
        if x.op == "glob":
            p = x.args[0].split(".")
            if p[0] == "numpy" and len(p) == 2 and hasattr(np, p[1]):
                return getattr(np, p[1])
            if x.args[0] in ("float", "int", "list", "tuple", "object"):
                return {"float": float, "int": int, "list": list, "tuple": tuple, "object": object}[x.args[0]]
            return None
        if x.op == "attr":
            b = go(x.args[0])
            if hasattr(b, "_fields") and x.args[1] in b._fields:
                return getattr(b, x.args[1])
            if isinstance(b, np.ndarray) and x.args[1] in ("size", "shape", "dtype", "ndim"):
                return getattr(b, x.args[1])
            return None
        if x.op == "sub":
            b = go(x.args[0])
            if isinstance(b, (list, tuple, np.ndarray)):
                return b[go(x.args[1])]
            return None
        if x.op == "call":
            f, a, kw = x.args[0], x.args[1], dict(x.args[2])
            g = P.gid(f) or ""
            if f.op == "ntclass":
                k = kind(f.args[0], f.args[1])
                if any(y.op == "star" for y in a):
                    return k(*[w for y in a for w in (go(y.args[0]) if y.op == "star" else [go(y)])])
                return k(*[go(y) for y in a], **{q: go(y) for q, y in kw.items()})
            if g == "numpy.dtype":
                d = go(a[0])
                return np.dtype([tuple(q) for q in d] if isinstance(d, (tuple, list)) else d, **{q: go(y) for q, y in kw.items()})
            if g in ("numpy.asarray", "numpy.array", "numpy.zeros", "numpy.empty", "numpy.ascontiguousarray", "numpy.fromiter"):
                v, k = [go(y) for y in a], {q: go(y) for q, y in kw.items()}
                try:
                    return getattr(np, g[6:])(*v, **k)
                except (TypeError, ValueError) as ex:
                    raise Lost(str(ex))
            if g in ("list", "tuple", "len", "dict"):
                return {"list": list, "tuple": tuple, "len": len, "dict": dict}[g](*[go(y) for y in a])
            if f.op in ("attr", "bound"):
                b = go(f.args[0])
                if f.args[1] in ("tolist", "astype", "copy", "view", "_replace", "_asdict", "reshape", "ravel", "flatten") and (isinstance(b, (np.ndarray, np.generic)) or hasattr(b, "_fields")):
                    return getattr(b, f.args[1])(*[go(y) for y in a], **{q: go(y) for q, y in kw.items()})
            if f.op in ("attr", "bound") and f.args[1] in ("append", "extend"):
                return None
        if x.op == "list":
            return [w for y in x.args[0] for w in (go(y.args[0]) if y.op == "star" else [go(y)])]
        if x.op == "phi":
            return go(x.args[1] if truthy(go(x.args[0])) else x.args[2])
        return None
    return pipe.hook(pipe.Tile(2, 3, 3, 2), h)


def truthy(v):
    return v.size > 0 and bool(v.any()) if isinstance(v, np.ndarray) and v.size != 1 else bool(v)


def at(pkg, it, dotted):
    k = pkg.resolve(dotted)
    if not k or k[0] != "var":
        raise Broken("%s is not defined" % dotted)
    return it.at_module(k[1], ast.Name(id=k[2], ctx=ast.Load()))


def filled(dt, n, seed):
    """n records whose every element is told apart and fits its type"""
    a = np.zeros(n, dtype=dt)
    c = seed
    for f in dt.names:
        m = a[f].size
        v = (np.arange(m) + c) % 32000 + 1
        if a[f].dtype.kind == "f":
            v = v + 0.25
        elif a[f].dtype.itemsize == 1:
            v = v % 120 + 1
        a[f] = v.reshape(a[f].shape)
        c += m
    return a


def packs(pkg, it, order):
    h = tools(lambda x, go: None)
    dt = {}
    for f, v in (("rec_cg", "sccd_dt"), ("nrt_model", "nrtmodel_dt"), ("nrt_queue", "nrtqueue_dt")):
        try:
            dt[f] = pyq.ev(at(pkg, it, "pycold.common." + v), {}, h)
        except pipe.FAIL:
            raise Broken("record type %s not closed" % v)
    for name, (a, b, c) in SAMPLES.items():
        d = {"position": 4711, "rec_cg": filled(dt["rec_cg"], a, 11) if a else np.array([]), "min_rmse": np.array([11, 22, 33, 44, 55, 66], dtype=np.int16), "nrt_mode": 2 + len(name),
             "nrt_model": filled(dt["nrt_model"], b, 5) if b else np.array([]), "nrt_queue": filled(dt["nrt_queue"], c, 300) if c else np.array([])}
        if set(order) != set(d):
            raise Broken("pack fields %s" % (order,))
        yield name, kind("SccdOutput", order)(**d)


def differs(v, pack):
    if not hasattr(v, "_fields"):
        return "loading gives a %s instead of a pack" % type(v).__name__
    for f in pack._fields:
        if f not in v._fields:
            return "the loaded pack has no %s" % f
        a, b = getattr(pack, f), getattr(v, f)
        if isinstance(a, np.ndarray):
            if not isinstance(b, np.ndarray):
                return "%s comes back as a %s" % (f, type(b).__name__)
            if len(a) == 0 and len(b) == 0:
                continue
            if a.shape != b.shape:
                return "%s comes back with shape %s, saved with %s" % (f, b.shape, a.shape)
            if a.dtype != b.dtype:
                d = [n for n in a.dtype.names or () if b.dtype.names is None or n not in b.dtype.names or a.dtype.fields[n] != b.dtype.fields[n]]
                return "%s comes back in another record type (%s)" % (f, ", ".join(d) or b.dtype)
            if (a != b).any():
                d = [n for n in a.dtype.names or () if (a[n] != b[n]).any()]
                return "%s comes back changed (%s)" % (f, ", ".join(d) or f)
        elif a != b:
            return "%s comes back as %s, saved as %s" % (f, b, a)
    return None


def interp(pkg, f, **params):
    it = P.Interp(pkg, stop=pipe.STOP)
    it.small_unroll = True
    it.fail = (lambda g: False, "")
    it.run(f, args=params)
    return it


def tell(o):
    return ast.unparse(o) if isinstance(o, ast.AST) else str(o)


def run(r):
    r.rule("order", "every definition of the pack has the same fields in the same order")
    r.rule("pair", "listing a pack and indexing the list gives the pack, with or without segments, model and queue")
    r.rule("file", "what the block run dumps for a pixel and the export loads is that pixel's pack")
    r.rule("debug", "each state file holds the field it is named after")
    pkg = P.Package()
    it0 = P.Interp(pkg)
    orders = {}
    for n, m in sorted(pkg.mods.items()):
        if "SccdOutput" in m.assigns:
            t = at(pkg, it0, n + ".SccdOutput")
            if t.op == "ntclass":
                orders[n] = t.args[1]
    native = orders.get("pycold._colds_cython")
    if native is None:
        raise Broken("no pack definition on the native side")
    for n, o in orders.items():
        r.check(o == native, "order", n, "the pack of %s is (%s), the detector's is (%s)" % (n, " ".join(o), " ".join(native)), n)
    all_packs = list(packs(pkg, it0, native))
    nt = lambda: P.Node("ntuple", P.Node("ntclass", "SccdOutput", tuple(native)), tuple((k, par("." + k)) for k in native))
    loaders = {}
    for n, m in sorted(pkg.mods.items()):
        if "index_sccdpack" in m.funcs:
            loaders[n] = interp(pkg, n + ".index_sccdpack", sccd_pack_single=P.Node("list", tuple(par(".%d" % k) for k in range(len(native)))))

    def load(it, lst):
        env = {par(".%d" % k): v for k, v in enumerate(lst)}
        h = tools(lambda x, go: None)
        if len(lst) != len(native):
            return "a list of %d elements" % len(lst)
        for e in it.events:
            if e.kind == "raise" and pyq.holds(e.guards, env, h):
                return "loading raises at %s" % e.where()
        return pyq.ev(it.ret, env, h)

    def judge(it, lst, pack):
        v = load(it, lst)
        return v if isinstance(v, str) else differs(v, pack)

    un = interp(pkg, U + "unindex_sccdpack", sccd_pack_single=nt())
    where = lambda d: "%s:%d" % (pkg.resolve(d)[1].module.path, pkg.resolve(d)[1].node.lineno)
    for name, pack in all_packs:
        env = {par("." + k): getattr(pack, k) for k in native}
        try:
            lst = pyq.ev(un.ret, env, tools(lambda x, go: None))
        except Lost as ex:
            r.bad("pair", name + ":list", "listing fails: %s" % ex, where(U + "unindex_sccdpack"))
            continue
        except pipe.FAIL as ex:
            r.undecided("pair", name, "listed pack not closed: %s" % str(ex)[:80], where(U + "unindex_sccdpack"))
            continue
        if isinstance(lst, (list, tuple)) and any(isinstance(v, np.ndarray) and v.dtype.names for v in lst):
            r.bad("pair", name + ":list", "a structured array is left in the list", where(U + "unindex_sccdpack"))
        for n, it in loaders.items():
            key = "%s:%s" % (n.split(".")[-1], name)
            try:
                bad = judge(it, list(lst), pack)
            except pipe.FAIL as ex:
                r.undecided("pair", key, "loaded pack not closed: %s" % str(ex)[:80], where(n + ".index_sccdpack"))
                continue
            except Lost as ex:
                bad = "loading fails: %s" % ex
            r.check(bad is None, "pair", key, bad or "", where(n + ".index_sccdpack"))
    files(r, pkg, all_packs, native)
    debug(r, pkg, all_packs, native)


def files(r, pkg, all_packs, native):
    """dump of the block run through the loader of the export"""
    dumps, loads = {}, {}
    for m, f in pkg.all_functions():
        d = m + "." + f
        it = interp(pkg, d)
        for e in it.events:
            if e.kind == "call" and P.gid(e.f) == "pickle.dump" and any(y.op == "call" and "sccd_detect" in (P.gid(y.args[0]) or "") for y in P.walk(e.arg(0, "obj"))):
                dumps.setdefault(e.where(), (e, it))
        for lid, info in it.loopinfo.items():
            for n, u in (info.get("updates") or {}).items():
                for y in P.walk(u) if u is not None else ():
                    if y.op == "append" and y.args[0].op == "mu" and any(z.op == "call" and P.gid(z.args[0]) == "pickle.load" for z in P.walk(y.args[1])):
                        loads.setdefault((d, n), (y.args[1], it))
    native_id = lambda g: g.endswith(("sccd_detect", "_sccd_detect"))
    for w, (e, it) in dumps.items():
        for name, pack in all_packs:
            def value(x, go, pk=pack):
                if x.op == "call" and native_id(P.gid(x.args[0]) or ""):
                    return pk
                return None
            try:
                lst = pyq.ev(e.arg(0, "obj"), {}, tools(value))
            except Lost as ex:
                r.bad("file", "dump:%s" % name, "dumping fails: %s" % ex, w)
                continue
            except pipe.FAIL as ex:
                r.undecided("file", "dump:%s" % name, "dumped value not closed: %s" % str(ex)[:80], w)
                continue
            for (d, n), (t, it2) in loads.items():
                def loaded(x, go, l=lst):
                    if x.op == "call" and P.gid(x.args[0]) == "pickle.load":
                        return l
                    return None
                key = "%s:%s" % (d.split(".")[-1], name)
                try:
                    bad = differs(pyq.ev(t, {}, tools(loaded)), pack)
                except pipe.FAIL as ex:
                    r.undecided("file", key, "loaded value not closed: %s" % str(ex)[:80], d)
                    continue
                except Lost as ex:
                    bad = "loading fails: %s" % ex
                r.check(bad is None, "file", key, bad or "", w)
    if not dumps or not loads:
        r.undecided("file", "sites", "%d dumps and %d loads found" % (len(dumps), len(loads)), "")


def debug(r, pkg, all_packs, native):
    f = U + "save_nrtfiles"
    if not pkg.resolve(f):
        return
    nt = P.Node("ntuple", P.Node("ntclass", "SccdOutput", tuple(native)), tuple((k, par("." + k)) for k in native))
    it = interp(pkg, f, sccd_pack=nt)
    got = {}
    name, pack = all_packs[-1]
    env = {par("." + k): getattr(pack, k) for k in native}
    env.update({par("out_folder"): "O", par("outfile_prefix"): "P"})
    for e in it.events:
        if e.kind != "call":
            continue
        m = e.f.args[1] if e.f.op in ("attr", "bound") else None
        data, path = (e.f.args[0], e.arg(0, "fid")) if m == "tofile" else (e.arg(1, "arr"), e.arg(0, "file")) if P.gid(e.f) == "numpy.save" else (None, None)
        if data is None or path is None:
            continue
        try:
            p = pyq.ev(path, env, tools(lambda x, go: None))
            v = pyq.ev(data, env, tools(lambda x, go: None))
        except pipe.FAIL + (Lost,):
            r.undecided("debug", "%d" % e.line, "file or value not closed", e.where())
            continue
        fs = [k for k in native if str(p).endswith(k)]
        if not fs:
            continue
        k = max(fs, key=len)
        got[k] = got.get(k, 0) + 1
        w = getattr(pack, k)
        ok = np.shape(v) == np.shape(w) and bool(np.all(np.asarray(v) == np.asarray(w)))
        r.check(ok, "debug", k, "%s does not hold the field %s" % (p, k), e.where())


main("C26", run, explanation="The listing, dumping, loading and indexing of packs are turned into terms by value numbering and composed; the composition is evaluated on packs whose every element is told apart, for each combination of segments, model and queue")
