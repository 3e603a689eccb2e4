"""C15 block, pixel and position numbering is one bijection everywhere."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pyflow as P
import pipe
from pipe import par
from report import main, Broken

ENV = {"result_path": "R", "stack_path": "S", "yaml_path": "Y", "low_datebound": None, "upper_datebound": None, "b_c2": True, "seedmap_year": None,
       "out_path": "O", "reccg_path": "R", "reference_path": "REF.tif", "year_lowbound": 1982, "year_uppbound": 1984, "source_dir": "/src", "out_dir": "/out",
       "record_path": "R", "tmp_path": "TMP", "output_path": "OUT", "rf_path": "RF", "band_num": 7, "year_list_to_predict": (1983, 1984)}
XY = re.compile(r"x(\d+)_y(\d+)")
DETECT = ("cold_detect", "sccd_detect", "obcold_reconstruct")
ORDS = [723950, 723800, 723990]
SENT = 400                                      # values far from any index: what a fill or an unwritten cell holds is -1


def envx(**kw):
    return {par(k): v for k, v in {**ENV, **kw}.items()}


def helpers(r, pkg, tiles):
    """the numbering helpers agree with each other"""
    def fn(name, args):
        q = pkg.resolve("pycold.utils." + name)
        if q is None or q[0] != "func":
            return None
        it = P.Interp(pkg).run("pycold.utils." + name)
        ps = q[1].params()
        if not set(ps) <= set(args):
            return None

        def f(tile, **kw):
            return pipe.value(it.ret, {par(k): v for k, v in kw.items()}, arrays.hook(tile))
        return f, ps, "src/python/pycold/utils.py:%d" % q[1].node.lineno
    spec = {"get_block_x": lambda d: d["block_x"], "get_block_y": lambda d: d["block_y"], "get_col_index": lambda d: d["c"], "get_row_index": lambda d: d["r"],
            "get_rowcol_intile": lambda d: (d["row"], d["col"]), "get_id_inblock": lambda d: d["index"]}
    names = ("block_id", "n_block_x", "n_cols", "n_rows", "pos", "current_block_x", "current_block_y", "block_width", "block_height", "index", "block_x", "block_y", "id")
    for nm, want in spec.items():
        got = fn(nm, names)
        if got is None:
            continue
        f, ps, where = got
        bad = None
        for t in tiles:
            for by in range(1, t.n_block_y + 1):
                for bx in range(1, t.n_block_x + 1):
                    for k in range(t.block_width * t.block_height):
                        rr, cc = k // t.block_width, k % t.block_width
                        row, col = (by - 1) * t.block_height + rr + 1, (bx - 1) * t.block_width + cc + 1
                        d = {"block_id": (by - 1) * t.n_block_x + bx, "n_block_x": t.n_block_x, "n_cols": t.n_cols, "n_rows": t.n_rows, "pos": (row - 1) * t.n_cols + col,
                             "current_block_x": bx, "current_block_y": by, "block_width": t.block_width, "block_height": t.block_height, "index": k, "id": k,
                             "block_x": bx, "block_y": by, "r": rr, "c": cc, "row": row, "col": col}
                        v = f(t, **{p: d[p] for p in ps})
                        if v is not None and v != want(d) and bad is None:
                            bad = "%s gives %s for pixel %d of block (%d,%d) of a %dx%d grid of %dx%d blocks, expected %s" % (
                                nm, v, k, bx, by, t.n_block_x, t.n_block_y, t.block_width, t.block_height, want(d))
        r.check(bad is None, "helpers", nm, bad or "", where)
    # a list of block arrays put together
    q = pkg.resolve("pycold.utils.assemble_array")
    if q is not None and q[0] == "func":
        it = P.Interp(pkg).run("pycold.utils.assemble_array")
        ps = q[1].params()
        bad = None
        for t in tiles:
            g = arrays.Grid(t)
            blocks = [g.block(b % t.n_block_x + 1, b // t.n_block_x + 1) for b in range(t.nblocks)]
            v = pipe.value(it.ret, {par(ps[0]): blocks, par(ps[1]): t.n_block_x}, arrays.hook(t))
            if v is not None and not same(v, g.full):
                bad = "assemble_array puts the blocks of a %dx%d grid in the wrong places" % (t.n_block_x, t.n_block_y)
            if v is not None:
                r.ok("assembled", "assemble_array:%dx%d" % (t.n_block_x, t.n_block_y))
        r.check(bad is None, "assembled", "assemble_array", bad or "", "src/python/pycold/utils.py:%d" % q[1].node.lineno)


def same(v, w):
    v = np.asarray(v)
    return v.shape == w.shape and bool((v == w).all())


def saved_blocks(r, tag, it, tiles, env, names=None):
    """arrays cut into blocks: the block saved under x, y is the block at x, y"""
    n = 0
    for e in it.events:
        a = pipe.file_access(e)
        if not a or a[0] != "w" or e.kind != "call" or P.gid(e.f) not in ("numpy.save", "numpy.savez"):
            continue
        arr = e.arg(1, "arr")
        path = pipe.pathof(a[1])
        if arr is None or not any(x.op == "call" and P.gid(x.args[0]) == "numpy.lib.stride_tricks.as_strided" or x.op == "sub" and "LoadFile" in repr(x)[:4000] for x in P.walk(arr)):
            continue
        bad, cnt = None, 0
        for t in tiles:
            g = arrays.Grid(t)
            src = lambda x, go: image(x, go, g)
            # without a load the strided source is opaque: it stands for the whole image
            ins = pipe.instances(e, [path, arr], env, arrays.hook(t, lambda p: g.full, names, src))
            for asg, (p, v) in ins or ():
                m = XY.search(p) if isinstance(p, str) else None
                if m is None or v is None:
                    # the file name of the image part may not be closed: the block numbers are
                    m = m or xy(path, asg, t)
                    if m is None or v is None:
                        continue
                bx, by = (int(m[1]), int(m[2])) if not isinstance(m, tuple) else m
                v = np.asarray(v)
                if not (1 <= bx <= t.n_block_x and 1 <= by <= t.n_block_y):
                    bad = bad or "%s: a block is saved as x%d_y%d of a %dx%d grid" % (tag, bx, by, t.n_block_x, t.n_block_y)
                    continue
                want = g.block(bx, by)
                cnt += 1
                bands = [v] if v.ndim == 2 else [v[..., k] for k in range(v.shape[2])]
                for k, b in enumerate(bands):
                    if not same(b, want):
                        bad = bad or "%s: layer %d of the block saved as x%d_y%d of a %dx%d grid of %dx%d blocks holds the pixels %s, expected %s" % (
                            tag, k, bx, by, t.n_block_x, t.n_block_y, t.block_width, t.block_height, b.tolist(), want.tolist())
        if cnt:
            n += 1
            r.check(bad is None, "split", "%s:%s" % (tag, e.fn.split(".")[-1]), bad or "", e.where())
    return n


def xy(path, asg, t):
    """block numbers in a path whose other parts are not closed"""
    vals = []
    for y in path.args[0] if path.op == "strcat" else ():
        vals.append(y if isinstance(y, str) else pipe.value(y.args[0], asg, pipe.hook(t)))
    for k in range(len(vals) - 3):
        if isinstance(vals[k], str) and vals[k].endswith("x") and isinstance(vals[k + 2], str) and vals[k + 2] == "_y" and vals[k + 1] is not None and vals[k + 3] is not None:
            return (vals[k + 1], vals[k + 3])
    return None


def image(x, go, g):
    """the array handed to as_strided is the whole image"""
    if x.op == "call" and P.gid(x.args[0]) == "numpy.lib.stride_tricks.as_strided":
        kw = dict(x.args[2])
        a = x.args[1]
        shape = go(a[1] if len(a) > 1 else kw["shape"])
        strides = go(a[2] if len(a) > 2 else kw["strides"])
        src = a[0] if a else kw["x"]
        need = {"int16": 2, "uint16": 2, "int32": 4, "uint32": 4, "float32": 4, "uint8": 1, "int8": 1, "int64": 8, "float64": 8}
        it = None
        if src.op == "call" and src.args[0].op == "attr" and src.args[0].args[1] == "astype" and src.args[1]:
            it = need.get((P.gid(src.args[1][0]) or "").split(".")[-1])
        if it is not None and min(s for s in strides if s > 0) != it:
            return np.full(tuple(shape), -SENT)
        return arrays.strided(g.full, shape, strides)
    return None


def detectors(r, tag, it, tiles, env):
    """the position given to a detector is that of the pixel whose series it gets"""
    n = 0
    for e in it.events:
        if e.kind != "call" or not (P.gid(e.f) or "").endswith(DETECT):
            continue
        kw = dict(e.kw)
        pos, ts, br = kw.get("pos"), kw.get("ts_n"), kw.get("break_dates")
        if pos is None or ts is None:
            continue
        bad, cnt, seen = None, 0, 0
        badb = None
        for t in tiles:
            g = arrays.Grid(t)
            all_ = set()
            for rank in (1, 2):
                def load(p):
                    m = XY.search(p)
                    if "OBIA" in p or "obia" in p:
                        return g.block(int(m[1]), int(m[2]))
                    return np.stack([arrays.code(g.block(int(m[1]), int(m[2])), k, arrays.ordinal_of(p.split("/")[-1])) for k in range(8)], axis=-1)
                names = arrays.stack_names(ORDS)
                h = arrays.hook(t, load, lambda d: names if d is None or "block_" in d else [])
                hb = arrays.hook(t, load, lambda d: obia_names(t, d, names))
                ee = {**env, par("rank"): rank, par("n_cores"): 2}
                ins = pipe.instances(e, [pos, ts], ee, h)
                if ins is None:
                    r.undecided("pixel", tag, "loop not enumerable", e.where())
                    break
                for asg, (p, v) in ins:
                    if p is None or v is None or np.asarray(v).size == 0:
                        continue
                    cnt += 1
                    px = set(arrays.decode(v)[0].ravel().tolist())
                    all_.add(p)
                    if px != {p - 1}:
                        bad = bad or "%s: the detector gets position %s with the series of pixel %s (1-based) on a %dx%d grid of %dx%d blocks" % (
                            tag, p, sorted(q + 1 for q in px), t.n_block_x, t.n_block_y, t.block_width, t.block_height)
                if br is not None:
                    for asg, (p, v) in pipe.instances(e, [pos, br], ee, hb) or ():
                        if p is None or v is None or np.asarray(v).size == 0:
                            continue
                        seen += 1
                        if set(np.asarray(v).ravel().tolist()) != {p - 1}:
                            badb = badb or "%s: pixel %s is given the break dates of pixel %s" % (tag, p, sorted(int(q) + 1 for q in set(np.asarray(v).ravel().tolist())))
            if cnt and bad is None and all_ != set(range(1, t.n_cols * t.n_rows + 1)):
                bad = "%s: the positions of a %dx%d grid of %dx%d blocks are not all used (%d of %d)" % (
                    tag, t.n_block_x, t.n_block_y, t.block_width, t.block_height, len(all_), t.n_cols * t.n_rows)
        if cnt:
            n += 1
            r.check(bad is None, "pixel", "%s:%s" % (tag, P.gid(e.f).split(".")[-1]), bad or "", e.where())
        if seen:
            r.check(badb is None, "breaks", "%s:%s" % (tag, P.gid(e.f).split(".")[-1]), badb or "", e.where())
    return n


def obia_names(t, d, stack):
    if d is not None and "block_" in d:
        return stack
    if d is not None and "OBIA" in d:
        out = []
        for o in (t.first + t.interval, t.first):
            for by in range(1, t.n_block_y + 1):
                for bx in range(1, t.n_block_x + 1):
                    out.append("obiaresult_%d_%s_x%d_y%d.npy" % (o, "1982001", bx, by))
        return out
    return stack


def chain(e):
    """(array, subscripts) of an item assignment written as one or several subscripts"""
    idx, b = list(e.args[0].args[0]) if e.args[0].op == "tuple" else [e.args[0]], e.f
    while True:
        if b.op == "sub":
            i = b.args[1]
            idx = (list(i.args[0]) if i.op == "tuple" else [i]) + idx
            b = b.args[0]
        elif b.op == "update":
            b = b.args[0]
        else:
            return b, idx


def is_pos(x):
    return x.op == "sub" and (P.is_const(x.args[1], "pos") or P.is_const(x.args[1], "position")) or x.op == "attr" and x.args[1] in ("pos", "position")


def block_of(it, e, env, asg, h):
    """the block whose records an event works on"""
    best = None
    for q in it.events:
        if q.idx >= e.idx:
            break
        a = pipe.file_access(q)
        if a and a[0] in ("r", "p") and e.loops[:len(q.loops)] == q.loops:
            v = pipe.value(pipe.pathof(a[1]), asg, h)
            m = XY.search(v) if isinstance(v, str) else None
            if m:
                best = (int(m[1]), int(m[2]))
    return best


def scattered(r, tag, it, tiles, env, blocks=None):
    """values of a record stored by its position: in the row and column of the pixel inside its block"""
    n = 0
    for e in it.events:
        if e.kind != "setitem":
            continue
        base, idx = chain(e)
        hit = [x for x in idx if any(is_pos(y) for y in P.walk(x))]
        if not hit:
            continue
        # only subscripts that follow the position
        bad, cnt = None, 0
        for t in tiles:
            for asg0 in (blocks(t) if blocks else [dict()]):
                cur = {}

                def extra(x, go):
                    if is_pos(x) and "p" in cur:
                        return cur["p"]
                    return None
                h = arrays.hook(t, None, None, extra)
                ee = {**env, **asg0}
                terms = [e.args[0]]
                roots = set()
                for x in hit:
                    roots |= {i for i in outer(x)}
                bl = [x for x in sorted(roots, key=lambda q: q.args[1])]
                envs = [dict(ee)]
                for i in bl:
                    nn = pipe.value(i.args[0], ee, pipe.mpi(0, 1, h))
                    if not isinstance(nn, int):
                        nn = 1
                    envs = [{**q, i: k} for q in envs for k in range(min(nn, 64))]
                hm = pipe.mpi(0, 1, h)
                for asg in envs:
                    xyb = block_of(it, e, env, asg, hm)
                    if xyb is None or not (1 <= xyb[0] <= t.n_block_x and 1 <= xyb[1] <= t.n_block_y):
                        continue
                    for k in range(t.block_width * t.block_height):
                        rr, cc = k // t.block_width, k % t.block_width
                        cur["p"] = ((xyb[1] - 1) * t.block_height + rr) * t.n_cols + (xyb[0] - 1) * t.block_width + cc + 1
                        got = [pipe.value(x, asg, hm) for x in hit]
                        if any(v is None for v in got):
                            continue
                        cnt += 1
                        want = [rr, cc] if len(got) >= 2 else [k]
                        if len(got) > 2:
                            got = got[-2:] if got[-2:] == want or got[:2] != want else got[:2]
                        if list(got) != want:
                            bad = bad or "%s: pixel %d of block x%d_y%d (%dx%d pixels, %dx%d blocks) is stored at %s, expected %s" % (
                                tag, k, xyb[0], xyb[1], t.block_width, t.block_height, t.n_block_x, t.n_block_y, got, want)
        if cnt:
            n += 1
            r.check(bad is None, "stored", "%s:%s" % (tag, e.fn.split(".")[-1]), bad or "", e.where())
        else:
            r.undecided("stored", tag, "subscripts by position not decidable", e.where())
    return n


def outer(x):
    """iteration indices of the block loop and the like: those a record's fields do not hang on"""
    out, st = set(), [x]
    seen = set()
    while st:
        y = st.pop()
        if not isinstance(y, P.Node) or y.id in seen:
            continue
        seen.add(y.id)
        if is_pos(y):
            continue
        if y.op == "iterel":
            out.add(y)
            continue
        for a in y.args:
            if isinstance(a, P.Node):
                st.append(a)
            elif isinstance(a, tuple):
                st += [b for b in a if isinstance(b, P.Node)]
                st += [c for b in a if isinstance(b, tuple) for c in b if isinstance(c, P.Node)]
                st += [f for b in a if isinstance(b, tuple) for c in b if isinstance(c, tuple) for f in c if isinstance(f, P.Node)]
    return out


def maps(r, tag, it, tiles, env):
    """blocks put back into the arrays of the tile, cell by cell"""
    n = 0
    for e in it.events:
        if e.kind != "setitem" or len(e.args) < 2 or e.args[1].op == "const":
            continue
        base, idx = chain(e)
        if base.op != "call" or P.gid(base.args[0]) not in ("numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones") or not any(
                x.op == "call" and P.gid(x.args[0]) == "numpy.load" for x in P.walk(e.args[1])):
            continue
        bad, cnt = None, 0
        own = {}
        for t in tiles:
            g = arrays.Grid(t)

            def load(p):
                m = XY.search(p)
                b = g.block(int(m[1]), int(m[2])).ravel()
                return np.concatenate([arrays.code(np.full(t.n_cm, q), 0, np.arange(t.n_cm)) for q in b])
            h = arrays.hook(t, load)
            ee = {**env, par("rank"): 1, par("n_cores"): 1}
            it_ = P.Node("tuple", tuple(idx))
            ins = pipe.instances(e, [it_, e.args[1], base], ee, h)
            for asg, (i, v, b) in ins or ():
                if i is None or v is None or b is None:
                    continue
                v, b = np.asarray(v), np.asarray(b)
                if b.shape != (t.n_rows, t.n_cols):
                    bad = bad or "%s: the map has %s cells for a tile of %d rows and %d columns" % (tag, b.shape, t.n_rows, t.n_cols)
                    continue
                cell = g.full[tuple(i)]
                px, _, k = arrays.decode(v)
                cnt += 1
                if cell.shape != px.shape or not (cell == px).all():
                    bad = bad or "%s: on a %dx%d grid of %dx%d blocks the cells %s receive the values of the pixels %s" % (
                        tag, t.n_block_x, t.n_block_y, t.block_width, t.block_height, cell.tolist(), px.tolist())
                elif len(set(k.ravel().tolist())) != 1:
                    bad = bad or "%s: one map mixes several dates" % tag
                elif t.n_cm > 1 and t.n_cm != t.nblocks:
                    for y, w in asg.items():
                        if y.op == "iterel" and pipe.value(y.args[0], ee, h) == t.n_cm:
                            own.setdefault(y, set()).add((w, int(k.ravel()[0])))
        if cnt and not bad and not any(all(x == y for x, y in q) for q in own.values()):
            w = sorted(next(iter(own.values()), ()))
            bad = "%s: the map of date number %s receives the layers of date number %s" % (tag, [x for x, y in w if x != y], [y for x, y in w if x != y])
        if cnt:
            n += 1
            r.check(bad is None, "assembled", "%s:%s" % (tag, e.fn.split(".")[-1]), bad or "", e.where())
    return n


BLK = re.compile(r"block(\d+)")


def mosaics(r, tag, it, tiles, env, names=None):
    """rasters and arrays of the whole tile put together from per-block files"""
    n = 0
    for e in it.events:
        arr = None
        if e.kind != "call":
            continue
        if e.f.op == "attr" and e.f.args[1] == "WriteArray":
            arr = e.arg(0, "array")
        elif P.gid(e.f) == "numpy.save":
            arr = e.arg(1, "arr")
        if arr is None or not any(x.op == "call" and P.gid(x.args[0]) in ("numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.block", "numpy.hsplit") for x in P.walk(arr)) \
                or not any(x.op == "call" and P.gid(x.args[0]) == "numpy.load" for x in P.walk(arr)):
            continue
        bad, cnt = None, 0
        for t in tiles:
            g = arrays.Grid(t)
            deep = {}

            def load(p):
                k = int(BLK.search(p)[1]) - 1
                b = g.block(k % t.n_block_x + 1, k // t.n_block_x + 1)
                return np.stack([b] * 3, axis=-1) if "d" in deep else b

            def extra(x, go):
                return 0 if x.op == "mu" and x.args[1] != "results" else None
            for d in (False, True):
                deep.clear()
                if d:
                    deep["d"] = 1
                h = pipe.mpi(0, 1, arrays.hook(t, load, (lambda q: names(t)) if names else None, extra))
                ins = pipe.instances(e, [arr], env, h)
                for asg, (v,) in ins or ():
                    if v is None or not isinstance(v, np.ndarray) or v.size != g.full.size * (3 if v.ndim == 3 else 1):
                        if v is not None and isinstance(v, np.ndarray) and v.size and v.ndim == 2:
                            cnt += 1
                            bad = bad or "%s: the raster of a %dx%d grid of %dx%d blocks has shape %s" % (tag, t.n_block_x, t.n_block_y, t.block_width, t.block_height, v.shape)
                        continue
                    cnt += 1
                    layers = [v] if v.ndim == 2 else [v[..., k] for k in range(v.shape[-1])]
                    for w in layers:
                        if not same(w, g.full):
                            bad = bad or "%s: on a %dx%d grid of %dx%d blocks the raster holds the pixels %s" % (
                                tag, t.n_block_x, t.n_block_y, t.block_width, t.block_height, w.tolist())
        if cnt:
            n += 1
            r.check(bad is None, "assembled", "%s:%s" % (tag, e.fn.split(".")[-1]), bad or "", e.where())
    return n


def predicted(r, tag, it, tiles, env):
    """class vector of a block back to its rows and columns: row-major"""
    n = 0
    for e in it.events:
        a = pipe.file_access(e)
        if not a or a[0] != "w" or P.gid(e.f) != "numpy.save":
            continue
        arr = e.arg(1, "arr")
        pr = [x for x in P.walk(arr) if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in ("predict", "predict_proba")]
        if not pr:
            continue
        bad, cnt = None, 0
        for t in tiles:
            want = np.arange(t.block_width * t.block_height).reshape(t.block_height, t.block_width)

            def extra(x, go):
                if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "predict":
                    return np.arange(t.block_width * t.block_height)
                if x.op == "update":
                    return go(x.args[0])
                return None
            h = arrays.hook(t, None, None, extra)
            for asg, (v,) in pipe.instances(e, [arr], env, h) or ():
                if v is None:
                    continue
                cnt += 1
                v = np.squeeze(np.asarray(v))
                if not same(v, np.squeeze(want)):
                    bad = bad or "%s: the classes of a block of %d rows and %d columns are laid out as %s" % (tag, t.block_height, t.block_width, v.tolist())
        if cnt:
            n += 1
            r.check(bad is None, "assembled", "%s:predict" % tag, bad or "", e.where())
    return n


def run(r):
    r.rule("helpers", "the numbering helpers give the block, row, column and index that belong to a position, for every block and pixel")
    r.rule("split", "an image cut into blocks: the array saved under x, y holds the pixels of the block in grid column x and row y, row by row")
    r.rule("pixel", "the position given to a detector is the 1-based row-major position, in the tile, of the pixel whose series it gets; all positions occur")
    r.rule("breaks", "the object-based break dates given to a detector are those of the same pixel")
    r.rule("stored", "what is computed from a record is stored in the row and column (or row-major index) its position has inside its block")
    r.rule("assembled", "blocks are put back where they belong in the tile")
    pkg = P.Package()
    deep = r.tier == "thorough"
    shapes = [(3, 2, 2, 3), (2, 3, 3, 2), (1, 2, 2, 1), (2, 1, 1, 3), (2, 2, 2, 2)]
    if deep:
        shapes += [(a, b, c, d) for a in range(1, 5) for b in range(1, 5) for c, d in ((1, 2), (2, 3), (3, 2), (4, 1))]
    tiles = [pipe.Tile(*s) for s in dict.fromkeys(shapes)]
    helpers(r, pkg, tiles)
    env = envx()
    n = 0
    images = {"ARD": "LT05_CU_022010_20010101_SR.tar", "ARD-C2": "LT05_CU_022010_20010101_SR.tar", "C2": "LT05_L2SP_012031_20010101_20200101_02_T1.tar",
              "HLS": "HLS.L30.T10SEG.2001001T1.v2.0", "HLS14": "/src/HLS.L30.T10SEG.2001001.v1.4.hdf"}
    for coll, image_name in images.items():
        n += saved_blocks(r, "prepare_ard:" + coll, pipe.stage(pkg, pipe.T + "prepare_ard.main", collection=coll), tiles, envx(rank=1, n_cores=1),
                          lambda d, k=image_name: [k])
    if n < 3:
        raise Broken("only %d block cuts found in prepare_ard" % n)
    d = s = a = 0
    for tag, it in pipe.tile_runs(pkg):
        d += detectors(r, "tile_processing:" + tag, it, tiles, env)
        if tag.startswith("OBCOLD"):
            s += saved_blocks(r, "tile_processing:" + tag, it, tiles, envx(rank=1, n_cores=1))
            a += maps(r, "tile_processing:" + tag, it, tiles, env)
    if a < 2:
        raise Broken("only %d assemblies of change-magnitude maps found in tile_processing" % a)
    if d < 3:
        raise Broken("only %d detector calls with a decidable position" % d)
    for method in ("COLD", "OBCOLD", "SCCDOFFLINE"):
        it = pipe.stage(pkg, pipe.T + "export_change_map.main", method=method, coefs=None if method != "COLD" else "a0,c1")
        scattered(r, "export_change_map:" + method, it, tiles, env)
        mosaics(r, "export_change_map:" + method, it, tiles, env)
    pc = "pycold.pyclassifier.PyClassifierHPC."
    for m in ("step1_feature_generation", "step3_classification", "step3_classification_sccd", "step4_assemble", "step4_assemble_sccd", "get_fullfeature_forcertainyear"):
        q = pkg.resolve(pc + m)
        if q is None or q[0] != "func":
            continue
        it = P.Interp(pkg, stop=pipe.STOP).run(pc + m)
        if m.startswith("step1"):
            scattered(r, "pyclassifier:" + m, it, tiles, env, lambda t: [{par("block_id"): k} for k in range(1, t.nblocks + 1)])
        elif m.startswith("step3"):
            predicted(r, "pyclassifier:" + m, it, tiles, envx(block_id=1))
        else:
            mosaics(r, "pyclassifier:" + m, it, tiles, env, class_names)
    r.info["grids"] = shapes if not deep else "%d shapes" % len(tiles)
    r.floor("helpers", 5)
    r.floor("split", 4)
    r.floor("pixel", 3)
    r.floor("breaks", 1)
    r.floor("stored", 3)
    r.floor("assembled", 6)


def class_names(t):
    ks = list(range(1, t.nblocks + 1))
    return ["tmp_yearlyclassification%s_block%d.npy" % (y, k) for y in (1983, 1984, "now") for k in reversed(ks)] + \
        ["tmp_feature_year%s_block%d.npy" % (y, k) for y in (1983, 1984, "now") for k in reversed(ks)] + ["tmp_step3_classification_1_finished.txt"]


main("C15", run, explanation="Index expressions and array-movement terms recovered by value numbering are evaluated on arrays of pixel identities, for grids that are not square")
