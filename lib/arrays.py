"""Array-movement terms evaluated on small index arrays: every element of a source array carries the identity of
the pixel (and band, and date) it stands for, so a term shows which pixel ends up where."""
import math
import re
import numpy as np
import pyflow as P
import pipe
from pyq import Unknown

UNIT = 1000000
NBAND = 16


def code(pixel, band, date):
    return (pixel * NBAND + band) * UNIT + date


def decode(v):
    v = np.asarray(v)
    return v // UNIT // NBAND, v // UNIT % NBAND, v % UNIT


class Grid:
    """identity of the pixels of a tile: 0-based row-major index"""
    def __init__(self, t):
        self.t = t
        self.full = np.arange(t.n_rows * t.n_cols).reshape(t.n_rows, t.n_cols)

    def block(self, bx, by):
        t = self.t
        if not (1 <= bx <= t.n_block_x and 1 <= by <= t.n_block_y):
            raise Unknown("no block %d,%d" % (bx, by))
        return self.full[(by - 1) * t.block_height:by * t.block_height, (bx - 1) * t.block_width:bx * t.block_width]


def strided(a, shape, strides):
    """view of a by element numbers, the item size being the smallest step"""
    a = np.asarray(a).ravel()
    it = min(s for s in strides if s > 0)
    if any(s % it for s in strides):
        raise Unknown("strides")
    ix = np.zeros(tuple(shape), dtype=np.int64)
    for d, (n, s) in enumerate(zip(shape, strides)):
        v = np.arange(n) * (s // it)
        ix = ix + v.reshape([-1 if k == d else 1 for k in range(len(shape))])
    out = np.full(ix.shape, -1, dtype=np.int64)
    ok = ix < a.size
    out[ok] = a[ix[ok]]
    return out


def A(v):
    return v if isinstance(v, np.ndarray) else np.asarray(v)


NP = {
    "numpy.dstack": lambda v: np.dstack([A(x) for x in v]), "numpy.hstack": lambda v: np.hstack([A(x) for x in v]), "numpy.vstack": lambda v: np.vstack([A(x) for x in v]),
    "numpy.row_stack": lambda v: np.vstack([A(x) for x in v]), "numpy.column_stack": lambda v: np.column_stack([A(x) for x in v]),
    "numpy.concatenate": lambda v, axis=0: np.concatenate([A(x) for x in v], axis=axis), "numpy.stack": lambda v, axis=0: np.stack([A(x) for x in v], axis=axis),
    "numpy.append": lambda a, b, axis=None: np.append(A(a), A(b), axis=axis),
    "numpy.hsplit": lambda a, n: np.hsplit(A(a), n), "numpy.vsplit": lambda a, n: np.vsplit(A(a), n), "numpy.split": lambda a, n, axis=0: np.split(A(a), n, axis=axis),
    "numpy.array_split": lambda a, n, axis=0: np.array_split(A(a), n, axis=axis),
    "numpy.reshape": lambda a, s, **k: np.reshape(A(a), s, **k), "numpy.transpose": lambda a, *s: np.transpose(A(a), *s), "numpy.ravel": lambda a, **k: np.ravel(A(a), **k),
    "numpy.squeeze": lambda a, *s, **k: np.squeeze(A(a), *s, **k), "numpy.expand_dims": lambda a, axis: np.expand_dims(A(a), axis),
    "numpy.swapaxes": lambda a, i, j: np.swapaxes(A(a), i, j), "numpy.moveaxis": lambda a, i, j: np.moveaxis(A(a), i, j),
    "numpy.flip": lambda a, axis=None: np.flip(A(a), axis), "numpy.fliplr": lambda a: np.fliplr(A(a)), "numpy.flipud": lambda a: np.flipud(A(a)), "numpy.rot90": lambda a, *k: np.rot90(A(a), *k),
    "numpy.argsort": lambda a, **k: np.argsort(A(a), kind="stable"), "numpy.sort": lambda a, **k: np.sort(A(a), **{q: v for q, v in k.items() if q == "axis"}),
    "numpy.asarray": lambda a: A(a) if not isinstance(a, (int, float, pipe.Stamp)) else a, "numpy.array": lambda a: A(a) if not isinstance(a, (int, float, pipe.Stamp)) else a,
    "numpy.ascontiguousarray": A, "numpy.copy": A, "numpy.block": lambda v: np.block(v), "numpy.tile": lambda a, n: np.tile(A(a), n), "numpy.repeat": lambda a, n, axis=None: np.repeat(A(a), n, axis),
    "numpy.unravel_index": lambda i, s: tuple(int(v) for v in np.unravel_index(i, s)), "numpy.ravel_multi_index": lambda i, s: int(np.ravel_multi_index(tuple(i), s)),
    "numpy.lib.stride_tricks.as_strided": lambda a, shape=None, strides=None: strided(a, shape, strides), "numpy.nonzero": lambda a: np.nonzero(A(a)),
    "numpy.roll": lambda a, n, axis=None: np.roll(A(a), n, axis), "numpy.meshgrid": lambda *a, **k: tuple(np.meshgrid(*[A(x) for x in a], **k)),
    "numpy.arange": lambda *a: np.arange(*a), "numpy.indices": lambda s: np.indices(s),
}
AM = {"reshape", "transpose", "swapaxes", "flatten", "ravel", "squeeze", "repeat"}


def hook(tile, load=None, names=None, extra=None):
    """values of array terms; load(path) gives the array behind a file, names(dir) a directory's listing"""
    def h(x, go):
        if extra is not None:
            v = extra(x, go)
            if v is not None:
                return v
        if x.op == "call":
            f, a, kw = x.args[0], x.args[1], dict(x.args[2])
            if f.op == "glob":
                g = f.args[0]
                if g in ("numpy.load", "osgeo.gdal_array.LoadFile") and load is not None:
                    return load(go(a[0]))
                if g in NP:
                    kw = {k: go(v) for k, v in kw.items() if k not in ("dtype", "copy", "subok", "writeable", "kind")}
                    n = len(a) if g not in ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray") else 1
                    return NP[g](*[go(y) for y in a[:n]], **kw)
                if g in ("range", "list", "tuple", "reversed", "zip", "enumerate", "len"):
                    vs = [go(y) for y in a]
                    if any(isinstance(v, np.ndarray) for v in vs) and not kw:
                        if g == "len":
                            return len(vs[0])
                        return {"list": list, "tuple": tuple, "reversed": lambda v: list(reversed(v)), "zip": lambda *q: list(zip(*q)),
                                "enumerate": lambda q: list(enumerate(q)), "range": lambda *q: range(*[int(v) for v in q])}[g](*vs)
                if g in ("numpy.full", "numpy.zeros", "numpy.empty", "numpy.ones"):
                    s = go(a[0] if a else kw["shape"])
                    return np.full(s, -1, dtype=np.int64)
            elif f.op in ("attr", "bound") and f.args[1] in AM:
                b = go(f.args[0])
                if isinstance(b, (np.ndarray, list, tuple)):
                    kw = {k: go(v) for k, v in kw.items()}
                    return getattr(A(b), f.args[1])(*[go(y) for y in a], **kw)
        if x.op == "attr" and x.args[1] in ("T", "shape", "size", "ndim"):
            b = go(x.args[0])
            if isinstance(b, np.ndarray):
                return getattr(b, x.args[1])
            return None
        if x.op == "sub" and not (x.args[1].op == "const" and isinstance(x.args[1].args[0], str)):
            b = go(x.args[0])
            if isinstance(b, np.ndarray):
                i = go(x.args[1])
                return b[tuple(list(q) if isinstance(q, tuple) else q for q in i) if isinstance(i, tuple) else i]
            if isinstance(b, (list, tuple)):
                i = go(x.args[1])
                if isinstance(i, (list, np.ndarray)):
                    return [b[int(k)] for k in i]
                if isinstance(i, (int, np.integer, slice)):
                    return b[i]
            return None
        if x.op == "comp" and x.args[0] != "set":
            return None
        return None
    inner = pipe.hook(tile, h)
    return pipe.listing(names, inner) if names is not None else inner


BLOCK = re.compile(r"block_x(\d+)_y(\d+)")


def stack_names(ordinals, prefixes=("LT05_CU_0", "LE07_CU_0", "S30T10SEG")):
    """names of stack files in a scrambled order, with files that do not belong to the stack"""
    import datetime
    out = []
    for k, o in enumerate(ordinals):
        d = datetime.date.fromordinal(o)
        out.append("%s%04d%03d.npy" % (prefixes[k % len(prefixes)], d.year, d.timetuple().tm_yday))
    out.insert(1, "starting.txt")
    return out


def ordinal_of(name):
    import datetime
    y, d = int(name[9:13]), int(name[13:16])
    return datetime.date(y, 1, 1).toordinal() + d - 1
