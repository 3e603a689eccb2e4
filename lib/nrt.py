"""Evaluation of terms over near-real-time packs and stored models (for c21, c30)."""
import collections
import math
import numpy as np
import arrays
import pipe
import pyflow as P
import pyq
import world

NRT = np.dtype([("t_start_since1982", np.int16), ("num_obs", np.int16), ("obs", np.int16, (6, 8)), ("obs_date_since1982", np.int16, 8), ("covariance", np.float32, (6, 36)),
                ("nrt_coefs", np.float32, (6, 6)), ("H", np.float32, 6), ("rmse_sum", np.uint32, 6), ("norm_cm", np.int16), ("cm_angle", np.int16), ("conse_last", np.uint8)])
Pack = collections.namedtuple("SccdOutput", "position rec_cg min_rmse nrt_mode nrt_model nrt_queue")


WHOLE = {"int", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "short", "ushort", "intc", "int_", "longlong", "byte", "ubyte"}


def floats(x, go):
    """arrays of numbers made by the functions of this check"""
    if x.op == "call" and P.gid(x.args[0]) in ("numpy.full", "numpy.zeros", "numpy.ones", "numpy.empty"):
        kw = dict(x.args[2])
        s = go(x.args[1][0] if x.args[1] else kw["shape"])
        v = {"full": lambda: float(go(x.args[1][1] if len(x.args[1]) > 1 else kw["fill_value"])), "ones": lambda: 1.0}.get(P.gid(x.args[0])[6:], lambda: 0.0)()
        full = P.gid(x.args[0]) == "numpy.full"
        d = kw.get("dtype") or (x.args[1][1 + full] if len(x.args[1]) > 1 + full else None)
        d = (P.gid(d) or (d.args[0] if d.op == "const" and isinstance(d.args[0], str) else "")).split(".")[-1] if d is not None else ""
        if d in WHOLE:      # stored values lose their fraction
            return np.full(s, int(v), dtype=np.int64 if not d.startswith("u") else np.uint64)
        return np.full(s, v)
    if x.op == "call" and P.gid(x.args[0]) in ("numpy.median", "numpy.matmul", "numpy.inner", "numpy.multiply", "numpy.subtract", "numpy.nan_to_num", "math.cos", "math.sin"):
        g = P.gid(x.args[0])
        return getattr(np if g[0] == "n" else math, g.split(".")[1])(*[go(y) for y in x.args[1]], **{k: go(v) for k, v in x.args[2]})
    if x.op == "glob" and x.args[0] in ("numpy.pi", "math.pi"):
        return math.pi
    if x.op == "attr" and x.args[1] in NRT.names:
        return None
    if x.op == "sub" and x.args[1].op == "const" and x.args[1].args[0] in NRT.names:
        return go(x.args[0])[x.args[1].args[0]]
    if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] in ("dot", "index", "count", "get", "copy", "_replace", "item", "nonzero"):
        b = go(x.args[0].args[0])
        if isinstance(b, (np.ndarray, list, dict, np.generic, Pack)):
            return getattr(b, x.args[0].args[1])(*[go(y) for y in x.args[1]], **{k: go(y) for k, y in x.args[2]})
    return None


def hook(it):
    h = world.hook(it, pipe.mpi(0, 1, arrays.hook(pipe.Tile(1, 1, 2, 3), None, None, floats)), None)

    def top(x, go):
        v = floats(x, go)
        return v if v is not None else h(x, go)
    return top


def value(it, env):
    try:
        return pyq.ev(it.ret, env, hook(it))
    except pipe.FAIL:
        return None


def ints(m):
    """the record with its small integers widened, so that only the definition matters"""
    d = []
    for n in m.dtype.names:
        t = m.dtype[n]
        b, s = t.subdtype if t.subdtype else (t, ())
        d.append((n, np.float64 if b.kind == "f" else np.int64, s))
    out = np.zeros(m.shape, dtype=d)
    for n in m.dtype.names:
        out[n] = m[n]
    return out
