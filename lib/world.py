"""Evaluation of terms over record arrays: loop-carried values by their recurrence, structured arrays, packs."""
import numpy as np
import pyflow as P
import pipe
import pyq
from pyq import Unknown

FIELDS = {"t_start", "t_end", "t_break", "pos", "num_obs", "category", "change_prob", "coefs", "rmse", "magnitude", "obs", "obs_date_since1982", "num_obs_day", "covariance", "H",
          "cm_outputs", "cm_outputs_date", "anomaly", "norm_cm", "cm_angle", "t_start_since1982", "clry", "clrx_since1982", "position", "rec_cg", "min_rmse", "nrt_mode", "nrt_model", "nrt_queue"}
CAST = {"int8": np.int8, "byte": np.int8, "int16": np.int16, "short": np.int16, "int32": np.int32, "int64": np.int64, "uint8": np.uint8, "uint16": np.uint16, "float32": np.float32,
        "float64": np.float64, "double": np.float64, "float": float, "int": np.int64, "bool": bool, "bool_": bool}


def hook(it, inner, packs=None):
    """inner plus: mu/eta of a loop as recurrence, fields, sorting by field, casts; packs: what a loop of pickle.load collects"""
    def rec(x, go, lid, name, last):
        info = it.loopinfo.get(lid)
        if info is None or info.get("iter") is None or name not in info["updates"]:
            raise Unknown("mu")
        el = info["elem"]
        its = sorted((y for y in P.walk(el) if y.op == "iterel"), key=lambda y: -y.args[1])
        if not its:
            raise Unknown("mu")
        key = its[0]
        if last:
            n = go(key.args[0])
            k = int(n)
            for j in range(k) if info.get("breaks") else ():
                env = dict(go.env)
                env[key] = j
                for c, b in info["breaks"]:
                    if name in b and pyq.ev(c, env, h):
                        return pyq.ev(b[name], env, h)
        else:
            k = int(go(key))
        pre, upd = info["pre"][name], info["updates"][name]
        if k == 0:
            if pre is None:
                raise Unknown("unset")
            return go(pre)
        env = dict(go.env)
        env[key] = k - 1
        return pyq.ev(upd, env, h)

    def h(x, go):
        if x.op == "not":
            v = go(x.args[0])
            return np.logical_not(v) if isinstance(v, np.ndarray) else not v
        if x.op == "update":
            b = go(x.args[0])
            if isinstance(b, list):
                i, v = go(x.args[1]), go(x.args[2])
                b = list(b)
                b[i] = v
                return b
            if isinstance(b, np.ndarray):
                i, v = go(x.args[1]), go(x.args[2])
                b = b.copy()
                b[tuple(i) if isinstance(i, (tuple, list)) else i] = v
                return b
            return inner(x, go)
        if x.op == "exc":
            return False
        if x.op == "mu" and isinstance(x.args[1], str):
            return rec(x, go, x.args[0], x.args[1], False)
        if x.op == "eta" and isinstance(x.args[1], str):
            info = it.loopinfo.get(x.args[0])
            if packs is not None and info is not None and info["updates"].get(x.args[1]) is not None and any(
                    y.op == "call" and P.gid(y.args[0]) == "pickle.load" for y in P.walk(info["updates"][x.args[1]])):
                return packs
            return rec(x, go, x.args[0], x.args[1], True)
        if x.op == "mut" and x.args[1] == "sort":
            kw = dict(x.args[3])
            if "order" in kw:
                return np.sort(go(x.args[0]), order=go(kw["order"]), kind="stable")
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.sort", "numpy.argsort") and "order" in dict(x.args[2]):
            f = np.sort if P.gid(x.args[0]) == "numpy.sort" else np.argsort
            return f(go(x.args[1][0]), order=go(dict(x.args[2])["order"]), kind="stable")
        if x.op == "call" and x.args[0].op in ("attr", "bound") and x.args[0].args[1] == "astype" and x.args[1]:
            t = CAST.get((P.gid(x.args[1][0]) or "").split(".")[-1])
            b = go(x.args[0].args[0])
            if t is not None and isinstance(b, (np.ndarray, np.generic)):
                return b.astype(t)
            return b
        if x.op == "call" and P.gid(x.args[0]) in ("numpy.diff", "numpy.argwhere", "numpy.flatnonzero", "numpy.unique", "numpy.where", "numpy.split", "numpy.floor", "numpy.abs", "numpy.cos",
                                                   "numpy.sin", "numpy.dot", "numpy.isnan", "numpy.sum", "numpy.logical_or", "numpy.logical_and", "numpy.logical_not",
                                                   "numpy.count_nonzero", "numpy.mean", "numpy.any", "numpy.all", "numpy.isin", "numpy.in1d", "numpy.max", "numpy.min", "numpy.not_equal", "numpy.equal"):
            g = P.gid(x.args[0]).split(".")[-1]
            v = [go(y) for y in x.args[1]]
            if any(isinstance(q, (np.ndarray, np.generic, float, int)) for q in v):
                return getattr(np, g)(*v, **{k: go(q) for k, q in x.args[2]})
            return None
        if x.op == "sub" and x.args[1].op == "const" and x.args[1].args[0] in FIELDS:
            b = go(x.args[0])
            if hasattr(b, "_fields"):
                return getattr(b, x.args[1].args[0])
            return b[x.args[1].args[0]]
        if x.op == "sub" and not (x.args[1].op == "const" and isinstance(x.args[1].args[0], str)):
            try:
                b = go(x.args[0])
            except pipe.FAIL:
                return inner(x, go)
            if isinstance(b, (np.void, np.ndarray, list, tuple)):
                i = go(x.args[1])
                if isinstance(b, (list, tuple)) and isinstance(i, (tuple, list, np.ndarray)):
                    raise Unknown("index")
                return b[i]
            return inner(x, go)
        if x.op == "attr" and x.args[1] in FIELDS:
            b = go(x.args[0])
            if hasattr(b, "_fields"):
                return getattr(b, x.args[1])
            return inner(x, go)
        return inner(x, go)
    return h
