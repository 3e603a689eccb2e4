"""C21 stored models are evaluated with the detector's convention."""
import datetime
import math
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import cflow
import pyflow as P
import worlds
from nrt import NRT, Pack, value, ints
from llir import Ins
from pipe import par
from report import main

W = 2 * math.pi / 365.25
NAMES = ["a0", "c1", "a1", "b1", "a2", "b2", "a3", "b3", "rmse"]
DT = np.dtype([("t_start", np.int32), ("t_end", np.int32), ("t_break", np.int32), ("pos", np.int32), ("num_obs", np.int32), ("category", np.short), ("change_prob", np.short),
               ("coefs", np.float32, (7, 8)), ("rmse", np.float32, 7), ("magnitude", np.float32, 7)])
LAUNCH = 723742


def basis(d, n):
    b = [1.0, d / 10000.0]
    for k in (1, 2, 3):
        b += [math.cos(k * W * d), math.sin(k * W * d)]
    return b[:n]


def interp(pkg, f):
    it = P.Interp(pkg)
    it.small_unroll = True
    it.fail = (lambda g: False, "")
    it.run(f)
    return it


def run(r):
    r.rule("basis", "the regressors at a date are 1, date/10000, then cosine and sine of 2*pi*k*date/365.25 for k = 1, 2, 3, in this order")
    r.rule("predict", "a prediction is the sum of coefficient times regressor at that date")
    r.rule("magnitude", "the near-real-time change magnitude is, per band, the median difference between each of the last conse_last observations of the model tail and the prediction at its own date")
    r.rule("features", "a feature of a date is the named coefficient of the asked band of the segment that covers the date (a0: the level at the date, c1: the slope per day, nan: 0), else the fill value")
    r.rule("native", "the native prediction and the regressors of the native fit follow the same definition for 2, 4, 6 and 8 coefficients")
    pkg = P.Package()
    u = "pycold.utils."
    dates = (723742, 726000, 730485, 738000)
    it = interp(pkg, u + "coefficient_matrix")
    for n in (4, 6, 8):
        bad, open_ = None, False
        for d in dates:
            v = value(it, {par("dates"): d, par("num_coefficients"): n})
            if v is None:
                open_ = True
                continue
            want = basis(d, n)
            if np.shape(v) != (n,):
                bad = bad or "%s regressors for %d coefficients" % (np.shape(v), n)
                continue
            for k in range(n):
                if abs(v[k] - want[k]) > 1e-9 and bad is None:
                    bad = "regressor %d of %d at date %d is %.6f, the detector uses %.6f" % (k, n, d, v[k], want[k])
        if open_ and bad is None:
            r.undecided("basis", str(n), "value not closed", u + "coefficient_matrix")
        else:
            r.check(bad is None, "basis", str(n), bad or "", u + "coefficient_matrix")
    it = interp(pkg, u + "predict_ref")
    for n in (4, 6, 8):
        bad, open_ = None, False
        for d in dates:
            c = np.array([100.0, -37.0, 20.0, 30.0, 7.0, 5.0, 2.0, 3.0][:n])
            v = value(it, {par("model"): c, par("dates"): d, par("num_coefficients"): n})
            if v is None or np.size(v) != 1:
                open_ = True
                continue
            want = float(np.dot(c, basis(d, n)))
            if abs(float(v) - want) > 1e-6 and bad is None:
                bad = "the prediction with %d coefficients at date %d is %.5f, expected %.5f" % (n, d, float(v), want)
        if open_ and bad is None:
            r.undecided("predict", str(n), "value not closed", u + "predict_ref")
        else:
            r.check(bad is None, "predict", str(n), bad or "", u + "predict_ref")
    magnitude(r, pkg, u + "calculate_sccd_cm")
    for f in ("pycold.pyclassifier.extract_features", "pycold.imagetool.export_change_map.extract_features"):
        features(r, pkg, f)
    native(r)


def magnitude(r, pkg, f):
    it = interp(pkg, f)
    rng = np.random.default_rng(3)
    for tail in (6, 8, 4):
        for last in sorted({1, 2, 3, tail - 1, tail}):
            m = np.zeros(1, dtype=NRT)
            m["obs_date_since1982"][0, :tail] = 9000 + np.cumsum(rng.integers(1, 40, tail))
            m["obs"][0, :, :tail] = rng.integers(-2000, 9000, (6, tail))
            m["nrt_coefs"][0] = rng.normal(0, 300, (6, 6))
            m["conse_last"] = last
            want = []
            for b in range(6):
                want.append(np.median([m["obs"][0, b, k] - np.dot(basis(int(m["obs_date_since1982"][0, k]) + LAUNCH, 6), m["nrt_coefs"][0, b].astype(float)) for k in range(tail - last, tail)]))
            pk = Pack(1, np.array([]), np.zeros(6), 1, ints(m), np.array([]))
            v = value(it, {par("sccd_pack"): pk})
            key = "%dof%d" % (last, tail)
            if v is None:
                r.undecided("magnitude", key, "value not closed", f)
                continue
            v = np.asarray(v, dtype=float)
            ok = v.shape == (6,) and np.abs(v - want).max() < 0.5
            r.check(ok, "magnitude", key, "with %d anomalous of %d tail observations the change magnitudes are %s, expected %s" % (last, tail, np.round(v, 1).tolist(), np.round(want, 1).tolist()), f)


def features(r, pkg, f):
    it = interp(pkg, f)
    short = "export" if "export" in f else "classifier"
    rec = np.zeros(3, DT)
    J = datetime.date.toordinal
    rec["t_start"] = [J(datetime.date(1999, 3, 5)), J(datetime.date(2001, 7, 1)), J(datetime.date(2004, 2, 1))]
    rec["t_end"] = [J(datetime.date(2000, 11, 30)), J(datetime.date(2003, 12, 1)), J(datetime.date(2006, 9, 30))]
    rec["t_break"] = [J(datetime.date(2001, 1, 20)), J(datetime.date(2003, 12, 31)), J(datetime.date(2006, 8, 1))]
    rec["change_prob"] = [100, 100, 50]      # the last break is not confirmed
    rec["coefs"] = (np.arange(3 * 56).reshape(3, 7, 8) * 7 % 191) * 10 + 3.4375
    rec["coefs"][:, 3, :] = np.nan
    rec["rmse"] = np.arange(21).reshape(3, 7) + 500.625
    rec["rmse"][:, 3] = np.nan
    rec["magnitude"] = np.arange(21).reshape(3, 7) * 11 + 700.25
    days = [J(datetime.date(y, 7, 1)) for y in (1998, 1999, 2000, 2001, 2003, 2004, 2006, 2008)]
    days += [int(rec["t_start"][0]) - 1, int(rec["t_start"][0]), int(rec["t_start"][1]) - 1, int(rec["t_end"][0]) + 1, int(rec["t_start"][2])]
    seg = lambda d: next((k for k in (2, 1, 0) if rec["t_start"][k] <= d), None) if d <= rec["t_end"][2] else None
    runs = [("each", NAMES), ("turned", NAMES[::-1]), ("default", ["a0", "a1", "b1"])]
    if short == "export":
        runs.append(("cv", ["rmse", "cv", "c1"]))
    for tag, names in runs:
        bad, open_ = None, False
        for band in (0, 3, 6):
            v = value(it, {par("cold_plot"): rec, par("band"): band, par("ordinal_day_list"): days, par("nan_val"): -9999, par("feature_outputs"): names})
            if v is None:
                open_ = True
                continue
            for n, name in enumerate(names):
                for i, d in enumerate(days):
                    k = seg(d)
                    if name == "cv":
                        y = datetime.date.fromordinal(d).year
                        b = next((q for q in range(2) if datetime.date.fromordinal(int(rec["t_break"][q])).year == y), None)
                        want = float(rec["magnitude"][b][band]) if b is not None else -9999.0
                    elif k is None:
                        want = -9999.0
                    else:
                        c = rec["coefs"][k][band].astype(float)
                        want = c[0] + c[1] * d / 10000 if name == "a0" else c[1] / 10000 if name == "c1" else float(rec["rmse"][k][band]) if name == "rmse" else c[NAMES.index(name)]
                        want = 0.0 if math.isnan(want) else want
                    got = float(v[n][i])
                    if abs(got - want) > 1e-3 * max(1, abs(want)) and bad is None:
                        bad = "%s of band %d at %s is %.4f, expected %.4f%s" % (name, band, datetime.date.fromordinal(d), got, want, "" if k is None else " of the segment from %s" % datetime.date.fromordinal(int(rec["t_start"][k])))
        if open_ and bad is None:
            r.undecided("features", short + ":" + tag, "value not closed", f)
        else:
            r.check(bad is None, "features", short + ":" + tag, bad or "", f)


# ------------------------------------------------------------------ native side

class Open(Exception):
    pass


MATH = {"cos": math.cos, "cosf": math.cos, "sin": math.sin, "sinf": math.sin, "llvm.cos.f32": math.cos, "llvm.sin.f32": math.sin, "llvm.cos.f64": math.cos, "llvm.sin.f64": math.sin}


def num(v, leaf, env, d=0):
    """value of an SSA term; leaf(load) gives the loads"""
    if d > 200:
        raise Open()
    if not isinstance(v, Ins):
        if v.k in ("int", "fp") and v.v is not None:
            return v.v
        if v in env:
            return env[v]
        raise Open()
    if v in env:
        return env[v]
    g = lambda o: num(o, leaf, env, d + 1)
    if v.op in ("sitofp", "uitofp", "fpext", "fptrunc", "sext", "zext", "trunc", "freeze", "fptosi"):
        return g(v.ops[0])
    if v.op in ("fadd", "add"):
        return g(v.ops[0]) + g(v.ops[1])
    if v.op in ("fsub", "sub"):
        return g(v.ops[0]) - g(v.ops[1])
    if v.op in ("fmul", "mul"):
        return g(v.ops[0]) * g(v.ops[1])
    if v.op == "fdiv":
        return g(v.ops[0]) / g(v.ops[1])
    if v.op == "fneg":
        return -g(v.ops[0])
    if v.op == "call" and v.callee.k == "fn":
        n = v.callee.name
        if n in MATH:
            return MATH[n](g(v.ops[0]))
        if n.startswith("llvm.fmuladd"):
            return g(v.ops[0]) * g(v.ops[1]) + g(v.ops[2])
    if v.op == "load":
        return leaf(v)
    raise Open()


def test(c, env):
    """truth of a condition decided by env, else None"""
    if not isinstance(c, Ins):
        return bool(c.v) if c.k == "int" else None
    if c in env:
        return bool(env[c])
    if c.op == "icmp":
        try:
            a, b = num(c.ops[0], _no, env), num(c.ops[1], _no, env)
        except Open:
            return None
        return {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}.get(c.pred)
    if c.op in ("and", "or", "xor", "select"):
        v = [test(o, env) for o in c.ops]
        if c.op == "select":
            return v[1] if v[0] else v[2] if v[0] is False else None
        if c.op == "and":
            return False if False in v else None if None in v else True
        if c.op == "or":
            return True if True in v else None if None in v else False
        return None if None in v else v[0] != v[1]
    if c.op == "phi":
        vs = {test(o, env) for o in c.ops}
        return vs.pop() if len(vs) == 1 else None
    return None


def _no(_):
    raise Open()


def out_of(b, env):
    """successors of a block not excluded by env"""
    t = b.term
    if t.op == "br" and len(b.succs) == 2:
        v = test(t.ops[0], env)
        return [b.succs[0] if v else b.succs[1]] if v is not None else b.succs
    if t.op == "switch":
        try:
            v = num(t.ops[0], _no, env)
        except Open:
            return b.succs
        return switch_to(t, v) or b.succs
    return b.succs


def switch_to(t, v):
    """blocks: default first, then one per case constant in ops[1:]"""
    cases = [o.v for o in t.ops[1:]]
    bl = t.bb.succs
    if t.blocks and len(t.blocks) == len(cases) + 1:
        return [t.blocks[1 + cases.index(v)] if v in cases else t.blocks[0]]
    return None


def reach(fn, env, start=None, stop=()):
    seen, todo = set(), [start or fn.bbs[0]]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        for s in out_of(b, env):
            if s not in stop:
                todo.append(s)
    return seen


def rowof(p):
    """(matrix, row index, column index) of an address m[row][col]"""
    e = worlds.element(p)
    if e is None:
        return None
    base, col = e
    if not (isinstance(base, Ins) and base.op == "load"):
        return None
    e2 = worlds.element(base.ops[0])
    return (e2[0], e2[1], col) if e2 is not None else None


def const(a):
    return a.get(None, 0) if set(a) <= {None} else None


DATES = (723742, 726000, 730485, 738000)


def native(r):
    keep = ("auto_ts_predict_float", "auto_ts_fit_float", "auto_ts_fit_sccd", "c_glmnet")
    m = cflow.module(inline=True, files=("misc.c",), keep=keep, passes="function(sroa,early-cse,sccp,adce)")
    f = m.fns.get("auto_ts_predict_float")
    if f is not None and not f.decl:
        predict(r, f)
    for n in ("auto_ts_fit_float", "auto_ts_fit_sccd"):
        f = m.fns.get(n)
        if f is not None and not f.decl:
            fit(r, f)
    r.floor("native", 4)


def predict(r, f):
    clrx, coefs, df, band, start, pred = f.args[0], f.args[1], f.args[2], f.args[3], f.args[4], f.args[6]
    for n in (2, 4, 6, 8):
        key = "%s:%d" % (f.name, n)
        live = reach(f, {df: n})
        stores = [(i, worlds.element(i.ops[1])) for b in live for i in b.ins if i.op == "store"]
        stores = [(i, e[1]) for i, e in stores if e is not None and e[0] is pred]
        if not stores:
            r.undecided("native", key, "no store of a prediction found", f.name)
            continue
        bad, open_ = None, False
        for s, idx in stores:
            for d in DATES:
                c = [100.0, -37.0, 20.0, 30.0, 7.0, 5.0, 2.0, 3.0]
                off = []

                def leaf(v):
                    e = worlds.element(v.ops[0])
                    if e is not None and e[0] is clrx:
                        off.append(worlds.comb(e[1], idx, -1))
                        return d
                    q = rowof(v.ops[0])
                    if q is not None and q[0] is coefs:
                        k = const(q[2])
                        if k is None:
                            raise Open()
                        if q[1] != {band: 1}:
                            off.append("band")
                        return c[k] if k < 8 else math.nan
                    raise Open()
                try:
                    v = num(s.ops[0], leaf, {df: n})
                except Open:
                    open_ = True
                    continue
                want = float(np.dot(c[:n], basis(d, n)))
                if abs(v - want) > 0.5 and bad is None:
                    bad = "the native prediction with %d coefficients at date %d is %.4f, expected %.4f" % (n, d, v, want)
                if any(o != {start: 1} for o in off) and bad is None:
                    bad = "the prediction of an observation uses another observation's date or another band's model"
        if open_ and bad is None:
            r.undecided("native", key, "value not closed", f.name)
        else:
            r.check(bad is None, "native", key, bad or "", stores[0][0].where())


def fit(r, f):
    clrx, clry, bandi, lasso, start, df, coefs = f.args[0], f.args[1], f.args[2], f.args[3], f.args[4], f.args[6], f.args[7]
    for n in (2, 4, 6, 8):
        key = "%s:%d" % (f.name, n)
        live = reach(f, {df: n})
        calls = [i for b in live for i in b.ins if i.op == "call" and i.callee.k == "fn" and i.callee.name == "c_glmnet"]
        if not calls:
            continue                   # refused: this number of coefficients is not fitted here
        cols, bad, open_, where = {}, None, False, calls[0].where()
        for b in live:
            for i in b.ins:
                if i.op != "store" or i.ops[0].ty not in ("float", "double"):
                    continue
                q = rowof(i.ops[1])
                if q is None or q[0] is coefs:
                    continue
                row = const(q[1])
                if row is None or not isinstance(q[0], Ins):
                    continue
                for d in DATES:
                    off = []

                    def leaf(v):
                        e = worlds.element(v.ops[0])
                        if e is not None and e[0] is clrx:
                            off.append(worlds.comb(e[1], q[2], -1))
                            return d
                        raise Open()
                    try:
                        cols.setdefault(row, []).append((d, num(i.ops[0], leaf, {df: n}), i))
                    except Open:
                        continue
                    if any(o != {start: 1} for o in off):
                        bad = bad or "the regressors of an observation are computed from another observation's date"
        for k in range(n - 1):
            if k not in cols:
                open_ = True
                continue
            for d, v, i in cols[k]:
                want = float(d) if k == 0 else basis(d, n)[k + 1]
                if abs(v - want) > 1e-2 and bad is None:
                    where = i.where()
                    bad = "regressor %d of the native fit with %d coefficients at date %d is %.4f, expected %.4f" % (k, n, d, v, want)
        if open_ and bad is None:
            r.undecided("native", key, "regressors not closed", f.name)
        else:
            r.check(bad is None, "native", key, bad or "", where)
        scale(r, f, n, live, coefs, df)


def scale(r, f, n, live, coefs, df):
    """stored coefficient j = fitted coefficient j, the slope times 10000"""
    key = "%s:%d:stored" % (f.name, n)
    bad, seen, where = None, set(), ""
    for b in live:
        for i in b.ins:
            if i.op != "store":
                continue
            q = rowof(i.ops[1])
            if q is None or q[0] is not coefs:
                continue
            if not isinstance(i.ops[0], Ins):
                continue
            ph = [x for x in q[2] if x is not None]
            if len(ph) != 1 or q[2] != {ph[0]: 1} or ph[0].op != "phi":
                continue
            j = ph[0]
            for k in range(n):
                env = {df: n, j: k}
                if b not in reach(f, env, j.bb):
                    continue
                # reached inside this iteration: do not pass the loop head again
                if b is not j.bb and b not in reach(f, env, next(iter(out_of(j.bb, env))), stop=(j.bb,)):
                    continue
                src = []

                def leaf(v):
                    src.append(v)
                    return 1.0
                try:
                    v = num(pick(i.ops[0], env), leaf, env)
                except Open:
                    continue
                if len(src) != 1:
                    continue
                seen.add(k)
                where = i.where()
                want = 10000.0 if k == 1 else 1.0
                g = src[0].ops[0]
                a = worlds.affine(g.ops[1]) if isinstance(g, Ins) and g.op == "gep" and len(g.ops) == 2 else None
                if a is not None and set(a) <= {j, None} and a.get(j) == 1 and a != {j: 1} and bad is None:
                    bad = "with %d coefficients, stored coefficient %d is fitted coefficient %d" % (n, k, k + a[None])
                if abs(v - want) > 1e-6 and bad is None:
                    bad = "with %d coefficients, stored coefficient %d is the fitted one times %g, expected times %g" % (n, k, v, want)
    if bad is None and seen != set(range(n)):
        r.undecided("native", key, "stored coefficients not closed", f.name)
    else:
        r.check(bad is None, "native", key, bad or "", where)


def pick(v, env):
    while isinstance(v, Ins) and v.op == "select":
        t = test(v.ops[0], env)
        if t is None:
            break
        v = v.ops[1] if t else v.ops[2]
    return v


main("C21", run, explanation="The prediction, magnitude and feature functions are turned into terms by value numbering (loops by their recurrences) and evaluated on models built so that every coefficient, "
     "band, date and segment is told apart; the native prediction and design columns are read from the compiled intermediate representation per number of coefficients and compared with the same definition")
