"""C23 random choices are drawn from seeded generators and results do not depend on the listing order of the file system."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import arrays
import pipe
import pyflow as P
import pyq
import world
from pipe import par
from report import main

# what is not the same in every run
VOLATILE = re.compile(r"^(time\.\w+|datetime\.(datetime|date)\.(now|today|utcnow)|os\.(urandom|getpid|getppid|times)|secrets\.\w+|uuid\.uuid[14]|random\.SystemRandom|hash|id|pandas\.Timestamp\.(now|today)|numpy\.random\.\w+|random\.\w+)$")
MAKERS = {"numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox", "random.Random"}
WRAPS = {"numpy.random.Generator", "numpy.random.BitGenerator"}
SEEDS = {"numpy.random.seed": "numpy", "random.seed": "random", "numpy.random.set_state": "numpy", "random.setstate": "random"}
QUIET = {"numpy.random.get_state", "random.getstate"}
ESTIMATOR = re.compile(r"^sklearn\..*\.(\w*Forest\w*|\w*ExtraTrees\w*|\w*Boosting\w*|\w*DecisionTree\w*|\w*Bagging\w*|AdaBoost\w*|\w*KMeans|MLP\w*|train_test_split|shuffle|resample|\w*ShuffleSplit|RandomizedSearchCV|permutation_importance|\w*GaussianMixture|RandomTreesEmbedding|SGD\w*|TruncatedSVD)$")


def calls(it):
    return [e for e in it.events if e.kind == "call"]


def volatile(t):
    """a source of run-dependent values inside a term"""
    for x in P.walk(t):
        g = P.gid(x.args[0]) if x.op == "call" else None
        if g and VOLATILE.match(g) and g not in MAKERS:
            return g
        if g in MAKERS and not (x.args[1] or x.args[2]):
            return g + "()"
    return None


def unseeded(t, defaults):
    """why a seed argument does not fix the generator"""
    if t is None:
        return "no seed is given"
    if P.is_const(t, None) or (P.is_const(t) and P.cval(t) is None):
        return "the seed is None"
    v = volatile(t)
    if v:
        return "the seed comes from %s" % v
    if t.op == "param" and t.args[0] in defaults and defaults[t.args[0]] is None:
        return "the seed is None unless the user gives one"
    return None


def none_defaults(pkg, f):
    k = pkg.resolve(f)
    out = {}
    if k and k[0] == "func":
        a = k[1].node.args
        for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if getattr(d, "value", 0) is None:
                out[p.arg] = None
    return out


def dominated(seed, draw):
    """the seed call happens in every run, and in every round of the loops, in which the draw happens"""
    return all(g in draw.guards for g in seed.guards) and tuple(draw.loops[:len(seed.loops)]) == tuple(seed.loops)


def draws(it):
    out = []
    for k, e in enumerate(it.events):
        if e.kind != "call":
            continue
        g = P.gid(e.f) or ""
        fam = "numpy" if g.startswith("numpy.random.") else "random" if g.startswith("random.") else None
        if fam and g not in MAKERS | WRAPS | set(SEEDS) | QUIET:
            out.append((k, e, "draw", fam))
        elif g in MAKERS:
            out.append((k, e, "make", fam))
        elif ESTIMATOR.match(g):
            out.append((k, e, "estimator", g.rsplit(".", 1)[1]))
    return out


def seeded(r, pkg, runs):
    """every draw, in every entry point that reaches it"""
    n = 0
    for f, it in runs.items():
        df = none_defaults(pkg, f)
        for k, e, kind, what in draws(it):
            n += 1
            key = "%s:%s:%d" % (f.split(".", 1)[1], what, e.line)
            if kind == "draw":
                ss = [s for s in it.events[:k] if s.kind == "call" and SEEDS.get(P.gid(s.f)) == what and dominated(s, e)]
                why = "no seed of the %s generator is set on every path before it" % what
                if ss:
                    why = unseeded(ss[-1].arg(0, "seed") or ss[-1].arg(0, "a") or ss[-1].arg(0, "state"), df)
                if (P.gid(e.f) or "").startswith("random.SystemRandom"):
                    why = "the system generator cannot be seeded"
            elif kind == "make":
                why = unseeded(e.arg(0, "seed") or e.arg(0, "x"), df)
            else:
                why = unseeded(dict(e.kw).get("random_state"), df)
                if why == "no seed is given":
                    gs = [s for s in it.events[:k] if s.kind == "call" and P.gid(s.f) == "numpy.random.seed" and dominated(s, e)]
                    why = unseeded(gs[-1].arg(0, "seed"), df) if gs else "no random_state is given"
            r.check(why is None, "seed", key, "%s is not reproducible: %s" % ({"draw": "the random draw", "make": "the generator", "estimator": what}[kind], why), e.where())
    return n


def outputs(it):
    """arrays that leave a stage: saved, written to a raster, given to a detector or to the training"""
    for e in calls(it):
        g = P.gid(e.f) or ""
        m = e.f.args[1] if e.f.op in ("attr", "bound") and len(e.f.args) > 1 else None
        if g in ("numpy.save", "numpy.savetxt", "joblib.dump", "pickle.dump"):
            yield e, [a for a in (e.arg(0), e.arg(1), dict(e.kw).get("arr")) if a is not None]
        elif m in ("WriteArray", "fit", "predict", "tofile", "dump"):
            yield e, list(e.args) + [v for _, v in e.kw]
        elif g.endswith(("cold_detect", "sccd_detect", "sccd_update", "obcold_reconstruct")):
            yield e, list(e.args) + [v for _, v in e.kw]


def clock(r, runs):
    n = 0
    seen = set()
    for f, it in runs.items():
        for e, ts in outputs(it):
            v = None
            for t in ts:
                for x in P.walk(t):
                    g = P.gid(x.args[0]) if x.op == "call" else None
                    if g and VOLATILE.match(g) and not g.startswith(("numpy.random.", "random.")):
                        v = g
            k = (e.where(), v)
            if k in seen:
                continue
            seen.add(k)
            n += 1
            r.check(v is None, "clock", "%s:%d" % (f.split(".", 1)[1], e.line), "the value written here depends on %s" % v, e.where())
    return n


NAMES = ["LT05_CU_02000%03d.npy" % d for d in (300, 12, 100, 45)] + ["S30T10SEG2019%03d.npy" % d for d in (9, 200)] + ["tmp.txt"] + [
    "tmp_feature_year2001_block%d.npy" % b for b in (6, 2, 4, 1, 3, 5)] + ["tmp_yearlyclassification2001_block%d.npy" % b for b in (2, 1, 6, 5, 4, 3)] + [
    "obiaresult_%d_x1_y1.npy" % o for o in (730500, 730120, 735000)] + ["record_change_x%d_y%d_cold.npy" % (x, y) for x, y in ((2, 1), (1, 1), (1, 3), (2, 2), (2, 3), (1, 2))]
ENV = {"block_x": 1, "block_y": 1, "year": 2001, "stack_path": "S", "block_folder": "S/block_x1_y1", "low_datebound": 0, "high_datebound": 0, "nband": 8, "tmp_path": "T", "obia_path": "O", "output_path": "O",
       "feature_outputs": ["a0", "a1"], "band_num": 1, "feature_output": ["a0", "a1"], "record_path": "R", "n_features": 2, "logger": None, "total_bands": 8, "folder_path": "S"}


def listed(t):
    """files of a listed directory, read"""
    g = {P.gid(x.args[0]) or "" for x in P.walk(t) if x.op == "call"}
    return bool(g & {"os.listdir", "glob.glob", "os.scandir", "os.walk"} and g & {"numpy.load", "numpy.fromfile", "osgeo.gdal_array.LoadFile", "numpy.genfromtxt"})


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and bool((np.asarray(a) == np.asarray(b)).all())
    return a == b


def order(r, pkg):
    """readers of a directory return the same whatever order the file system lists it in"""
    t = pipe.Tile(2, 3, 3, 2)
    its = {}
    for m, f in pkg.all_functions():
        it = P.Interp(pkg)
        it.small_unroll = True
        it.fail = (lambda g: False, "")
        it.run(m + "." + f)
        if it.ret is not None and listed(it.ret):
            its[m + "." + f] = it
    for d, it in its.items():
        if any(e.kind == "enter" and e.f.args[0] in its and e.f.args[0] != d for e in it.events):
            continue              # decided at the function it calls

        def load(p):
            w = {"tmp_fe": 2, "tmp_ye": 1, "obiare": 1}.get(os.path.basename(p)[:6], 8)
            h = abs(hash_(os.path.basename(p)))
            return h % 997 + np.arange(t.block_width * t.block_height * w).reshape(t.block_width * t.block_height, w)
        env = {par(k): v for k, v in ENV.items()}
        env[par("total_pixels")] = t.block_width * t.block_height
        vals = []
        for names in (NAMES, NAMES[::-1], NAMES[5:] + NAMES[:5]):
            h = world.hook(it, pipe.mpi(0, 1, arrays.hook(t, load, lambda p, q=names: list(q), None)), None)
            try:
                vals.append(pyq.ev(it.ret, env, h))
            except pipe.FAIL:
                vals = None
                break
        if vals is None:
            r.undecided("order", d.split(".", 1)[1], "value returned from a directory listing not closed", d)
        else:
            r.check(all(same(v, vals[0]) for v in vals), "order", d.split(".", 1)[1], "what is returned depends on the order in which the file system lists the directory", pkg.resolve(d)[1].module.path + ":%d" % pkg.resolve(d)[1].node.lineno)


def hash_(s):
    h = 7
    for c in s:
        h = (h * 31 + ord(c)) % 1000003
    return h


def run(r):
    r.rule("seed", "every random draw, generator and randomised estimator has a seed that is fixed or given by the user, set on every path before it")
    r.rule("clock", "no value a stage writes, trains on or hands to a detector comes from the clock, the process or a system random source")
    r.rule("order", "what a reader of a directory returns is the same for every listing order of the file system")
    pkg = P.Package()
    runs = {}
    for m, f in pkg.all_functions():
        it = P.Interp(pkg)
        it.small_unroll = True
        it.run(m + "." + f)
        runs[m + "." + f] = it
    sub = {f: it for f, it in runs.items() if draws(it)}
    entered = {f: {e.f.args[0] for e in it.events if e.kind == "enter"} for f, it in runs.items()}
    # the stages: functions that no other function runs
    whole = {f: it for f, it in sub.items() if not any(f in entered[g] for g in runs if g != f)}
    seeded(r, pkg, whole)
    clock(r, runs)
    order(r, pkg)
    r.floor("seed", 1)
    r.floor("order", 3)


main("C23", run, explanation="Every function of the package is turned into an event trace with its package calls inlined; seeds and draws are matched by dominance, written values are searched for run-dependent sources, and directory readers are evaluated under different listing orders")
