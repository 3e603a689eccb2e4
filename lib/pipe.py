"""The tile pipeline as seen from its effect trace: which files each stage reads and writes,
under which conditions, with file names and indices as terms over the tile configuration."""
import datetime
import math
import pyflow as P
import pyq
from pyq import Unknown
from report import Broken

T = "pycold.imagetool."
STOP = {"pycold.colds." + x for x in ("cold_detect", "obcold_reconstruct", "sccd_detect", "sccd_update", "sccd_identify")}
DATASET = ("n_cols", "n_rows", "n_block_x", "n_block_y", "block_width", "block_height", "nblocks", "n_blocks")


class Tile:
    """one concrete configuration; dates: first and last ordinal of the stack"""
    def __init__(self, nbx, nby, bw, bh, first=723800, last=724000, interval=60, conse=6):
        self.n_block_x, self.n_block_y, self.block_width, self.block_height = nbx, nby, bw, bh
        self.n_cols, self.n_rows, self.nblocks = nbx * bw, nby * bh, nbx * nby
        self.n_blocks = self.nblocks
        self.first, self.last, self.interval, self.conse = first, last, interval, conse
        self.n_cm = (last - first + 1) // interval + 1


class Stamp:
    def __init__(self, d):
        self.d = d
        self.year, self.month, self.day = d.year, d.month, d.day
        self.dayofyear = self.day_of_year = d.timetuple().tm_yday

    def toordinal(self):
        return self.d.toordinal()

    def timetuple(self):
        return self.d.timetuple()

    def strftime(self, f):
        return self.d.strftime(f)

    def date(self):
        return self

    def __add__(self, o):
        if isinstance(o, datetime.timedelta):
            return Stamp(self.d + o)
        return NotImplemented

    __radd__ = __add__

    def __mul__(self, k):
        if k == -1:
            return Neg(self)
        return NotImplemented

    def __lt__(self, o):
        return self.d < o.d

    def __eq__(self, o):
        return isinstance(o, Stamp) and self.d == o.d

    def __hash__(self):
        return hash(self.d)


class Neg:
    """a date with a minus sign in a difference"""
    def __init__(self, s):
        self.s = s

    def __radd__(self, o):
        return o.d - self.s.d if isinstance(o, Stamp) else Stamp(o - self.s.d)

    def __add__(self, o):
        return o.d - self.s.d


def strptime(s, f):
    return Stamp(datetime.datetime.strptime(s, f).date())


GLOB = {"pandas.Timestamp.fromordinal": lambda o: Stamp(datetime.date.fromordinal(int(o))), "datetime.date.fromordinal": lambda o: Stamp(datetime.date.fromordinal(int(o))),
        "datetime.datetime.fromordinal": lambda o: Stamp(datetime.date.fromordinal(int(o))),
        "datetime.date": lambda y, m, d: Stamp(datetime.date(y, m, d)), "datetime.datetime": lambda y, m, d, *a: Stamp(datetime.date(y, m, d)),
        "datetime.timedelta": lambda days=0, *a: datetime.timedelta(int(days)), "pandas.Timedelta": lambda d, unit="D": datetime.timedelta(int(d)),
        "pandas.Timestamp": lambda *a: strptime(a[0], "%Y-%m-%d") if len(a) == 1 and isinstance(a[0], str) else a[0] if len(a) == 1 else Stamp(datetime.date(*a)),
        "datetime.datetime.strptime": strptime, "dateutil.parser.parse": lambda s: strptime(s, "%Y-%m-%d"), "datetime.datetime.fromisoformat": lambda s: strptime(s, "%Y-%m-%d"),
        "datetime.date.fromisoformat": lambda s: strptime(s, "%Y-%m-%d"), "pandas.to_datetime": lambda s, format=None: strptime(s, format or "%Y-%m-%d"),
        "numpy.asarray": lambda v, *a: v, "numpy.array": lambda v, *a: v,
        "pandas.Timestamp.toordinal": lambda s: s.toordinal(), "datetime.date.toordinal": lambda s: s.toordinal(),
        "datetime.datetime.toordinal": lambda s: s.toordinal(),
        "range": lambda *a: tuple(range(*a)), "numpy.arange": lambda *a: tuple(range(*map(int, a))), "list": tuple, "tuple": tuple,
        "enumerate": lambda v: tuple(enumerate(v)), "zip": lambda *a: tuple(zip(*a)), "reversed": lambda v: tuple(reversed(v)),
        "math.isqrt": math.isqrt, "os.fspath": str, "os.path.basename": lambda s: s.split("/")[-1], "str": str}
METH = {"toordinal", "strftime", "timetuple", "zfill", "rjust", "split", "rstrip", "strip", "find", "index", "replace", "startswith", "endswith", "removesuffix", "removeprefix",
        "rfind", "lstrip"}


def hook(tile, extra=None):
    """values of configuration leaves"""
    algo = {"CM_OUTPUT_INTERVAL": tile.interval, "conse": tile.conse, "probability_threshold": 0.99} if tile else {}

    def h(x, go):
        if extra is not None:
            v = extra(x, go)
            if v is not None:
                return v
        if x.op == "attr" and x.args[1] in DATASET and tile is not None:
            return getattr(tile, x.args[1])
        if x.op == "sub" and x.args[1].op == "const" and isinstance(x.args[1].args[0], str) and tile is not None:
            k = x.args[1].args[0]
            if k in DATASET:
                return getattr(tile, k)
            if k in algo:
                return algo[k]
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] == "readline" and tile is not None:
            return "%d\n" % tile.first
        if x.op == "again" and x.args[0].op == "call" and x.args[0].args[0].op == "attr" and x.args[0].args[0].args[1] == "readline" and tile is not None:
            return "%d\n" % tile.last
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in GLOB and all(k in ("days", "format", "unit", "dtype") for k, _ in x.args[2]):
            return GLOB[x.args[0].args[0]](*[go(y) for y in x.args[1]], **{k: go(v) for k, v in x.args[2] if k != "dtype"})
        if x.op == "call" and x.args[0].op == "attr" and x.args[0].args[1] in METH and not x.args[2]:
            b = go(x.args[0].args[0])
            return getattr(b, x.args[0].args[1])(*[go(y) for y in x.args[1]])
        if x.op == "partial":       # assigned in a try block that did not fail
            return go(x.args[2])
        if x.op == "phi":           # a merge whose condition is not decidable but whose sides agree
            try:
                c = go(x.args[0])
            except Exception:
                a, b = go(x.args[1]), go(x.args[2])
                try:
                    if bool(a == b):
                        return a
                except ValueError:          # arrays
                    if getattr(a, "shape", 0) == getattr(b, "shape", 1) and (a == b).all():
                        return a
                raise Unknown("phi")
            return go(x.args[1]) if c else go(x.args[2])
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("int", "float", "bool", "numpy.int64"):
            return None
        s = pyq.strip(x)
        if s is not x:
            return go(s)
        return None
    return h


FAIL = (Unknown, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, ValueError, RecursionError)


def value(n, env, h):
    try:
        return pyq.ev(n, env, h)
    except FAIL:
        return None


def truth(c, env, h):
    try:
        return bool(pyq.ev(c, env, h))
    except FAIL:
        return None


_IT = {}


def iterels(n):
    """iteration indices a term depends on (not those bound inside a comprehension)"""
    if n.id in _IT:
        return _IT[n.id]
    out = set()
    for x in P.walk(n):
        if x.op == "iterel":
            out.add(x)
    bound = set()
    for x in P.walk(n):
        if x.op == "comp":
            for y in P.walk(x):
                if y.op == "iterel" and x.args[3] <= y.args[1] < x.args[3] + (len(x.args[2].args[0]) if x.args[2].op == "tuple" else 1):
                    bound.add(y)
    _IT[n.id] = out - bound
    return _IT[n.id]


def instances(e, terms, env, h, limit=20000):
    """[(assignment, values)] of an event: one per combination of the iteration indices its terms and
    decidable conditions depend on for which no condition is false; None = not enumerable"""
    guards = [(c, p) for c, p in e.guards]
    its = []
    for t in terms:
        for i in sorted(iterels(t), key=lambda q: q.id):
            if i not in its and i not in env:
                its.append(i)
    keep = []
    for c, p in guards:
        ii = iterels(c)
        if ii <= set(its) | set(env):
            keep.append((c, p))
        elif any(x.op == "param" and x.args[0] in ("rank", "n_cores") for x in P.walk(c)):
            if any(value(i.args[0], env, h) == 0 for i in ii):
                continue           # a condition over an empty list: not decidable per element
            for i in sorted(ii, key=lambda q: q.id):
                if i not in its and value(i.args[0], env, h) is not None and not callable(value(i.args[0], env, h)):
                    its.append(i)
            keep.append((c, p))
    its.sort(key=lambda i: i.args[1])      # outer loops first
    res = []

    def rec(k, cur):
        if len(res) > limit:
            raise Unknown("too many")
        if k == len(its):
            for c, p in keep:
                v = truth(c, cur, h)
                if v is not None and v != p:
                    return
            res.append((dict(cur), tuple(value(t, cur, h) for t in terms)))
            return
        n = value(its[k].args[0], cur, h)
        if not isinstance(n, int):
            raise Unknown("loop length %r" % its[k])
        for i in range(n):
            c2 = dict(cur)
            c2[its[k]] = i
            rec(k + 1, c2)
    try:
        rec(0, dict(env))
    except Unknown:
        return None
    return res


def mode_of(e):
    m = e.arg(1, "mode", P.C("r"))
    return m.args[0] if m.op == "const" else "?"


def file_access(e):
    """(kind, path term) of an event: 'w' write, 'r' read, 'p' existence probe, 'x' delete, 'd' directory listing"""
    if e.kind != "call":
        return None
    if e.f.op == "glob":
        g = e.f.args[0]
        last = g.split(".")[-1]
        if g in ("open", "io.open", "gzip.open", "builtins.open"):
            m = mode_of(e)
            return ("w" if any(k in m for k in "wax+") else "r", e.arg(0, "file"))
        if g in ("numpy.save", "numpy.savez", "numpy.savetxt", "numpy.savez_compressed"):
            return ("w", e.arg(0, "file"))
        if g in ("joblib.dump",):
            return ("w", e.arg(1, "filename"))
        if g in ("joblib.load", "numpy.load", "numpy.loadtxt", "numpy.genfromtxt", "osgeo.gdal_array.LoadFile", "osgeo.gdal.Open", "numpy.fromfile", "numpy.memmap",
                 "pandas.read_csv", "rasterio.open", "osgeo.gdal.OpenEx", "gdal.Open", "gdal_array.LoadFile"):
            return ("r", e.arg(0))
        if g in ("os.path.exists", "os.path.isfile", "os.path.lexists"):
            return ("p", e.arg(0))
        if g in ("os.replace", "os.rename", "shutil.move"):
            return ("w", e.arg(1))
        if g in ("os.remove", "os.unlink"):
            return ("x", e.arg(0))
        if g in ("os.listdir", "os.scandir", "glob.glob"):
            return ("d", e.arg(0))
        if last in ("SaveArray",):
            return ("w", e.arg(1))
        return None
    if e.f.op == "attr":
        m, b = e.f.args[1], e.f.args[0]
        if m in ("Create", "CreateCopy") and "river" in repr(b):
            return ("w", e.arg(0))
        if m in ("to_csv", "tofile", "write_text", "write_bytes"):
            return ("w", e.arg(0) if m in ("to_csv", "tofile") else b)
        if m in ("exists", "is_file") and not e.args:
            return ("p", b)
        if m == "open":
            md = e.arg(0, "mode", P.C("r"))
            return ("w" if md.op == "const" and any(k in md.args[0] for k in "wax+") else "r", b)
        if m == "touch":
            return ("w", b)
        if m == "unlink":
            return ("x", b)
    return None


def renames(it):
    """src path -> dst path of every rename"""
    return {e.arg(0): e.arg(1) for e in it.events if e.kind == "call" and P.gid(e.f) in ("os.replace", "os.rename", "shutil.move")}


_RUN = {}


def mpi_query(x):
    """'rank' or 'size' when the term asks the MPI communicator for it"""
    f = x
    if x.op == "call":
        f = x.args[0]
        n = f.args[1] if f.op == "attr" else f.args[0].split(".")[-1] if f.op == "glob" else ""
        return {"Get_rank": "rank", "Get_size": "size"}.get(n)
    if x.op == "attr" and x.args[1] in ("rank", "size") and "MPI" in repr(x.args[0]):
        return x.args[1]
    if x.op == "glob" and x.args[0].endswith((".COMM_WORLD.rank", ".COMM_WORLD.size")):
        return x.args[0].split(".")[-1]
    return None


def mpi(rank, size, then=None):
    """values of the MPI rank and size"""
    def h(x, go):
        k = mpi_query(x)
        if k is not None:
            return rank if k == "rank" else size
        return then(x, go) if then is not None else None
    return h


def listing(names, then=None):
    """directory listings: path -> names (a callable or a list)"""
    def h(x, go):
        if x.op == "call" and x.args[0].op == "glob" and x.args[0].args[0] in ("os.listdir", "glob.glob", "os.walk", "os.path.isfile", "glob.iglob", "os.scandir"):
            g = x.args[0].args[0]
            if g == "os.path.isfile":
                return True
            if g == "os.walk":
                return (("/src", (), tuple(names(None) if callable(names) else names)),)
            if callable(names):
                v = names(go(x.args[1][0]) if g == "os.listdir" else None)
                return None if v is None else tuple(v)
            return tuple(names)
        return then(x, go) if then is not None else None
    return h


def stage(pkg, fn, **params):
    """interpretation of a stage with some parameters fixed"""
    key = (id(pkg), fn, tuple(sorted((k, repr(v)) for k, v in params.items())))
    if key not in _RUN:
        it = P.Interp(pkg, stop=STOP)
        it.small_unroll = True
        it.run(fn, args={k: P.C(v) for k, v in params.items()})
        _RUN[key] = it
    return _RUN[key]


def tile_runs(pkg):
    f = T + "tile_processing.main"
    return [("COLD", stage(pkg, f, method="COLD")), ("SCCDOFFLINE", stage(pkg, f, method="SCCDOFFLINE")),
            ("OBCOLD", stage(pkg, f, method="OBCOLD", seedmap_path=None)), ("OBCOLD+seedmap", stage(pkg, f, method="OBCOLD", seedmap_path="/seed.tif"))]


def par(name):
    return P.Node("param", name)


def pathof(n):
    """the path behind a file handle"""
    while n is not None and n.op == "call" and P.gid(n.args[0]) in ("open", "io.open", "gzip.open") and n.args[1]:
        n = n.args[1][0]
    return n
