"""C19 QA words decode to the right class."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import pyflow as P
import pyq
from report import main, Broken

CLEAR, WATER, SHADOW, SNOW, CLOUD, FILL = 0, 1, 2, 3, 4, 255
M = "pycold.imagetool.prepare_ard."
# bit -> class, lowest precedence first; class of a word without any of the bits; fill words
LAYOUT = {
    "C1": ([(1, CLEAR), (2, WATER), (4, SNOW), (3, SHADOW), (5, CLOUD)], FILL, (1,)),
    "C2": ([(6, CLEAR), (7, WATER), (5, SNOW), (4, SHADOW), (3, CLOUD), (1, CLOUD)], FILL, (1,)),
    "HLS": ([(5, WATER), (4, SNOW), (3, SHADOW), (2, CLOUD), (1, CLOUD)], CLEAR, (255,)),
}
# scene class -> (stacking function, environment, layout)
READERS = [("single_image_stacking_hls", {}, "HLS"), ("single_image_stacking_hls14", {}, "HLS"),
           ("single_image_stacking", {"b_c2": False}, "C1"), ("single_image_stacking", {"b_c2": True}, "C2"),
           ("single_image_stacking_collection2", {}, "C2")]


def spec(lay, w):
    bits, none, fill = LAYOUT[lay]
    if w in fill:
        return FILL
    c = none
    for b, k in bits:
        if w >> b & 1:
            c = k
    return c


NPF = {"numpy.bitwise_and": lambda a, b: a & b, "numpy.bitwise_or": lambda a, b: a | b, "numpy.right_shift": lambda a, b: a >> b,
       "numpy.left_shift": lambda a, b: a << b, "numpy.greater": lambda a, b: a > b, "numpy.equal": lambda a, b: a == b, "numpy.not_equal": lambda a, b: a != b,
       "numpy.where": lambda c, a, b: a if c else b}
FILLF = {"numpy.full": 1, "numpy.full_like": 1}
ZERO = {"numpy.zeros": 0, "numpy.zeros_like": 0, "numpy.ones": 1, "numpy.ones_like": 1}


def elementwise(x, go):
    """the value of one element of an array term"""
    if x.op == "update":
        return go(x.args[2]) if go(x.args[1]) else go(x.args[0])
    if x.op == "call" and x.args[0].op == "glob":
        g = x.args[0].args[0]
        if g in NPF and len(x.args[1]) == {"numpy.where": 3}.get(g, 2):
            return NPF[g](*[go(y) for y in x.args[1]])
        if g in FILLF:
            return go(x.args[1][1]) if len(x.args[1]) > 1 else go(dict(x.args[2])["fill_value"])
        if g in ZERO:
            return ZERO[g]
        if g == "numpy.select":
            cs, vs = x.args[1][0], x.args[1][1]
            d = x.args[1][2] if len(x.args[1]) > 2 else dict(x.args[2]).get("default", P.C(0))
            for c, v in zip(cs.args[0], vs.args[0]):
                if go(c):
                    return go(v)
            return go(d)
    s = pyq.strip(x)
    if s is not x:
        return go(s)
    return None


def run(r):
    r.rule("decode", "the QA term handed to the stack, evaluated for every 16-bit word, gives the class of the collection's bit layout with fill > cloud > shadow > snow > water > clear")
    r.rule("class", "path masking and block skipping use the same class codes")
    pkg = P.Package()
    words = 0
    for fn, flags, lay in READERS:
        it = P.Interp(pkg)
        it.small_unroll = True
        it.run(M + fn)
        saves = [e for e in it.events if e.kind == "call" and P.gid(e.f) == "numpy.save"]
        if not saves:
            raise Broken(fn + " saves nothing")
        env0 = {P.Node("param", k): v for k, v in flags.items()}
        tag = fn + ("" if not flags else ":" + lay)
        for e in saves:
            st = pyq.strip(e.args[1])
            if st.op != "call" or P.gid(st.args[0]) not in ("numpy.dstack", "numpy.stack", "numpy.concatenate") or st.args[1][0].op not in ("list", "tuple"):
                r.undecided("decode", tag, "stack not recognised", e.where())
                continue
            qa = st.args[1][0].args[0][-1]
            # strip block views
            while True:
                qa = pyq.pick(qa, env0)
                if qa.op == "sub":
                    qa = qa.args[0]
                elif qa.op == "call" and P.gid(qa.args[0]) == "numpy.lib.stride_tricks.as_strided":
                    qa = qa.args[1][0]
                elif qa.op == "call" and qa.args[0].op == "attr" and qa.args[0].args[1] in ("reshape", "swapaxes", "transpose"):
                    qa = qa.args[0].args[0]
                else:
                    break
            # single-path masking on top of the decoded word
            n = 0
            while qa.op in ("update", "phi"):
                if qa.op == "phi" and P.contains(qa.args[0], lambda x: x.op == "param" and x.args[0] == "path_array"):
                    alt = [a for a in qa.args[1:] if not P.contains(a, lambda x: x.op == "update" and P.contains(x.args[1], lambda y: y.op == "param" and y.args[0] == "path_array"))]
                    msk = [a for a in qa.args[1:] if a not in alt]
                    for a in msk:
                        a = pyq.pick(a, env0)
                        if a.op == "update":
                            r.check(P.is_const(a.args[2], FILL), "class", tag + ":path", "observations of another path get class %s instead of fill" % str(a.args[2])[:60], e.where())
                    if not alt:
                        break
                    qa = pyq.pick(alt[0], env0)
                elif qa.op == "update" and P.contains(qa.args[1], lambda x: x.op == "param" and x.args[0] == "path_array"):
                    r.check(P.is_const(qa.args[2], FILL), "class", tag + ":path", "observations of another path get class %s" % str(qa.args[2])[:60], e.where())
                    qa = pyq.pick(qa.args[0], env0)
                else:
                    break
            # the packed word: the loaded band(s)
            raw = {x for x in P.walk(qa) if x.op == "call" and (P.gid(x.args[0]) in ("osgeo.gdal_array.LoadFile", "gdal_array.LoadFile") or
                                                               (x.args[0].op == "attr" and x.args[0].args[1] == "ReadAsArray"))}
            raw = {x for x in raw if not any(y is not x and P.contains(y, lambda z: z is x) for y in raw)}
            if not raw:
                r.undecided("decode", tag, "no loaded QA band in " + str(qa)[:100], e.where())
                continue
            bits = LAYOUT[lay][0]
            unknown = False
            rng = range(65536) if r.tier == "thorough" else [w for w in range(65536) if w < 512 or (w & 0xff00) == 0x5500 or w > 65000]
            if lay == "HLS":
                rng = range(256)
            for w in rng:
                if lay != "HLS" and w & 1 and w != 1:
                    continue            # the fill flag is never combined with others
                words += 1
                env = dict(env0)
                for x in raw:
                    env[x] = w
                try:
                    got = pyq.ev(qa, env, elementwise)
                except (pyq.Unknown, TypeError, KeyError, IndexError, AttributeError) as ex:
                    r.undecided("decode", tag, "%s %s" % (type(ex).__name__, str(ex)[:150]), e.where())
                    unknown = True
                    break
                if got != spec(lay, w):
                    r.bad("decode", "%s:bits%s" % (tag, "+".join(str(b) for b in range(16) if w >> b & 1 and (b in [k for k, _ in bits] or w == 1)) or "none"),
                          "%s decodes QA word 0x%04x to %s, the %s layout says %s" % (fn, w, got, lay, spec(lay, w)), e.where())
            if not unknown:
                r.ok("decode", "%s:%d" % (tag, saves.index(e)), e.where())
            # blocks are skipped only when they hold neither clear, water nor snow
            used = [(c, p) for c, p in e.guards if P.contains(c, lambda x: x.op == "cmp" and x.args[0] == "in") and
                    P.contains(c, lambda x: x.op == "call" and P.gid(x.args[0]) in ("numpy.unique", "set"))]
            for c, p in used:
                us = {x for x in P.walk(c) if x.op == "call" and P.gid(x.args[0]) in ("numpy.unique", "set")}
                for cls in ((CLEAR,), (WATER,), (SNOW,), (SHADOW,), (CLOUD,), (FILL,), (CLOUD, CLEAR), (FILL, WATER, SNOW)):
                    env = dict(env0)
                    for u in us:
                        env[u] = set(cls)
                    try:
                        keep = bool(pyq.ev(c, env, elementwise)) == p
                    except pyq.Unknown as ex:
                        r.undecided("class", tag, str(ex)[:100], e.where())
                        break
                    want = bool(set(cls) & {CLEAR, WATER, SNOW})
                    r.check(keep or not want, "class", "%s:skip%s" % (tag, cls), "a block with QA classes %s is dropped" % (cls,), e.where())
    r.info["words_decided"] = words
    r.floor("decode", 5)


main("C19", run, "other", "The QA array that every reader stacks is recovered as one term by value numbering (decoder inlined) and evaluated exhaustively over the QA words against the collection's bit table.")
