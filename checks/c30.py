"""C30 the near-real-time disturbance decision follows its definition and its date is that of the first anomaly."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import pyflow as P
from nrt import NRT, Pack, ints, value
from pipe import par
from report import main

F = "pycold.colds.sccd_identify"
LAUNCH = 723742
BASE = dict(mode=1, tail=6, last=6, conse=6, cm=2000, angle=1000, med=(0, 0, 900, -800, 700, 0), t_cg=1508.6, single=-200, t_angle=4500, transform=True)


def worlds(deep):
    """the base case is a disturbance; each world moves one or two inputs over a threshold"""
    out = [{}]
    for k, vs in (("mode", (0, 1, 2, 3, 4, 5, 11, 12)), ("last", (1, 3, 5, 6)), ("cm", (0, 1508, 1509)), ("angle", (0, 4499, 4500, 4501, 9000)), ("transform", (True, False)),
                  ("t_cg", (1999.5, 2000, 2000.5)), ("t_angle", (999, 1000, 1001)), ("conse", (1, 4, 5, 6))):
        out += [{k: v} for v in vs]
    for tail, last, conse in ((8, 8, 8), (8, 7, 8), (8, 7, 7), (8, 5, 4), (8, 1, 1), (4, 4, 4), (4, 4, 6), (6, 5, 5), (6, 5, 6), (7, 6, 6)):
        out.append(dict(tail=tail, last=last, conse=conse))
        out.append(dict(tail=tail, last=last, conse=conse, mode=5))
    for s in (-200, -500, 0, 150):
        for red in (-s - 1, -s, -s + 1):
            for nir in (s - 1, s, s + 1):
                for swir in (-s - 1, -s, -s + 1):
                    out.append(dict(single=s, med=(9, 9, red, nir, swir, 9)))
    out += [dict(single=s, med=m) for s in (-200, 150) for m in ((5000, 0, 0, 0, 0, 0), (0, 0, 199, 0, 0, 999), (300, 300, 100, 100, 100, 300), (-300, -900, -300, 900, -300, -300))]
    if deep:
        for m in (1, 5):
            for tr in (True, False):
                for tail in (4, 5, 6, 7, 8):
                    for last in range(1, tail + 1):
                        for conse in range(1, 9):
                            out.append(dict(mode=m, transform=tr, tail=tail, last=last, conse=conse))
    return [{**BASE, **w} for w in out]


def expected(w, dates):
    if w["mode"] not in (1, 5):
        return 0, w["mode"]
    if not (w["last"] >= w["conse"] and w["cm"] > w["t_cg"] and w["angle"] < w["t_angle"]):
        return 0, w["mode"]
    s, m = w["single"], w["med"]
    if m[2] < -s and m[3] > s and m[4] < -s:
        return 0, w["mode"]
    return int(dates[w["tail"] - w["last"]]) + LAUNCH, 11 if w["transform"] and w["mode"] == 1 else w["mode"]


def run(r):
    r.rule("decision", "a disturbance is reported exactly if the model is monitored and unconfirmed, enough consecutive anomalies stand at its end, their magnitude exceeds and their angle stays below the thresholds, and the change is not greening")
    r.rule("date", "the date reported is that of the first of those anomalies")
    r.rule("state", "the pack comes back unchanged, except that a reported disturbance moves the standard monitoring mode to its confirmed mode when asked to")
    pkg = P.Package()
    it = P.Interp(pkg)
    it.small_unroll = True
    it.run(F)
    fn = pkg.resolve(F)[1]
    where = "%s:%d" % (fn.module.path, fn.node.lineno)
    seen = set()
    for w in worlds(r.tier == "thorough"):
        key = ",".join("%s=%s" % (k, w[k]) for k in w if w[k] != BASE[k]) or "base"
        if key in seen:
            continue
        seen.add(key)
        m = np.zeros(1, dtype=NRT)
        dates = 9000 + 16 * np.arange(w["tail"]) + np.arange(w["tail"]) ** 2
        m["obs_date_since1982"][0, :w["tail"]] = dates
        m["obs"][0, :, :] = np.array([[9000 - 3 * b] for b in range(6)])
        for b in range(6):
            m["obs"][0, b, :w["tail"]] = -4000
            m["obs"][0, b, w["tail"] - w["last"]:w["tail"]] = w["med"][b]
            if w["last"] >= 3:        # one anomaly off the median
                m["obs"][0, b, w["tail"] - 2] = 5000 * (-1) ** b
        m["conse_last"], m["norm_cm"], m["cm_angle"] = w["last"], w["cm"], w["angle"]
        pk = Pack(1, np.array([]), np.zeros(6), w["mode"], ints(m), np.array([]))
        v = value(it, {par("sccd_pack"): pk, par("dist_conse"): w["conse"], par("t_cg_scale100"): w["t_cg"], par("t_cg_singleband_scale1000"): w["single"], par("t_angle_scale100"): w["t_angle"],
                       par("transform_mode"): w["transform"]})
        if v is None or not isinstance(v, (tuple, list)) or len(v) != 2 or not hasattr(v[0], "_fields"):
            r.undecided("decision", key, "value not closed", where)
            continue
        q, d = v
        d = int(d)
        want, mode = expected(w, dates)
        if not r.check((d != 0) == (want != 0), "decision", key, "%s (%s)" % ("a disturbance is reported where there is none" if d else "a disturbance is not reported", key), where):
            continue
        r.check(d == want, "date", key, "the disturbance is dated %d, its first anomaly is on %d (%s)" % (d, want, key), where)
        same = all(getattr(q, f) is getattr(pk, f) for f in Pack._fields if f != "nrt_mode")
        r.check(same and q.nrt_mode == mode, "state", key, "the returned pack has mode %s, expected %s%s (%s)" % (q.nrt_mode, mode, "" if same else ", or other fields changed", key), where)
    r.floor("decision", 50)


main("C30", run, explanation="The value returned by sccd_identify is turned into a term by value numbering, with the native-style prediction inlined, and evaluated on packs around every threshold, in every mode and for every tail length")
