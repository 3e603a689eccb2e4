"""Common driver of every check: evidence file, known findings, exit status.

exit 0  property held on everything analysed (KNOWN-FINDING lines possible)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  the analysis itself is broken (anchor vanished, tool failure)
"""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Broken(Exception):
    """an anchor of the analysis is missing: no verdict"""


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.viol = []          # (key, text)
        self.obl = []           # (rule, instance, where)
        self.assumptions = []
        self.info = {}
        self.rules = {}
        self.open = []

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, inst, where=""):
        self.obl.append((rule, inst, where))

    def bad(self, rule, key, text, where=""):
        """key: stable identification of the failing construct (no line numbers)"""
        self.obl.append((rule, key, where))
        if (rule + ":" + key) not in [k for k, _, _ in self.viol]:
            self.viol.append((rule + ":" + key, text, where))

    def undecided(self, rule, key, text, where=""):
        """the construct is outside what the rule can decide: recorded, no alarm"""
        self.open.append("%s:%s %s %s" % (rule, key, text[:200], where))

    def check(self, cond, rule, key, text, where=""):
        if cond:
            self.ok(rule, key, where)
        else:
            self.bad(rule, key, text, where)
        return cond

    def floor(self, rule, n):
        """coverage guard: the rule is expected to match at least n instances; none at all means the analysis lost
        its anchor (no verdict), fewer is reported as reduced coverage"""
        got = len({(i, w) for r, i, w in self.obl if r == rule})
        if got == 0 and not any(x.startswith(rule + ":") for x in self.open):
            raise Broken("rule %s matched nothing, expected at least %d instances" % (rule, n))
        if got < n:
            print("REDUCED-COVERAGE property=%s rule %s matched %d instances, expected at least %d" % (self.pid, rule, got, n))
            self.open.append("%s: matched %d instances, expected at least %d" % (rule, got, n))


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main(pid, fn, level="other", explanation=""):
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    sys.setrecursionlimit(20000)
    r = Report(pid, tier, seed)
    err = None
    try:
        fn(r)
        if not r.obl:
            raise Broken("no obligations")
    except Exception as ex:      # analysis broken: never a pass, never a violation
        err = "%s: %s" % (type(ex).__name__, ex)
        tb = traceback.format_exc()
    known = {f["key"]: f for f in load_known()["findings"] if f["property"] == pid}
    new = [v for v in r.viol if v[0] not in known]
    old = [v for v in r.viol if v[0] in known]
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    by_rule = {}
    for rl, inst, w in r.obl:
        by_rule.setdefault(rl, []).append(inst + (" @ " + w if w else ""))
    bad_keys = {v[0] for v in r.viol}
    obligations = len({(a, b, c) for a, b, c in r.obl})
    failed = len({(a, b, c) for a, b, c in r.obl if a + ":" + b in bad_keys})
    cov = {
        "explanation": explanation,
        "obligations": obligations,
        "discharged": obligations - failed,
        "rules": r.rules,
        "instances_per_rule": {k: len(set(v)) for k, v in by_rule.items()},
        "samples": {k: sorted(set(v))[:12] for k, v in by_rule.items()},
    }
    cov["undecided"] = sorted(set(r.open))
    cov.update(r.info)
    if err:
        cov["error"] = err
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": r.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new),
    }
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write("\n")
    for k, text, w in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k].get("what", text)))
    if new:
        rp = os.path.join(ev_dir, pid + ".violation.txt")
        with open(rp, "w") as f:
            for k, text, w in new:
                f.write("property %s\nrule     %s\n         %s\nkey      %s\nwhere    %s\nreport   %s\n\n" % (
                    pid, k.split(":")[0], r.rules.get(k.split(":")[0], ""), k, w, text))
        for k, text, w in new:
            print("%s: %s [%s] %s" % (w or pid, text, k, ""))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if err:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, err))
        print(tb)
        sys.exit(2)
    print("OK property=%s obligations=%d rules=%d wall=%.1fs" % (pid, obligations, len(by_rule), time.time() - t0))
    sys.exit(0)
