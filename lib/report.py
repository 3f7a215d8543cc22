"""Verdicts, evidence and known findings, shared by all checks."""
import json, os, sys, time, traceback
from extract import VERIF, AnalysisBroken

EVID = os.environ.get("OHCOUNT_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []          # (key, text)
        self.cov = {"explanation": ""}
        self.assumptions = []

    def violation(self, key, text):
        """key identifies the violation independent of line numbers; text is the diagnosis."""
        if all(k != key for k, _ in self.violations):
            self.violations.append((key, text))

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def floor(self, name, minimum):
        """A rule that matches (almost) nothing has lost its anchor."""
        if self.cov.get(name, 0) < minimum:
            raise AnalysisBroken("only %d %s found, expected at least %d" % (self.cov.get(name, 0), name, minimum))


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == prop:
                out[d["key"]] = d["what"]
    return out


def main(prop, level, check):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = Ctx(prop, tier)
    try:
        check(ctx)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    kn = known(prop)
    new = [(k, t) for k, t in ctx.violations if k not in kn]
    for k, t in ctx.violations:
        if k in kn:
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, kn[k], k))
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, prop + ".replay.txt")
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": ctx.cov,
          "wall_s": round(time.time() - ctx.t0, 2), "violations": len(new),
          "assumptions": ctx.assumptions}
    ev["coverage"]["known_findings_seen"] = len(ctx.violations) - len(new)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        with open(rp, "w") as f:
            for k, t in new:
                f.write("[%s]\n%s\n\n" % (k, t))
        for k, t in new[:20]:
            print("  [%s] %s" % (k, t))
        if len(new) > 20:
            print("  ... %d more in %s" % (len(new) - 20, rp))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if os.path.exists(rp):
        os.unlink(rp)
    print("OK property=%s %s" % (prop, {k: v for k, v in ctx.cov.items() if isinstance(v, int)}))
    return 0
