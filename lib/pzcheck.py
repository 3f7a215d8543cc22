"""Checks decided by tools/pz (abstract interpretation of the 124 generated parsers)."""
import extract

# (violation key prefix) -> why the analysis cannot settle it. These obligations are counted as undecided in the
# evidence, never as held and never as violated. Prefix match on "rule:function[:detail]".
UNDECIDED = {}


def _u(rule, fns, why, detail=""):
    for f in fns.split():
        UNDECIDED["%s:parse_%s%s" % (rule, f, detail)] = why


_EMB = "embedded language: where the line began is lost when control passes between the host and guest automata"
_u("blank", "phtml", _EMB)
_u("gap", "phtml", _EMB, ":lblank")
_u("lastline", "phtml", _EMB, ":tail")


def undecided(key):
    return next((w for p, w in UNDECIDED.items() if key == p or key.startswith(p + ":")), None)


def run(ctx, rules, counts, explanation, floors=()):
    d = extract.parsers()
    fns = d["functions"]
    ctx.cov["explanation"] = explanation
    ctx.cov["rules"] = sorted(rules)
    ctx.cov["parsers_analysed"] = len(fns)
    und = []
    for f, rs in sorted(fns.items()):
        for r in rs:
            for c in counts:
                ctx.count(c, r["counts"].get(c, 0))
            ctx.count("abstract_states", r["counts"].get("abstract_states", 0))
            ctx.count("basic_blocks", r["counts"].get("blocks", 0))
            for v in r["violations"]:
                if v["rule"] not in rules:
                    continue
                w = undecided(v["key"])
                if w:
                    und.append(v["key"])
                else:
                    ctx.violation(v["key"], "%s: %s" % (f, v["text"]))
    ctx.cov["undecided_obligations"] = sorted(set(und))
    ctx.cov["undecided"] = len(set(und))
    ctx.floor("parsers_analysed", 100)
    for n, m in floors:
        ctx.floor(n, m)
    return d
