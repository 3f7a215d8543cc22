"""Missing values: an unreadable file, an unknown language, an absent pattern or an empty list is never used as if it were there."""
import prog, life, nulls


def check(ctx):
    ctx.cov["explanation"] = (
        "Sources of values that may be missing: library functions that answer null, functions of the program found to answer "
        "null on some path, members of records that are null in some state, and the functions chosen by content tests. Each "
        "source is made null in turn and every path of the function is followed from there (null tests, constants, contents of "
        "record members and what callees establish are tracked); no path may read or write through the value, call it, print "
        "it as text, or pass it to a function that uses it.")
    m = prog.module()
    w = life.World(m)
    nw = nulls.Nulls(w)
    for n in w.roots:
        if n.startswith("parse_"):
            continue
        f = m.funcs[n]
        ctx.count("functions")
        for I in nw.sources(f):
            c = life.callee(f, I) if I.op == "call" else None
            what = c or member(w, f, I)
            ctx.count("missing_values_from_calls" if I.op == "call" else "missing_values_from_members")
            N = nulls.Null(nw, f, I.i)
            ctx.count("cases", N.steps)
            if N.merged:
                ctx.count("followed_with_merged_paths")
            for X, msg in N.viol.values():
                ctx.violation("null:%s:%s:%s" % (X.scope(), what, msg.split(",")[0]),
                              "%s: %s, obtained at %s, %s when it is null" % (X.where(), what, I.where(), msg))
    ctx.cov["members_that_may_be_null"] = len(nw.empty())
    ctx.floor("missing_values_from_calls", 60)
    ctx.floor("missing_values_from_members", 60)


def member(w, f, I):
    o = I.ops[0]
    if o[0] == "i" and f.inst[o[1]].op == "getelementptr":
        G = f.inst[o[1]]
        s, off = w.gep_struct(f, G), G.d["off"]
    else:
        s, off = w.typeof(f, o), 0
    return "%s.%s" % (s, next((n for n, o, _ in w.m.structs.get(s, ()) if o == off), off))
