"""Files, directories, pipes, compiled expressions and temporary files are released on every path."""
import prog, life


def check(ctx):
    ctx.cov["explanation"] = (
        "For every place that opens a file, directory, pipe, libmagic cookie or compiled expression or makes a temporary "
        "file, all paths of the function (helpers inlined) are followed with the set of values that name the handle: it is "
        "tested before use, released exactly once by the matching function or handed over, not used afterwards, and a "
        "temporary file is removed before the function returns.")
    m = prog.module()
    w = life.World(m)
    for n in w.roots:
        f = m.funcs[n]
        for k in w.sites(f):
            if k[0] == "heap":
                continue
            ctx.count("temporary_files" if k[0] == "tmp" else "handles")
            L = life.Life(w, f, k)
            ctx.count("cases", L.steps)
            report(ctx, L, life.callee(f, k[1]))
    ctx.floor("handles", 6)


def report(ctx, L, what):
    for (rule, _), (I, msg) in sorted(L.viol.items(), key=lambda x: x[0][1]):
        ctx.violation("%s:%s:%s" % (rule, I.scope(), what), "%s: %s (%s)" % (I.where(), msg, what))
