import detect, valset


def check(ctx):
    m, vs, names, fns, users, off = detect.solve()
    ctx.cov["explanation"] = (
        "Finite value-set analysis of language detection with internal helpers inlined: the set of strings that can "
        "reach each return of detection and of every content test, and each assignment of a file's language, is "
        "computed exactly over the lookup tables, split by the outcome of every lookup. Each member must be nothing "
        "or the name of a registered language; detection itself may also answer with the marker for 'binary', which must "
        "never become a file's language.")
    ok = lambda a: a == "null" or (a[0] == "str" and a[1] in names)
    mark = ("str", "\1")
    for fn in fns:
        f = m.fn(fn)
        for key, v, I in vs.results[fn]:
            ctx.count("return_cases")
            if v is valset.TOP:
                ctx.violation("unknown:%s" % fn, "%s: %s may return a string that is not from the language registry" % (I.where(), fn))
                continue
            ctx.count("result_values", len(v))
            for a in v:
                # 'binary' is an answer, but must not become a language (below)
                if not ok(a) and a != mark:
                    ctx.violation("result:%s:%s" % (fn, detect.show(a)),
                                  "%s: %s may return %s, which is not a registered language" % (I.where(), fn, detect.show(a)))
    for fn in users:
        f = m.fn(fn)
        for I, key, env in vs.log[fn]:
            if I.op == "store" and vs.member(f, I.ops[1]) == ("SourceFile", off):
                ctx.count("language_assignments")
            # what a member set here holds when the function returns or calls another one of this program
            if I.op == "ret" or I.op == "call" and (I.callee() is None or I.callee() in m.funcs and m.funcs[I.callee()].defined):
                for k, v in env.items():
                    if isinstance(k, str) and k[0] == "C":
                        ctx.count("states_left")
                        bad = "an unregistered string" if v is valset.TOP else next((detect.show(a) for a in v if not ok(a)), None)
                        if bad:
                            ctx.violation("assign:%s" % fn, "%s: a file's language is set to %s" % (I.where(), bad))
    ctx.floor("return_cases", 40)
    ctx.floor("language_assignments", 3)
