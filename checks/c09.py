import detect, valset

RANK = {"extension": 0, "contents": 1, "file name": 2, "libmagic": 3}


def check(ctx):
    m, vs, names, fns, users, off = detect.solve()
    fn = "ohcount_detect_language"
    f = m.fn(fn)
    org = detect.Origin(m, f)
    ctx.cov["explanation"] = (
        "The detection routine with helpers inlined is split into cases by the hit or miss of every table lookup; each "
        "lookup is classified by where its key comes from (extension, text, file name, libmagic's answer). In every "
        "case: no evidence is consulted after stronger evidence has given a language, evidence is consulted in the "
        "order extension, mode line, file name, libmagic, and no case gives up before all of it was consulted.")
    kind = {}
    for I in f.insts():
        if I.op == "call" and I.callee() in valset.LOOKUP and "language" in I.callee():
            o = org.of(I.ops[0]) & set(RANK)
            ctx.count("lookups")
            # a copy of the text that was only scanned for libmagic's answer etc. must not blur the class
            kind[I.i] = next(iter(o)) if len(o) == 1 else None
            if kind[I.i] is None:
                ctx.count("unclassified_lookups")
        elif I.op == "call" and I.callee() in vs.marks:
            kind[I.i] = "libmagic"
    have = set(kind.values())
    for k in RANK:
        if k not in have:
            ctx.violation("missing:%s" % k, "%s: the %s is never consulted" % (fn, k))
    for I, key, env in vs.log[fn]:
        if I.i not in kind or kind[I.i] is None:
            continue
        r = RANK[kind[I.i]]
        for j, hit in key:
            k2 = kind.get(j)
            if k2 is None or j == I.i:
                continue
            ctx.count("ordered_pairs")
            J = f.inst[j]
            if hit == 1 and (RANK[k2] < r or k2 != kind[I.i]):
                ctx.violation("after-hit:%s:%s" % (k2, kind[I.i]),
                              "%s: the %s is consulted although the %s (%s) has already given a language"
                              % (I.where(), kind[I.i], k2, J.where()))
            if RANK[k2] > r:
                ctx.violation("order:%s:%s" % (kind[I.i], k2), "%s: the %s is consulted after the %s (%s)"
                              % (I.where(), kind[I.i], k2, J.where()))
    for key, v, I in vs.results[fn]:
        ctx.count("cases")
        done = {kind.get(j) for j, h in key}
        hit = any(h == 1 for j, h in key if j in kind)
        if not hit and (v is valset.TOP or "null" in v):
            for k in ("extension", "file name", "libmagic"):
                if k not in done and k in have:
                    ctx.violation("gives-up:%s" % k, "%s: detection can give up without having consulted the %s" % (I.where(), k))
    ctx.floor("lookups", 5)
    ctx.floor("cases", 10)
