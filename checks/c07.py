import extract, ir, registry


def reported(rs):
    """Language names a parser can pass to the callback."""
    out = set()
    for r in rs:
        for l in r["langs"]:
            out.add(r["langinit"].get(l[1:], l) if l.startswith("@") else l)
        for c in r["calls"]:
            if "|" in c:
                out.add(c.split("=", 1)[1])
    return out


def check(ctx):
    m = ir.Module(extract.core())
    T = registry.tables(m)
    P = extract.parsers()["functions"]
    langs, exts, files = (T["ohcount_hash_language_from_" + x] for x in ("name", "ext", "filename"))
    dis, pars = T["ohcount_hash_disambiguate_func_from_id"], T["ohcount_hash_parser_from_language"]
    ctx.cov["explanation"] = (
        "Closed-world check of the compiled lookup tables (initialisers in the IR): every language name resolves to "
        "itself and to exactly one parser, every extension and file name leads to a registered language, the binary "
        "marker or an existing content test, and every parser reports only registered languages, a single-language "
        "parser exactly the language it is registered for.")
    for n, t in T.items():
        ctx.cov["rows:" + n] = len(t)
        ctx.count("table_rows", len(t))
    names = {}
    for k, f in langs:
        n = m.cstr(f[0])
        if not n:
            ctx.violation("lang-null:%s" % k, "languages table: row %r has no language name" % k)
            continue
        names.setdefault(n, []).append(k)
        if m.cstr(f[1]) is None:
            ctx.violation("lang-nice:%s" % k, "languages table: row %r has no display name" % k)
    for n, ks in sorted(names.items()):
        ctx.count("languages")
        if n not in ks:
            ctx.violation("lang-self:%s" % n, "language %r cannot be looked up under its own name (only as %s)" % (n, ks))
    for n, t in T.items():
        seen = {}
        for k, f in t:
            if not k:
                ctx.violation("key:%s" % n, "%s: a row has no key" % n)
            v = str([m.cstr(x) if m.cstr(x) is not None else x for x in f])
            if k in seen and seen[k] != v:
                ctx.violation("dup:%s:%s" % (n, k), "%s: key %r occurs with two different values" % (n, k))
            seen[k] = v
    ids = {}
    for k, f in dis:
        fn = f[0][1] if f[0][0] == "g" else None
        ids[k] = fn
        if not fn or fn not in m.funcs or not m.funcs[fn].defined:
            ctx.violation("disamb-null:%s" % k, "content test %r has no function" % k)
    for what, t in (("extension", exts), ("file name", files)):
        for k, f in t:
            v = m.cstr(f[0])
            ctx.count("detection_rows")
            if v is None:
                ctx.violation("%s-null:%s" % (what, k), "%s %r has no value" % (what, k))
            elif v[:1] == "\1":
                pass
            elif v[:1] == "\2":
                if v[1:] not in ids:
                    ctx.violation("%s-id:%s" % (what, k), "%s %r asks for content test %r, which does not exist"
                                  % (what, k, v[1:]))
            elif v not in names:
                ctx.violation("%s:%s" % (what, k), "%s %r leads to %r, which is not a registered language" % (what, k, v))
            if what == "extension" and k and "." in k:
                ctx.violation("ext-dot:%s" % k, "extension %r contains a dot and can never match" % k)
            if what == "file name" and k and "/" in k:
                ctx.violation("file-slash:%s" % k, "file name %r contains a slash and can never match" % k)
    have = {}
    for k, f in pars:
        fn = f[0][1] if f[0][0] == "g" else None
        have.setdefault(k, set()).add(fn)
        ctx.count("parser_rows")
        if k not in names:
            ctx.violation("parser-lang:%s" % k, "parser row %r is not a registered language" % k)
        rs = P.get(fn)
        if not rs:
            ctx.violation("parser-null:%s" % k, "language %r has no parser function" % k)
            continue
        rep = reported(rs)
        for l in sorted(rep):
            ctx.count("reported_languages")
            if l not in names:
                ctx.violation("parser-reports:%s:%s" % (fn, l), "%s (language %r) reports %r, which is not registered" % (fn, k, l))
        if len(rep) == 1 and rep != {k}:
            ctx.violation("parser-other:%s" % k, "language %r is parsed by %s, which reports everything as %r"
                          % (k, fn, next(iter(rep))))
        if not rep:
            ctx.violation("parser-none:%s" % k, "%s reports no language at all" % fn)
    for n in sorted(names):
        if len(have.get(n, ())) != 1:
            ctx.violation("no-parser:%s" % n, "language %r has %d parsers" % (n, len(have.get(n, ()))))
    ctx.floor("languages", 100)
    ctx.floor("detection_rows", 200)
    ctx.floor("parser_rows", 100)
