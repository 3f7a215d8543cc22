"""Answers about a file are worked out once, from its own text and language, and stay: history independence of file records."""
import spec, prog, life
from spec import *

SF = "SourceFile"
ANSWERS = ("language", "parsed_language_list", "license_list", "loc_list")
OWN = {"ohcount_sourcefile_new", "ohcount_sourcefile_free"}
SETTERS = {"ohcount_sourcefile_set_language": {"language", "language_detected"},
           "ohcount_sourcefile_set_contents": {"contents", "size", "contents_set"},
           "ohcount_sourcefile_set_diskpath": {"diskpath"}}


def bad(ctx, fn, rule, msg):
    ctx.violation("answer:%s:%s" % (fn, rule), "%s: %s" % (fn, msg))


def check(ctx):
    ctx.cov["explanation"] = (
        "Every store into a member of a file record anywhere in the program, on every path: answers (language, results of parsing, "
        "licenses, counts) are stored only where they are known not to be there yet, contents are dropped only where they were "
        "read from disk, and nothing but the setters replaces what a caller gave. Accessors: every case returns what the record "
        "holds, asks the detector or parser at most once and only when the answer is missing, for the same record. The parser "
        "run is the one registered for the record's language, on the record's contents and size, with what the caller passed.")
    m = spec.module()
    w = life.World(m)
    names = {off: n for n, off, ty in m.structs[SF]}
    writers = {}
    for n in prog.roots(m):
        f = m.funcs[n]
        if n.startswith("parse_"):
            continue
        for I in f.insts():
            if I.op == "store" and I.ops[1][0] == "i":
                G = f.inst[I.ops[1][1]]
                if G.op == "getelementptr" and not G.d["var"] and w.gep_struct(f, G) == SF:
                    writers.setdefault(n, {}).setdefault(names.get(G.d["off"], "?"), []).append(I)
                elif G.op == "getelementptr":
                    pass
            elif I.op == "store" and I.ops[1][0] == "a" and w.typeof(f, I.ops[1]) == SF:
                writers.setdefault(n, {}).setdefault(names.get(0, "?"), []).append(I)
    for n, ms in sorted(writers.items()):
        ctx.count("writing_functions")
        for member, Is in sorted(ms.items()):
            ctx.count("stores", len(Is))
            if n in OWN or member in SETTERS.get(n, ()):
                continue
            guarded(ctx, n, member, Is)
    language(ctx)
    lazy(ctx, "ohcount_sourcefile_get_license_list", "license_list", "ohcount_detect_license")
    lazy(ctx, "ohcount_sourcefile_get_loc_list", "loc_list", None)
    parsed(ctx)
    setlang(ctx)
    passing(ctx)
    dispatch(ctx)
    ctx.floor("stores", 8)
    ctx.floor("cases", 20)


def base_of(addr, off):
    return add(addr, lin(-off))


def known_zero(p, e, cell):
    """Was the cell known to be 0 on this path, before it is first stored to?"""
    return p.lit(eq(cell, ZERO)) is True


def guarded(ctx, fn, member, Is):
    """A store outside constructor and setters."""
    A = plain(fn)
    off = fld(SF, member)
    ids = {I.i for I in Is}
    where = Is[0].where()
    for p in A.paths:
        for e in p.stores():
            if e[4].i not in ids:
                continue
            ctx.count("cases")
            b = base_of(e[1], off)
            if base_new(b, p):
                continue
            first = all(S(x[1]) != S(e[1]) for x in p.events[:p.events.index(e)] if x[0] == "store")
            if member in ("language", "language_detected"):
                if p.lit(eq(mem(b, fld(SF, "language_detected")), ZERO)) is not True:
                    bad(ctx, fn, member, "%s: the language is replaced although it may have been set or detected already" % where)
            elif member in ANSWERS:
                if first and p.lit(eq(mem(b, off), ZERO)) is not True:
                    bad(ctx, fn, member, "%s: %s is replaced although it may hold an earlier answer" % (where, member))
            elif member == "contents":
                if first and S(e[2]) == ZERO:
                    if p.lit(eq(mem(b, off), ZERO)) is not True and not reread(p, b):
                        bad(ctx, fn, member, "%s: contents that were given by the caller are dropped" % where)
                elif first and p.lit(eq(mem(b, off), ZERO)) is not True:
                    bad(ctx, fn, member, "%s: the contents are replaced although they are there" % where)
            elif member == "size":
                if not stored_before(p, e, add(b, lin(fld(SF, "contents")))) and \
                        p.lit(eq(mem(b, fld(SF, "contents")), ZERO)) is not True:
                    bad(ctx, fn, member, "%s: the size is changed without the contents" % where)
            elif member in ("diskpath", "filepath", "filename", "ext", "dirpath"):
                bad(ctx, fn, member, "%s: %s is changed after the file was named" % (where, member))


def base_new(b, p):
    """A record made on this path."""
    return len(b[1]) == 1 and b[1][0][0][0] in ("new",) or (len(b[1]) == 1 and b[1][0][0][:2] == ("ret", "ohcount_sourcefile_new"))


def stored_before(p, e, addr):
    return any(x[0] == "store" and S(x[1]) == S(addr) for x in p.events[:p.events.index(e)])


_flags = None


def reread(p, b):
    """The path knows that the contents came from disk: a member that set_contents always sets has the other value."""
    global _flags
    if _flags is None:
        _flags = {}
        A = plain("ohcount_sourcefile_set_contents")
        E = [q for q in A.paths if q.end[0] == "ret"]
        N = plain("ohcount_sourcefile_new")
        for n, off, ty in spec.module().structs[SF]:
            vs = {mem_at(q, add(ARG[0], lin(off))) for q in E}
            if len(vs) == 1 and isconst(next(iter(vs))) and all(stored(q, add(ARG[0], lin(off))) for q in E):
                init = {mem_at(q, add(S(q.end[1]), lin(off))) for q in N.paths if q.end[0] == "ret"}
                if len(init) == 1 and isconst(next(iter(init))) and init != vs:
                    _flags[off] = (next(iter(vs)), next(iter(init)))
    for off, (v, v0) in _flags.items():
        c = mem(b, off)
        if p.lit(eq(c, v)) is False or p.lit(eq(c, v0)) is True:
            return True
    return False


def ends(A):
    return [p for p in A.paths if p.end[0] == "ret"]


def language(ctx):
    fn = "ohcount_sourcefile_get_language"
    A = plain(fn)
    c, d = add(ARG[0], lin(fld(SF, "language"))), add(ARG[0], lin(fld(SF, "language_detected")))
    for p in ends(A):
        ctx.count("cases")
        k = p.lit(eq(mem(ARG[0], fld(SF, "language_detected")), ZERO))
        calls = p.calls("ohcount_detect_language")
        if S(p.end[1]) != mem_at(p, c):
            bad(ctx, fn, "answer", "the language returned is not the one held")
        if k is False and calls:
            bad(ctx, fn, "again", "the language is detected although it is known")
        if k is not False:
            if len(calls) != 1 or S(calls[0][2][0]) != S(ARG[0]):
                bad(ctx, fn, "detect", "the language is detected %d times for this file" % len(calls))
                continue
            v = mem_at(p, d)
            if v == ZERO or not isconst(v):
                bad(ctx, fn, "kept", "that the language was detected is not remembered")
            r = [a for a, (cn, ar) in rets(p).items() if cn == "ohcount_detect_language"][0]
            got = mem_at(p, c)
            if got != S(atom(r)) and not (got == ZERO and (p.lit(eq(atom(r), ZERO)) is True or marked(p, r))):
                bad(ctx, fn, "value", "the language kept is not the one detected")


def marked(p, r):
    """The name detected was looked at and is the marker for binary files."""
    for k in range(6):
        if p.lit(eq(atom(("mem", atom(r), k)), lin(1))) is True:
            return True
    return any("strcmp" in repr(c) and repr(r)[:20] in repr(c) and w for c, w in p.lits)


def lazy(ctx, fn, member, maker):
    A = plain(fn)
    off = fld(SF, member)
    cell = add(ARG[0], lin(off))
    for p in ends(A):
        ctx.count("cases")
        if S(p.end[1]) != mem_at(p, cell):
            bad(ctx, fn, "answer", "what is returned is not the %s held" % member)
        k = p.lit(eq(mem(ARG[0], off), ZERO))
        if k is False:
            if stored(p, cell):
                bad(ctx, fn, "again", "the %s is replaced although it is there" % member)
            if maker and p.calls(maker):
                bad(ctx, fn, "again", "the %s is worked out although it is there" % member)
            continue
        if not stored(p, cell) or mem_at(p, cell) == ZERO:
            bad(ctx, fn, "kept", "the %s worked out is not kept" % member)
        if maker:
            cs = p.calls(maker)
            if len(cs) != 1 or S(cs[0][2][0]) != S(ARG[0]):
                bad(ctx, fn, "maker", "%s is called %d times for this file" % (maker, len(cs)))
            elif mem_at(p, cell) not in [S(atom(a)) for a, (c, ar) in rets(p).items() if c == maker]:
                bad(ctx, fn, "value", "what is kept is not what %s answered" % maker)


def parsed(ctx):
    """The text is parsed once, its results kept in the record."""
    fn = "ohcount_sourcefile_parse"
    A = plain(fn)
    off = fld(SF, "parsed_language_list")
    cell = add(ARG[0], lin(off))
    for p in ends(A):
        ctx.count("cases")
        k = p.lit(eq(mem(ARG[0], off), ZERO))
        cs = p.calls("ohcount_parse")
        if k is False:
            if cs:
                bad(ctx, fn, "again", "a file that was parsed is parsed again, its lines count twice")
            continue
        if len(cs) != 1:
            bad(ctx, fn, "once", "the text is parsed %d times" % len(cs))
            continue
        a = cs[0][2]
        if S(a[0]) != S(ARG[0]) or S(a[3]) != S(ARG[0]):
            bad(ctx, fn, "record", "the text of one file is parsed into the results of another")
        if a[1] == ZERO or not isconst(a[1]):
            bad(ctx, fn, "lines", "the text is not parsed by lines")
        if a[2] == ZERO:
            bad(ctx, fn, "callback", "the lines are not collected")
        pos = p.events.index(cs[0])
        if not any(e[0] == "store" and S(e[1]) == S(cell) and S(e[2]) != ZERO for e in p.events[:pos]):
            bad(ctx, fn, "list", "the list of results is not there when the text is parsed")
    fn = "ohcount_sourcefile_get_parsed_language_list"
    A = plain(fn)
    for p in ends(A):
        ctx.count("cases")
        cs = p.calls("ohcount_sourcefile_parse")
        if p.lit(eq(mem(ARG[0], off), ZERO)) is False and not stored(p, cell) and not cs:
            if S(p.end[1]) == S(mem(ARG[0], off)):
                continue
        if not cs or S(cs[-1][2][0]) != S(ARG[0]):
            bad(ctx, fn, "parsed", "the results are returned without parsing the text")
        if S(p.end[1]) != S(mem(ARG[0], off)):
            bad(ctx, fn, "answer", "what is returned is not the list of results of this file")


def setlang(ctx):
    """A known name is taken over and ends detection, an unknown one changes nothing."""
    fn = "ohcount_sourcefile_set_language"
    A = plain(fn)
    c, d = add(ARG[0], lin(fld(SF, "language"))), add(ARG[0], lin(fld(SF, "language_detected")))
    L = S(atom(("pure", "strlen", (ARG[1],), 0)))
    for p in ends(A):
        ctx.count("cases")
        cs = p.calls("ohcount_hash_language_from_name")
        if len(cs) != 1 or S(cs[0][2][0]) != S(ARG[1]) or S(cs[0][2][1]) != L:
            bad(ctx, fn, "lookup", "the name given is not looked up")
            continue
        r = [a for a, (cn, ar) in rets(p).items() if cn == "ohcount_hash_language_from_name"][0]
        known = p.lit(eq(atom(r), ZERO))
        if known is True:
            if stored(p, c) or stored(p, d):
                bad(ctx, fn, "unknown", "an unknown name changes the language of the file")
        elif known is False:
            if mem_at(p, c) != S(mem(atom(r), fld("LanguageMap", "name"))):
                bad(ctx, fn, "value", "the language set is not the one named")
            v = mem_at(p, d)
            if v == ZERO or not isconst(v):
                bad(ctx, fn, "kept", "a language that is set is replaced by detection")
        else:
            bad(ctx, fn, "test", "the result of the look-up is not tested")


def passing(ctx):
    for fn, want in (("ohcount_sourcefile_parse_with_callback", True), ("ohcount_sourcefile_parse_entities_with_callback", False)):
        A = plain(fn)
        for p in ends(A):
            ctx.count("cases")
            cs = p.calls("ohcount_parse")
            if len(cs) != 1:
                bad(ctx, fn, "once", "the text is parsed %d times" % len(cs))
                continue
            a = cs[0][2]
            if [S(a[0]), S(a[2]), S(a[3])] != [S(ARG[0]), S(ARG[1]), S(ARG[2])]:
                bad(ctx, fn, "args", "file, callback or caller's data are not passed on")
            if not isconst(a[1]) or bool(a[1][0]) != want:
                bad(ctx, fn, "mode", "the text is parsed by %s" % ("entities" if want else "lines"))


def dispatch(ctx):
    """ohcount_parse: the parser registered for the file's language runs once over the file's contents."""
    fn = "ohcount_parse"
    A = plain(fn)
    for p in ends(A):
        ctx.count("cases")
        R = rets(p)

        def one(name):
            x = [(a, ar) for a, (cn, ar) in R.items() if cn == name]
            return x[-1] if x else (None, None)
        lang, la = one("ohcount_sourcefile_get_language")
        rp, ra = one("ohcount_hash_parser_from_language")
        buf, ba = one("ohcount_sourcefile_get_contents")
        n, na = one("ohcount_sourcefile_get_contents_size")
        runs = [e for e in p.calls() if not isinstance(e[1], str)]
        for ar in (la, ba, na):
            if ar and S(ar[0]) != S(ARG[0]):
                bad(ctx, fn, "record", "language, contents or size of another file are used")
        if ra and (lang is None or S(ra[0]) != S(atom(lang)) or S(ra[1]) != S(atom(("pure", "strlen", (atom(lang),), 0)))):
            bad(ctx, fn, "lookup", "the parser looked up is not that of the file's language")
        if len(runs) > 1:
            bad(ctx, fn, "once", "the parser runs %d times" % len(runs))
        known = rp is not None and p.lit(eq(atom(rp), ZERO)) is False
        cb = p.lit(eq(ARG[2], ZERO))
        if not runs:
            if lang is None or (p.lit(eq(atom(lang), ZERO)) is False and rp is None):
                bad(ctx, fn, "skip", "a file is not parsed although its language may have a parser")
            elif known and cb is not True:
                bad(ctx, fn, "skip", "the parser of the file's language is not run")
        for e in runs:
            a = e[2]
            if not known or S(e[1][1]) != S(mem(atom(rp), fld("ParserMap", "parser"))):
                bad(ctx, fn, "parser", "what is run is not the parser found for the language")
                continue
            if buf is None or n is None or S(a[0]) != S(atom(buf)) or S(a[1]) != S(atom(n)):
                bad(ctx, fn, "text", "the parser does not get the contents and size of the file")
            if [S(x) for x in a[2:5]] != [S(ARG[1]), S(ARG[2]), S(ARG[3])]:
                bad(ctx, fn, "args", "mode, callback or caller's data are not passed on to the parser")
            if p.lit(eq(ARG[2], ZERO)) is True:
                bad(ctx, fn, "nocallback", "the parser runs without a callback")
        v = S(p.end[1])
        if isconst(v) and bool(v[0]) != known:
            bad(ctx, fn, "result", "%d is returned %s" % (v[0], "although a parser was found" if known else "although there is no parser"))
