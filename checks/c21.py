"""The command line: what each option does, which files are examined, what the report's columns hold."""
import re
import spec
from spec import *
from affine import Affine
import c15

FLAGS = {"-a": "annotate", "--annotate": "annotate", "-d": "detect", "--detect": "detect", "-h": "help", "--help": "help",
         "-i": "individual", "--individual": "individual", "-l": "license", "--license": "license", "-re": "entities",
         "-s": "summary", "--summary": "summary"}
MARK = {"annotate": "ohcount_sourcefile_parse_with_callback", "detect": "ohcount_sourcefile_get_language",
        "license": "ohcount_sourcefile_get_license_list", "entities": "ohcount_sourcefile_parse_entities_with_callback",
        "individual": "ohcount_sourcefile_get_loc_list", "summary": "ohcount_sourcefile_list_analyze_languages"}
PRINT = ("printf", "fprintf", "puts", "putchar", "fputs", "fputc")


class Main(Affine):
    """main with the option found fixed to one command."""

    def __init__(self, K, **kw):
        self.K, self.off = K, fld("OhcountOption", "value")
        super().__init__(spec.module(), spec.module().fn("main"), fresh=fresh(), **kw)

    def load(self, p, addr, I):
        if addr[0] == self.off and len(addr[1]) == 1 and addr[1][0][0][:2] == ("ret", "ohcount_hash_command_from_flag"):
            return lin(self.K)
        return super().load(p, addr, I)


def tokens(evs):
    """Printed text as a list of literals and (conversion, value)."""
    out = []

    def lit(s):
        if s:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)
    for e in evs:
        if e[0] != "call" or e[1] not in PRINT:
            continue
        args = list(e[2])
        if e[1] in ("fprintf",):
            if "stderr" in repr(args[0]):
                continue
            args = args[1:]
        if e[1] in ("putchar", "fputc"):
            if isconst(args[0]):
                lit(chr(args[0][0] & 255))
            else:
                out.append(("c", args[0]))
            continue
        f = args[0]
        s = f[1][0][0][1] if len(f[1]) == 1 and f[1][0][0][0] == "str" and f[0] == 0 else None
        if e[1] in ("puts", "fputs"):
            if "stderr" in repr(args[1:]):
                continue
            if s is None:
                out.append(("s", f))
            else:
                lit(s)
            if e[1] == "puts":
                lit("\n")
            continue
        if s is None:
            out.append(("fmt", f))
            continue
        k, pos = 1, 0
        for x in re.finditer(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|t|j|L)?([a-zA-Z%])", s):
            lit(s[pos:x.start()])
            pos = x.end()
            if x.group(5) == "%":
                lit("%")
                continue
            v = args[k] if k < len(args) else None
            if x.group(0) == "%s" and v is not None and v[0] == 0 and len(v[1]) == 1 and v[1][0][0][0] == "str":
                lit(v[1][0][0][1])
            else:
                out.append((x.group(5), v))
            k += 1
        lit(s[pos:])
    return out


def bad(ctx, what, msg, where="src/ohcount.c"):
    ctx.violation("main:" + what, "%s: %s" % (where, msg))


def check(ctx):
    ctx.cov["explanation"] = (
        "main with all helpers inlined, analysed once per command: branch cases with affine values, printed text expanded into "
        "literals and values. Rules: every documented flag selects its command and an unknown first argument is a path; every "
        "argument is examined once, directories are walked and files added; each command handles every file of the list "
        "exactly once; in both reports the value under every column title is the count the title names, percentages are "
        "comments over comments and code, totals are sums over all rows, and the number of files is that of the list; sorting "
        "only permutes rows.")
    m = spec.module()
    table = flags(m)
    ctx.count("flags", len(table))
    cmd = {}
    for fl, what in FLAGS.items():
        if fl not in table:
            bad(ctx, "flag:" + fl, "the option %s is not known" % fl, "src/hash/options.gperf")
            continue
        cmd.setdefault(what, {})[fl] = table[fl]
    for fl in table:
        if fl not in FLAGS:
            ctx.count("undocumented_flags")
    A = {}
    for what, fs in cmd.items():
        if len(set(fs.values())) > 1:
            bad(ctx, "alias:" + what, "the spellings of one option (%s) select different commands" % ", ".join(fs))
        for K in set(fs.values()):
            if K == 0:
                bad(ctx, "zero:" + what, "%s has the number that stands for no option" % what)
                continue
            if K not in A:
                A[K] = Main(K)
            dispatch(ctx, what, A[K], K)
    arguments(ctx, next(iter(A.values())), "any")
    for what, fs in cmd.items():
        K = next(iter(fs.values()))
        if K in A:
            {"summary": summary, "individual": individual}.get(what, handled)(ctx, what, A[K])
    callbacks(ctx)
    ctx.floor("flags", 10)
    ctx.floor("cases", 100)


def flags(m):
    import registry
    return {k: v[0][1] for k, v in registry.tables(m)["ohcount_hash_command_from_flag"] if v and v[0][0] == "c"}


def dispatch(ctx, what, A, K):
    """The command does what its option says, and only that."""
    want = MARK.get(what)
    seen = set()
    text = ""
    for p in A.paths:
        ctx.count("cases")
        # only cases in which an option was found
        for e in p.events:
            if e[0] == "call" and e[1] in MARK.values():
                opt = [a for a, (c, _) in rets(p).items() if c == "ohcount_hash_command_from_flag"]
                if opt and p.lit(eq(atom(opt[0]), ZERO)) is False:
                    seen.add(e[1])
            if e[0] == "call" and e[1] in PRINT:
                text += "".join(x for x in tokens([e]) if isinstance(x, str))
    if want and want not in seen:
        bad(ctx, "dispatch:" + what, "the option for '%s' does not do it" % what)
    for o in seen:
        if o != want and not (want == "ohcount_sourcefile_list_analyze_languages" and o == "ohcount_sourcefile_get_loc_list"):
            bad(ctx, "dispatch:%s:%s" % (what, o), "the option for '%s' does something else as well" % what)
    if what == "help" and "Usage" not in text:
        bad(ctx, "dispatch:help", "the help option does not print the usage")
    # the default is the summary
    if what != "summary":
        for p in A.paths:
            opt = [a for a, (c, _) in rets(p).items() if c == "ohcount_hash_command_from_flag"]
            none = not opt or p.lit(eq(atom(opt[0]), ZERO)) is True
            if none and c15.done(p):
                calls = {e[1] for e in p.calls()}
                if MARK["summary"] not in calls:
                    bad(ctx, "default", "without an option no summary is made")


def arguments(ctx, A, what):
    """Every path argument is examined, starting after the option."""
    argc, argv = ARG[0], ARG[1]
    L = None
    for h in A.heads:
        backs = [p for p in A.paths if p.end[0] == "back" and p.end[1] == h]
        if any(e[0] == "call" and e[1] == "ohcount_sourcefile_list_add_file" for p in backs for e in p.events):
            L = h
            break
    if L is None:
        bad(ctx, "args", "file arguments are not added to the list")
        return
    idx = None
    for p in A.paths:
        if p.end[0] == "back" and p.end[1] == L:
            for i, v in p.end[2].items():
                if S(v) == spec.add(atom(("loop", i)), lin(1)):
                    idx = i
    if idx is None:
        bad(ctx, "args-step", "the arguments are not taken one after the other")
        return
    e_ = atom(("loop", idx))
    cell = S(mem(spec.add(argv, scale(e_, 8))))
    for p in A.paths:
        ctx.count("cases")
        R = rets(p)
        lists = [atom(a) for a, (c, _) in R.items() if c == "ohcount_sourcefile_list_new"]
        opt = [a for a, (c, _) in R.items() if c == "ohcount_hash_command_from_flag"]
        found = bool(opt) and p.lit(eq(atom(opt[0]), ZERO)) is False
        adds = [e for e in p.events if e[0] == "call" and e[1] in ("ohcount_sourcefile_list_add_file", "ohcount_sourcefile_list_add_directory")]
        inl = [e for e in adds if e[4].blk.n in A.inside(L)]
        for e in adds:
            if S(e[2][0]) not in lists:
                bad(ctx, "args-list", "a file is added to another list")
        for h, vals in p.loops:
            if h == L:
                ctx.count("form_obligations")
                first = S(vals[idx])
                if first != lin(2 if found else 1):
                    bad(ctx, "args-first", "arguments are taken from number %s on %s an option" % (show(first), "after" if found else "without"))
        ent = any(h == L for h, _ in p.loops)
        more = p.lit(lt(e_, argc))
        if more is None:
            x = p.lit(eq(e_, argc))
            more = None if x is None else not x
        if p.end[0] == "back" and p.end[1] == L:
            ctx.count("form_obligations")
            dirs = [a for a, (c, ar) in R.items() if c == "opendir" and S(ar[0]) == cell]
            isdir = [p.lit(eq(atom(a), ZERO)) is False for a in dirs]
            stat = p.calls("stat") or p.calls("lstat")
            names = [(e[1], S(e[2][1])) for e in inl]
            if any(a != cell for _, a in names):
                bad(ctx, "args-path", "something other than the argument is added")
            if len(inl) > 1:
                bad(ctx, "args-twice", "an argument is added twice")
            if dirs and any(isdir) and [n for n, _ in names] != ["ohcount_sourcefile_list_add_directory"]:
                bad(ctx, "args-dir", "a directory given as argument is not walked")
            if dirs and not any(isdir):
                op = [a for a, (c, ar) in R.items() if c in ("fopen", "access", "open") and S(ar[0]) == cell]
                okf = [p.lit(eq(atom(a), ZERO)) is False for a in op]
                if op and any(okf) and [n for n, _ in names] != ["ohcount_sourcefile_list_add_file"]:
                    bad(ctx, "args-file", "a readable file given as argument is not added")
                if op and not any(okf) and names:
                    bad(ctx, "args-unreadable", "an argument that cannot be opened is added")
        elif ent and c15.done(p) and more is True:
            bad(ctx, "args-stop", "arguments can be left out")
        # no paths: the current directory
        outside = [e for e in adds if e not in inl]
        if outside:
            ctx.count("form_obligations")
            for e in outside:
                if e[1] != "ohcount_sourcefile_list_add_directory" or S(e[2][1]) != atom(("str", ".")):
                    bad(ctx, "default-dir", "without path arguments something other than the current directory is examined")
        start = lin(2 if found else 1)
        none = p.lit(eq(start, argc))
        if c15.done(p) and none is not False and not outside and not ran(p):
            bad(ctx, "default-dir", "without path arguments nothing is examined")
        if c15.done(p) and none is False and outside:
            bad(ctx, "default-dir2", "the current directory is examined although paths were given")


def ran(p):
    """Something counted by a loop is known not to be what it started as: the loop was gone through."""
    for c, w in p.lits:
        c = S(c)
        if c[0] == "eq" and not w and c[1][1] and all(a[0] == "loop" for a, _ in c[1][1]):
            return True
    return False


def file_walk(ctx, what, A, pred):
    """The walk of the file list whose body satisfies pred; reports if there is none or it leaves out a file."""
    hd = fld("SourceFileListItem", "head")
    out = []
    for w in walks(A, fld("SourceFileListItem", "next")):
        for p in A.paths:
            if w.entered(p) and any(pred(e) for e in w.events(p)):
                lists = [S(mem(atom(a), hd)) for a, (c, _) in rets(p).items() if c == "ohcount_sourcefile_list_new"]
                if len(w.init) == 1 and next(iter(w.init)) in lists:
                    out.append(w)
                    break
    return out


def handled(ctx, what, A):
    """Every file of the list is handled exactly once."""
    if what not in MARK:
        return
    sf = fld("SourceFileListItem", "sf")
    W = file_walk(ctx, what, A, lambda e: e[0] == "call" and e[1] == MARK[what])
    if len(W) != 1:
        bad(ctx, "each:" + what, "the files are not each handled once by '%s'" % what)
        return
    w = W[0]
    for p in A.paths:
        o = w.outcome(p)
        if o == "stop":
            if p.end[0] == "back":
                continue        # an inner loop
            bad(ctx, "stop:" + what, "'%s' can stop before the last file" % what)
        elif o in ("next", "last"):
            ctx.count("form_obligations")
            ev = [e for e in w.events(p) if e[0] == "call" and e[1] == MARK[what]]
            if len({S(e[2][0]) for e in ev}) != 1 or (len(ev) != 1 and what != "detect"):
                bad(ctx, "once:" + what, "a file is handled %d times by '%s'" % (len(ev), what))
            elif S(ev[0][2][0]) != S(mem(w.e, sf)):
                bad(ctx, "file:" + what, "'%s' handles something other than the file" % what)
            if what == "detect":
                lang = [atom(a) for a, (c, ar) in rets(p).items() if c == MARK[what]]
                known = [p.lit(eq(x, ZERO)) is False for x in lang]
                t = [x for x in tokens(w.events(p)) if not isinstance(x, str)]
                if t:
                    if not any(known):
                        bad(ctx, "detect-null", "a file without a language is listed")
                    fp = S(mem(mem(w.e, sf), fld("SourceFile", "filepath")))
                    if [S(v) for _, v in t[:2]] != [S(lang[-1]), fp]:
                        bad(ctx, "detect-row", "a row of the file list does not hold the language and the path")
                elif not any(p.lit(eq(x, ZERO)) is True for x in lang):
                    bad(ctx, "detect-lost", "a source file is not listed")


def column_names(toks, must):
    for t in toks:
        if isinstance(t, str) and "Language" in t:
            for line in t.split("\n"):
                if line.startswith("Language"):
                    return re.findall(r"Comment %|[A-Z][a-z]+", line)
    return None


def forms(x):
    c, cm, b, fc, la = offs("Loc", "code", "comments", "blanks", "filecount", "language")
    return {"Language": S(mem(x, la)), "Files": S(mem(x, fc)), "Code": S(mem(x, c)), "Comment": S(mem(x, cm)), "Blank": S(mem(x, b)),
            "Total": S(spec.add(spec.add(mem(x, c), mem(x, cm)), mem(x, b)))}


def ratio(v, num, den):
    """v is 100 * num / den"""
    found = []

    def walk(t):
        if isinstance(t, tuple):
            if len(t) >= 4 and t[0] == "op" and t[1] == "fdiv":
                found.append((t[2], t[3]))
            for y in t:
                walk(y)
    walk(S(v))

    def unconv(t):
        while len(t[1]) == 1 and t[0] == 0 and t[1][0][0][0] == "op" and t[1][0][0][1] in ("sitofp", "fpext", "fptrunc", "uitofp"):
            t = t[1][0][0][2]
        return t

    def unscale(t):
        t = unconv(t)
        if len(t[1]) == 1 and t[1][0][0][0] == "op" and t[1][0][0][1] == "fmul":
            for k in (2, 3):
                u = unconv(t[1][0][0][k])
                if u[1] and u[1][0][0][0] != "const" and not isconst(u):
                    return u
        return t
    return any(unscale(a) == num and unconv(b) == den for a, b in found)


def row(ctx, what, name, cols, toks, exp, extra=None):
    """Check one printed row against the column titles."""
    vals = [t for t in toks if not isinstance(t, str)]
    cols = list(cols)
    pct = [v for v in vals if v[0] in "feg"]
    if "Comment %" in cols and not pct:
        cols.remove("Comment %")
    if len(vals) != len(cols):
        bad(ctx, "%s:%s:columns" % (what, name), "a %s row of '%s' prints %d values under %d column titles" % (name, what, len(vals), len(cols)))
        return
    for c, (k, v) in zip(cols, vals):
        ctx.count("column_obligations")
        if c == "Comment %":
            if not ratio(v, exp["Comment"], S(spec.add(exp["Comment"], exp["Code"]))):
                bad(ctx, "%s:%s:%s" % (what, name, c), "the percentage in a %s row of '%s' is not comments over comments and code" % (name, what))
        elif c == "File":
            if S(v) != extra:
                bad(ctx, "%s:%s:%s" % (what, name, c), "a row of '%s' does not end with the file's path" % what)
        elif c in exp and S(v) != exp[c]:
            bad(ctx, "%s:%s:%s" % (what, name, c), "under '%s' a %s row of '%s' prints %s instead of %s" % (c, name, what, show(S(v)), show(exp[c])))


def counted(ctx, what, A):
    """'Examining N file(s)': N is the number of files."""
    nx = fld("SourceFileListItem", "next")
    ok = False
    for p in A.paths:
        for e in p.events:
            t = tokens([e]) if e[0] == "call" and e[1] in PRINT else []
            for i, x in enumerate(t):
                if isinstance(x, tuple) and i and isinstance(t[i - 1], str) and "Examining" in t[i - 1]:
                    ctx.count("form_obligations")
                    v = S(x[1])
                    good = False
                    for w in walks(A, nx):
                        if not w.entered(p):
                            if isconst(v) and v[0] == 0:
                                good = True
                            continue
                        o = w.outcome(p)
                        ids = set(dict([y for y in p.loops if y[0] == w.h][0][1]))
                        T = lin(0, [(a, c) for a, c in v[1] if a[0] == "loop" and a[1] in ids])
                        if not T[1]:
                            continue
                        init = dict([y for y in p.loops if y[0] == w.h][0][1])
                        t0 = subst(T, lambda a: init.get(a[1]))
                        inc = {S(spec.add(subst(T, lambda a: b.end[2].get(a[1])), T, -1)) for b in A.paths
                               if b.end[0] == "back" and b.end[1] == w.h}
                        rest = spec.add(spec.add(v, T, -1), t0)
                        if inc == {lin(1)} and ((o == "end" and rest == ZERO) or (o == "last" and rest == lin(1))):
                            good = True
                    if not good:
                        bad(ctx, what + ":count", "the number of files '%s' announces is not that of the list" % what)
                    ok = True
    if not ok:
        bad(ctx, what + ":count", "'%s' does not announce the number of files" % what)


def permutes(ctx, what, A):
    """Sorting exchanges records between entries and loses none."""
    lo = fld("LocListItem", "loc")
    for p in A.paths:
        cells = {}
        for e in p.stores():
            a = S(e[1])
            if any(x[0] == "loop" for x, _ in a[1]) and e[4].d.get("sz") == 8:
                cells[a] = S(e[2])
        if cells:
            ctx.count("form_obligations")
            if sorted(map(repr, cells.values())) != sorted(repr(S(mem(a))) for a in cells):
                bad(ctx, what + ":sort", "sorting the rows of '%s' does not keep every row" % what)


def summary(ctx, what, A):
    t, _ = c15.tables()
    hd, lo, nx = offs("LocListItem", "head", "loc", "next")
    counted(ctx, what, A)
    permutes(ctx, what, A)
    n = tot = 0
    for p in A.paths:
        R = rets(p)
        ll = [(atom(a), ar) for a, (c, ar) in R.items() if c == MARK["summary"]]
        if not ll:
            continue
        if S(ll[0][1][0]) not in [atom(a) for a, (c, _) in R.items() if c == "ohcount_sourcefile_list_new"]:
            bad(ctx, "summary:list", "the summary is not made of the list of files")
        x = ll[0][0]
        cols = column_names(tokens(p.events), None)
        W = [w for w in walks(A, nx) if w.init == {S(mem(x, hd))} and w.entered(p)]
        W = [w for w in W if any(e[0] == "call" and e[1] in PRINT for q in A.paths for e in w.events(q))]
        if cols is None:
            continue
        for w in W:
            o = w.outcome(p)
            if o in ("next", "last"):
                n += 1
                row(ctx, what, "language", cols, plainly(tokens(w.events(p)), p), forms(mem(w.e, lo)))
            elif o == "stop":
                bad(ctx, "summary:stop", "the summary can leave out languages")
        if not W and c15.done(p) and p.lit(eq(mem(x, hd), ZERO)) is not True:
            bad(ctx, "summary:rows", "the languages are not all listed")
        if c15.done(p):
            # after the rows: the total line
            evs = [e for e in p.events if not any(e[4].blk.n in w.body for w in W)]
            i = max((k for k, e in enumerate(evs) if e[0] == "call" and e[1] in PRINT and "Language" in "".join(y for y in tokens([e]) if isinstance(y, str))), default=None)
            if i is None:
                continue
            toks = [y for y in tokens(evs[i + 1:])]
            # drop rulers
            vals = [y for y in toks if not isinstance(y, str)]
            E = atom(("elem",))
            exp = {}
            for c, fnn in (("Files", "filecount"), ("Code", "code"), ("Comment", "comments"), ("Blank", "blanks")):
                exp[c] = S(t["ohcount_loc_list_" + fnn](x))
            exp["Total"] = S(spec.add(spec.add(exp["Code"], exp["Comment"]), exp["Blank"]))
            tt = S(t["ohcount_loc_list_total"](x))
            vals = [(k, S(interp(v, p, t)) if v is not None and k not in "feg" else v) for k, v in vals]
            vals = [(k, exp["Total"] if v == tt else v) for k, v in vals]
            cc = list(cols)
            if vals and vals[0][0] != "s":
                cc.remove("Language")
            exp["Language"] = atom(("str", "Total"))
            pv = [(k, deep_interp(v, p, t) if k in "feg" else v) for k, v in vals]
            tot += 1
            row(ctx, what, "total", cc, pv, exp)
    if not n:
        bad(ctx, "summary:rows", "the summary prints no rows")
    if not tot:
        bad(ctx, "summary:total", "the summary prints no totals")


def plainly(toks, p):
    """Values with the results of the library's sums replaced by what they stand for."""
    t, _ = c15.tables()
    return [x if isinstance(x, str) or x[1] is None else (x[0], deep_interp(x[1], p, t)) for x in toks]


def deep_interp(v, p, t):
    R = rets(p)

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in x[1]):
                out = lin(x[0])
                for a, c in x[1]:
                    if a[0] == "ret" and a in R and R[a][0] in t:
                        out = spec.add(out, S(t[R[a][0]](*R[a][1])), c)
                    else:
                        out = spec.add(out, atom(walk(a)), c)
                return out
            return tuple(walk(y) for y in x)
        return x
    return walk(v)


def individual(ctx, what, A):
    hd, lo, nx = offs("LocListItem", "head", "loc", "next")
    sf = fld("SourceFileListItem", "sf")
    counted(ctx, what, A)
    permutes(ctx, what, A)
    handled(ctx, what, A)
    n = 0
    for p in A.paths:
        R = rets(p)
        cols = column_names(tokens(p.events), None)
        for a, (c, ar) in R.items():
            if c != MARK["individual"] or a[0] != "ret":
                continue
            W = [w for w in walks(A, nx) if w.init == {S(mem(atom(a), hd))} and w.entered(p)]
            W = [w for w in W if any(e[0] == "call" and e[1] in PRINT for q in A.paths for e in w.events(q))]
            if cols is None:
                bad(ctx, "individual:header", "rows are printed without column titles")
                continue
            for w in W:
                o = w.outcome(p)
                if o in ("next", "last"):
                    n += 1
                    fp = S(mem(S(ar[0]), fld("SourceFile", "filepath")))
                    row(ctx, what, "language", cols, plainly(tokens(w.events(p)), p), forms(mem(w.e, lo)), fp)
                elif o == "stop":
                    bad(ctx, "individual:stop", "the report can leave out languages")
    if not n:
        bad(ctx, "individual:rows", "the report prints no rows")


def callbacks(ctx):
    """Annotations print the language, the kind and exactly the line's text."""
    m = spec.module()
    co = fld("SourceFile", "contents")
    for api, what in (("ohcount_sourcefile_parse_with_callback", "annotate"), ("ohcount_sourcefile_parse_entities_with_callback", "entities")):
        for I in m.fn("main").calls(api):
            if I.ops[1][0] != "g":
                continue
            fn = I.ops[1][1]
            A = cases(fn)
            for p in A.paths:
                if not c15.done(p):
                    continue
                ctx.count("cases")
                vals = [S(v) for v in [t[1] for t in tokens(p.events) if not isinstance(t, str)]]
                ctx.count("form_obligations")
                if vals[:2] != [ARG[0], ARG[1]]:
                    bad(ctx, what + ":row", "%s does not print the language and the kind" % fn)
                if what == "entities" and vals[2:4] != [ARG[2], ARG[3]]:
                    bad(ctx, what + ":range", "%s does not print the range" % fn)
                if what == "annotate":
                    cp = [e for e in p.calls() if e[1] in ("strncpy", "memcpy", "llvm.memcpy.p0.p0.i64", "fwrite")]
                    src = spec.add(S(mem(ARG[4], co)), ARG[2])
                    n = spec.add(ARG[3], ARG[2], -1)
                    okc = [e for e in cp if S(e[2][1]) == src and S(e[2][2]) == n or e[1] == "fwrite" and S(e[2][0]) == src]
                    if not okc:
                        if cp:
                            bad(ctx, "annotate:text", "%s does not print exactly the line's text" % fn)
