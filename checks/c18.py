"""Licenses: every language's comments searched for every license, once; only contained or overridden matches are left out."""
import re
import spec
from spec import *
import c15

FN = "ohcount_detect_license"
MAP = "license_map"
PARENTS = {("gpl", "gpl3"), ("gpl", "gpl3_or_later"), ("gpl3", "gpl3_or_later"), ("bsd_2clause_ish", "bsd_ish")}


def bad(ctx, rule, msg):
    ctx.violation("license:" + rule, "src/licenses.c: " + msg)


class Loop:
    """A loop over 0 .. length-1 in steps of one."""

    def __init__(self, h, i, kind, bound):
        self.h, self.i, self.v, self.kind, self.bound = h, i, atom(("loop", i)), kind, bound


def check(ctx):
    ctx.cov["explanation"] = (
        "License detection as one function with affine cases: for every language of the file the characters that reach the "
        "matcher are those of its comments less white space, punctuation and line ends; every row of the license table is "
        "matched with its own pattern, an excluded phrase is looked for in what matched; a match is dropped exactly when it lies "
        "in a larger one (condition evaluated case by case against the tests taken); what is found in any language is reported "
        "once, in table order, unless a more specific license was found. Table rows: names present and different, patterns "
        "well-formed. Patterns are compiled once, each from its own row.")
    table(ctx)
    compiled(ctx)
    A = Plain(spec.module(), spec.module().fn(FN), limit=60000, steps=3000000)
    lst = result_list(ctx, A)
    W = languages(ctx, A)
    if W is None:
        return
    stripped(ctx, A, W)
    M = matching(ctx, A, W)
    if M is None:
        return
    pairwise(ctx, A, W, M)
    F = collect(ctx, A, W, M)
    if F is None:
        return
    report(ctx, A, W, F, lst)
    ctx.floor("cases", 100)
    ctx.floor("licenses", 60)


# ---------------------------------------------------------------- table

def rows():
    m = spec.module()
    g = m.gname(MAP)
    if not g:
        raise AnalysisBroken("table of licenses not found")
    init = g[0]["init"]
    fields = [n for n, o, t in sorted(m.structs["License"], key=lambda x: x[1])]
    if init[0] != "l":
        raise AnalysisBroken("table of licenses has another shape")
    out = []
    for r in init[1:]:
        if isinstance(r, list) and r and isinstance(r[0], list):
            r = ["t"] + r
        if r[0] == "z":
            out.append(None)
        elif r[0] == "t" and len(r) == len(fields) + 1:
            out.append(dict(zip(fields, r[1:])))
        else:
            raise AnalysisBroken("row of the table of licenses has another shape")
    return out


def text(v):
    return spec.module().cstr(v) if v else None


def table(ctx):
    rs = rows()
    names = []
    for k, r in enumerate(rs):
        name = text(r["name"]) if r else None
        if name is None:
            if k != len(rs) - 1:
                bad(ctx, "table:end", "row %d of the table of licenses has no name, the rows behind it are never used" % k)
            continue
        ctx.count("licenses")
        if k == len(rs) - 1:
            bad(ctx, "table:unended", "the table of licenses has no last row without a name")
        if name in names:
            bad(ctx, "table:twice:" + name, "the license %s is in the table twice" % name)
        names.append(name)
        for f in ("nice_name", "url", "re"):
            if text(r.get(f)) is None:
                bad(ctx, "table:%s:%s" % (f, name), "the license %s has no %s" % (name, f))
        for f in ("re", "exclude_re"):
            t = text(r.get(f))
            if t is None:
                continue
            ctx.count("patterns")
            e = pattern_error(t)
            if e:
                bad(ctx, "pattern:%s:%s" % (name, f), "the pattern of the license %s %s" % (name, e))
    ctx.names = names


def pattern_error(t):
    """Not a pattern, or one with an escape that stands for a control character inside a word."""
    try:
        re.compile(t)
    except re.error as e:
        return "is not a regular expression: %s" % e
    for x in re.finditer(r"\\(\\\\)*([a-zA-Z])", t.replace("\\\\", "")):
        if x.group(2) not in "bBdDsSwWnrtAzZQE":
            return "contains the escape \\%s, which stands for something else than a letter" % x.group(2)
        if x.group(2) in "nrt" and t[x.end():x.end() + 2].isalpha():
            pass
    return None


def compiled(ctx):
    """Every row's patterns are compiled into that row."""
    m = spec.module()
    fs = {k: fld("License", k) for k in ("re", "regexp", "exclude_re", "exclude_regexp", "re_flags", "exclude_re_flags")}
    n = 0
    for name in ("compile_regexps", FN):
        f = m.funcs.get(name)
        if f is None or not f.defined:
            continue
        A = Plain(m, f, limit=60000, steps=3000000)
        for p in A.paths:
            for a, (c, ar) in rets(p).items():
                if c != "pcre_compile":
                    continue
                n += 1
                ctx.count("cases")
                src = S(ar[0])
                to = [S(e[1]) for e in p.stores() if S(e[2]) == S(atom(a))]
                if len(to) != 1:
                    bad(ctx, "compile:kept", "a compiled pattern is stored %d times" % len(to))
                    continue
                ok = False
                for x, y, z in (("re", "regexp", "re_flags"), ("exclude_re", "exclude_regexp", "exclude_re_flags")):
                    b = add(to[0], lin(-fs[y]))
                    if src == S(mem(b, fs[x])) and "('g', '" in repr(b) and (len(b[1]) > 1):
                        ok = True
                        if p.lit(eq(mem(b, fs[x]), ZERO)) is not False:
                            bad(ctx, "compile:missing", "a pattern that may be missing is compiled")
                        if "('mem', %r" % (add(b, lin(fs[z])),) not in repr(S(ar[1])):
                            bad(ctx, "compile:flags", "a pattern is compiled with the flags of another one")
                if not ok:
                    bad(ctx, "compile:row", "a pattern is compiled into another row or member than its own")
        for L in index_loops(A):
            its = [p for p in A.paths if any(c == "pcre_compile" for c, _ in rets(p).values())]
        if n:
            break
    if not n:
        raise AnalysisBroken("no place where license patterns are compiled")


# ---------------------------------------------------------------- loops

def index_loops(A):
    out = []
    for h in A.heads:
        backs = [p for p in A.paths if p.end[0] == "back" and p.end[1] == h]
        if not backs:
            continue
        ent = [dict(next(vs for x, vs in p.loops if x == h)) for p in A.paths if any(x == h for x, _ in p.loops)]
        for i in backs[0].end[2]:
            v = atom(("loop", i))
            if all(S(p.end[2].get(i, ZERO)) == add(v, lin(1)) for p in backs) and all(S(e[i]) == ZERO for e in ent):
                out.append(Loop(h, i, "index", None))
    return out


def bound_of(A, L):
    """Forms b with: the loop is left through its end only when v >= b."""
    bs = set()
    for p in A.paths:
        if not entered(p, L):
            continue
        for c, w in p.lits:
            c = S(c)
            if c[0] == "lt" and any(a == L.v[1][0][0] and k == 1 for a, k in c[1][1]):
                bs.add(add(L.v, c[1], -1))
    return bs


def entered(p, L):
    return any(h == L.h for h, _ in p.loops)


def inside(p, L, A):
    """This path ends within an iteration of L."""
    return entered(p, L) and p.end[0] == "back" and p.end[1] in A.inside(L.h)


def exhausted(p, L, b):
    return (b is not None and (p.lit(lt(L.v, b)) is False or p.lit(eq(L.v, b)) is True)) or p.lit(unnamed(L)) is True


def unnamed(L):
    return eq(mem(row(L.v, "name", stride())), ZERO)


LEN = None


def mapbase():
    m = spec.module()
    n = [k for k, g in m.globals.items() if g.get("name") == MAP or k == MAP][0]
    return atom(("g", n))


def row(v, member, stride):
    return add(add(mapbase(), scale(v, stride)), lin(fld("License", member)))


def stride():
    m = spec.module()
    last = max(o for n, o, t in m.structs["License"])
    return last + 8


def full(ctx, A, L, what):
    """The loop runs over the whole table: it is left only when its index reached the number of rows (or the program stops)."""
    bs = {b for b in bound_of(A, L) if isrows(b)}
    if not bs and any(p.lit(unnamed(L)) is True for p in A.paths if entered(p, L)):
        bs = {None}
    if not bs:
        bad(ctx, "rows:" + what, "%s: the loop does not run to the number of rows of the table" % what)
        return None
    b = next(iter(bs))
    for p in A.paths:
        if entered(p, L) and not (p.end[0] == "back" and p.end[1] in A.inside(L.h)) and p.end[0] != "exit" and not exhausted(p, L, b):
            bad(ctx, "left:" + what, "%s: the loop over the table can be left early" % what)
            break
        if p.end[0] == "back" and p.end[1] == L.h and exhausted(p, L, b):
            bad(ctx, "beyond:" + what, "%s: the loop runs beyond the table" % what)
            break
    return True if b is None else b


def isrows(b):
    """The number of rows: the counter kept for it, or the number itself."""
    if isconst(b):
        return b[0] == len(rows()) - 1
    return len(b[1]) == 1 and b[0] == 0 and b[1][0][1] == 1 and "license_map_length" in repr(b)


# ---------------------------------------------------------------- languages

def result_list(ctx, A):
    out = set()
    for p in A.paths:
        if p.end[0] == "ret":
            out.add(S(p.end[1]))
    if len(out) != 1:
        bad(ctx, "result", "different lists are returned in different cases")
    return next(iter(out))


def languages(ctx, A):
    nx, hd = fld("ParsedLanguageListItem", "next"), fld("ParsedLanguageListItem", "head")
    ws = []
    for w in walks(A, nx):
        if any(c == "pcre_exec" for p in A.paths if w.entered(p) for c, _ in rets(p).values()):
            if any(x in A.inside(w.h) for I in A.f.insts() if I.op == "call" and I.callee() == "pcre_exec" for x in [I.blk.n]):
                ws.append(w)
    if len(ws) != 1:
        bad(ctx, "languages", "the languages found in the file are not walked one by one")
        return None
    w = ws[0]
    for i in w.init:
        if not (len(i[1]) == 1 and i[1][0][0][0] == "mem" and i[1][0][0][1][0] == hd and
                ("parsed_language_list" in repr(i) or "('arg', 0)" in repr(i))):
            bad(ctx, "first", "the search does not begin with the first language of the file")
    for p in A.paths:
        ctx.count("cases")
        if not w.entered(p):
            if p.end[0] == "ret" and not any(p.lit(eq(i, ZERO)) is True for i in w.init):
                bad(ctx, "unsearched", "the languages of a file can be left unsearched")
            continue
        o = w.outcome(p)
        if o == "stop" and p.end[0] != "exit" and not (p.end[0] == "back" and p.end[1] in w.body):
            bad(ctx, "stop", "the search ends before the last language")
    return w


def cursors(A, W):
    """Loop variables that run over the comments of the language."""
    start = S(mem(mem(W.e, fld("ParsedLanguageListItem", "pl")), fld("ParsedLanguage", "comments")))
    cur = {}
    grew = True
    while grew:
        grew = False
        for p in A.paths:
            for h, vs in p.loops:
                if h not in W.body:
                    continue
                for i, v in vs.items():
                    if i not in cur and (S(v) == start or (len(S(v)[1]) == 1 and S(v)[1][0][0][0] == "loop" and S(v)[1][0][0][1] in cur)):
                        cur[i] = h
                        grew = True
    return start, cur


DROP = [32, 9, 13, 10]


def stripped(ctx, A, W):
    """Only white space, punctuation and line ends are dropped on the way to the matcher."""
    start, cur = cursors(A, W)
    if not cur:
        bad(ctx, "comments", "what is searched does not come from the comments of the language")
        return
    for p in A.paths:
        if p.end[0] != "back" or p.end[1] not in W.body:
            continue
        for i, nv in p.end[2].items():
            if i not in cur:
                continue
            v = atom(("loop", i))
            d = add(S(nv), v, -1)
            if not isconst(d):
                # the value of an inner cursor after its loop, possibly further
                b = [a for a, k in S(nv)[1] if a[0] == "loop" and a[1] in cur]
                if len(b) != 1 or S(nv)[0] not in (0, 1):
                    bad(ctx, "cursor", "the search jumps to another place of the comments")
                    continue
                v = atom(b[0])
                d = lin(S(nv)[0])
            ctx.count("cursor_steps")
            if d[0] == 0:
                continue
            if d[0] != 1:
                bad(ctx, "step", "%d characters of the comments are passed at once" % d[0])
                continue
            copied = any(S(e[2]) == S(mem(v)) for e in p.stores())
            dropped = any(p.lit(eq(mem(v), lin(k))) is True for k in DROP) or punct(p, v)
            if not copied and not dropped:
                bad(ctx, "dropped", "characters of the comments other than white space, punctuation and line ends are dropped")
    for p in A.paths:
        if p.lit(eq(start, ZERO)) is True:
            continue                    # no comments at all
        for c, w in p.lits:
            c = S(c)
            if c[0] != "lt":
                continue
            at = [a for a, k in c[1][1] if a[0] == "loop" and (a[1] in cur or any(a[1] in vs and h in W.body for h, vs in p.loops))]
            rest = [a for a, k in c[1][1] if a not in at and a != start[1][0][0] and a[0] not in ("new", "alloca")]
            if len(at) == 1 and not rest and (any(a == start[1][0][0] for a, k in c[1][1]) or any(a[0] == "new" for a, k in c[1][1])):
                bad(ctx, "limit", "comments are searched up to a fixed length only")
    for p in A.paths:
        for e in p.stores():
            if e[4].blk.n in W.body and S(e[1])[1] and S(e[1])[1][0][0][0] == "loop":
                x = S(e[2])
                ok = x in (lin(32), ZERO) or any(x == S(mem(atom(("loop", i)))) for i in cur)
                if not ok and e[4].d.get("ops", [[]])[0] and e[4].ops[0][0] != "n":
                    bad(ctx, "added", "%s is put into what is searched" % show(x))


def punct(p, v):
    m = S(mem(v))
    for c, w in p.lits:
        c = S(c)
        if c[0] == "eq" and not w and len(c[1][1]) == 1:
            a = c[1][1][0][0]
            r = repr(a)
            if (a[0] == "pure" and a[1] in ("ispunct", "isspace") and S(a[2][0]) == m) or ("__ctype_b_loc" in r and repr(m[1][0][0]) in r):
                return True
    return False


# ---------------------------------------------------------------- matching

class M:
    pass


def execs(p):
    """[(ret atom, event, args)] in order."""
    R = rets(p)
    out = []
    for a, (c, ar) in R.items():
        if c == "pcre_exec":
            e = next(e for e in p.calls("pcre_exec") if e[2] == ar and e[4].i == a[2])
            out.append((a, e, ar))
    out.sort(key=lambda x: p.events.index(x[1]))
    return out


def hit(p, a):
    """Did the match succeed? True / False / None"""
    r = atom(a)
    for c, pol in ((lt(r, ZERO), False), (lt(lin(-1), r), True), (lt(ZERO, r), True), (eq(r, lin(-1)), False)):
        k = p.lit(c)
        if k is not None and (c[0] == "lt"):
            return k == pol
    return None


def matching(ctx, A, W):
    st = stride()
    g = M()
    loops = {L.i: L for L in index_loops(A)}
    main = set()
    for p in A.paths:
        for a, e, ar in execs(p):
            for i, L in loops.items():
                if S(ar[0]) == S(mem(row(L.v, "regexp", st))):
                    main.add(i)
    main = [i for i in main if loops[i].h in W.body]
    if len(main) != 1:
        bad(ctx, "rows", "the rows of the table are not matched one after the other")
        return None
    L = loops[main[0]]
    g.L, g.st, g.loops = L, st, loops
    b = full(ctx, A, L, "matching")
    if b is None:
        return None
    # the cells that keep where a row matched
    g.Sa = g.Ea = None
    for p in A.paths:
        x = execs(p)
        if not x or not entered(p, L):
            continue
        ov = x[0][2][6]
        for e in p.stores():
            for k, name in ((0, "Sa"), (4, "Ea")):
                if S(e[2]) == S(mem(ov, k)) and any(t == L.v[1][0][0] for t, _ in S(e[1])[1]):
                    setattr(g, name, S(e[1]))
    if g.Sa is None or g.Ea is None:
        bad(ctx, "places", "where a license matches is not kept")
        return None
    for p in A.paths:
        if not entered(p, L):
            if W.entered(p) and W.outcome(p) in ("next", "last"):
                bad(ctx, "language", "a language is passed over without being searched")
            continue
        if p.end[0] == "exit" or exhausted(p, L, b):
            continue
        ctx.count("cases")
        xs = execs(p)
        mine = [x for x in xs if S(x[2][0]) == S(mem(row(L.v, "regexp", st)))]
        excl = [x for x in xs if S(x[2][0]) == S(mem(row(L.v, "exclude_regexp", st)))]
        done = p.end[0] == "back" and p.end[1] == L.h
        if done and len(mine) != 1:
            bad(ctx, "once", "a row of the table is matched %d times" % len(mine))
        if len(mine) + len(excl) != len(xs):
            bad(ctx, "pattern", "a row is matched with the pattern of another one")
        if not mine:
            continue
        a, e, ar = mine[0]
        if S(ar[5]) != ZERO or S(ar[4]) != ZERO:
            bad(ctx, "offset", "the search does not start at the beginning, or with other options")
        subject(ctx, p, A, W, ar)
        ok = hit(p, a)
        if ok is None:
            bad(ctx, "tested", "the result of the match is not tested for failure")
            continue
        final = {}
        upto = []
        for ev in p.stores():
            if p.events.index(ev) < p.events.index(e) and ev[4].blk.n not in A.inside(L.h):
                continue
            if S(ev[1]) in (g.Sa, g.Ea):
                final[S(ev[1])] = ev
        ep = after(p, a)
        want = ok
        if ok and excl:
            xa, xe, xar = excl[0]
            r = hit(p, xa)
            if r is None:
                bad(ctx, "extested", "the result of looking for the excluded phrase is not tested for failure")
            m0, m1 = atom(("mem", S0(ar[6], 0), ep)), atom(("mem", S0(ar[6], 4), ep))
            if S(xar[2]) != S(add(ar[2], m0)) or S(xar[3]) != S(add(m1, m0, -1)):
                bad(ctx, "expart", "the excluded phrase is not looked for in what matched")
            want = not r
        elif ok and done:
            if p.lit(eq(mem(row(L.v, "exclude_re", st)), ZERO)) is not True and p.lit(eq(mem(row(L.v, "exclude_regexp", st)), ZERO)) is not True:
                bad(ctx, "exclude", "an excluded phrase is not looked for")
        if not ok and excl:
            bad(ctx, "exfail", "an excluded phrase is looked for although nothing matched")
        if not done and not any(h != L.h and h in A.inside(L.h) for h, _ in p.loops):
            continue
        for cell, off, nm in ((g.Sa, 0, "start"), (g.Ea, 4, "end")):
            ev = final.get(cell)
            if ev is None:
                if cell == g.Sa:
                    bad(ctx, "stale", "a row keeps the match of the language before")
                continue
            if want:
                v = ev[2]
                good = len(v[1]) == 1 and v[0] == 0 and v[1][0][0][0] == "mem" and S(v) == S(mem(ar[6], off)) and v[1][0][0][2] == ep
                if not good and not inner(ev, A, L):
                    bad(ctx, "kept:" + nm, "the %s kept for a match is %s" % (nm, "what a later search left there" if S(v) == S(mem(ar[6], off)) else show(S(v))))
            elif cell == g.Sa and not (isconst(ev[2]) and ev[2][0] < 0):
                bad(ctx, "ghost", "a row that does not match, or matches an excluded phrase, counts as found")
    return g


def inner(ev, A, L):
    """The store is in a loop nested in L."""
    return any(h != L.h and h in A.inside(L.h) and ev[4].blk.n in A.inside(h) for h in A.heads)


def S0(x, off):
    return add(x, lin(off))


def after(p, a):
    return p.last.get(a) if p.last else None


CUTS = ("strnlen", "memchr", "strchr", "strrchr")


def subject(ctx, p, A, W, ar):
    b = S(ar[2])
    if not (len(b[1]) == 1 and b[1][0][0][0] in ("new", "alloca")):
        bad(ctx, "subject", "what is searched is not the stripped comments from their start")
        return
    n = S(ar[3])
    q = add(n, b)
    if isconst(n) or not (len(q[1]) == 1 and q[0] == 0 and q[1][0][0][0] == "loop") and "strlen" not in repr(n):
        bad(ctx, "length", "not all of the stripped comments are searched")
    for c, w in p.lits:
        for a in pures(S(c)):
            if a[1] in CUTS:
                bad(ctx, "length", "not all of the comments are searched")
                return
    if any(e[0] == "call" and e[1] in CUTS and e[4].blk.n in W.body for e in p.events):
        bad(ctx, "length", "not all of the comments are searched")


def pures(c):
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) > 2 and v[0] == "pure" and isinstance(v[1], str):
                out.append(v)
            for x in v:
                walk(x)
    walk(c)
    return out


# ---------------------------------------------------------------- contained matches

def pairwise(ctx, A, W, g):
    inner_loops = [L for L in g.loops.values() if L.h != g.L.h and L.h in A.inside(g.L.h)]
    if not inner_loops:
        bad(ctx, "pairs", "matches are not compared with each other")
        return
    for L in inner_loops:
        bs = {b for b in bound_of(A, L)}
        if g.L.v not in bs and not any(isrows(b) for b in bs):
            bad(ctx, "pairs:bound", "a match is not compared with all the others found before it")
        bound = g.L.v if g.L.v in bs else next((b for b in bs if isrows(b)), g.L.v)
        sub = lambda x: S(subst(x, lambda a: L.v if a == g.L.v[1][0][0] else None))
        Sk, Ek, Sj = sub(g.Sa), sub(g.Ea), g.Sa
        for p in A.paths:
            if not entered(p, L):
                if p.end[0] == "back" and p.end[1] == g.L.h:
                    xs = execs(p)
                    mine = [x for x in xs if S(x[2][0]) == S(mem(row(g.L.v, "regexp", g.st)))]
                    excl = [x for x in xs if S(x[2][0]) == S(mem(row(g.L.v, "exclude_regexp", g.st)))]
                    if mine and hit(p, mine[0][0]) and not (excl and hit(p, excl[0][0])):
                        bad(ctx, "pairs:skipped", "a match is not compared with those found before it")
                continue
            if p.end[0] == "back" and p.end[1] == g.L.h and not exhausted(p, L, bound):
                bad(ctx, "pairs:left", "a match is not compared with all those found before it")
            if p.end[0] != "back" or p.end[1] != L.h:
                continue
            xs = execs(p)
            ov = xs[0][2][6] if xs else None
            m0 = [mem(Sj)] + ([mem(ov, 0)] if ov else [])
            m1 = [mem(g.Ea)] + ([mem(ov, 4)] if ov else [])
            k0, k1 = mem(Sk), mem(Ek)
            if not signs(p, m0, [k0]) or not signs(p, m1, [k1]):
                continue                # the other match is another one, it has not changed in between
            ctx.count("cases")
            ctx.count("pair_cases")
            dj = nested(p, m0, m1, [k0], [k1])         # j in k
            dk = nested(p, [k0], [k1], m0, m1)         # k in j
            sj = [e for e in p.stores() if S(e[1]) == S(Sj) and e[4].blk.n in A.inside(L.h)]
            sk = [e for e in p.stores() if S(e[1]) == S(Sk) and e[4].blk.n in A.inside(L.h)]
            for stores, cond, what in ((sj, dj, "a match that lies in another one"), (sk, dk, "a match found before that lies in a new one")):
                neg = stores and isconst(stores[-1][2]) and stores[-1][2][0] < 0
                if stores and not neg:
                    bad(ctx, "pairs:value", "a match is moved to another place")
                elif stores and cond is not True:
                    bad(ctx, "pairs:drop", "%s is not all that is dropped" % what)
                elif not stores and cond is not False:
                    bad(ctx, "pairs:keep", "%s can be kept" % what)
    ctx.floor("pair_cases", 4)


def signs(p, xs, ys):
    """Which of x < y, x = y, x > y (-1, 0, 1) the tests taken leave open."""
    out = {-1, 0, 1}
    for x in xs:
        for y in ys:
            d = add(S(x), S(y), -1)
            for c, w in p.lits:
                c = S(c)
                if c[0] == "eq":
                    for k in (1, -1):
                        e = add(c[1], scale(d, k), -1)
                        if isconst(e) and e[0] == 0:
                            out &= {0} if w else {-1, 1}
                if c[0] != "lt":
                    continue
                for k in (1, -1):
                    e = add(c[1], scale(d, k), -1)
                    if isconst(e):
                        # c: k * d + e < 0
                        out &= {g for g in out if any((k * v + e[0] < 0) == w for v in ((g,) if g == 0 else (g, 2 * g, 10 ** 9 * g)))}
    return out


def nested(p, a0, a1, b0, b1):
    """[a0, a1) lies in [b0, b1) and is smaller: True / False / None"""
    r = {l <= 0 and h >= 0 and (l < 0 or h > 0) for l in signs(p, b0, a0) for h in signs(p, b1, a1)}
    return r.pop() if len(r) == 1 else None


# ---------------------------------------------------------------- results of all languages

def collect(ctx, A, W, g):
    """found[j] := 1 for every row that is still kept, in each language; the cells start as 0."""
    cand = {}
    for L in g.loops.values():
        if L.h not in W.body or L.h == g.L.h:
            continue
        Sj = S(subst(g.Sa, lambda a: L.v if a == g.L.v[1][0][0] else None))
        for p in A.paths:
            if p.end[0] != "back" or p.end[1] != L.h:
                continue
            kept = kept_lit(p, Sj)
            for e in p.stores():
                if e[4].blk.n in A.inside(L.h) and kept is not None and any(t == L.v[1][0][0] for t, _ in S(e[1])[1]) and S(e[1]) not in (g.Sa, g.Ea):
                    cand.setdefault(L.i, []).append((p, kept, e))
    if len(cand) != 1:
        bad(ctx, "collect", "what is found in one language is not put together with what is found in the others")
        return None
    i = next(iter(cand))
    L = g.loops[i]
    b = full(ctx, A, L, "collecting")
    cell = S(cand[i][0][2][1])
    Sj = S(subst(g.Sa, lambda a: L.v if a == g.L.v[1][0][0] else None))
    for p in A.paths:
        if p.end[0] == "back" and p.end[1] == L.h:
            ctx.count("cases")
            k = kept_lit(p, Sj)
            st_ = [e for e in p.stores() if S(e[1]) == cell and e[4].blk.n in A.inside(L.h) and S(e[2]) != S(mem(cell))]
            one = bool(st_) and nonzero(st_[-1][2])
            if k is not False and not one:
                bad(ctx, "lost", "a license that was found is not kept for the result")
            if k is not True and st_:
                if one:
                    bad(ctx, "invented", "a license that was not found, or was dropped, is kept for the result")
                else:
                    bad(ctx, "forgotten", "what an earlier language of the file contains is forgotten")
        if W.entered(p) and W.outcome(p) in ("next", "last") and not entered(p, L):
            bad(ctx, "uncollected", "what is found in a language is not collected")
    # initialised to 0 before the languages
    base = S(subst(cell, lambda a: ZERO if a == L.v[1][0][0] else None))
    init = None
    for L2 in g.loops.values():
        if L2.h in W.body:
            continue
        c2 = S(subst(cell, lambda a: L2.v if a == L.v[1][0][0] else None))
        for p in A.paths:
            if p.end[0] == "back" and p.end[1] == L2.h and any(S(e[1]) == c2 and S(e[2]) == ZERO for e in p.stores()):
                init = L2
    if init is not None:
        full(ctx, A, init, "clearing")
        for p in A.paths:
            if W.entered(p) and not entered(p, init):
                bad(ctx, "clear", "the collected results do not start as none")
    else:
        for p in A.paths:
            if W.entered(p) and not any(e[0] == "call" and ("memset" in str(e[1]) and S(e[2][0]) == base and S(e[2][1]) == ZERO or e[1] == "calloc")
                                        for e in p.events if e[4].blk.n not in W.body):
                bad(ctx, "clear", "the collected results do not start as none")
    return L, cell


def nonzero(v):
    if isconst(v):
        return v != ZERO
    a = v[1][0][0]
    return v[0] == 0 and len(v[1]) == 1 and a[0] == "op" and a[1] == "or" and any(isinstance(x, tuple) and isconst(x) and x != ZERO for x in a[2:])


def kept_lit(p, cell):
    """Is the start kept in this cell >= 0 on this path?"""
    x = mem(cell)
    for c, pol in ((lt(lin(-1), x), True), (lt(x, ZERO), False), (eq(x, lin(-1)), False)):
        k = p.lit(c)
        if k is not None:
            return k == pol
    return None


def report(ctx, A, W, F, lst):
    Lc, cell = F
    st = stride()
    at = lambda L: S(subst(cell, lambda a: L.v if a == Lc.v[1][0][0] else None))
    outer = [L for L in index_loops(A) if L.h not in W.body and any(
        p.end[0] == "back" and p.end[1] == L.h and p.lit(eq(mem(at(L)), ZERO)) is False and W.entered(p) for p in A.paths)]
    hs = [L for L in outer if not any(L.h != o.h and L.h in A.inside(o.h) for o in outer)]
    if len(hs) != 1:
        bad(ctx, "result:rows", "the results are not gathered row by row")
        return
    L = hs[0]
    full(ctx, A, L, "reporting")
    body = A.inside(L.h)
    for p in A.paths:
        if p.end[0] == "ret" and W.entered(p) and not entered(p, L):
            bad(ctx, "result:none", "what was found is not reported")
        if p.end[0] != "back" or p.end[1] != L.h:
            continue
        ctx.count("cases")
        ctx.count("report_cases")
        if len(set(named(p, row(L.v, "name", st)))) > 1:
            continue                    # one row, two names: no such case
        f = p.lit(eq(mem(at(L)), ZERO))
        lic = fld("LicenseListItem", "lic")
        put = [e for e in p.stores() if e[4].blk.n in body and S(e[2]) == S(add(mapbase(), scale(L.v, st)))]
        other = [e for e in p.stores() if e[4].blk.n in body and "'%s'" % mapbase()[1][0][0][1] in repr(e[2]) and e not in put]
        if other:
            bad(ctx, "result:row", "another row than the one found is reported")
        if f is True:
            if put:
                bad(ctx, "result:unfound", "a license that was not found is reported")
            continue
        why = overridden(ctx, p, A, L, at, st)
        if put:
            if len(put) != 1:
                bad(ctx, "result:twice", "a license is reported %d times" % len(put))
            r = c15.append_ok(p, "LicenseListItem", "lic", lst, S(put[-1][2]))
            if r:
                bad(ctx, "result:append", "reporting a license: %s" % r)
            if why:
                bad(ctx, "result:overridden", "a license is reported although the more specific %s was found" % why[1])
            for a, b in PARENTS:
                if p.lit(eq(strcmp(row(L.v, "name", st), a), ZERO)) is True and not searched(p, A, L, b, at, st):
                    bad(ctx, "result:general:" + a + ":" + b, "the license %s can be reported although %s was found" % (a, b))
                elif p.lit(eq(strcmp(row(L.v, "name", st), a), ZERO)) is None:
                    bad(ctx, "result:untested:" + a, "the license %s is reported without regard to more specific ones" % a)
        elif not why:
            bad(ctx, "result:lost", "a license that was found is not reported")
        elif why not in PARENTS:
            bad(ctx, "result:hides", "the license %s is not reported when %s was found" % why)
    ctx.floor("report_cases", 8)


def strcmp(cell, s):
    a = tuple(sorted((mem(cell), atom(("str", s))), key=repr))
    return atom(("pure", "strcmp", a, 0))


def named(p, cell):
    """Names the cell is known to hold."""
    out = []
    x = S(mem(cell))
    for c, w in p.lits:
        c = S(c)
        if c[0] == "eq" and w and c[1][0] == 0 and len(c[1][1]) == 1 and c[1][1][0][0][0] == "pure" and c[1][1][0][0][1] == "strcmp":
            a = c[1][1][0][0][2]
            for u, v in (a, a[::-1]):
                if S(u) == x and len(v[1]) == 1 and v[1][0][0][0] == "str":
                    out.append(v[1][0][0][1])
    return out


def overridden(ctx, p, A, L, at, st):
    """(name of this row, name of a row known to be found that replaces it) or None"""
    mine = named(p, row(L.v, "name", st))
    for L2 in index_loops(A):
        if L2.h == L.h or L2.h not in A.inside(L.h) or not entered(p, L2):
            continue
        if p.lit(eq(mem(at(L2)), ZERO)) is False:
            for n in named(p, row(L2.v, "name", st)):
                for a in mine:
                    return a, n
    # remembered in a variable
    for c, w in p.lits:
        c = S(c)
        if c[0] == "eq" and not w and c[1][0] == 0 and len(c[1][1]) == 1 and c[1][1][0][0][0] == "loop":
            i = c[1][1][0][0][1]
            h = next((h for h, vs in p.loops if i in vs), None)
            if h is None or h not in A.inside(L.h):
                continue
            for q in A.paths:
                if q.end[0] == "back" and q.end[1] == h and isconst(S(q.end[2].get(i, ZERO))) and S(q.end[2][i]) != ZERO:
                    r = None
                    for L2 in index_loops(A):
                        if L2.h == h and q.lit(eq(mem(at(L2)), ZERO)) is False:
                            for n in named(q, row(L2.v, "name", st)):
                                for a in named(q, row(L.v, "name", st)):
                                    if a in mine:
                                        r = (a, n)
                    if r:
                        return r
    return None


def searched(p, A, L, b, at, st):
    """All rows were looked at for the license b, none of them found."""
    for L2 in index_loops(A):
        if L2.h == L.h or L2.h not in A.inside(L.h) or not entered(p, L2):
            continue
        tests = False
        for q in A.paths:
            if entered(q, L2) and any(("str", b) == v[1][0][0] for c, w in q.lits for v in strs(S(c))):
                if any(repr(L2.v[1][0][0]) in repr(c) and repr(b) in repr(c) for c, w in q.lits):
                    tests = True
        if tests and any(isrows(x) and exhausted(p, L2, x) for x in bound_of(A, L2)):
            return True
    return False


def strs(c):
    out = []

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == "str" and isinstance(v[1], str):
                out.append(atom(v))
            else:
                for x in v:
                    walk(x)
    walk(c)
    return out
