"""Comparing two versions: orientation, category and language pairing, start from zero."""
import spec
from spec import *
from c15 import bad, done, exhausted

DIFF = "ohcount_calc_diff"


def check(ctx):
    ctx.cov["explanation"] = (
        "Branch cases with affine values (see DESIGN.md). Rules: the two sides of a comparison are the entries of the asked "
        "language in the older and the newer file (or an empty one after a full search); code is compared with code and "
        "comments with comments, older first; the outcome lands in the added and removed numbers of the same kind; blank "
        "lines added minus removed is newer minus older and neither is negative; every language of either file gets exactly "
        "one entry; in the line comparison the counters start from zero on every path, numbers of newer lines only go to "
        "'added' and numbers of older lines only to 'removed' (side analysis of line numbers), and each chunk counts its "
        "whole length; the external comparison passes older before newer and counts '>' as added and '<' as removed.")
    delta(ctx)
    files(ctx)
    sides(ctx)
    engine(ctx)
    disk(ctx)


def owner(p, A, W, x, lang):
    """('from'|'to', 'entry'|'empty') candidates for a ParsedLanguage pointer."""
    R = rets(p)
    pl, hd = offs("ParsedLanguageListItem", "pl", "head")
    nm = fld("ParsedLanguage", "name")
    out = []
    for w in W:
        if x == S(mem(w.e, pl)):
            for i in w.init:
                b = spec.add(i[1][0][0][1], lin(-hd)) if i[1] and i[1][0][0][0] == "mem" else None
                for a, (c, args) in R.items():
                    if b == atom(a) and c == "ohcount_sourcefile_get_parsed_language_list":
                        out.append((S(args[0]), same_text(p, lang, mem(x, nm)) is True))
    return out


def delta(ctx):
    fn = "ohcount_sourcefile_calc_loc_delta"
    A = cases(fn)
    W = walks(A)
    pl, hd = offs("ParsedLanguageListItem", "pl", "head")
    ctx.count("list_walks", len(W))
    FROM, LANG, TO = ARG[0], ARG[1], ARG[2]

    def listof(p, w):
        i = next(iter(w.init))
        if len(w.init) == 1 and i[1] and i[1][0][0][0] == "mem":
            b = spec.add(i[1][0][0][1], lin(-hd))
            for a, (c, args) in rets(p).items():
                if b == atom(a) and c == "ohcount_sourcefile_get_parsed_language_list":
                    return S(args[0])
        return None
    nm = fld("ParsedLanguage", "name")
    for p in A.paths:
        ctx.count("cases")
        for w in W:
            if w.outcome(p) == "next" and same_text(p, LANG, mem(mem(w.e, pl), nm)) is True:
                bad(ctx, fn, "skip", "the entry of the language is passed over")
        if not done(p):
            continue
        R = rets(p)
        blanks = [atom(a) for a, (c, ar) in R.items() if c == "ohcount_parsed_language_new" and a[0] == "ret"]
        dl = [(atom(a), ar) for a, (c, ar) in R.items() if c == "ohcount_loc_delta_new" and atom(a) == S(p.end[1])]
        if len(dl) != 1:
            bad(ctx, fn, "result", "the result is not a new delta")
            continue
        D, dargs = dl[0]
        names = ["language", "code_added", "code_removed", "comments_added", "comments_removed", "blanks_added", "blanks_removed"]
        if S(dargs[0]) != LANG:
            bad(ctx, fn, "language", "the delta is not labelled with the language asked for")

        def side(x, want):
            """None if x is want's entry of the language, or an empty entry after a full search."""
            for w in W:
                if x == S(mem(w.e, pl)) and w.entered(p):
                    f = listof(p, w)
                    if f != want:
                        return "it comes from the other file"
                    if same_text(p, LANG, mem(x, nm)) is not True:
                        return "its language is not known to be the one asked for"
                    return None
            if x in blanks:
                for w in W:
                    if w.entered(p) and listof(p, w) == want and w.outcome(p) == "stop":
                        return "the file's own entry is ignored"
                for w in W:
                    if w.entered(p) and listof(p, w) == want and w.outcome(p) in ("end", "last"):
                        return None
                for a, (c, ar) in R.items():
                    if c == "ohcount_sourcefile_get_parsed_language_list" and S(ar[0]) == want and \
                            p.lit(eq(mem(atom(a), hd), ZERO)) is True:
                        return None
                return "the file was not searched for the language"
            return "it is not an entry of the file"

        def final(n):
            i = names.index(n)
            a = spec.add(D, lin(fld("LocDelta", n)))
            for e in reversed(p.events):
                if e[0] == "store" and S(e[1]) == S(a):
                    return S(e[2])
                if e[0] == "call" and e[1] == DIFF:
                    if S(e[2][2]) == S(a) or S(e[2][3]) == S(a):
                        return S(mem(a))
            return S(dargs[i])
        seen = set()
        for e in p.calls(DIFF):
            ctx.count("form_obligations")
            f, t, ao, ro = [S(x) for x in e[2][:4]]
            kind = None
            for k in ("code", "comments"):
                o = fld("ParsedLanguage", k)
                if f[1] and f[1][0][0][0] == "mem" and f[1][0][0][1][0] == o and len(f[1]) == 1:
                    kind = k
                    fx = spec.add(f[1][0][0][1], lin(-o))
            if kind is None or not (t[1] and len(t[1]) == 1 and t[1][0][0][0] == "mem"):
                # texts of an empty entry may be read through its constructor
                bad(ctx, fn, "operands", "something other than the code or comment text of an entry is compared")
                continue
            tx = spec.add(t[1][0][0][1], lin(-fld("ParsedLanguage", kind)))
            for x, want, who in ((fx, FROM, "older"), (tx, TO, "newer")):
                r = side(x, want)
                if r:
                    bad(ctx, fn, "side:%s:%s" % (kind, who), "the %s %s text compared is not the file's: %s" % (who, kind, r))
            for n, out in (("added", ao), ("removed", ro)):
                v = final(kind + "_" + n)
                if v != S(mem(out)):
                    bad(ctx, fn, "out:%s_%s" % (kind, n), "the number of %s lines %s is not what the comparison gave" % (kind, n))
            if kind in seen:
                bad(ctx, fn, "twice:" + kind, "%s is compared twice" % kind)
            seen.add(kind)
        for k in ("code", "comments"):
            if k not in seen:
                bad(ctx, fn, "missing:" + k, "%s texts are not compared" % k)
        # blanks
        ba, br = final("blanks_added"), final("blanks_removed")
        net = spec.add(ba, br, -1)
        o = fld("ParsedLanguage", "blanks_count")
        okb = False
        cand = []
        for c in ("from", "to"):
            pass
        ents = [S(mem(w.e, pl)) for w in W if w.entered(p)] + blanks
        for fx in ents:
            if side(fx, FROM):
                continue
            for tx in ents:
                if side(tx, TO):
                    continue
                want = spec.add(S(mem(tx, o)), S(mem(fx, o)), -1)
                if net == want:
                    okb = True
                    for v, x in ((ba, want), (br, scale(want, -1))):
                        if v == ZERO:
                            continue
                        if v != x or not (p.lit(lt(x, ZERO)) is False or p.lit(lt(scale(x, -1), ZERO)) is True):
                            bad(ctx, fn, "blanks-sign", "the number of blank lines added or removed can be negative")
        ctx.count("form_obligations")
        if not okb:
            bad(ctx, fn, "blanks", "blank lines added minus removed is %s" % show(net))


def files(ctx):
    fn = "ohcount_sourcefile_diff"
    A = cases(fn)
    W = walks(A)
    ctx.count("list_walks", len(W))
    pl, hd = offs("ParsedLanguageListItem", "pl", "head")
    nm = fld("ParsedLanguage", "name")
    used = {}
    for w in W:
        for p in A.paths:
            if w.entered(p):
                for i in w.init:
                    for a, (c, ar) in rets(p).items():
                        if c == "ohcount_sourcefile_get_parsed_language_list" and i == S(mem(atom(a), hd)) and len(w.init) == 1:
                            used[S(ar[0])] = w
    for who, a in (("older", ARG[0]), ("newer", ARG[1])):
        if a not in used:
            bad(ctx, fn, "walk:" + who, "the languages of the %s file are not all visited" % who)
    for p in A.paths:
        ctx.count("cases")
        R = rets(p)
        lists = [atom(a) for a, (c, _) in R.items() if c == "ohcount_loc_delta_list_new"]
        for a, w in used.items():
            o = w.outcome(p)
            if o == "stop":
                bad(ctx, fn, "stop", "a language can be left out: the walk stops early")
                continue
            if o not in ("next", "last"):
                continue
            ctx.count("form_obligations")
            ev = w.events(p)
            adds = [e for e in ev if e[0] == "call" and e[1] == "ohcount_loc_delta_list_add_loc_delta"]
            known = None
            for r, (c, ar) in R.items():
                if c == "ohcount_loc_delta_list_get_loc_delta" and S(ar[0]) in lists and S(ar[1]) == S(mem(mem(w.e, pl), nm)):
                    z = p.lit(eq(atom(r), ZERO))
                    known = known if z is None else (not z)
            if len(adds) == 0 and known is not True:
                bad(ctx, fn, "missing", "a language gets no entry")
            elif len(adds) > 1:
                bad(ctx, fn, "twice", "a language gets more than one entry")
            elif len(adds) == 1:
                first = all(not (w2 is not w and w2.entered(p)) for w2 in used.values())
                if known is not False and not first:
                    bad(ctx, fn, "double", "a language of both files gets two entries")
                x = S(adds[0][2][1])
                src = [ar for r, (c, ar) in R.items() if c == "ohcount_sourcefile_calc_loc_delta" and atom(r) == x]
                if not src or [S(v) for v in src[-1]] != [ARG[0], S(mem(mem(w.e, pl), nm)), ARG[1]]:
                    bad(ctx, fn, "args", "an entry is not the comparison of that language from the older to the newer file")
                if S(adds[0][2][0]) not in lists:
                    bad(ctx, fn, "list", "an entry is added to another list")
        if done(p) and S(p.end[1]) not in lists:
            bad(ctx, fn, "result", "the result is not the list of entries")


def fwrites(p, arg):
    return [e for e in p.stores() if S(e[1]) == arg]


def engine(ctx):
    """The line comparison starts from zero and always delivers both numbers."""
    m = spec.module()
    fn = DIFF
    f = m.fn(fn)
    # every path from entry to a counter update passes a zero store (dataflow over blocks)
    for arg, name in ((2, "added"), (3, "removed")):
        state_in = {0: frozenset(["raw"])}
        todo = [0]
        reads = 0
        while todo:
            b = todo.pop()
            st = set(state_in[b])
            for I in f.blocks[b].insts:
                if I.op == "store" and I.ops[1] == ["a", arg]:
                    if I.ops[0][0] == "c" and I.ops[0][1] == 0:
                        st = {"zero"}
                    elif "raw" in st:
                        ctx.violation("%s:start:%s" % (fn, name), "%s: the number of lines %s is written without having been set to zero" % (I.where(), name))
                        st = {"zero"}
                elif I.op == "load" and I.ops[0] == ["a", arg]:
                    reads += 1
                    if "raw" in st:
                        ctx.violation("%s:start:%s" % (fn, name), "%s: counting %s lines does not start from zero" % (I.where(), name))
                        st = {"zero"}
                elif I.op == "call" and I.callee() == "ohcount_calc_diff_with_disk":
                    if [o for o in I.ops] != [["a", 0], ["a", 1], ["a", 2], ["a", 3]]:
                        ctx.violation(fn + ":disk-args", "%s: the external comparison gets other operands" % I.where())
                    st = {"zero"}
                elif I.op == "ret" and "raw" in st:
                    ctx.violation("%s:undelivered:%s" % (fn, name), "%s: the number of lines %s may be left unset" % (I.where(), name))
            for s in f.blocks[b].succs:
                n = state_in.get(s, frozenset()) | st
                if n != state_in.get(s):
                    state_in[s] = frozenset(n)
                    todo.append(s)
        ctx.count("form_obligations")
        ctx.count("counter_reads", reads)


def sides(ctx):
    """Side analysis: line numbers of the older (F) and of the newer text (T)."""
    m = spec.module()
    f = m.fn(DIFF)
    side = {}

    def gbase(o, depth=0):
        """('len',0|1) for loads of the two line counts, 'J' for the match vector"""
        return None
    changed = True

    def of(o):
        if o[0] == "i":
            return side.get(o[1], frozenset())
        return frozenset()

    def glob(o):
        """global (name, offset) an address denotes"""
        if o[0] == "g":
            return (m.globals.get(o[1], {}).get("name") or o[1], o[2] if len(o) > 2 else 0)
        if o[0] == "i":
            I = f.inst[o[1]]
            if I.op == "getelementptr" and not I.d["var"] and I.d["base"][0] == "g":
                g = I.d["base"]
                return (m.globals.get(g[1], {}).get("name") or g[1], (g[2] if len(g) > 2 else 0) + I.d["off"])
        return None

    def from_J(o, seen=None):
        """address inside the match vector"""
        seen = seen or set()
        if o[0] != "i" or o[1] in seen:
            return False
        seen.add(o[1])
        I = f.inst[o[1]]
        if I.op == "getelementptr":
            return from_J(I.d["base"], seen)
        if I.op == "load":
            return glob(I.ops[0]) == ("J", 0)
        if I.op == "call":
            # the vector is allocated here and kept in J
            return any(x.op == "store" and x.ops[0] == o and glob(x.ops[1]) == ("J", 0) for x in f.insts())
        if I.op in ("phi",):
            return any(from_J(v, seen) for v, _ in I.d["in"])
        return False
    while changed:
        changed = False
        for I in f.insts():
            s = side.get(I.i, frozenset())
            n = s
            if I.op == "load":
                g = glob(I.ops[0])
                if g == ("len", 0):
                    n |= {"F"}
                elif g == ("len", 4):
                    n |= {"T"}
                elif from_J(I.ops[0]) and I.ty != "ptr":
                    n |= {"T"}
            elif I.op in ("add", "sub", "sext", "zext", "trunc"):
                for o in I.ops:
                    n |= of(o)
            elif I.op == "select":
                n |= of(I.ops[1]) | of(I.ops[2])
            elif I.op == "phi":
                for v, _ in I.d["in"]:
                    n |= of(v)
            elif I.op == "icmp":
                pass
            if n != s:
                side[I.i] = n
                changed = True
        # an index into the match vector is an older line number; numbers compared with each other are of one side
        for I in f.insts():
            if I.op == "getelementptr" and from_J(I.d["base"]):
                for v, k in I.d["var"]:
                    w = v
                    while w[0] == "i" and f.inst[w[1]].op in ("sext", "zext", "add", "sub"):
                        x = f.inst[w[1]]
                        y = [o for o in x.ops if o[0] == "i"]
                        if "F" not in side.get(w[1], frozenset()):
                            side[w[1]] = side.get(w[1], frozenset()) | {"F"}
                            changed = True
                        if len(y) != 1:
                            break
                        w = y[0]
                    if w[0] == "i" and f.inst[w[1]].op == "phi" and "F" not in side.get(w[1], frozenset()):
                        side[w[1]] = side.get(w[1], frozenset()) | {"F"}
                        changed = True
    n = 0
    for I in f.insts():
        if I.op != "store" or I.ops[1] not in (["a", 2], ["a", 3]) or I.ops[0][0] != "i":
            continue
        which, want = ("added", "T") if I.ops[1] == ["a", 2] else ("removed", "F")
        J = f.inst[I.ops[0][1]]
        if J.op == "phi" and all(v[0] != "i" or f.inst[v[1]].op == "load" for v, _ in J.d["in"]):
            continue
        n += 1
        parts = collect(f, I.ops[0], I.ops[1])
        if parts is None:
            ctx.violation("%s:accumulate:%s" % (DIFF, which), "%s: lines %s are not added to the running number" % (I.where(), which))
            continue
        for pt in parts:
            s = of(pt)
            if s and s != frozenset([want]):
                ctx.violation("%s:side:%s" % (DIFF, which),
                              "%s: lines %s are counted with line numbers of the %s text" % (I.where(), which, "older" if want == "T" else "newer"))
        length(ctx, f, I, which)
        if not any(of(pt) for pt in parts):
            ctx.violation("%s:noside:%s" % (DIFF, which), "%s: lines %s are not counted from line numbers of a text" % (I.where(), which))
    ctx.count("counter_updates", n)
    if n < 2:
        ctx.violation(DIFF + ":updates", "ohcount_calc_diff: added and removed lines are not both counted")


def ssa_lin(f, o, depth=0):
    if o[0] == "c":
        return lin(o[1])
    if o[0] == "i" and depth < 30:
        I = f.inst[o[1]]
        if I.op in ("add", "sub"):
            return spec.add(ssa_lin(f, I.ops[0], depth + 1), ssa_lin(f, I.ops[1], depth + 1), 1 if I.op == "add" else -1)
        if I.op in ("sext", "zext", "trunc"):
            return ssa_lin(f, I.ops[0], depth + 1)
    return atom(("v",) + tuple(o[:2]))


def guards(f, b):
    """Conditions that hold whenever block b runs: [lin >= 0]"""
    out = []
    while True:
        preds = f.blocks[b].preds
        if len(preds) != 1:
            # skip over a join: go on with the immediate dominator
            d = idom(f).get(b)
            if d is None or d == b:
                return out
            b = d
            continue
        a = preds[0]
        T = f.blocks[a].term
        if T.op == "br" and len(T.ops) == 3 and T.ops[0][0] == "i" and f.inst[T.ops[0][1]].op == "icmp":
            C = f.inst[T.ops[0][1]]
            taken = T.ops[2][1] == b
            x, y = ssa_lin(f, C.ops[0]), ssa_lin(f, C.ops[1])
            pr = C.d["pred"][1:]
            if not taken:
                pr = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}.get(pr, "")
            d = spec.add(x, y, -1)
            if pr == "ge":
                out.append(d)
            elif pr == "gt":
                out.append(spec.add(d, lin(-1)))
            elif pr == "le":
                out.append(scale(d, -1))
            elif pr == "lt":
                out.append(spec.add(scale(d, -1), lin(-1)))
        b = a


_dom = {}


def idom(f):
    if f.name in _dom:
        return _dom[f.name]
    rpo = f.rpo()
    idx = {b: i for i, b in enumerate(rpo)}
    d = {rpo[0]: rpo[0]}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = None
            for p in f.blocks[b].preds:
                if p in d:
                    if n is None:
                        n = p
                    else:
                        x, y = p, n
                        while x != y:
                            while idx[x] > idx[y]:
                                x = d[x]
                            while idx[y] > idx[x]:
                                y = d[y]
                        n = x
            if d.get(b) != n:
                d[b] = n
                ch = True
    d[rpo[0]] = None
    _dom[f.name] = d
    return d


def length(ctx, f, I, which):
    """A chunk is counted when it is not empty, and with its whole length."""
    x = ssa_lin(f, I.ops[0])
    old = [a for a, c in x[1] if a[1] == "i" and f.inst[a[2]].op == "load" and f.inst[a[2]].ops[0] == I.ops[1]]
    if len(old) != 1:
        return
    inc = spec.add(x, atom(old[0]), -1)
    ctx.count("form_obligations")
    gs = guards(f, I.blk.n)
    if spec.add(inc, lin(-1)) not in gs:
        ctx.violation("%s:length:%s" % (DIFF, which),
                      "%s: a chunk of %s lines is counted with a length that is not the one its non-emptiness is tested by" % (I.where(), which))


def collect(f, o, addr):
    """Leaves of the increment of *addr, None if the old value is not kept."""
    old, out, todo, k = 0, [], [o], 0
    seen = set()
    while todo:
        x = todo.pop()
        if x[0] != "i" or x[1] in seen:
            continue
        seen.add(x[1])
        I = f.inst[x[1]]
        if I.op in ("add", "sub"):
            todo += I.ops
        elif I.op == "load" and I.ops[0] == addr:
            old += 1
        else:
            out.append(x)
    return out if old else None


def disk(ctx):
    fn = "ohcount_calc_diff_with_disk"
    m = spec.module()
    A = cases(fn)
    add_, rem = ARG[2], ARG[3]
    n = 0
    for p in A.paths:
        ctx.count("cases")
        if not (p.end[0] in ("back", "ret")):
            continue
        R = rets(p)
        # first byte of the line read
        inloop = [e for e in p.stores() if S(e[1]) in (add_, rem) and not (isconst(e[2]) and e[2][0] == 0)]
        zero = [e for e in p.stores() if S(e[1]) in (add_, rem) and isconst(e[2]) and e[2][0] == 0]
        if {S(e[1]) for e in zero} != {add_, rem}:
            bad(ctx, fn, "start", "the counts do not start from zero")
        for e in inloop:
            n += 1
            ctx.count("form_obligations")
            if S(e[2]) != spec.add(S(mem(S(e[1]))), lin(1)):
                bad(ctx, fn, "step", "a line changes a count to %s" % show(S(e[2])))
        if p.end[0] == "back":
            gt = lt_ = None
            for c, w in p.lits:
                c = S(c)
                if c[0] == "eq" and len(c[1][1]) == 1 and c[1][1][0][0][0] == "mem" and abs(c[1][0]) in (60, 62):
                    if abs(c[1][0]) == 62:
                        gt = w if gt is None else gt or w
                    else:
                        lt_ = w if lt_ is None else lt_ or w
            a = [e for e in inloop if S(e[1]) == add_]
            r = [e for e in inloop if S(e[1]) == rem]
            if len(a) > 1 or len(r) > 1 or (len(a) == 1) and gt is not True or (len(r) == 1) and lt_ is not True:
                bad(ctx, fn, "sign", "a line of the external comparison is counted on the wrong side")
            if gt is True and not a:
                bad(ctx, fn, "lost>", "an added line of the external comparison is not counted")
            if lt_ is True and not r:
                bad(ctx, fn, "lost<", "a removed line of the external comparison is not counted")
    if not n:
        bad(ctx, fn, "none", "the external comparison's lines are not counted")
    pieces(ctx, fn, A, lambda p: [e for e in p.stores() if S(e[1]) in (add_, rem) and not (isconst(e[2]) and e[2][0] == 0)])
    order(ctx, fn)


def newline(c):
    """Polarity with which the condition says that the piece read holds its line's end, None for other conditions."""
    c = S(c)
    if c[0] != "eq" or len(c[1][1]) != 1:
        return None
    a = c[1][1][0][0]
    if c[1][0] == 0 and a[0] == "pure" and a[1] in ("strchr", "strrchr", "memchr", "strstr", "strpbrk") \
            and any(S(x) in (lin(10), atom(("str", "\n"))) for x in a[2]):
        return False
    if abs(c[1][0]) == 10 and a[0] == "mem" and "'strlen'" in repr(a[1]) and S(a[1])[0] == -1:
        return True
    return None


def pieces(ctx, fn, A, counted):
    """fgets hands out long lines in pieces: only the first piece of a line is looked at."""
    backs = [p for p in A.paths if p.end[0] == "back" and p.calls("fgets")]
    if not backs:
        return
    ctx.count("form_obligations")

    def truth(v, p):
        """True/False when the new value is known, ('nl', polarity) when it is the newline test, None"""
        if len(v) == 3 and v[0] == "cond":
            k = newline(v[1])
            return None if k is None else ("nl", k == v[2])
        v = S(v)
        if isconst(v):
            return v != ZERO
        if v[0] == 0 and len(v[1]) == 1 and v[1][0][0][0] == "bool":
            k = newline(v[1][0][0][1])
            return None if k is None else ("nl", k == v[1][0][0][2])
        if v[0] == 0 and len(v[1]) == 1 and newline(eq(v, ZERO)) is False:
            return ("nl", True)
        return None
    for h in {p.end[1] for p in backs}:
        mine = [p for p in backs if p.end[1] == h]
        for i in {k for p in mine for k in p.end[2]}:
            init = {S(dict(vs)[i]) for p in mine for x, vs in p.loops if x == h and i in dict(vs)}
            if not all(isconst(v) for v in init) or len({v != ZERO for v in init}) != 1:
                continue
            first = next(iter(init)) != ZERO          # value meaning "a line starts here"
            ok = True
            for p in mine:
                t = truth(p.end[2].get(i, ZERO), p)
                nl = None
                for c, w in p.lits:
                    k = newline(c)
                    if k is not None:
                        nl = k == w
                if isinstance(t, tuple):
                    ok = ok and t[1] == first
                else:
                    ok = ok and t is not None and nl is not None and (t == first) == nl
                if counted(p):
                    z = p.lit(eq(atom(("loop", i)), ZERO))
                    ok = ok and z is not None and (not z) == first
            if ok:
                return
    bad(ctx, fn, "pieces", "a piece of a long line can be taken for a line, or a line for a piece of the one before")


def order(ctx, fn):
    """older text before newer text on the command line"""
    m = spec.module()
    f = m.fn(fn)
    # the temporary file of a text: its path is what is used after the text has been written to it
    A = cases(fn)
    for p in A.paths:
        if not done(p):
            continue
        wrote = {}
        cur = None
        for e in p.events:
            if e[0] == "call" and e[1] == "mkstemp":
                cur = S(e[2][0])
            elif e[0] == "call" and e[1] in ("write", "fwrite", "fputs") and cur is not None:
                for x in e[2]:
                    if S(x) in (ARG[0], ARG[1]):
                        wrote[S(x)] = cur
            elif e[0] == "call" and e[1] in ("sprintf", "snprintf") and len(wrote) == 2:
                args = [S(x) for x in e[2]]
                ctx.count("form_obligations")
                i = [k for k, x in enumerate(args) if x == wrote[ARG[0]]]
                j = [k for k, x in enumerate(args) if x == wrote[ARG[1]]]
                if i and j and i[0] > j[0]:
                    bad(ctx, fn, "order", "the external comparison gets the newer text before the older one")
