"""Count arithmetic of Loc, LocDelta and their lists."""
import spec
from spec import *

KIND = {
    "loc": dict(rec="Loc", item="LocListItem", data="loc", pre="ohcount_loc", add="ohcount_loc_add_loc",
                ladd="ohcount_loc_list_add_loc", laddl="ohcount_loc_list_add_loc_list", get="ohcount_loc_list_get_loc",
                fields=["code", "comments", "blanks", "filecount"]),
    "delta": dict(rec="LocDelta", item="LocDeltaListItem", data="delta", pre="ohcount_loc_delta",
                  add="ohcount_loc_delta_add_loc_delta", ladd="ohcount_loc_delta_list_add_loc_delta",
                  laddl="ohcount_loc_delta_list_add_loc_delta_list", get="ohcount_loc_delta_list_get_loc_delta",
                  fields=["code_added", "code_removed", "comments_added", "comments_removed", "blanks_added", "blanks_removed"]),
}


def check(ctx):
    ctx.cov["explanation"] = (
        "Every counting function, helpers inlined, is split into its branch cases with each value an affine form of its "
        "inputs; loops are treated inductively (start value, change per entry, exit condition). Rules: totals and nets are "
        "the stated sums; adding two records adds field to field and only for equal languages; a list sum adds exactly the "
        "stated field of every entry from head to end; adding to a list changes exactly one entry, the one of that "
        "language, or appends one copy after a full search; compact lists drop exactly the empty entries; per-file lists "
        "hold one entry per parsed language with that language's own three counts and one file; a reported line raises "
        "exactly the counter of its kind by one.")
    for k in KIND.values():
        basics(ctx, **k)
        lists(ctx, **k)
    files(ctx)


def bad(ctx, fn, what, msg):
    w = spec.module().fn(fn)
    line = next((I.where() for I in w.insts() if I.d.get("l")), fn)
    ctx.violation("%s:%s" % (fn, what), "%s: %s" % (line, msg))


def done(p):
    return p.end[0] == "ret"


# what the functions stand for, used where one calls another
def tables():
    m = spec.module()
    c, cm, b, fc = offs("Loc", "code", "comments", "blanks", "filecount")
    d = dict(zip(KIND["delta"]["fields"], offs("LocDelta", *KIND["delta"]["fields"])))
    t = {"ohcount_loc_total": lambda x: add(add(mem(x, c), mem(x, cm)), mem(x, b))}

    def net(k):
        return lambda x: add(mem(x, d[k + "_added"]), mem(x, d[k + "_removed"]), -1)
    for k in ("code", "comments", "blanks"):
        t["ohcount_loc_delta_net_" + k] = net(k)
    t["ohcount_loc_delta_net_total"] = lambda x: add(add(net("code")(x), net("comments")(x)), net("blanks")(x))
    hl, dl = fld("LocListItem", "head"), fld("LocListItem", "loc")
    hd, dd = fld("LocDeltaListItem", "head"), fld("LocDeltaListItem", "delta")
    E = atom(("elem",))
    want = {}

    def summ(name, head, data, form):
        want[name] = (head, data, form)
        t[name] = lambda l: atom(("sum", S(mem(l, head)), S(form(mem(E, data)))))
    for n, o in (("code", c), ("comments", cm), ("blanks", b), ("filecount", fc)):
        summ("ohcount_loc_list_" + n, hl, dl, lambda x, o=o: mem(x, o))
    summ("ohcount_loc_list_total", hl, dl, t["ohcount_loc_total"])
    for n, o in d.items():
        summ("ohcount_loc_delta_list_" + n, hd, dd, lambda x, o=o: mem(x, o))
    for n in ("net_code", "net_comments", "net_blanks", "net_total"):
        summ("ohcount_loc_delta_list_" + n, hd, dd, t["ohcount_loc_delta_" + n])
    return t, want


def basics(ctx, rec, pre, add, fields, **_):
    # constructors store each number where it belongs
    fn = pre + "_new"
    names = ["language"] + fields
    for p in cases(fn).paths:
        if not done(p):
            continue
        ctx.count("cases")
        for i, n in enumerate(names):
            ctx.count("form_obligations")
            if mem_at(p, spec.add(p.end[1], lin(fld(rec, n)))) != ARG[i]:
                bad(ctx, fn, n, "a new %s does not hold its %s argument as %s" % (rec, i, n))
    # adding
    la = fld(rec, "language")
    for p in cases(add).paths:
        if not done(p):
            continue
        ctx.count("cases")
        same = same_text(p, mem(ARG[0], la), mem(ARG[1], la))
        for n in fields:
            o = fld(rec, n)
            ctx.count("form_obligations")
            v = mem_at(p, spec.add(ARG[0], lin(o)))
            own, other = S(mem(ARG[0], o)), S(mem(ARG[1], o))
            both = spec.add(own, other)
            if v == both and same is not True and v != own:
                bad(ctx, add, "lang", "counts are added although the languages are not known to be the same")
            elif v == own and same is not False:
                bad(ctx, add, n, "%s is not added for the same language" % n)
            elif v not in (own, both):
                bad(ctx, add, n, "%s becomes %s instead of the sum" % (n, show(v)))
        for e in p.stores():
            b = S(e[1])
            if b not in [spec.add(ARG[0], lin(fld(rec, n))) for n in fields]:
                bad(ctx, add, "other", "something other than the receiver's counts is written (%s)" % show(b))
    # equality
    fn = pre + "_is_equal"
    for p in cases(fn).paths:
        if not done(p):
            continue
        ctx.count("cases")
        st = [same_text(p, mem(ARG[0], la), mem(ARG[1], la))]
        st += [p.lit(eq(mem(ARG[0], fld(rec, n)), mem(ARG[1], fld(rec, n)))) for n in fields]
        v = p.end[1]
        ctx.count("form_obligations")
        if not isconst(v):
            bad(ctx, fn, "value", "the result is not decided by comparing the members")
        elif v[0] and not all(x is True for x in st):
            bad(ctx, fn, "equal", "two records are called equal although %s may differ"
                % (["language"] + fields)[[x is True for x in st].index(False)])
        elif not v[0] and not any(x is False for x in st):
            bad(ctx, fn, "unequal", "two records are called different without a difference")
    t, _w = tables()
    if rec == "LocDelta":
        fn = pre + "_is_changed"
        for p in cases(fn).paths:
            if not done(p):
                continue
            ctx.count("cases")
            ctx.count("form_obligations")
            st = [p.lit(eq(mem(ARG[0], fld(rec, n)), ZERO)) for n in fields]
            v = p.end[1]
            if not isconst(v):
                bad(ctx, fn, "value", "the result is not decided by the members")
            elif v[0] and not any(x is False for x in st):
                bad(ctx, fn, "changed", "a delta is called changed without a non-zero count")
            elif not v[0] and not all(x is True for x in st):
                bad(ctx, fn, "unchanged", "a delta is called unchanged although %s may not be zero"
                    % fields[[x is True for x in st].index(False)])
    for fn in ([pre + "_total"] if rec == "Loc" else [pre + "_net_" + k for k in ("code", "comments", "blanks", "total")]):
        for p in cases(fn).paths:
            if not done(p):
                continue
            ctx.count("cases")
            ctx.count("form_obligations")
            v = S(interp(p.end[1], p, t))
            w = S(t[fn](ARG[0]))
            if v != w:
                bad(ctx, fn, "form", "returns %s instead of %s" % (show(v), show(w)))
            if p.stores():
                bad(ctx, fn, "writes", "changes the record it reads")


def fresh_records(p, rec, pre, names):
    """Records made on this path: [(address, members)], by the constructor or by filling in new memory."""
    out = []
    for a, (c, args) in rets(p).items():
        if c == pre + "_new":
            out.append((atom(a), [S(x) for x in args]))
        elif a[0] == "new" and all(stored(p, spec.add(atom(a), lin(fld(rec, n)))) for n in names):
            out.append((atom(a), [mem_at(p, spec.add(atom(a), lin(fld(rec, n)))) for n in names]))
    return out


def append_ok(p, item, data, lst, value):
    """None, or what is wrong with appending an item holding `value` to the list on this path."""
    d, nx, hd, tl = [fld(item, n) for n in (data, "next", "head", "tail")]
    if p.lit(eq(mem(lst, hd), ZERO)) is True:
        if mem_at(p, spec.add(lst, lin(hd))) != S(lst):
            return "the first entry does not become the head"
        if mem_at(p, spec.add(lst, lin(tl))) != S(lst):
            return "the first entry does not become the tail"
        if mem_at(p, spec.add(lst, lin(d))) != S(value):
            return "the first entry does not hold the new record"
        if mem_at(p, spec.add(lst, lin(nx))) not in (ZERO, S(mem(lst, nx))):
            return "the first entry has a successor"
        return None
    new = mem_at(p, spec.add(lst, lin(tl)))
    R = rets(p)
    if not (len(new[1]) == 1 and new[0] == 0 and new[1][0][0] in R):
        return "the tail of the list is not moved to the new entry"
    old = S(mem(lst, tl))
    if not stored(p, spec.add(old, lin(nx))) or mem_at(p, spec.add(old, lin(nx))) != new:
        return "the new entry is not linked behind the old tail"
    if mem_at(p, spec.add(new, lin(d))) != S(value):
        return "the new entry does not hold the new record"
    if stored(p, spec.add(lst, lin(hd))) and mem_at(p, spec.add(lst, lin(hd))) != S(mem(lst, hd)):
        return "the head of the list is moved"
    if not R[new[1][0][0]][0].endswith("_list_new"):
        if mem_at(p, spec.add(new, lin(nx))) != ZERO:
            return "the new entry has no defined successor"
    return None


def exhausted(p, A, W, lst, item, getter=None, key=None):
    """The whole list was searched without a hit on this path."""
    hd = fld(item, "head")
    if p.lit(eq(mem(lst, hd), ZERO)) is True:
        return True
    for w in W:
        if w.entered(p) and w.init == {S(mem(lst, hd))} and w.outcome(p) in ("end", "last"):
            return True
    if getter:
        for a, (c, args) in rets(p).items():
            if c == getter and a[0] == "ret" and S(args[0]) == S(lst) and S(args[1]) == S(key) and p.lit(eq(atom(a), ZERO)) is True:
                return True
    return False


def lists(ctx, rec, item, data, pre, add, ladd, laddl, get, fields, **_):
    t, want = tables()
    d, nx, hd, tl = [fld(item, n) for n in (data, "next", "head", "tail")]
    la = fld(rec, "language")
    # sums
    for fn, (h, dd, form) in want.items():
        if not fn.startswith(pre + "_list_"):
            continue
        ctx.count("list_walks")
        r = chain_sum(fn, mem(ARG[0], h), lambda e: form(mem(e, dd)), {k: v for k, v in t.items() if k != fn})
        if r:
            bad(ctx, fn, "sum", r)
    # new lists are empty
    fn = pre + "_list_new"
    for p in cases(fn).paths:
        if done(p):
            ctx.count("cases")
            for o in (d, nx, hd, tl):
                ctx.count("form_obligations")
                if mem_at(p, spec.add(p.end[1], lin(o))) != ZERO:
                    bad(ctx, fn, "empty", "a new list is not empty")
    # look-up
    A = cases(get)
    W = walks(A, nx)
    ctx.count("list_walks", len(W))
    for p in A.paths:
        ctx.count("cases")
        if p.stores():
            bad(ctx, get, "writes", "a look-up changes the list")
        if not done(p):
            continue
        v = S(p.end[1])
        if v == ZERO:
            if not exhausted(p, A, W, ARG[0], item):
                bad(ctx, get, "gives-up", "no entry is returned although the list was not searched to its end")
        elif not (len(v[1]) == 1 and same_text(p, mem(v, la), ARG[1]) is True):
            bad(ctx, get, "wrong", "an entry is returned whose language is not known to be the one asked for")
        else:
            cells = [S(mem(w.e, d)) for w in W]
            if v not in cells:
                bad(ctx, get, "value", "what is returned is not the record of an entry")
    for p in A.paths:
        # entries passed over differ in language
        for w in W:
            if w.outcome(p) == "next" and same_text(p, mem(mem(w.e, d), la), ARG[1]) is True:
                bad(ctx, get, "skip", "an entry of the language asked for is passed over")
    # adding one record
    A = cases(ladd)
    W = walks(A, nx)
    ctx.count("list_walks", len(W))
    names = ["language"] + fields
    for p in A.paths:
        ctx.count("cases")
        adds = p.calls(add)
        news = fresh_records(p, rec, pre, names)
        if p.end[0] == "back":
            if adds or news or p.stores():
                bad(ctx, ladd, "search", "the search for the language changes the list")
            for w in W:
                if w.outcome(p) == "next" and same_text(p, mem(mem(w.e, d), la), mem(ARG[1], la)) is True:
                    bad(ctx, ladd, "skip", "an entry of the same language is passed over")
            continue
        if not done(p):
            continue
        ctx.count("form_obligations")
        if len(adds) + len(news) != 1:
            bad(ctx, ladd, "once", "the record is taken over %d times instead of once" % (len(adds) + len(news)))
            continue
        if adds:
            to, frm = S(adds[0][2][0]), S(adds[0][2][1])
            got = any(c == get and S(a[0]) == ARG[0] and S(a[1]) == S(mem(ARG[1], la)) and to == atom(r)
                      and p.lit(eq(atom(r), ZERO)) is False for r, (c, a) in rets(p).items())
            if frm != ARG[1]:
                bad(ctx, ladd, "source", "something other than the given record is added")
            elif not got and same_text(p, mem(to, la), mem(ARG[1], la)) is not True:
                bad(ctx, ladd, "target", "the record is added to an entry not known to be of its language")
            if [e for e in p.stores() if S(e[1]) != S(e[2])]:
                bad(ctx, ladd, "links", "the list's links change when an existing entry is updated")
            continue
        made, args = news[0]
        for i, n in enumerate(names):
            ctx.count("form_obligations")
            if args[i] != S(mem(ARG[1], fld(rec, n))):
                bad(ctx, ladd, "copy:" + n, "the new entry's %s is %s instead of the given record's" % (n, show(args[i])))
        r = append_ok(p, item, data, ARG[0], made)
        if r:
            bad(ctx, ladd, "append", r)
        if not exhausted(p, A, W, ARG[0], item, get, mem(ARG[1], la)):
            bad(ctx, ladd, "duplicate", "an entry is appended although the list was not searched to its end")
    # adding a list
    each(ctx, laddl, ARG[1], item, lambda p, w: [c for c in p.calls(ladd) if c in w.events(p)],
         lambda p, w, c: S(c[2][0]) == ARG[0] and S(c[2][1]) == S(mem(w.e, d)), "add every entry of the other list")
    # compact
    fn = pre + "_list_new_compact"
    A = cases(fn)
    W = [w for w in walks(A, nx) if w.init == {S(mem(ARG[0], hd))}]
    ctx.count("list_walks", len(W))
    if len(W) != 1:
        bad(ctx, fn, "walk", "the list is not walked from its head once")
        return
    w = W[0]
    for p in A.paths:
        ctx.count("cases")
        o = w.outcome(p)
        ev = [c for c in p.calls(ladd)]
        if o == "stop":
            bad(ctx, fn, "stop", "the walk can stop before the end of the list")
        elif o in ("next", "last"):
            ctx.count("form_obligations")
            x = mem(w.e, d)
            z = zero_state(p, x, pre, rec, fields, t)
            if len(ev) == 1 and S(ev[0][2][1]) == S(x):
                if z is True:
                    bad(ctx, fn, "keeps", "an empty entry is kept")
            elif len(ev) == 0:
                if z is not True:
                    bad(ctx, fn, "drops", "an entry that is not known to be empty is dropped")
            else:
                bad(ctx, fn, "adds", "an entry is taken over wrongly")
        elif ev:
            bad(ctx, fn, "extra", "an entry is added outside the walk")
        if done(p):
            v = S(p.end[1])
            if not any(c == pre + "_list_new" and atom(a) == v for a, (c, _x) in rets(p).items()):
                bad(ctx, fn, "result", "the result is not a new list")


def zero_state(p, x, pre, rec, fields, t):
    """Is the record known to be empty (True), known not to be (False), or neither."""
    if rec == "Loc":
        v = p.lit(eq(S(t["ohcount_loc_total"](x)), ZERO))
        if v is not None:
            return v
        fields = fields[:3]
    for a, (c, args) in rets(p).items():
        if c in ("ohcount_loc_total", "ohcount_loc_delta_is_changed") and S(args[0]) == S(x):
            v = p.lit(eq(atom(a), ZERO))
            if v is not None:
                return v
    st = [p.lit(eq(mem(x, fld(rec, n)), ZERO)) for n in fields]
    if all(s is True for s in st):
        return True
    return False if any(s is False for s in st) else None


def each(ctx, fn, lst, item, events, ok, what, head=None):
    """Every element of the list is handled exactly once."""
    nx = fld(item, "next")
    hd = fld(item, "head")
    start = S(head if head is not None else mem(lst, hd))
    A = cases(fn)
    W = [w for w in walks(A, nx) if w.init == {start}]
    ctx.count("list_walks", len(W))
    W2 = [w for w in W if any(events(p, w) for p in A.paths)]
    if len(W2) != 1:
        bad(ctx, fn, "each", "does not %s: no single walk of the list from its head" % what)
        return
    w = W2[0]
    for p in A.paths:
        ctx.count("cases")
        o = w.outcome(p)
        ev = events(p, w)
        if o == "stop":
            bad(ctx, fn, "stop", "does not %s: the walk can stop early" % what)
        elif o in ("next", "last"):
            ctx.count("form_obligations")
            if len(ev) != 1:
                bad(ctx, fn, "once", "does not %s: an entry is handled %d times" % (what, len(ev)))
            elif not ok(p, w, ev[0]):
                bad(ctx, fn, "args", "does not %s: wrong operands" % what)
        elif ev:
            bad(ctx, fn, "extra", "does not only %s" % what)
        if o is None and done(p) and p.lit(eq(start, ZERO)) is not True and not skips(p):
            bad(ctx, fn, "walk", "does not %s: the list is not walked" % what)


def skips(p):
    """The function found the result already there."""
    return any(not w and "'mem'" in repr(c) for c, w in p.lits)


def files(ctx):
    # the counts of one file
    fn = "ohcount_sourcefile_get_loc_list"
    nm, cc, mc, bc = offs("ParsedLanguage", "name", "code_count", "comments_count", "blanks_count")
    pl = fld("ParsedLanguageListItem", "pl")
    hd = fld("ParsedLanguageListItem", "head")
    ll = fld("SourceFile", "loc_list")
    A = cases(fn)
    start = {S(w_) for W in walks(A) for w_ in W.init}
    heads = [s for s in start if s[1] and s[1][0][0][0] == "mem" and s[1][0][0][1][0] == hd]
    if not heads:
        bad(ctx, fn, "walk", "the languages found in the file are not walked from the head of their list")
        return

    def ok(p, w, c):
        x = mem(w.e, pl)
        news = [e for e in w.events(p) if e[0] == "call" and e[1] == "ohcount_loc_new"]
        if len(news) != 1:
            return False
        a = [S(v) for v in news[0][2]]
        if a != [S(mem(x, nm)), S(mem(x, cc)), S(mem(x, mc)), S(mem(x, bc)), lin(1)]:
            bad(ctx, fn, "counts", "a language's entry is built from %s" % ", ".join(show(v) for v in a))
        r = [k for k, (c2, ar) in rets(p).items() if c2 == "ohcount_loc_new" and k[0] == "ret"]
        return S(c[2][1]) == atom(r[-1])
    each(ctx, fn, None, "ParsedLanguageListItem", lambda p, w: [c for c in p.calls("ohcount_loc_list_add_loc") if c in w.events(p)],
         ok, "turn every parsed language into one entry", head=heads[0])
    for p in A.paths:
        if done(p):
            ctx.count("form_obligations")
            v = S(p.end[1])
            if v != mem_at(p, spec.add(ARG[0], lin(ll))) :
                bad(ctx, fn, "cache", "what is returned is not what the file keeps as its counts")
            had = p.lit(eq(mem(ARG[0], ll), ZERO))
            if had is not False and not stored(p, spec.add(ARG[0], lin(ll))):
                bad(ctx, fn, "uncounted", "a file that was not counted yet is not counted")
            if had is False and stored(p, spec.add(ARG[0], lin(ll))):
                bad(ctx, fn, "recount", "counts a file again")
    # all files
    fn = "ohcount_sourcefile_list_analyze_languages"
    sf = fld("SourceFileListItem", "sf")

    def ok2(p, w, c):
        g = [(k, a) for k, (c2, a) in rets(p).items() if c2 == "ohcount_sourcefile_get_loc_list"]
        return any(S(c[2][1]) == atom(k) and S(a[0]) == S(mem(w.e, sf)) for k, a in g)
    each(ctx, fn, ARG[0], "SourceFileListItem", lambda p, w: [c for c in p.calls("ohcount_loc_list_add_loc_list") if c in w.events(p)],
         ok2, "add the counts of every file")
    for p in cases(fn).paths:
        if done(p):
            R = rets(p)
            news = [atom(a) for a, (c, _) in R.items() if c == "ohcount_loc_list_new"]
            if S(p.end[1]) not in news:
                bad(ctx, fn, "result", "the result is not the accumulated list")
            for c in p.calls("ohcount_loc_list_add_loc_list"):
                if S(c[2][0]) != S(p.end[1]):
                    bad(ctx, fn, "target", "counts are not added to the result")
    # adding a file keeps the list whole
    fn = "ohcount_sourcefile_list_add_file"
    for p in cases(fn).paths:
        if done(p):
            ctx.count("cases")
            v = [a for a, (c, ar) in rets(p).items() if c == "ohcount_sourcefile_new" and a[0] == "ret" and S(ar[0]) == ARG[1]]
            if len(v) != 1:
                bad(ctx, fn, "once", "the file is added %d times" % len(v))
            else:
                r = append_ok(p, "SourceFileListItem", "sf", ARG[0], atom(v[0]))
                if r:
                    bad(ctx, fn, "append", r)
    lines(ctx)


def lines(ctx):
    """One reported line raises exactly one counter."""
    cc, mc, bc = offs("ParsedLanguage", "code_count", "comments_count", "blanks_count")
    for fn, cnt, cur, buf in (("ohcount_parsed_language_add_code", "code_count", "code_p", "code"),
                              ("ohcount_parsed_language_add_comment", "comments_count", "comments_p", "comments")):
        o, cu, bu, bs = offs("ParsedLanguage", cnt, cur, buf, "buffer_size")
        for p in cases(fn, pure=("strncpy", "memcpy", "memmove", "llvm.memcpy.p0.p0.i64")).paths:
            if not done(p):
                continue
            ctx.count("cases")
            v = mem_at(p, spec.add(ARG[0], lin(o)))
            q = mem_at(p, spec.add(ARG[0], lin(cu)))
            full = spec.add(S(mem(ARG[0], cu)), ARG[2])
            room = spec.add(spec.add(full, S(mem(ARG[0], bu)), -1), S(mem(ARG[0], bs)), -1)   # used + length - size
            ctx.count("form_obligations")
            if v == spec.add(S(mem(ARG[0], o)), lin(1)):
                if q != full:
                    bad(ctx, fn, "text", "the write position moves to %s" % show(q))
            elif v == S(mem(ARG[0], o)):
                # dropped: only when there is no room, i.e. used + length > size
                okd = False
                for c, w in p.lits:
                    c = S(c)
                    if c[0] != "lt":
                        continue
                    if not w:                       # room + k >= 0 known false of lt(room - K): room >= K
                        dff = spec.add(c[1], room, -1)
                        if isconst(dff) and -dff[0] >= 1:
                            okd = True
                    else:
                        dff = spec.add(c[1], room)   # lt(K - room): room > K
                        if isconst(dff) and dff[0] >= 0:
                            okd = True
                if not okd:
                    bad(ctx, fn, "drop", "a line can be dropped although it fits")
            else:
                bad(ctx, fn, "count", "a line changes %s to %s" % (cnt, show(v)))
            for n in ("code_count", "comments_count", "blanks_count"):
                if n != cnt and stored(p, spec.add(ARG[0], lin(fld("ParsedLanguage", n)))):
                    bad(ctx, fn, "other", "a line of one kind changes %s" % n)
    callback(ctx)


def callback(ctx):
    fn = "parser_callback"
    m = spec.module()
    pll, nm = fld("SourceFile", "parsed_language_list"), fld("ParsedLanguage", "name")
    pl, nx, hd = offs("ParsedLanguageListItem", "pl", "next", "head")
    names = {}
    # the callback is whatever ohcount_sourcefile_parse hands to the parser in line mode
    cb = None
    for I in m.fn("ohcount_sourcefile_parse").insts():
        if I.op == "call" and I.callee() == "ohcount_parse" and len(I.ops) > 2 and I.ops[2][0] == "g":
            cb = I.ops[2][1]
    if cb is None:
        raise AnalysisBroken("no counting callback found")
    bc, cc, mc = offs("ParsedLanguage", "blanks_count", "code_count", "comments_count")
    A = cases(cb)
    W = walks(A, nx)
    lst = mem(ARG[4], pll)
    for p in A.paths:
        ctx.count("cases")
        if p.end[0] == "back":
            if p.calls("ohcount_parsed_language_add_code") or p.calls("ohcount_parsed_language_add_comment"):
                bad(ctx, cb, "loop", "a line is counted inside a loop")
            for w in W:
                if w.outcome(p) == "next" and same_text(p, mem(mem(w.e, pl), nm), ARG[0]) is True:
                    bad(ctx, cb, "skip", "the entry of the line's language is passed over")
            continue
        if not done(p):
            continue
        kinds = {k: same_text(p, ARG[1], atom(("str", k))) for k in ("lcode", "lcomment", "lblank")}
        true = [k for k, v in kinds.items() if v is True]
        eff = []
        for c in p.calls("ohcount_parsed_language_add_code"):
            eff.append(("lcode", S(c[2][0])))
        for c in p.calls("ohcount_parsed_language_add_comment"):
            eff.append(("lcomment", S(c[2][0])))
        for e in p.stores():
            if S(e[1])[0] == bc and len(S(e[1])[1]) == 1:
                base = spec.add(S(e[1]), lin(-bc))
                if S(e[2]) == spec.add(S(mem(base, bc)), lin(1)):
                    eff.append(("lblank", base))
                else:
                    bad(ctx, cb, "blank", "a blank line changes the blank count to %s" % show(S(e[2])))
        ctx.count("form_obligations")
        if not true:
            if eff and sum(v is False for v in kinds.values()) < 2:
                bad(ctx, cb, "kind", "a line of unknown kind is counted as %s" % eff[0][0])
            elif eff and kinds[eff[0][0]] is False:
                bad(ctx, cb, "kind", "a line is counted as %s although it is not" % eff[0][0])
            elif not eff and not all(v is False for v in kinds.values()):
                bad(ctx, cb, "lost", "a line is not counted although its kind was not ruled out")
            continue
        if [k for k, _ in eff] != true:
            bad(ctx, cb, "kind:" + true[0], "a line of kind %s is counted as %s" % (true[0], [k for k, _ in eff] or "nothing"))
            continue
        tgt = eff[0][1]
        R = rets(p)
        okl = same_text(p, mem(tgt, nm), ARG[0]) is True
        for a, (c, ar) in R.items():
            if c == "ohcount_parsed_language_new" and atom(a) == tgt:
                okl = S(ar[0]) == ARG[0]
                r = append_ok(p, "ParsedLanguageListItem", "pl", lst, tgt)
                if r:
                    bad(ctx, cb, "append", r)
                if not exhausted(p, A, W, lst, "ParsedLanguageListItem"):
                    bad(ctx, cb, "duplicate", "a language is added although the list was not searched to its end")
        if not okl:
            bad(ctx, cb, "language", "a line is counted for an entry not known to be of its language")
