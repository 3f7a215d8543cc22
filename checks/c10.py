"""A file's text, path, name and extension are held exactly: nothing lost, nothing added, sizes that match, terminated."""
import spec
from spec import *

SF = "SourceFile"


def bad(ctx, fn, rule, msg):
    ctx.violation("hold:%s:%s" % (fn, rule), "src/sourcefile.c (%s): %s" % (fn, msg))


def check(ctx):
    ctx.cov["explanation"] = (
        "All cases of the functions that fill a file record, with affine lengths: allocation, copy and terminator of every text "
        "must agree (bytes allocated >= length + 1, length bytes copied, 0 stored at the length), the stored size is the length, "
        "the text is read from the start of the file at its real location when one was given; extension and name are found by "
        "backward scans whose every step is checked.")
    constructor(ctx)
    setter(ctx, "ohcount_sourcefile_set_contents", "contents", True)
    setter(ctx, "ohcount_sourcefile_set_diskpath", "diskpath", False)
    reader(ctx)
    size(ctx)
    ctx.floor("cases", 12)


def ends(A):
    return [p for p in A.paths if p.end[0] == "ret"]


def setter(ctx, fn, member, sized):
    A = plain(fn)
    o = fld(SF, member)
    for p in ends(A):
        ctx.count("cases")
        v = mem_at(p, add(ARG[0], lin(o)))
        m = holds_copy(p, v, ARG[1], "the %s held" % member)
        if m:
            bad(ctx, fn, member, m)
        if sized:
            ctx.count("sizes")
            s = mem_at(p, add(ARG[0], lin(fld(SF, "size"))))
            if s != S(atom(("pure", "strlen", (ARG[1],), 0))):
                bad(ctx, fn, "size", "the size recorded is %s, not the length of the text" % show(s))


def reader(ctx):
    fn = "ohcount_sourcefile_get_contents"
    A = plain(fn)
    C, Z = add(ARG[0], lin(fld(SF, "contents"))), add(ARG[0], lin(fld(SF, "size")))
    D, F = mem(ARG[0], fld(SF, "diskpath")), mem(ARG[0], fld(SF, "filepath"))
    filled = 0
    for p in ends(A):
        ctx.count("cases")
        if S(p.end[1]) != mem_at(p, C):
            bad(ctx, fn, "answer", "what is returned is not the contents held")
        opened = p.calls("fopen")
        if not stored(p, C) and not stored(p, Z):
            if opened:
                continue
            if p.lit(eq(mem(ARG[0], fld(SF, "contents")), ZERO)) is not False:
                bad(ctx, fn, "unread", "contents that are not there are not read")
            continue
        v, s = mem_at(p, C), mem_at(p, Z)
        for e in opened:
            w = p.lit(eq(D, ZERO))
            want = F if w is True else D if w is False else None
            if want is None or S(e[2][0]) != S(want):
                bad(ctx, fn, "path", "the file opened is %s %s" % (show(S(e[2][0])), {
                    True: "although no other location is known", False: "although the file's real location is known",
                    None: "whether or not another location is known"}[w]))
        if v == ZERO:
            if s != ZERO:
                bad(ctx, fn, "emptysize", "a size of %s is recorded for contents that are not held" % show(s))
            continue
        n = alloc_size(p, v)
        if n is None:
            continue                # kept from before (checked by the life cycle analysis)
        filled += 1
        cs = [c for c in copies(p, v)]
        if len(cs) != 1:
            bad(ctx, fn, "fill", "contents are filled by %d calls" % len(cs))
            continue
        k, e, ln, src = cs[0]
        if k == "fread" and ln == ZERO and s == ZERO:
            continue                # a file whose size cannot be handled counts as empty
        if ln is None or S(ln) != s:
            bad(ctx, fn, "size", "%s bytes are read but %s recorded as the size" % (show(S(ln)) if ln else "an unknown number of", show(s)))
        slack = add(S(n), add(s, lin(1)), -1)
        if not isconst(slack) or slack[0] < 0:
            bad(ctx, fn, "room", "%s bytes are allocated for %s bytes and a terminator" % (show(S(n)), show(s)))
        if S(e[2][0]) != S(v):
            bad(ctx, fn, "place", "the text is not read to the start of the contents")
        if not any(x[0] == "store" and S(x[1]) == add(S(v), s) and x[2] == ZERO for x in p.events[p.events.index(e) + 1:]) \
                and not alloc_zeroed(p, v):
            bad(ctx, fn, "terminator", "the contents are not terminated at their size")
        if k == "fread":
            if not success(p, e):
                bad(ctx, fn, "complete", "the contents are kept although they may not have been read completely")
            if not at_start(p, e):
                bad(ctx, fn, "start", "the text is not read from the start of the file")
            if not whole(p, s):
                bad(ctx, fn, "whole", "the size is not the position of the end of the file")
    ctx.cov["readings"] = filled
    ctx.floor("readings", 1)


def success(p, e):
    r = [a for a, (c, args) in rets(p).items() if c == "fread" and args == e[2] and a[2] == e[4].i]
    for a in r:
        for k in (e[2][1], e[2][2]):
            if p.lit(eq(atom(a), e[2][2])) is True or p.lit(lt(atom(a), e[2][2])) is False:
                return True
            if e[2][2] == lin(1) and p.lit(eq(atom(a), ZERO)) is False:
                return True
    return False


def at_start(p, e):
    """Position of the stream when it is read: 'start' after fopen, rewind, fseek(0, SEEK_SET)."""
    pos = None
    for x in p.events[:p.events.index(e)]:
        if x[0] != "call":
            continue
        if x[1] == "fopen":
            pos = "start"
        elif x[1] == "rewind":
            pos = "start"
        elif x[1] == "fseek":
            pos = "start" if x[2][1] == ZERO and x[2][2] == ZERO else "other"
        elif x[1] == "fread":
            pos = "other"
    return pos == "start"


def whole(p, s):
    """s is ftell() with the stream at its end (or st_size)."""
    if len(s[1]) != 1 or s[0]:
        return False
    a = s[1][0][0]
    if a[0] == "mem":
        return True                 # a member of struct stat
    if a[:2] != ("ret", "ftell"):
        return False
    end = False
    for x in p.events:
        if x[0] == "call" and x[1] == "fseek":
            end = x[2][1] == ZERO and x[2][2] == lin(2)
        elif x[0] == "call" and x[1] == "rewind":
            end = False
        elif x[0] == "call" and x[1] == "ftell" and x[4].i == a[2]:
            return end
    return False


def size(ctx):
    fn = "ohcount_sourcefile_get_contents_size"
    A = cases(fn)
    z = mem(ARG[0], fld(SF, "size"))
    for p in ends(A):
        ctx.count("cases")
        if S(p.end[1]) != S(z):
            bad(ctx, fn, "answer", "the size returned is %s" % show(S(p.end[1])))
        if not p.calls("ohcount_sourcefile_get_contents") and p.lit(lt(z, ZERO)) is not False \
                and p.lit(eq(z, lin(-1))) is not False:
            bad(ctx, fn, "unread", "a size that is not known yet is returned without reading the contents")


def constructor(ctx):
    fn = "ohcount_sourcefile_new"
    A = plain(fn)
    L = S(atom(("pure", "strlen", (ARG[0],), 0)))
    loops = {}
    for p in ends(A):
        ctx.count("cases")
        r = S(p.end[1])
        base = mem_at(p, add(r, lin(fld(SF, "filepath"))))
        m = holds_copy(p, base, ARG[0], "the path held")
        if m:
            bad(ctx, fn, "path", m)
            continue
        end = add(base, L)
        ext, name = (mem_at(p, add(r, lin(fld(SF, k)))) for k in ("ext", "filename"))
        e = scan(A, p, ext if ext != end else None, base, end, "./\\")
        if ext == end:
            # no extension: the scan ended at something else than a dot
            vs = loopvars(p)
            ok = p.lit(eq(L, ZERO)) is True
            for v in vs:
                if sure(p, v, base, "/\\") or at(p, v, ".") is False or begin(p, v, base):
                    m = scan(A, p, v, base, end, "./\\")
                    if m is None:
                        ok = True
            if not ok:
                bad(ctx, fn, "noext", "a name with a dot can be left without an extension")
        elif e:
            bad(ctx, fn, "ext", "extension: " + e)
        elif at(p, ext, ".") is not True:
            bad(ctx, fn, "extdot", "the extension can begin at something that does not follow a dot")
        e = scan(A, p, name, base, end, "/\\")
        if e:
            bad(ctx, fn, "name", "file name: " + e)
        elif not (sure(p, name, base, "/\\") or begin(p, name, base)):
            bad(ctx, fn, "namestart", "the file name can begin at something that does not follow a separator")
        d = mem_at(p, add(r, lin(fld(SF, "dirpath"))))
        x = add(add(name, base, -1), lin(-1))
        if not (d == x or (d == ZERO and (p.lit(lt(x, lin(1))) is True or begin(p, name, base)))):
            bad(ctx, fn, "dir", "the length of the directory part is %s" % show(d))
    ctx.count("scans", len(A.heads))


def loopvars(p):
    return [atom(("loop", i)) for _, vs in p.loops for i in vs]


def begin(p, v, base):
    return p.lit(lt(base, v)) is False or p.lit(eq(base, v)) is True


def at(p, v, ch):
    """Is the character before v known to be ch (True), known not to be (False)?"""
    c = mem(v, -1)
    for k in range(8):
        r = p.lit(eq(atom(("mem", add(v, lin(-1)), k)), lin(ord(ch))))
        if r is not None:
            return r
    return None


def sure(p, v, base, chars):
    return any(at(p, v, c) is True for c in chars)


def scan(A, p, v, base, end, stops, depth=0):
    """None if v is found by going back from `end` one character at a time, never over a stop character."""
    if v is None:
        return None
    if S(v) == S(end):
        return None
    if len(v[1]) != 1 or v[0] or v[1][0][0][0] != "loop" or depth > 3:
        return "it starts at %s" % show(S(v))
    i = v[1][0][0][1]
    h = next((h for h, vs in p.loops if i in vs), None)
    if h is None:
        return "it is not the result of a scan"
    init = S(dict(next(vs for x, vs in p.loops if x == h))[i])
    m = scan(A, p, init, base, end, stops, depth + 1)
    if m:
        return m
    for b in A.paths:
        if b.end[0] != "back" or b.end[1] != h:
            continue
        if S(b.end[2][i]) != add(v, lin(-1)):
            return "the scan goes from one character to %s" % show(S(b.end[2][i]))
        if b.lit(lt(base, v)) is not True and b.lit(eq(base, v)) is not False and b.lit(eq(v, base)) is not False:
            return "the scan can go beyond the start of the path"
        for c in stops:
            if at(b, v, c) is not False:
                return "the scan can pass over a '%s'" % c
    return None
