"""Walking a directory: every regular file below it exactly once, under its path; links and hidden directories are left alone."""
import spec
from spec import *
import textof

FN = "ohcount_sourcefile_list_add_directory"
FMT, REG, DIR, LNK = 0o170000, 0o100000, 0o040000, 0o120000


def bad(ctx, rule, msg):
    ctx.violation("walk:" + rule, "src/sourcefile.c (%s): %s" % (FN, msg))


def fmt(p, k):
    """Is the kind of file, as examined on this path, k? True / False / None"""
    for c, w in p.lits:
        if c[0] != "eq":
            continue
        for a, co in S(c[1])[1]:
            if a[0] == "op" and a[1] == "and" and lin(FMT) in a[2:]:
                r = p.lit(eq(atom(a), lin(k)))
                if r is not None:
                    return r
    return None


def examined(p):
    """Members of which record were tested for the kind of file."""
    out = set()
    for c, w in p.lits:
        for a, co in S(c[1])[1] if c[0] == "eq" else ():
            if a[0] == "op" and a[1] == "and" and lin(FMT) in a[2:]:
                x = [v for v in a[2:] if v != lin(FMT)]
                if x and x[0][1] and x[0][1][0][0][0] == "mem":
                    out |= {b for b, _ in x[0][1][0][0][1][1]}
    return out


def check(ctx):
    ctx.cov["explanation"] = (
        "The directory walk, one entry of the directory at a time, all cases: the path examined is the directory, a slash and the "
        "entry's name (text built in the buffer is reconstructed piece by piece, also what stays there for the next entry); the "
        "entry itself is examined, not what a link points to; a regular file is added once, a directory that is not hidden walked "
        "once, nothing else; an entry is passed over only when it cannot be examined, is a link, or its path does not fit; the "
        "walk goes on until the directory is exhausted.")
    A = plain(FN)
    size = {}
    for I in A.f.insts():
        if I.op == "alloca" and I.d["n"][0] == "c":
            size[("alloca", I.i)] = I.d["esz"] * I.d["n"][1]
    D = ARG[1]
    for p in A.paths:
        ctx.count("cases")
        R = rets(p)
        opened = [a for a, (c, ar) in R.items() if c == "opendir"]
        for a in opened:
            if S(R[a][1][0]) != S(D):
                bad(ctx, "open", "another directory is opened")
        ents = [a for a, (c, ar) in R.items() if c in ("readdir", "readdir64")]
        adds = p.calls("ohcount_sourcefile_list_add_file")
        dirs = p.calls(FN)
        # the entry at hand: the one just read, or the loop variable that goes from entry to entry
        var = [("loop", i) for h, vs in p.loops for i, v in vs.items() if S(v) in [S(atom(a)) for a in ents]]
        live = [a for a in var or ents if p.lit(eq(atom(a), ZERO)) is not True]
        if len(ents) > (1 + (p.end[0] == "back") if var else 1):
            bad(ctx, "dropped", "an entry is read and not looked at")
        for v in var:
            if p.end[0] == "back" and S(p.end[2].get(v[1], ZERO)) not in [S(atom(a)) for a in ents[1:]]:
                bad(ctx, "same", "the walk does not go on to the next entry")
        if not live:
            if adds or dirs:
                bad(ctx, "extra", "something is added that is not an entry of the directory")
            if not opened and p.end[0] == "ret" and not toolong(p, length(D), 3, size):
                bad(ctx, "unopened", "a directory can be left out although its path fits")
            if opened and not ents and p.lit(eq(atom(opened[0]), ZERO)) is not True and p.end[0] == "ret":
                bad(ctx, "unread", "a directory that was opened is not read")
            continue
        ctx.count("entries")
        e = atom(live[-1])
        name = add(e, lin(dname()))
        if p.end[0] == "ret":
            bad(ctx, "early", "the walk ends before the directory is exhausted (after an entry that %s)" % why(p, name))
        acts = adds + dirs
        if len(acts) > 1:
            bad(ctx, "twice", "an entry is added %d times" % len(acts))
        stats = [x for x in p.calls() if x[1] in ("lstat", "stat", "lstat64", "stat64", "fstatat")]
        for x in stats:
            k = 1 if x[1] == "fstatat" else 0
            if x[1] in ("stat", "stat64") or (x[1] == "fstatat" and not (isconst(x[2][3]) and x[2][3][0] & 0x100)):
                bad(ctx, "follow", "what a link points to is examined instead of the entry")
            if k == 0:
                path(ctx, p, x, x[2][0], name, "examined")
        isreg, isdir, islnk = (fmt(p, k) for k in (REG, DIR, LNK))
        kinds = examined(p)
        bufs = {a for x in stats for a, _ in x[2][1 if x[1] != "fstatat" else 2][1]}
        if acts and (not stats or not kinds or not kinds <= bufs):
            bad(ctx, "kind", "the kind of the entry is not that found for its path")
        failed = any(p.lit(eq(atom(a), ZERO)) is False or p.lit(lt(atom(a), ZERO)) is True or p.lit(eq(atom(a), lin(-1))) is True
                     for a, (c, ar) in R.items() if c in ("lstat", "stat", "fstatat", "lstat64", "stat64"))
        if failed and acts:
            bad(ctx, "failed", "an entry that could not be examined is added")
        for x in acts:
            path(ctx, p, x, x[2][1], name, "added")
            if S(x[2][0]) != S(ARG[0]):
                bad(ctx, "list", "an entry is added to another list")
        if adds and isreg is not True:
            bad(ctx, "notregular", "something that is not a regular file can be added as a file")
        if dirs and isdir is not True:
            bad(ctx, "notdir", "something that is not a directory can be walked")
        hidden = None
        for ep in range(8):
            r = p.lit(eq(atom(("mem", name, ep)), lin(46)))
            hidden = r if hidden is None else hidden
        if dirs and hidden is not False:
            bad(ctx, "hidden", "hidden directories, the directory itself or its parent can be walked")
        if not acts:
            ok = failed or islnk is True or toolong(p, add(length(D), length(name)), 2, size) or \
                (isdir is True and hidden is True) or (isreg is False and isdir is False)
            if not ok and isdir is None and isreg is False and hidden is True:
                ok = True
            if not ok:
                bad(ctx, "skipped", "an entry that %s can be left out" % why(p, name))
        if p.end[0] == "back":
            prefix(ctx, p, A)
    ctx.floor("cases", 8)
    ctx.floor("entries", 4)


def length(t):
    return textof.length(S(t))


_dn = None


def dname():
    global _dn
    if _dn is None:
        m = spec.module()
        _dn = next((off for n, off, ty in m.structs.get("dirent", ()) if n == "d_name"), 19)
    return _dn


def why(p, name):
    r, d = fmt(p, REG), fmt(p, DIR)
    if r is True:
        return "is a regular file"
    if d is True:
        return "is a directory"
    if any("strlen" in repr(c) for c, w in p.lits[1:]):
        return "has a name of a certain length"
    return "has not been examined"


def path(ctx, p, ev, buf, name, what):
    ctx.count("paths")
    t = textof.text_at(p, base(buf), ev)
    want = [("text", S(ARG[1])), ("char", "/"), ("text", S(name))]
    if t is not None and [x if x[0] != "text" else ("text", S(x[1])) for x in t] == want:
        return
    bad(ctx, "path:" + what, "the path %s is %s, not the directory, a slash and the entry's name" % (what, textof.say(t)))


def base(buf):
    return buf


def toolong(p, need, k, size):
    """The path knows that need + k bytes do not fit into the buffer used for paths."""
    for n in set(size.values()):
        if n < 200:
            continue
        over = add(need, lin(k - n))
        for c, w in p.lits:
            c = S(c)
            if c[0] != "lt":
                continue
            # w: x < 0 ; not w: x >= 0
            for low in ([scale(c[1], -1)] if w else [c[1]]):
                d = add(over, low, -1)
                if isconst(d) and d[0] + (1 if w else 0) >= 1:
                    return True
    return False


def prefix(ctx, p, A):
    """What was put into the buffer before the loop is still there for the next entry."""
    h = p.end[1]
    body = A.inside(h)
    bufs = {}
    for e in p.calls():
        if e[1] in ("ohcount_sourcefile_list_add_file", "lstat", "stat") and e[2]:
            b = e[2][1] if e[1].startswith("ohc") else e[2][0]
            bufs[S(b)] = e
    for b, e in bufs.items():
        if len(b[1]) != 1:
            continue
        before = textof.Text(b)
        after = textof.Text(b)
        for x in p.events:
            if x[4].blk.n not in body:
                before.event(x)
            after.event(x)
        inside = textof.Text(b)
        for x in p.events:
            if x[4].blk.n in body and x[4].blk.n != h:
                inside.event(x)
        if inside.read() is not None and any(q[0] == ZERO for q in inside.pieces):
            continue                # rebuilt for every entry
        lost = [q for q in before.pieces if q not in after.pieces and not (q[1] == "char" and q[2] == 0)]
        if lost:
            bad(ctx, "prefix", "what the path of every entry starts with is overwritten by an entry")
