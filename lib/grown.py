"""Texts collected piece by piece: a buffer of known room, a cursor at its end, and functions that append at the cursor.
Invariant, with B the buffer, P the cursor and N the room: B <= P < B + N and a NUL at P. The constructor establishes it;
every function that writes at or moves the cursor keeps it, by the test that dominates the write."""
import extract, prog, spec, life
from spec import lin, atom, mem, S, add, scale, ARG, ZERO, isconst

REC = "ParsedLanguage"
PAIRS = (("code", "code_p"), ("comments", "comments_p"))


def off(n):
    return prog.field(spec.module(), REC, n)[0]


def facts(p, extra):
    """forms known to be <= 0 on this path"""
    out = list(extra)
    for c, w in p.lits:
        c = S(c)
        if c[0] == "lt":
            out.append(add(c[1], lin(1)) if w else scale(c[1], -1))
    return out


def nonpos(g, fs):
    if isconst(g):
        return g[0] <= 0
    for f in fs:
        d = add(g, f, -1)
        if isconst(d) and d[0] <= 0:
            return True
    for i, f in enumerate(fs):
        for h in fs[i:]:
            d = add(add(g, f, -1), h, -1)
            if isconst(d) and d[0] <= 0:
                return True
    return False


def writes(p):
    """(address, bytes, text, event) of everything written on this path"""
    for e in p.events:
        if e[0] == "store":
            yield S(e[1]), lin(1), S(e[2]), e
        elif e[0] == "call" and e[1] in spec.WRITES:
            a = e[2]
            n = a[2] if e[1] in ("strncpy", "memcpy", "memmove") else None
            yield S(a[0]), None if n is None else S(n), None, e


def tried(name):
    try:
        return spec.plain(name)
    except extract.AnalysisBroken:
        return None


def check(ctx):
    m = spec.module()
    bs = off("buffer_size")
    room = {}
    ctor = "ohcount_parsed_language_new"

    def bad(fn, what, msg):
        w = m.fn(fn)
        line = next((I.where() for I in w.insts() if I.d.get("l")), fn)
        ctx.violation("grown:%s:%s" % (fn, what), "%s: %s" % (line, msg))
    for p in spec.plain(ctor).paths:
        if p.end[0] != "ret" or p.end[1] == ZERO:
            continue
        r = p.end[1]
        for b, c in PAIRS:
            ctx.count("collected_texts")
            B = spec.mem_at(p, add(r, lin(off(b))))
            size = spec.alloc_size(p, B)
            N = spec.mem_at(p, add(r, lin(bs)))
            if size is None:
                bad(ctor, b, "the room for the collected %s is not known" % b)
                continue
            k = add(S(size), N, -1)
            if not isconst(k):
                bad(ctor, b, "the room for the collected %s does not follow from its recorded size" % b)
                continue
            room[b] = min(room.get(b, k[0]), k[0])
            if spec.mem_at(p, add(r, lin(off(c)))) != B:
                bad(ctor, c, "collecting %s does not begin at the start of its room" % b)
            if spec.mem_at(p, B) != ZERO:
                bad(ctor, b + ":end", "the collected %s do not start as an empty text" % b)
    w = life.World(m)
    cells = {(REC, off(x)): x for b, c in PAIRS for x in (b, c)}
    cells[(REC, bs)] = "buffer_size"
    for name, f in sorted(m.funcs.items()):
        if not f.defined or name == ctor:
            continue
        A = None
        touch = False
        for I in f.insts():
            if I.op == "store":
                A = A or tried(name)
                if A is None:
                    break
                t = A.cell(I)
                if t in cells:
                    touch = True
        if not touch:
            continue
        ctx.count("collecting_functions")
        for p in A.paths:
            if p.end[0] == "exit":
                continue
            ctx.count("collecting_cases")
            ws = list(writes(p))
            for a, n, v, e in ws:
                for b, c in PAIRS:
                    P, B, Z = mem(ARG[0], off(c)), mem(ARG[0], off(b)), mem(ARG[0], bs)
                    ats = {x for x, _ in a[1]}
                    if not ats & ({x for x, _ in P[1]} | {x for x, _ in B[1]}):
                        continue
                    if b not in room:
                        continue
                    end = add(add(B, Z), lin(room[b]))
                    fs = facts(p, [add(add(P, lin(1)), end, -1), add(B, P, -1)])
                    ctx.count("append_obligations")
                    if n is None or not nonpos(add(add(a, n), end, -1), fs):
                        bad(name, b + ":room", "what is appended to the collected %s may not fit its room" % b)
            if p.end[0] != "ret":
                continue
            for b, c in PAIRS:
                cell = S(add(ARG[0], lin(off(c))))
                if not any(a == cell for a, n, v, e in ws):
                    if any(a == S(add(ARG[0], lin(off(x)))) for x in (b, "buffer_size") for a, n, v, e in ws):
                        bad(name, b + ":moved", "the room of the collected %s changes behind its cursor" % b)
                    continue
                P, B, Z = mem(ARG[0], off(c)), mem(ARG[0], off(b)), mem(ARG[0], bs)
                end = add(add(B, Z), lin(room.get(b, 0)))
                new = spec.mem_at(p, cell)
                ctx.count("append_obligations")
                fs = facts(p, [add(add(P, lin(1)), end, -1), add(B, P, -1)])
                if not nonpos(add(add(new, lin(1)), end, -1), fs):
                    bad(name, b + ":cursor", "the cursor of the collected %s may leave their room" % b)
                last = [v for a, n, v, e in ws if a == new and v is not None]
                if not last or last[-1] != ZERO:
                    bad(name, b + ":end", "the collected %s do not end at their cursor" % b)
    ctx.floor("collected_texts", 2)
    ctx.floor("collecting_functions", 2)
