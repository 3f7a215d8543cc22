"""The queue of held-back line reports: appending keeps every report, in order, unchanged; dropping it empties it."""
import prog, spec
from spec import mem, lin, S, eq, atom, add, ZERO, ARG

ROLES = ("lang", "entity", "s", "e", "udata")


def g(name):
    return atom(("g", name))


def queue(ctx, only_drop=False):
    m = spec.module()
    if "enqueue" not in m.funcs or not m.funcs["enqueue"].defined:
        return
    D = spec.cases("free_queue")
    st = next((s for s, fs in m.structs.items() if {"lang", "entity", "udata", "next"} <= {n for n, _, _ in fs}), None)
    if st is None:
        raise spec.AnalysisBroken("the record of a held-back line report is not recognised")
    off = {n: o for n, o, _ in m.structs[st]}
    W = spec.walks(D, off["next"])
    heads = {i for w in W for i in w.init}
    hg = [S(i) for i in heads]
    if len(hg) != 1 or not (hg[0][0] == 0 and len(hg[0][1]) == 1 and hg[0][1][0][0][0] == "mem"):
        raise spec.AnalysisBroken("the queue of held-back line reports is not recognised")
    HEAD = S(hg[0][1][0][0][1])
    A = spec.cases("enqueue")
    where = "parser_macros.h (enqueue)"
    glob = {S(e[1]) for p in A.paths for e in p.stores() if is_g(S(e[1]))}
    tails = [x for x in glob if x != HEAD]

    def bad(key, msg):
        ctx.violation("queue:" + key, "%s: %s" % (where, msg))
    for p in () if only_drop else A.paths:
        if p.end[0] == "exit":
            continue
        if any(w and c[0] == "eq" and c[1][0] == 0 and len(c[1][1]) == 1 and c[1][1][0][0][0] == "new" for c, w in p.lits):
            continue            # out of memory
        ctx.count("queue_cases")
        if p.end[0] != "ret":
            bad("loop", "a loop where one report is to be appended")
            continue
        items = {a for e in p.stores() for a, _ in S(e[2])[1] if a[0] == "new" and len(S(e[2])[1]) == 1 and (is_g(S(e[1])) or is_next(e, off))}
        if len(items) != 1:
            bad("append", "a report is not appended on some path" if not items else "more than one cell is appended")
            continue
        N = atom(next(iter(items)))
        for k, r in enumerate(ROLES):
            if S(spec.mem_at(p, add(N, lin(off[r])))) != S(ARG[k]):
                bad("field:" + r, "the held-back report does not keep its %s" % r)
        if S(spec.mem_at(p, add(N, lin(off["next"])))) != ZERO:
            bad("end", "the appended cell does not end the queue")
        empty = p.lit(eq(mem(HEAD, 0), ZERO))
        if empty is None and len(tails) == 1:
            empty = p.lit(eq(mem(tails[0], 0), ZERO))
        if len(tails) != 1 or S(spec.mem_at(p, tails[0])) != S(N):
            bad("tail", "the end of the queue is not the appended cell")
            continue
        if empty is None:
            bad("empty", "appending does not look whether the queue is empty")
        elif empty:
            if S(spec.mem_at(p, HEAD)) != S(N):
                bad("first", "the first held-back report does not start the queue")
        else:
            if S(spec.mem_at(p, HEAD)) != S(mem(HEAD, 0)):
                bad("head", "appending loses the reports already held back")
            if S(spec.mem_at(p, add(mem(tails[0], 0), lin(off["next"])))) != S(N):
                bad("link", "the appended cell is not linked behind the last one")
        for e in p.stores():
            a = S(e[1])
            mine = any(x == next(iter(items)) for x, _ in a[1])
            link = a == S(add(mem(tails[0], 0), lin(off["next"])))
            if not (mine or link or a in (HEAD, tails[0])):
                bad("other", "appending changes a report already held back")
    for p in D.paths:
        if p.end[0] == "ret":
            ctx.count("queue_cases")
            for x in [HEAD] + tails:
                if S(spec.mem_at(p, x)) != ZERO:
                    ctx.violation("queue:drop", "parser_macros.h (free_queue): the queue still refers to dropped reports")
    ctx.floor("queue_cases", 1 if only_drop else 3)


def is_g(a):
    return a[0] == 0 and len(a[1]) == 1 and a[1][0][0][0] == "g"


def is_next(e, off):
    a = S(e[1])
    return any(x[0] == "mem" for x, _ in a[1]) and a[0] == off["next"]
