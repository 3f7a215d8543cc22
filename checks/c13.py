"""Memory: every allocation is freed once or handed over, destructors free what a record owns, nothing is used after."""
import prog, life, spec
from c12 import report
from spec import *


def check(ctx):
    ctx.cov["explanation"] = (
        "For every allocation, every record a function receives and frees, and every field that owns what it points to "
        "(fields that are given new objects), all paths of every function are followed with the set of values and cells "
        "that hold the object: freed at most once, not used afterwards, not lost by return or overwriting, no reference "
        "left in a live record; a record is freed only after every owned field; loops that free a chain free every cell.")
    m = prog.module()
    w = life.World(m)
    own = w.owned()
    ctx.cov["owned_fields"] = len(own)
    for n in w.roots:
        f = m.funcs[n]
        for k in w.sites(f):
            if k[0] == "heap":
                ctx.count("allocations")
                go(ctx, w, f, k, life.callee(f, k[1]))
        for i, t in enumerate(f.d.get("argty", [])):
            if t == "ptr":
                ctx.count("pointer_parameters")
                go(ctx, w, f, ("param", i), "argument %d" % i)
        for k in w.values(f):
            ctx.count("released_values")
            go(ctx, w, f, k, "value")
        for k in w.fields(f):
            ctx.count("field_obligations")
            go(ctx, w, f, k, k[3])
    borrowed(ctx, w, own)
    chains(ctx, w)
    filled(ctx, w)
    ctx.floor("allocations", 25)
    ctx.floor("owned_fields", 8)
    ctx.floor("chain_releases", 5)
    ctx.floor("record_fields_initialised", 30)


def go(ctx, w, f, k, what):
    L = life.Life(w, f, k)
    ctx.count("cases", L.steps)
    report(ctx, L, what)


def borrowed(ctx, w, own):
    """An owned field is never given something that belongs to someone else."""
    for t, ss in own.items():
        for n, I, c in ss:
            if c != "other":
                continue
            f = w.m.funcs[n]
            v = I.ops[0]
            ctx.count("moves_between_fields")
            if not moved(w, f, v, own):
                nm = next(x for x, o, _ in w.m.structs[t[0]] if o == t[1])
                ctx.violation("borrowed:%s:%s.%s" % (I.scope(), t[0], nm),
                              "%s: %s.%s, which the record frees, is given something it does not own" % (I.where(), t[0], nm))


def moved(w, f, v, own, seen=()):
    if v[0] == "n":
        return True
    if v[0] == "a":
        return not prog.is_api(f.name)
    if v[0] != "i" or v[1] in seen:
        return v[0] == "i"
    I = f.inst[v[1]]
    if I.op == "phi":
        return all(moved(w, f, x, own, seen + (v[1],)) for x, _ in I.d["in"])
    if I.op == "select":
        return all(moved(w, f, x, own, seen + (v[1],)) for x in I.ops[1:])
    if I.op == "load":
        o = I.ops[0]
        if o[0] == "i" and f.inst[o[1]].op == "getelementptr":
            G = f.inst[o[1]]
            return (w.gep_struct(f, G), G.d["off"]) in own
        return (w.typeof(f, o), 0) in own
    return w.new_value(f, v)


def chains(ctx, w):
    """Loops that free the cells of a chain."""
    for n in w.roots:
        f = w.m.funcs[n]
        if not any(I.op == "call" and I.callee() == "free" for I in f.insts()):
            continue
        if n == "main":
            continue
        try:
            A = spec.cases(n)
        except AnalysisBroken:
            continue
        for nx in sorted({off for s, fs in w.m.structs.items() for x, off, ty in fs if x == "next"}):
            for W in spec.walks(A, nx):
                fr = lambda p: [e for e in W.events(p) if e[0] == "call" and e[1] == "free" and S(e[2][0]) == S(W.e)]
                if not any(fr(p) for p in A.paths):
                    continue
                ctx.count("chain_releases")
                where = f.blocks[W.h].insts[-1].where()
                for i in W.init:
                    hd = [S(mem(ARG[0], off)) for off in w.heads.values()]
                    gl = i[0] == 0 and len(i[1]) == 1 and i[1][0][0][0] == "mem" and i[1][0][0][1][1] \
                        and i[1][0][0][1][1][0][0][0] == "g"
                    # a list without entries is its own only cell
                    empty = i == ARG[0] and all(
                        any(p.lit(eq(h, ZERO)) is True for h in hd) for p in A.paths
                        if W.entered(p) and S(dict([x for x in p.loops if x[0] == W.h][0][1])[W.e[1][0][0][1]]) == i)
                    if i not in hd and not gl and not empty:
                        ctx.violation("chain-start:%s" % n, "%s: freeing the list starts at %s, not at its head" % (where, show(i)))
                for p in A.paths:
                    o = W.outcome(p)
                    if o is None:
                        if p.end[0] == "ret" and not any(e[1] == "free" for e in p.calls()) and not any(
                                p.lit(eq(i, ZERO)) is True for i in W.init):
                            ctx.violation("chain-skipped:%s" % n, "%s: the list may be left unfreed" % where)
                    elif o in ("next", "last"):
                        if len(fr(p)) != 1:
                            ctx.violation("chain-cell:%s" % n, "%s: a cell of the list is %s" %
                                          (where, "not freed" if not fr(p) else "freed twice"))
                    elif o == "stop" and p.end[0] == "ret":
                        ctx.violation("chain-stop:%s" % n, "%s: freeing can stop before the end of the list" % where)
                    if p.end[0] == "ret" and o in ("end", "last") and not (o == "end" and any(p.lit(eq(i, ZERO)) is True for i in W.init)):
                        again = [e for e in p.calls("free") if e not in W.events(p) and S(e[2][0]) in [S(ARG[0])] + list(W.init)]
                        if again:
                            ctx.violation("chain-twice:%s" % n, "%s: the list itself is freed again after its cells" % where)


def filled(ctx, w):
    """A function that returns a new record has set all its fields."""
    for n in w.roots:
        f = w.m.funcs[n]
        for K in f.insts():
            if K.op != "call" or life.callee(f, K) != "malloc":
                continue
            t = w.typeof(f, ["i", K.i])
            if t is None or not returned(f, K):
                continue
            offs = {o: nm for nm, o, _ in w.m.structs[t]}
            have = {B.n: None for B in f.blocks}
            todo = [(0, frozenset())]
            while todo:
                b, s = todo.pop()
                if have[b] is not None:
                    if have[b] <= s:
                        continue
                    s &= have[b]
                have[b] = s
                s = set(s)
                for I in f.blocks[b].insts:
                    s |= sets(w, f, I, K, t, offs)
                todo += [(x, frozenset(s)) for x in f.blocks[b].succs]
                if f.blocks[b].term.op == "ret" and gives(f, f.blocks[b].term, K):
                    for o, nm in offs.items():
                        ctx.count("record_fields_initialised")
                        if o not in s:
                            ctx.violation("uninitialised:%s:%s.%s" % (n, t, nm),
                                          "%s: the new record is returned with %s.%s not set on some path" % (K.where(), t, nm))


def root(f, o):
    off = 0
    while o[0] == "i" and f.inst[o[1]].op == "getelementptr" and not f.inst[o[1]].d["var"]:
        off += f.inst[o[1]].d["off"]
        o = f.inst[o[1]].d["base"]
    return o, off


def sets(w, f, I, K, t, offs):
    me = ["i", K.i]
    if I.op == "store":
        o, off = root(f, I.ops[1])
        if o == me:
            return {x for x in offs if off <= x < off + (I.d.get("sz") or 1)}
    elif I.op == "call":
        c = life.callee(f, I) or ""
        if c.startswith(("llvm.memset", "llvm.memcpy", "memset", "memcpy")) and I.ops and root(f, I.ops[0])[0] == me:
            return set(offs)
        if any(root(f, o)[0] == me for o in I.ops):
            return {o for s, o in w.mods(c) if s == t}
    return set()


def gives(f, T, K, seen=()):
    return bool(T.ops) and same(f, T.ops[0], K, seen)


def same(f, o, K, seen=()):
    if o[0] != "i" or o[1] in seen:
        return False
    if o[1] == K.i:
        return True
    I = f.inst[o[1]]
    xs = [v for v, _ in I.d["in"]] if I.op == "phi" else I.ops[1:] if I.op == "select" else []
    return any(same(f, x, K, seen + (o[1],)) for x in xs)


def returned(f, K):
    return any(I.op == "ret" and gives(f, I, K) for I in f.insts())
