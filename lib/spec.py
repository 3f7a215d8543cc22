"""Rules over the enumerated affine cases of a function (affine.py): forms, list walks, list appends."""
import extract, ir, prog
from affine import Affine, lin, add, atom, mem, strip, eq, lt, isconst, scale, ZERO
from extract import AnalysisBroken

ARG = [atom(("arg", i)) for i in range(8)]
_m = None


def module():
    global _m
    if _m is None:
        _m = prog.module()
    return _m


def fld(struct, name):
    return prog.field(module(), struct, name)[0]


def offs(struct, *names):
    return [fld(struct, n) for n in names]


_fresh = None


def fresh():
    """API functions that write only to memory they allocate themselves."""
    global _fresh
    if _fresh is None:
        m = module()
        _fresh = set()
        grew = True
        cand = [n for n in prog.API if n.endswith("_new") and n in m.funcs and m.funcs[n].defined]
        while grew:
            grew = False
            for n in cand:
                if n in _fresh:
                    continue
                try:
                    A = Affine(m, m.fn(n), fresh=_fresh, pure=("strncpy", "memcpy"))
                except AnalysisBroken:
                    continue
                ok = True
                for I in m.fn(n).insts():
                    if I.op == "call":
                        c = I.callee()
                        if c not in _fresh and c not in ("malloc", "calloc", "strlen", "strncpy", "strdup", "strcpy", "free") \
                                and not (c or "").startswith("llvm."):
                            ok = False
                for p in A.paths:
                    for e in p.stores():
                        r = [a for a, _ in e[1][1] if a[0] in ("new", "ret", "alloca")]
                        if not r and not any("'new'" in repr(a) for a, _ in e[1][1]):
                            ok = False
                if ok:
                    _fresh.add(n)
                    grew = True
    return _fresh


_A = {}


def cases(name, **kw):
    if name not in _A:
        m = module()
        _A[name] = Affine(m, m.fn(name), fresh=fresh(), **kw)
    return _A[name]


def S(x):
    return strip(x)


def rets(p):
    """('ret'|'new', ...) atom -> (callee, args)"""
    out, n = {}, {}
    for e in p.events:
        if e[0] == "call":
            i = e[4].i
            k = n.get(i, 0)
            n[i] = k + 1
            if e[1] in ("malloc", "calloc"):
                out[("new", i, k)] = (e[1], e[2])
            else:
                out[("ret", e[1] if isinstance(e[1], str) else "?", i, k)] = (e[1], e[2])
    return out


def subst(x, fn):
    """Replace atoms: fn(atom) -> lin or None."""
    out = lin(x[0])
    for a, c in x[1]:
        r = fn(a)
        out = add(out, r if r is not None else atom(a), c)
    return out


def interp(x, p, table):
    """Replace the results of calls to specified functions by what they stand for."""
    R = rets(p)

    def f(a):
        if a[0] == "ret" and a in R and R[a][0] in table:
            return interp(table[R[a][0]](*R[a][1]), p, table)
        return None
    return subst(x, f)


def same_text(p, a, b):
    """Do the strings a and b hold the same text on this path? True / False / None"""
    a, b = S(a), S(b)
    if a == b:
        return True
    for c, w in p.lits:
        c = S(c)
        if c[0] != "eq":
            continue
        if w and c[1] in (add(a, b, -1), add(b, a, -1)):
            return True
        x = c[1]
        if x[0] == 0 and len(x[1]) == 1 and x[1][0][0][0] == "pure" and x[1][0][0][1] == "strcmp":
            aa = x[1][0][0][2]
            if tuple(S(v) for v in aa) in ((a, b), (b, a)):
                return w
    return None


def mem_at(p, addr):
    """Value of a cell at the end of the path: what was stored, or the entry value."""
    a = S(addr)
    v = None
    for k, x in p.mem.items():
        if S(k) == a:
            v = x
    if v is None:
        for e in p.events:
            if e[0] == "store" and S(e[1]) == a:
                v = e[2]
    return S(v) if v is not None else S(mem(addr))


def stored(p, addr):
    a = S(addr)
    return any(e[0] == "store" and S(e[1]) == a for e in p.events)


def show(x):
    """Readable affine form."""
    def at(a):
        if a[0] == "arg":
            return "arg%d" % a[1]
        if a[0] == "mem":
            return "[%s]" % show(a[1])
        if a[0] == "loop":
            return "v%d" % a[1]
        if a[0] == "ret":
            return "%s()" % a[1]
        if a[0] == "str":
            return '"%s"' % a[1][:20]
        if a[0] == "g":
            return str(a[1])
        if a[0] == "pure":
            return "%s(%s)" % (a[1], ", ".join(show(v) for v in a[2]))
        return str(a)[:40]
    t = []
    for a, c in x[1]:
        t.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + at(a))
    if x[0] or not t:
        t.append(str(x[0]))
    return " + ".join(t).replace("+ -", "- ")


# ---------------------------------------------------------------- list walks

class Walk:
    """One loop of a function that walks a chain: e = loop atom of the iterator."""

    def __init__(self, A, h, e, nxt, init):
        self.A, self.h, self.e, self.nxt, self.init = A, h, e, nxt, init
        self.body = A.inside(h)

    def events(self, p):
        """Events of this path inside the loop body."""
        on = False
        out = []
        for ev in p.events:
            if ev[4].blk.n in self.body:
                out.append(ev)
        return out

    def entered(self, p):
        return any(h == self.h for h, _ in p.loops)

    def outcome(self, p):
        """'next': goes on with the next element, 'end': chain exhausted before this element, 'last': this element was the
        last one, 'stop': left early, None: loop not entered."""
        if not self.entered(p):
            return None
        if p.end[0] == "back" and p.end[1] == self.h:
            return "next"
        if p.lit(eq(self.e, ZERO)) is True:
            return "end"
        if p.lit(eq(mem(self.e, self.nxt), ZERO)) is True:
            return "last"
        return "stop"


def walks(A, nxt=8):
    """Chain walks of a function: loops one variable of which advances by its `next` member on every back edge."""
    out = []
    for h in A.heads:
        backs = [p for p in A.paths if p.end[0] == "back" and p.end[1] == h]
        ent = [p for p in A.paths if any(x == h for x, _ in p.loops)]
        if not ent:
            continue
        vs = dict([x for x in ent[0].loops if x[0] == h][0][1])
        for i in vs:
            e = atom(("loop", i))
            if backs and all(S(p.end[2].get(i, ZERO)) == S(mem(e, nxt)) for p in backs):
                inits = {S(dict([x for x in p.loops if x[0] == h][0][1])[i]) for p in ent}
                out.append(Walk(A, h, e, nxt, inits))
    return out


def chain_sum(fn, head, form, table, nxt=8):
    """None if fn(list) returns the sum of form(element data) over the chain starting at `head`; otherwise what it does.
    form: lin of the element atom e."""
    A = cases(fn)
    W = walks(A, nxt)
    tot = {}
    for p in A.paths:
        if p.stores() or any(c[1] not in table and c[1] != "log_it" for c in p.calls()):
            return "it does more than reading"
    exps = []
    for w in W:
        if w.init != {S(head)}:
            return "the walk starts at %s, not at the head of the list" % show(next(iter(w.init)))
    for p in A.paths:
        if p.end[0] == "exit":
            continue
        if p.end[0] == "back":
            if not any(p.end[1] == w.h for w in W):
                return "loop that does not advance through the list"
            continue
        R = interp(p.end[1], p, table)
        # contribution of every walk
        rest = S(R)
        inc_total = ZERO
        for w in W:
            o = w.outcome(p)
            if o == "stop":
                return "the walk can stop before the end of the list"
            if o is None:
                if p.lit(eq(head, ZERO)) is not True:
                    return "the list is not walked although it may hold entries"
                continue
            ids = set(dict([x for x in p.loops if x[0] == w.h][0][1]))
            T = lin(0, [(a, c) for a, c in rest[1] if a[0] == "loop" and a[1] in ids and atom(a) != w.e])
            init = dict([x for x in p.loops if x[0] == w.h][0][1])
            T0 = S(subst(T, lambda a: init.get(a[1]) if a[0] == "loop" else None))
            incs = set()
            for b in A.paths:
                if b.end[0] == "back" and b.end[1] == w.h:
                    v = b.end[2]
                    incs.add(S(interp(add(subst(T, lambda a: v.get(a[1]) if a[0] == "loop" else None), T, -1), b, table)))
            if len(incs) != 1:
                return "what is added differs between entries: %s" % "; ".join(show(x) for x in incs)
            inc = next(iter(incs))
            rest = add(rest, T, -1)
            rest = add(rest, T0)
            if o == "last":
                rest = add(rest, inc, -1)
            # rename the element
            inc_total = add(inc_total, S(subst_deep(inc, w.e, atom(("elem",)))))
        if rest != ZERO:
            # sums obtained from other list functions
            ext = lin(rest[0], [(a, c) for a, c in rest[1] if a[0] != "sum"])
            if ext != ZERO:
                return "the result has a part that is not a sum over the list: %s" % show(ext)
            for a, c in rest[1]:
                if a[1] != S(head):
                    return "sums over another list"
                inc_total = add(inc_total, a[2], c)
        elif not any(w.outcome(p) is not None for w in W):
            if W:
                continue            # empty list: 0
        if inc_total != S(form(atom(("elem",)))):
            return "adds %s per entry instead of %s" % (show(inc_total), show(S(form(atom(("elem",))))))
    return None


def subst_deep(x, a, b):
    """Replace the atom-form a by form b everywhere inside x."""
    key = a[1][0][0]

    def walk(v):
        if isinstance(v, tuple):
            if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple) and all(isinstance(t, tuple) and len(t) == 2 for t in v[1]):
                out = lin(v[0])
                for t, c in v[1]:
                    out = add(out, b if t == key else atom(walk(t)), c)
                return out
            return tuple(walk(t) for t in v)
        return v
    return walk(x)


# ---------------------------------------------------------------- library calls that write at most one buffer

WRITES = {"strncpy": 0, "strcpy": 0, "memcpy": 0, "memmove": 0, "strncat": 0, "strcat": 0, "fread": 0, "fgets": 0, "sprintf": 0,
          "snprintf": 0, "memset": 0}
SILENT = {"fopen", "fseek", "ftell", "rewind", "strdup", "strndup", "fileno", "ferror", "feof", "opendir"}


class Plain(Affine):
    """Library calls write only the buffer they are given."""

    def __init__(self, m, f, **kw):
        self.quiet_calls = SILENT | set(WRITES)
        kw.setdefault("fresh", fresh())
        super().__init__(m, f, **kw)

    def call(self, p, I):
        c = I.callee() or ""
        for k in ("memcpy", "memmove", "memset"):
            if c.startswith("llvm." + k):
                c = k
        if c in self.quiet_calls:
            args = tuple(self.num(p, o) for o in I.ops)
            n = sum(1 for e in p.events if e[0] == "call" and e[4].i == I.i)
            p.events.append(("call", c, args, dict(p.mem), I))
            p.env[I.i] = atom(("new" if c in ("strdup", "strndup") else "ret", I.i, n) if c in ("strdup", "strndup") else ("ret", c, I.i, n))
            if c in WRITES:
                d = {a for a, _ in args[0][1]}
                p.mem = {k: v for k, v in p.mem.items() if not d & {a for a, _ in k[1]}}
                if c in ("strncpy", "strcpy", "memcpy", "memmove", "strncat", "strcat"):
                    p.env[I.i] = args[0]
            return False
        return super().call(p, I)


_P = {}


def plain(name, **kw):
    k = (name, tuple(sorted(kw.items())))
    if k not in _P:
        _P[k] = Plain(module(), module().fn(name), **kw)
    return _P[k]


def copies(p, dst, size=None):
    """Text put into the buffer dst (an atom form) on this path: list of (kind, event, length form or None, source)."""
    d = dst[1][0][0] if dst[1] else None
    out = []
    for e in p.events:
        if e[0] == "call" and e[1] in WRITES and d in {a for a, _ in e[2][0][1]}:
            a = e[2]
            if e[1] in ("strncpy", "memcpy", "memmove"):
                out.append((e[1], e, a[2], a[1]))
            elif e[1] == "fread":
                n = a[1] if a[2] == lin(1) else a[2] if a[1] == lin(1) else None
                out.append((e[1], e, n, a[3]))
            else:
                out.append((e[1], e, None, a[1] if len(a) > 1 else None))
    return out


def alloc_size(p, v):
    """Size form of the allocation v on this path, None when v is not one."""
    if len(v[1]) != 1 or v[0] != 0 or v[1][0][1] != 1:
        return None
    a = v[1][0][0]
    if a[0] != "new":
        return None
    n = 0
    for e in p.events:
        if e[0] == "call" and e[4].i == a[1]:
            if n == a[2]:
                if e[1] == "malloc":
                    return e[2][0]
                if e[1] == "calloc":
                    return scale(e[2][0], e[2][1][0]) if isconst(e[2][1]) else scale(e[2][1], e[2][0][0]) if isconst(e[2][0]) else None
                if e[1] in ("strdup", "strndup"):
                    L = atom(("pure", "strlen", (e[2][0],), 0))
                    return add(L, lin(1))
                return None
            n += 1
    return None


def holds_copy(p, v, text, what):
    """None if the allocation v holds a terminated copy of the whole string `text` at the end of this path."""
    n = alloc_size(p, v)
    if n is None:
        return "%s is not memory of its own" % what
    L = S(atom(("pure", "strlen", (text,), 0)))
    for e in p.events:
        if e[0] == "call" and e[1] == "strdup" and e[4].i == v[1][0][0][1] and S(e[2][0]) == S(text):
            return None
    slack = add(S(n), add(L, lin(1)), -1)
    if not isconst(slack):
        return "%s gets %s bytes instead of the length of the text + 1" % (what, show(S(n)))
    if slack[0] < 0:
        return "%s gets %d bytes less than the text and its terminator need" % (what, -slack[0])
    cs = copies(p, v)
    if not cs:
        return "nothing is copied into %s" % what
    k, e, ln, src = cs[-1]
    if len(cs) != 1 or S(e[2][0]) != S(v) or src is None or S(src) != S(text):
        return "%s is not a copy of the text given" % what
    if k in ("strcpy",):
        return None
    if ln is None:
        return "%s is filled by %s" % (what, k)
    if S(ln) == add(L, lin(1)):
        return None
    if S(ln) != L:
        return "%s bytes of the text are copied into %s instead of all" % (show(S(ln)), what)
    pos = p.events.index(e)
    for x in p.events[pos + 1:]:
        if x[0] == "store" and S(x[1]) == add(S(v), L) and x[2] == ZERO:
            return None
    if alloc_zeroed(p, v):
        return None
    return "%s is not terminated" % what


def alloc_zeroed(p, v):
    return any(e[0] == "call" and e[1] == "calloc" and e[4].i == v[1][0][0][1] for e in p.events)
