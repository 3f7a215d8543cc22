"""Trace-partitioned affine-form propagation for small functions (helpers inlined).

Every integer and pointer is an affine form over atoms (parameters, memory cells at entry, call results, loop
variables). States are kept apart by branch outcome; a loop is entered once with its loop variables as fresh atoms, and
what each back edge assigns to them is recorded, so rules over loops are inductive (init / step / exit), never unrolled.
No overflow and no aliasing between differently named objects is assumed."""
from extract import AnalysisBroken

PURE = {"strcmp", "strcasecmp", "strncmp", "strncasecmp", "strlen", "isalnum", "isspace", "tolower", "toupper", "strstr",
        "strchr", "strrchr", "memcmp", "abs", "isalpha", "isdigit", "ispunct", "__ctype_b_loc"}
QUIET = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "free", "malloc", "calloc", "log_it", "fclose",
         "closedir", "exit", "fwrite", "llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.stacksave.p0",
         "llvm.stackrestore.p0", "abort", "strdup", "perror"}
SWAP = {"strcmp", "strcasecmp"}


def lin(const=0, terms=()):
    d = {}
    for a, c in terms:
        d[a] = d.get(a, 0) + c
    return (const, tuple(sorted(((a, c) for a, c in d.items() if c), key=repr)))


def atom(a):
    return (0, ((a, 1),))


def add(x, y, k=1):
    return lin(x[0] + k * y[0], list(x[1]) + [(a, k * c) for a, c in y[1]])


def scale(x, k):
    return lin(x[0] * k, [(a, c * k) for a, c in x[1]])


ZERO = lin(0)


def isconst(x):
    return not x[1]


def mem(addr, off=0, epoch=0):
    return atom(("mem", add(addr, lin(off)), epoch))


def strip(v):
    """Forget at which time a cell was read."""
    if isinstance(v, tuple):
        if len(v) == 3 and v[0] == "mem":
            return ("mem", strip(v[1]), 0)
        if len(v) == 4 and v[0] == "pure":
            return ("pure", v[1], strip(v[2]), 0)
        if len(v) == 2 and isinstance(v[0], int) and isinstance(v[1], tuple):
            return lin(v[0], [(strip(a), c) for a, c in v[1]])
        return tuple(strip(x) for x in v)
    return v


class Path:
    __slots__ = ("lits", "events", "end", "loops", "mem", "env", "epoch", "last", "facts", "ty")

    def clone(self):
        p = Path()
        p.lits, p.events, p.loops = list(self.lits), list(self.events), list(self.loops)
        p.mem, p.env, p.epoch, p.end, p.last = dict(self.mem), dict(self.env), self.epoch, self.end, dict(self.last)
        p.facts, p.ty = dict(self.facts), dict(self.ty)
        return p

    def lit(self, cond, want=None):
        """Outcome of a condition on this path (True/False) or None."""
        c, pol = norm(cond)
        c = strip(c)
        for x, w in self.lits:
            if strip(x) == c:
                return w == pol
        if c[0] == "eq":
            # x == k1 rules out x == k2
            for x, w in self.lits:
                y = strip(x)
                if w and y[0] == "eq":
                    d = add(y[1], c[1], -1)
                    if isconst(d) and d[0] != 0:
                        return (False) == pol
                    d = add(y[1], c[1])
                    if isconst(d) and d[0] != 0:
                        return (False) == pol
        if c[0] in ("lt", "eq"):
            lo, hi = self.range(c[1])
            if lo is not None and hi is not None and lo > hi:
                return None
            if c[0] == "lt" and hi is not None and hi < 0:
                return pol
            if c[0] == "lt" and lo is not None and lo >= 0:
                return not pol
            if c[0] == "eq" and (lo is not None and lo > 0 or hi is not None and hi < 0):
                return not pol
            if c[0] == "eq" and lo == 0 and hi == 0:
                return pol
        return None

    def range(self, x, timeless=True):
        """What the comparisons of this path say about the value of x: (least, greatest), None where nothing."""
        x = strip(x) if timeless else x
        if isconst(x):
            return x[0], x[0]
        lo = hi = None
        for c, w in self.lits:
            if c[0] not in ("lt", "eq"):
                continue
            c = strip(c) if timeless else c
            d = add(c[1], x, -1)
            n = add(c[1], x)
            if isconst(d):            # x + d < 0, x + d == 0
                if c[0] == "lt" and w or c[0] == "eq" and w:
                    b = -d[0] - (c[0] == "lt")
                    hi = b if hi is None else min(hi, b)
                if c[0] == "lt" and not w or c[0] == "eq" and w:
                    lo = -d[0] if lo is None else max(lo, -d[0])
            elif isconst(n):          # n - x < 0, n - x == 0
                if c[0] == "lt" and w or c[0] == "eq" and w:
                    b = n[0] + (c[0] == "lt")
                    lo = b if lo is None else max(lo, b)
                if c[0] == "lt" and not w or c[0] == "eq" and w:
                    hi = n[0] if hi is None else min(hi, n[0])
        return lo, hi

    def stores(self):
        return [e for e in self.events if e[0] == "store"]

    def calls(self, name=None):
        return [e for e in self.events if e[0] == "call" and (name is None or e[1] == name)]


def norm(c):
    """(kind, lin) with a canonical sign -> (cond, polarity)"""
    if c[0] == "or":
        return c, True
    k, x = c
    if k == "ne":
        c2, p = norm(("eq", x))
        return c2, not p
    if k == "eq":
        if x[1] and x[1][0][1] < 0:
            x = scale(x, -1)
        return ("eq", x), True
    return (k, x), True


def eq(a, b):
    return ("eq", add(a, b, -1))


def lt(a, b):
    return ("lt", add(a, b, -1))


class Affine:
    def __init__(self, m, f, limit=6000, args=None, pure=(), steps=400000, fresh=()):
        self.m, self.f, self.limit = m, f, limit
        self.fresh = set(fresh)
        self.pure = PURE | set(pure)
        self.args = args or {}
        self.steps = steps
        self.heads = self.headers()
        self.dirty = self.dirty_loops()
        self.paths = []
        self.go()

    # -- loops
    def headers(self):
        f = self.f
        heads, color, st = {}, {}, [(0, iter(f.blocks[0].succs))]
        color[0] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if color.get(s) == 1:
                    heads.setdefault(s, set()).add(n)
                elif s not in color:
                    color[s] = 1
                    st.append((s, iter(f.blocks[s].succs)))
                    break
            else:
                color[n] = 2
                st.pop()
        return heads

    def dirty_loops(self):
        out = {}
        for h, ends in self.heads.items():
            body, todo = {h}, list(ends)
            while todo:
                b = todo.pop()
                if b not in body:
                    body.add(b)
                    todo += self.f.blocks[b].preds
            d = False
            for b in body:
                for I in self.f.blocks[b].insts:
                    if I.op == "store" or (I.op == "call" and I.callee() not in self.pure and I.callee() not in QUIET
                                           and I.callee() not in self.fresh and I.callee() not in self.readers()):
                        d = True
            out[h] = d
        return out

    # -- values
    def val(self, p, o):
        k = o[0]
        if k == "c":
            return lin(o[1])
        if k == "n":
            return ZERO
        if k == "i":
            return p.env.get(o[1], atom(("ssa", o[1])))
        if k == "a":
            return self.args.get(o[1], atom(("arg", o[1])))
        if k == "g":
            s = self.m.cstr(o)
            if s is not None:
                return atom(("str", s))
            return add(atom(("g", o[1])), lin(o[2] if len(o) > 2 else 0))
        if k == "u":
            return atom(("undef",))
        return atom(("const", repr(o)))

    def load(self, p, addr, I):
        if addr in p.mem:
            return p.mem[addr]
        # constant tables
        if len(addr[1]) == 1 and addr[1][0][1] == 1 and addr[1][0][0][0] == "str":
            s = addr[1][0][0][1]
            if I.d.get("sz") == 1 and 0 <= addr[0] <= len(s):
                return lin(ord(s[addr[0]]) if addr[0] < len(s) else 0)
        return atom(("mem", addr, p.epoch))

    def cond(self, p, o):
        """[(outcome, path)]"""
        if o[0] == "c":
            return [(bool(o[1]), p)]
        if o[0] != "i":
            return self.split(p, ("ne", self.val(p, o)))
        I = self.f.inst[o[1]]
        v = p.env.get(o[1])
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "cond":
            return self.split(p, v[1], v[2])
        if v is not None and isconst(v):
            return [(bool(v[0]), p)]
        return self.split(p, ("ne", v if v is not None else atom(("ssa", o[1]))))

    def split(self, p, c, pol=True):
        if c[0] == "or":
            out = []
            for w, q in self.split(p, c[1][1], c[1][2]):
                for w2, q2 in ([(True, q)] if w else self.split(q, c[2][1], c[2][2])):
                    out.append((w2 == pol, q2))
            return out
        c, q = norm(c)
        pol = pol == q
        if isconst(c[1]):
            t = c[1][0] == 0 if c[0] == "eq" else c[1][0] < 0
            return [(t == pol, p)]
        if c[0] == "eq" and self.distinct(c[1]):
            return [(False == pol, p)]
        k = p.facts.get(c)
        if k is None and c[0] == "eq":
            for x, w in p.lits:
                if w and x[0] == "eq":
                    for s in (1, -1):
                        d = add(x[1], c[1], -s)
                        if isconst(d) and d[0] != 0:
                            k = False
        if k is None and c[0] in ("lt", "eq"):
            lo, hi = p.range(c[1], False)
            if lo is None or hi is None or lo <= hi:
                if c[0] == "lt" and hi is not None and hi < 0 or c[0] == "eq" and lo == 0 and hi == 0:
                    k = True
                elif c[0] == "lt" and lo is not None and lo >= 0 or c[0] == "eq" and (lo is not None and lo > 0 or hi is not None and hi < 0):
                    k = False
        if k is not None:
            return [(k == pol, p)]
        out = []
        for w in (True, False):
            q2 = p.clone()
            q2.lits.append((c, w))
            q2.facts[c] = w
            out.append((w == pol, q2))
        return out

    def distinct(self, x):
        """difference that cannot be zero: the address of an object against null or another object"""
        ob = [a for a, c in x[1] if a[0] in ("alloca", "g", "str")]
        return len(x[1]) == len(ob) and len(ob) in (1, 2) and (len(ob) == 1 or ob[0] != ob[1])

    # -- run
    def go(self):
        p = Path()
        p.lits, p.events, p.loops, p.mem, p.env, p.epoch, p.end, p.last, p.facts, p.ty = [], [], [], {}, {}, 0, None, {}, {}, {}
        todo = [(0, None, p)]
        n = 0
        while todo:
            b, frm, p = todo.pop()
            for nb, q in self.block(b, frm, p):
                n += 1
                if n > self.steps or len(self.paths) > self.limit:
                    raise AnalysisBroken("%s has too many cases to enumerate" % self.f.name)
                if nb is None:
                    self.paths.append(q)
                else:
                    todo.append((nb, b, q))

    def block(self, b, frm, p):
        B = self.f.blocks[b]
        phis = [I for I in B.insts if I.op == "phi"]
        vals = {}
        for I in phis:
            for v, s in I.d["in"]:
                if s == frm:
                    if v[0] == "i" and isinstance(p.env.get(v[1]), tuple) and len(p.env.get(v[1])) == 3:
                        vals[I.i] = p.env[v[1]]
                    else:
                        vals[I.i] = self.val(p, v)
                    break
        if b in self.heads:
            if any(h == b for h, _ in p.loops) and frm in self.inside(b):
                p.end = ("back", b, vals)
                return [(None, p)]
            p.loops.append((b, vals))
            for I in phis:
                p.env[I.i] = atom(("loop", I.i))
            if self.dirty[b]:
                p.epoch += 1
                w = self.loop_writes(b)
                p.mem = {k: v for k, v in p.mem.items() if self.private(k) or self.untouched(p, k, w)}
            p.facts = {c: w for c, w in p.facts.items() if not self.mentions_mem(c)} if self.dirty[b] else p.facts
        else:
            p.env.update(vals)
        return self.insts(B, len(phis), p)

    # -- which members of records calls and loops write
    def world(self):
        if not hasattr(self.m, "_world"):
            import life
            self.m._world = life.World(self.m)
        return self.m._world

    def cell(self, I):
        """(record, offset) of the member a store writes, None when it is not one"""
        o, w = I.ops[1], self.world()
        if o[0] == "i" and self.f.inst[o[1]].op == "getelementptr":
            G = self.f.inst[o[1]]
            t = None if G.d["var"] or G.d["base"][0] == "g" else (w.gep_struct(self.f, G), G.d["off"])
        else:
            t = (w.typeof(self.f, o), 0) if o[0] in "ia" else None
        return t if t and t[0] else None

    def writes(self, c):
        """members the function may write, None when that is not known"""
        g = self.m.funcs.get(c) if c else None
        return self.world().mods(c) if g is not None and g.defined else None

    def untouched(self, p, k, w):
        return w is not None and p.ty.get(k) is not None and p.ty[k] not in w

    def loop_writes(self, h):
        out = set()
        for b in self.inside(h):
            for I in self.f.blocks[b].insts:
                if I.op == "store":
                    out.add(self.cell(I))
                elif I.op == "call":
                    c = I.callee()
                    if c in self.pure or c in QUIET or c in self.fresh or c in self.readers():
                        continue
                    w = self.writes(c)
                    if w is None:
                        return None
                    out |= w
        return out

    def mentions_mem(self, c):
        return "'mem'" in repr(c)

    def private(self, addr):
        return False

    def inside(self, h):
        if not hasattr(self, "_in"):
            self._in = {}
        if h not in self._in:
            body, todo = {h}, list(self.heads[h])
            while todo:
                x = todo.pop()
                if x not in body:
                    body.add(x)
                    todo += self.f.blocks[x].preds
            self._in[h] = body
        return self._in[h]

    def insts(self, B, n, p):
        work, out = [(n, p)], []
        while work:
            n, p = work.pop()
            stop = False
            while n < len(B.insts):
                I = B.insts[n]
                n += 1
                op = I.op
                if op in ("br", "switch", "ret", "unreachable"):
                    break
                if op == "select":
                    for w, q in self.cond(p, I.ops[0]):
                        o = I.ops[1] if w else I.ops[2]
                        v = q.env.get(o[1]) if o[0] == "i" else None
                        q.env[I.i] = v if isinstance(v, tuple) and len(v) == 3 else self.val(q, o)
                        work.append((n, q))
                    stop = True
                    break
                if op == "zext" and self.counted(I):
                    v = p.env.get(I.ops[0][1]) if I.ops[0][0] == "i" else None
                    if isinstance(v, tuple) and len(v) == 3 and v[0] == "cond":
                        for w, q in self.split(p, v[1], v[2]):
                            q.env[I.i] = lin(int(w))
                            work.append((n, q))
                        stop = True
                        break
                if op == "call":
                    if self.call(p, I):
                        p.end = ("exit", I)
                        out.append((None, p))
                        stop = True
                        break
                    continue
                self.step(p, I)
            if stop:
                continue
            out += self.term(B, p)
        return out

    def counted(self, I):
        """A truth value used as a number."""
        if not hasattr(self, "_counted"):
            self._counted = {o[1] for J in self.f.insts() if J.op in ("add", "sub", "mul", "or", "and", "xor", "store", "shl")
                             for o in J.ops if o[0] == "i"}
        return I.i in self._counted

    def bool_val(self, p, o):
        """[(lin, path)]: booleans become 0/1 cases"""
        v = p.env.get(o[1]) if o[0] == "i" else None
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "cond":
            return [(lin(int(w)), q) for w, q in self.split(p, v[1], v[2])]
        return [(self.val(p, o), p)]

    def term(self, B, p):
        T = B.term
        if T.op == "ret":
            out = []
            for v, q in (self.bool_val(p, T.ops[0]) if T.ops else [(None, p)]):
                q.end = ("ret", v, T)
                out.append((None, q))
            return out
        if T.op == "unreachable":
            p.end = ("exit", T)
            return [(None, p)]
        if T.op == "br":
            if len(T.ops) == 1:
                return [(T.ops[0][1], p)]
            return [(T.ops[2][1] if w else T.ops[1][1], q) for w, q in self.cond(p, T.ops[0])]
        if T.op == "switch":
            v = self.val(p, T.ops[0])
            out, rest = [], [p]
            for k in range(2, len(T.ops), 2):
                nxt = []
                for r in rest:
                    for w, q in self.split(r, ("eq", add(v, lin(T.ops[k][1]), -1))):
                        if w:
                            out.append((T.ops[k + 1][1], q))
                        else:
                            nxt.append(q)
                rest = nxt
            return out + [(T.ops[1][1], r) for r in rest]
        raise AnalysisBroken("terminator " + T.op)

    def callee(self, p, I):
        c = I.callee()
        if not c and "fn" in I.d:
            v = self.val(p, I.d["fn"])
            if v[0] == 0 and len(v[1]) == 1 and v[1][0][0][0] == "g" and v[1][0][0][1] in self.m.funcs:
                return v[1][0][0][1]
        return c

    def readers(self):
        """functions of the program that change nothing"""
        m = self.m
        if not hasattr(m, "_readers"):
            ok = {n for n, f in m.funcs.items() if f.defined and not any(I.op == "store" for I in f.insts())}
            grew = True
            while grew:
                bad = {n for n in ok for I in m.funcs[n].insts() if I.op == "call" and I.callee() not in ok
                       and I.callee() not in PURE and not (I.callee() or "").startswith(("llvm.lifetime", "log_it"))}
                grew = bool(bad)
                ok -= bad
            m._readers = ok
        return m._readers

    def zeroed(self, p, base, n):
        if isconst(n) and 0 < n[0] <= 512:
            for k in range(n[0]):
                p.mem[add(base, lin(k))] = ZERO

    def call(self, p, I):
        c = self.callee(p, I)
        args = tuple(self.val(p, o) if not (o[0] == "i" and isinstance(p.env.get(o[1]), tuple) and len(p.env.get(o[1])) == 3)
                     else atom(("ssa", o[1])) for o in I.ops)
        if c in self.pure:
            a = args[:2] if c in SWAP else args
            if c in SWAP:
                a = tuple(sorted(a, key=repr))
            p.env[I.i] = atom(("pure", c, a, p.epoch if c not in SWAP else 0))
            return False
        fn = c if c else ("ptr", self.val(p, I.d["fn"]))
        n = sum(1 for e in p.events if e[0] == "call" and e[4].i == I.i)
        p.events.append(("call", fn, args, dict(p.mem), I))
        p.env[I.i] = atom(("ret", c or "?", I.i, n)) if c not in ("malloc", "calloc") else atom(("new", I.i, n))
        if c in ("exit", "abort", "_exit"):
            return True
        if c == "calloc" and (isconst(args[0]) or isconst(args[1])):
            self.zeroed(p, p.env[I.i], scale(args[1], args[0][0]) if isconst(args[0]) else scale(args[0], args[1][0]))
        if c and c.startswith("llvm.mem"):
            d = {a for a, _ in args[0][1]}
            if len(d) == 1 and next(iter(d))[0] == "new":
                p.mem = {k: v for k, v in p.mem.items() if not d & {a for a, _ in k[1]}}
                p.epoch += 1
            else:
                self.havoc(p)
            if c.startswith("llvm.memset") and args[1] == ZERO:
                self.zeroed(p, args[0], args[2])
        elif c not in QUIET and c not in self.fresh and c not in self.readers():
            self.havoc(p, self.writes(c))
        p.last[("ret", c or "?", I.i, n)] = p.epoch        # epoch of memory after the call
        return False

    def havoc(self, p, w=None):
        p.epoch += 1
        p.mem = {k: v for k, v in p.mem.items() if self.untouched(p, k, w)} if w is not None else {}
        p.facts = {c: w for c, w in p.facts.items() if not self.mentions_mem(c)}

    def step(self, p, I):
        op = I.op
        if op == "load":
            p.env[I.i] = self.load(p, self.val(p, I.ops[0]), I)
        elif op == "store":
            a = self.val(p, I.ops[1])
            o = I.ops[0]
            v = p.env.get(o[1]) if o[0] == "i" else None
            v = atom(("ssa", o[1])) if isinstance(v, tuple) and len(v) == 3 else self.val(p, o)
            p.mem[a] = v
            p.ty[a] = self.cell(I)
            p.events.append(("store", a, v, None, I))
        elif op == "getelementptr":
            x = add(self.val(p, I.d["base"]), lin(I.d["off"]))
            for v, k in I.d["var"]:
                x = add(x, self.val(p, v), k)
            p.env[I.i] = x
        elif op == "alloca":
            p.env[I.i] = atom(("alloca", I.i))
        elif op in ("add", "sub"):
            p.env[I.i] = add(self.num(p, I.ops[0]), self.num(p, I.ops[1]), 1 if op == "add" else -1)
        elif op == "mul":
            a, b = self.num(p, I.ops[0]), self.num(p, I.ops[1])
            if isconst(a) or isconst(b):
                p.env[I.i] = scale(b, a[0]) if isconst(a) else scale(a, b[0])
            else:
                p.env[I.i] = atom(("mul",) + tuple(sorted((a, b), key=repr)))
        elif op in ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze"):
            o = I.ops[0]
            v = p.env.get(o[1]) if o[0] == "i" else None
            p.env[I.i] = v if isinstance(v, tuple) and len(v) == 3 else self.val(p, o)
        elif op == "icmp":
            pr = I.d["pred"]
            bools = [p.env.get(o[1]) if o[0] == "i" else None for o in I.ops]
            b0 = bools[0]
            if isinstance(b0, tuple) and len(b0) == 3 and I.ops[1][0] == "c" and pr in ("eq", "ne"):
                # comparison of a truth value with 0 or 1
                same = (pr == "eq") == bool(I.ops[1][1])
                p.env[I.i] = ("cond", b0[1], b0[2] == same)
                return
            a, b = self.num(p, I.ops[0]), self.num(p, I.ops[1])
            bits = self.or_parts(add(a, b, -1)) if pr in ("eq", "ne") else None
            if bits:
                # x | y is zero when both are, x ^ y when they are equal
                t = ("cond", ("eq", bits[0]), False)
                for x in bits[1:]:
                    t = ("cond", ("or", t, ("cond", ("eq", x), False)), True)
                p.env[I.i] = ("cond", t[1], t[2] == (pr == "ne"))
            elif pr == "eq":
                p.env[I.i] = ("cond", ("eq", add(a, b, -1)), True)
            elif pr == "ne":
                p.env[I.i] = ("cond", ("eq", add(a, b, -1)), False)
            else:
                if pr[1:] in ("lt", "ge"):
                    p.env[I.i] = ("cond", ("lt", add(a, b, -1)), pr[1:] == "lt")
                else:
                    p.env[I.i] = ("cond", ("lt", add(b, a, -1)), pr[1:] == "gt")
        elif op == "xor" and I.ops[1][0] == "c" and I.ty == "i1":
            v = p.env.get(I.ops[0][1]) if I.ops[0][0] == "i" else None
            if isinstance(v, tuple) and len(v) == 3:
                p.env[I.i] = ("cond", v[1], not v[2])
            else:
                p.env[I.i] = ("cond", ("ne", self.val(p, I.ops[0])), False)
        elif op in ("and", "or") and I.ty == "i1":
            k = [self.truth(p, o) for o in I.ops]
            neg = lambda t: ("cond", t[1], not t[2])
            if None in k:
                p.env[I.i] = atom(("op", op) + tuple(self.num(p, o) for o in I.ops))
            elif op == "or":
                p.env[I.i] = ("cond", ("or", k[0], k[1]), True)
            else:
                p.env[I.i] = ("cond", ("or", neg(k[0]), neg(k[1])), False)
        elif op == "or" and ZERO in (self.num(p, I.ops[0]), self.num(p, I.ops[1])):
            p.env[I.i] = add(self.num(p, I.ops[0]), self.num(p, I.ops[1]))
        elif op in ("fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fptosi", "fpext", "fptrunc", "sdiv", "udiv", "and", "or",
                    "shl", "ashr", "lshr", "srem", "urem", "xor", "fcmp", "fneg", "extractvalue", "insertvalue"):
            p.env[I.i] = atom(("op", op) + tuple(self.num(p, o) for o in I.ops) + ((I.d.get("pred"),) if op == "fcmp" else ()))
        else:
            p.env[I.i] = atom(("ssa", I.i))

    def or_parts(self, d):
        """The numbers that are all zero exactly when d is, where d is an or or exclusive or; else None."""
        if d[0] != 0 or len(d[1]) != 1 or d[1][0][1] not in (1, -1):
            return None
        a = d[1][0][0]
        if a[0] != "op" or len(a) != 4:
            return None
        if a[1] == "xor":
            return [add(a[2], a[3], -1)]
        if a[1] == "or":
            return [y for x in a[2:] for y in self.or_parts(x) or [x]]
        return None

    def truth(self, p, o):
        """Truth value of an i1 operand as ("cond", c, polarity)."""
        v = p.env.get(o[1]) if o[0] == "i" else None
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "cond":
            return v
        return ("cond", ("ne", self.val(p, o)), True)

    def num(self, p, o):
        v = p.env.get(o[1]) if o[0] == "i" else None
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "cond":
            return atom(("bool", v[1], v[2]))
        return self.val(p, o)
