"""Life cycle of one object (heap block, handle, temporary file, content of an owned field) through one function.

For each acquisition site the function is explored over (block, state, names): every path, loops included, with the set
of SSA values and memory cells that hold the object, the values that point into it, and the constants known on the path.
States: N not acquired, M acquired or null, L live, Z null/failed, R released, E handed over."""
import prog
from extract import AnalysisBroken

HEAP = {"malloc": 1, "calloc": 1, "strdup": 1, "strndup": 1, "realloc": 1, "reallocarray": 1}
HANDLE = {"fopen": ("fclose",), "fdopen": ("fclose",), "tmpfile": ("fclose",), "popen": ("pclose",), "opendir": ("closedir",),
          "magic_open": ("magic_close",), "pcre_compile": ("pcre_free", "pcre_free_study"), "mkstemp": ("close", "fclose"),
          "open": ("close",)}
RELEASE = {"free": 0, "realloc": 0, "reallocarray": 0, "fclose": 0, "pclose": 0, "closedir": 0, "magic_close": 0, "pcre_free": 0,
           "close": 0, "unlink": 0, "remove": 0}
SAME = {"strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset", "fgets", "stpcpy"}
INTO = {"strchr", "strrchr", "strstr", "strpbrk", "memchr", "strcasestr", "strtok", "index", "rindex"}
IGNORE = ("llvm.lifetime.", "llvm.dbg.", "llvm.stacksave", "llvm.stackrestore", "llvm.assume")
FDS = {"mkstemp", "open"}


def callee(f, I):
    c = I.callee()
    if c is None and I.d.get("fn", [""])[0] == "i":
        J = f.inst[I.d["fn"][1]]
        if J.op == "load" and J.ops[0][0] == "g":
            return J.ops[0][1]          # a function pointer held in a global variable (pcre_free)
    return c


def key(o):
    return o[1] if o[0] == "i" else ("a", o[1]) if o[0] == "a" else ("g", o[1]) if o[0] == "g" else None


def liveness(f):
    if hasattr(f, "live_in"):
        return f.live_in
    use, defs, phiuse = {}, {}, {}
    for B in f.blocks:
        u, d = set(), set()
        for I in B.insts:
            if I.op == "phi":
                d.add(I.i)
                for v, b in I.d["in"]:
                    if v[0] == "i":
                        phiuse.setdefault(b if isinstance(b, int) else b[1], set()).add(v[1])
                continue
            xs = list(I.ops)
            if I.op == "getelementptr":
                xs += [I.d["base"]] + [v for v, _ in I.d["var"]]
            if I.d.get("fn"):
                xs.append(I.d["fn"])
            for o in xs:
                if o[0] == "i" and o[1] not in d:
                    u.add(o[1])
            d.add(I.i)
        use[B.n], defs[B.n] = u, d
    out = {B.n: set() for B in f.blocks}
    inn = {B.n: set() for B in f.blocks}
    ch = True
    while ch:
        ch = False
        for B in reversed(f.blocks):
            o = set(phiuse.get(B.n, ()))
            for s in B.succs:
                o |= inn[s]
            n = use[B.n] | (o - defs[B.n])
            if o != out[B.n] or n != inn[B.n]:
                out[B.n], inn[B.n], ch = o, n, True
    # phi results of a block are live when it is entered
    for B in f.blocks:
        inn[B.n] = inn[B.n] | {I.i for I in B.insts if I.op == "phi"}
    f.live_in = inn
    return inn


class Cfg:
    __slots__ = ("st", "al", "dv", "env")

    def __init__(self, st, al=frozenset(), dv=frozenset(), env=()):
        self.st, self.al, self.dv, self.env = st, al, dv, dict(env)

    def copy(self, **kw):
        c = Cfg(self.st, self.al, self.dv, self.env)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def key(self):
        return (self.st, self.al, self.dv, frozenset(self.env.items()))


class Life:
    """kinds: ('heap', inst) ('handle', inst, releases) ('param', i) ('field', rootkey, off, name) ('tmp', inst)
    ('value', id): whatever the SSA value refers to, from its definition on"""

    def __init__(self, w, f, kind, limit=60000):
        self.w, self.f, self.kind, self.limit = w, f, kind, limit
        self.live = liveness(f)
        self.viol = {}
        self.exits = set()
        self.returned = False
        self.steps = 0
        self.rel = {"heap": ("free", "realloc", "reallocarray"), "param": None, "field": None, "value": None, "tmp": ("unlink", "remove")}.get(kind[0])
        if kind[0] == "handle":
            self.rel = kind[2]
        self.fd = kind[0] == "handle" and callee(f, kind[1]) in FDS
        self.headoff = {}
        self.run()

    def bad(self, what, I, msg):
        self.viol.setdefault((what, I.i), (I, msg))

    # -- addresses
    def addr(self, o):
        """(root key, offset) or None"""
        off = 0
        while o[0] == "i":
            I = self.f.inst[o[1]]
            if I.op == "getelementptr" and not I.d["var"]:
                off += I.d["off"]
                o = I.d["base"]
            elif I.op == "getelementptr":
                return None
            else:
                break
        if o[0] == "g":
            return (("g", o[1]), off + (o[2] if len(o) > 2 else 0))
        k = key(o)
        return (k, off) if k is not None else None

    def base(self, o):
        while o[0] == "i" and self.f.inst[o[1]].op == "getelementptr":
            o = self.f.inst[o[1]].d["base"]
        return o

    def points(self, c, o):
        """does the operand point to or into the object"""
        k = key(self.base(o))
        return k is not None and (k in c.al or k in c.dv)

    def const(self, c, o):
        if o[0] == "c":
            return o[1]
        if o[0] == "n":
            return 0
        if o[0] == "i":
            x = c.env.get(o[1])
            return None if x == "nn" else x
        return None

    def is_alloca(self, k):
        return isinstance(k, int) and self.f.inst[k].op == "alloca"

    # -- run
    def run(self):
        k = self.kind
        if k[0] == "param":
            c = Cfg("L", frozenset([("a", k[1])]))
        elif k[0] == "field" and not isinstance(k[1], int):
            c = Cfg("M", frozenset([("c", k[1], k[2])]))
        else:
            c = Cfg("N")
        seen = set()
        todo = [(0, None, c)]
        while todo:
            n, frm, c = todo.pop()
            c = self.enter(n, frm, c)
            if c is None:
                continue
            kk = (n, c.key())
            if kk in seen:
                continue
            seen.add(kk)
            self.steps += 1
            if self.steps > self.limit:
                raise AnalysisBroken("too many cases following an object through " + self.f.name)
            for t, c2 in self.block(n, c):
                todo.append((t, n, c2))

    def enter(self, n, frm, c):
        B = self.f.blocks[n]
        if frm is not None:
            al, dv, env = set(c.al), set(c.dv), dict(c.env)
            st = c.st
            newal, newdv, newenv, phis = set(), set(), {}, set()
            for I in B.insts:
                if I.op != "phi":
                    break
                phis.add(I.i)
                v = next((v for v, b in I.d["in"] if (b if isinstance(b, int) else b[1]) == frm), None)
                if v is None:
                    continue
                k = key(v)
                if k is not None and k in c.al:
                    newal.add(I.i)
                elif k is not None and k in c.dv:
                    newdv.add(I.i)
                elif v[0] == "i" and self.f.inst[v[1]].op == "getelementptr" and self.points(c, v):
                    newdv.add(I.i)
                x = c.env.get(v[1]) if v[0] == "i" else self.const(c, v)
                if x is not None:
                    newenv[I.i] = x
            if phis:
                al = {a for a in al if a not in phis and not (isinstance(a, tuple) and a[0] == "c" and a[1] in phis)} | newal
                dv = (dv - phis) | newdv
                for p in phis:
                    env.pop(p, None)
                env.update(newenv)
                if self.kind[0] == "field" and self.kind[1] in phis:
                    v = next((v for I in B.insts if I.i == self.kind[1] for v, b in I.d["in"]
                              if (b if isinstance(b, int) else b[1]) == frm), None)
                    st, al, dv = self.start(c, v), {("c", self.kind[1], self.kind[2])}, set()
                if self.kind[0] == "value" and self.kind[1] in phis:
                    st, al, dv = "M", {self.kind[1]}, set()
            lv = self.live[n]
            al = {a for a in al if not isinstance(a, int) or a in lv or self.used_gep(a, lv)}
            dv = {a for a in dv if a in lv}
            env = {a: x for a, x in env.items() if a in lv or isinstance(a, tuple)}
            c = Cfg(st, frozenset(al), frozenset(dv), env)
        return c

    def start(self, c, v):
        """what the field holds when its record is the value v: nothing in a new record or in an empty list"""
        k = key(v) if v is not None else None
        return "Z" if k is not None and (("new", k) in c.env or ("emp", k) in c.env) else "M"

    def used_gep(self, a, lv):
        return False

    def block(self, n, c):
        B = self.f.blocks[n]
        cur = [c]
        for I in B.insts:
            if I.op == "phi":
                continue
            if I.op in ("br", "switch", "ret", "unreachable"):
                break
            nxt = []
            for c in cur:
                nxt += self.step(I, c)
            cur = nxt
        T = B.term
        out = []
        for c in cur:
            if T.op == "ret":
                self.ret(T, c)
            elif T.op == "br":
                bs = [o[1] for o in T.ops if o[0] == "b"]
                if len(bs) == 1:
                    out.append((bs[0], c))
                else:
                    # irx writes operands in LLVM order: condition, false target, true target
                    cond = T.ops[0]
                    x = self.const(c, cond)
                    tb, fb = bs[1], bs[0]
                    if x is None:
                        for v, t in ((1, tb), (0, fb)):
                            c2 = c.copy()
                            if cond[0] == "i":
                                c2.env[cond[1]] = v
                            out.append((t, c2))
                    else:
                        out.append((tb if x else fb, c))
            elif T.op == "switch":
                x = self.const(c, T.ops[0])
                bs = T.ops[1:]
                dflt, cases = bs[0][1], [(bs[k][1], bs[k + 1][1]) for k in range(1, len(bs) - 1, 2)]
                if x is not None:
                    out.append((dict(cases).get(x, dflt), c))
                else:
                    for t in dict.fromkeys([dflt] + [t for _, t in cases]):
                        out.append((t, c.copy()))
        return out

    def define(self, I, c):
        """forget what an earlier execution of I meant"""
        i = I.i
        if i in c.al or i in c.dv or i in c.env or any(isinstance(a, tuple) and a[0] == "c" and a[1] == i for a in c.al):
            c = c.copy(al=frozenset(a for a in c.al if a != i and not (isinstance(a, tuple) and a[0] == "c" and a[1] == i)),
                       dv=c.dv - {i})
            c.env.pop(i, None)
        return c

    def step(self, I, c):
        op = I.op
        site = self.kind[0] in ("heap", "handle", "tmp") and I is self.kind[1]
        if op == "call":
            return self.call(I, c, site)
        c = self.define(I, c)
        if self.kind[0] == "field" and self.kind[1] == I.i and op != "select":
            a = self.addr(I.ops[0]) if op == "load" else None
            if a is not None and self.w.is_head(self.f, a) and ("emp", a[0]) in c.env:
                # the first record of a list that was empty when the function was entered
                return [c.copy(st="Z", al=frozenset([("c", I.i, self.kind[2])]), dv=frozenset())]
            return [c.copy(st="M", al=frozenset([("c", I.i, self.kind[2])]), dv=frozenset())]
        if self.kind[0] == "value" and self.kind[1] == I.i:
            if op == "load":
                self.load(I, c)
            return [c.copy(st="M", al=frozenset([I.i]), dv=frozenset())]
        if op == "load":
            return self.load(I, c)
        if op == "store":
            return self.store(I, c)
        if op == "icmp":
            return self.icmp(I, c)
        if op == "getelementptr":
            k = key(I.d["base"])
            if k is not None and (k in c.al or k in c.dv):
                z = not I.d["var"] and I.d["off"] == 0 and k in c.al
                return [c.copy(al=c.al | {I.i})] if z else [c.copy(dv=c.dv | {I.i})]
            return [c]
        if op == "select":
            x = self.const(c, I.ops[0])
            out = []
            for v, o in ((1, I.ops[1]), (0, I.ops[2])):
                if x is not None and bool(x) != bool(v):
                    continue
                c2 = c.copy()
                if x is None and I.ops[0][0] == "i":
                    c2.env[I.ops[0][1]] = v
                if self.kind[0] == "field" and self.kind[1] == I.i:
                    out.append(c2.copy(st=self.start(c2, o), al=frozenset([("c", I.i, self.kind[2])]), dv=frozenset()))
                    continue
                out.append(self.assign(I, c2, o))
            return out
        if op in ("bitcast", "freeze"):
            return [self.assign(I, c, I.ops[0])]
        if op in ("zext", "sext", "trunc", "xor", "and", "or"):
            if op in ("sext", "zext", "trunc") and key(I.ops[0]) in c.al and self.fd:
                return [self.assign(I, c, I.ops[0])]
            xs = [self.const(c, o) for o in I.ops]
            v = None
            if op in ("zext", "sext", "trunc"):
                v = xs[0]
                if v is not None and op == "zext" and v < 0:
                    v = 1 if I.d.get("sty") == "i1" else None
            elif op == "xor" and None not in xs:
                v = xs[0] ^ xs[1]
            elif op == "and":
                v = 0 if 0 in xs else (xs[0] & xs[1] if None not in xs else None)
            elif op == "or":
                v = xs[0] | xs[1] if None not in xs else None
            if v is not None:
                if I.ty == "i1":
                    v &= 1
                c = c.copy()
                c.env[I.i] = v
            return [c]
        return [c]

    def assign(self, I, c, o):
        k = key(o)
        if k is not None and k in c.al:
            return c.copy(al=c.al | {I.i})
        if k is not None and k in c.dv:
            return c.copy(dv=c.dv | {I.i})
        x = self.const(c, o)
        if x is not None:
            c = c.copy()
            c.env[I.i] = x
        return c

    def touch(self, I, c, o, what):
        if c.st == "R" and self.points(c, o):
            self.bad("use-after-release", I, "%s after it was released" % what)

    def load(self, I, c):
        o = I.ops[0]
        self.touch(I, c, o, "the object is read")
        a = self.addr(o)
        if a is None:
            return [c]
        if ("c",) + a in c.al:
            return [c.copy(al=c.al | {I.i})]
        if self.kind[0] == "field" and self.w.is_head(self.f, a) and ("emp", a[0]) not in c.env:
            # an empty list (no head) has no contents
            c1, c2 = c.copy(st="Z" if a[0] == self.kind[1] and c.st == "M" else c.st), c.copy()
            c1.env[I.i] = 0
            c1.env[("emp", a[0])] = 1
            c2.env[I.i] = "nn"
            return [c1, c2]
        # the head of a list is the list itself (or nothing when empty)
        if a[0] in c.al and self.w.is_head(self.f, a) and c.st in "LM":
            c2 = c.copy()
            c2.env[I.i] = 0
            return [c.copy(al=c.al | {I.i}), c2]
        return [c]

    def store(self, I, c):
        v, p = I.ops[0], I.ops[1]
        self.touch(I, c, p, "the object is written")
        a = self.addr(p)
        k = key(v)
        cell = ("c",) + a if a else None
        holds = k is not None and k in c.al
        if self.kind[0] == "field" and a is not None and a[1] == self.kind[2] and v[0] != "n" and \
                self.w.cell_type(self.f, cell) == (self.kind[3].split(".")[0], self.kind[2]):
            gone = [x for x in c.env if isinstance(x, tuple) and x[0] == "new"]
            if gone:
                c = c.copy()
                for x in gone:
                    c.env.pop(x)
        if cell is not None and cell in c.al and not holds:
            if self.kind[0] == "field" and cell == ("c",) + tuple(self.kind[1:3]):
                if c.st in "ML" and not any(x != cell and isinstance(x, tuple) and x[0] == "c" for x in c.al):
                    # still held by a local value: judged when that one is gone
                    self.lost(I, c, cell)
                return [c.copy(al=c.al - {cell})]
            c = c.copy(al=c.al - {cell})
        if holds:
            if cell is None:
                return [c.copy(st="E" if c.st in "LM" else c.st)]
            root = a[0]
            if self.is_alloca(root):
                return [c.copy(al=c.al | {cell})]
            if isinstance(root, tuple) and root[0] == "g":
                return [c.copy(al=c.al | {cell})]
            if root in c.al:
                return [c]          # a pointer to itself inside the object
            return [c.copy(st="E" if c.st in "LM" else c.st, al=c.al | {cell})]
        return [c]

    def lost(self, I, c, cell):
        """The field is overwritten while its content is live: fine only if a local name releases it later."""
        names = {x for x in c.al if x != cell}
        if not names:
            self.bad("overwritten", I, "%s is overwritten without releasing what it held" % self.what())

    def what(self):
        return self.kind[3] if self.kind[0] == "field" else "the object"

    def icmp(self, I, c):
        x, y = I.ops
        a, b = self.const(c, x), self.const(c, y)
        p = I.d["pred"]
        if a is not None and b is not None:
            r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b,
                 "ult": (a % 2**64) < (b % 2**64), "ule": (a % 2**64) <= (b % 2**64), "ugt": (a % 2**64) > (b % 2**64),
                 "uge": (a % 2**64) >= (b % 2**64)}.get(p)
            if r is not None:
                c = c.copy()
                c.env[I.i] = int(r)
            return [c]
        for u, v, q in ((x, b, p), (y, a, {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(p, p))):
            k = key(u)
            if v is None or k is None or k not in c.al:
                continue
            null = None          # outcome of the comparison when acquisition failed
            if self.fd:
                null = {("eq", -1): 1, ("ne", -1): 0, ("slt", 0): 1, ("sgt", -1): 0, ("sge", 0): 0, ("sle", -1): 1}.get((q, v))
            elif v == 0:
                null = {"eq": 1, "ne": 0}.get(q)
            if null is None:
                continue
            out = []
            if c.st in "MZN":
                z = c.copy(st="Z")
                z.env[I.i] = null
                out.append(z)
            if c.st != "Z":
                z = c.copy(st="L" if c.st == "M" else c.st)
                z.env[I.i] = 1 - null
                out.append(z)
            return out
        if p in ("eq", "ne") and (a == 0 or b == 0) and c.env.get(key(x if b == 0 else y)) == "nn":
            c = c.copy()
            c.env[I.i] = int(p == "ne")
            return [c]
        if p in ("eq", "ne") and (a == 0 or b == 0):
            # an interior pointer is not null
            u = x if b == 0 else y
            if key(u) in c.dv and self.derived_nonnull(u):
                c = c.copy()
                c.env[I.i] = int(p == "ne")
                return [c]
        return [c]

    def derived_nonnull(self, o):
        return o[0] == "i" and self.f.inst[o[1]].op == "getelementptr"

    def call(self, I, c, site):
        n = callee(self.f, I) or "?"
        if n.startswith(IGNORE):
            return [c]
        args = I.ops
        outs = [c]
        # what the call does to the object
        hit = [k for k, o in enumerate(args) if key(o) is not None and (key(o) in c.al)]
        inner = [k for k, o in enumerate(args) if k not in hit and o[0] in "ia" and self.points(c, o)]
        if c.st == "R" and (hit or inner):
            k = (hit or inner)[0]
            if self.kind[0] == "tmp" and n not in self.rel:
                pass
            elif n in RELEASE and RELEASE[n] == k and hit:
                self.bad("double-release", I, "%s is released again by %s" % (self.what(), n))
            else:
                self.bad("use-after-release", I, "%s is passed to %s after it was released" % (self.what(), n))
        elif hit:
            outs = []
            for c1 in [c]:
                outs += self.consume(I, n, hit, c1)
        elif inner and n in ("free", "realloc"):
            self.bad("release-inside", I, "%s is given a pointer into the object, not to its start" % n)
        # releasing a container: its owned fields must have been dealt with
        if n == "free" and args and key(args[0]) is not None:
            r = key(args[0])
            new = []
            for c1 in outs:
                if self.kind[0] == "field" and self.kind[1] == r and ("c", r, self.kind[2]) in c1.al and c1.st in "ML" \
                        and not self.transferred(c1, r):
                    self.bad("leak", I, "%s is still held when the record itself is freed" % self.what())
                new.append(c1.copy(al=frozenset(a for a in c1.al if not (isinstance(a, tuple) and a[0] == "c" and a[1] == r))))
            outs = new
        res = []
        for c1 in outs:
            c1 = self.define(I, c1)
            # fields the callee may rewrite
            mod = self.w.mods(n)
            if self.kind[0] == "field":
                s = self.kind[3].split(".")[0]
                if any(t == (s, self.kind[2]) for t in mod):
                    c1 = c1.copy()
                    for a in [a for a in c1.env if isinstance(a, tuple) and a[0] == "new"]:
                        c1.env.pop(a)
                if self.w.blank(n, s, self.kind[2]):
                    c1 = c1.copy()
                    c1.env[("new", I.i)] = 1
            if mod and c1.al:
                drop = {a for a in c1.al if isinstance(a, tuple) and a[0] == "c" and self.w.cell_type(self.f, a) in mod}
                if drop:
                    mine = ("c",) + tuple(self.kind[1:3]) if self.kind[0] == "field" else None
                    if mine in drop:
                        c1 = c1.copy(st="M", al=frozenset([mine]), dv=frozenset())
                    else:
                        c1 = c1.copy(al=c1.al - drop)
            if self.kind[0] == "field" and self.kind[1] == I.i:
                res.append(c1.copy(st="M", al=frozenset([("c", I.i, self.kind[2])]), dv=frozenset()))
                continue
            if self.kind[0] == "value" and self.kind[1] == I.i:
                res.append(c1.copy(st="M", al=frozenset([I.i]), dv=frozenset()))
                continue
            if site:
                if c1.st in "LM" and self.kind[0] != "tmp":
                    self.bad("leak", I, "the previous %s is lost when the next one is made" % self.noun())
                al = {I.i}
                if self.kind[0] == "tmp":
                    al = {a for a in [key(args[0])] if a is not None} | {a for a in c1.al}
                    # every name of the path
                    al |= self.names_of(args[0])
                st = "M" if self.kind[0] == "handle" else "L"
                res.append(c1.copy(st=st, al=frozenset(al), dv=frozenset()))
                continue
            if args and n in SAME and key(args[0]) in c1.al:
                c1 = c1.copy(al=c1.al | {I.i})
            elif args and n in SAME | INTO and self.points(c1, args[0]):
                c1 = c1.copy(dv=c1.dv | {I.i})
            res.append(c1)
        return res

    def names_of(self, o):
        """cells of the frame that hold the operand (a path kept in a local variable that is not in a register)"""
        return set()

    def noun(self):
        return "allocation" if self.kind[0] == "heap" else "handle"

    def transferred(self, c, r):
        return any(isinstance(a, tuple) and a[0] == "c" and a[1] != r for a in c.al)

    def consume(self, I, n, hit, c):
        if n in RELEASE and RELEASE[n] in hit:
            if self.kind[0] == "tmp":
                if n in self.rel:
                    return [c.copy(st="R")]
                return [c]
            if self.kind[0] in ("param", "field", "value"):
                if n == "unlink" or n == "remove" or n == "close":
                    return [c]
                return [c.copy(st="R")]
            if n in ("unlink", "remove"):
                return [c]
            if n not in self.rel:
                self.bad("wrong-release", I, "%s is released by %s" % (self.what(), n))
            if c.st == "M" and self.kind[0] == "handle" and n not in ("pcre_free", "free"):
                self.bad("unchecked", I, "a handle that may not have been opened is passed to %s" % n)
            return [c.copy(st="R")]
        if c.st in "MZ" and self.kind[0] == "handle" and n not in ("pcre_exec", "pcre_study", "printf", "fprintf", "magic_error"):
            self.bad("unchecked", I, "a handle that may not have been opened is passed to %s" % n)
        # functions of the program
        s = self.w.summary(n)
        if s is None:
            return [c]
        res = {"L"}
        for k in hit:
            if k in s:
                res = s[k]
                break
        out = []
        for r in sorted(res):
            if r == "L":
                out.append(c)
            elif r == "R":
                out.append(c.copy(st="R"))
            else:
                out.append(c.copy(st="E" if c.st in "LM" else c.st))
        return out

    def ret(self, T, c):
        v = T.ops[0] if T.ops else None
        back = v is not None and key(v) is not None and (key(v) in c.al or self.points(c, v))
        st = c.st
        if back and st in "LM":
            self.returned = True
            st = "E"
        held = [a for a in c.al if isinstance(a, tuple) and a[0] == "c" and not self.is_alloca(a[1])]
        if st in "LM" and any(isinstance(a[1], tuple) and a[1][0] == "g" for a in held):
            gs = {a[1][1] for a in held if isinstance(a[1], tuple) and a[1][0] == "g"}
            if self.kind[0] == "heap" and len(gs) == len(held) and not self.w.keeps(self.f, gs):
                self.bad("leak", T, "an allocation is kept in %s only, which nothing frees" % ", ".join(sorted(gs)))
            st = "E"
        if back and st == "R":
            self.bad("use-after-release", T, "the released object is returned")
        if st in "LM" and self.kind[0] in ("heap", "handle", "tmp"):
            self.bad("leak", T, "%s is neither released nor handed over on a path to here" % self.noun())
        if st == "R" and held and self.kind[0] != "tmp":
            a = held[0]
            if not (isinstance(a[1], tuple) and a[1][0] == "g" and self.kind[0] in ("heap", "value")):
                self.bad("dangling", T, "a released object is still referred to by %s" % self.w.cell_name(self.f, a))
        self.exits.add(st)


class World:
    def __init__(self, m):
        self.m = m
        self.roots = [n for n in prog.roots(m)]
        self.heads = {}
        for s, fs in m.structs.items():
            for n, off, ty in fs:
                if n == "head" and ty == s + "*":
                    self.heads[s] = off
        self.summ = {}
        self._mods = None
        self._fresh = None
        self._blank = {}
        self._types = {}

    # -- types
    def typeof(self, f, o):
        """struct name the operand points to, or None"""
        k = (f.name, key(o))
        if k[1] is None:
            return None
        if k not in self._types:
            # declared types first; structure types of the same shape are merged when modules are linked
            self._types[k] = self._typeof(f, o, (), False) or self._typeof(f, o, (), True)
        return self._types[k]

    def _typeof(self, f, o, seen, weak):
        k = (f.name, key(o))
        if k[1] is None or k in seen:
            return None
        seen += (k,)
        r = None
        if o[0] == "a":
            ps = f.d.get("params", [])
            r = ps[o[1]] if o[1] < len(ps) else None
            r = r[:-1] if r and r.endswith("*") else None
        elif o[0] == "i":
            I = f.inst[o[1]]
            if I.op == "call":
                c = I.callee()
                g = self.m.funcs.get(c) if c else None
                t = g.d.get("rety") if g else None
                r = t[:-1] if t and t.endswith("*") else None
            elif I.op == "load":
                a = I.ops[0]
                if a[0] == "i" and f.inst[a[1]].op == "getelementptr":
                    G = f.inst[a[1]]
                    s = self._gep(f, G, seen, weak)
                    r = self.member(s, G.d["off"])
                else:
                    s = self._typeof(f, a, seen, weak)
                    r = self.member(s, 0)
            elif I.op in ("phi", "select"):
                xs = [v for v, _ in I.d["in"]] if I.op == "phi" else I.ops[1:]
                for v in xs:
                    r = r or self._typeof(f, v, seen, weak)
            if r not in self.m.structs and self.alias(r) is None:
                if any(T.op == "ret" and T.ops and T.ops[0] == o for T in f.insts()):
                    t = f.d.get("rety")
                    r = t[:-1] if t and t.endswith("*") else r
            if weak and r not in self.m.structs and self.alias(r) is None:
                # how it is used
                for G in f.insts():
                    if G.op == "getelementptr" and G.d["base"] == o and not G.d["var"] and G.d["sty"].startswith("struct."):
                        r = G.d["sty"][7:]
                        break
                else:
                    for G in f.insts():
                        # the field of a known record it is put in
                        if G.op == "store" and G.ops[0] == o and G.ops[1][0] == "i" and f.inst[G.ops[1][1]].op == "getelementptr":
                            H = f.inst[G.ops[1][1]]
                            r = self.member(self._gep(f, H, seen, weak), H.d["off"])
                            if r:
                                break
        if r not in self.m.structs:
            r = self.alias(r)
        return r

    def alias(self, r):
        if r is None:
            return None
        for s in (r + "Item", r):
            if s in self.m.structs:
                return s
        return None

    def gep_struct(self, f, G):
        return self._gep(f, G, (), False) or self._gep(f, G, (), True)

    def _gep(self, f, G, seen, weak):
        t = self._typeof(f, G.d["base"], seen, weak)
        if weak and t is None and G.d["sty"].startswith("struct."):
            t = G.d["sty"][7:] if G.d["sty"][7:] in self.m.structs else self.alias(G.d["sty"][7:])
        return t

    def member(self, s, off):
        for n, o, ty in self.m.structs.get(s, ()):
            if o == off:
                return ty[:-1] if ty.endswith("*") else None
        return None

    def root_type(self, f, rk):
        if isinstance(rk, int):
            return self.typeof(f, ["i", rk])
        if rk[0] == "a":
            return self.typeof(f, ["a", rk[1]])
        return None

    def is_head(self, f, a):
        s = self.root_type(f, a[0])
        return s in self.heads and self.heads[s] == a[1]

    def cell_type(self, f, a):
        if isinstance(a[1], tuple) and a[1][0] == "g":
            return ("g", a[1][1])
        return (self.root_type(f, a[1]), a[2])

    def cell_name(self, f, a):
        s, off = self.root_type(f, a[1]), a[2]
        if s is None:
            return "global %s" % a[1][1] if isinstance(a[1], tuple) else "memory"
        return "%s.%s" % (s, next((n for n, o, _ in self.m.structs[s] if o == off), off))

    def keeps(self, f, gs):
        """may one of the globals keep an object: it is filled once, or it is a chain that a function walks to free it"""
        for I in f.insts():
            if I.op == "icmp" and any(o[0] == "i" and f.inst[o[1]].op == "load" and f.inst[o[1]].ops[0][0] == "g" and
                                      f.inst[o[1]].ops[0][1] in gs for o in I.ops) and any(o[0] == "n" for o in I.ops):
                return True
        for n in self.roots:
            h = self.m.funcs[n]
            for _, i in self.values(h):
                P = h.inst[i]
                if P.op == "phi" and any(v[0] == "i" and h.inst[v[1]].op == "load" and h.inst[v[1]].ops[0][0] == "g" and
                                         h.inst[v[1]].ops[0][1] in gs for v, _ in P.d["in"]):
                    return True
        return False

    # -- effects
    def mods(self, n):
        if self._mods is None:
            self.fresh()
            d, calls = {}, {}
            taken = {x for x in prog.taken(self.m) if self.m.funcs[x].defined}
            for x, f in self.m.funcs.items():
                if not f.defined:
                    continue
                s, cs = set(), set()
                for I in f.insts():
                    if I.op == "store":
                        o, off = I.ops[1], 0
                        r = o
                        while r[0] == "i" and f.inst[r[1]].op == "getelementptr":
                            r = f.inst[r[1]].d["base"]
                        if r[0] == "i" and f.inst[r[1]].op == "call" and self.new_value(f, r):
                            continue        # a record nobody else has seen yet
                        if o[0] == "g":
                            s.add(("g", o[1]))
                        elif o[0] == "i" and f.inst[o[1]].op == "getelementptr":
                            G = f.inst[o[1]]
                            b = G.d["base"]
                            if b[0] == "g":
                                s.add(("g", b[1]))
                            else:
                                s.add((self.gep_struct(f, G), G.d["off"]))
                        else:
                            s.add((self.typeof(f, o), 0))
                    elif I.op == "call":
                        c = I.callee()
                        if c in self.m.funcs and self.m.funcs[c].defined:
                            cs.add(c)
                        elif c is None:
                            cs |= {x for x in taken if len(self.m.funcs[x].d.get("argty", ())) == len(I.ops)
                                   and self.m.funcs[x].d.get("ret") == I.ty}
                        cs |= {o[1] for o in I.ops if o[0] == "g" and o[1] in taken}
                d[x], calls[x] = s, cs
            ch = True
            while ch:
                ch = False
                for x in d:
                    for c in calls[x]:
                        if not d[c] <= d[x]:
                            d[x] |= d[c]
                            ch = True
            self._mods = d
        return self._mods.get(n, ())

    # -- who returns a new object, who keeps or frees an argument
    def fresh(self):
        if self._fresh is None:
            self._fresh = set()
            ch = True
            while ch:
                ch = False
                for n in self.roots:
                    f = self.m.funcs[n]
                    if n in self._fresh or f.d.get("ret") != "ptr":
                        continue
                    rs = [I.ops[0] for I in f.insts() if I.op == "ret" and I.ops]
                    if rs and all(self.new_value(f, o) for o in rs) and any(o[0] == "i" for o in rs):
                        # not also kept elsewhere
                        self._fresh.add(n)
                        ch = True
        return self._fresh

    def blank(self, n, s, off):
        """n returns a new record of type s whose field at off holds nothing yet"""
        if n == "calloc":
            return True
        k = (n, s, off)
        if k not in self._blank:
            f = self.m.funcs.get(n)
            ok = n in self.fresh() and f is not None and f.defined
            if ok:
                cs = [callee(f, I) for I in f.insts() if I.op == "call"]
                ok = not any((s, off) in self.mods(c) for c in cs if c) and any(c in HEAP for c in cs)
                ss = [c for x, I, c in self.field_stores().get((s, off), ()) if x == n]
                ok = ok and all(c == "null" for c in ss) and (bool(ss) or any(
                    c == "calloc" or (c or "").startswith(("memset", "llvm.memset")) for c in cs))
            self._blank[k] = ok
        return self._blank[k]

    def new_value(self, f, o, seen=()):
        if o[0] == "n":
            return True
        if o[0] != "i" or o[1] in seen:
            return o[0] == "i"
        I = f.inst[o[1]]
        if I.op == "call":
            c = callee(f, I)
            return c in HEAP or c in self._fresh
        if I.op == "phi":
            return all(self.new_value(f, v, seen + (o[1],)) for v, _ in I.d["in"])
        if I.op == "select":
            return all(self.new_value(f, v, seen + (o[1],)) for v in I.ops[1:])
        return False

    def summary(self, n):
        f = self.m.funcs.get(n)
        if f is None or not f.defined:
            return None
        if n not in self.summ:
            self.summ[n] = {}
            ps = [i for i, t in enumerate(f.d.get("argty", [])) if t == "ptr"]
            self.summ[n] = {i: {"L"} for i in ps}
            for _ in range(4):
                new = {}
                for i in ps:
                    L = Life(self, f, ("param", i))
                    new[i] = {"R" if s == "R" else "E" if s == "E" else "L" for s in L.exits if s in "RELM"} or {"L"}
                    if L.returned:
                        new[i] = new[i] - {"E"} | {"L"}
                if new == self.summ[n]:
                    break
                self.summ[n] = new
        return self.summ[n]

    def sites(self, f):
        """acquisitions in a function"""
        out = []
        for I in f.insts():
            if I.op != "call":
                continue
            c = callee(f, I)
            if c in HEAP or c in self.fresh():
                out.append(("heap", I))
            elif c in HANDLE:
                out.append(("handle", I, HANDLE[c]))
                if c == "mkstemp":
                    out.append(("tmp", I))
        return out

    def values(self, f):
        """values that are released here although they were not acquired here"""
        out = set()
        for I in f.insts():
            if I.op != "call":
                continue
            n = callee(f, I)
            if n in RELEASE and n not in ("unlink", "remove", "close"):
                ks = [RELEASE[n]]
            else:
                g = self.m.funcs.get(n)
                if g is None or not g.defined:
                    continue
                ks = [k for k, r in self.summary(n).items() if "R" in r]
            for k in ks:
                if k < len(I.ops) and I.ops[k][0] == "i":
                    J = f.inst[I.ops[k][1]]
                    if not (J.op == "call" and (callee(f, J) in HEAP or callee(f, J) in HANDLE or callee(f, J) in self.fresh())):
                        out.add(J.i)
        return [("value", i) for i in sorted(out)]

    def fields(self, f):
        """owned fields this function empties, fills or frees the record of"""
        own = self.owned()
        roots = set()
        for I in f.insts():
            if I.op == "call" and I.callee() == "free" and key(I.ops[0]) is not None:
                roots.add(key(I.ops[0]))
            elif I.op in ("store", "load"):
                o = I.ops[1] if I.op == "store" else I.ops[0]
                while o[0] == "i" and f.inst[o[1]].op == "getelementptr" and not f.inst[o[1]].d["var"]:
                    o = f.inst[o[1]].d["base"]
                k = key(o)
                if I.op == "store" and k is not None and not (isinstance(k, tuple) and k[0] == "g"):
                    roots.add(k)
        out = []
        for r in sorted(roots, key=repr):
            if isinstance(r, tuple) and r[0] == "g":
                continue
            if isinstance(r, int) and self.new_value(f, ["i", r]):
                continue
            t = self.root_type(f, r)
            for (s, off) in sorted(own):
                if s == t:
                    out.append(("field", r, off, "%s.%s" % (s, next(n for n, o, _ in self.m.structs[s] if o == off))))
        return out

    def field_stores(self):
        """{(struct, off): [(fn, inst, class)]} for pointer stores into records; class fresh / null / other"""
        self.fresh()
        out = {}
        for n in self.roots:
            f = self.m.funcs[n]
            for I in f.insts():
                if I.op != "store" or I.d.get("sz") != 8:
                    continue
                o = I.ops[1]
                if o[0] == "i" and f.inst[o[1]].op == "getelementptr":
                    G = f.inst[o[1]]
                    if G.d["var"]:
                        continue
                    t = (self.gep_struct(f, G), G.d["off"])
                elif o[0] in "ia":
                    t = (self.typeof(f, o), 0)
                else:
                    continue
                if t[0] is None or (ty := self.field_type(*t)) is None or not ty.endswith("*"):
                    continue
                v = I.ops[0]
                c = "null" if v[0] == "n" else "fresh" if self.new_value(f, v) else "other"
                out.setdefault(t, []).append((n, I, c))
        return out

    def field_type(self, s, off):
        return next((ty for n, o, ty in self.m.structs.get(s, ()) if o == off), None)

    def owned(self):
        """Fields whose content belongs to the record: they are given new objects and never point into something else."""
        own = {}
        for t, ss in self.field_stores().items():
            cs = {c for _, _, c in ss}
            ty = self.field_type(*t)[:-1]
            if "fresh" in cs and ty != t[0] and self.alias(ty) != t[0] and not self.moves(ss):
                own[t] = ss
        return own

    def moves(self, ss):
        """some store moves the pointer along"""
        for n, I, c in ss:
            f = self.m.funcs[n]
            v = I.ops[0]
            if v[0] == "i" and f.inst[v[1]].op == "getelementptr":
                return True
        return False
