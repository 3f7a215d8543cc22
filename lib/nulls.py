"""Missing values: what happens when a value that may be null is null.

For each source of a possibly null value (a call that can answer null, a field that can be empty) the function is explored
with that value null: constants, outcomes of null tests and the contents of record fields are followed on every path, and
any use of the null value that needs an object is reported."""
import prog, life
from life import key, callee, liveness, HEAP, IGNORE
from extract import AnalysisBroken

# library functions that can answer null
LIBNULL = {"strchr", "strrchr", "strstr", "strcasestr", "strpbrk", "memchr", "strtok", "fgets", "getenv", "fopen", "fdopen", "popen",
           "opendir", "readdir", "magic_open", "magic_file", "magic_buffer", "pcre_study", "tmpfile", "index", "rindex"}
# and those that accept null arguments {name: positions, None = all}
ACCEPT = {"free": None, "realloc": None, "strtok": {0}, "magic_load": {1}, "magic_error": None, "magic_close": None,
          "pcre_exec": None, "pcre_free": None, "pcre_compile": None, "time": None, "setlocale": None, "exit": None, "printf": {},
          "fprintf": {}, "sprintf": {}, "snprintf": {}, "log_it": {}, "fclose": {}, "strtol": {1}, "strtoul": {1}, "qsort": None,
          "pcre_study": None}
FORMAT = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2}


class St:
    __slots__ = ("al", "dv", "env", "on")

    def __init__(self, al=frozenset(), dv=frozenset(), env=None, on=False):
        self.al, self.dv, self.env, self.on = al, dv, env or {}, on

    def copy(self):
        return St(self.al, self.dv, dict(self.env), self.on)

    def key(self):
        return (self.al, self.dv, self.on, frozenset(self.env.items()))


def cellkey(k):
    return isinstance(k, tuple) and k[0] in ("m", "v", "lk")


class Null:
    """seed: instruction id, ('a', i), or None (only collect what holds when the function returns)"""

    def __init__(self, nw, f, seed, limit=6000):
        self.nw, self.w, self.f, self.seed, self.limit = nw, nw.w, f, seed, limit
        self.live = liveness(f)
        self.viol = {}
        self.rets = []            # (returned-value class, cell facts about parameters)
        self.steps = 0
        self.merged = seed is None
        self.facts = nw.entry(f)
        self.seen_calls = {}
        if self.merged or not self.run():
            self.merged = True
            self.viol, self.rets = {}, []
            self.join()

    def bad(self, I, msg):
        self.viol.setdefault(I.i, (I, msg))

    # -- values
    def canon(self, s, o):
        k = key(o)
        n = 0
        while k is not None and ("v", k) in s.env and n < 5:
            k, n = s.env[("v", k)], n + 1
        return k

    def addr(self, s, o):
        off = 0
        while o[0] == "i":
            I = self.f.inst[o[1]]
            if I.op == "getelementptr":
                if I.d["var"]:
                    return None
                off += I.d["off"]
                o = I.d["base"]
            else:
                break
        if o[0] == "g":
            return ("m", ("g", o[1]), off + (o[2] if len(o) > 2 else 0))
        k = self.canon(s, o)
        return ("m", k, off) if k is not None else None

    def base(self, o):
        while o[0] == "i" and self.f.inst[o[1]].op == "getelementptr":
            o = self.f.inst[o[1]].d["base"]
        return o

    def val(self, s, o):
        """int, 'nn' (a pointer that is not null) or None"""
        if o[0] == "c":
            return o[1]
        if o[0] == "n":
            return 0
        if o[0] == "g" or o[0] == "f":
            return "nn"
        k = key(o)
        if k is None:
            return None
        if k in s.al:
            return 0
        if k in s.env:
            return s.env[k]
        k = self.canon(s, o)
        return s.env.get(k)

    def null(self, s, o):
        return s.on and o[0] in "ia" and (key(o) in s.al or self.canon(s, o) in s.al or key(self.base(o)) in s.al or
                                          self.canon(s, self.base(o)) in s.al or key(o) in s.dv or key(self.base(o)) in s.dv)

    def isnull(self, s, o):
        return s.on and o[0] in "ia" and (key(o) in s.al or self.canon(s, o) in s.al)

    # -- run
    def run(self):
        s = St(env=dict(self.facts))
        if isinstance(self.seed, tuple):
            s.al, s.on = frozenset([self.seed]), True
        seen, todo = set(), [(0, None, s)]
        while todo:
            n, frm, s = todo.pop()
            s = self.enter(n, frm, s)
            k = (n, s.key())
            if k in seen:
                continue
            seen.add(k)
            self.steps += 1
            if self.steps > self.limit:
                return False
            for t, s2 in self.block(n, s):
                todo.append((t, n, s2))
        return True

    def join(self):
        """the same with one set of facts per block and tracked names: what holds on every path"""
        s = St(env=dict(self.facts))
        if isinstance(self.seed, tuple):
            s.al, s.on = frozenset([self.seed]), True
        at, todo = {}, [(0, None, s)]
        while todo:
            n, frm, s = todo.pop()
            s = self.enter(n, frm, s)
            k = (n, s.al, s.dv, s.on)
            if k in at:
                env = {x: v for x, v in at[k].items() if x in s.env and s.env[x] == v}
                if len(env) == len(at[k]):
                    continue
                s = s.copy()
                s.env = env
            at[k] = dict(s.env)
            self.steps += 1
            if self.steps > 400000:
                raise AnalysisBroken("too many cases following a missing value through " + self.f.name)
            for t, s2 in self.block(n, s):
                todo.append((t, n, s2))

    def enter(self, n, frm, s):
        if frm is None:
            return s
        B = self.f.blocks[n]
        new, phis = {}, set()
        al, dv = set(), set()
        for I in B.insts:
            if I.op != "phi":
                break
            phis.add(I.i)
            v = next((v for v, b in I.d["in"] if (b if isinstance(b, int) else b[1]) == frm), None)
            if v is None:
                continue
            if self.isnull(s, v):
                al.add(I.i)
            elif self.null(s, v):
                dv.add(I.i)
            x = self.val(s, v)
            if x is not None and I.i not in al:
                new[I.i] = x
            elif v[0] in "ia" and self.canon(s, v) is not None and not isinstance(self.f.inst.get(v[1]) if v[0] == "i" else None, type(None)):
                pass
        if phis:
            s = self.forget(s.copy(), phis)
            s.al, s.dv = s.al | al, s.dv | dv
            s.env.update(new)
            for p in phis:
                if self.seed == p:
                    s.al, s.dv, s.on = frozenset([p]), frozenset(), True
                    s.env.pop(p, None)
        lv = self.live[n]
        s = s.copy()
        s.al = frozenset(a for a in s.al if not isinstance(a, int) or a in lv)
        s.dv = frozenset(a for a in s.dv if a in lv)
        keep = {}
        for k, x in s.env.items():
            if isinstance(k, int):
                if k in lv:
                    keep[k] = x
            elif k[0] == "m":
                if not isinstance(k[1], int) or k[1] in lv:
                    keep[k] = x
            elif k[0] in ("v", "lk"):
                if not isinstance(k[1], int) or k[1] in lv:
                    keep[k] = x
            else:
                keep[k] = x
        s.env = keep
        return s

    def forget(self, s, ids):
        """these values are about to be defined anew"""
        s.al = frozenset(a for a in s.al if a not in ids)
        s.dv = frozenset(a for a in s.dv if a not in ids)
        s.env = {k: x for k, x in s.env.items() if not (k in ids or (isinstance(k, tuple) and k[0] in ("m", "v", "lk", "nm") and
                                                                     (k[1] in ids or x in ids if k[0] in ("v", "nm") else k[1] in ids)) or
                                                        (isinstance(x, tuple) and x[0] == "m" and x[1] in ids))}
        return s

    def block(self, n, s):
        B = self.f.blocks[n]
        cur = [s]
        for I in B.insts:
            if I.op == "phi":
                continue
            if I.op in ("br", "switch", "ret", "unreachable"):
                break
            nxt = []
            for s in cur:
                nxt += self.step(I, s)
            cur = nxt
            if not cur:
                return []
        T = B.term
        out = []
        for s in cur:
            if T.op == "ret":
                self.ret(T, s)
            elif T.op == "br":
                bs = [o[1] for o in T.ops if o[0] == "b"]
                if len(bs) == 1:
                    out.append((bs[0], s))
                else:
                    c = T.ops[0]
                    x = self.val(s, c)
                    if x is None:
                        for v, t in ((1, bs[1]), (0, bs[0])):
                            s2 = s.copy()
                            self.learn(s2, c, v)
                            out.append((t, s2))
                    else:
                        out.append((bs[1] if x else bs[0], s))
            elif T.op == "switch":
                x = self.val(s, T.ops[0])
                bs = T.ops[1:]
                cases = [(bs[k][1], bs[k + 1][1]) for k in range(1, len(bs) - 1, 2)]
                if isinstance(x, int):
                    out.append((dict(cases).get(x, bs[0][1]), s))
                else:
                    for t in dict.fromkeys([bs[0][1]] + [t for _, t in cases]):
                        out.append((t, s.copy()))
        return out

    def learn(self, s, c, v):
        if c[0] != "i":
            return
        s.env[c[1]] = v
        I = self.f.inst[c[1]]
        if I.op == "icmp" and I.d["pred"] in ("eq", "ne"):
            x, y = I.ops
            for u, w in ((x, y), (y, x)):
                if self.val(s, w) == 0 and u[0] in "ia" and (I.d["pred"] == "eq") == bool(v):
                    self.fact(s, u, 0)
                elif self.val(s, w) == 0 and u[0] in "ia" and self.isptr(u):
                    self.fact(s, u, "nn")
                elif isinstance(self.val(s, w), int) and self.val(s, w) != 0 and u[0] == "i" and (I.d["pred"] == "eq") == bool(v):
                    self.fact(s, u, self.val(s, w))
        elif I.op in ("zext", "sext", "trunc", "freeze") and v in (0, 1):
            pass

    def isptr(self, o):
        if o[0] == "a":
            return self.f.d.get("argty", [])[o[1]] == "ptr"
        return self.f.inst[o[1]].ty == "ptr" or self.f.inst[o[1]].op == "ptrtoint"

    def fact(self, s, u, x):
        k = key(u)
        s.env[k] = x
        c = self.canon(s, u)
        if c is not None:
            s.env[c] = x
        if ("lk", k) in s.env:
            s.env[s.env[("lk", k)]] = x
        if u[0] == "i":
            I = self.f.inst[u[1]]
            if I.op == "ptrtoint":
                self.fact(s, I.ops[0], x)
            if I.op == "load":
                self.headfact(s, u, x)

    def headfact(self, s, u, x):
        """head and the other members of a list record are set together"""
        lk = s.env.get(("lk", key(u)))
        if lk is None:
            return
        t = self.roottype(lk[1])
        if t in self.w.heads and self.w.heads[t] == lk[2]:
            s.env[("hd", lk[1])] = x

    def roottype(self, r):
        if isinstance(r, int):
            return self.w.typeof(self.f, ["i", r])
        if r[0] == "a":
            return self.w.typeof(self.f, ["a", r[1]])
        return None

    def use(self, I, s, o, what):
        if self.null(s, o):
            self.bad(I, what)
            return True
        return False

    def step(self, I, s):
        op = I.op
        if op == "call":
            return self.call(I, s)
        s = self.forget(s.copy(), {I.i})
        if op == "load":
            if self.use(I, s, I.ops[0], "is read through"):
                return []
            a = self.addr(s, I.ops[0])
            k = self.base(I.ops[0])
            if key(k) is not None:
                s.env[self.canon(s, k)] = "nn"      # it was used: not null from here on
            if a is not None:
                s.env[("lk", I.i)] = a
                if ("nm",) + a[1:] in s.env:
                    s.env[("v", I.i)] = s.env[("nm",) + a[1:]]
                elif I.ty == "ptr":
                    s.env[("nm",) + a[1:]] = I.i
                if a in s.env:
                    s.env[I.i] = s.env[a]
                if a in s.al:
                    s.al = s.al | {I.i}
                t = self.roottype(a[1]) if not (isinstance(a[1], tuple) and a[1][0] == "g") else None
                if t in self.w.heads and a[2] != self.w.heads[t] and a[2] != self.w.nexts.get(t) and ("hd", a[1]) in s.env and I.i not in s.env:
                    s.env[I.i] = s.env[("hd", a[1])]
            if self.seed == I.i:
                if s.env.get(I.i) not in (None, 0):
                    return [s]
                s.al, s.dv, s.on = frozenset([I.i]) | ({a} if a else set()), frozenset(), True
                s.env.pop(I.i, None)
                c = s.env.get(("v", I.i))
                if c is not None:
                    if s.env.get(c) == "nn":
                        s.on = False
                        s.al = frozenset()
                        return [s]
                    s.al = s.al | {c}
            return [s]
        if op == "store":
            v, p = I.ops
            if self.use(I, s, p, "is written through"):
                return []
            a = self.addr(s, p)
            b = self.base(p)
            if key(b) is not None:
                s.env[self.canon(s, b)] = "nn"
            self.kill(s, {self.celltype(a)} if a else None, a)
            if a is not None:
                x = self.val(s, v)
                if self.isnull(s, v):
                    s.al = s.al | {a}
                elif x is not None:
                    s.env[a] = x
                elif v[0] in "ia" and self.isptr(v):
                    if self.nw.nonnull(self.f, v):
                        s.env[a] = "nn"
                k = self.canon(s, v) if v[0] in "ia" else None
                if k is not None and self.isptr(v):
                    s.env[("nm",) + a[1:]] = k
            return [s]
        if op == "icmp":
            a, b = self.val(s, I.ops[0]), self.val(s, I.ops[1])
            p = I.d["pred"]
            r = None
            if isinstance(a, int) and isinstance(b, int):
                M = 2 ** 64
                r = {"eq": a == b, "ne": a != b, "slt": a < b, "sle": a <= b, "sgt": a > b, "sge": a >= b, "ult": a % M < b % M,
                     "ule": a % M <= b % M, "ugt": a % M > b % M, "uge": a % M >= b % M}.get(p)
            elif p in ("eq", "ne") and {a, b} == {0, "nn"}:
                r = p == "ne"
            elif p in ("eq", "ne") and (a == 0 or b == 0):
                u = I.ops[0] if b == 0 else I.ops[1]
                if u[0] in "ia" and self.nw.nonnull(self.f, u):
                    r = p == "ne"
            if r is not None:
                s.env[I.i] = int(r)
            return [s]
        if op == "getelementptr":
            B = I.d["base"]
            if self.null(s, B):
                idx = [self.val(s, v) for v, _ in I.d["var"]]
                if I.d["off"] == 0 and all(x == 0 for x in idx) and self.isnull(s, B):
                    s.al = s.al | {I.i}
                else:
                    s.dv = s.dv | {I.i}
            return [s]
        if op == "select":
            x = self.val(s, I.ops[0])
            out = []
            for v, o in ((1, I.ops[1]), (0, I.ops[2])):
                if x is not None and bool(x) != bool(v):
                    continue
                s2 = s.copy()
                if x is None:
                    self.learn(s2, I.ops[0], v)
                self.assign(s2, I, o)
                out.append(s2)
            return out
        if op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            self.assign(s, I, I.ops[0])
            return [s]
        xs = [self.val(s, o) for o in I.ops]
        v = None
        if op in ("zext", "sext", "trunc") and isinstance(xs[0], int):
            v = xs[0] if not (op == "zext" and xs[0] < 0) else (1 if I.d.get("sty") == "i1" else None)
        elif op in ("xor", "and", "or", "add", "sub", "mul") and all(isinstance(x, int) for x in xs):
            a, b = xs
            v = {"xor": a ^ b, "and": a & b, "or": a | b, "add": a + b, "sub": a - b, "mul": a * b}[op]
        elif op in ("and", "mul") and 0 in xs:
            v = 0
        if v is not None:
            s.env[I.i] = v & 1 if I.ty == "i1" else v
        return [s]

    def assign(self, s, I, o):
        if self.isnull(s, o):
            s.al = s.al | {I.i}
        elif self.null(s, o):
            s.dv = s.dv | {I.i}
        else:
            x = self.val(s, o)
            if x is not None:
                s.env[I.i] = x
            elif o[0] in "ia" and self.canon(s, o) is not None:
                s.env[("v", I.i)] = self.canon(s, o)

    def celltype(self, a):
        if isinstance(a[1], tuple) and a[1][0] == "g":
            return ("g", a[1][1])
        return (self.roottype(a[1]), a[2])

    def kill(self, s, types, here=None):
        """forget what memory cells of these types hold (types None: any cell of unknown type)"""
        def hit(c):
            if here is not None and c == here:
                return True
            if types is None:
                return False
            t = self.celltype(c)
            return t in types or (t[0] is None and not isinstance(c[1], tuple))
        dead = {c for c in s.env if isinstance(c, tuple) and c[0] == "m" and hit(c)}
        for k in list(s.env):
            if isinstance(k, tuple) and (k in dead or (k[0] == "nm" and hit(("m",) + k[1:])) or (k[0] == "lk" and hit(s.env[k]))):
                del s.env[k]
            elif isinstance(k, tuple) and k[0] == "hd" and types is not None and any(t == (self.roottype(k[1]), self.w.heads.get(self.roottype(k[1]))) for t in types):
                del s.env[k]
        s.al = frozenset(a for a in s.al if not (isinstance(a, tuple) and a[0] == "m" and hit(a)))

    def call(self, I, s):
        n = callee(self.f, I) or "?"
        if n.startswith(IGNORE):
            return [s]
        if I.i in self.nw.handing(self.f):
            c = self.canon(s, I.ops[-1])
            fs = {k[2]: x for k, x in s.env.items() if isinstance(k, tuple) and k[0] == "m" and k[1] == c and x == "nn"}
            old = self.seen_calls.get(I.i)
            self.seen_calls[I.i] = fs if old is None else {k: x for k, x in fs.items() if old.get(k) == x}
        g = self.w.m.funcs.get(n)
        args = I.ops
        if g is not None and g.defined:
            for k, o in enumerate(args):
                if self.isnull(s, o) and self.nw.needs(n, k):
                    self.bad(I, "is passed to %s, which uses it" % n)
                    return []
        elif n == "?":
            fn = I.d.get("fn")
            if fn and self.null(s, fn):
                self.bad(I, "is called")
                return []
        elif n in FORMAT:
            for k in self.texts(n, args):
                if self.use(I, s, args[k], "is printed as text by %s" % n):
                    return []
            if FORMAT[n] == 1 and self.use(I, s, args[0], "is passed to %s" % n):
                return []
        else:
            ok = ACCEPT.get(n, set())
            for k, o in enumerate(args):
                if ok is not None and k not in ok and self.use(I, s, o, "is passed to %s" % n):
                    return []
        s = self.forget(s.copy(), {I.i})
        x = None
        if g is not None and g.defined:
            x = self.nw.const_result(n, self, s, args)
            self.kill(s, self.w.mods(n))
            for (i, off), x in self.nw.post(n).items():
                if i < len(args):
                    c = self.canon(s, args[i])
                    if c is not None:
                        s.env[("m", c, off)] = x
            if x is not None:
                s.env[I.i] = x
                if x == 0 and n == "ohcount_sourcefile_get_contents_size":
                    self.nw.correlate("ohcount_sourcefile_get_contents", self, s, args)
        elif n in life.SAME and args and args[0][0] in "ia":
            s.env[I.i] = "nn"
        if self.seed == I.i:
            s.al, s.dv, s.on = frozenset([I.i]), frozenset(), True
            s.env.pop(I.i, None)
            self.nw.correlate(n, self, s, args)
        elif I.ty == "ptr" and I.i not in s.env and not self.nw.maybe_call(self.f, I):
            s.env[I.i] = "nn"
        if n in ("exit", "abort", "_exit"):
            return []
        return [s]

    def texts(self, n, args):
        k = FORMAT[n]
        fmt = self.w.m.cstr(args[k]) if k < len(args) else None
        out = []
        if fmt is None:
            return out
        import re
        j = k + 1
        for mt in re.finditer(r"%[-+ #0]*(\*|\d+)?(\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", fmt):
            if mt.group(5) == "%":
                continue
            j += (mt.group(1) == "*") + (mt.group(3) == "*")
            if mt.group(5) == "s" and j < len(args):
                out.append(j)
            j += 1
        return out

    def ret(self, T, s):
        v = T.ops[0] if T.ops else None
        x = None
        if v is not None and v[0] in "iangf" and self.f.d.get("ret") == "ptr":
            x = self.val(s, v)
            if x is None:
                x = "nn" if self.nw.nonnull(self.f, v) else "maybe"
        facts = {(k[1][1], k[2]): y for k, y in s.env.items() if isinstance(k, tuple) and k[0] == "m" and isinstance(k[1], tuple)
                 and k[1][0] == "a" and (y == 0 or y == "nn")}
        self.rets.append((x, facts))


class Nulls:
    def __init__(self, w):
        self.w = w
        w.nexts = {}
        for st, fs in w.m.structs.items():
            for n, off, ty in fs:
                if n == "next":
                    w.nexts[st] = off
        self._sum, self._needs, self._empty = {}, {}, None
        self._busy = set()
        self._hand, self._entry = {}, {}

    # -- which fields may be null
    def empty(self):
        """(struct, offset) of pointer members that may be null"""
        if self._empty is None:
            self._empty = set()
            fs = self.w.field_stores()
            for t, ss in fs.items():
                lists = t[0] in self.w.heads
                if lists and t[1] not in (self.w.heads[t[0]], self.w.nexts.get(t[0])):
                    continue        # set together with head, which is what is tested
                for n, I, c in ss:
                    f = self.w.m.funcs[n]
                    if c == "null" or (I.ops[0][0] == "i" and self.maybe_value(f, I.ops[0])):
                        self._empty.add(t)
        return self._empty

    def maybe_value(self, f, o, seen=()):
        if o[0] == "n":
            return True
        if o[0] != "i" or o[1] in seen:
            return False
        I = f.inst[o[1]]
        if I.op == "call":
            return self.maybe_call(f, I)
        if I.op == "phi":
            return any(self.maybe_value(f, v, seen + (o[1],)) for v, _ in I.d["in"])
        if I.op == "select":
            return any(self.maybe_value(f, v, seen + (o[1],)) for v in I.ops[1:])
        return False

    def maybe_call(self, f, I):
        n = callee(f, I)
        if n is None:
            return I.ty == "ptr"        # content tests called through the table
        if n in LIBNULL:
            return True
        g = self.w.m.funcs.get(n)
        if g is not None and g.defined and g.d.get("ret") == "ptr":
            return self.summary(n)["null"]
        return False

    def nonnull(self, f, o):
        """by origin alone: parameters, new objects, addresses, fields that are never empty"""
        if o[0] in "agf":
            return True
        if o[0] != "i":
            return False
        I = f.inst[o[1]]
        if I.op in ("alloca", "getelementptr"):
            return True
        if I.op == "call":
            return I.ty == "ptr" and not self.maybe_call(f, I)
        if I.op == "load":
            return not self.maybe_load(f, I)
        return False

    def maybe_load(self, f, I):
        if I.ty != "ptr":
            return False
        o = I.ops[0]
        if o[0] == "i" and f.inst[o[1]].op == "getelementptr":
            G = f.inst[o[1]]
            t = (self.w.gep_struct(f, G), G.d["off"])
        else:
            t = (self.w.typeof(f, o), 0)
        return t in self.empty()

    # -- summaries
    def summary(self, n):
        if n in self._sum:
            return self._sum[n]
        if n in self._busy:
            return {"null": False, "post": {}}
        self._busy.add(n)
        f = self.w.m.funcs[n]
        N = Null(self, f, None)
        post = None
        for x, facts in N.rets:
            post = dict(facts) if post is None else {k: v for k, v in post.items() if facts.get(k) == v}
        self._sum[n] = {"null": any(x in (0, "maybe") for x, _ in N.rets), "post": post or {}}
        self._busy.discard(n)
        return self._sum[n]

    def post(self, n):
        return self.summary(n)["post"]

    def needs(self, n, k):
        """does the function use its k-th argument without testing it on some path"""
        if (n, k) not in self._needs:
            self._needs[(n, k)] = False
            f = self.w.m.funcs[n]
            tys = f.d.get("argty", [])
            if k < len(tys) and tys[k] == "ptr":
                N = Null(self, f, ("a", k))
                self._needs[(n, k)] = bool(N.viol)
        return self._needs[(n, k)]

    # -- callbacks: what holds for the record they are handed
    def handing(self, f):
        """calls that pass a function of the program together with the record it works on"""
        if f.name not in self._hand:
            self._hand[f.name] = {I.i: o[1] for I in f.insts() if I.op == "call" and len(I.ops) >= 2 for o in I.ops[:-1]
                                  if o[0] == "g" and o[1] in self.w.m.funcs and self.w.m.funcs[o[1]].defined
                                  and len(self.w.m.funcs[o[1]].d.get("argty", [])) == 5 and not o[1].startswith("parse_")}
        return self._hand[f.name]

    def entry(self, f):
        if f.name in self._entry:
            return self._entry[f.name]
        self._entry[f.name] = {}
        facts = None
        for n in self.w.roots:
            if n.startswith("parse_"):
                continue
            g = self.w.m.funcs[n]
            for i, h in self.handing(g).items():
                if h != f.name:
                    continue
                N = Null(self, g, None)
                fs = N.seen_calls.get(i)
                if fs is None:
                    continue
                if self.w.typeof(g, g.inst[i].ops[-1]) == "SourceFile":
                    # a report is made only when there is a text
                    fs = dict(fs)
                    fs[dict((x, o) for x, o, _ in self.w.m.structs["SourceFile"])["contents"]] = "nn"
                facts = fs if facts is None else {k: x for k, x in facts.items() if fs.get(k) == x}
        if facts:
            a = len(f.d.get("argty", [])) - 1
            self._entry[f.name] = {("m", ("a", a), off): x for off, x in facts.items()}
        return self._entry[f.name]

    # -- contents and their size
    def correlate(self, n, N, s, args):
        if n == "ohcount_sourcefile_get_contents" and args:
            c = N.canon(s, args[0])
            t = dict((x, o) for x, o, _ in self.w.m.structs.get("SourceFile", ()))
            if c is not None and "size" in t:
                s.env[("m", c, t["size"])] = 0      # no contents: size 0 (C10)
                s.env[("m", c, t["contents"])] = 0

    def const_result(self, n, N, s, args):
        if n == "ohcount_sourcefile_get_contents_size" and args:
            c = N.canon(s, args[0])
            t = dict((x, o) for x, o, _ in self.w.m.structs.get("SourceFile", ()))
            if c is not None and s.env.get(("m", c, t.get("size"))) == 0:
                return 0
        return None

    def sources(self, f):
        out = []
        for I in f.insts():
            if I.ty != "ptr":
                continue
            if I.op == "call" and self.maybe_call(f, I):
                out.append(I)
            elif I.op == "load" and self.maybe_load(f, I):
                out.append(I)
        return out
