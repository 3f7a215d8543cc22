"""Bounds: every read, write and copy of text stays inside the object it is made in."""
import multiprocessing

import grown
import extract
import ir
import prog
from affine import lin, add, atom, scale, isconst, ZERO
from bounds import Bounds, le
from extract import AnalysisBroken
from spec import show

TEXT, SIZE = "ohcount_sourcefile_get_contents", "ohcount_sourcefile_get_contents_size"
# functions that get a text and its length
SPAN = ("ohcount_hash_language_from_name", "ohcount_hash_language_from_ext", "ohcount_hash_language_from_filename",
        "ohcount_hash_disambiguate_func_from_id", "ohcount_hash_is_cppheader", "ohcount_hash_parser_from_language",
        "ohcount_hash_command_from_flag")
STRINGS = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1), "strstr": (0, 1),
           "strcasestr": (0, 1), "strchr": (0,), "strrchr": (0,), "strdup": (0,), "strpbrk": (0, 1), "strspn": (0, 1),
           "strcspn": (0, 1), "strtok": (0,), "atoi": (0,), "strnlen": (0,), "strncpy": (1,), "strcpy": (1,), "strncat": (1,), "fopen": (0, 1),
           "opendir": (0,), "unlink": (0,), "lstat": (0,), "stat": (0,), "popen": (0,), "magic_file": (1,), "fputs": (0,)}
# {function: [(pointer argument, length form of the arguments, 'r'|'w')]}
REGION = {"strncpy": [(0, lambda a: a(2), "w")], "memcpy": [(0, lambda a: a(2), "w"), (1, lambda a: a(2), "r")],
          "memmove": [(0, lambda a: a(2), "w"), (1, lambda a: a(2), "r")], "memset": [(0, lambda a: a(2), "w")],
          "fgets": [(0, lambda a: a(1), "w")], "snprintf": [(0, lambda a: a(1), "w")],
          "fread": [(0, lambda a: mul(a(1), a(2)), "w")], "fwrite": [(0, lambda a: mul(a(1), a(2)), "r")],
          "read": [(1, lambda a: a(2), "w")], "write": [(1, lambda a: a(2), "r")],
          "pcre_exec": [(2, lambda a: a(3), "r"), (6, lambda a: scale(a(7), 4), "w")],
          "magic_buffer": [(1, lambda a: a(2), "r")], "memcmp": [(0, lambda a: a(2), "r"), (1, lambda a: a(2), "r")]}
for _n in SPAN:
    REGION[_n] = [(0, lambda a: a(1), "r")]


def mul(a, b):
    return scale(b, a[0]) if isconst(a) else scale(a, b[0]) if isconst(b) else None


class World:
    same = {TEXT, SIZE, "strlen_"}

    def __init__(self, m):
        self.m = m
        self.eff = {}
        self.wp = {}
        self.hyp = {}

    # what callees write
    def effects(self, name, seen=()):
        if name in self.eff:
            return self.eff[name]
        f = self.m.funcs.get(name)
        if f is None or not f.defined or name in seen:
            return set()
        out = set()
        b = BARE(self.m, f, self)
        for I in f.insts():
            if I.op == "store":
                rs = b.roots(I.ops[1])
                for r in rs:
                    J = b.inst_of(r)
                    if J is not None and (J.op == "alloca" or J.op == "call" and J.callee() in ("malloc", "calloc")):
                        continue
                    if r[0] == "g":
                        out.add(("g", r[1]))
                        continue
                    if I.d.get("sz", 8) == 1:
                        continue
                    x = b.expand(I.ops[1])
                    out.add(("off", x[0]) if len(x[1]) == 1 else "all")
            if I.op == "call":
                c = I.callee()
                if c is None:
                    out.add("all")
                elif c in self.m.funcs and self.m.funcs[c].defined:
                    out |= self.effects(c, seen + (name,))
        if not seen:
            self.eff[name] = out
        return out

    def writes_param(self, c, n):
        """May the callee change the characters its n-th argument points to?"""
        f = self.m.funcs.get(c)
        if f is None or not f.defined:
            return c not in ("lstat", "stat") or n == 1
        k = (c, n)
        if k not in self.wp:
            self.wp[k] = True
            b = BARE(self.m, f, self)
            w = False
            for I in f.insts():
                if I.op == "store" and ("a", n) in b.roots(I.ops[1]):
                    w = True
                if I.op == "call":
                    for j, a in enumerate(I.ops):
                        if a[0] in ("i", "a") and ("a", n) in b.roots(a):
                            cc = I.callee()
                            from bounds import READS
                            if cc in READS or (cc in ("strncpy", "strcpy", "memcpy") or (cc or "").startswith("llvm.memcpy")) and j == 1:
                                continue
                            if cc is None or self.writes_param(cc, j):
                                w = True
            self.wp[k] = w
        return self.wp[k]

    # loads that read the same cell again
    def canon(self, b, I):
        if I.d.get("sz") == 1:
            return None
        x = b.expand(I.ops[0])
        rs = b.roots(I.ops[0])
        if len(rs) != 1:
            return None
        R = next(iter(rs))
        if b.is_buffer(R):
            return None
        if "cells" not in b.__dict__:
            b.cells, b.done = {}, {}
            for n in b.f.rpo():
                for J in b.f.blocks[n].insts:
                    if J is I:
                        self.register(b, I, x, R)
                    elif J.op == "load":
                        b.expand(["i", J.i])
        if I.i in b.done:
            return b.done[I.i]
        return self.register(b, I, x, R)

    def register(self, b, I, x, R):
        tab = b.cells
        r = next((("i", J.i) for J in tab.setdefault(x, []) if J is not I and b.before(J, I) and not self.clobbered(b, J, I, x, R)), None)
        if r is None:
            tab[x].append(I)
        b.done[I.i] = r
        return r

    def clobbered(self, b, J, I, x, R):
        for W in between(b, J, I):
            if W.op == "store":
                if W.d.get("sz", 8) == 1 and R[0] != "g":
                    continue
                rs = b.roots(W.ops[1])
                y = b.expand(W.ops[1])
                if R in rs:
                    d = add(x, y, -1)
                    if isconst(d) and abs(d[0]) >= 8:
                        continue
                    return True
                for r in rs:
                    K = b.inst_of(r)
                    if r[0] == "g" or R[0] == "g":
                        continue
                    if K is not None and K.op == "alloca":
                        continue
                    if len(x[1]) == 1 and len(y[1]) == 1 and x[0] != y[0]:
                        continue
                    return True
            elif W.op == "call":
                c = W.callee()
                if c is None:
                    return True
                if c in self.m.funcs and self.m.funcs[c].defined:
                    e = self.effects(c)
                    if "all" in e and R[0] != "g":
                        return True
                    if R[0] == "g":
                        if ("g", R[1]) in e:
                            return True
                    elif len(x[1]) == 1:
                        if ("off", x[0]) in e:
                            return True
                    elif e - {y for y in e if y[0] == "g"}:
                        return True
        return False

    def stored(self, b, I):
        """The value the load finds because it was stored just before."""
        if I.d.get("sz") == 1:
            return None
        tab = b.__dict__.setdefault("fwd", {})
        if I.i in tab:
            return tab[I.i]
        tab[I.i] = None
        x = b.expand(I.ops[0])
        best = None
        for W in b.f.insts():
            if W.op == "store" and W.d.get("sz") == I.d.get("sz") and b.before(W, I) and b.expand(W.ops[1]) == x:
                if best is None or b.before(best, W):
                    best = W
        if best is not None and best.d.get("sz") == 8:
            rs = b.roots(I.ops[0])
            if len(rs) == 1 and next(iter(rs))[0] != "?" and not self.clobbered(b, best, I, x, next(iter(rs))):
                tab[I.i] = best.ops[0]
        return tab[I.i]

    def member(self, b, I, name):
        """Does the load read this member of the source file a callback is given?"""
        if I.op != "load" or not entity_callback(b.f):
            return False
        x = b.expand(I.ops[0])
        return x == add(atom(("a", 4)), lin(prog.field(self.m, "SourceFile", name)[0]))

    def text_facts(self, b, o, n):
        """The extension of a file is the tail of its name: a name is at least as long as its extension."""
        x = b.expand(o)
        J = b.inst_of(x[1][0][0]) if len(x[1]) == 1 and x[0] == 0 else None
        if J is None or J.op != "load":
            return []
        y = b.expand(J.ops[0])
        d = add(y, lin(prog.field(self.m, "SourceFile", "ext")[0]), -1)
        if d[0] != 0 or len(d[1]) != 1 or d[1][0][0] != ("a", 0) or arg_types(b.f)[:1] != ["ptr"]:
            return []
        out = []
        for K in b.f.insts():
            if K.op == "call" and K.callee() == "strlen":
                z = b.expand(K.ops[0])
                F = b.inst_of(z[1][0][0]) if len(z[1]) == 1 and z[0] == 0 else None
                if F is not None and F.op == "load" and b.expand(F.ops[0]) == add(d, lin(prog.field(self.m, "SourceFile", "filename")[0])):
                    out.append(("le", add(lin(n), b.expand(["i", K.i]), -1)))
        return out

    def end_facts(self, b, R):
        """What is known of the end of a text."""
        J = b.inst_of(R)
        out = []
        if J is not None and J.op == "call" and J.callee() == "readdir":
            out.append(le(add(atom(R), lin(19)), atom(("lim", R))))     # d_name ends in a zero
        if J is not None and entity_callback(b.f) and (J.op == "call" and J.callee() == TEXT or self.member(b, J, "contents")):
            out.append(le(add(atom(R), atom(("a", 3))), atom(("lim", R))))
        if R == ("a", 1) and b.f.name == "main":
            out += [le(add(atom(R), atom(("a", 0)), 8), atom(("lim", R)))]
        return out

    def param_facts(self, b, n):
        out = []
        if entity_callback(b.f):
            if n in (2, 3):
                out = [scale(atom(("a", 2)), -1), le(atom(("a", 2)), atom(("a", 3)))]
        elif int_param(b.f, n) and self.param_nonneg(b.f.name, n):
            out = [scale(atom(("a", n)), -1)]
        return out

    def param_nonneg(self, name, n):
        """Every caller hands over a number that is not negative."""
        k = (name, n)
        if k in self.hyp:
            return self.hyp[k]
        self.hyp[k] = False
        sites = 0
        for f in self.m.funcs.values():
            if not f.defined:
                continue
            for I in f.insts():
                if I.op == "call" and I.callee() == name:
                    sites += 1
                    b = Bounds(self.m, f, self)
                    if not b.prove(scale(b.expand(I.ops[n]), -1), I.blk.n):
                        return False
        self.hyp[k] = sites > 0
        return self.hyp[k]

    def call_facts(self, b, I):
        c = I.callee()
        if c == SIZE:
            out = [scale(b.expand(["i", I.i]), -1)]
            for J in b.f.insts():
                if J.op == "call" and J.callee() == TEXT and J.ops == I.ops:
                    t = b.expand(["i", J.i])
                    d = le(add(t, b.expand(["i", I.i])), atom(("lim", t[1][0][0])))
                    return out + [d, scale(d, -1)]
            return out
        if c == "strdup":
            s = self.m.cstr(I.ops[0])
            if s is not None:
                a = atom(("i", I.i))
                return [le(add(a, lin(len(s))), atom(("lim", ("i", I.i)))), le(atom(("lim", ("i", I.i))), add(a, lin(len(s))))]
        return []

    def vector_facts(self, b, I):
        if self.member(b, I, "size"):
            return [scale(atom(("i", I.i)), -1)]
        return self.vector(b, I)

    def vector(self, b, I):
        """Positions answered by the pattern matcher."""
        rs = b.roots(I.ops[0])
        if len(rs) != 1:
            return []
        R = next(iter(rs))
        if not b.is_buffer(R):
            return []
        d = add(b.expand(I.ops[0]), atom(R), -1)
        if not isconst(d):
            return []
        v = b.version_at(R, I)
        if not v or v[0] != "w":
            return []
        W = b.f.inst[v[1]]
        if W.op != "call" or W.callee() != "pcre_exec":
            return []
        me = b.expand(["i", I.i])
        out = [scale(me, -1), le(me, b.expand(W.ops[3]))]
        if d[0] in (0, 4):
            for K in b.f.insts():
                if K.op == "load" and K is not I and K.d.get("sz") == 4 and b.roots(K.ops[0]) == {R} and b.version_at(R, K) == v:
                    e = add(b.expand(K.ops[0]), atom(R), -1)
                    if isconst(e) and e[0] == 4 - d[0]:
                        o = b.expand(["i", K.i])
                        out.append(le(me, o) if d[0] == 0 else le(o, me))
        return out


class Bare(Bounds):
    pass


_bare = {}


def BARE(m, f, w):
    if f.name not in _bare:
        b = Bounds.__new__(Bounds)
        b.m, b.f, b.world, b.exp_, b.roots_, b.dom = m, f, NoWorld, {}, {}, None
        _bare[f.name] = b
    return _bare[f.name]


class NoWorld:
    same = ()

    @staticmethod
    def stored(b, I):
        return None

    @staticmethod
    def canon(b, I):
        return None


def between(b, J, I):
    """Instructions that may run after J and before I (not passing J again)."""
    f = b.f
    if J.blk.n == I.blk.n:
        xs = I.blk.insts
        j, i = xs.index(J), xs.index(I)
        if j < i:
            return xs[j + 1:i]
    # blocks on a way from J's block to I's block
    fw, todo = set(), list(J.blk.succs)
    while todo:
        x = todo.pop()
        if x not in fw and x != J.blk.n:
            fw.add(x)
            todo += f.blocks[x].succs
    bw, todo = set(), list(I.blk.preds)
    while todo:
        x = todo.pop()
        if x not in bw and x != J.blk.n:
            bw.add(x)
            todo += f.blocks[x].preds
    out = J.blk.insts[J.blk.insts.index(J) + 1:]
    for x in fw & bw:
        out += f.blocks[x].insts
    if I.blk.n in fw:
        out += I.blk.insts[:I.blk.insts.index(I)]
    return out


def entity_callback(f):
    return arg_types(f) == ["ptr", "ptr", "i32", "i32", "ptr"]


def arg_types(f):
    return [a if isinstance(a, str) else a[0] if a[0] in ("ptr",) or a[0][0] == "i" else a[1] for a in f.d.get("argty", [])]


def int_param(f, n):
    t = arg_types(f)
    return n < len(t) and t[n] in ("i32", "i64")


def text_like(b, R):
    """Objects taken for texts that end in a zero."""
    if R[0] == "a":
        return True
    I = b.inst_of(R)
    if I is None:
        return False
    return I.op == "load" or I.op == "call"


def obligations(b, world):
    """[(instruction, what, pointer operand, [(form, what)])]"""
    f = b.f
    m = b.m
    for I in f.insts():
        if I.op in ("load", "store"):
            o = I.ops[0] if I.op == "load" else I.ops[1]
            if o[0] != "i":
                if o[0] == "a" and I.d.get("sz") == 1:
                    yield I, I.op, o, lin(I.d.get("sz", 1)), "r" if I.op == "load" else "w"
                continue
            if b.table_char(I) if I.op == "load" else False:
                continue
            yield I, I.op, o, lin(I.d.get("sz", 8)), "r" if I.op == "load" else "w"
        elif I.op == "call":
            c = I.callee() or ""
            if c.startswith("llvm.mem"):
                c = c.split(".")[1]
            a = lambda k: b.expand(I.ops[k])
            for k, n, mode in REGION.get(c, ()):
                if k < len(I.ops):
                    yield I, c, I.ops[k], n(a), mode
            if c == "strcpy":
                n = b.length_of(I, I.ops[1])
                yield I, c, I.ops[0], add(n, lin(1)) if n is not None else None, "w"
            if c in ("strcat", "gets"):
                yield I, c, I.ops[0], None, "w"
            if c == "sprintf":
                n = b.sprintf_max(I)
                yield I, c, I.ops[0], add(n, lin(1)) if n is not None else None, "w"
            for k in STRINGS.get(c, ()):
                yield I, c, I.ops[k], None, "s"


def variable(b, o):
    """Does the address vary, other than along members of a record?"""
    while o[0] == "i":
        I = b.f.inst[o[1]]
        if I.op == "getelementptr":
            if I.d["var"]:
                return True
            o = I.d["base"]
        elif I.op in ("phi", "select"):
            return True
        else:
            return False
    return False


def judge(b, I, what, o, n, mode):
    """None: not an obligation; True/False: proven or not, with what is missing."""
    rs = b.roots(o)
    sz = n[0] if n is not None and isconst(n) else None
    if what == "memcpy" and sz is not None and I.d.get("l") and I.d["l"][0].endswith("diff.c"):
        return None
    if what in ("load", "store"):
        if not rs or all(r[0] == "g" for r in rs):
            return None
        buf = [r for r in rs if b.is_buffer(r)]
        if buf:
            J = b.inst_of(buf[0])
            if J.op == "alloca" and not J.d.get("n") and not str(J.d.get("aty", "")).startswith("["):
                return None
            if J.op == "call" and not variable(b, o) and isconst(b.size(buf[0]) or lin(0)):
                return None                 # members of a record just made
        elif sz != 1 and not (sz == 8 and any_var(b, o)):
            return None
        if sz != 1 and I.d.get("l") and I.d["l"][0].endswith("diff.c"):
            return None                     # the tables of the comparison itself hold no text
        if not buf and sz == 8:
            pass
    if len(rs) != 1:
        return None                         # may point into more than one object: not decided here
    R = next(iter(rs))
    q = b.expand(o)
    blk = I.blk.n
    goals = []
    if R[0] == "g":
        s = b.m.cstr(["g", R[1], 0])
        if s is None:
            return None
        size = lin(len(s) + 1)
        goals.append((le(atom(R), q), "before the start"))
        if n is not None:
            goals.append((le(add(q, n), add(atom(R), size)), "beyond the end"))
    elif b.is_buffer(R):
        size = b.size(R)
        if size is None:
            return None
        goals.append((le(atom(R), q), "before the start of the buffer"))
        if mode == "s":
            t = atom(("top", R, b.version_at(R, I)))
            goals.append((le(t, add(atom(R), add(size, lin(-1)))), "a text that need not end within the buffer"))
            goals.append((le(q, t), "behind the end of the text in the buffer"))
        else:
            if n is None:
                return False
            goals.append((le(add(q, n), add(atom(R), size)), "beyond the end of the buffer"))
            if not isconst(n) and not (n == size and b.inst_of(R).op == "alloca"):
                goals.append((scale(n, -1), "a negative number of bytes"))
    elif text_like(b, R):
        if mode == "w":                     # room in an object made elsewhere: only the sign of the amount is looked at
            if n is None or isconst(n):
                return None
            return [(scale(n, -1), "a negative number of bytes")] if not b.decide(scale(n, -1), I) else []
        lim = atom(("lim", R))
        goals.append((le(atom(R), q), "before the start of the text"))
        if mode == "s":
            goals.append((le(q, lim), "behind the end of the text"))
        elif sz is not None and what in ("load", "store"):
            goals.append((le(q, lim), "behind the end of the text"))
        else:
            if n is None:
                return False
            goals.append((le(add(q, n), lim, -1), "beyond the end of the text"))
            if not isconst(n):
                goals.append((scale(n, -1), "a negative number of bytes"))
    else:
        return None
    out = []
    for g, w in goals:
        if not b.decide(g, I):
            out.append((g, w))
    return out


def any_var(b, o):
    return o[0] == "i" and b.f.inst[o[1]].op == "getelementptr" and bool(b.f.inst[o[1]].d["var"])


def address_taken(m):
    out = set()

    def walk(o):
        if isinstance(o, list):
            if len(o) >= 2 and o[0] == "g" and o[1] in m.funcs:
                out.add(o[1])
            for x in o:
                walk(x)
    for g in m.globals.values():
        walk(g.get("init"))
    for f in m.funcs.values():
        for I in f.insts():
            for o in I.ops if I.op != "call" else I.ops[:]:
                walk(o)
            for v, _ in I.d.get("in", []):
                walk(v)
    return out


def functions(m):
    out = []
    core = ir.Module(extract.core())
    inner = {I.callee() for f in core.funcs.values() for I in f.insts() if I.op == "call"}
    taken = address_taken(core)
    for n in prog.roots(m):
        f = m.funcs[n]
        l = next((I.d["l"] for I in f.insts() if I.d.get("l")), None)
        if l is None or l[0].endswith(".gperf") or "parser_macros" in l[0] or "/parsers/" in l[0]:
            continue
        if n in inner and n not in taken and not prog.is_api(n):
            continue                        # looked at inside its callers
        out.append((n, f))
    return out


def one(name):
    """Obligations of one function: [(where, scope, what, mode, missing)]"""
    m = prog.threaded()
    w = World(m)
    b = Bounds(m, m.funcs[name], w)
    out = []
    for I, what, o, ln, mode in obligations(b, w):
        r = judge(b, I, what, o, ln, mode)
        if r is None:
            continue
        out.append((I.where(), I.scope(), what, mode, None if r is False else [t for _, t in r]))
    return name, out


KIND = {"r": "reads", "w": "writes", "s": "texts handed to the library"}


def check(ctx):
    m = prog.threaded()
    names = [n for n, _ in functions(m)]
    with multiprocessing.Pool(8) as pool:
        res = pool.map(one, sorted(names, key=lambda n: -len(list(m.funcs[n].insts()))), chunksize=1)
    n = 0
    for name, out in sorted(res):
        ctx.count("functions")
        for where, scope, what, mode, miss in out:
            n += 1
            ctx.count(KIND[mode])
            if miss is None:
                ctx.violation("bounds:%s:%s" % (scope, what), "%s: nothing limits how much %s writes" % (where, what))
            for t in miss or ():
                ctx.violation("bounds:%s:%s:%s" % (scope, what, t), "%s: %s may reach %s" % (where, what, t))
    ctx.cov["explanation"] = ("Every read and write of a character, every pointer-array read and every library call on texts in the functions "
                              "counted was proven inside its object, from the tests that dominate it and by induction at loop heads.")
    grown.check(ctx)
    ctx.cov["explanation"] += " " + grown.__doc__.replace("\n", " ")
    ctx.floor("functions", 15)
    ctx.floor("reads", 60)
    ctx.floor("writes", 20)
    ctx.floor("texts handed to the library", 20)
