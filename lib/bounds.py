"""Bounds of accesses: demand-driven difference reasoning over SSA values (after the array-bounds analysis of Bodik et al.).

An obligation is a linear form that must not be positive at a place. It is discharged from the tests that dominate the place
and from what library functions promise; a value that merges at a join or loop head is replaced by what comes in over each
edge, and a loop closes when the same or a weaker form is met again at its head (induction over the iterations).

Ghost values: lim(R) = last readable position of the text that starts at R (its terminating zero); top(R, v) = first zero at
or behind the start of the local buffer R in its v-th contents."""
import math
from affine import lin, add, scale, isconst, ZERO, atom
from extract import AnalysisBroken

READS = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strstr", "strcasestr", "strchr", "strrchr", "strpbrk", "strspn",
         "strcspn", "memcmp", "memchr", "printf", "puts", "fputs", "fprintf", "fopen", "atoi", "strtol", "strtoul", "strdup", "strndup", "free",
         "pcre_exec", "pcre_compile", "magic_file", "magic_buffer", "opendir", "stat", "lstat", "unlink", "remove", "open", "access",
         "popen", "fwrite", "write", "strnlen", "getenv", "log_it"}
CASTS = ("sext", "zext", "trunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "addrspacecast")
INSIDE = {"strstr": 1, "strcasestr": 1, "strchr": None, "strrchr": None, "strpbrk": None, "memchr": None, "index": None, "rindex": None}


def le(x, y, k=0):
    """x + k <= y as a form that must not be positive"""
    return add(add(x, lin(k)), y, -1)


class Bounds:
    def __init__(self, m, f, world):
        self.m, self.f, self.world = m, f, world
        self.exp_ = {}
        self.roots_ = {}
        self.dom = dominators(f)
        self.kids = None
        self.ver_ = {}
        self.zeros_ = {}
        self.facts_ = {}
        self.steps = 0
        self.memo = {}
        self.memos = {}
        self.level, self.limit = 1, 4000
        self.allocas = [I for I in f.insts() if I.op == "alloca"]

    # ------------------------------------------------------------ values
    def expand(self, o):
        k = o[0]
        if k == "c":
            v = o[1]
            return lin(v)
        if k in ("n", "u"):
            return ZERO
        if k == "a":
            return atom(("a", o[1]))
        if k == "g":
            s = self.m.cstr(o)
            return add(atom(("g", o[1])), lin(o[2] if len(o) > 2 else 0))
        if k == "i":
            if o[1] not in self.exp_:
                self.exp_[o[1]] = atom(("i", o[1]))           # recursion guard
                self.exp_[o[1]] = self.expand_inst(self.f.inst[o[1]])
            return self.exp_[o[1]]
        return atom(("k", repr(o)))

    def expand_inst(self, I):
        op = I.op
        me = atom(("i", I.i))
        if op == "getelementptr":
            x = add(self.expand(I.d["base"]), lin(I.d["off"]))
            for v, k in I.d["var"]:
                x = add(x, self.expand(v), k)
            return x
        if op in ("add", "sub"):
            return add(self.expand(I.ops[0]), self.expand(I.ops[1]), 1 if op == "add" else -1)
        if op == "mul":
            a, b = self.expand(I.ops[0]), self.expand(I.ops[1])
            if isconst(a):
                return scale(b, a[0])
            if isconst(b):
                return scale(a, b[0])
            return me
        if op == "shl" and I.ops[1][0] == "c":
            return scale(self.expand(I.ops[0]), 1 << I.ops[1][1])
        if op in CASTS:
            src = self.f.inst.get(I.ops[0][1]) if I.ops[0][0] == "i" else None
            if op == "zext" and src is not None and src.ty in ("i1", "i8", "i16"):
                return me if src.ty == "i1" else self.expand(I.ops[0])
            if op == "trunc" and I.ty in ("i1", "i8", "i16"):
                return me
            return self.expand(I.ops[0])
        if op == "load":
            c = self.world.stored(self, I)
            if c is not None:
                return self.expand(c)
            c = self.world.canon(self, I)
            return atom(c) if c is not None else me
        if op == "call" and (I.callee() in self.world.same or I.callee() == "strlen"):
            # the same question about the same thing has the same answer
            for J in self.f.insts():
                if J is I:
                    break
                if J.op == "call" and J.callee() == I.callee() and self.expand(J.ops[0]) == self.expand(I.ops[0]) and self.before(J, I):
                    if I.callee() == "strlen" and not self.unchanged(I.ops[0], J, I):
                        continue
                    return atom(("i", J.i))
        return me

    def unchanged(self, o, J, I):
        rs = self.roots(o)
        if len(rs) != 1:
            return False
        R = next(iter(rs))
        if R[0] == "g":
            return True
        if self.is_buffer(R):
            return self.version_at(R, J) == self.version_at(R, I)
        for W in self.f.insts():
            if W.op == "store" and W.d.get("sz") == 1 and R in self.roots(W.ops[1]) or W.op == "call" and self.writes(W, R):
                return False
        return True

    def before(self, J, I):
        if J.blk.n == I.blk.n:
            return J.blk.insts.index(J) < I.blk.insts.index(I)
        return J.blk.n in self.dom[I.blk.n]

    # ------------------------------------------------------------ objects
    def roots(self, o, seen=None):
        """Objects a pointer may point into."""
        k = o[0]
        if k == "a":
            return {("a", o[1])}
        if k == "g":
            return {("g", o[1])}
        if k in ("n", "u", "c"):
            return set()
        if k != "i":
            return {("?", repr(o))}
        if o[1] in self.roots_:
            return self.roots_[o[1]]
        seen = seen or set()
        if o[1] in seen:
            return set()
        seen = seen | {o[1]}
        I = self.f.inst[o[1]]
        if I.op == "getelementptr":
            r = self.roots(I.d["base"], seen)
        elif I.op == "phi":
            r = set()
            for v, _ in I.d["in"]:
                r |= self.roots(v, seen)
        elif I.op == "select":
            r = self.roots(I.ops[1], seen) | self.roots(I.ops[2], seen)
        elif I.op in CASTS:
            r = self.roots(I.ops[0], seen)
        elif I.op in ("add", "sub"):
            r = self.roots(I.ops[0], seen)
        elif I.op == "call" and I.callee() in INSIDE:
            r = self.roots(I.ops[0], seen)
        elif I.op == "load" and self.world.stored(self, I) is not None:
            r = self.roots(self.world.stored(self, I), seen)
        elif I.op in ("call", "load"):
            e = self.expand(o)
            r = {e[1][0][0]} if len(e[1]) == 1 else {("i", I.i)}
        else:
            r = {("i", I.i)}
        if len(seen) == 1:
            self.roots_[o[1]] = r
        return r

    def inst_of(self, a):
        return self.f.inst.get(a[1]) if a[0] == "i" else None

    def size(self, R):
        """Bytes of a local or freshly allocated object, or None."""
        I = self.inst_of(R)
        if I is None:
            if R[0] == "g":
                return None
            return None
        if I.op == "alloca":
            n = I.d.get("n")
            c = self.expand(n) if n else lin(1)
            return scale(c, I.d["esz"])
        if I.op == "call":
            c = I.callee()
            if c == "malloc":
                return self.expand(I.ops[0])
            if c == "calloc":
                a, b = self.expand(I.ops[0]), self.expand(I.ops[1])
                return scale(b, a[0]) if isconst(a) else scale(a, b[0]) if isconst(b) else None
            if c == "realloc":
                return self.expand(I.ops[1])
            if c == "strdup":
                return None
        return None

    def is_buffer(self, R):
        I = self.inst_of(R)
        return I is not None and (I.op == "alloca" or I.op == "call" and I.callee() in ("malloc", "calloc", "realloc"))

    # ------------------------------------------------------------ contents of buffers
    def writes(self, I, R):
        """Does the instruction change the contents of R? None / 'w' / 'keep' (zeros stay where they are)"""
        if I.op == "store":
            if R not in self.roots(I.ops[1]):
                return None
            if self.case_store(I):
                return None
            return "w"
        if I.op == "call":
            c = I.callee() or ""
            if c == "pcre_exec":
                return "w" if len(I.ops) > 6 and I.ops[6][0] == "i" and R in self.roots(I.ops[6]) else None
            if c in READS or c.startswith("llvm.lifetime") or c.startswith("llvm.stack") or c in ("malloc", "free", "exit", "strtok") and 0:
                return None
            if c in READS:
                return None
            for n, a in enumerate(I.ops):
                if a[0] in ("i", "a") and R in self.roots(a):
                    if c.startswith("llvm.mem") and n != 0:
                        continue
                    if c in ("strncpy", "strcpy", "memcpy", "memmove", "strncat", "strcat", "snprintf", "sprintf") and n != 0:
                        continue
                    if self.world.writes_param(c, n):
                        return "w"
            return None
        return None

    def case_store(self, I):
        """*p = tolower(*p)"""
        o = I.ops[0]
        for _ in range(4):
            if o[0] != "i":
                return False
            J = self.f.inst[o[1]]
            if J.op in CASTS:
                o = J.ops[0]
                continue
            x = self.table_char(J)
            if x is not None and x[0] == "case":
                return self.expand(x[1].ops[0]) == self.expand(I.ops[1])
            if J.op == "call" and J.callee() in ("tolower", "toupper"):
                o = J.ops[0]
                while o[0] == "i" and self.f.inst[o[1]].op in CASTS:
                    o = self.f.inst[o[1]].ops[0]
                K = self.f.inst.get(o[1]) if o[0] == "i" else None
                return K is not None and K.op == "load" and self.expand(K.ops[0]) == self.expand(I.ops[1])
            if J.op == "phi":
                return False
            return False
        return False

    def table_char(self, J):
        """load of a C-library character table at a character: ('case'|'class', load of the character)"""
        if J.op != "load" or J.ops[0][0] != "i":
            return None
        G = self.f.inst[J.ops[0][1]]
        if G.op != "getelementptr" or G.d["base"][0] != "i" or len(G.d["var"]) != 1:
            return None
        B = self.f.inst[G.d["base"][1]]
        if B.op != "load" or B.ops[0][0] != "i":
            return None
        C = self.f.inst[B.ops[0][1]]
        if C.op != "call" or not (C.callee() or "").startswith("__ctype_"):
            return None
        o = G.d["var"][0][0]
        while o[0] == "i" and self.f.inst[o[1]].op in CASTS:
            o = self.f.inst[o[1]].ops[0]
        K = self.f.inst.get(o[1]) if o[0] == "i" else None
        if K is None:
            return None
        return ("class" if "_b_" in C.callee() else "case", K)

    def versions(self, R):
        """{block: version at its start}, {inst id: version after it}"""
        if R in self.ver_:
            return self.ver_[R]
        f = self.f
        after, out, inn = {}, {}, {}
        wr = {}
        for B in f.blocks:
            wr[B.n] = [I for I in B.insts if self.writes(I, R)]
            for I in wr[B.n]:
                after[I.i] = ("w", I.i)
        order = f.rpo()
        start = ("new",)
        changed = True
        while changed:
            changed = False
            for b in order:
                if b == 0:
                    v = start
                else:
                    vs = {out[p] for p in f.blocks[b].preds if p in out}
                    if inn.get(b) == ("phi", b) or len(vs) > 1:
                        v = ("phi", b)
                    elif vs:
                        v = vs.pop()
                    else:
                        continue
                o = after[wr[b][-1].i] if wr[b] else v
                # a buffer made anew in this block
                if inn.get(b) != v or out.get(b) != o:
                    inn[b], out[b] = v, o
                    changed = True
        self.ver_[R] = (inn, out, after, wr)
        return self.ver_[R]

    def version_at(self, R, I):
        inn, out, after, wr = self.versions(R)
        v = inn.get(I.blk.n)
        for J in I.blk.insts:
            if J is I:
                break
            if J.i in after:
                v = after[J.i]
        return v

    def prev_version(self, R, I):
        return self.version_at(R, I)

    def end_of(self, R, I):
        """Form of the end of the text in R as seen at instruction I."""
        if self.is_buffer(R):
            return atom(("top", R, self.version_at(R, I)))
        return atom(("lim", R))

    def zeros(self, R, v):
        """Positions that hold a zero in this version of the buffer."""
        k = (R, v)
        if k in self.zeros_:
            return self.zeros_[k]
        self.zeros_[k] = []
        out = []
        if v and v[0] == "w":
            I = self.f.inst[v[1]]
            old = lambda: self.zeros(R, self.prev_version(R, I))
            if I.op == "store":
                X = self.expand(I.ops[1])
                if I.ops[0][0] == "c" and I.ops[0][1] == 0:
                    out = [X] + old()
                else:
                    sz = I.d.get("sz", 1)
                    out = [Z for Z in old() if self.prove(le(X, Z, sz), I.blk.n) or self.prove(le(Z, X, 1), I.blk.n)]
            else:
                c = I.callee() or ""
                D = self.expand(I.ops[0]) if I.ops else ZERO
                if c.startswith("llvm.memset"):
                    n = self.expand(I.ops[2])
                    if I.ops[1][0] == "c" and I.ops[1][1] == 0:
                        out = [D, add(add(D, n), lin(-1))]
                    out += [Z for Z in old() if self.prove(le(add(D, n), Z), I.blk.n)]
                elif c.startswith("llvm.memcpy") or c == "memcpy":
                    n = self.expand(I.ops[2])
                    s = self.m.cstr(I.ops[1])
                    if s is not None and isconst(n) and len(s) < n[0]:
                        out = [add(D, lin(len(s)))]
                    K = self.length_of(I, I.ops[1])
                    if K is not None and self.prove(le(K, n, 1), I.blk.n):
                        out = [add(D, K)]
                    out += [Z for Z in old() if self.prove(le(add(D, n), Z), I.blk.n)]
                elif c == "strncpy":
                    n = self.expand(I.ops[2])
                    out = [Z for Z in old() if self.prove(le(add(D, n), Z), I.blk.n)]
                elif c == "snprintf":
                    out = [add(add(D, self.expand(I.ops[1])), lin(-1))]
                elif c == "fgets":
                    out = [add(add(D, self.expand(I.ops[1])), lin(-1))]
                elif c == "sprintf":
                    n = self.sprintf_max(I)
                    if n is not None:
                        out = [add(D, n)]
                elif c in ("strcpy",):
                    K = self.length_of(I, I.ops[1])
                    if K is not None:
                        out = [add(D, K)]
                elif c == "mkstemp":
                    out = old()
        self.zeros_[k] = out
        return out

    def length_of(self, at, o):
        """Length of the text at the place, if it is known."""
        s = self.m.cstr(o)
        if s is not None:
            return lin(len(s))
        x = self.expand(o)
        for K in self.f.insts():
            if K.op == "call" and K.callee() == "strlen" and self.before(K, at) and self.expand(K.ops[0]) == x and self.unchanged(o, K, at):
                return self.expand(["i", K.i])
        return None

    def sprintf_max(self, I):
        """Upper bound of the length a sprintf writes (without the zero), or None."""
        fmt = self.m.cstr(I.ops[1])
        if fmt is None:
            return None
        n, k, i = 0, 2, 0
        out = ZERO
        while i < len(fmt):
            if fmt[i] != "%":
                n += 1
                i += 1
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] in "0123456789.-+l ":
                j += 1
            if j >= len(fmt):
                return None
            t, spec = fmt[j], fmt[i + 1:j]
            i = j + 1
            if t == "%":
                n += 1
                continue
            if k >= len(I.ops):
                return None
            a = I.ops[k]
            k += 1
            if t in "du":
                n += 20 + sum(int(x) for x in spec.replace(".", " ").replace("-", " ").replace("l", " ").replace("+", " ").split() if x.isdigit())
            elif t == "c":
                n += 1
            elif t == "s" and "." in spec and spec.split(".")[1].isdigit():
                n += int(spec.split(".")[1])
            elif t == "s":
                s = self.m.cstr(a)
                if s is not None:
                    n += len(s)
                    continue
                r = self.roots(a)
                if len(r) != 1:
                    return None
                R = next(iter(r))
                J = self.inst_of(R)
                if J is not None and J.op == "call" and J.callee() == "strdup" and self.m.cstr(J.ops[0]) is not None:
                    n += len(self.m.cstr(J.ops[0]))
                    continue
                if not self.is_buffer(R):
                    return None
                sz = self.size(R)
                if sz is None or not self.terminated(R, I):
                    return None
                out = add(out, add(sz, lin(-1)))
            else:
                return None
        return add(out, lin(n))

    def terminated(self, R, I):
        v = self.version_at(R, I)
        return self.prove(le(atom(("top", R, v)), add(atom(R), add(self.size(R), lin(-1)))), I.blk.n)

    # ------------------------------------------------------------ facts
    def cond_facts(self, o, want, depth=0):
        """What a truth value tells: [('le', form) | ('ne', form) | ('nz', load inst id)]"""
        if o[0] != "i" or depth > 6:
            if o[0] == "c" and bool(o[1]) != want:
                return [("le", lin(1))]
            return []
        I = self.f.inst[o[1]]
        if I.op == "icmp":
            return self.icmp_facts(I, want, depth)
        if I.op in ("and", "or") and I.ty == "i1":
            if (I.op == "and") == want:
                return self.cond_facts(I.ops[0], want, depth + 1) + self.cond_facts(I.ops[1], want, depth + 1)
            return self.either(self.cond_facts(I.ops[0], want, depth + 1), self.cond_facts(I.ops[1], want, depth + 1))
        if I.op == "xor" and I.ops[1][0] == "c" and I.ops[1][1]:
            return self.cond_facts(I.ops[0], not want, depth + 1)
        if I.op == "select" and I.ty == "i1":
            # a && b, a || b
            a, b, c = I.ops
            if c[0] == "c" and not c[1] and want:
                return self.cond_facts(a, True, depth + 1) + self.cond_facts(b, True, depth + 1)
            if b[0] == "c" and b[1] and not want:
                return self.cond_facts(a, False, depth + 1) + self.cond_facts(c, False, depth + 1)
            if c[0] == "c" and not c[1]:        # not (a && b)
                return self.either(self.cond_facts(a, False, depth + 1), self.cond_facts(b, False, depth + 1))
            if b[0] == "c" and b[1]:            # a || b
                return self.either(self.cond_facts(a, True, depth + 1), self.cond_facts(c, True, depth + 1))
            return []
        if I.op in ("freeze", "trunc") and I.ops[0][0] == "i" and self.f.inst[I.ops[0][1]].ty == "i1":
            return self.cond_facts(I.ops[0], want, depth + 1)
        if I.op == "phi" and I.ty == "i1":
            return [("ne", atom(("i", I.i)))] if want else [("eq", atom(("i", I.i)))]
        return []

    def either(self, a, b):
        b = freeze(b)
        return [x for x in freeze(a) if x in b]

    def strip_cast(self, o):
        while o[0] == "i" and self.f.inst[o[1]].op in CASTS:
            o = self.f.inst[o[1]].ops[0]
        return o

    def nonneg(self, x, o):
        """Can the value be taken for non-negative when compared unsigned?"""
        if isconst(x):
            return x[0] >= 0
        o = self.strip_cast(o)
        if o[0] == "i":
            J = self.f.inst[o[1]]
            if J.ty == "ptr" or J.op == "alloca":
                return True
            if J.op == "call" and J.callee() in ("strlen", "strnlen", "strcspn", "strspn"):
                return True
            if J.op in ("phi", "getelementptr") and J.ty == "ptr":
                return True
        return o[0] in ("a", "g") and False

    def icmp_facts(self, I, want, depth):
        pr = I.d["pred"]
        a, b = I.ops
        neg = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
               "ugt": "ule", "ule": "ugt"}
        p = pr if want else neg[pr]
        # a truth value compared with a constant
        ia = self.f.inst.get(a[1]) if a[0] == "i" else None
        if b[0] == "c" and ia is not None and p in ("eq", "ne"):
            src = ia
            while src.op == "zext" and src.ops[0][0] == "i":
                src = self.f.inst[src.ops[0][1]]
            if src.ty == "i1":
                return self.cond_facts(["i", src.i], (p == "ne") == (b[1] == 0), depth + 1)
        x, y = self.expand(a), self.expand(b)
        d = add(x, y, -1)
        out = []
        if p in ("eq", "ne"):
            out.append((p, d))
            if b[0] == "c" and ia is not None:
                nzv = (p == "ne" and b[1] == 0) or (p == "eq" and b[1] != 0)
                if nzv:
                    out += self.nonzero(ia, I)
                if p == "eq" and b[1] == 0:
                    out += self.equal_text(a)
            if b[0] in ("n",) and p == "eq" and ia is not None and ia.op == "call" and ia.callee() == "memchr" and \
                    ia.ops[1][0] == "c" and ia.ops[1][1] == 0:
                R = self.roots(ia.ops[0])
                if len(R) == 1:
                    out.append(("le", le(add(self.expand(ia.ops[0]), self.expand(ia.ops[2])), self.end_of(next(iter(R)), ia))))
            if b[0] in ("n",) and p == "ne" and ia is not None:
                out += self.found(a)
                if ia.op == "load":
                    out.append(("nz", ia.i))
            if a[0] == "n" and p == "ne":
                out += self.found(b)
            if p == "eq" and b[0] not in ("c", "n"):
                # p == strstr(p, "...")
                out += self.found(a) + self.found(b) if self.nonnull(a, b) else []
            return out
        if p[0] == "s":
            out += order(p[1:], d)
            if ia is not None and isconst(y) and ((p == "sgt" and y[0] >= 0) or (p == "sge" and y[0] >= 1) or (p == "slt" and y[0] <= 0) or (p == "sle" and y[0] < 0)):
                out += self.nonzero(ia, I)
            return out
        # unsigned
        isptr = lambda o: o[0] in ("g",) or self.ptr(o)
        if isptr(a) and isptr(b):
            return order(p[1:], d)
        nx, ny = self.nonneg(x, a), self.nonneg(y, b)
        if p in ("ult", "ule"):
            if ny:
                out += order(p[1:], d) + [("le", scale(x, -1))]
            elif not isconst(x):
                out.append(("uns", y, tuple(order(p[1:], d) + [("le", scale(x, -1))]), I.blk.n, I.i))
        else:
            if nx:
                out += order(p[1:], d) + [("le", scale(y, -1))]
            elif not isconst(y):
                out.append(("uns", x, tuple(order(p[1:], d) + [("le", scale(y, -1))]), I.blk.n, I.i))
            if ia is not None and isconst(y) and ((p == "ugt" and y[0] >= 0) or (p == "uge" and y[0] >= 1)):
                out += self.nonzero(ia, I)
        if isconst(y) and p in ("ult", "ule") and ia is not None and ia.op in ("add",) and ia.ops[1][0] == "c":
            # c - 'a' < 26
            lo = -ia.ops[1][1]
            if lo > 0:
                src = self.strip_cast(ia.ops[0])
                if src[0] == "i":
                    out += self.nonzero(self.f.inst[src[1]], I)
        return out

    def ptr(self, o):
        if o[0] == "a":
            return (self.f.d.get("argty", [])[o[1]:o[1] + 1] or ["ptr"])[0] == "ptr" if self.f.d.get("argty") else True
        return o[0] == "n" or (o[0] == "i" and self.f.inst[o[1]].ty == "ptr")

    def nonnull(self, a, b):
        for o in (a, b):
            if o[0] == "i" and self.f.inst[o[1]].op in ("getelementptr", "alloca"):
                return True
        # a pointer some text is read through is not null
        return True

    def nonzero(self, I, at):
        """The value of I is known not to be zero."""
        while I.op in CASTS and I.ops[0][0] == "i":
            I = self.f.inst[I.ops[0][1]]
        if I.op == "load":
            t = self.table_char(I)
            if t is not None and t[0] == "case":
                return self.nonzero(t[1], at)
            return [("nz", I.i)]
        if I.op == "phi":
            return [("nz", I.i)]
        if I.op == "and":
            for k in (0, 1):
                if I.ops[1 - k][0] == "c" and not I.ops[1 - k][1] & 2 and I.ops[k][0] == "i":
                    J = self.f.inst[self.strip_cast(I.ops[k])[1]]
                    t = self.table_char(J)
                    if t is not None and t[0] == "class":
                        return self.nonzero(t[1], at)
                    if I.ty in ("i8", "i32") and J.op == "load":
                        return self.nonzero(J, at)
            return []
        if I.op == "call" and (I.callee() or "").startswith("is") and I.callee() not in ("iscntrl", "isascii") and I.ops and I.ops[0][0] == "i":
            return self.nonzero(self.f.inst[self.strip_cast(I.ops[0])[1]], at)
        if I.op == "call" and I.callee() in ("tolower", "toupper") and I.ops[0][0] == "i":
            return self.nonzero(self.f.inst[self.strip_cast(I.ops[0])[1]], at)
        return []

    def found(self, o):
        """The pointer is not null: what the search that answered it promises."""
        o = self.strip_cast(o)
        if o[0] != "i":
            return []
        I = self.f.inst[o[1]]
        if I.op == "call" and I.callee() in INSIDE:
            c = I.callee()
            r, h = self.expand(o), self.expand(I.ops[0])
            R = self.roots(I.ops[0])
            out = [("le", le(h, r))]
            k = 1
            if INSIDE[c] is not None:
                s = self.m.cstr(I.ops[1])
                k = len(s) if s is not None else 0
                pre = self.known_prefix(I.ops[0])
                if s and pre:
                    out.append(("le", le(h, r, overlap(pre, s))))
            if c in ("strchr", "strrchr", "memchr") and I.ops[1][0] == "c" and I.ops[1][1] == 0:
                k = 0
            if c == "memchr":
                out.append(("le", le(r, add(h, self.expand(I.ops[2])), 1)))
                if not (I.ops[1][0] == "c" and I.ops[1][1] == 0):
                    return out
            if len(R) == 1:
                out.append(("le", le(r, self.end_of(next(iter(R)), I), k)))
            return out
        if I.op == "phi":
            return []
        return []

    def known_prefix(self, o):
        o = self.strip_cast(o)
        if o[0] == "i":
            I = self.f.inst[o[1]]
            if I.op == "call" and I.callee() == "strstr":
                return self.m.cstr(I.ops[1])
        return None

    def equal_text(self, o):
        """A comparison answered 0."""
        o = self.strip_cast(o)
        if o[0] != "i":
            return []
        I = self.f.inst[o[1]]
        c = I.callee() if I.op == "call" else None
        if c not in ("strncmp", "strcmp", "strcasecmp", "strncasecmp", "memcmp"):
            return []
        out = []
        for u, v in ((0, 1), (1, 0)):
            s = self.m.cstr(I.ops[v])
            if s is None:
                continue
            n = len(s)
            if c in ("strncmp", "strncasecmp", "memcmp"):
                e = self.expand(I.ops[2])
                if isconst(e):
                    n = min(n, e[0])
                else:
                    n = 0
            R = self.roots(I.ops[u])
            out += freeze(self.world.text_facts(self, I.ops[u], n))
            if len(R) == 1:
                out.append(("le", le(self.expand(I.ops[u]), self.end_of(next(iter(R)), I), n)))
        return out

    def edge_facts(self, a, b):
        """Facts that hold on the edge from block a to block b."""
        T = self.f.blocks[a].term
        if T.op == "br" and len(T.ops) == 3:
            t, e = T.ops[2][1], T.ops[1][1]
            if t == e:
                return []
            return self.cond_facts(T.ops[0], b == t)
        if T.op == "switch":
            vals = [T.ops[k][1] for k in range(2, len(T.ops), 2) if T.ops[k + 1][1] == b]
            dflt = T.ops[1][1] == b
            x = self.expand(T.ops[0])
            I = self.f.inst.get(T.ops[0][1]) if T.ops[0][0] == "i" else None
            allv = [T.ops[k][1] for k in range(2, len(T.ops), 2)]
            out = []
            if dflt and not vals:
                if 0 in allv and I is not None:
                    out += self.nonzero(I, T)
                out += [("ne", add(x, lin(-v))) for v in allv]
            elif not dflt and vals:
                if 0 not in vals and I is not None:
                    out += self.nonzero(I, T)
                if len(set(vals)) == 1:
                    out.append(("eq", add(x, lin(-vals[0]))))
                else:
                    out += [("le", add(x, lin(-max(vals)))), ("le", add(lin(min(vals)), x, -1))]
            return out
        return []

    def facts_at(self, b):
        """Facts of the edges that dominate block b."""
        if b not in self.facts_:
            out = []
            self.facts_[b] = out
            preds = [p for p in dict.fromkeys(self.f.blocks[b].preds)]
            if len(preds) == 1 and b != 0:
                out += self.edge_facts(preds[0], b)
            elif preds and b != 0 and not any(b in self.dom[p] for p in preds):
                # what all ways to a join agree on
                out += self.common(b, preds)
            d = self.idom(b)
            if d is not None:
                out += self.facts_at(d)
        return self.facts_[b]

    def common(self, b, preds):
        stop = self.idom(b)
        sets = []
        for p in preds:
            fs = list(freeze(self.edge_facts(p, b)))
            x = p
            while x is not None and x != stop:
                ps = list(dict.fromkeys(self.f.blocks[x].preds))
                if len(ps) == 1:
                    fs += freeze(self.edge_facts(ps[0], x))
                x = self.idom(x)
            if any((k in ("le",) and isconst(v) and v[0] > 0) for k, v in fs):
                continue
            sets.append(list(dict.fromkeys(fs)))
        if not sets:
            return []
        out = []
        for x in sets[0]:
            if all(x in s for s in sets[1:]):
                out.append(x)
        return out

    def idom(self, b):
        ds = self.dom[b] - {b}
        if not ds:
            return None
        return max(ds, key=lambda d: len(self.dom[d]))

    def def_facts(self, a):
        """Facts about an atom that hold wherever it is defined."""
        out = []
        if a[0] == "top":
            R, v = a[1], a[2]
            out.append(le(atom(R), atom(a)))
            if v and v[0] == "w":
                for Z in self.zeros(R, v):
                    out.append(le(atom(a), Z))
            return out
        if a[0] == "lim":
            return [le(atom(a[1]), atom(a))] + self.world.end_facts(self, a[1])
        I = self.inst_of(a)
        if I is None:
            return out + (self.world.param_facts(self, a[1]) if a[0] == "a" else [])
        if I.op == "call":
            c = I.callee()
            if c in ("strlen", "strnlen", "strspn", "strcspn"):
                out.append(scale(atom(a), -1))
                R = self.roots(I.ops[0])
                if len(R) == 1:
                    out.append(le(add(self.expand(I.ops[0]), atom(a)), self.end_of(next(iter(R)), I)))
                if c == "strnlen":
                    out.append(le(atom(a), self.expand(I.ops[1])))
                s = self.m.cstr(I.ops[0])
                if s is not None and c == "strlen":
                    out += [add(atom(a), lin(-len(s))), add(lin(len(s)), atom(a), -1)]
            out += self.world.call_facts(self, I)
        if I.op == "load" and I.d.get("sz") == 1:
            out += [add(atom(a), lin(-255)), add(lin(-128), atom(a), -1)]
        if I.op == "load" and I.d.get("sz") == 4:
            out += self.world.vector_facts(self, I)
        return out

    # ------------------------------------------------------------ proving
    def prove(self, L, b, hyps=(), depth=0, gamma=frozenset(), asks=frozenset()):
        """L <= 0 whenever control is in block b."""
        self.steps += 1
        if self.steps > self.limit:
            return False
        L = reduced(L)
        if isconst(L):
            if L[0] <= 0:
                return True
        key = (L, b, hyps, gamma, asks)
        d = self.memo.get(key)
        if d is not None and (d < 0 or depth >= d):
            return d < 0
        r = self.prove_(L, b, hyps, depth, gamma, asks)
        if r:
            self.memo[key] = -1
        elif self.steps <= self.limit:
            self.memo[key] = min(depth, self.memo.get(key, 99))
        return r

    def prove_(self, L, b, hyps, depth, gamma, asks):
        F = list(gamma) + self.facts_at(b)
        forms, nes, bad = self.usable(F, L, b, hyps, depth, asks)
        if bad:
            return True                     # this way cannot be taken
        if self.entails(L, forms, nes):
            return True
        if depth > 14:
            return False
        # a hypothesis of the induction
        for H, G, gm in hyps:
            d = add(L, G, -1)
            if isconst(d) and d[0] <= 0 and H in self.dom[b] and all(g in F for g in gm):
                return True
        # use of hypotheses as facts
        hf = [G for H, G, gm in hyps if H in self.dom[b] and all(g in F for g in gm)]
        if hf and self.entails(L, forms + hf, nes):
            return True
        for M in nes:
            if add(L, M, -1) == lin(1) or add(L, M) == lin(1):
                if self.prove(add(L, lin(-1)), b, hyps, depth + 1, gamma, asks):
                    return True
        # choices within a block
        for a, k in sorted(L[1], key=lambda x: -len(self.dom[self.defined_in(x[0])])):
            I = self.inst_of(a)
            if I is not None and I.op == "select" and not any(
                    h is not None and h != I.blk.n and I.blk.n in self.dom[h] for h in (self.home(x) for x, _ in L[1])):
                ok = True
                for w, o in ((True, I.ops[1]), (False, I.ops[2])):
                    g2 = frozenset(gamma | set(freeze(self.cond_facts(I.ops[0], w))))
                    if not self.prove(self.subst(L, {a: self.expand(o)}), b, hyps, depth + 1, g2, asks):
                        ok = False
                        break
                return ok
        # a bound that is a choice
        mine = dict(L[1])
        for x in forms:
            if depth < 12 and any(k < 0 and self.choice(a) and a not in mine for a, k in x[1]) and \
                    any(mine.get(a, 0) * k > 0 and (mine[a] > 0 and not self.is_buffer(a) or not any(c[0] == "top" for c, _ in x[1]))
                        for a, k in x[1]):
                d = add(L, x, -1)
                if len(d[1]) <= max(2, len(L[1])) + 1 and self.prove(d, b, hyps, depth + 3, gamma, asks):
                    return True
        # the first zero is not behind any zero
        for a, k in L[1]:
            if a[0] == "top" and k > 0 and a[2] and a[2][0] == "w":
                for Z in self.zeros(a[1], a[2]):
                    if not any(self.inst_of(x) is not None and self.inst_of(x).op in ("select", "phi") for x, _ in Z[1]):
                        continue
                    if self.prove(add(add(L, atom(a), -k), Z, k), b, hyps, depth + 1, gamma, asks):
                        return True
        return self.split(L, b, hyps, depth, gamma, F, forms, asks)

    def choice(self, a):
        if self.level == 0:
            return False
        if a[0] == "top":
            return True
        I = self.inst_of(a)
        return I is not None and (I.op in ("select", "phi") or
                                  self.level > 1 and I.op == "call" and I.callee() in ("strlen", "strspn", "strcspn"))

    def decide(self, L, I):
        """prove_at with growing effort."""
        for self.level, self.limit in ((0, 1500), (1, 4000), (2, 8000)):
            self.memo, self.zeros_ = self.memos.setdefault(self.level, ({}, {}))
            if self.prove_at(L, I):
                return True
        return False

    def steps_ahead(self):
        if not hasattr(self, "ahead_"):
            out = {1, 2, -1}
            for I in self.f.insts():
                if I.op == "call" and I.callee() in ("strncmp", "strncasecmp", "strcmp", "strstr", "strcasecmp"):
                    for o in I.ops[:2]:
                        s = self.m.cstr(o)
                        if s:
                            out.add(len(s))
            self.ahead_ = sorted(out)
        return self.ahead_

    def prove_at(self, L, I, tries=6):
        """L <= 0 at instruction I; also by way of the end of the text in a buffer: a position in it is not behind the end of
        its text, nor before its start."""
        self.steps = 0
        if self.prove(L, I.blk.n):
            return True
        if tries <= 0:
            return False
        for x in self.facts_at(I.blk.n):
            if tries > 4 and x[0] == "le":
                mine = dict(L[1])
                d = add(L, x[1], -1)
                if any(mine.get(a, 0) * k > 0 and self.inst_of(a) is not None and self.inst_of(a).ty == "ptr" for a, k in x[1][1]) and \
                        len(d[1]) <= len(L[1]) and self.prove_at(d, I, tries - 2):
                    return True
        for a, k in L[1]:
            if a[0] == "top" and k == 1 and a[2] and a[2][0] == "w":
                for Z in self.zeros(a[1], a[2]):
                    if self.prove_at(add(add(L, atom(a), -1), Z), I, tries - 1):
                        return True
            J = self.inst_of(a)
            if J is None or k != 1 or J.ty != "ptr" or self.is_buffer(a):
                continue
            R = self.roots(["i", a[1]])
            if len(R) != 1:
                continue
            R = next(iter(R))
            if R == a:
                continue
            if self.is_buffer(R):
                t = atom(("top", R, self.version_at(R, I)))
                M = L
                for c, kc in L[1]:
                    if kc < 0 and c != R and self.inst_of(c) is not None and self.inst_of(c).ty == "ptr" and \
                            self.roots(["i", c[1]]) == {R}:
                        self.steps = 0
                        if self.prove(le(atom(R), atom(c)), I.blk.n):
                            M = add(add(M, atom(c), -kc), atom(R), kc)
                self.steps = 0
                if self.prove(le(atom(a), t), I.blk.n) and self.prove_at(add(add(M, atom(a), -1), t), I, tries - 1):
                    return True
                # one character may still follow the position
                ahead = self.steps_ahead()
                z = self.size(R)
                rest = add(add(M, atom(a), -1), atom(R))
                if z is not None and isconst(z) and isconst(rest):
                    ahead = [z[0] - 1 + rest[0]]
                for d in ahead:
                    self.steps = 0
                    if self.prove(le(atom(a), t, d), I.blk.n) and self.prove_at(add(add(add(M, atom(a), -1), t), lin(-d)), I, tries - 1):
                        return True
        return False

    def subst(self, L, table):
        out = lin(L[0])
        for a, k in L[1]:
            out = add(out, table[a] if a in table else atom(a), k)
        return out

    def home(self, a):
        """Block at whose start the value merges, or None."""
        if a[0] == "top":
            return a[2][1] if a[2] and a[2][0] == "phi" else None
        I = self.inst_of(a)
        return I.blk.n if I is not None and I.op == "phi" else None

    def defined_in(self, a):
        if a[0] == "top":
            v = a[2]
            if v and v[0] == "phi":
                return v[1]
            if v and v[0] == "w":
                return self.f.inst[v[1]].blk.n
            return 0
        I = self.inst_of(a)
        return I.blk.n if I is not None else 0

    def split(self, L, b, hyps, depth, gamma, F, forms, asks):
        hs = {self.home(a) for a, _ in L[1]} - {None}
        # values that merge and are only related to the form by a fact
        hs = [h for h in hs if h in self.dom[b]]
        extra = []
        atoms = {a for a, _ in L[1]}
        for x in forms:
            if any(a in atoms for a, _ in x[1]):
                for a, _ in x[1]:
                    h = self.home(a)
                    if h is not None and h in self.dom[b] and h not in hs and h not in extra:
                        extra.append(h)
        hs.sort(key=lambda h: -len(self.dom[h]))
        if not hs:
            hs = sorted(extra, key=lambda h: -len(self.dom[h]))
        for H in hs[:2]:
            if sum(1 for x in hyps if x[0] == H) >= 3:
                continue
            for mode in (0, 1):
                g = frozenset() if mode == 0 else frozenset(x for x in F if self.mentions(x, H))
                if mode == 1 and not g:
                    continue
                if self.at_join(L, H, hyps, depth, g, asks):
                    return True
        return False

    def mentions(self, fact, H):
        if fact[0] == "nz":
            I = self.f.inst[fact[1]]
            return I.op == "phi" and I.blk.n == H
        return any(self.home(a) == H for a, _ in fact[1][1])

    def at_join(self, L, H, hyps, depth, g, asks):
        B = self.f.blocks[H]
        if any(x[0] == H and x[1] == L and x[2] == g for x in hyps):
            return False
        h2 = hyps + ((H, L, g),)
        phis = [I for I in B.insts if I.op == "phi"]
        for Q in dict.fromkeys(B.preds):
            table = {}
            for I in phis:
                for v, s in I.d["in"]:
                    if s == Q:
                        table[("i", I.i)] = self.expand(v)
            for x in [L] + [y[1] for y in g if y[0] != "nz"]:
                for a, _ in x[1]:
                    if a[0] == "top" and a[2] == ("phi", H):
                        o = self.versions(a[1])[1].get(Q)
                        table[a] = atom(("top", a[1], o))
            back = H in self.dom[Q]
            def move(x):
                y = self.subst(x, table)
                if back:
                    # values computed in the iteration that is left
                    t = {}
                    for a, _ in x[1]:
                        if a not in table and a[0] != "old" and self.defined_in(a) != 0 and H in self.dom[self.defined_in(a)]:
                            t[a] = atom(("old", len(h2), a))
                    if t:
                        y = lin(x[0])
                        for a, k in x[1]:
                            y = add(y, table[a] if a in table else t.get(a, atom(a)), k)
                return y
            L2 = move(L)
            g2 = set(freeze(self.edge_facts(Q, H)))
            dead = False
            for x in g:
                if x[0] == "nz":
                    I = self.f.inst[x[1]]
                    v = next(v for v, s in I.d["in"] if s == Q)
                    if v[0] == "c":
                        if v[1] == 0:
                            dead = True
                    elif v[0] == "i":
                        g2 |= set(freeze(self.nonzero(self.f.inst[v[1]], None)))
                else:
                    y = move(x[1])
                    if isconst(y):
                        if (x[0] == "le" and y[0] > 0) or (x[0] == "ne" and y[0] == 0) or (x[0] == "eq" and y[0] != 0):
                            dead = True
                    else:
                        g2.add((x[0], y))
                        if x[0] == "ne":
                            # a pointer that is not null
                            for I in phis:
                                if x[1] == atom(("i", I.i)):
                                    v = next(v for v, s in I.d["in"] if s == Q)
                                    g2 |= set(freeze(self.found(v)))
                                    if v[0] == "i" and self.f.inst[v[1]].ty == "i1":
                                        g2 |= set(freeze(self.cond_facts(v, True)))
                        if x[0] == "eq":
                            for I in phis:
                                if x[1] == atom(("i", I.i)) and I.ty == "i1":
                                    v = next(v for v, s in I.d["in"] if s == Q)
                                    g2 |= set(freeze(self.cond_facts(v, False)))
            if dead:
                continue
            if not self.prove(L2, Q, h2, depth + 1, frozenset(g2), asks):
                return False
        return True

    def usable(self, F, L, b, hyps, depth, asks):
        """(forms that are <= 0, forms that are not 0, contradiction)"""
        forms, nes = [], []
        for x in F:
            if x[0] == "le":
                forms.append(x[1])
            elif x[0] == "eq":
                forms += [x[1], scale(x[1], -1)]
            elif x[0] == "ne":
                nes.append(x[1])
            elif x[0] == "uns":
                # compared as unsigned numbers: what that says once the larger one is known not to be negative
                if x[4] not in asks and depth <= 10 and self.prove(scale(x[1], -1), x[3], (), depth + 1, frozenset(), asks | {x[4]}):
                    forms += [y for k, y in x[2] if k == "le"]
            elif x[0] == "nz":
                q = self.nz_form(x[1], hyps, depth, asks)
                if q is not None:
                    forms.append(q)
        if any(isconst(x) and x[0] > 0 for x in forms) or any(isconst(x) and x[0] == 0 for x in nes):
            return forms, nes, True
        # facts about the values involved
        seen, todo = set(), [a for a, _ in L[1]] + [a for x in forms for a, _ in x[1]]
        rounds = 0
        while todo and rounds < 60:
            rounds += 1
            a = todo.pop(0)
            if a in seen:
                continue
            seen.add(a)
            for x in self.def_facts(a):
                forms.append(x)
                todo += [y for y, _ in x[1] if y not in seen]
        return list(dict.fromkeys(forms)), nes, False

    def nz_form(self, i, hyps, depth, asks):
        """The element a load reads is not the terminating zero: the one behind it is still there."""
        I = self.f.inst[i]
        if I.op != "load":
            return None
        R = self.roots(I.ops[0])
        if len(R) != 1:
            return None
        R = next(iter(R))
        q = self.expand(I.ops[0])
        sz = I.d.get("sz", 1)
        if not self.is_buffer(R):
            if R[0] == "g":
                return None
            return le(q, atom(("lim", R)), sz)
        if sz != 1:
            return None
        end = self.end_of(R, I)
        if any(G == le(q, end) and not gm and H in self.dom[I.blk.n] for H, G, gm in hyps):
            return le(q, end, 1)
        if i in asks or depth > 10:
            return None
        if q == atom(R) or self.prove(le(q, end), I.blk.n, hyps, depth + 1, frozenset(), asks | {i}):
            return le(q, end, 1)
        return None

    def entails(self, L, forms, nes, depth=0, seen=None):
        if isconst(L):
            return L[0] <= 0
        if depth == 0:
            seen = {}
            for M in nes:
                for k in (1, -1):
                    if add(L, scale(M, k), -1) == lin(1) and self.entails(add(L, lin(-1)), forms, nes, 1, {}):
                        return True
        if depth == 0:
            seen["ix"] = ix = {}
            for x in forms:
                for a, k in x[1]:
                    ix.setdefault((a, k > 0), []).append(x)
        if depth > 5 or seen.get(L, 99) <= depth:
            return False
        seen[L] = depth
        # some fact has to cancel each value of L: take the value with the fewest facts
        ix = seen["ix"] if "ix" in seen else None
        if ix is None:
            seen["ix"] = ix = {}
            for x in forms:
                for a, k in x[1]:
                    ix.setdefault((a, k > 0), []).append(x)
        best = None
        for a, k in L[1]:
            c = ix.get((a, k > 0), ())
            if not c:
                return False
            if best is None or len(c) < len(best[2]):
                best = (a, k, c)
        a, n, c = best
        for x in c:
            k = dict(x[1])[a]
            d = add(L, x, -(n // k) if n % k == 0 else -1)
            if len(d[1]) > max(len(L[1]), 2) + 1:
                continue
            if self.entails(d, forms, nes, depth + 1, seen):
                return True
        return False


def reduced(L):
    g = 0
    for _, k in L[1]:
        g = math.gcd(g, abs(k))
    if g <= 1:
        return L
    out = lin(-((-L[0]) // g))
    for a, k in L[1]:
        out = add(out, atom(a), k // g)
    return out


def freeze(fs):
    return [tuple(x) for x in fs]


def order(p, d):
    return [("le", {"lt": add(d, lin(1)), "le": d, "gt": add(lin(1), d, -1), "ge": scale(d, -1)}[p])]


def overlap(pre, s):
    """Smallest k such that s can begin k characters behind the start of a text that begins with pre."""
    for k in range(len(pre) + 1):
        t = pre[k:]
        if s.startswith(t) or t.startswith(s):
            return k
    return len(pre)


def dominators(f):
    order_ = f.rpo()
    allb = set(order_)
    dom = {b: set(allb) for b in order_}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in order_:
            if b == 0:
                continue
            ps = [dom[p] for p in f.blocks[b].preds if p in dom]
            n = set.intersection(*ps) | {b} if ps else {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    for B in f.blocks:
        dom.setdefault(B.n, {B.n})
    return dom
