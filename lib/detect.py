"""Language detection: value sets of every result, and the order in which evidence is consulted."""
import prog, valset
from extract import AnalysisBroken

LT = "ohcount_hash_language_from_name"


def solve():
    m = prog.module()
    vs = valset.VS(m)
    vs.marks = {"magic_open", "magic_file", "magic_buffer", "magic_descriptor"}
    names = {m.cstr(f[0]) for k, f in vs.T[LT]}
    names.discard(None)
    off, _ = prog.field(m, "SourceFile", "language")
    reg = frozenset(["null"]) | frozenset(("str", n) for n in names)
    vs.fields = valset.VS.fields_all = {("SourceFile", off): reg}
    dis = []
    for k, f in vs.T["ohcount_hash_disambiguate_func_from_id"]:
        if f[0][0] == "g":
            dis.append(f[0][1])
    fns = ["ohcount_detect_language"] + sorted(set(dis))
    users = [n for n, f in m.funcs.items() if f.defined and any(
        I.op == "store" and vs.member(f, I.ops[1]) == ("SourceFile", off) for I in f.insts())]
    vs.solve(fns + [u for u in users if u not in fns])
    return m, vs, names, fns, users, off


def show(a):
    return "nothing" if a == "null" else repr(a[1])


# ---- where a lookup key comes from
SRC = {"ext": "extension", "filename": "file name", "contents": "contents", "filepath": "path", "diskpath": "path"}
COPY = {"strncpy": 1, "strcpy": 1, "memcpy": 1, "llvm.memcpy.p0.p0.i64": 1, "stpcpy": 1, "strcat": 1, "strncat": 1,
        "memmove": 1, "llvm.memmove.p0.p0.i64": 1, "snprintf": None, "sprintf": None}


class Origin:
    def __init__(self, m, f):
        self.m, self.f = m, f
        self.off = {}
        for n, off, ty in m.structs.get("SourceFile", ()):
            self.off[off] = n
        self.into = {}          # alloca id -> operands copied into it
        for I in f.insts():
            if I.op == "call" and I.callee() in COPY:
                k = COPY[I.callee()]
                for b in self.bases(I.ops[0]):
                    self.into.setdefault(b, []).extend(I.ops[k:k + 1] if k else I.ops[1:])
            elif I.op == "store" and I.ops[0][0] == "i" and I.d.get("sz") == 1:
                for b in self.bases(I.ops[1]):
                    self.into.setdefault(b, []).append(I.ops[0])

    def bases(self, o, seen=None):
        """stack buffers an operand may point into"""
        seen = set() if seen is None else seen
        if o[0] != "i" or o[1] in seen:
            return set()
        seen.add(o[1])
        I = self.f.inst[o[1]]
        if I.op == "alloca":
            return {I.i}
        out = set()
        for x in self.inputs(I):
            out |= self.bases(x, seen)
        if I.op == "call" and I.callee() in ("strstr", "strchr", "strrchr", "strpbrk", "strcasestr", "strncpy", "strcpy", "strtok", "memchr"):
            out |= self.bases(I.ops[0], seen)
        return out

    def inputs(self, I):
        if I.op == "getelementptr":
            return [I.d["base"]]
        if I.op == "phi":
            return [v for v, _ in I.d["in"]]
        if I.op == "select":
            return I.ops[1:]
        return []

    def ctype(self, o):
        """the C library's table of character conversions"""
        I = self.f.inst[o[1]] if o[0] == "i" else None
        if I is not None and I.op == "load" and I.ops[0][0] == "i":
            J = self.f.inst[I.ops[0][1]]
            return J.op == "call" and (J.callee() or "").startswith("__ctype_to")
        return False

    def of(self, o, seen=None):
        seen = set() if seen is None else seen
        if o[0] != "i" or o[1] in seen:
            return set()
        seen.add(o[1])
        I = self.f.inst[o[1]]
        if I.op == "load":
            p = I.ops[0]
            if p[0] == "i":
                G = self.f.inst[p[1]]
                if G.op == "getelementptr" and G.d["sty"] == "struct.SourceFile" and self.off.get(G.d["off"]) in SRC:
                    return {SRC[self.off[G.d["off"]]]}
                if G.op == "getelementptr" and G.d["var"] and self.ctype(G.d["base"]):
                    return set().union(*[self.of(v, seen) for v, k in G.d["var"]])
            return self.of(p, seen)
        if I.op == "alloca":
            out = set()
            for x in self.into.get(I.i, []):
                out |= self.of(x, seen)
            return out
        if I.op == "call":
            c = I.callee() or ""
            if c == "ohcount_sourcefile_get_contents":
                return {"contents"}
            if c.startswith("magic_"):
                return {"libmagic"}
            if c in ("tolower", "toupper", "strstr", "strchr", "strrchr", "strpbrk", "strcasestr", "strtok", "strdup", "memchr"):
                return self.of(I.ops[0], seen)
            if c in ("strncpy", "strcpy"):
                return self.of(I.ops[0], seen) | self.of(I.ops[1], seen)
            return set()
        out = set()
        for x in self.inputs(I) or (I.ops if I.op in ("sext", "zext", "trunc", "add", "sub", "or", "and") else []):
            out |= self.of(x, seen)
        return out
