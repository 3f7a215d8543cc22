"""Object model over irx's JSON."""
from extract import AnalysisBroken


class Inst:
    __slots__ = ("i", "op", "ty", "d", "blk", "fn")

    def __init__(self, d, blk, fn):
        self.i, self.op, self.ty, self.d, self.blk, self.fn = d["i"], d["op"], d["ty"], d, blk, fn

    @property
    def ops(self):
        return self.d.get("ops", [])

    def where(self):
        l = self.d.get("l")
        return "%s:%d (%s)" % (l[0], l[1], l[2]) if l else "%s (no line)" % self.fn.name

    def scope(self):
        """Source function the instruction came from (before inlining)."""
        l = self.d.get("l")
        return l[2] if l else self.fn.name

    def callee(self):
        f = self.d.get("fn")
        return f[1] if f and f[0] == "g" else None

    def __repr__(self):
        return "<%%%d %s @%s>" % (self.i, self.op, self.where())


class Block:
    __slots__ = ("n", "insts", "succs", "preds", "fn")

    def __init__(self, n, fn):
        self.n, self.insts, self.succs, self.preds, self.fn = n, [], [], [], fn

    @property
    def term(self):
        return self.insts[-1]


class Func:
    def __init__(self, name, d, mod):
        self.name, self.d, self.mod = name, d, mod
        self.blocks = []
        self.inst = {}
        for n, b in enumerate(d.get("blocks", [])):
            B = Block(n, self)
            for x in b:
                I = Inst(x, B, self)
                B.insts.append(I)
                self.inst[I.i] = I
            self.blocks.append(B)
        for B in self.blocks:
            if not B.insts:
                raise AnalysisBroken("empty block in " + name)
            B.succs = [o[1] for o in B.term.ops if o[0] == "b"] if B.term.op in ("br", "switch", "indirectbr") else []
            for s in dict.fromkeys(B.succs):
                self.blocks[s].preds.append(B.n)

    @property
    def defined(self):
        return bool(self.blocks)

    def insts(self):
        for B in self.blocks:
            for I in B.insts:
                yield I

    def rpo(self):
        seen, out = set(), []
        st = [(0, iter(self.blocks[0].succs))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.blocks[s].succs)))
                    break
            else:
                out.append(n)
                st.pop()
        return out[::-1]

    def calls(self, name=None):
        return [I for I in self.insts() if I.op in ("call", "invoke") and (name is None or I.callee() == name)]


class Module:
    def __init__(self, j):
        self.j = j
        self.globals = j["globals"]
        self.structs = j["structs"]
        self.funcs = {n: Func(n, d, self) for n, d in j["functions"].items()}

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None or not f.defined:
            raise AnalysisBroken("function %s not found in the analysed program" % name)
        return f

    def cstr(self, op):
        """String constant behind an operand/initialiser element, or None."""
        if op and op[0] == "g":
            g = self.globals.get(op[1])
            if g and g.get("const") and "init" in g:
                return cstr_of(g["init"], op[2] if len(op) > 2 else 0)
        return None

    def gname(self, name):
        """Globals whose source name is `name` (statics are renamed on linking)."""
        return [g for n, g in self.globals.items() if g.get("name") == name or n == name]


def cstr_of(init, off):
    if init[0] == "s":
        s = init[1][off:]
        i = s.find("\0")
        return s[:i] if i >= 0 else s
    if init[0] == "z":
        return ""
    return None
