"""Flow-sensitive finite value-set analysis over the inlined IR (strings, table rows, functions, small integers).

An abstract value is TOP (None) or a frozenset of atoms:
  "null" | ("str", text) | ("row", table, index, byte offset) | ("fn", name) | ("int", n)
States are kept apart by the outcome (hit/miss) of each table lookup executed so far, so that 'found by its extension'
and 'found by its file name' are separate cases all the way to the return."""
import registry
from extract import AnalysisBroken

TOP = None
NULL = frozenset(["null"])
LOOKUP = {"ohcount_hash_language_from_name", "ohcount_hash_language_from_ext", "ohcount_hash_language_from_filename",
          "ohcount_hash_disambiguate_func_from_id", "ohcount_hash_parser_from_language",
          "ohcount_hash_command_from_flag", "ohcount_hash_is_cppheader"}


def union(a, b):
    return TOP if a is TOP or b is TOP else a | b


class VS:
    def __init__(self, m):
        self.m = m
        self.T = registry.tables(m)
        self.ret = {}         # function -> value set
        self.prev = {}        # the same, from the previous round (recursion)
        self.active = set()
        self.results = {}     # function -> list of (key, env, inst) at returns
        self.marks = set()    # calls that are remembered in the key like a lookup
        self.log = {}         # function -> list of (inst, key, env) at calls and stores
        self.layout = {}
        for t, rows in self.T.items():
            offs, o = [0], 8
            for e in rows[0][1]:
                sz = 8 if e[0] in ("g", "n") else max(1, e[2] // 8 if e[0] == "c" else 8)
                o = (o + sz - 1) // sz * sz
                offs.append(o)
                o += sz
            self.layout[t] = offs

    # -- values
    def const(self, o):
        k = o[0]
        if k == "n":
            return NULL
        if k == "u":
            return frozenset()             # undefined: never read on a real path
        if k == "c":
            return frozenset([("int", o[1])])
        if k == "g":
            s = self.m.cstr(o)
            if s is not None:
                return frozenset([("str", s)])
            if o[1] in self.m.funcs:
                return frozenset([("fn", o[1])])
        return TOP

    def val(self, env, o):
        if o[0] == "i":
            return env.get(o[1], TOP)
        return self.const(o)

    def cell(self, table, idx, off):
        key, fs = self.T[table][idx]
        try:
            k = self.layout[table].index(off)
        except ValueError:
            return TOP
        if k == 0:
            return frozenset([("str", key)])
        return self.const(fs[k - 1])

    fields_all = {}
    fields = {}        # (struct, offset) -> value set that every store of the field has been shown to keep

    def member(self, f, o):
        """(struct, offset) when operand o addresses a struct member."""
        if o[0] == "i":
            G = f.inst[o[1]]
            if G.op == "getelementptr" and not G.d["var"] and G.d["ok"] and G.d["sty"].startswith("struct."):
                return G.d["sty"][7:], G.d["off"]
        return None

    # -- the tracked members: what they hold between the stores of one function ("C" + base: value set, "L" + base: the
    # SSA values known to equal it)
    def tracked(self, f, o):
        k = self.member(f, o)
        if k in self.fields:
            return k, "%s %s" % (k, f.inst[o[1]].d["base"])
        return None

    def sync(self, env):
        if env is None:
            return None
        for k in [k for k in env if isinstance(k, str) and k[0] == "L"]:
            c = env.get("C" + k[1:])
            if c is None:
                continue
            for i in env[k]:
                v = env.get(i, TOP)
                if v is not TOP:
                    c = v if c is TOP else c & v
            if c is not TOP:
                env["C" + k[1:]] = c
                for i in env[k]:
                    env[i] = c
        return env

    def put(self, env, f, I):
        t = self.tracked(f, I.ops[1])
        if t:
            # another object of the kind may be the same one
            for k in [k for k in env if isinstance(k, str) and k[1:].startswith(str(t[0])) and k[1:] != t[1]]:
                if k[0] == "L":
                    env[k] = frozenset()
            env["C" + t[1]] = self.val(env, I.ops[0])
            env["L" + t[1]] = frozenset([I.ops[0][1]] if I.ops[0][0] == "i" else [])

    def forget(self, env, I):
        """a call to a function of this program may set the members again"""
        c = I.callee()
        if c is None or c in self.m.funcs and self.m.funcs[c].defined:
            for k in [k for k in env if isinstance(k, str)]:
                del env[k]

    def load(self, env, I):
        t = self.tracked(I.fn, I.ops[0]) if self.fields else None
        if t and env.get("C" + t[1]) is not None:
            env["L" + t[1]] = env["L" + t[1]] | {I.i}
            return env["C" + t[1]]
        p = self.val(env, I.ops[0])
        if p is TOP:
            return self.fields.get(self.member(I.fn, I.ops[0]), TOP) if self.fields else TOP
        out = frozenset()
        for a in p:
            if a == "null":
                continue                       # a null dereference ends the path
            if a[0] == "row":
                out = union(out, self.cell(a[1], a[2], a[3]))
            elif a[0] == "str" and I.d.get("sz") == 1:
                c = ord(a[1][0]) if a[1] else 0
                out = union(out, frozenset([("int", c - 256 if c > 127 else c)]))
            else:
                return TOP
        return out

    def gep(self, env, I):
        b = self.val(env, I.d["base"])
        if b is TOP or I.d["var"] or not I.d["ok"]:
            return TOP
        off, out = I.d["off"], set()
        for a in b:
            if a == "null":
                if off == 0:
                    out.add(a)
            elif a[0] == "row":
                out.add(("row", a[1], a[2], a[3] + off))
            elif a[0] == "str" and 0 <= off <= len(a[1]):
                out.add(("str", a[1][off:]))
            else:
                return TOP
        return frozenset(out)

    # -- conditions
    def refine(self, f, env, c, want):
        """env narrowed by condition operand c being `want`; None when impossible."""
        if c[0] == "c":
            return env if bool(c[1]) == want else None
        if c[0] != "i":
            return env
        I = f.inst[c[1]]
        v = env.get(c[1], TOP)
        if v is not TOP and not any(isinstance(a, tuple) and a[0] == "int" and bool(a[1] & 1) == want for a in v):
            return None
        if I.op == "icmp" and I.d["pred"] in ("eq", "ne"):
            eq = (I.d["pred"] == "eq") == want
            for a, b in ((I.ops[0], I.ops[1]), (I.ops[1], I.ops[0])):
                k = self.val(env, b)
                if k is TOP or len(k) != 1 or a[0] != "i":
                    continue
                k = next(iter(k))
                env = self.narrow(f, env, a[1], lambda x: (x == k) == eq)
                if env is None:
                    return None
            return env
        if I.op == "xor" and I.ops[1][0] == "c":
            return self.refine(f, env, I.ops[0], not want)
        if I.op == "and" and want or I.op == "or" and not want:
            for o in I.ops:
                env = self.refine(f, env, o, want)
                if env is None:
                    return None
            return env
        if I.op == "select" and I.ty == "i1":
            r = []
            for cond, o in ((True, I.ops[1]), (False, I.ops[2])):
                e = self.refine(f, env, I.ops[0], cond)
                if e is not None:
                    e = self.refine(f, e, o, want)
                if e is not None:
                    r.append(e)
            return self.join(r)
        return env

    def narrow(self, f, env, i, pred):
        v = env.get(i, TOP)
        D = f.inst[i]
        env = dict(env)
        if v is not TOP:
            v = frozenset(a for a in v if pred(a))
            if not v:
                return None
            env[i] = v
        if D.op in ("sext", "zext", "trunc") and D.ops[0][0] == "i":
            return self.narrow(f, env, D.ops[0][1], pred)
        if D.op == "call" and D.callee() == "strcmp":       # a comparison narrows what is compared
            for a, b in ((D.ops[0], D.ops[1]), (D.ops[1], D.ops[0])):
                k = self.val(env, b)
                x = self.val(env, a)
                if a[0] == "i" and x is not TOP and k is not TOP and len(k) == 1:
                    keep = frozenset(s for s in x if s != "null" and pred(("int", int(s not in k))))
                    if not keep:
                        return None
                    env[a[1]] = keep
            return env
        if D.op == "load" and D.ops[0][0] == "i":       # a test of *p narrows p
            p = D.ops[0][1]
            pv = env.get(p, TOP)
            if pv is not TOP:
                keep = frozenset(a for a in pv if any(pred(x) for x in (self.load({p: frozenset([a])}, D) or ())))
                G = f.inst[p]
                if not keep:
                    return None
                env[p] = keep
                if G.op == "getelementptr" and G.d["base"][0] == "i" and env.get(G.d["base"][1], TOP) is not TOP:
                    b = G.d["base"][1]
                    kb = frozenset(a for a in env[b] if (self.gep({b: frozenset([a])}, G) or frozenset()) & keep)
                    if not kb:
                        return None
                    env[b] = kb
                    return self.back(f, env, b)
                return self.back(f, env, p)
        return self.back(f, env, i)

    def back(self, f, env, i):
        """what is known of a loaded value narrows the row it was loaded from"""
        D = f.inst[i]
        if D.op == "load" and D.ops[0][0] == "i" and D.ops[0][1] in env and env[D.ops[0][1]] is not TOP and env[i] is not TOP:
            p = D.ops[0][1]
            keep = frozenset(a for a in env[p] if (self.load({p: frozenset([a])}, D) or frozenset()) & env[i])
            if not keep:
                return None
            env[p] = keep
        return env

    @staticmethod
    def join(es):
        if not es:
            return None
        r = dict(es[0])
        for e in es[1:]:
            for k in [k for k in set(r) | set(e) if isinstance(k, str)]:
                if k[0] == "L":
                    r[k] = r.get(k, frozenset()) & e.get(k, frozenset())
                else:
                    st = next(v for n, v in VS.fields_all.items() if k[1:].startswith(str(n)))
                    a, b = r.get(k, st), e.get(k, st)
                    r[k] = TOP if a is TOP or b is TOP else a | b
            for k in list(r):
                if isinstance(k, str):
                    continue
                x = union(r[k], e.get(k, TOP))
                if x is TOP:
                    del r[k]
                else:
                    r[k] = x
        return r

    # -- functions
    def summary(self, name):
        f = self.m.funcs.get(name)
        if f is None or not f.defined:
            return TOP
        if name in self.ret:
            return self.ret[name]
        if name in self.active:
            return self.prev.get(name, frozenset())
        self.active.add(name)
        self.ret[name] = self.run(f)
        self.active.discard(name)
        return self.ret[name]

    def solve(self, names):
        """Least fixpoint of the summaries of `names` and what they call."""
        for _ in range(20):
            self.ret = {}
            for n in names:
                self.summary(n)
            if self.ret == self.prev:
                return
            self.prev = dict(self.ret)
        raise AnalysisBroken("value-set summaries do not converge")

    def run(self, f):
        log, rets = [], []
        state = {(0, ()): {}}
        work = [(0, ())]
        order = {b: n for n, b in enumerate(f.rpo())}
        visits = {}
        while work:
            work.sort(key=lambda x: -order[x[0]])
            b, key = work.pop()
            visits[(b, key)] = visits.get((b, key), 0) + 1
            if visits[(b, key)] > 400:
                raise AnalysisBroken("value-set analysis of %s does not converge" % f.name)
            for k2, env, T in self.block(f, f.blocks[b], key, dict(state[(b, key)]), None, None):
                for s, e in self.edges(f, T, env):
                    for I in f.blocks[s].insts:
                        if I.op != "phi":
                            break
                        for v, frm in I.d["in"]:
                            if frm == b:
                                nv = self.val(env, v)
                                e[("phi", I.i)] = self.val(e, v)
                    for k in [k for k in e if isinstance(k, tuple)]:
                        x = e.pop(k)
                        e.pop(k[1], None)
                        for l in [l for l in e if isinstance(l, str) and l[0] == "L" and k[1] in e[l]]:
                            e[l] = e[l] - {k[1]}
                        if x is not TOP:
                            e[k[1]] = x
                    old = state.get((s, k2))
                    new = e if old is None else self.join([old, e])
                    if old is None or new != old:
                        state[(s, k2)] = new
                        if (s, k2) not in work:
                            work.append((s, k2))
        for (b, key), env in state.items():
            for k2, e, T in self.block(f, f.blocks[b], key, dict(env), log, rets):
                pass
        self.results[f.name], self.log[f.name] = rets, log
        out = frozenset()
        for k, v, I in rets:
            out = union(out, v)
        return out

    def edges(self, f, T, env):
        if T.op == "br":
            if len(T.ops) == 1:
                return [(T.ops[0][1], dict(env))]
            c, fo, to = T.ops[0], T.ops[1][1], T.ops[2][1]
            out = []
            for s, w in ((to, True), (fo, False)):
                e = self.sync(self.refine(f, dict(env), c, w))
                if e is not None:
                    out.append((s, dict(e)))
            return out
        if T.op == "switch":
            v = self.val(env, T.ops[0])
            out, seen = [], set()
            for k in range(2, len(T.ops), 2):
                c = ("int", T.ops[k][1])
                seen.add(c)
                if v is TOP or c in v:
                    e = dict(env)
                    if T.ops[0][0] == "i":
                        e = self.narrow(f, e, T.ops[0][1], lambda x, c=c: x == c)
                    if e is not None:
                        out.append((T.ops[k + 1][1], dict(e)))
            if v is TOP or v - seen:
                e = dict(env)
                if T.ops[0][0] == "i":
                    e = self.narrow(f, e, T.ops[0][1], lambda x: x not in seen)
                if e is not None:
                    out.append((T.ops[1][1], dict(e)))
            return out
        return []

    def block(self, f, B, key, env, log, rets):
        """Run the block; yields (key, env, terminator), one per lookup outcome."""
        todo = [(0, key, env)]
        while todo:
            n, key, env = todo.pop()
            done = True
            while n < len(B.insts):
                I = B.insts[n]
                n += 1
                if I.op == "phi":
                    continue
                if I.op == "ret":
                    if log is not None:
                        log.append((I, key, dict(env)))
                    if rets is not None:
                        rets.append((key, self.val(env, I.ops[0]) if I.ops else frozenset(), I))
                    done = False
                    break
                if I.op == "unreachable":
                    done = False
                    break
                if I.op in ("call", "store") and log is not None:
                    log.append((I, key, dict(env)))
                if I.op == "call" and I.callee() in self.marks:
                    key = tuple(sorted(dict(key + ((I.i, 2),)).items()))
                if I.op == "call" and I.callee() in LOOKUP:
                    t = I.callee()
                    a = self.val(env, I.ops[0])
                    strs = a is not TOP and all(isinstance(x, tuple) and x[0] == "str" for x in a)
                    rows = frozenset(("row", t, k, 0) for k, (name, _) in enumerate(self.T[t])
                                     if not strs or ("str", name) in a)
                    names = {r[0] for r in self.T[t]}
                    for hit, v in ((1, rows), (0, NULL)):
                        if hit and not rows or not hit and strs and all(x[1] in names for x in a):
                            continue
                        e = dict(env)
                        e[I.i] = v
                        if strs and hit and I.ops[0][0] == "i":
                            e2 = self.narrow(f, e, I.ops[0][1], lambda x: x[1] in names)
                            e = e2 if e2 is not None else e
                        k2 = tuple(sorted(dict(key + ((I.i, hit),)).items()))
                        todo.append((n, k2, e))
                    done = False
                    break
                if I.op == "store":
                    self.put(env, f, I)
                elif I.op == "call":
                    self.forget(env, I)
                for k in [k for k in env if isinstance(k, str) and k[0] == "L" and I.i in env[k]]:
                    env[k] = env[k] - {I.i}
                v = self.eval(f, env, I)
                if v is TOP:
                    env.pop(I.i, None)
                else:
                    env[I.i] = v
                if I.op == "call" and self.noreturn(I):
                    done = False
                    break
            if done:
                yield key, env, B.term

    def noreturn(self, I):
        return I.callee() in ("exit", "abort", "_exit", "__assert_fail")

    def eval(self, f, env, I):
        op = I.op
        if op == "load":
            return self.load(env, I)
        if op == "getelementptr":
            return self.gep(env, I)
        if op == "call":
            c = I.callee()
            if c == "strcmp":
                a, b = self.val(env, I.ops[0]), self.val(env, I.ops[1])
                if a is not TOP and b is not TOP and all(x == "null" or x[0] == "str" for x in a | b):
                    return frozenset(("int", int(x != y)) for x in a - NULL for y in b - NULL)
            if I.ty != "ptr":
                return TOP
            if c:
                return self.summary(c)
            fn = self.val(env, I.d["fn"])
            if fn is TOP:
                return TOP
            out = frozenset()
            for a in fn:
                if a != "null" and a[0] == "fn":
                    out = union(out, self.summary(a[1]))
                elif a != "null":
                    return TOP
            return out
        if op == "select":
            out = frozenset()
            for w, o in ((True, I.ops[1]), (False, I.ops[2])):
                e = self.refine(f, dict(env), I.ops[0], w)
                if e is not None:
                    out = union(out, self.val(e, o))
            return out
        if op in ("sext", "zext", "trunc", "bitcast", "freeze"):
            return self.val(env, I.ops[0])
        if op == "icmp":
            a, b = self.val(env, I.ops[0]), self.val(env, I.ops[1])
            if a is not TOP and b is not TOP and I.d["pred"] in ("eq", "ne") and len(a) == 1 and len(b) == 1:
                return frozenset([("int", int((a == b) == (I.d["pred"] == "eq")))])
        return TOP
