"""What text a buffer holds on a path: the writes into it, as pieces at affine offsets, in order."""
import re
from spec import *


def length(text):
    """Length form of a piece source (a string form)."""
    if len(text[1]) == 1 and text[0] == 0 and text[1][0][0][0] == "str":
        return lin(len(text[1][0][0][1]))
    return S(atom(("pure", "strlen", (text,), 0)))


class Text:
    """pieces: [(offset form, kind, value, length form)]; kind 'text' (string form), 'char' (code), '?'."""

    def __init__(self, buf):
        self.buf, self.pieces = S(buf), []

    def off(self, a):
        return add(S(a), self.buf, -1)

    def mine(self, a):
        b = self.buf[1][0][0]
        return any(x == b and c == 1 for x, c in S(a)[1])

    def put(self, off, kind, v, n, cut=True):
        if cut:
            keep = []
            for q in self.pieces:
                d = add(q[0], off, -1)
                if isconst(d) and d[0] >= 0 or (not isconst(d) and d[0] >= 0 and all(c > 0 for _, c in d[1])):
                    continue
                keep.append(q)
            self.pieces = keep
        self.pieces.append((off, kind, v, n))

    def event(self, e):
        if e[0] == "store" and self.mine(e[1]):
            self.put(self.off(e[1]), "char" if isconst(e[2]) else "var", e[2][0] if isconst(e[2]) else S(e[2]), lin(1))
            return True
        if e[0] != "call" or e[1] not in WRITES or not self.mine(e[2][0]):
            return False
        o, a = self.off(e[2][0]), [S(x) for x in e[2]]
        if e[1] in ("strncpy", "memcpy", "memmove"):
            n = length(a[1])
            if a[2] == n:
                self.put(o, "text", a[1], n)
            elif a[2] == add(n, lin(1)):
                self.put(o, "text", a[1], n)
                self.put(add(o, n), "char", 0, lin(1))
            else:
                self.put(o, "part", a[1], a[2])
        elif e[1] in ("strcpy", "strcat", "strncat"):
            if e[1] != "strcpy":
                z = [q for q in self.pieces if q[1] == "char" and q[2] == 0]
                if not z:
                    self.put(o, "?", None, lin(0))
                    return True
                o = z[-1][0]
            n = length(a[1])
            if e[1] == "strncat" and a[2] != n:
                n2 = a[2]
                self.put(o, "part", a[1], n2)
                n = n2
            else:
                self.put(o, "text", a[1], n)
            self.put(add(o, n), "char", 0, lin(1))
        elif e[1] in ("sprintf", "snprintf"):
            k = 1 if e[1] == "sprintf" else 2
            f = a[k]
            s = f[1][0][0][1] if len(f[1]) == 1 and f[1][0][0][0] == "str" and f[0] == 0 else None
            if s is None:
                self.put(o, "?", None, lin(0))
                return True
            k += 1
            first = True
            for t in re.finditer(r"%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z)?([a-zA-Z%])|[^%]", s):
                if t.group(0) == "%s" and k < len(a):
                    n = length(a[k])
                    self.put(o, "text", a[k], n, first)
                    o = add(o, n)
                    k += 1
                elif len(t.group(0)) == 1:
                    self.put(o, "char", ord(t.group(0)), lin(1), first)
                    o = add(o, lin(1))
                else:
                    self.put(o, "?", None, lin(0), first)
                    return True
                first = False
            self.put(o, "char", 0, lin(1), first)
        else:
            self.put(o, "?", None, lin(0))
        return True

    def read(self):
        """The pieces from the start up to the terminator, or None when they do not form one text."""
        at, out, todo = ZERO, [], list(self.pieces)
        while True:
            nxt = [q for q in todo if q[0] == at]
            if not nxt:
                return None
            q = nxt[-1]
            todo = [x for x in todo if x[0] != at]
            if q[1] == "char" and q[2] == 0:
                return out
            out.append((q[1], chr(q[2]) if q[1] == "char" and 0 < q[2] < 256 else q[2]))
            at = add(at, q[3])


def text_at(p, buf, upto):
    """Pieces of the text in buf when event `upto` happens (None: cannot be made out)."""
    t = Text(buf)
    for e in p.events:
        if e is upto:
            break
        t.event(e)
    return t.read()


def say(pieces):
    if pieces is None:
        return "something that is not one terminated text"
    return " + ".join(show(v) if k == "text" else repr(v) if k == "char" else "part of " + show(v) if k == "part" else "?"
                      for k, v in pieces) or "an empty text"
