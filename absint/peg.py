"""Reader for pest grammars and an interpreter of them over abstract text.

The grammar file is the specification of the parser (pest_derive compiles exactly this text), so parse
trees of abstract IDL shapes are derived from the current grammar, not from a copy of it.  A hole (an
opaque fragment, see values.py) stands for any identifier / any number: it is matched by the character
classes, never by a literal."""
import re

from .values import HOLE0, hole_info

NORMAL, SILENT, ATOMIC, COMPOUND, NONATOMIC = "", "_", "@", "$", "!"

TOK = re.compile(r"""\s*(?:(//[^\n]*)|(/\*.*?\*/)|("(?:[^"\\]|\\.)*")|('(?:[^'\\]|\\.)+')|([A-Za-z_][A-Za-z_0-9]*)|(\.\.)|(\^)|([=~|*+?!&(){}@$_,\[\]#-])|(\d+))""", re.S)


class GrammarError(Exception):
    pass


def unesc(s):
    return s[1:-1].encode().decode("unicode_escape")


def tokenize(src):
    out, i = [], 0
    src = src.rstrip()
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise GrammarError("cannot read grammar at: " + src[i:i + 30])
        i = m.end()
        if m.group(1) is not None or m.group(2) is not None:
            continue
        t = m.group(3) or m.group(4) or m.group(5) or m.group(6) or m.group(7) or m.group(8) or m.group(9)
        out.append(t)
    return out


class Grammar:
    def __init__(self, src):
        self.t = tokenize(src)
        self.i = 0
        self.rules = {}
        self.order = []
        while self.i < len(self.t):
            n = self.tk()
            self.eat("=")
            mod = NORMAL
            if self.pk() in ("_", "@", "$", "!"):
                mod = self.tk()
            self.eat("{")
            e = self.choice()
            self.eat("}")
            self.rules[n] = (mod, e)
            self.order.append(n)
        self.deepest = 0

    def pk(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def tk(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.tk() != x:
            raise GrammarError(f"expected {x} near {self.t[self.i - 3:self.i + 2]}")

    def choice(self):
        if self.pk() == "|":
            self.tk()
        xs = [self.seq()]
        while self.pk() == "|":
            self.tk()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ("alt", xs)

    def seq(self):
        xs = [self.term()]
        while self.pk() == "~":
            self.tk()
            xs.append(self.term())
        return xs[0] if len(xs) == 1 else ("seq", xs)

    def term(self):
        p = self.pk()
        if p in ("!", "&"):
            self.tk()
            return ("not" if p == "!" else "and", self.term())
        if p == "(":
            self.tk()
            e = self.choice()
            self.eat(")")
        elif p == "^":
            self.tk()
            e = ("insens", unesc(self.tk()))
        elif p and p[0] == '"':
            e = ("str", unesc(self.tk()))
        elif p and p[0] == "'":
            a = unesc(self.tk())
            self.eat("..")
            e = ("range", a, unesc(self.tk()))
        elif p and (p[0].isalpha() or p[0] == "_"):
            e = ("id", self.tk())
        else:
            raise GrammarError(f"unexpected {p}")
        while self.pk() in ("*", "+", "?", "{"):
            q = self.tk()
            if q == "*":
                e = ("rep", e)
            elif q == "+":
                e = ("seq", [e, ("rep", e)])
            elif q == "?":
                e = ("opt", e)
            else:
                lo = hi = None
                if self.pk() != ",":
                    lo = int(self.tk())
                if self.pk() == ",":
                    self.tk()
                    if self.pk() != "}":
                        hi = int(self.tk())
                else:
                    hi = lo
                self.eat("}")
                lo = lo or 0
                xs = [e] * lo
                if hi is None:
                    xs.append(("rep", e))
                else:
                    xs += [("opt", e)] * (hi - lo)
                e = xs[0] if len(xs) == 1 else ("seq", xs)
        return e

    # ---- matching ---------------------------------------------------------
    def parse(self, rule, text):
        """Returns the list of top nodes or None."""
        self.text = text
        self.deepest = 0
        r = self.call(rule, 0, "N", False)
        return None if r is None else r[1]

    # result: (end, nodes) or None
    def call(self, n, p, at, look):
        r = self.rules.get(n)
        if r is None:
            return self.builtin(n, p)
        mod, e = r
        if mod == SILENT:
            if n in ("WHITESPACE", "COMMENT"):
                return self.m(e, p, "A", look)
            return self.m(e, p, at, look)
        tok_at = at
        in_at = at
        if mod == ATOMIC:
            in_at = "A"
        elif mod == COMPOUND:
            tok_at = in_at = "C"
        elif mod == NONATOMIC:
            tok_at = in_at = "N"
        elif n in ("WHITESPACE", "COMMENT"):
            in_at = "A"
        r = self.m(e, p, in_at, look)
        if r is None:
            return None
        if not look and tok_at != "A":
            return r[0], [Node(n, p, r[0], r[1])]
        return r

    def builtin(self, n, p):
        s = self.text
        if n == "SOI":
            return (p, []) if p == 0 else None
        if n == "EOI":
            return (p, [Node("EOI", p, p, [])]) if p == len(s) else None
        if n == "NEWLINE":
            for x in ("\n", "\r\n", "\r"):
                if s.startswith(x, p):
                    return p + len(x), []
            return None
        if p >= len(s):
            return None
        c = s[p]
        if n == "ANY":
            return p + 1, []
        if ord(c) >= HOLE0:
            k = hole_info(c)[1]
            ok = {"ASCII_ALPHA": k == "ident", "ASCII_ALPHANUMERIC": k in ("ident", "num"),
                  "ASCII_DIGIT": k == "num", "ASCII_HEX_DIGIT": k == "num", "ASCII_ALPHA_LOWER": False,
                  "ASCII_ALPHA_UPPER": False, "ASCII_NONZERO_DIGIT": False, "ASCII": True}.get(n)
        else:
            ok = {"ASCII_ALPHA": c.isascii() and c.isalpha(), "ASCII_ALPHANUMERIC": c.isascii() and c.isalnum(),
                  "ASCII_DIGIT": c in "0123456789", "ASCII_HEX_DIGIT": c in "0123456789abcdefABCDEF",
                  "ASCII_ALPHA_LOWER": c.isascii() and c.islower(), "ASCII_ALPHA_UPPER": c.isascii() and c.isupper(),
                  "ASCII_NONZERO_DIGIT": c in "123456789", "ASCII_OCT_DIGIT": c in "01234567",
                  "ASCII_BIN_DIGIT": c in "01", "ASCII": c.isascii()}.get(n)
        if ok is None:
            raise GrammarError("unknown rule " + n)
        return (p + 1, []) if ok else None

    def skip(self, p, at, look):
        if at != "N":
            return p, []
        ws = "WHITESPACE" in self.rules
        cm = "COMMENT" in self.rules
        out = []

        def wsr(p):
            while ws:
                r = self.call("WHITESPACE", p, "N", look)
                if r is None or r[0] == p:
                    return p
                out.extend(r[1])
                p = r[0]
            return p
        p = wsr(p)
        while cm:
            r = self.call("COMMENT", p, "N", look)
            if r is None:
                break
            out.extend(r[1])
            p = wsr(r[0])
        return p, out

    def m(self, e, p, at, look):
        if p > self.deepest and not look:
            self.deepest = p
        k = e[0]
        if k == "str":
            return (p + len(e[1]), []) if self.text.startswith(e[1], p) else None
        if k == "insens":
            return (p + len(e[1]), []) if self.text[p:p + len(e[1])].lower() == e[1].lower() else None
        if k == "range":
            return (p + 1, []) if p < len(self.text) and e[1] <= self.text[p] <= e[2] else None
        if k == "id":
            r = self.call(e[1], p, at, look)
            return r
        if k == "seq":
            out = []
            for i, x in enumerate(e[1]):
                if i:
                    p, t = self.skip(p, at, look)
                    out += t
                r = self.m(x, p, at, look)
                if r is None:
                    return None
                p = r[0]
                out += r[1]
            return p, out
        if k == "alt":
            for x in e[1]:
                r = self.m(x, p, at, look)
                if r is not None:
                    return r
            return None
        if k == "opt":
            return self.m(e[1], p, at, look) or (p, [])
        if k == "rep":
            r = self.m(e[1], p, at, look)
            if r is None:
                return p, []
            out = list(r[1])
            p = r[0]
            while True:
                q, t = self.skip(p, at, look)
                r = self.m(e[1], q, at, look)
                if r is None:
                    return p, out
                if r[0] == p:
                    raise GrammarError("repetition of an empty match")
                out += t + r[1]
                p = r[0]
        if k == "not":
            return (p, []) if self.m(e[1], p, at, True) is None else None
        if k == "and":
            return (p, []) if self.m(e[1], p, at, True) is not None else None
        raise GrammarError(k)


class Node:
    __slots__ = ("rule", "a", "b", "ch")

    def __init__(self, rule, a, b, ch):
        self.rule, self.a, self.b, self.ch = rule, a, b, ch

    def __repr__(self):
        return f"{self.rule}[{self.a}:{self.b}]({', '.join(map(repr, self.ch))})"
