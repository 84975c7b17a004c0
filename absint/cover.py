"""Texts covering a pest grammar: every alternative, every optional part present and absent, every repetition
taken zero times, once and twice, and a separator of every kind at every place where the grammar skips
blanks and comments.  Derived from the grammar file, so new rules are covered as they appear."""
import itertools

from .peg import ATOMIC, COMPOUND, NONATOMIC, SILENT

SEP = "\x00"        # a place of implicit skipping

BUILTIN = {"SOI": [""], "EOI": [""], "NEWLINE": ["\n", "\r\n", "\r"], "ANY": ["x", "\u00e9", "\U0001F600"],
           "ASCII_ALPHA": ["a", "Z"], "ASCII_ALPHANUMERIC": ["b", "7"], "ASCII_DIGIT": ["1", "0", "9"],
           "ASCII_HEX_DIGIT": ["c", "F", "0"], "ASCII_ALPHA_LOWER": ["a"], "ASCII_ALPHA_UPPER": ["Z"],
           "ASCII_NONZERO_DIGIT": ["1"], "ASCII_OCT_DIGIT": ["1"], "ASCII_BIN_DIGIT": ["1"], "ASCII": ["a"]}


class Cover:
    def __init__(self, g, cap=2500):
        self.g = g
        self.cap = cap
        self.memo = {}

    def rule(self, n, mode="N"):
        if n in BUILTIN and n not in self.g.rules:
            return BUILTIN[n]
        if n not in self.g.rules:
            raise KeyError("unknown rule " + n)
        mod, e = self.g.rules[n]
        at = {ATOMIC: "A", COMPOUND: "A", NONATOMIC: "N"}.get(mod, mode)
        if n in ("WHITESPACE", "COMMENT"):
            at = "A"
        k = (n, at)
        if k in self.memo:
            if self.memo[k] is None:
                raise RecursionError("recursive rule " + n)
            return self.memo[k]
        self.memo[k] = None
        self.memo[k] = self.uniq(self.ex(e, at))
        return self.memo[k]

    def uniq(self, xs):
        return list(dict.fromkeys(xs))[:self.cap]

    def ex(self, e, at):
        k = e[0]
        if k == "str":
            return [e[1]]
        if k == "insens":
            return [e[1], e[1].upper()]
        if k == "range":
            return [e[1], e[2]]
        if k == "id":
            return self.rule(e[1], at)
        if k in ("not", "and"):
            return [""]
        if k == "alt":
            # the first text of every alternative comes first: it is what others get combined with
            vs = [self.ex(x, at) for x in e[1]]
            return self.uniq([v[0] for v in vs] + [t for v in vs for t in v[1:]])
        if k == "opt":
            v = self.ex(e[1], at)
            return self.uniq([""] + v)
        if k == "rep":
            v = self.ex(e[1], at)
            j = SEP if at == "N" else ""
            pairs = [a + j + b for a, b in itertools.product(v[:5] + v[-2:], repeat=2)]
            return self.uniq([""] + v + pairs)
        if k == "seq":
            j = SEP if at == "N" else ""
            vs = [self.ex(x, at) for x in e[1]]
            out = [j.join(v[0] for v in vs)]
            for i, v in enumerate(vs):
                for t in v[1:]:
                    out.append(j.join(t if q == i else w[0] for q, w in enumerate(vs)))
            # presence and absence of parts in combination
            small = [v[:3] if len(v) <= 4 else v[:1] for v in vs]
            n = 1
            for s in small:
                n *= len(s)
            if n <= 81:
                out += [j.join(c) for c in itertools.product(*small)]
            return self.uniq(out)
        raise KeyError(k)

    def separators(self):
        out = [" "]
        if "COMMENT" in self.g.rules:
            out += self.rule("COMMENT", "A")
        return self.uniq([s if s.endswith(("\n", "\r")) or not s.startswith("//") else s + "\n" for s in out])

    def texts(self, top):
        """texts of the rule with separators resolved: (label, text)"""
        seps = self.separators()
        doc = [s for s in seps if s.startswith("/**")][:1]
        com = [s for s in seps if s.startswith("//")][:1] + [s for s in seps if s.startswith("/*") and not s.startswith("/**")][:1]
        out = {}
        base = self.rule(top)
        for i, t in enumerate(base):
            parts = t.split(SEP)
            out.setdefault(" ".join(parts), f"{i}/blank")
            out.setdefault("".join(parts), f"{i}/tight")
            for q, s in enumerate(com + doc):
                out.setdefault((" " + s + " ").join(parts), f"{i}/all{q}")
            if len(parts) <= 60:
                for j in range(1, len(parts)):
                    s = (com + doc)[(i + j) % len(com + doc)]
                    out.setdefault(" ".join(parts[:j]) + " " + s + " " + " ".join(parts[j:]), f"{i}/one{j}")
        if base:
            parts = max(base[:50], key=len).split(SEP)
            for q, s in enumerate(seps):
                out.setdefault((" " + s + " ").join(parts), f"sep{q}")
        return [(k, t) for t, k in out.items()]


def refs(e, acc):
    if e[0] == "id":
        acc.add(e[1])
    elif e[0] in ("seq", "alt"):
        for x in e[1]:
            refs(x, acc)
    elif e[0] in ("opt", "rep", "not", "and"):
        refs(e[1], acc)
    return acc


def recursive_rules(g):
    """rules which reach themselves"""
    d = {n: refs(e, set()) for n, (m, e) in g.rules.items()}
    bad = []
    for n in d:
        seen, todo = set(), list(d[n])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += d.get(x, ())
        if n in seen:
            bad.append(n)
    return bad


def nullable(g):
    nb = {"SOI", "EOI"}

    def nl(e):
        k = e[0]
        if k in ("str", "insens"):
            return e[1] == ""
        if k == "id":
            return e[1] in nb
        if k == "seq":
            return all(nl(x) for x in e[1])
        if k == "alt":
            return any(nl(x) for x in e[1])
        return k in ("opt", "rep", "not", "and")
    while True:
        n = len(nb)
        for r, (m, e) in g.rules.items():
            if nl(e):
                nb.add(r)
        if len(nb) == n:
            break
    bad = []

    def walk(r, e):
        if e[0] == "rep" and nl(e[1]):
            bad.append(r)
        if e[0] in ("seq", "alt"):
            for x in e[1]:
                walk(r, x)
        elif e[0] in ("opt", "rep", "not", "and"):
            walk(r, e[1])
    for r, (m, e) in g.rules.items():
        walk(r, e)
    return bad
