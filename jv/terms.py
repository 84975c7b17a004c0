"""Terms of the bytecode analysis: linear integers over lengths, values named by where they come from, bytes of values."""

SZ = {"B": 1, "Z": 1, "C": 2, "S": 2, "I": 4, "F": 4, "J": 8, "D": 8}


class Unsup(Exception):
    pass


class Lin:
    """constant + sum of coefficient * atom; atoms are non-negative integers (lengths, loop counters) or quotients"""
    __slots__ = ("c", "t")

    def __init__(self, c, t=()):
        self.c, self.t = c, t

    def __deepcopy__(self, m):
        return self

    def __eq__(self, o):
        return isinstance(o, Lin) and (self.c, self.t) == (o.c, o.t)

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        return "+".join(([str(self.c)] if self.c else []) + [(f"{k}*" if k != 1 else "") + name(a) for a, k in self.t]) or "0"


def name(a):
    if a[0] == "div":
        return f"({a[1]}/{a[2]})"
    return str(a[-1])


def mk(c, d):
    t = tuple(sorted(((a, k) for a, k in d.items() if k), key=repr))
    return Lin(c, t) if t else c


def atom(a):
    return Lin(0, ((a, 1),))


def parts(x):
    return (x, {}) if isinstance(x, int) else (x.c, dict(x.t))


def isint(x):
    return isinstance(x, (int, Lin))


def need(x):
    if not isint(x):
        raise Unsup(f"arithmetic on data: {show(x)}")
    return x


def add(x, y, s=1):
    if isinstance(x, int) and isinstance(y, int):
        return x + s * y
    a, d = parts(need(x))
    b, e = parts(need(y))
    d = dict(d)
    for k, v in e.items():
        d[k] = d.get(k, 0) + s * v
    return mk(a + s * b, d)


def sub(x, y):
    return add(x, y, -1)


def mul(x, y):
    need(x), need(y)
    if isinstance(y, Lin):
        x, y = y, x
    if isinstance(y, Lin):
        raise Unsup("product of two lengths")
    if isinstance(x, int):
        return x * y
    return mk(x.c * y, {a: k * y for a, k in x.t})


def div(x, y, nonneg=False):
    need(x)
    if not isinstance(y, int) or y == 0:
        raise Unsup("division")
    if isinstance(x, int):
        q = abs(x) // abs(y)
        return q if (x < 0) == (y < 0) else -q
    if y > 0 and x.c % y == 0 and all(k % y == 0 for _, k in x.t):
        return mk(x.c // y, {a: k // y for a, k in x.t})
    if y < 0:
        raise Unsup("division")
    return atom(("div", x, y))


def rem(x, y):
    return sub(x, mul(div(x, y), y))


def subst(v, a, r):
    """v with atom a replaced by r"""
    if isinstance(v, Lin):
        out = v.c
        for k, n in v.t:
            out = add(out, mul(subst_atom(k, a, r), n))
        return out
    if isinstance(v, tuple):
        return tuple(subst(x, a, r) for x in v)
    return v


def subst_atom(k, a, r):
    if k == a:
        return r
    if k[0] == "div":
        return div(subst(k[1], a, r), k[2])
    return atom(k)


# ---- data values: ("val", type, path), ("cat", type, bytes); bytes: ("vb", value, k), ("ib", name, offset), int


def tyof(v):
    return v[1] if isinstance(v, tuple) and v[0] in ("val", "cat", "bits") else None


def to_bytes(v, ty):
    """little-endian bytes of a value of type ty"""
    n = SZ[ty]
    if isinstance(v, int):
        if ty in "FD" and v:
            raise Unsup("float constant")
        return [v >> 8 * i & 255 for i in range(n)]
    if isinstance(v, Lin):
        return [("vb", ("lin", ty, v), i) for i in range(n)]
    if isinstance(v, tuple) and v[0] == "cat":
        if len(v[2]) != n:
            raise Unsup("width of a value")
        return list(v[2])
    if isinstance(v, tuple) and v[0] == "bits":
        return to_bytes(v[2], tyof(v[2]))
    if isinstance(v, tuple) and v[0] == "val":
        if SZ[v[1]] != n:
            raise Unsup(f"a value of type {v[1]} written as {ty}")
        return [("vb", v, i) for i in range(n)]
    raise Unsup(f"bytes of {show(v)}")


def from_bytes(b, ty):
    b = tuple(b)
    assert len(b) == SZ[ty]
    if all(isinstance(x, int) for x in b):
        v = int.from_bytes(bytes(b), "little")
        if ty in "FD":
            if v == 0:
                return ("cat", ty, b)
            return ("cat", ty, b)
        if ty == "C":
            return v
        return v - (1 << 8 * len(b)) if v >> 8 * len(b) - 1 else v
    h = b[0]
    if isinstance(h, tuple) and h[0] == "vb" and all(isinstance(x, tuple) and x[0] == "vb" and x[1] == h[1] and x[2] == i for i, x in enumerate(b)):
        if h[1][0] == "lin" and h[1][1] == ty:
            return h[1][2]
        if tyof(h[1]) == ty:
            return h[1]
    return ("cat", ty, b)


def show(v):
    if isinstance(v, tuple) and v:
        if v[0] == "val":
            return path(v[2])
        if v[0] == "vb":
            return f"{show(v[1])}.{v[2]}"
        if v[0] == "ib":
            return f"{v[1]}[{v[2]}]"
        if v[0] == "cat":
            return f"{v[1]}<" + " ".join(show(x) for x in v[2]) + ">"
        return v[0] + "(" + ",".join(show(x) for x in v[1:]) + ")"
    return repr(v)


def path(p):
    return p[0] + "".join(f"[{x}]" if isint(x) else "." + x for x in p[1:])
