"""Abstract values."""


class Cell:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v


class PCell(Cell):
    """Pseudo place: the target of a fat pointer (str, slice, dyn); re-referencing yields the pointer."""
    __slots__ = ()


class Agg:
    """struct / tuple / closure / enum variant."""
    __slots__ = ("vi", "f", "ty")

    def __init__(self, vi, f, ty=None):
        self.vi = vi
        self.f = f      # list of Cell
        self.ty = ty    # (db type index) or None

    def __repr__(self):
        return f"Agg({self.vi},{[c.v for c in self.f]})"


def agg(vi, *vals, ty=None):
    return Agg(vi, [Cell(v) for v in vals], ty)


UNIT = Agg(0, [])


class Arr:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __repr__(self):
        return f"Arr{[c.v for c in self.f]}"


class VecV:
    """Vec<T> (also VecDeque)."""
    __slots__ = ("f", "tag")

    def __init__(self, f=None, tag=None):
        self.f = f if f is not None else []
        self.tag = tag

    def __repr__(self):
        return f"Vec{[c.v for c in self.f]}"


class SliceV:
    """&[T] / &mut [T]: view on the cell list of an Arr or VecV."""
    __slots__ = ("l", "a", "n")

    def __init__(self, l, a=0, n=None):
        self.l = l
        self.a = a
        self.n = len(l) - a if n is None else n

    def cells(self):
        return self.l[self.a:self.a + self.n]

    def __repr__(self):
        return f"Slice{[c.v for c in self.cells()]}"


class Ref:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"&{self.c.v!r}"


class BoxV:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"Box({self.c.v!r})"


class RcV:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"Rc({self.c.v!r})"


class DynRef:
    """Pointer to dyn Trait: p = inner pointer value, t = concrete type index."""
    __slots__ = ("p", "t")

    def __init__(self, p, t):
        self.p = p
        self.t = t


class FnV:
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k


class ZFn:
    """zero-sized fn item value; t = fndef type index"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Str:
    """Owned String."""
    __slots__ = ("v",)

    def __init__(self, v=""):
        self.v = v

    def __repr__(self):
        return f"String({self.v!r})"


# ---- text ---------------------------------------------------------------
# Abstract text is a Python str in which every opaque fragment ("hole") is one private-use character.
HOLE0 = 0xF0000
HOLES = []          # index -> (name, kind)
_HIDX = {}


def hole(name, kind="ident"):
    c = _HIDX.get((name, kind))
    if c is None:
        c = _HIDX[(name, kind)] = chr(HOLE0 + len(HOLES))
        HOLES.append((name, kind))
    return c


def is_hole(ch):
    return ord(ch) >= HOLE0


def has_hole(s):
    return any(ord(c) >= HOLE0 for c in s)


def hole_info(ch):
    return HOLES[ord(ch) - HOLE0]


def tshow(s):
    return "".join(c if ord(c) < HOLE0 else "\u27e6" + _hn(hole_info(c)[0]) + "\u27e7" for c in s)


def _hn(n):
    if isinstance(n, tuple):
        return n[0] + "(" + ",".join(_hn(x) for x in n[1:]) + ")"
    if isinstance(n, str):
        return tshow(n)
    return str(n)


def instantiate(s, f):
    """replace every hole by f(name, kind)"""
    return "".join(c if ord(c) < HOLE0 else f(*hole_info(c)) for c in s)


class Lin:
    """c + sum(k_i * sym_i); sym are strings or tuples"""
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = tuple(sorted(((s, k) for s, k in (t.items() if isinstance(t, dict) else t) if k), key=str))

    @staticmethod
    def sym(s):
        return Lin(0, {s: 1})

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def __repr__(self):
        s = "+".join((f"{k}*" if k != 1 else "") + str(s) for s, k in self.t)
        if self.c or not s:
            s = (s + "+" if s else "") + str(self.c)
        return s


def lin(x):
    if isinstance(x, Lin):
        return x
    return Lin(int(x), {})


def lnorm(l):
    return l.c if not l.t else l


def ladd(a, b, k=1):
    a, b = lin(a), lin(b)
    d = dict(a.t)
    for s, v in b.t:
        d[s] = d.get(s, 0) + k * v
    return lnorm(Lin(a.c + k * b.c, d))


def lmul(a, b):
    a, b = lin(a), lin(b)
    if b.t and not a.t:
        a, b = b, a
    if not b.t:
        return lnorm(Lin(a.c * b.c, {s: v * b.c for s, v in a.t}))
    d = {}
    # product of symbols becomes a composite symbol
    for s, v in a.t:
        for s2, v2 in b.t:
            key = ("mul",) + tuple(sorted((str(s), str(s2))))
            d[key] = d.get(key, 0) + v * v2
    r = Lin(a.c * b.c, d)
    for s, v in a.t:
        r = lin(ladd(r, Lin(0, {s: v * b.c})))
    for s, v in b.t:
        r = lin(ladd(r, Lin(0, {s: v * a.c})))
    return lnorm(r)


class Cond:
    """Symbolic boolean."""
    __slots__ = ("op", "a")

    def __init__(self, op, a):
        self.op = op
        self.a = a

    def key(self):
        return (self.op, self.a)

    def __repr__(self):
        return f"{self.op}{self.a}"


class Havoc:
    """Value of type t about which nothing is known; materialised on demand. n = name."""
    __slots__ = ("t", "n")

    def __init__(self, t, n):
        self.t = t
        self.n = n

    def __repr__(self):
        return f"Havoc({self.n})"


class Opq:
    """Opaque value of a type we do not model (only passed around)."""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Opq({self.n})"


class MapV:
    """HashMap / HashSet / BTreeMap: list of (key value, Cell(value)) in insertion order"""
    __slots__ = ("d", "kind", "idx")

    def __init__(self, kind):
        self.d = []
        self.kind = kind
        self.idx = None


class HashV:
    """a Hasher: what was written to it"""
    __slots__ = ("w",)

    def __init__(self):
        self.w = []


class ArgsV:
    """fmt::Arguments: list of str | (spec, arg)"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p


class ArgV:
    """fmt::rt::Argument: ref value, kind ('display','debug','lowerhex',...), type index"""
    __slots__ = ("v", "k", "t")

    def __init__(self, v, k, t):
        self.v, self.k, self.t = v, k, t


class FmtV:
    """fmt::Formatter: sink list of text parts"""
    __slots__ = ("out", "spec")

    def __init__(self, spec=None):
        self.out = []
        self.spec = spec


class RustPanic(Exception):
    def __init__(self, msg, where=None):
        super().__init__(str(msg))
        self.msg = msg
        self.where = where


class RustExit(Exception):
    def __init__(self, code):
        super().__init__(str(code))
        self.code = code


class Unsupported(Exception):
    """The abstract interpreter has no transfer function for this construct."""


class Infeasible(Exception):
    pass
