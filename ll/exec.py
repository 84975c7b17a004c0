"""Value-flow analysis of LLVM IR.

Abstract values: constants, pointers (region, offset), and symbolic values named after the memory they were
read from.  Memory is a set of disjoint regions with byte-wise contents.  Conditions over symbolic values
partition the trace; each partition records the equality / disequality / interval facts that select it.  Nothing
is handed to a solver: a condition is either settled by the recorded facts or splits the trace."""
import struct as _struct

from .parse import Module, body, ParseError

UNDEF = ("undef",)


class Unsup(Exception):
    pass


class Abort(Exception):
    """the analysed program ends abnormally (panic, assertion, trap)"""


class MemErr(Exception):
    """access outside what the invocation describes"""


class Sym:
    __slots__ = ("op", "args", "w", "_h")
    table = {}

    def __new__(cls, op, args, w):
        key = (op, args, w)
        s = cls.table.get(key)
        if s is None:
            s = object.__new__(cls)
            s.op = op
            s.args = args
            s.w = w
            s._h = hash(key)
            cls.table[key] = s
        return s

    def __hash__(self):
        return self._h

    def __repr__(self):
        return show(self)


class Ptr:
    __slots__ = ("r", "off")

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((id(self.r), self.off))

    def __repr__(self):
        return f"&{self.r.name}+{show(self.off)}"


class Region:
    __slots__ = ("name", "size", "data", "init", "kind", "live", "meta", "align", "ro")

    def __init__(self, name, size=None, init="undef", kind="mem", meta=None, align=16, ro=False):
        self.name = name
        self.size = size
        self.data = {}
        self.init = init         # 'undef' | 'sym' | 'zero'
        self.kind = kind
        self.live = True
        self.meta = meta
        self.align = align
        self.ro = ro


def show(v):
    if isinstance(v, int):
        return str(v) if v < 65536 else hex(v)
    if isinstance(v, Sym):
        if v.op == "b":
            a = v.args
            if a and isinstance(a[0], tuple) and a[0][0] == "m" and all(isinstance(x, tuple) and x[0] == "m" and x[1] == a[0][1] and x[2] == a[0][2] + i for i, x in enumerate(a)):
                return f"{a[0][1]}[{a[0][2]}..{a[0][2] + len(a)}]"
            return "<" + " ".join(showb(x) for x in a) + ">"
        if v.op == "var":
            return v.args[0]
        return f"{v.op}(" + ",".join(show(x) for x in v.args) + ")"
    if isinstance(v, tuple):
        if v == UNDEF:
            return "undef"
        return "{" + ",".join(show(x) for x in v) + "}"
    return repr(v) if v is not None else "void"


def showb(x):
    if isinstance(x, int):
        return "%02x" % x
    if x == UNDEF:
        return "??"
    if x[0] == "m":
        return f"{x[1]}[{x[2]}]"
    return f"{show(x[0])}.{x[1]}"


def var(name, w):
    return Sym("var", (name,), w)


def frombytes(bs):
    """list of byte atoms (little endian) -> value"""
    n = len(bs)
    if all(isinstance(b, int) for b in bs):
        r = 0
        for i, b in enumerate(bs):
            r |= b << (8 * i)
        return r
    b0 = bs[0]
    if b0 == UNDEF and all(b == UNDEF for b in bs):
        return UNDEF
    if isinstance(b0, tuple) and b0[0] != "m" and b0 != UNDEF and b0[1] == 0:
        v = b0[0]
        w = 8 if isinstance(v, Ptr) else v.w // 8
        if w == n and all(isinstance(b, tuple) and b[0] is v and b[1] == i or
                          isinstance(b, tuple) and b[0] == v and b[1] == i for i, b in enumerate(bs)):
            return v
    return Sym("b", tuple(bs), 8 * n)


def tobytes(v, n):
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    if isinstance(v, tuple) and v == UNDEF:
        return [UNDEF] * n
    if isinstance(v, Sym):
        if v.op == "b":
            if len(v.args) == n:
                return list(v.args)
            if len(v.args) > n:
                return list(v.args[:n])
            return list(v.args) + [0] * (n - len(v.args))
        if v.op == "zext" and v.args[0].w % 8 == 0:
            return tobytes(v.args[0], v.args[0].w // 8) + [0] * (n - v.args[0].w // 8)
        return [(v, i) for i in range(n)]
    if isinstance(v, Ptr):
        return [(v, i) for i in range(n)]
    raise Unsup("bytes of " + show(v))


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


class State:
    """one trace"""

    def __init__(self, mod, env, decisions):
        self.m = mod
        self.env = env
        self.dec = list(decisions)
        self.pos = 0
        self.taken = []          # (choice, number of alternatives)
        self.globals = {}
        self.fns = {}
        self.bind = {}
        self.excl = {}
        self.rng = {}
        self.facts = {}
        self.events = []
        self.steps = 0
        self.limit = env.limit if hasattr(env, "limit") else 400000
        self.cond = []
        self.nalloc = 0
        self.depth = 0
        self.cache = {}

    # ---- partitioning ---------------------------------------------------------
    def choose(self, n, what):
        if self.pos < len(self.dec):
            c = self.dec[self.pos]
        else:
            c = 0
        self.pos += 1
        if self.pos > 400:
            raise Unsup("too many partitions")
        self.taken.append((c, n))
        return c

    def norm(self, v):
        if isinstance(v, Sym):
            if not self.bind:
                return v
            r = self.cache.get(v)
            if r is None:
                r = self._norm(v)
                self.cache[v] = r
            return r
        if isinstance(v, Ptr) and isinstance(v.off, Sym):
            o = self.norm(v.off)
            if o is not v.off:
                return Ptr(v.r, o)
        return v

    def _norm(self, v):
        b = self.bind.get(v)
        if b is not None:
            return self.norm(b)
        if v.op in ("var", "b"):
            if v.op == "b":
                return v
            return v
        a = tuple(self.norm(x) if not isinstance(x, str) else x for x in v.args)
        if a != v.args:
            if v.op == "icmp":
                r = self.icmp(a[0], a[1], a[2], a[3])
            elif v.op in ("zext", "sext", "trunc"):
                r = self.cast(v.op, a[0], a[1], v.w)
            elif v.op in BINOPS:
                r = self.bin(v.op, v.w, a[0], a[1])
            else:
                r = Sym(v.op, a, v.w)
            b = self.bind.get(r) if isinstance(r, Sym) else None
            return self.norm(b) if b is not None else r
        return v

    def setbind(self, s, v):
        self.bind[s] = v
        self.cache = {}

    def truth(self, c):
        """decide an i1 value, partitioning when open"""
        c = self.norm(c)
        if isinstance(c, int):
            return c & 1
        if c == UNDEF:
            raise Unsup("branch on an undefined value")
        if c.op == "xor" and c.args[1] == 1 and c.w == 1:
            return 1 - self.truth(c.args[0])
        if c.op == "and" and c.w == 1:
            return self.truth(c.args[0]) and self.truth(c.args[1])
        if c.op == "or" and c.w == 1:
            return self.truth(c.args[0]) or self.truth(c.args[1])
        if c.op == "trunc" or c.op == "b":
            pass
        if c.op == "icmp":
            pred, w, a, b = c.args
            if pred == "ne":
                return 1 - self.truth(Sym("icmp", ("eq", w, a, b), 1))
            if pred == "eq":
                r = self.known_eq(a, b)
                if r is None:
                    ch = self.choose(2, c)
                    r = 1 - ch
                    if r:
                        if isinstance(a, Sym):
                            self.setbind(a, b)
                        else:
                            self.setbind(b, a)
                    else:
                        if isinstance(a, Sym):
                            self.excl.setdefault(a, []).append(b)
                        if isinstance(b, Sym):
                            self.excl.setdefault(b, []).append(a)
                    self.cond.append((r, c))
                return r
            if pred in ("ugt", "ule"):
                r = self.truth(Sym("icmp", ("ult", w, b, a), 1))
                return r if pred == "ugt" else 1 - r
            if pred == "uge":
                return 1 - self.truth(Sym("icmp", ("ult", w, a, b), 1))
            if pred == "ult":
                r = self.known_ult(a, b)
                if r is None:
                    r = self.facts.get(c)
                if r is None:
                    r = 1 - self.choose(2, c)
                    self.facts[c] = r
                    self.cond.append((r, c))
                    if isinstance(a, Sym) and isinstance(b, int):
                        lo, hi = self.range(a)
                        self.rng[a] = (lo, min(hi, b - 1)) if r else (max(lo, b), hi)
                    elif isinstance(b, Sym) and isinstance(a, int):
                        lo, hi = self.range(b)
                        self.rng[b] = (max(lo, a + 1), hi) if r else (lo, min(hi, a))
                return r
        r = self.facts.get(c)
        if r is None:
            r = 1 - self.choose(2, c)
            self.facts[c] = r
            self.cond.append((r, c))
        return r

    def range(self, a):
        if isinstance(a, int):
            return a, a
        if a in self.rng:
            return self.rng[a]
        if a.op == "zext":
            return self.range(a.args[0]) if isinstance(a.args[0], Sym) else (a.args[0], a.args[0])
        if a.op == "and" and isinstance(a.args[1], int):
            return 0, a.args[1]
        return 0, mask(a.w)

    def known_eq(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a == b and not (isinstance(a, tuple) and a == UNDEF):
            return 1
        if isinstance(a, int) and isinstance(b, int):
            return 0
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            p, q = (a, b) if isinstance(a, Ptr) else (b, a)
            if isinstance(q, int):
                return 0            # objects never live at a constant address
            if isinstance(q, Ptr):
                if p.r is not q.r:
                    return 0
                if isinstance(p.off, int) and isinstance(q.off, int):
                    return 0
                return self.known_eq(p.off, q.off)
            if p.r.kind == "fn" and isinstance(q, Sym):
                return None
            return None
        if isinstance(a, Sym):
            for x in self.excl.get(a, ()):
                if self.norm(x) == b:
                    return 0
            if isinstance(b, int):
                lo, hi = self.range(a)
                if b < lo or b > hi:
                    return 0
                if a.op == "b":
                    # a byte that is known and differs
                    for i, x in enumerate(a.args):
                        if isinstance(x, int) and x != (b >> (8 * i)) & 255:
                            return 0
        return None

    def known_ult(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if isinstance(a, int) and isinstance(b, int):
            return int(a < b)
        if a == b:
            return 0
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and isinstance(a.off, int) and isinstance(b.off, int):
            return int(a.off < b.off)
        if isinstance(a, (int, Sym)) and isinstance(b, (int, Sym)):
            la, ha = self.range(a)
            lb, hb = self.range(b)
            if ha < lb:
                return 1
            if la >= hb:
                return 0
            # x/n <= x
            if isinstance(b, Sym) and b.op in ("udiv", "lshr") and b.args[0] == a:
                return 0
            return None
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            # addresses compared with small constants
            if isinstance(b, int):
                return 0 if b < 4096 else (1 if b > (1 << 62) else None)
            if isinstance(a, int):
                return 1 if a < 4096 else (0 if a > (1 << 62) else None)
        return None

    # ---- arithmetic --------------------------------------------------------------
    def icmp(self, pred, w, a, b):
        a, b = self.norm(a), self.norm(b)
        if a == UNDEF or b == UNDEF:
            return UNDEF
        if isinstance(a, int) and isinstance(b, int):
            if pred[0] == "s":
                a, b = sgn(a, w), sgn(b, w)
            p = pred if pred in ("eq", "ne") else pred[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if pred in ("eq", "ne"):
            if isinstance(a, Sym) and isinstance(b, int):
                if a.op == "zext" and b == 0 and isinstance(a.args[0], Sym) and a.args[0].w == 1:
                    x = a.args[0]
                    return self.neg(x) if pred == "eq" else x
                if a.op == "zext" and isinstance(a.args[0], Sym):
                    x = a.args[0]
                    if b > mask(x.w):
                        return int(pred == "ne")
                    return self.icmp(pred, x.w, x, b)
            r = self.known_eq(a, b)
            if r is not None:
                return r if pred == "eq" else 1 - r
            if not isinstance(a, Sym):
                a, b = b, a
            s = Sym("icmp", ("eq", w, a, b), 1)
            return s if pred == "eq" else self.neg(s)
        if pred == "ult":
            r = self.known_ult(a, b)
            if r is not None:
                return r
        if pred == "ugt":
            return self.icmp("ult", w, b, a)
        if pred == "ule":
            return self.neg(self.icmp("ult", w, b, a))
        if pred == "uge":
            return self.neg(self.icmp("ult", w, a, b))
        if pred == "sgt":
            return self.icmp("slt", w, b, a)
        if pred == "sle":
            return self.neg(self.icmp("slt", w, b, a))
        if pred == "sge":
            return self.neg(self.icmp("slt", w, a, b))
        return Sym("icmp", (pred, w, a, b), 1)

    def neg(self, x):
        if isinstance(x, int):
            return 1 - x
        if isinstance(x, tuple):
            return x
        if x.op == "xor" and x.w == 1 and x.args[1] == 1:
            return x.args[0]
        return Sym("xor", (x, 1), 1)

    def bin(self, op, w, a, b):
        a, b = self.norm(a), self.norm(b)
        if (isinstance(a, tuple) and a == UNDEF) or (isinstance(b, tuple) and b == UNDEF):
            return UNDEF
        mk = mask(w)
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & mk
            if op == "sub":
                return (a - b) & mk
            if op == "mul":
                return (a * b) & mk
            if op in ("udiv", "urem", "sdiv", "srem"):
                if b == 0:
                    raise MemErr("division by zero")
                if op == "udiv":
                    return a // b
                if op == "urem":
                    return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == "sdiv" else x - q * y) & mk
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & mk if b < w else 0
            if op == "lshr":
                return a >> b if b < w else 0
            if op == "ashr":
                return (sgn(a, w) >> min(b, w - 1)) & mk
            return Sym(op, (a, b), w)
        if op == "shl" and isinstance(b, int) and isinstance(a, Sym) and not (a.op in ("b", "zext") and b % 8 == 0):
            return self.bin("mul", w, a, 1 << b)
        if op == "lshr" and isinstance(b, int) and isinstance(a, Sym) and a.op not in ("b", "zext"):
            return self.bin("udiv", w, a, 1 << b)
        if isinstance(a, int) and op in ("add", "mul", "and", "or", "xor"):
            a, b = b, a
        # pointers
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "add" and isinstance(b, Ptr) and not isinstance(a, Ptr):
                a, b = b, a
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if op == "sub" and a.r is b.r:
                    return self.bin("sub", w, a.off, b.off)
            elif isinstance(a, Ptr):
                if op == "add":
                    return Ptr(a.r, self.bin("add", w, a.off, b))
                if op == "sub":
                    return Ptr(a.r, self.bin("sub", w, a.off, b))
                if op == "and" and isinstance(b, int) and isinstance(a.off, int):
                    if b < a.r.align:
                        return a.off & b
                    inv = (~b) & mk
                    if inv < a.r.align:
                        return Ptr(a.r, a.off & ~inv)
                if op == "urem" and isinstance(b, int) and isinstance(a.off, int) and a.r.align % b == 0:
                    return a.off % b
                if op == "or" and b == 0:
                    return a
            return Sym("ptrop", (op, a, b), w)
        if isinstance(b, int):
            if b == 0 and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
                return a
            if b == 0 and op in ("mul", "and"):
                return 0
            if b == 0 and op in ("udiv", "urem"):
                raise MemErr("division by zero")
            if b == 1 and op in ("mul", "udiv", "sdiv"):
                return a
            if op == "and" and b == mk:
                return a
            if op == "and" and isinstance(a, Sym):
                if w % 8 == 0 and w > 8 and all((b >> (8 * i)) & 255 in (0, 255) for i in range(w // 8)) and a.op in ("b", "zext"):
                    bs = tobytes(a, w // 8)
                    return frombytes([x if (b >> (8 * i)) & 255 else 0 for i, x in enumerate(bs)])
                if a.op == "and" and isinstance(a.args[1], int):
                    return self.bin("and", w, a.args[0], a.args[1] & b)
                if a.op == "zext" and isinstance(a.args[0], Sym) and a.args[0].w == 1 and b & 1:
                    return a
            if op in ("shl", "lshr") and b % 8 == 0 and a.op in ("b", "zext") and w % 8 == 0:
                bs = tobytes(a, w // 8)
                n = b // 8
                return frombytes([0] * n + bs[:len(bs) - n] if op == "shl" else bs[n:] + [0] * n)
            if op == "mul" and a.op == "mul" and isinstance(a.args[1], int):
                return self.bin("mul", w, a.args[0], (a.args[1] * b) & mk)
            if op == "udiv":
                if a.op == "mul" and isinstance(a.args[1], int) and a.args[1] % b == 0 and not self.env.mul_wraps:
                    return self.bin("mul", w, a.args[0], a.args[1] // b)
                if a.op == "udiv" and isinstance(a.args[1], int):
                    return self.bin("udiv", w, a.args[0], a.args[1] * b)
            if op == "urem" and a.op == "mul" and isinstance(a.args[1], int) and a.args[1] % b == 0 and not self.env.mul_wraps:
                return 0
            if op == "xor" and w == 1:
                return self.neg(a) if b & 1 else a
            if op == "sub":
                return self.bin("add", w, a, (-b) & mk)
            if op == "add" and a.op == "add" and isinstance(a.args[1], int):
                return self.bin("add", w, a.args[0], (a.args[1] + b) & mk)
        else:
            if op == "or" and w % 8 == 0 and w > 8 and isinstance(a, Sym) and isinstance(b, Sym) and a.op in ("b", "zext") and b.op in ("b", "zext"):
                x, y = tobytes(a, w // 8), tobytes(b, w // 8)
                if all(p == 0 or q == 0 for p, q in zip(x, y)):
                    return frombytes([q if p == 0 else p for p, q in zip(x, y)])
            if op in ("and", "or") and a == b:
                return a
            if op in ("xor", "sub") and a == b:
                return 0
            if op in ("add", "mul", "and", "or", "xor") and repr(a) > repr(b):
                a, b = b, a
        if op in ("and", "or") and w % 8 == 0 and w > 8 and isinstance(b, int) and op == "or" and a.op in ("b", "zext"):
            x, y = tobytes(a, w // 8), tobytes(b, w // 8)
            if all(p == 0 or q == 0 for p, q in zip(x, y)):
                return frombytes([q if p == 0 else p for p, q in zip(x, y)])
        return Sym(op, (a, b), w)

    def cast(self, op, w, v, w2):
        v = self.norm(v)
        if isinstance(v, tuple):
            if v == UNDEF:
                return UNDEF
            if op == "bitcast":
                return v
            raise Unsup("cast of aggregate")
        if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast", "ptrtoaddr"):
            if op == "ptrtoint" and w2 < 64:
                return self.cast("trunc", 64, v, w2)
            return v
        if isinstance(v, int):
            if op == "trunc":
                return v & mask(w2)
            if op == "zext":
                return v
            if op == "sext":
                return sgn(v, w) & mask(w2)
            return Sym(op, (w, v), w2)
        if isinstance(v, Ptr):
            if op in ("zext",) or w == w2:
                return v
            return Sym("ptrop", (op, v), w2)
        if w == w2:
            return v
        if op == "trunc":
            if v.op in ("zext", "sext"):
                x = v.args[0] if v.op == "sext" else v.args[0]
                xw = x.w
                if xw == w2:
                    return x
                if xw > w2:
                    return self.cast("trunc", xw, x, w2)
            if w2 % 8 == 0 and (v.op in ("b", "zext")):
                return frombytes(tobytes(v, w // 8)[:w2 // 8])
            if v.op in ("mul", "add", "and", "or", "xor") and w2 >= 8:
                pass
            return Sym("trunc", (w, v), w2) if not (v.op == "trunc") else Sym("trunc", (v.args[0], v.args[1]), w2)
        if op == "zext":
            if v.op == "b" and w % 8 == 0 and w2 % 8 == 0:
                return frombytes(list(v.args) + [0] * ((w2 - w) // 8))
            if v.op == "zext":
                return Sym("zext", v.args, w2)
            return Sym("zext", (v,), w2)
        if op == "sext":
            return Sym("sext", (v,), w2)
        return Sym(op, (w, v), w2)

    # ---- memory --------------------------------------------------------------------
    def ptr(self, v):
        v = self.norm(v)
        if isinstance(v, Ptr):
            return v
        if isinstance(v, Sym):
            p = self.env.resolve(self, v)
            if p is not None:
                if v.op == "add" and isinstance(v.args[1], int):
                    return p
                self.setbind(v, p)
                return p
        if isinstance(v, int):
            raise MemErr(f"access through the constant address {v}")
        raise MemErr("access through the unknown pointer " + show(v))

    def check(self, p, n, write):
        r = p.r
        off = self.norm(p.off)
        if not r.live:
            raise MemErr(f"access to {r.name} after its lifetime ended")
        if r.kind == "fn":
            raise MemErr("data access to a function")
        self.env.access(self, r, off, n, write)
        if write and r.ro:
            raise MemErr(f"write to the read-only {r.name}")
        if not isinstance(off, int):
            raise Unsup("access at the symbolic offset " + show(off) + " of " + r.name)
        if off >= 1 << 63:
            off -= 1 << 64
        if r.size is not None:
            sz = self.norm(r.size)
            if isinstance(sz, int):
                if off < 0 or off + n > sz:
                    raise MemErr(f"access to bytes {off}..{off + n} of {r.name}, which has {sz} bytes")
            else:
                lo, hi = self.range(sz)
                if off < 0 or off + n > lo:
                    raise MemErr(f"access to bytes {off}..{off + n} of {r.name}, whose size {show(sz)} is only known to be at least {lo}")
        elif off < 0:
            raise MemErr(f"access before the start of {r.name}")
        return r, off

    def rd(self, p, n):
        if n == 0:
            return []
        r, off = self.check(p, n, False)
        out = []
        d = r.data
        for i in range(off, off + n):
            x = d.get(i)
            if x is None:
                x = UNDEF if r.init == "undef" else 0 if r.init == "zero" else ("m", r.name, i)
            out.append(x)
        return out

    def wr(self, p, bs):
        if not bs:
            return
        r, off = self.check(p, len(bs), True)
        for i, b in enumerate(bs):
            r.data[off + i] = b

    def peek(self, p, n):
        """read without being subject to the access rules"""
        r, off = p.r, self.norm(p.off)
        return [r.data.get(i, UNDEF if r.init == "undef" else 0 if r.init == "zero" else ("m", r.name, i)) for i in range(off, off + n)]

    def poke(self, p, bs):
        for i, b in enumerate(bs):
            p.r.data[self.norm(p.off) + i] = b

    def load(self, t, p):
        t = self.m.res(t)
        k = t[0]
        if k == "st":
            offs, tot = self.m.offsets(t)
            return tuple(self.load(x, Ptr(p.r, self.bin("add", 64, p.off, o))) for x, o in zip(t[1], offs))
        if k in ("arr", "vec"):
            sz = self.m.size(t[2])
            return tuple(self.load(t[2], Ptr(p.r, self.bin("add", 64, p.off, i * sz))) for i in range(t[1]))
        if k == "i" and t[1] % 8:
            n = (t[1] + 7) // 8
            v = frombytes(self.rd(p, n))
            return self.cast("trunc", n * 8, self.norm(v), t[1])
        return self.norm(frombytes(self.rd(p, self.m.size(t) if k != "i" else t[1] // 8)))

    def store(self, t, v, p):
        t = self.m.res(t)
        k = t[0]
        if k == "st":
            if v == UNDEF:
                v = tuple(UNDEF for _ in t[1])
            offs, tot = self.m.offsets(t)
            for x, o, e in zip(t[1], offs, v):
                self.store(x, e, Ptr(p.r, self.bin("add", 64, p.off, o)))
            return
        if k in ("arr", "vec"):
            sz = self.m.size(t[2])
            if v == UNDEF:
                v = tuple(UNDEF for _ in range(t[1]))
            for i, e in enumerate(v):
                self.store(t[2], e, Ptr(p.r, self.bin("add", 64, p.off, i * sz)))
            return
        if k == "i" and t[1] % 8:
            n = (t[1] + 7) // 8
            v = self.cast("zext", t[1], v, n * 8)
            self.wr(p, tobytes(v, n))
            return
        self.wr(p, tobytes(v, self.m.size(t) if k != "i" else t[1] // 8))

    def alloc(self, name, size, init="undef", kind="alloca", align=16):
        self.nalloc += 1
        return Region(name, size, init, kind, align=align)

    # ---- constants -----------------------------------------------------------------
    def glob(self, name):
        if name in self.m.aliases:
            return self.const(("ptr",), self.m.aliases[name])
        if name in self.m.globals:
            r = self.globals.get(name)
            if r is None:
                g = self.m.globals[name]
                ext = g["init"] is None
                if ext and "extern_weak" in g["words"]:
                    return 0
                r = Region(name, self.m.size(g["ty"]) or None, "zero" if ext else "undef", "extern" if ext else "global", ro=False, align=16)
                self.globals[name] = r
                if not ext:
                    self.initdata(r, 0, g["ty"], g["init"])
                r.ro = g["const"]
            return Ptr(r, 0)
        if name in self.m.funcs or name in self.m.decls:
            if name not in self.m.funcs and "extern_weak" in self.m.decls[name]:
                return 0
            r = self.fns.get(name)
            if r is None:
                r = self.fns[name] = Region(name, 1, kind="fn", align=16)
            return Ptr(r, 0)
        raise Unsup("global " + name)

    def initdata(self, r, off, t, v):
        t = self.m.res(t)
        k = v[0]
        n = self.m.size(t)
        if k == "zero" or k == "null":
            for i in range(n):
                r.data[off + i] = 0
            return
        if k == "undef":
            return
        if k == "bytes":
            for i, b in enumerate(v[1]):
                r.data[off + i] = b
            return
        if k == "agg":
            if t[0] == "st":
                offs, _ = self.m.offsets(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self.initdata(r, off + o, et, ev)
            else:
                sz = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.initdata(r, off + i * sz, et, ev)
            return
        x = self.const(t, v)
        for i, b in enumerate(tobytes(x, t[1] // 8 if t[0] == "i" and t[1] % 8 == 0 else n)):
            r.data[off + i] = b

    def const(self, t, v):
        k = v[0]
        if k == "int":
            t = self.m.res(t)
            return v[1] & mask(t[1] if t[0] == "i" else 64)
        if k == "null":
            return 0
        if k == "undef":
            return UNDEF
        if k == "glob":
            return self.glob(v[1])
        if k == "zero":
            t = self.m.res(t)
            if t[0] == "st":
                return tuple(self.const(x, v) for x in t[1])
            if t[0] in ("arr", "vec"):
                return tuple(self.const(t[2], v) for _ in range(t[1]))
            return 0
        if k == "agg":
            return tuple(self.const(et, ev) for et, ev in v[1])
        if k == "splat":
            t = self.m.res(t)
            return tuple(self.const(v[1], v[2]) for _ in range(t[1]))
        if k == "fp":
            return fpbits(float(v[1]), self.m.res(t)[1])
        if k == "fphex":
            x = int(v[1], 16)
            t = self.m.res(t)
            if t[1] == 4:
                return fpbits(_struct.unpack("<d", _struct.pack("<Q", x))[0], 4)
            return x
        if k == "bytes":
            return tuple(v[1])
        if k == "ce":
            if v[1] == "gep":
                base = self.const(*v[3][0])
                return self.gep(v[2], base, [(at, self.const(at, av)) for at, av in v[3][1:]])
            if v[1] == "cast":
                return self.cast(v[2], self.width(v[3]), self.const(v[3], v[4]), self.width(v[5]))
            if v[1] == "icmp":
                (t1, a), (t2, b) = v[3]
                return self.icmp(v[2], self.width(t1), self.const(t1, a), self.const(t2, b))
            if v[1] == "bin":
                (t1, a), (t2, b) = v[3][:2]
                if v[2] in BINOPS:
                    return self.bin(v[2], self.width(t1), self.const(t1, a), self.const(t2, b))
        if k == "meta":
            return None
        raise Unsup("constant " + str(v)[:80])

    def width(self, t):
        t = self.m.res(t)
        if t[0] == "i":
            return t[1]
        if t[0] == "ptr":
            return 64
        return self.m.size(t) * 8

    def gep(self, t, base, idx):
        base = self.norm(base)
        off = 0
        first = True
        for at, i in idx:
            i = self.norm(i)
            w = self.width(at)
            if isinstance(i, int):
                i = sgn(i, w)
            elif w < 64:
                i = self.cast("sext", w, i, 64)
            if first:
                sz = self.m.size(t)
                first = False
            else:
                t = self.m.res(t)
                if t[0] == "st":
                    o, _ = self.m.offsets(t)
                    off = self.addoff(off, o[i])
                    t = t[1][i]
                    continue
                t = t[2]
                sz = self.m.size(t)
            off = self.addoff(off, i * sz if isinstance(i, int) else self.bin("mul", 64, i, sz))
        if isinstance(off, int) and off == 0:
            return base
        if isinstance(base, int):
            return (base + off) & mask(64) if isinstance(off, int) else self.bin("add", 64, base, off)
        if isinstance(base, tuple):
            return UNDEF
        if isinstance(base, Sym):
            p = self.env.resolve(self, base)
            if p is None:
                return self.bin("add", 64, base, off if not isinstance(off, int) else off & mask(64))
            self.setbind(base, p)
            base = p
        o = self.norm(base.off)
        return Ptr(base.r, self.addoff(o, off))

    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        return self.bin("add", 64, a if not isinstance(a, int) else a & mask(64), b if not isinstance(b, int) else b & mask(64))

    # ---- execution -----------------------------------------------------------------
    def call(self, name, args):
        f = self.m.funcs.get(name)
        if f is None:
            return self.env.external(self, name, args)
        r = self.env.intercept(self, name, args)
        if r is not NotImplemented:
            return r
        body(self.m, f)
        self.env.visited.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Unsup("call depth")
        regs = {}
        frame = []
        for (nm, t, at), v in zip(f.params, args):
            if "byval" in at:
                sz = self.m.size(at["byval"])
                src = self.ptr(v)
                r = self.alloc(name + nm, sz)
                frame.append(r)
                for i, b in enumerate(self.rd(src, sz)):
                    r.data[i] = b
                v = Ptr(r, 0)
            regs[nm] = v
        blk = f.entry
        prev = None
        m = self.m

        def val(t, v):
            if v[0] == "loc":
                try:
                    x = regs[v[1]]
                except KeyError:
                    raise Unsup("value " + v[1] + " in " + name)
                return self.norm(x)
            return self.const(t, v)

        while True:
            nxt = None
            code = f.blocks[blk]
            i = 0
            # phis read simultaneously
            if code and code[0][0] == "phi":
                new = {}
                while code[i][0] == "phi":
                    for v, l in code[i][3]:
                        if l == prev:
                            new[code[i][1]] = val(code[i][2], v)
                            break
                    else:
                        raise Unsup("phi")
                    i += 1
                regs.update(new)
            for ins in code[i:]:
                self.steps += 1
                if self.steps > self.limit:
                    raise Unsup("step limit")
                op = ins[0]
                if op == "alloca":
                    n = 1
                    if ins[3] is not None:
                        n = val(("i", 64), ins[3])
                        if not isinstance(n, int):
                            raise Unsup("variable-size alloca")
                    r = self.alloc(f"{name}{ins[1]}", m.size(ins[2]) * n)
                    frame.append(r)
                    regs[ins[1]] = Ptr(r, 0)
                elif op == "load":
                    p = self.ptr(val(("ptr",), ins[3]))
                    if ins[4]:
                        self.env.before_atomic(self, p, m.size(ins[2]))
                    regs[ins[1]] = self.load(ins[2], p)
                    if ins[4]:
                        self.env.atomic(self, "load", p, ins[4], None)
                elif op == "store":
                    p = self.ptr(val(("ptr",), ins[4]))
                    v = val(ins[2], ins[3])
                    if ins[5]:
                        self.env.before_atomic(self, p, m.size(ins[2]))
                    self.store(ins[2], v, p)
                    if ins[5]:
                        self.env.atomic(self, "store", p, ins[5], v)
                elif op == "gep":
                    regs[ins[1]] = self.gep(ins[2], val(*ins[3][0]), [(at, val(at, av)) for at, av in ins[3][1:]])
                elif op == "bin":
                    t = m.res(ins[3])
                    a, b = val(t, ins[4]), val(t, ins[5])
                    if t[0] == "vec":
                        if a == UNDEF or b == UNDEF:
                            raise Unsup("vector of undef")
                        w = self.width(t[2])
                        regs[ins[1]] = tuple(self.bin(ins[2], w, x, y) for x, y in zip(a, b))
                    else:
                        regs[ins[1]] = self.bin(ins[2], self.width(t), a, b)
                elif op == "cast":
                    v = val(ins[3], ins[4])
                    t1, t2 = m.res(ins[3]), m.res(ins[5])
                    if "vec" in (t1[0], t2[0]):
                        if ins[2] != "bitcast":
                            raise Unsup("vector cast")
                        tmp = Ptr(Region("cast", max(m.size(t1), m.size(t2)), "undef", "tmp"), 0)
                        self.store(t1, v, tmp)
                        regs[ins[1]] = self.load(t2, tmp)
                    else:
                        regs[ins[1]] = self.cast(ins[2], self.width(t1), v, self.width(t2))
                elif op == "icmp":
                    regs[ins[1]] = self.icmp(ins[2], self.width(ins[3]), val(ins[3], ins[4]), val(ins[3], ins[5]))
                elif op == "select":
                    c = val(ins[2], ins[3])
                    a, b = val(ins[4], ins[5]), val(ins[4], ins[6])
                    if isinstance(c, int):
                        regs[ins[1]] = a if c & 1 else b
                    elif a == b:
                        regs[ins[1]] = a
                    else:
                        regs[ins[1]] = a if self.truth(c) else b
                elif op == "call":
                    v = self.docall(ins, val)
                    if ins[1]:
                        regs[ins[1]] = v
                    if ins[5]:
                        nxt = ins[5]
                        break
                elif op == "jmp":
                    nxt = ins[2]
                    break
                elif op == "br":
                    nxt = ins[3] if self.truth(val(("i", 1), ins[2])) else ins[4]
                    break
                elif op == "switch":
                    nxt = self.switch(self.width(ins[2]), val(ins[2], ins[3]), ins[4], [(self.const(ins[2], c), l) for c, l in ins[5]])
                    break
                elif op == "ret":
                    v = val(ins[2], ins[3]) if ins[3] is not None else None
                    for r in frame:
                        r.live = False
                    self.depth -= 1
                    return v
                elif op == "extractvalue":
                    a = val(ins[2], ins[3])
                    for x in ins[6]:
                        a = UNDEF if a == UNDEF else a[x]
                    regs[ins[1]] = a
                elif op == "insertvalue":
                    a = val(ins[2], ins[3])
                    regs[ins[1]] = self.insert(ins[2], a, val(ins[4], ins[5]), ins[6])
                elif op == "extractelement":
                    a = val(*ins[2][0])
                    x = val(*ins[2][1])
                    regs[ins[1]] = UNDEF if a == UNDEF else a[x]
                elif op == "insertelement":
                    t = m.res(ins[2][0][0])
                    a = val(*ins[2][0])
                    a = list(a) if a != UNDEF else [UNDEF] * t[1]
                    a[val(*ins[2][2])] = val(*ins[2][1])
                    regs[ins[1]] = tuple(a)
                elif op == "freeze":
                    regs[ins[1]] = val(ins[2], ins[3])
                elif op == "atomicrmw":
                    p = self.ptr(val(("ptr",), ins[3]))
                    self.env.before_atomic(self, p, m.size(ins[4]))
                    old = self.load(ins[4], p)
                    v = val(ins[4], ins[5])
                    w = self.width(ins[4])
                    if ins[2] == "xchg":
                        new = v
                    elif ins[2] in ("add", "sub", "and", "or", "xor"):
                        new = self.bin(ins[2], w, old, v)
                    else:
                        raise Unsup("atomicrmw " + ins[2])
                    self.store(ins[4], new, p)
                    self.env.atomic(self, "rmw " + ins[2], p, ins[6], v)
                    regs[ins[1]] = old
                elif op == "cmpxchg":
                    p = self.ptr(val(("ptr",), ins[2]))
                    self.env.before_atomic(self, p, m.size(ins[3]))
                    old = self.load(ins[3], p)
                    c, v = val(ins[3], ins[4]), val(ins[3], ins[5])
                    ok = self.icmp("eq", self.width(ins[3]), old, c)
                    if not isinstance(ok, int):
                        ok = self.truth(ok)
                    if ok:
                        self.store(ins[3], v, p)
                    self.env.atomic(self, "cmpxchg" if ok else "cmpxchg-failed", p, ins[6][0] if ins[6] else None, v)
                    regs[ins[1]] = (old, ok)
                elif op == "fence":
                    self.env.atomic(self, "fence", None, ins[2], None)
                elif op == "unreachable":
                    raise Abort("unreachable code reached in " + name)
                elif op == "fneg":
                    regs[ins[1]] = Sym("fneg", (val(ins[2], ins[3]),), self.width(ins[2]))
                elif op == "fcmp":
                    regs[ins[1]] = Sym("fcmp", (ins[2], val(ins[3], ins[4]), val(ins[3], ins[5])), 1)
                else:
                    raise Unsup(f"instruction {op} {ins[2] if len(ins) > 2 else ''}")
            if nxt is None:
                raise Unsup("block without terminator in " + name)
            prev, blk = blk, nxt

    def insert(self, t, a, e, idx):
        t = self.m.res(t)
        n = len(t[1]) if t[0] == "st" else t[1]
        a = [UNDEF] * n if a == UNDEF else list(a)
        if len(idx) == 1:
            a[idx[0]] = e
        else:
            a[idx[0]] = self.insert(t[1][idx[0]] if t[0] == "st" else t[2], a[idx[0]], e, idx[1:])
        return tuple(a)

    def switch(self, w, v, default, cases):
        v = self.norm(v)
        if isinstance(v, int):
            for c, l in cases:
                if c == v:
                    return l
            return default
        if v == UNDEF:
            raise Unsup("switch on an undefined value")
        if isinstance(v, Sym) and v.op == "zext" and isinstance(v.args[0], Sym) and v.args[0].w == 1:
            t = self.truth(v.args[0])
            for c, l in cases:
                if c == t:
                    return l
            return default
        lo, hi = self.range(v)
        open_ = [(c, l) for c, l in cases if self.known_eq(v, c) is None]
        ch = self.choose(len(open_) + 1, v)
        if ch < len(open_):
            c, l = open_[ch]
            self.setbind(v, c)
            self.cond.append((1, Sym("icmp", ("eq", w, v, c), 1)))
            return l
        for c, l in open_:
            self.excl.setdefault(v, []).append(c)
            self.cond.append((0, Sym("icmp", ("eq", w, v, c), 1)))
        return default

    def docall(self, ins, val):
        cal = ins[3]
        args = []
        for t, at, v in ins[4]:
            if t[0] == "metadata":
                args.append(None)
            else:
                args.append(val(t, v))
        if cal[0] == "glob":
            nm = cal[1]
            if nm in self.m.aliases:
                a = self.m.aliases[nm]
                nm = a[1]
            return self.call(nm, args)
        f = val(("ptr",), cal)
        if isinstance(f, Ptr) and f.r.kind == "fn":
            return self.call(f.r.name, args)
        return self.env.indirect(self, f, args)


BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}


def fpbits(x, n):
    if n == 4:
        return _struct.unpack("<I", _struct.pack("<f", x))[0]
    return _struct.unpack("<Q", _struct.pack("<d", x))[0]


class Env:
    """models of the outside; subclassed per harness"""
    limit = 400000
    mul_wraps = False

    def __init__(self):
        self.visited = set()

    def resolve(self, st, sym):
        return None

    def access(self, st, r, off, n, write):
        pass

    def before_atomic(self, st, p, n):
        """p is about to be accessed atomically"""

    def atomic(self, st, what, p, order, v):
        st.events.append(("atomic", what, p, order, v))

    def intercept(self, st, name, args):
        return NotImplemented

    def indirect(self, st, f, args):
        raise Unsup("indirect call of " + show(f))

    def ext(self, st, name, args):
        raise Unsup("call of " + name)

    def external(self, st, name, args):
        n = name[1:].strip('"')
        if n.startswith("llvm."):
            return self.intrinsic(st, n, args)
        if n.startswith("ext_"):
            return self.ext(st, n, args)
        if n in ("malloc", "_Znwm", "_Znam") or n.endswith("__rust_alloc") or n.endswith("__rust_alloc_zeroed"):
            sz = args[0]
            r = st.alloc("heap%d" % st.nalloc, sz, "zero" if n.endswith("zeroed") else "undef", "heap")
            st.events.append(("alloc", r))
            return Ptr(r, 0)
        if n in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv") or n.endswith("__rust_dealloc"):
            v = st.norm(args[0])
            if v == 0:
                return None
            p = st.ptr(v)
            if p.r.kind != "heap" or not p.r.live:
                raise MemErr("free of " + p.r.name)
            if st.norm(p.off) != 0:
                raise MemErr("free inside " + p.r.name)
            p.r.live = False
            st.events.append(("free", p.r))
            return None
        if "no_alloc_shim_is_unstable" in n:
            return None
        if n in ("__assert_fail", "abort", "_ZSt9terminatev", "__cxa_pure_virtual") or "panic" in n and "panic_count" not in n \
                or "unwrap_failed" in n or "expect_failed" in n or "handle_alloc_error" in n or "slice_index" in n or "_fail" in n:
            raise Abort(n)
        if n in ("memcpy", "memmove"):
            self.copy(st, args[0], args[1], args[2])
            return args[0]
        if n == "memset":
            self.fill(st, args)
            return args[0]
        return self.other(st, n, args)

    def other(self, st, n, args):
        raise Unsup("call of " + n)

    def copy(self, st, d, s, n):
        n = st.norm(n)
        if n == 0:
            return
        if not isinstance(n, int):
            raise Unsup("copy of symbolic size " + show(n))
        st.wr(st.ptr(d), st.rd(st.ptr(s), n))

    def fill(self, st, args):
        n = st.norm(args[2])
        if n == 0:
            return
        if not isinstance(n, int):
            raise Unsup("fill of symbolic size")
        b = tobytes(args[1], 1)[0]
        st.wr(st.ptr(args[0]), [b] * n)

    def intrinsic(self, st, n, args):
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            self.copy(st, args[0], args[1], args[2])
            return None
        if n.startswith("llvm.memset"):
            self.fill(st, args)
            return None
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.donothing", "llvm.invariant")):
            return None
        if n.startswith("llvm.assume"):
            c = st.norm(args[0])
            if isinstance(c, Sym):
                # the front end may assume it; follow only traces on which it holds
                if not st.truth(c):
                    raise Abort("assumption violated")
            return None
        if n.startswith(("llvm.expect", "llvm.launder", "llvm.strip", "llvm.ssa.copy")):
            return args[0]
        if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"):
            raise Abort("trap")
        if n.startswith(("llvm.uadd.with.overflow", "llvm.usub.with.overflow", "llvm.umul.with.overflow",
                         "llvm.sadd.with.overflow", "llvm.ssub.with.overflow", "llvm.smul.with.overflow")):
            w = int(n.rsplit(".i", 1)[1])
            op = n[6:9]
            a, b = st.norm(args[0]), st.norm(args[1])
            r = st.bin(op, w, a, b)
            if isinstance(a, int) and isinstance(b, int):
                if n[5] == "u":
                    x = {"add": a + b, "sub": a - b, "mul": a * b}[op]
                    return (r, int(x < 0 or x > mask(w)))
                a, b = sgn(a, w), sgn(b, w)
                x = {"add": a + b, "sub": a - b, "mul": a * b}[op]
                return (r, int(not -(1 << (w - 1)) <= x < 1 << (w - 1)))
            return (r, 0)
        if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            w = int(n.rsplit(".i", 1)[1])
            c = st.icmp({"llvm.umin": "ult", "llvm.umax": "ugt", "llvm.smin": "slt", "llvm.smax": "sgt"}[n[:9]], w, args[0], args[1])
            return args[0] if st.truth(c) else args[1]
        if n.startswith("llvm.ctpop"):
            v = st.norm(args[0])
            if isinstance(v, int):
                return bin(v).count("1")
        if n.startswith("llvm.threadlocal.address"):
            return args[0]
        raise Unsup("intrinsic " + n)


def explore(mod, mkenv, run, max_traces=2000):
    """runs `run(state)` for every partition; yields (state, outcome) with outcome ('ret', v) | ('abort', why) | ('mem', why) | ('unsup', why)"""
    work = [[]]
    n = 0
    while work:
        dec = work.pop()
        n += 1
        if n > max_traces:
            yield None, ("unsup", "too many traces")
            return
        env = mkenv()
        st = State(mod, env, dec)
        try:
            out = ("ret", run(st))
        except Abort as e:
            out = ("abort", str(e))
        except MemErr as e:
            out = ("mem", str(e))
        except Unsup as e:
            out = ("unsup", str(e))
        for i in range(len(dec), len(st.taken)):
            c, k = st.taken[i]
            for alt in range(c + 1, k):
                work.append([t[0] for t in st.taken[:i]] + [alt])
        yield st, out
