"""Transfer functions for the standard library and third-party crates."""
import functools
import math
import re

from .values import *
from .interp import Interp, INT_W, wrap, in_range

SI = {}       # (self, item) -> fn
EX = {}       # exact def path -> fn
TI = {}       # (trait tail, item) -> fn     (non-workspace implementors / provided methods)
STOP = object()


def M(self_, *items):
    def d(f):
        for s in (self_ if isinstance(self_, (list, tuple)) else [self_]):
            for i in items:
                SI[(s, i)] = f
        return f
    return d


def X(*names):
    def d(f):
        for n in names:
            EX[n] = f
        return f
    return d


def TR(trait, *items):
    def d(f):
        for i in items:
            TI[(trait, i)] = f
        return f
    return d


VEC = "alloc::vec::Vec"
VD = "alloc::collections::vec_deque::VecDeque"
STRING = "alloc::string::String"
HM = "std::collections::hash::map::HashMap"
HS = "std::collections::hash::set::HashSet"
BM = "alloc::collections::btree::map::BTreeMap"
BS = "alloc::collections::btree::set::BTreeSet"
OPT = "core::option::Option"


def NONE():
    return Agg(0, [])


def SOME(v):
    return Agg(1, [Cell(v)])


def OK(v):
    return Agg(0, [Cell(v)], -1)


def ERR(v):
    return Agg(1, [Cell(v)], -1)


def ORD(n):
    return Agg(1 + (n > 0) - (n < 0), [])


def ord_of(v):
    return v.vi - 1


def unref(I, v):
    """follow references down to a non-reference value"""
    while True:
        t = type(v)
        if t is Ref or t is BoxV or t is RcV:
            v = I.force(v.c)
        elif t is Havoc:
            v = I.havoc(v.t, v.n)
        else:
            return v


def S(I, v):
    v = unref(I, v)
    t = type(v)
    if t is str:
        return v
    if t is Str:
        return v.v
    if t is Agg and len(v.f) >= 1:     # Cow, OsStr wrappers
        return S(I, v.f[0].v)
    if t is Agg and v.ty is not None and I.db.types[v.ty].get("name") == "std::path::Component":
        return {1: "/", 2: ".", 3: ".."}[v.vi]
    if t is SliceV or t is VecV or t is Arr:
        l = v.cells() if t is SliceV else v.f
        if all(type(c.v) is int for c in l):
            try:
                return bytes(c.v for c in l).decode("utf-8")
            except ValueError:
                raise Unsupported("bytes as text")
    raise Unsupported(f"text of {v!r}"[:160])


def SL(I, v):
    v = unref(I, v)
    t = type(v)
    if t is SliceV:
        return v
    if t is VecV or t is Arr:
        return SliceV(v.f)
    if t is str or t is Str:
        return BytesV(S(I, v))
    raise Unsupported(f"slice of {v!r}"[:160])


def BytesV(s):
    if has_hole(s):
        raise Unsupported("bytes of opaque text")
    return SliceV([Cell(b) for b in s.encode()])


def L(I, v):
    """python list object (cells) of a mutable vector"""
    v = unref(I, v)
    if type(v) is VecV or type(v) is Arr:
        return v.f
    raise Unsupported(f"vector {v!r}"[:160])


def N(I, v):
    if type(v) is int:
        return v
    if isinstance(v, Cond):
        return int(I.decide(v))
    if isinstance(v, Lin):
        lo, hi = I.lin_range(v)
        if lo is not None and lo == hi:
            return lo
    raise Unsupported(f"concrete number needed: {v!r}"[:120])


# ---------------------------------------------------------------- text ---
IDENT_CH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
NUM_CH = set("0123456789-")


def kind_chars(kind):
    if kind == "ident":
        return IDENT_CH
    if kind == "num":
        return NUM_CH
    return None


def may_match(s, pat):
    """could the pattern occur inside one of the opaque fragments of s (or straddle it)?"""
    for c in s:
        if is_hole(c):
            k = kind_chars(hole_info(c)[1])
            if k is None or (pat and all(p in k for p in pat)):
                return True
    return False


class Lit:
    """pattern"""


def pat_of(I, v):
    """returns python (fn(char)->bool) or str"""
    x = unref(I, v)
    if type(x) is str:
        return x
    if type(x) is Str:
        return x.v
    if type(x) is int:
        return chr(x)
    if type(x) in (Arr, SliceV):
        l = x.cells() if type(x) is SliceV else x.f
        cs = [chr(c.v) for c in l]
        return lambda ch: ch in cs
    return lambda ch: pred_char(I, x, ch)


def pred_char(I, f, ch):
    r = I.callable(f, [ord(ch)])
    return bool(I.decide(r))


def chk(s, p, what):
    if isinstance(p, str) and may_match(s, p):
        if any(is_hole(c) and hole_info(c)[1] == "ident" for c in s) and not any(
                is_hole(c) and kind_chars(hole_info(c)[1]) is None for c in s):
            # generic identifiers: assumed not to contain the literal (recorded)
            return
        raise Unsupported(f"{what} {p!r} in opaque text")


def slen(I, s):
    n = 0
    l = None
    for c in s:
        if is_hole(c):
            nm, k = hole_info(c)
            if type(nm) is tuple and nm[0] == "lin":
                raise Unsupported("length of a symbolic number's text")
            sym = "len:" + str(nm)
            if k != "text" and sym not in I.rng:
                I.rng[sym] = (1, 255)
            l = ladd(0 if l is None else l, Lin.sym(sym))
        else:
            n += len(c.encode())
    return n if l is None else ladd(l, n)


def sidx(I, s, i):
    """character position for the byte offset i"""
    if type(i) is int and not has_hole(s):
        if s.isascii():
            if i > len(s):
                raise RustPanic("str index out of bounds", I.where())
            return i
        b = s.encode()
        try:
            return len(b[:i].decode())
        except ValueError:
            raise RustPanic("str index not on a char boundary", I.where())
    for k in range(len(s) + 1):
        if slen(I, s[:k]) == i:
            return k
    if type(i) is int and i == 0:
        return 0
    raise Unsupported("index into opaque text")


def case_map(s, f, tag):
    out = []
    for c in s:
        if is_hole(c):
            nm, k = hole_info(c)
            if k == "num":
                out.append(c)
                continue
            if isinstance(nm, tuple) and nm[0] == "case":
                out.append(hole(("case", tag, nm[2]), k) if tag in ("lower", "upper") else hole(("case", tag, nm), k))
            else:
                out.append(hole(("case", tag, nm), k))
        else:
            out.append(f(c))
    return "".join(out)


def lower(s):
    return case_map(s, str.lower, "lower")


def upper(s):
    return case_map(s, str.upper, "upper")


def words(s):
    # convert_case default boundaries
    s = re.sub(r"[_\- ]+", " ", s)
    s = re.sub(r"([a-z])([A-Z])", r"\1 \2", s)
    s = re.sub(r"([A-Z])([A-Z][a-z])", r"\1 \2", s)
    s = re.sub(r"([a-zA-Z])([0-9])", r"\1 \2", s)
    s = re.sub(r"([0-9])([a-zA-Z])", r"\1 \2", s)
    return s.split()


def to_case(s, case):
    if any(is_hole(c) for c in s):
        return hole(("case", case, s if len(s) > 1 else hole_info(s)[0]), "ident")
    w = words(s)
    if case in ("UpperSnake", "ScreamingSnake", "Constant"):
        return "_".join(x.upper() for x in w)
    if case == "Snake":
        return "_".join(x.lower() for x in w)
    if case in ("Pascal", "UpperCamel"):
        return "".join(x.capitalize() for x in w)
    if case == "Camel":
        return "".join(x.lower() if i == 0 else x.capitalize() for i, x in enumerate(w))
    if case in ("Kebab",):
        return "-".join(x.lower() for x in w)
    if case == "Flat":
        return "".join(x.lower() for x in w)
    if case == "UpperFlat":
        return "".join(x.upper() for x in w)
    raise Unsupported("case " + case)


# ------------------------------------------------------------- equality ---
def is_ws(I, key):
    m = I.db.insts.get(key)
    return m is not None and m.get("crate") in I.models.ws_crates and "body" in m


def user_eqs(I):
    """workspace impls of PartialEq<str> by self type"""
    ue = getattr(I.db, "user_eqs", None)
    if ue is None:
        ue = I.db.user_eqs = {}
        for k, m in I.db.insts.items():
            if m.get("item") == "eq" and m.get("crate") in I.models.ws_crates and "body" in m:
                l = m["body"]["locals"]
                if len(l) > 2 and I.db.types[l[2]]["s"] in ("&str", "&&str"):
                    ue.setdefault(m.get("self"), []).append(k)
    return ue


def unknown_text(s):
    """text with a part that is not a name of its own but something the models cannot spell out"""
    for c in s:
        if is_hole(c):
            n = hole_info(c)[0]
            if isinstance(n, tuple) and n[0] in ("debug", "display", "float"):
                return True
    return False


def veq(I, a, b, t=None):
    a = unref(I, a)
    b = unref(I, b)
    ta, tb = type(a), type(b)
    if ta is Str:
        a, ta = a.v, str
    if tb is Str:
        b, tb = b.v, str
    if ta is str and tb is str:
        if a != b and (unknown_text(a) or unknown_text(b)):
            raise Unsupported("comparison of " + tshow(a)[:60] + " and " + tshow(b)[:60])
        return a == b
    if ta is int and tb is int:
        return a == b
    if isinstance(a, (int, Lin, Cond)) and isinstance(b, (int, Lin, Cond)):
        return bool(I.decide(I.cmp_int("Eq", a, b)))
    if ta is float or tb is float:
        return a == b
    if ta in (VecV, SliceV, Arr) and tb in (VecV, SliceV, Arr):
        la = a.cells() if ta is SliceV else a.f
        lb = b.cells() if tb is SliceV else b.f
        return len(la) == len(lb) and all(veq(I, I.force(x), I.force(y)) for x, y in zip(la, lb))
    if ta is Agg and tb is Agg:
        ty = a.ty if a.ty is not None else b.ty
        if ty is not None and ty == (b.ty if b.ty is not None else ty):
            c = I.db.caps.get(ty)
            if c and "eq" in c and is_ws(I, c["eq"]):
                return bool(I.decide(I.call(c["eq"], [Ref(Cell(a)), Ref(Cell(b))])))
        if a.vi != b.vi or len(a.f) != len(b.f):
            return False
        return all(veq(I, I.force(x), I.force(y)) for x, y in zip(a.f, b.f))
    if ta is MapV and tb is MapV:
        return len(a.d) == len(b.d) and all(
            any(veq(I, k, k2) and veq(I, v.v, v2.v) for k2, v2 in b.d) for k, v in a.d)
    if ta is Agg and tb is str and a.ty is not None:
        for k in user_eqs(I).get(tyname(I, a), ()):
            return bool(I.decide(I.call(k, [Ref(Cell(a)), b])))
    if ta is Agg and tb is str and len(a.f) == 1:
        return veq(I, a.f[0].v, b)
    if ta is str and tb is Agg and len(b.f) == 1:
        return veq(I, a, b.f[0].v)
    if ta is Opq and tb is Opq:
        if a.n == b.n:
            return True
    raise Unsupported(f"equality {a!r} {b!r}"[:160])


def vcmp(I, a, b):
    """-1/0/1"""
    a = unref(I, a)
    b = unref(I, b)
    ta, tb = type(a), type(b)
    if ta is Str:
        a, ta = a.v, str
    if tb is Str:
        b, tb = b.v, str
    if ta is str and tb is str:
        if a == b:
            return 0
        if has_hole(a) or has_hole(b):
            # order of opaque names is unknown: branch
            if not is_hole(a[0]) and b and not is_hole(b[0]) and a[0] != b[0]:
                return -1 if a.encode() < b.encode() else 1
            x, y = (a, b) if a < b else (b, a)
            r = -1 if I.decide(Cond("strlt", (x, y))) else 1
            return r if (a, b) == (x, y) else -r
        return (a.encode() > b.encode()) - (a.encode() < b.encode())
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
        if I.decide(I.cmp_int("Lt", a, b)):
            return -1
        return 0 if I.decide(I.cmp_int("Eq", a, b)) else 1
    if ta in (VecV, SliceV, Arr) and tb in (VecV, SliceV, Arr):
        la = a.cells() if ta is SliceV else a.f
        lb = b.cells() if tb is SliceV else b.f
        for x, y in zip(la, lb):
            r = vcmp(I, I.force(x), I.force(y))
            if r:
                return r
        return (len(la) > len(lb)) - (len(la) < len(lb))
    if ta is Agg and tb is Agg:
        ty = a.ty if a.ty is not None else b.ty
        if ty is not None:
            c = I.db.caps.get(ty)
            if c and "cmp" in c and is_ws(I, c["cmp"]):
                return ord_of(I.call(c["cmp"], [Ref(Cell(a)), Ref(Cell(b))]))
            if c and "partial_cmp" in c and is_ws(I, c["partial_cmp"]):
                o = I.call(c["partial_cmp"], [Ref(Cell(a)), Ref(Cell(b))])
                if o.vi == 1:
                    return ord_of(o.f[0].v)
                raise Unsupported("unordered")
        if a.vi != b.vi:
            return -1 if a.vi < b.vi else 1
        if ty is not None and I.db.types[ty].get("name") == "core::cmp::Reverse":
            return vcmp(I, I.force(b.f[0]), I.force(a.f[0]))
        for x, y in zip(a.f, b.f):
            r = vcmp(I, I.force(x), I.force(y))
            if r:
                return r
        return 0
    raise Unsupported(f"ordering {a!r} {b!r}"[:160])


def rsort(I, cells, less):
    """the standard library's stable sort (insertion sort for short inputs)"""
    n = len(cells)
    if n < 2:
        return
    if n <= 20:
        v = [c.v for c in cells]
        for i in range(1, n):
            x = v[i]
            j = i
            if less(x, v[j - 1]):
                while True:
                    v[j] = v[j - 1]
                    j -= 1
                    if j == 0 or not less(x, v[j - 1]):
                        break
                v[j] = x
        for c, x in zip(cells, v):
            c.v = x
        return
    v = [c.v for c in cells]

    def cmpf(a, b):
        if less(a, b):
            return -1
        if less(b, a):
            return 1
        return 0
    v.sort(key=functools.cmp_to_key(cmpf))
    for c, x in zip(cells, v):
        c.v = x


# ------------------------------------------------------------ iterators ---
class It:
    def nx(self):
        raise NotImplementedError

    def nb(self):
        raise Unsupported("next_back on " + type(self).__name__)

    def copy_it(self):
        raise Unsupported("clone of " + type(self).__name__)

    def all(self):
        out = []
        while True:
            x = self.nx()
            if x is STOP:
                return out
            out.append(x)
            if len(out) > 200000:
                raise Unsupported("unbounded iteration")


class ListIt(It):
    def __init__(self, items, i=0, j=None):
        self.items = items
        self.i = i
        self.j = len(items) if j is None else j

    def nx(self):
        if self.i >= self.j:
            return STOP
        x = self.items[self.i]
        self.i += 1
        return x

    def nb(self):
        if self.i >= self.j:
            return STOP
        self.j -= 1
        return self.items[self.j]

    def copy_it(self):
        return ListIt(self.items, self.i, self.j)

    def length(self):
        return self.j - self.i


class FnIt(It):
    def __init__(self, nx, nb=None, cp=None, ln=None):
        self._nx, self._nb, self._cp, self._ln = nx, nb, cp, ln

    def nx(self):
        return self._nx()

    def nb(self):
        if self._nb is None:
            raise Unsupported("next_back")
        return self._nb()

    def copy_it(self):
        if self._cp is None:
            raise Unsupported("iterator clone")
        return self._cp()

    def length(self):
        if self._ln is None:
            raise Unsupported("iterator length")
        return self._ln()


def ln(it):
    if hasattr(it, "length"):
        return it.length()
    return len(it.copy_it().all())


def MapIt(I, src, f):
    def ap(x):
        return x if x is STOP else I.callable(f, [x])
    return FnIt(lambda: ap(src.nx()), lambda: ap(src.nb()), lambda: MapIt(I, src.copy_it(), f), lambda: ln(src))


def FilterIt(I, src, f):
    def go(step):
        while True:
            x = step()
            if x is STOP or I.decide(I.callable(f, [Ref(Cell(x))])):
                return x
    return FnIt(lambda: go(src.nx), lambda: go(src.nb), lambda: FilterIt(I, src.copy_it(), f))


def FilterMapIt(I, src, f):
    def go(step):
        while True:
            x = step()
            if x is STOP:
                return x
            r = I.callable(f, [x])
            if r.vi == 1:
                return r.f[0].v
    return FnIt(lambda: go(src.nx), lambda: go(src.nb), lambda: FilterMapIt(I, src.copy_it(), f))


def EnumIt(src, n=0):
    st = [n]

    def nx():
        x = src.nx()
        if x is STOP:
            return x
        st[0] += 1
        return agg(0, st[0] - 1, x)

    def nb():
        k = ln(src)
        x = src.nb()
        return x if x is STOP else agg(0, st[0] + k - 1, x)
    return FnIt(nx, nb, lambda: EnumIt(src.copy_it(), st[0]), lambda: ln(src))


def ZipIt(a, b):
    def nx():
        x = a.nx()
        if x is STOP:
            return x
        y = b.nx()
        return y if y is STOP else agg(0, x, y)

    def nb():
        la, lb = ln(a), ln(b)
        while la > lb:
            a.nb()
            la -= 1
        while lb > la:
            b.nb()
            lb -= 1
        x, y = a.nb(), b.nb()
        return STOP if x is STOP else agg(0, x, y)
    return FnIt(nx, nb, lambda: ZipIt(a.copy_it(), b.copy_it()), lambda: min(ln(a), ln(b)))


def ChainIt(a, b):
    def nx():
        x = a.nx()
        return b.nx() if x is STOP else x

    def nb():
        x = b.nb()
        return a.nb() if x is STOP else x
    return FnIt(nx, nb, lambda: ChainIt(a.copy_it(), b.copy_it()), lambda: ln(a) + ln(b))


def RevIt(a):
    return FnIt(a.nb, a.nx, lambda: RevIt(a.copy_it()), lambda: ln(a))


def SkipIt(a, n):
    st = [n]

    def adv():
        while st[0] > 0:
            st[0] -= 1
            if a.nx() is STOP:
                st[0] = 0

    def nx():
        adv()
        return a.nx()

    def nb():
        adv()
        return a.nb()
    return FnIt(nx, nb, lambda: SkipIt(a.copy_it(), st[0]), lambda: max(0, ln(a) - st[0]))


def TakeIt(a, n):
    st = [n]

    def nx():
        if st[0] <= 0:
            return STOP
        st[0] -= 1
        return a.nx()

    def nb():
        k = ln(a)
        while k > st[0]:
            a.nb()
            k -= 1
        if st[0] <= 0:
            return STOP
        st[0] -= 1
        return a.nb()
    return FnIt(nx, nb, lambda: TakeIt(a.copy_it(), st[0]), lambda: min(ln(a), st[0]))


def SkipWhileIt(I, a, f):
    st = [False]

    def nx():
        while True:
            x = a.nx()
            if x is STOP or st[0] or not I.decide(I.callable(f, [Ref(Cell(x))])):
                st[0] = True
                return x
    return FnIt(nx, None, None)


def TakeWhileIt(I, a, f):
    st = [False]

    def nx():
        if st[0]:
            return STOP
        x = a.nx()
        if x is STOP or not I.decide(I.callable(f, [Ref(Cell(x))])):
            st[0] = True
            return STOP
        return x
    return FnIt(nx, None, None)


def MapWhileIt(I, a, f):
    def nx():
        x = a.nx()
        if x is STOP:
            return x
        r = I.callable(f, [x])
        return r.f[0].v if r.vi == 1 else STOP
    return FnIt(nx, None, None)


class PeekIt(It):
    def __init__(self, a):
        self.a = a
        self.buf = []

    def nx(self):
        if self.buf:
            return self.buf.pop()
        return self.a.nx()

    def peek(self):
        if not self.buf:
            self.buf.append(self.a.nx())
        return self.buf[0]

    def copy_it(self):
        p = PeekIt(self.a.copy_it())
        p.buf = list(self.buf)
        return p


def FlatIt(I, a):
    st = [None]

    def nx():
        while True:
            if st[0] is not None:
                x = st[0].nx()
                if x is not STOP:
                    return x
            y = a.nx()
            if y is STOP:
                return STOP
            st[0] = to_it(I, y)

    def cp():
        n = FlatIt(I, a.copy_it())
        if st[0] is not None:
            n = ChainIt(st[0].copy_it(), n)
        return n
    return FnIt(nx, None, cp)


def ClonedIt(I, a):
    def cl(x):
        return x if x is STOP else I.clone(unref1(I, x))
    return FnIt(lambda: cl(a.nx()), lambda: cl(a.nb()), lambda: ClonedIt(I, a.copy_it()), lambda: ln(a))


def StepIt(a, n):
    first = [True]

    def nx():
        if first[0]:
            first[0] = False
            return a.nx()
        for _ in range(n - 1):
            if a.nx() is STOP:
                return STOP
        return a.nx()
    return FnIt(nx)


def ScanIt(I, a, init, f):
    c = Cell(init)

    def nx():
        x = a.nx()
        if x is STOP:
            return x
        r = I.callable(f, [Ref(c), x])
        return r.f[0].v if r.vi == 1 else STOP
    return FnIt(nx)


def UserIt(I, cell, key, kb):
    def go(k):
        if k is None:
            raise Unsupported("user next_back")
        r = I.call(k, [Ref(cell)])
        return r.f[0].v if r.vi == 1 else STOP
    return FnIt(lambda: go(key), lambda: go(kb), lambda: UserIt(I, Cell(I.clone(cell.v)), key, kb))


def RangeIt(I, cell, incl):
    """iterates the range stored in cell (fields start, end[, exhausted])"""
    def fields():
        return cell.v.f

    def nx():
        f = fields()
        if incl and len(f) > 2 and f[2].v:
            return STOP
        a, b = f[0].v, f[1].v
        if not I.decide(I.cmp_int("Le" if incl else "Lt", a, b)):
            return STOP
        if incl and I.decide(I.cmp_int("Eq", a, b)):
            while len(f) < 3:
                f.append(Cell(0))
            f[2].v = 1
            return a
        f[0].v = ladd(a, 1)
        return a

    def nb():
        f = fields()
        if incl and len(f) > 2 and f[2].v:
            return STOP
        a, b = f[0].v, f[1].v
        if not I.decide(I.cmp_int("Le" if incl else "Lt", a, b)):
            return STOP
        if incl:
            if I.decide(I.cmp_int("Eq", a, b)):
                f[2].v = 1
                return b
            f[1].v = ladd(b, -1)
            return b
        f[1].v = ladd(b, -1)
        return f[1].v

    def length():
        f = fields()
        return max(0, N(I, f[1].v) - N(I, f[0].v) + (1 if incl else 0))
    return FnIt(nx, nb, lambda: RangeIt(I, Cell(I.clone(cell.v)), incl), length)


def RangeFromIt(I, cell):
    def nx():
        f = cell.v.f
        a = f[0].v
        f[0].v = ladd(a, 1)
        return a
    return FnIt(nx)


def unref1(I, v):
    t = type(v)
    if t is Ref:
        return I.force(v.c)
    return v


def tyname(I, v):
    if type(v) is Agg and v.ty is not None:
        return I.db.types[v.ty].get("name", "")
    return ""


def map_items(I, m, what):
    if m.kind in ("hash", "hashset"):
        I.event("hash_iter", what, I.where())
        ents = list(m.d)
        if I.models.hash_order == "reverse":
            ents.reverse()
        elif I.models.hash_order == "rotate":
            ents = ents[1:] + ents[:1]
        elif I.models.hash_order == "mixed":
            ents = ents[1::2] + ents[::2]
        return ents
    ents = list(m.d)
    ents.sort(key=functools.cmp_to_key(lambda a, b: vcmp(I, a[0], b[0])))
    return ents


def itcaps(I, v):
    """next / next_back of a user iterator, into_iter of a user collection"""
    cp = dict(I.db.caps.get(v.ty, {}))
    n = tyname(I, v)
    ui = getattr(I.db, "user_iters", None)
    if ui is None:
        ui = I.db.user_iters = {}
        for k, m in I.db.insts.items():
            if m.get("crate") in I.models.ws_crates and not m.get("provided") and \
                    (m.get("trait") or "").rsplit("::", 1)[-1] in ("Iterator", "DoubleEndedIterator", "IntoIterator") \
                    and m.get("item") in ("next", "next_back", "into_iter"):
                ui.setdefault(m.get("self"), {})[m["item"]] = k
    for it, k in ui.get(n, {}).items():
        cp.setdefault(it, k)
    return cp


def iter_of_cell(I, c, by_ref=True):
    """iterator over the value inside a cell reached through a reference: &x / &mut iter"""
    v = I.force(c)
    if isinstance(v, It):
        return v
    t = type(v)
    if t in (Ref, BoxV):
        return iter_of_cell(I, v.c)
    if t in (VecV, Arr):
        return ListIt([Ref(x) for x in v.f])
    if t is SliceV:
        return ListIt([Ref(x) for x in v.cells()])
    if t is MapV:
        es = map_items(I, v, "iter")
        if v.kind.endswith("set"):
            return ListIt([Ref(Cell(k)) for k, _ in es])
        return ListIt([agg(0, Ref(Cell(k)), Ref(x)) for k, x in es])
    if t is Agg:
        n = tyname(I, v)
        if n == "core::ops::range::Range":
            return RangeIt(I, c, False)
        if n == "core::ops::range::RangeInclusive":
            return RangeIt(I, c, True)
        if n == "core::ops::range::RangeFrom":
            return RangeFromIt(I, c)
        if v.ty is not None:
            cp = itcaps(I, v)
            if "next" in cp:
                return UserIt(I, c, cp["next"], cp.get("next_back"))
        if v.ty is None or n == OPT:
            return ListIt([Ref(v.f[0])] if v.vi == 1 else [])
        if n == "core::result::Result":
            return ListIt([Ref(v.f[0])] if v.vi == 0 else [])
    raise Unsupported(f"iterate &{v!r}"[:160])


def to_it(I, v, t=None):
    """IntoIterator::into_iter"""
    if isinstance(v, It):
        return v
    tt = type(v)
    if tt is Ref:
        return iter_of_cell(I, v.c)
    if tt is BoxV:
        return to_it(I, I.force(v.c))
    if tt in (VecV, Arr):
        return ListIt([I.force(c) for c in v.f])
    if tt is SliceV:
        return ListIt([Ref(c) for c in v.cells()])
    if tt is MapV:
        es = map_items(I, v, "into_iter")
        if v.kind.endswith("set"):
            return ListIt([k for k, _ in es])
        return ListIt([agg(0, k, c.v) for k, c in es])
    if tt is Agg:
        n = tyname(I, v)
        if v.ty is not None:
            cp = itcaps(I, v)
            if "into_iter" in cp and is_ws(I, cp["into_iter"]):
                return to_it(I, I.call(cp["into_iter"], [v]))
            if n.startswith("core::ops::range") or "next" in cp:
                return iter_of_cell(I, Cell(v))
        if v.ty is None or n == OPT:
            return ListIt([v.f[0].v] if v.vi == 1 else [])
        if n == "core::result::Result":
            return ListIt([v.f[0].v] if v.vi == 0 else [])
    if tt is DynRef:
        return DynIt(I, v)
    raise Unsupported(f"iterate {v!r}"[:160])


def DynIt(I, d):
    c = I.db.caps.get(d.t, {})
    p = d.p

    def nx():
        x = unref1(I, p)
        if type(p) is BoxV:
            x = I.force(p.c)
        if isinstance(x, It):
            return x.nx()
        return to_it(I, Ref(p.c)).nx()
    return FnIt(nx)


def nopt(x):
    return NONE() if x is STOP else SOME(x)


ITER = "Iterator"


def it_self(I, v):
    """self by value or &mut"""
    return to_it(I, v)


@M(OPT, "iter", "iter_mut")
def opt_iter(I, m, a):
    v = I.force(a[0].c)
    return ListIt([Ref(v.f[0])] if v.vi == 1 else [])


def it_cmp(I, a):
    x, y = it_self(I, a[0]), to_it(I, a[1])
    while True:
        p, q = x.nx(), y.nx()
        if p is STOP or q is STOP:
            return (q is STOP) - (p is STOP)
        r = vcmp(I, p, q)
        if r:
            return r


def try_type(I, t):
    """(the variant that continues, its constructor) of a Try type"""
    n = I.db.types[t].get("name")
    if n == OPT:
        return 1, SOME
    if n == "core::result::Result":
        return 0, OK
    if n == "core::ops::control_flow::ControlFlow":
        return 0, lambda v: agg(0, v)
    raise Unsupported("try on " + str(n))


def total(I, m, xs, z, op, tr):
    """Iterator::sum / product"""
    rt = m["args"][-1]
    k = I.db.types[rt]
    if k["k"] == "adt" and k.get("name") in (OPT, "core::result::Result"):
        go, wrap_ = try_type(I, rt)
        vs = []
        for x in xs:
            if x.vi != go:
                return x
            vs.append(x.f[0].v)
        k = I.db.types[k["args"][0]]
        xs = vs
    else:
        wrap_ = lambda v: v
    if k["k"] == "float":
        r = float(z) if tr == "product" else -0.0
        for x in xs:
            x = unref(I, x)
            if not isinstance(x, float):
                raise Unsupported("sum of unknown floats")
            r = float_of(r + x if tr == "sum" else r * x, k["n"])
        return wrap_(r)
    if k["k"] != "int" and not (k["k"] == "adt" and k.get("name") == NZ):
        raise Unsupported("sum of " + str(k.get("s")))
    r = z
    for x in xs:
        r = op(r, unref(I, x))
        if type(r) is int and not in_range(r, k["n"]):
            if not I.db.overflow_checks:
                r = wrap(r, k["n"])
                continue
            raise RustPanic("overflow:" + ("Add" if tr == "sum" else "Mul"), I.where())
    return wrap_(r)


def reg_iter():
    def t(*items):
        return TR(ITER, *items)

    @t("next")
    def _(I, m, a):
        return nopt(it_self(I, a[0]).nx())

    @t("map")
    def _(I, m, a):
        return MapIt(I, it_self(I, a[0]), a[1])

    @t("filter")
    def _(I, m, a):
        return FilterIt(I, it_self(I, a[0]), a[1])

    @t("filter_map")
    def _(I, m, a):
        return FilterMapIt(I, it_self(I, a[0]), a[1])

    @t("flat_map")
    def _(I, m, a):
        return FlatIt(I, MapIt(I, it_self(I, a[0]), a[1]))

    @t("flatten")
    def _(I, m, a):
        return FlatIt(I, it_self(I, a[0]))

    @t("enumerate")
    def _(I, m, a):
        return EnumIt(it_self(I, a[0]))

    @t("zip")
    def _(I, m, a):
        return ZipIt(it_self(I, a[0]), to_it(I, a[1]))

    @t("chain")
    def _(I, m, a):
        return ChainIt(it_self(I, a[0]), to_it(I, a[1]))

    @t("rev")
    def _(I, m, a):
        return RevIt(it_self(I, a[0]))

    @t("skip")
    def _(I, m, a):
        return SkipIt(it_self(I, a[0]), N(I, a[1]))

    @t("take")
    def _(I, m, a):
        return TakeIt(it_self(I, a[0]), N(I, a[1]))

    @t("step_by")
    def _(I, m, a):
        return StepIt(it_self(I, a[0]), N(I, a[1]))

    @t("skip_while")
    def _(I, m, a):
        return SkipWhileIt(I, it_self(I, a[0]), a[1])

    @t("take_while")
    def _(I, m, a):
        return TakeWhileIt(I, it_self(I, a[0]), a[1])

    @t("map_while")
    def _(I, m, a):
        return MapWhileIt(I, it_self(I, a[0]), a[1])

    @t("scan")
    def _(I, m, a):
        return ScanIt(I, it_self(I, a[0]), a[1], a[2])

    @t("peekable")
    def _(I, m, a):
        return PeekIt(it_self(I, a[0]))

    @t("fuse", "into_iter")
    def _(I, m, a):
        return it_self(I, a[0])

    @t("by_ref")
    def _(I, m, a):
        return a[0] if type(a[0]) is Ref else it_self(I, a[0])

    @t("cycle")
    def _(I, m, a):
        src = it_self(I, a[0])
        st = [src.copy_it()]

        def nx():
            x = st[0].nx()
            if x is STOP:
                st[0] = src.copy_it()
                x = st[0].nx()
            return x
        return FnIt(nx)

    @t("inspect")
    def _(I, m, a):
        src = it_self(I, a[0])

        def nx():
            x = src.nx()
            if x is not STOP:
                I.callable(a[1], [Ref(Cell(x))])
            return x
        return FnIt(nx)

    @t("cloned", "copied")
    def _(I, m, a):
        return ClonedIt(I, it_self(I, a[0]))

    @t("for_each")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nx()
            if x is STOP:
                return UNIT
            I.callable(a[1], [x])

    @t("try_for_each")
    def _(I, m, a):
        it = it_self(I, a[0])
        go, wrap_ = try_type(I, m["args"][-1])
        while True:
            x = it.nx()
            if x is STOP:
                return wrap_(UNIT)
            r = I.callable(a[1], [x])
            if r.vi != go:
                return r

    @t("fold")
    def _(I, m, a):
        it = it_self(I, a[0])
        acc = a[1]
        while True:
            x = it.nx()
            if x is STOP:
                return acc
            acc = I.callable(a[2], [acc, x])

    @t("try_fold")
    def _(I, m, a):
        it = it_self(I, a[0])
        go, wrap_ = try_type(I, m["args"][-1])
        acc = a[1]
        while True:
            x = it.nx()
            if x is STOP:
                return wrap_(acc)
            r = I.callable(a[2], [acc, x])
            if r.vi != go:
                return r
            acc = r.f[0].v

    @t("reduce")
    def _(I, m, a):
        it = it_self(I, a[0])
        acc = it.nx()
        if acc is STOP:
            return NONE()
        while True:
            x = it.nx()
            if x is STOP:
                return SOME(acc)
            acc = I.callable(a[1], [acc, x])

    @t("count")
    def _(I, m, a):
        return len(it_self(I, a[0]).all())

    @t("last")
    def _(I, m, a):
        l = it_self(I, a[0]).all()
        return SOME(l[-1]) if l else NONE()

    @t("nth")
    def _(I, m, a):
        it = it_self(I, a[0])
        for _ in range(N(I, a[1])):
            if it.nx() is STOP:
                return NONE()
        return nopt(it.nx())

    @t("any")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nx()
            if x is STOP:
                return 0
            if I.decide(I.callable(a[1], [x])):
                return 1

    @t("all")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nx()
            if x is STOP:
                return 1
            if not I.decide(I.callable(a[1], [x])):
                return 0

    @t("find")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nx()
            if x is STOP:
                return NONE()
            if I.decide(I.callable(a[1], [Ref(Cell(x))])):
                return SOME(x)

    @t("find_map")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nx()
            if x is STOP:
                return NONE()
            r = I.callable(a[1], [x])
            if r.vi == 1:
                return r

    @t("position")
    def _(I, m, a):
        it = it_self(I, a[0])
        i = 0
        while True:
            x = it.nx()
            if x is STOP:
                return NONE()
            if I.decide(I.callable(a[1], [x])):
                return SOME(i)
            i += 1

    @t("rposition")
    def _(I, m, a):
        it = it_self(I, a[0])
        l = it.all()
        for i in range(len(l) - 1, -1, -1):
            if I.decide(I.callable(a[1], [l[i]])):
                return SOME(i)
        return NONE()

    @t("partition")
    def _(I, m, a):
        x, y = [], []
        for v in it_self(I, a[0]).all():
            (x if I.decide(I.callable(a[1], [Ref(Cell(v))])) else y).append(Cell(v))
        return agg(0, VecV(x), VecV(y))

    @t("unzip")
    def _(I, m, a):
        x, y = [], []
        for v in it_self(I, a[0]).all():
            x.append(Cell(v.f[0].v))
            y.append(Cell(v.f[1].v))
        return agg(0, VecV(x), VecV(y))

    def minmax(sgn, keyf):
        def f(I, m, a):
            best = None
            bk = None
            for x in it_self(I, a[0]).all():
                k = I.callable(a[1], [Ref(Cell(x))]) if keyf == "key" else x
                if best is None:
                    best, bk = x, k
                    continue
                if keyf == "by":
                    r = ord_of(I.callable(a[1], [Ref(Cell(bk)), Ref(Cell(k))]))
                else:
                    r = vcmp(I, bk, k)
                # max keeps the last maximum, min the first minimum
                if (sgn > 0 and r <= 0) or (sgn < 0 and r > 0):
                    best, bk = x, k
            return NONE() if best is None else SOME(best)
        return f
    TI[(ITER, "max")] = minmax(1, None)
    TI[(ITER, "min")] = minmax(-1, None)
    TI[(ITER, "max_by_key")] = minmax(1, "key")
    TI[(ITER, "min_by_key")] = minmax(-1, "key")
    TI[(ITER, "max_by")] = minmax(1, "by")
    TI[(ITER, "min_by")] = minmax(-1, "by")

    @t("sum")
    def _(I, m, a):
        k = I.db.types[m["args"][-1]]
        xs = it_self(I, a[0])
        if k["k"] == "adt":
            for key, x in I.db.insts.items():
                if x.get("item") == "sum" and (x.get("trait") or "").endswith("::Sum") and x.get("self") == k["name"] and is_ws(I, key):
                    return I.call(key, [xs])
        return total(I, m, xs.all(), 0, ladd, "sum")

    @t("product")
    def _(I, m, a):
        return total(I, m, it_self(I, a[0]).all(), 1, lmul, "product")

    @t("size_hint")
    def _(I, m, a):
        it = it_self(I, a[0])
        if isinstance(it, ListIt):
            return agg(0, it.length(), SOME(it.length()))
        return agg(0, 0, NONE())

    @t("collect")
    def _(I, m, a):
        return collect(I, it_self(I, a[0]), m["args"][1])

    @t("eq")
    def _(I, m, a):
        x, y = it_self(I, a[0]).all(), to_it(I, a[1]).all()
        return int(len(x) == len(y) and all(veq(I, p, q) for p, q in zip(x, y)))

    @t("ne")
    def _(I, m, a):
        x, y = it_self(I, a[0]).all(), to_it(I, a[1]).all()
        return int(not (len(x) == len(y) and all(veq(I, p, q) for p, q in zip(x, y))))

    @t("cmp")
    def _(I, m, a):
        return ORD(it_cmp(I, a))

    @t("partial_cmp")
    def _(I, m, a):
        return SOME(ORD(it_cmp(I, a)))

    for _n, _f in (("lt", lambda r: r < 0), ("le", lambda r: r <= 0), ("gt", lambda r: r > 0), ("ge", lambda r: r >= 0)):
        TI[(ITER, _n)] = (lambda f: lambda I, m, a: int(f(it_cmp(I, a))))(_f)

    @t("is_sorted")
    def _(I, m, a):
        x = it_self(I, a[0]).all()
        return int(all(vcmp(I, p, q) <= 0 for p, q in zip(x, x[1:])))

    D = "DoubleEndedIterator"

    @TR(D, "next_back")
    def _(I, m, a):
        return nopt(it_self(I, a[0]).nb())

    @TR(D, "rfind")
    def _(I, m, a):
        it = it_self(I, a[0])
        while True:
            x = it.nb()
            if x is STOP:
                return NONE()
            if I.decide(I.callable(a[1], [Ref(Cell(x))])):
                return SOME(x)

    @TR(D, "rfold")
    def _(I, m, a):
        it = it_self(I, a[0])
        acc = a[1]
        while True:
            x = it.nb()
            if x is STOP:
                return acc
            acc = I.callable(a[2], [acc, x])

    @TR("ExactSizeIterator", "len")
    def _(I, m, a):
        return ln(it_self(I, a[0]))

    @TR("IntoIterator", "into_iter")
    def _(I, m, a):
        return to_it(I, a[0])

    @TR("FromIterator", "from_iter")
    def _(I, m, a):
        raise Unsupported("from_iter " + m["disp"])


reg_iter()


@M("core::iter::adapters::peekable::Peekable", "peek")
def _(I, m, a):
    x = unref(I, a[0]).peek()
    return NONE() if x is STOP else SOME(Ref(Cell(x)))


@M("core::iter::adapters::peekable::Peekable", "next_if")
def _(I, m, a):
    p = unref(I, a[0])
    x = p.peek()
    if x is STOP or not I.decide(I.callable(a[1], [Ref(Cell(x))])):
        return NONE()
    return SOME(p.nx())


@M("core::iter::adapters::peekable::Peekable", "next_if_eq")
def _(I, m, a):
    p = unref(I, a[0])
    x = p.peek()
    if x is STOP or not veq(I, x, a[1]):
        return NONE()
    return SOME(p.nx())


@M(["core::iter::adapters::rev::Rev"], "new")
def _(I, m, a):
    return RevIt(to_it(I, a[0]))


def mk_string(parts):
    return Str("".join(parts))


def collect(I, it, t):
    ty = I.db.types[t]
    if ty["k"] == "adt":
        n = ty["name"]
        if n in (VEC, VD):
            return VecV([Cell(x) for x in it.all()])
        if n == "alloc::boxed::Box":
            return BoxV(Cell(SliceV([Cell(x) for x in it.all()])))
        if n == STRING or n in ("std::path::PathBuf",):
            out = []
            for x in it.all():
                x = unref(I, x)
                out.append(chr(x) if type(x) is int else S(I, x))
            if n != STRING:
                return Str("/".join(out))
            return Str("".join(out))
        if n in (HM, BM):
            mv = MapV("hash" if n == HM else "btree")
            for x in it.all():
                map_insert(I, mv, x.f[0].v, x.f[1].v)
            return mv
        if n in (HS, BS):
            mv = MapV("hashset" if n == HS else "btreeset")
            for x in it.all():
                map_insert(I, mv, x, UNIT, keep=True)
            return mv
        if n == "core::result::Result":
            out = []
            while True:
                x = it.nx()
                if x is STOP:
                    break
                if x.vi == 1:
                    return Agg(1, [Cell(x.f[0].v)], t)
                out.append(x.f[0].v)
            return Agg(0, [Cell(collect(I, ListIt(out), ty["args"][0]))], t)
        if n == OPT:
            out = []
            while True:
                x = it.nx()
                if x is STOP:
                    break
                if x.vi == 0:
                    return Agg(0, [], t)
                out.append(x.f[0].v)
            return Agg(1, [Cell(collect(I, ListIt(out), ty["args"][0]))], t)
    if ty["k"] == "tuple" and not ty["ts"]:
        it.all()
        return UNIT
    raise Unsupported("collect into " + ty["s"])


# -------------------------------------------------------------- clone etc ---
@TR("Clone", "clone")
def _(I, m, a):
    v = a[0]
    if type(v) is Ref:
        return I.clone(I.force(v.c))
    if type(v) in (str, SliceV, DynRef):
        return v
    return I.clone(v)


@TR("Clone", "clone_from")
def _(I, m, a):
    a[0].c.v = I.clone(unref1(I, a[1]))
    return UNIT


def path_type(I, t):
    while t is not None:
        k = I.db.types[t]
        if k["k"] in ("ref", "ptr"):
            t = k["t"]
            continue
        n = k.get("name")
        return n in ("std::path::Path", "std::path::PathBuf") or "std::path::Path" in (k.get("s") or "") and k["k"] == "adt"
    return False


def path_eq(I, m, a):
    x, y = unref(I, a[0]), unref(I, a[1])
    if type(x) in (str, Str) and type(y) in (str, Str):
        return p_norm_comps(S(I, x)) == p_norm_comps(S(I, y))
    return None


def eq_call(I, m, a):
    if "std::path::Path" in (m.get("self") or "") or any(isinstance(t, int) and path_type(I, t) for t in m.get("args") or ()):
        r = path_eq(I, m, a)
        if r is not None:
            return r
    return veq(I, a[0], a[1])


@TR("PartialEq", "eq")
def _(I, m, a):
    return int(eq_call(I, m, a))


@TR("PartialEq", "ne")
def _(I, m, a):
    return int(not eq_call(I, m, a))


@TR("Ord", "cmp")
def _(I, m, a):
    return ORD(vcmp(I, a[0], a[1]))


@TR("PartialOrd", "partial_cmp")
def _(I, m, a):
    return SOME(ORD(vcmp(I, a[0], a[1])))


for _n, _f in (("lt", lambda r: r < 0), ("le", lambda r: r <= 0), ("gt", lambda r: r > 0), ("ge", lambda r: r >= 0)):
    TI[("PartialOrd", _n)] = (lambda f: lambda I, m, a: int(f(vcmp(I, a[0], a[1]))))(_f)


@TR("Ord", "max")
def _(I, m, a):
    return a[0] if vcmp(I, a[0], a[1]) > 0 else a[1]


@TR("Ord", "min")
def _(I, m, a):
    return a[1] if vcmp(I, a[0], a[1]) > 0 else a[0]


@TR("Ord", "clamp")
def _(I, m, a):
    if vcmp(I, a[0], a[1]) < 0:
        return a[1]
    return a[2] if vcmp(I, a[0], a[2]) > 0 else a[0]


@X("core::cmp::max")
def _(I, m, a):
    return a[0] if vcmp(I, a[0], a[1]) > 0 else a[1]


@X("core::cmp::min")
def _(I, m, a):
    return a[1] if vcmp(I, a[0], a[1]) > 0 else a[0]


def default_of(I, t):
    ty = I.db.types[t]
    k = ty["k"]
    if k in ("int", "bool", "char"):
        return 0
    if k == "tuple":
        return Agg(0, [Cell(default_of(I, x)) for x in ty["ts"]])
    if k == "adt":
        n = ty["name"]
        if n in (VEC, VD):
            return VecV()
        if n == STRING or n == "std::path::PathBuf":
            return Str("")
        if n == OPT:
            return NONE()
        if n in (HM, BM):
            return MapV("hash" if n == HM else "btree")
        if n in (HS, BS):
            return MapV("hashset" if n == HS else "btreeset")
        if n == "core::cell::RefCell":
            return Agg(0, [Cell(default_of(I, ty["args"][0]))], t)
        c = I.db.caps.get(t, {})
        if "default" in c:
            return I.call(c["default"], [])
    if k == "ref" and I.db.types[ty["t"]]["k"] == "str":
        return ""
    raise Unsupported("default of " + ty["s"])


@TR("Default", "default")
def _(I, m, a):
    s = m.get("self")
    if s in INT_W or s in ("bool", "char"):
        return 0
    if s in (VEC, VD):
        return VecV()
    if s == STRING or s == "std::path::PathBuf":
        return Str("")
    if s in (OPT,):
        return NONE()
    if s in (HM, BM):
        return MapV("hash" if s == HM else "btree")
    if s in (HS, BS):
        return MapV("hashset" if s == HS else "btreeset")
    if s == "&str":
        return ""
    if s in ("std::hash::random::RandomState", "std::hash::RandomState"):
        return UNIT
    if "body" in m:
        return I.run(m, m["body"], a)
    raise Unsupported("default " + m["disp"])


# ------------------------------------------------------------------ Vec ---
@M([VEC, VD], "new", "with_capacity", "new_in", "with_capacity_in")
def _(I, m, a):
    return VecV()


@M([VEC], "push")
def _(I, m, a):
    L(I, a[0]).append(Cell(a[1]))
    return UNIT


@M([VD], "push_back")
def _(I, m, a):
    L(I, a[0]).append(Cell(a[1]))
    return UNIT


@M([VD], "push_front")
def _(I, m, a):
    L(I, a[0]).insert(0, Cell(a[1]))
    return UNIT


@M([VEC], "pop")
@M([VD], "pop_back")
def _(I, m, a):
    l = L(I, a[0])
    return SOME(l.pop().v) if l else NONE()


SI[(VD, "pop_back")] = SI[(VEC, "pop")]


@M([VD], "pop_front")
def _(I, m, a):
    l = L(I, a[0])
    return SOME(l.pop(0).v) if l else NONE()


@M([VEC, VD], "insert")
def _(I, m, a):
    l = L(I, a[0])
    i = N(I, a[1])
    if i > len(l):
        raise RustPanic("insert out of bounds", I.where())
    l.insert(i, Cell(a[2]))
    return UNIT


@M([VEC], "remove")
def _(I, m, a):
    l = L(I, a[0])
    i = N(I, a[1])
    if i >= len(l):
        raise RustPanic("remove out of bounds", I.where())
    return l.pop(i).v


@M([VEC], "swap_remove")
def _(I, m, a):
    l = L(I, a[0])
    i = N(I, a[1])
    if i >= len(l):
        raise RustPanic("swap_remove out of bounds", I.where())
    l[i], l[-1] = l[-1], l[i]
    return l.pop().v


@M([VEC, VD], "truncate")
def _(I, m, a):
    l = L(I, a[0])
    del l[N(I, a[1]):]
    return UNIT


@M([VEC, VD], "clear")
def _(I, m, a):
    del L(I, a[0])[:]
    return UNIT


@M([VEC, VD, "[T]"], "len")
def _(I, m, a):
    return SL(I, a[0]).n


@M([VEC, VD, "[T]"], "is_empty")
def _(I, m, a):
    return int(SL(I, a[0]).n == 0)


@M([VEC], "capacity")
def _(I, m, a):
    return SL(I, a[0]).n


@M([VEC, VD], "reserve", "shrink_to_fit", "reserve_exact")
def _(I, m, a):
    return UNIT


@M([VEC], "extend_from_slice")
def _(I, m, a):
    L(I, a[0]).extend([Cell(I.clone(I.force(c))) for c in SL(I, a[1]).cells()])
    return UNIT


@M([VEC, VD], "append")
def _(I, m, a):
    x, y = L(I, a[0]), L(I, a[1])
    x.extend([Cell(c.v) for c in y])
    del y[:]
    return UNIT


@M([VEC, VD], "drain")
def _(I, m, a):
    l = L(I, a[0])
    lo, hi = rng(I, a[1], len(l))
    out = [c.v for c in l[lo:hi]]
    del l[lo:hi]
    return ListIt(out)


@M([VEC, VD], "retain", "retain_mut")
def _(I, m, a):
    l = L(I, a[0])
    l[:] = [c for c in list(l) if I.decide(I.callable(a[1], [Ref(c)]))]
    return UNIT


@M([VEC], "dedup")
def _(I, m, a):
    l = L(I, a[0])
    out = []
    for c in l:
        if not out or not veq(I, out[-1].v, c.v):
            out.append(c)
    l[:] = out
    return UNIT


@M([VEC], "dedup_by_key")
def _(I, m, a):
    l = L(I, a[0])
    out = []
    for c in l:
        if not out or not veq(I, I.callable(a[1], [Ref(out[-1])]), I.callable(a[1], [Ref(c)])):
            out.append(c)
    l[:] = out
    return UNIT


@M([VEC], "split_off")
def _(I, m, a):
    l = L(I, a[0])
    i = N(I, a[1])
    out = l[i:]
    del l[i:]
    return VecV(out)


@M([VEC], "resize")
def _(I, m, a):
    l = L(I, a[0])
    n = N(I, a[1])
    while len(l) < n:
        l.append(Cell(I.clone(a[2])))
    del l[n:]
    return UNIT


@M([VEC], "as_slice", "as_mut_slice", "leak")
def _(I, m, a):
    return SL(I, a[0])


@M([VEC], "into_boxed_slice")
def _(I, m, a):
    return BoxV(Cell(SliceV(L(I, a[0]))))


@M([VEC, VD], "deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut")
def _(I, m, a):
    if m.get("trait", "").endswith(("AsRef", "AsMut")) and len(m.get("args", [])) and "str" == "":
        pass
    return SL(I, a[0])


@M([VEC, VD], "extend")
def _(I, m, a):
    l = L(I, a[0])
    items = to_it(I, a[1]).all()
    # Extend<&T> clones
    ref = "&" in (m["disp"].split("Extend<", 1) + [""])[1][:1] and not _elem_is_ref(I, m)
    for x in items:
        l.append(Cell(I.clone(unref1(I, x)) if ref else x))
    return UNIT


def _elem_is_ref(I, m):
    try:
        return I.db.types[m["args"][0]]["k"] == "ref" and not m["name"].endswith("impl#22}::extend")
    except Exception:
        return False


@M([VEC], "from_iter")
def _(I, m, a):
    return VecV([Cell(x) for x in to_it(I, a[0]).all()])


@M([VEC, VD], "from")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) in (VecV, Arr):
        cells = v.f
    elif type(v) is SliceV:
        cells = v.cells()
    elif type(v) in (str, Str):
        return VecV(BytesV(S(I, v)).l)
    else:
        raise Unsupported("Vec::from")
    return VecV([Cell(I.clone(I.force(c))) for c in cells])


@X("alloc::boxed::box_assume_init_into_vec_unsafe", "alloc::slice::box_assume_init_into_vec_unsafe")
def _(I, m, a):
    v = I.force(a[0].c)
    return VecV(_arr_cells(v))


def _arr_cells(v):
    while type(v) is Agg:
        if len(v.f) == 0:
            raise Unsupported("uninit array")
        v = v.f[-1].v if type(v.f[-1].v) in (Arr, Agg) else v.f[0].v
    if type(v) is Arr:
        return v.f
    if type(v) is SliceV:
        return v.cells()
    raise Unsupported(f"array cells of {v!r}"[:100])


@X("alloc::slice::{impl#0}::into_vec")
def _(I, m, a):
    v = a[0]
    if type(v) is BoxV:
        v = v.c.v
    if type(v) in (Arr, SliceV):
        return VecV(v.f if type(v) is Arr else v.cells())
    raise Unsupported("into_vec")


@X("alloc::vec::from_elem")
def _(I, m, a):
    return VecV([Cell(I.clone(a[0])) for _ in range(N(I, a[1]))])


@X("core::array::from_fn")
def _(I, m, a):
    raise Unsupported("array::from_fn")


# ---------------------------------------------------------------- slices ---
ARRS = "[T; N]"
SEQ = ["[T]", ARRS, VD]


@M(SEQ, "iter", "iter_mut")
def _(I, m, a):
    return ListIt([Ref(c) for c in SL(I, a[0]).cells()])


@M(SEQ, "first", "first_mut", "front")
def _(I, m, a):
    s = SL(I, a[0])
    return SOME(Ref(s.cells()[0])) if s.n else NONE()


@M(SEQ, "last", "last_mut", "back")
def _(I, m, a):
    s = SL(I, a[0])
    return SOME(Ref(s.cells()[-1])) if s.n else NONE()


@M(SEQ, "get", "get_mut")
def _(I, m, a):
    s = SL(I, a[0])
    i = a[1]
    if type(i) is int:
        return SOME(Ref(s.cells()[i])) if i < s.n else NONE()
    try:
        lo, hi = rng(I, i, s.n)
    except RustPanic:
        return NONE()
    return SOME(SliceV(s.l, s.a + lo, hi - lo))


@M(SEQ, "split_first")
def _(I, m, a):
    s = SL(I, a[0])
    return SOME(agg(0, Ref(s.cells()[0]), SliceV(s.l, s.a + 1, s.n - 1))) if s.n else NONE()


@M(SEQ, "split_last")
def _(I, m, a):
    s = SL(I, a[0])
    return SOME(agg(0, Ref(s.cells()[-1]), SliceV(s.l, s.a, s.n - 1))) if s.n else NONE()


@M(SEQ, "split_at", "split_at_mut")
def _(I, m, a):
    s = SL(I, a[0])
    i = N(I, a[1])
    if i > s.n:
        raise RustPanic("split_at out of bounds", I.where())
    return agg(0, SliceV(s.l, s.a, i), SliceV(s.l, s.a + i, s.n - i))


@M(SEQ, "contains")
def _(I, m, a):
    return int(any(veq(I, I.force(c), a[1]) for c in SL(I, a[0]).cells()))


@M(SEQ, "starts_with")
def _(I, m, a):
    x, y = SL(I, a[0]).cells(), SL(I, a[1]).cells()
    return int(len(x) >= len(y) and all(veq(I, p.v, q.v) for p, q in zip(x, y)))


@M(SEQ, "ends_with")
def _(I, m, a):
    x, y = SL(I, a[0]).cells(), SL(I, a[1]).cells()
    return int(len(x) >= len(y) and all(veq(I, p.v, q.v) for p, q in zip(x[len(x) - len(y):], y)))


@M(SEQ, "reverse")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    vs = [c.v for c in cs][::-1]
    for c, v in zip(cs, vs):
        c.v = v
    return UNIT


@M(SEQ, "rotate_left")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    n = N(I, a[1])
    vs = [c.v for c in cs]
    vs = vs[n:] + vs[:n]
    for c, v in zip(cs, vs):
        c.v = v
    return UNIT


@M(SEQ, "rotate_right")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    n = len(cs) - N(I, a[1])
    vs = [c.v for c in cs]
    vs = vs[n:] + vs[:n]
    for c, v in zip(cs, vs):
        c.v = v
    return UNIT


@M(SEQ, "swap")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    i, j = N(I, a[1]), N(I, a[2])
    cs[i].v, cs[j].v = cs[j].v, cs[i].v
    return UNIT


@M(SEQ, "fill")
def _(I, m, a):
    for c in SL(I, a[0]).cells():
        c.v = I.clone(a[1])
    return UNIT


@M(SEQ, "to_vec", "to_owned")
def _(I, m, a):
    return VecV([Cell(I.clone(I.force(c))) for c in SL(I, a[0]).cells()])


@M(SEQ, "windows")
def _(I, m, a):
    s = SL(I, a[0])
    n = N(I, a[1])
    return ListIt([SliceV(s.l, s.a + i, n) for i in range(0, s.n - n + 1)])


@M(SEQ, "chunks", "chunks_mut")
def _(I, m, a):
    s = SL(I, a[0])
    n = N(I, a[1])
    return ListIt([SliceV(s.l, s.a + i, min(n, s.n - i)) for i in range(0, s.n, n)])


@M(SEQ, "chunks_exact")
def _(I, m, a):
    s = SL(I, a[0])
    n = N(I, a[1])
    return ListIt([SliceV(s.l, s.a + i, n) for i in range(0, s.n - n + 1, n)])


@M(SEQ, "sort", "sort_unstable")
def _(I, m, a):
    rsort(I, SL(I, a[0]).cells(), lambda x, y: vcmp(I, x, y) < 0)
    return UNIT


@M(SEQ, "sort_by", "sort_unstable_by")
def _(I, m, a):
    f = a[1]
    rsort(I, SL(I, a[0]).cells(), lambda x, y: ord_of(I.callable(f, [Ref(Cell(x)), Ref(Cell(y))])) < 0)
    return UNIT


@M(SEQ, "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key")
def _(I, m, a):
    f = a[1]

    def key(x):
        return I.callable(f, [Ref(Cell(x))])
    rsort(I, SL(I, a[0]).cells(), lambda x, y: vcmp(I, key(x), key(y)) < 0)
    return UNIT


@M(SEQ, "binary_search")
def _(I, m, a):
    for i, c in enumerate(SL(I, a[0]).cells()):
        r = vcmp(I, I.force(c), a[1])
        if r == 0:
            return OK(i)
        if r > 0:
            return ERR(i)
    return ERR(SL(I, a[0]).n)


@M(SEQ, "concat")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    vals = [unref(I, c.v) for c in cs]
    if all(type(v) in (str, Str) for v in vals):
        if vals or I.db.types[m["args"][0]]["k"] != "adt" or I.db.types[m["args"][0]]["name"] != VEC:
            return Str("".join(S(I, v) for v in vals))
    out = []
    for v in vals:
        out.extend(Cell(I.clone(I.force(c))) for c in SL(I, v).cells())
    return VecV(out)


@M(SEQ, "join")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    vals = [unref(I, c.v) for c in cs]
    sep = unref(I, a[1])
    if type(sep) in (str, Str):
        return Str(S(I, sep).join(S(I, v) for v in vals))
    out = []
    for i, v in enumerate(vals):
        if i:
            if type(sep) in (SliceV, Arr, VecV):
                out.extend(Cell(I.clone(c.v)) for c in SL(I, sep).cells())
            else:
                out.append(Cell(I.clone(sep)))
        out.extend(Cell(I.clone(I.force(c))) for c in SL(I, v).cells())
    return VecV(out)


@M(SEQ, "iter_max")
def _(I, m, a):
    raise Unsupported("")


@M(SEQ, "repeat")
def _(I, m, a):
    out = []
    for _ in range(N(I, a[1])):
        out.extend(Cell(I.clone(c.v)) for c in SL(I, a[0]).cells())
    return VecV(out)


@M(SEQ, "copy_from_slice", "clone_from_slice")
def _(I, m, a):
    x, y = SL(I, a[0]).cells(), SL(I, a[1]).cells()
    if len(x) != len(y):
        raise RustPanic("copy_from_slice length mismatch", I.where())
    for p, q in zip(x, y):
        p.v = I.clone(q.v)
    return UNIT


@M([ARRS], "map")
def _(I, m, a):
    return Arr([Cell(I.callable(a[1], [c.v])) for c in a[0].f])


@M([ARRS], "as_slice", "as_ref", "as_mut_slice", "borrow")
def _(I, m, a):
    return SL(I, a[0])


def rng(I, r, n):
    """(lo, hi) of a range value over a sequence of length n"""
    nm = tyname(I, r) if type(r) is Agg else ""
    if type(r) is Agg:
        f = [c.v for c in r.f]
        if nm.endswith("RangeFull") or (not f):
            lo, hi = 0, n
        elif nm.endswith("RangeFrom"):
            lo, hi = N(I, f[0]), n
        elif nm.endswith("RangeTo"):
            lo, hi = 0, N(I, f[0])
        elif nm.endswith("RangeToInclusive"):
            lo, hi = 0, N(I, f[0]) + 1
        elif nm.endswith("RangeInclusive"):
            lo, hi = N(I, f[0]), N(I, f[1]) + 1
        elif nm.endswith("Range"):
            lo, hi = N(I, f[0]), N(I, f[1])
        else:
            raise Unsupported("range " + nm)
        if lo > hi or hi > n:
            raise RustPanic("slice index out of bounds", I.where())
        return lo, hi
    raise Unsupported(f"range {r!r}"[:100])


def rng_str(I, s, r):
    nm = tyname(I, r)
    f = [c.v for c in r.f]
    n = len(s)
    if nm.endswith("RangeFull") or not f:
        return 0, n
    if nm.endswith("RangeFrom"):
        return sidx(I, s, f[0]), n
    if nm.endswith("RangeTo"):
        return 0, sidx(I, s, f[0])
    if nm.endswith("RangeInclusive"):
        return sidx(I, s, f[0]), sidx(I, s, ladd(f[1], 1))
    if nm.endswith("RangeToInclusive"):
        return 0, sidx(I, s, ladd(f[0], 1))
    return sidx(I, s, f[0]), sidx(I, s, f[1])


@TR("Index", "index")
@TR("IndexMut", "index_mut")
def index(I, m, a):
    v = unref(I, a[0])
    i = a[1]
    if type(v) in (str, Str):
        s = S(I, v)
        lo, hi = rng_str(I, s, i)
        if lo > hi:
            raise RustPanic("str index", I.where())
        return s[lo:hi]
    if type(v) is MapV:
        e = map_find(I, v, i)
        if e is None:
            raise RustPanic("no entry found for key", I.where())
        return Ref(e[1])
    s = SL(I, v)
    if type(i) is int:
        if i >= s.n:
            raise RustPanic("index out of bounds", I.where())
        return Ref(s.cells()[i])
    if isinstance(i, Lin):
        raise Unsupported("symbolic index")
    lo, hi = rng(I, i, s.n)
    return SliceV(s.l, s.a + lo, hi - lo)


TI[("IndexMut", "index_mut")] = index


# ---------------------------------------------------------------- String ---
STRS = [STRING, "str"]


@M(STRING, "new", "with_capacity")
def _(I, m, a):
    return Str("")


@M(STRING, "push_str")
def _(I, m, a):
    v = unref(I, a[0])
    v.v += S(I, a[1])
    return UNIT


@M(STRING, "push")
def _(I, m, a):
    unref(I, a[0]).v += chr(a[1])
    return UNIT


@M(STRING, "pop")
def _(I, m, a):
    v = unref(I, a[0])
    if not v.v:
        return NONE()
    c = v.v[-1]
    if is_hole(c):
        raise Unsupported("pop from opaque text")
    v.v = v.v[:-1]
    return SOME(ord(c))


@M(STRING, "remove")
def _(I, m, a):
    v = unref(I, a[0])
    k = sidx(I, v.v, a[1])
    if k >= len(v.v):
        raise RustPanic("remove out of bounds", I.where())
    c = v.v[k]
    if is_hole(c):
        raise Unsupported("remove from opaque text")
    v.v = v.v[:k] + v.v[k + 1:]
    return ord(c)


@M(STRING, "insert")
def _(I, m, a):
    v = unref(I, a[0])
    k = sidx(I, v.v, a[1])
    v.v = v.v[:k] + chr(a[2]) + v.v[k:]
    return UNIT


@M(STRING, "insert_str")
def _(I, m, a):
    v = unref(I, a[0])
    k = sidx(I, v.v, a[1])
    v.v = v.v[:k] + S(I, a[2]) + v.v[k:]
    return UNIT


@M(STRING, "truncate")
def _(I, m, a):
    v = unref(I, a[0])
    if type(a[1]) is int and not has_hole(v.v) and a[1] >= len(v.v.encode()):
        return UNIT
    v.v = v.v[:sidx(I, v.v, a[1])]
    return UNIT


@M(STRING, "clear")
def _(I, m, a):
    unref(I, a[0]).v = ""
    return UNIT


@M(STRING, "retain")
def _(I, m, a):
    v = unref(I, a[0])
    v.v = "".join(c for c in v.v if pred_char(I, a[1], c))
    return UNIT


@M(STRING, "drain")
def _(I, m, a):
    v = unref(I, a[0])
    lo, hi = rng_str(I, v.v, a[1])
    out = v.v[lo:hi]
    v.v = v.v[:lo] + v.v[hi:]
    return chars_it(out)


@M(STRING, "replace_range")
def _(I, m, a):
    v = unref(I, a[0])
    lo, hi = rng_str(I, v.v, a[1])
    v.v = v.v[:lo] + S(I, a[2]) + v.v[hi:]
    return UNIT


@M(STRING, "as_str", "as_mut_str", "leak", "deref", "deref_mut", "as_ref", "borrow", "into_boxed_str")
def _(I, m, a):
    d = m.get("disp", "")
    if "AsRef<[u8]>" in d:
        return BytesV(S(I, a[0]))
    return S(I, a[0])


@M(STRING, "reserve", "shrink_to_fit")
def _(I, m, a):
    return UNIT


@M(STRING, "capacity")
def _(I, m, a):
    return slen(I, S(I, a[0]))


@M(STRS, "as_bytes")
def _(I, m, a):
    return S(I, a[0])      # byte views of text stay text


@M(STRS, "bytes")
def _(I, m, a):
    return ListIt([c.v for c in BytesV(S(I, a[0])).l])


@M(STRING, "into_bytes")
def _(I, m, a):
    return VecV(BytesV(S(I, a[0])).l)


def bad_utf8(s):
    """undecodable bytes of a file are lone surrogates in its text"""
    return any(0xdc80 <= ord(c) <= 0xdcff for c in s)


@M(STRING, "from_utf8")
def _(I, m, a):
    s = S(I, a[0])
    return ERR(Opq("FromUtf8Error")) if bad_utf8(s) else OK(Str(s))


@X("core::str::converts::from_utf8")
def _(I, m, a):
    s = S(I, a[0])
    return ERR(Opq("Utf8Error")) if bad_utf8(s) else OK(s)


@M(STRING, "from_utf8_unchecked")
@X("core::str::converts::from_utf8_unchecked")
def from_utf8_unchecked(I, m, a):
    s = S(I, a[0])
    if bad_utf8(s):
        I.event("ub", "from_utf8_unchecked on bytes that are not UTF-8", I.where())
    return s if m["name"].startswith("core::") else Str(s)


EX["core::str::converts::from_utf8_unchecked"] = from_utf8_unchecked


@M(STRING, "from_utf8_lossy")
def _(I, m, a):
    return agg(0, "".join("\ufffd" if bad_utf8(c) else c for c in S(I, a[0])))


@M(STRS, "len")
def _(I, m, a):
    return slen(I, S(I, a[0]))


@M(STRS, "is_empty")
def _(I, m, a):
    s = S(I, a[0])
    if s and all(is_hole(c) and hole_info(c)[1] == "text" for c in s):
        return Cond("empty", s)
    return int(s == "")


@M(STRING, "extend")
def _(I, m, a):
    v = unref(I, a[0])
    for x in to_it(I, a[1]).all():
        x = unref(I, x)
        v.v += chr(x) if type(x) is int else S(I, x)
    return UNIT


@M(STRING, "from_iter")
def _(I, m, a):
    out = ""
    for x in to_it(I, a[0]).all():
        x = unref(I, x)
        out += chr(x) if type(x) is int else S(I, x)
    return Str(out)


@M(STRING, "from")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) is int:
        return Str(chr(v))
    return Str(S(I, v))


@M(STRING, "add")
def _(I, m, a):
    a[0].v += S(I, a[1])
    return a[0]


@M(STRING, "add_assign")
def _(I, m, a):
    unref(I, a[0]).v += S(I, a[1])
    return UNIT


@M(STRING, "write_str")
def _(I, m, a):
    unref(I, a[0]).v += S(I, a[1])
    return OK(UNIT)


@M(STRING, "write_char")
def _(I, m, a):
    unref(I, a[0]).v += chr(a[1])
    return OK(UNIT)


@M(STRING, "clone")
def _(I, m, a):
    return Str(S(I, a[0]))


@M("str", "to_owned", "to_string", "into_string")
def _(I, m, a):
    return Str(S(I, a[0]))


@M("str", "into_boxed_str")
def _(I, m, a):
    return S(I, a[0])


def chars_it(s):
    return ListIt([ord(c) for c in s])


@M("str", "chars")
def _(I, m, a):
    return chars_it(S(I, a[0]))


@M("str", "char_indices")
def _(I, m, a):
    s = S(I, a[0])
    return ListIt([agg(0, slen(I, s[:i]), ord(c)) for i, c in enumerate(s)])


@M("core::str::iter::Chars", "as_str")
def _(I, m, a):
    it = unref(I, a[0])
    return "".join(chr(c) for c in it.items[it.i:it.j])


def rust_lines(s):
    l = s.split("\n")
    if l and l[-1] == "":
        l.pop()
    return [x[:-1] if x.endswith("\r") else x for x in l]


@M("str", "lines")
def _(I, m, a):
    s = S(I, a[0])
    return ListIt(rust_lines(s))


def is_ws_ch(c):
    return c.isspace() if not is_hole(c) else False


def _strip(s, f, left, right):
    i, j = 0, len(s)
    if left:
        while i < j and f(s[i]):
            i += 1
    if right:
        while j > i and f(s[j - 1]):
            j -= 1
    return s[i:j]


def _wshole(s):
    # trimming at an opaque free-text edge: idempotent, recorded as such by the text kind "line"
    return s


@M("str", "trim")
def _(I, m, a):
    return _strip(S(I, a[0]), is_ws_ch, True, True)


@M("str", "trim_start", "trim_left")
def _(I, m, a):
    return _strip(S(I, a[0]), is_ws_ch, True, False)


@M("str", "trim_end", "trim_right")
def _(I, m, a):
    return _strip(S(I, a[0]), is_ws_ch, False, True)


def _trim_m(left, right):
    def f(I, m, a):
        s = S(I, a[0])
        p = pat_of(I, a[1])
        if callable(p):
            return _strip(s, p, left, right)
        if left:
            while p and s.startswith(p):
                s = s[len(p):]
        if right:
            while p and s.endswith(p):
                s = s[:-len(p)]
        return s
    return f


SI[("str", "trim_matches")] = _trim_m(True, True)
SI[("str", "trim_start_matches")] = SI[("str", "trim_left_matches")] = _trim_m(True, False)
SI[("str", "trim_end_matches")] = SI[("str", "trim_right_matches")] = _trim_m(False, True)


@M("str", "starts_with")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    if callable(p):
        return int(bool(s) and p(s[0]))
    if s and is_hole(s[0]) and not is_hole((p or " ")[0]):
        return starts_hole(I, s[0], p, "starts_with")
    return int(s.startswith(p))


def starts_hole(I, h, p, what):
    if not p:
        return 1
    nm, k = hole_info(h)
    kc = kind_chars(k)
    if kc is not None and not all(c in kc for c in p):
        return 0
    if k == "num" or k == "ident":
        # generic name / number: both outcomes possible
        return Cond(what, (tshow(h), p))
    return Cond(what, (tshow(h), p))


@M("str", "ends_with")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    if callable(p):
        return int(bool(s) and p(s[-1]))
    if s and is_hole(s[-1]) and not is_hole((p or " ")[-1]):
        return starts_hole(I, s[-1], p, "ends_with")
    return int(s.endswith(p))


@M("str", "strip_prefix")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    if callable(p):
        return SOME(s[1:]) if s and p(s[0]) else NONE()
    if s and is_hole(s[0]) and p and not is_hole(p[0]):
        r = starts_hole(I, s[0], p, "starts_with")
        if I.decide(r):
            return SOME(hole(("strip", p, hole_info(s[0])[0]), hole_info(s[0])[1]) + s[1:])
        return NONE()
    return SOME(s[len(p):]) if s.startswith(p) else NONE()


@M("str", "strip_suffix")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    if callable(p):
        return SOME(s[:-1]) if s and p(s[-1]) else NONE()
    return SOME(s[:len(s) - len(p)]) if s.endswith(p) else NONE()


def _find_all(s, p):
    if callable(p):
        return [(i, i + 1) for i, c in enumerate(s) if p(c)]
    out = []
    i = 0
    if p == "":
        return [(k, k) for k in range(len(s) + 1)]
    while True:
        i = s.find(p, i)
        if i < 0:
            return out
        out.append((i, i + len(p)))
        i += len(p)


@M("str", "contains")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    if _find_all(s, p):
        return 1
    chk(s, p, "contains")
    return 0


@M("str", "find")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    r = _find_all(s, p)
    chk(s[:r[0][0]] if r else s, p, "find")
    return SOME(slen(I, s[:r[0][0]])) if r else NONE()


@M("str", "rfind")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    r = _find_all(s, p)
    chk(s[r[-1][1]:] if r else s, p, "rfind")
    return SOME(slen(I, s[:r[-1][0]])) if r else NONE()


@M("str", "matches")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    chk(s, p, "matches")
    return ListIt([s[i:j] for i, j in _find_all(s, p)])


@M("str", "match_indices")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    chk(s, p, "matches")
    return ListIt([agg(0, slen(I, s[:i]), s[i:j]) for i, j in _find_all(s, p)])


def _split(I, s, p):
    chk(s, p, "split")
    out = []
    k = 0
    for i, j in _find_all(s, p):
        out.append(s[k:i])
        k = j
    out.append(s[k:])
    return out


@M("str", "split")
def _(I, m, a):
    return ListIt(_split(I, S(I, a[0]), pat_of(I, a[1])))


@M("str", "rsplit")
def _(I, m, a):
    return ListIt(_split(I, S(I, a[0]), pat_of(I, a[1]))[::-1])


@M("str", "split_terminator")
def _(I, m, a):
    l = _split(I, S(I, a[0]), pat_of(I, a[1]))
    if l and l[-1] == "":
        l.pop()
    return ListIt(l)


@M("str", "split_inclusive")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    out = []
    k = 0
    for i, j in _find_all(s, p):
        out.append(s[k:j])
        k = j
    if k < len(s):
        out.append(s[k:])
    return ListIt(out)


@M("str", "splitn")
def _(I, m, a):
    s = S(I, a[0])
    n = N(I, a[1])
    p = pat_of(I, a[2])
    out = []
    k = 0
    for i, j in _find_all(s, p):
        if len(out) + 1 >= n:
            break
        out.append(s[k:i])
        k = j
    out.append(s[k:])
    return ListIt(out if n else [])


@M("str", "rsplitn")
def _(I, m, a):
    s = S(I, a[0])
    n = N(I, a[1])
    p = pat_of(I, a[2])
    out = []
    k = len(s)
    for i, j in reversed(_find_all(s, p)):
        if len(out) + 1 >= n:
            break
        out.append(s[j:k])
        k = i
    out.append(s[:k])
    return ListIt(out)


@M("str", "split_once")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    r = _find_all(s, p)
    if not r:
        return NONE()
    return SOME(agg(0, s[:r[0][0]], s[r[0][1]:]))


@M("str", "rsplit_once")
def _(I, m, a):
    s = S(I, a[0])
    p = pat_of(I, a[1])
    r = _find_all(s, p)
    if not r:
        return NONE()
    return SOME(agg(0, s[:r[-1][0]], s[r[-1][1]:]))


@M("str", "split_whitespace", "split_ascii_whitespace")
def _(I, m, a):
    s = S(I, a[0])
    return ListIt(s.split())


@M("str", "split_at")
def _(I, m, a):
    s = S(I, a[0])
    k = sidx(I, s, a[1])
    return agg(0, s[:k], s[k:])


@M("str", "get")
def _(I, m, a):
    s = S(I, a[0])
    try:
        lo, hi = rng_str(I, s, a[1])
    except RustPanic:
        return NONE()
    if lo > hi:
        return NONE()
    return SOME(s[lo:hi])


@M("str", "is_char_boundary")
def _(I, m, a):
    return 1


def _replace(I, s, p, r, n=None):
    chk(s, p, "replace")
    out = []
    k = 0
    c = 0
    for i, j in _find_all(s, p):
        if n is not None and c >= n:
            break
        out.append(s[k:i])
        out.append(r)
        k = j
        c += 1
    out.append(s[k:])
    return "".join(out)


@M("str", "replace")
def _(I, m, a):
    return Str(_replace(I, S(I, a[0]), pat_of(I, a[1]), S(I, a[2])))


@M("str", "replacen")
def _(I, m, a):
    return Str(_replace(I, S(I, a[0]), pat_of(I, a[1]), S(I, a[2]), N(I, a[3])))


@M("str", "to_lowercase", "to_ascii_lowercase")
def _(I, m, a):
    return Str(lower(S(I, a[0])))


@M("str", "to_uppercase", "to_ascii_uppercase")
def _(I, m, a):
    return Str(upper(S(I, a[0])))


@M("str", "make_ascii_lowercase")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) is Str:
        v.v = lower(v.v)
        return UNIT
    raise Unsupported("make_ascii_lowercase on str")


@M("str", "repeat")
def _(I, m, a):
    return Str(S(I, a[0]) * N(I, a[1]))


@M("str", "eq_ignore_ascii_case")
def _(I, m, a):
    return int(lower(S(I, a[0])) == lower(S(I, a[1])))


@M("str", "is_ascii")
def _(I, m, a):
    return int(all(is_hole(c) or ord(c) < 128 for c in S(I, a[0])))


@M("str", "escape_debug", "escape_default")
def _(I, m, a):
    raise Unsupported("escape")


@M("str", "as_ref", "borrow", "as_str")
def _(I, m, a):
    if "AsRef<[u8]>" in m.get("disp", ""):
        return S(I, a[0])
    return S(I, a[0])


INT_RE = re.compile(r"[+-]?[0-9]+\Z")


def parse_int(I, s, ty, radix=10):
    if has_hole(s):
        nm, k = hole_info(s[0]) if len(s) == 1 else (None, None)
        if isinstance(nm, tuple) and nm[0] == "lin":
            return nm[1], None
        # opaque numeral: in range or not
        key = ("parse", s, ty, radix)
        if I.decide(Cond("parses_as", (tshow(s), ty, radix))):
            sym = f"int({tshow(s)})"
            w = INT_W[ty]
            I.rng.setdefault(sym, (0, (1 << w) - 1) if ty[0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1))
            return Lin.sym(sym), None
        return None, "PosOverflow"
    if s == "":
        return None, "Empty"
    body = s[1:] if s[0] in "+-" else s
    if body == "" or (s[0] == "-" and ty[0] == "u"):
        return None, "InvalidDigit"
    digs = "0123456789abcdefghijklmnopqrstuvwxyz"[:radix]
    if any(c.lower() not in digs or not c.isascii() for c in body):
        return None, "InvalidDigit"
    n = int(body, radix)
    if s[0] == "-":
        n = -n
    if not in_range(n, ty):
        return None, "PosOverflow" if n > 0 else "NegOverflow"
    return n, None


INT_ERR = ["Empty", "InvalidDigit", "PosOverflow", "NegOverflow", "Zero", "NotAPowerOfTwo"]


def ires(I, r, e):
    if e is None:
        return OK(r)
    return ERR(agg(0, Agg(INT_ERR.index(e), [])))


@M("str", "parse")
def _(I, m, a):
    t = I.db.types[m["args"][-1]]
    s = S(I, a[0])
    return parse_as(I, s, t)


def parse_as(I, s, t):
    if t["k"] == "int":
        return ires(I, *parse_int(I, s, t["n"]))
    if t["k"] == "float":
        return parse_float(I, s, t["n"])
    if t["k"] == "bool":
        return OK(int(s == "true")) if s in ("true", "false") else ERR(UNIT)
    if t["k"] == "char":
        return OK(ord(s)) if len(s) == 1 else ERR(UNIT)
    if t["k"] == "adt" and t["name"] == "core::num::nonzero::NonZero":
        it = I.db.types[t["args"][0]]
        r, e = parse_int(I, s, it["n"])
        if e is None:
            if type(r) is int:
                if r == 0:
                    e = "Zero"
            elif I.decide(I.cmp_int("Eq", r, 0)):
                e = "Zero"
        return ires(I, r, e)
    if t["k"] == "adt" and t["name"] in (STRING, "std::path::PathBuf"):
        return OK(Str(s))
    for k, mm in I.db.insts.items():
        if mm.get("trait", "").endswith("FromStr") and mm.get("item") == "from_str" and mm.get("self") == t.get("name"):
            return I.call(k, [s])
    raise Unsupported("parse::<" + t["s"] + ">")


FLT = re.compile(r"[+-]?(inf|infinity|nan|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)\Z", re.I)


def parse_float(I, s, n):
    if has_hole(s):
        if I.decide(Cond("parses_as", (tshow(s), n))):
            return OK(Opq("float(" + tshow(s) + ")"))
        return ERR(agg(0, Agg(0, [])))
    if not FLT.match(s):
        return ERR(agg(0, Agg(0 if s == "" else 1, [])))
    v = float(s)
    if n == "f32":
        import struct
        try:
            v = struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            v = math.copysign(math.inf, v)
    return OK(v)


for _t in INT_W:
    @M(_t, "from_str_radix")
    def _(I, m, a):
        return ires(I, *parse_int(I, S(I, a[0]), m["self"], N(I, a[1])))

    @M(_t, "from_str")
    def _(I, m, a):
        return ires(I, *parse_int(I, S(I, a[0]), m["self"]))

    def _arith(kind):
        def f(I, m, a):
            base = m["item"].split("_")[-1]
            x, y = a[0], a[1]
            ty = m["self"]
            if type(x) is int and type(y) is int:
                try:
                    r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y,
                         "div": lambda: int(x / y) if abs(x) < 2**50 else x // y, "rem": lambda: x % y,
                         "pow": lambda: x ** y, "shl": lambda: x << y, "shr": lambda: x >> y}[base]()
                except ZeroDivisionError:
                    if kind == "checked":
                        return NONE()
                    raise RustPanic("division by zero", I.where())
                ok = in_range(r, ty)
                if kind == "checked":
                    return SOME(r) if ok else NONE()
                if kind == "wrapping":
                    return wrap(r, ty)
                if kind == "overflowing":
                    return agg(0, wrap(r, ty), int(not ok))
                if kind == "saturating":
                    w = INT_W[ty]
                    mx = (1 << w) - 1 if ty[0] == "u" else (1 << (w - 1)) - 1
                    mn = 0 if ty[0] == "u" else -(1 << (w - 1))
                    return max(mn, min(mx, r))
            if base not in ("add", "sub", "mul"):
                raise Unsupported("symbolic " + m["item"])
            r = ladd(x, y) if base == "add" else ladd(x, y, -1) if base == "sub" else lmul(x, y)
            w = INT_W[ty]
            mx = (1 << w) - 1 if ty[0] == "u" else (1 << (w - 1)) - 1
            mn = 0 if ty[0] == "u" else -(1 << (w - 1))
            over = I.decide(I.cmp_int("Gt", r, mx)) or I.decide(I.cmp_int("Lt", r, mn))
            if kind == "checked":
                return NONE() if over else SOME(r)
            if not over:
                return agg(0, r, 0) if kind == "overflowing" else r
            if kind == "saturating":
                return mx if I.decide(I.cmp_int("Gt", r, mx)) else mn
            raise Unsupported("symbolic wrapping overflow")
        return f
    for _k in ("checked", "wrapping", "overflowing", "saturating"):
        for _o in ("add", "sub", "mul", "div", "rem", "pow", "shl", "shr"):
            SI[(_t, _k + "_" + _o)] = _arith(_k)

    @M(_t, "pow")
    def _(I, m, a):
        r = N(I, a[0]) ** N(I, a[1])
        if not in_range(r, m["self"]):
            raise RustPanic("overflow:Mul", I.where())
        return r

    @M(_t, "abs")
    def _(I, m, a):
        return abs(N(I, a[0]))

    @M(_t, "is_power_of_two")
    def _(I, m, a):
        n = N(I, a[0])
        return int(n > 0 and n & (n - 1) == 0)

    @M(_t, "next_power_of_two")
    def _(I, m, a):
        n = N(I, a[0])
        r = 1
        while r < n:
            r *= 2
        return r

    @M(_t, "next_multiple_of")
    def _(I, m, a):
        n, d = N(I, a[0]), N(I, a[1])
        return (n + d - 1) // d * d

    @M(_t, "is_multiple_of")
    def _(I, m, a):
        n, d = N(I, a[0]), N(I, a[1])
        return int(d != 0 and n % d == 0 or d == 0 and n == 0)

    @M(_t, "div_ceil")
    def _(I, m, a):
        n, d = N(I, a[0]), N(I, a[1])
        return -(-n // d)

    @M(_t, "trailing_zeros")
    def _(I, m, a):
        n = N(I, a[0])
        return (n & -n).bit_length() - 1 if n else INT_W[m["self"]]

    @M(_t, "count_ones")
    def _(I, m, a):
        return bin(N(I, a[0]) & ((1 << INT_W[m["self"]]) - 1)).count("1")

    @M(_t, "to_string")
    def _(I, m, a):
        return Str(num_text(unref(I, a[0])))

    @M(_t, "max")
    def _(I, m, a):
        return TI[("Ord", "max")](I, m, a)

    @M(_t, "min")
    def _(I, m, a):
        return TI[("Ord", "min")](I, m, a)

for _t in ("f32", "f64"):
    @M(_t, "is_infinite")
    def _(I, m, a):
        if isinstance(a[0], Opq):
            return Cond("is_infinite", a[0].n)
        return int(math.isinf(a[0]))

    @M(_t, "is_nan")
    def _(I, m, a):
        return int(math.isnan(a[0])) if not isinstance(a[0], Opq) else Cond("is_nan", a[0].n)

    @M(_t, "is_finite")
    def _(I, m, a):
        return int(math.isfinite(a[0])) if not isinstance(a[0], Opq) else Cond("not", Cond("is_infinite", a[0].n))

    @M(_t, "from_str")
    def _(I, m, a):
        return parse_float(I, S(I, a[0]), m["self"])

NZ = "core::num::nonzero::NonZero"


@M(NZ, "new")
def _(I, m, a):
    if I.decide(I.cmp_int("Eq", a[0], 0)):
        return NONE()
    return SOME(a[0])


@M(NZ, "get", "new_unchecked", "into", "clone", "from")
def _(I, m, a):
    if m["item"] == "new_unchecked" and type(a[0]) is int and a[0] == 0:
        I.event("ub", "NonZero::new_unchecked(0)", I.where())
    return unref(I, a[0])


@M(NZ, "from_str")
def _(I, m, a):
    it = I.db.types[m["args"][0]]["n"] if m.get("args") else "u16"
    return parse_as(I, S(I, a[0]), {"k": "adt", "name": NZ, "args": m["args"], "s": "NonZero"})


@M(NZ, "try_from")
def _(I, m, a):
    n = unref(I, a[0])
    it = re.search(r"for std::num::NonZero<(\w+)>>::try_from$", m.get("disp", ""))
    it = it and it.group(1)
    if it not in INT_W:
        raise Unsupported("NonZero::try_from")
    lo, hi = (-(1 << INT_W[it] - 1), (1 << INT_W[it] - 1) - 1) if it[0] == "i" else (0, (1 << INT_W[it]) - 1)
    if I.decide(I.cmp_int("Gt", n, hi)) or I.decide(I.cmp_int("Lt", n, lo)):
        return ERR(UNIT)
    if I.decide(I.cmp_int("Eq", n, 0)):
        return ERR(UNIT)
    return OK(n)


@M(NZ, "checked_add", "checked_mul")
def _(I, m, a):
    raise Unsupported("NonZero arithmetic")


# --------------------------------------------------------------- char ---
def _chm(name, f):
    def g(I, m, a):
        c = unref(I, a[0])
        if c >= HOLE0:
            k = kind_chars(hole_info(chr(c))[1])
            if k is None:
                raise Unsupported("char class of opaque text")
            rs = {bool(f(x)) for x in k}
            if len(rs) == 1:
                return int(rs.pop())
            raise Unsupported("char class of opaque text")
        return int(bool(f(chr(c))))
    SI[("char", name)] = g


_chm("is_whitespace", str.isspace)
_chm("is_ascii_whitespace", lambda c: c in " \t\n\r\x0c")
_chm("is_alphanumeric", str.isalnum)
_chm("is_ascii_alphanumeric", lambda c: c.isascii() and c.isalnum())
_chm("is_alphabetic", str.isalpha)
_chm("is_ascii_alphabetic", lambda c: c.isascii() and c.isalpha())
_chm("is_numeric", str.isnumeric)
_chm("is_ascii_digit", lambda c: c in "0123456789")
_chm("is_ascii_hexdigit", lambda c: c in "0123456789abcdefABCDEF")
_chm("is_uppercase", str.isupper)
_chm("is_lowercase", str.islower)
_chm("is_ascii_uppercase", lambda c: "A" <= c <= "Z")
_chm("is_ascii_lowercase", lambda c: "a" <= c <= "z")
_chm("is_ascii_punctuation", lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " ")
_chm("is_control", lambda c: ord(c) < 32 or ord(c) == 127)
_chm("is_ascii", str.isascii)
_chm("is_ascii_control", lambda c: ord(c) < 32 or ord(c) == 127)


@M("char", "to_ascii_uppercase")
def _(I, m, a):
    return ord(upper(chr(unref(I, a[0]))))


@M("char", "to_ascii_lowercase")
def _(I, m, a):
    return ord(lower(chr(unref(I, a[0]))))


@M("char", "to_uppercase")
def _(I, m, a):
    return chars_it(upper(chr(unref(I, a[0]))))


@M("char", "to_lowercase")
def _(I, m, a):
    return chars_it(lower(chr(unref(I, a[0]))))


@M("char", "len_utf8")
def _(I, m, a):
    return len(chr(a[0]).encode())


@M("char", "is_digit")
def _(I, m, a):
    return int(chr(a[0]).lower() in "0123456789abcdefghijklmnopqrstuvwxyz"[:N(I, a[1])])


@M("char", "to_digit")
def _(I, m, a):
    i = "0123456789abcdefghijklmnopqrstuvwxyz".find(chr(a[0]).lower())
    return SOME(i) if 0 <= i < N(I, a[1]) else NONE()


@M("bool", "then")
def _(I, m, a):
    return SOME(I.callable(a[1], [])) if I.decide(a[0]) else NONE()


@M("bool", "then_some")
def _(I, m, a):
    return SOME(a[1]) if I.decide(a[0]) else NONE()


# ------------------------------------------------------------ Box / Rc ---
BOX = "alloc::boxed::Box"
RC = ["alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::rcs::sync::Arc", "alloc::rcs::arc::Arc"]


@M(BOX, "new", "from", "pin")
def _(I, m, a):
    if type(a[0]) in (str, Str) and m["item"] == "from":
        return S(I, a[0])
    return BoxV(Cell(a[0]))


@M(BOX, "new_uninit", "new_uninit_in")
def _(I, m, a):
    return BoxV(Cell(None))


@M(BOX, "deref", "deref_mut", "as_ref", "as_mut", "borrow", "leak", "into_raw")
def _(I, m, a):
    v = a[0]
    if type(v) is Ref:
        v = I.force(v.c)
    if type(v) is str:
        return v
    x = v.c.v
    if type(x) in (SliceV, DynRef, str):
        return x
    return Ref(v.c)


@M(BOX, "call", "call_mut", "call_once")
def _(I, m, a):
    args = a[1:]
    return I.callable(a[0], args)


@M(RC, "new", "from")
def _(I, m, a):
    if type(a[0]) in (str, Str) and m["item"] == "from":
        return S(I, a[0])
    return RcV(Cell(a[0]))


@M(RC, "deref", "as_ref", "borrow")
def _(I, m, a):
    v = a[0]
    if type(v) is Ref:
        v = I.force(v.c)
    if type(v) is str:
        return v
    x = v.c.v
    if type(x) in (SliceV, DynRef, str):
        return x
    return Ref(v.c)


@M(RC, "clone")
def _(I, m, a):
    return unref1(I, a[0])


@M(RC, "ptr_eq")
def _(I, m, a):
    return int(unref1(I, a[0]).c is unref1(I, a[1]).c)


@M(RC, "strong_count")
def _(I, m, a):
    raise Unsupported("Rc::strong_count")


@M(RC, "try_unwrap", "into_inner")
def _(I, m, a):
    raise Unsupported("Rc::try_unwrap")


@M(RC, "get_mut")
def _(I, m, a):
    return SOME(Ref(unref1(I, a[0]).c))


@M(RC, "make_mut")
def _(I, m, a):
    c = a[0].c
    r = RcV(Cell(I.clone(I.force(c.v.c))))
    c.v = r
    return Ref(r.c)


# ------------------------------------------------------------- cells ---
@M(["core::cell::RefCell", "core::cell::Cell", "std::sync::poison::mutex::Mutex", "core::cell::UnsafeCell"], "new")
def _(I, m, a):
    return agg(0, a[0])


def inner(I, v):
    v = unref1(I, v)
    while type(v) in (Ref, RcV, BoxV):
        v = I.force(v.c)
    return v.f[0]


@M(["core::cell::RefCell"], "borrow", "borrow_mut", "get_mut", "as_ptr")
@M(["core::cell::Cell"], "as_ptr", "get_mut")
def _(I, m, a):
    return Ref(inner(I, a[0]))


SI[("core::cell::RefCell", "borrow")] = SI[("core::cell::RefCell", "borrow_mut")] = \
    SI[("core::cell::RefCell", "get_mut")] = lambda I, m, a: Ref(inner(I, a[0]))


@M(["core::cell::Ref", "core::cell::RefMut", "std::sync::poison::mutex::MutexGuard"], "deref", "deref_mut")
def _(I, m, a):
    v = a[0]
    # &Ref<T> -> &T ; our Ref<T> is just Ref
    x = I.force(v.c)
    if type(x) is Ref:
        return x
    return v


@M(["core::cell::Cell"], "get")
def _(I, m, a):
    return I.copyval(I.force(inner(I, a[0])))


@M(["core::cell::Cell"], "set")
def _(I, m, a):
    inner(I, a[0]).v = a[1]
    return UNIT


@M(["core::cell::Cell", "core::cell::RefCell"], "replace")
def _(I, m, a):
    c = inner(I, a[0])
    o = c.v
    c.v = a[1]
    return o


@M(["core::cell::Cell", "core::cell::RefCell"], "into_inner")
def _(I, m, a):
    return a[0].f[0].v


@M(["core::cell::Cell", "core::cell::RefCell"], "take")
def _(I, m, a):
    c = inner(I, a[0])
    o = c.v
    c.v = default_like(I, o, m)
    return o


@M("std::sync::poison::mutex::Mutex", "lock")
def _(I, m, a):
    return OK(Ref(inner(I, a[0])))


def default_like(I, o, m=None):
    if type(o) is Str:
        return Str("")
    if type(o) is VecV:
        return VecV()
    if type(o) is MapV:
        return MapV(o.kind)
    if type(o) is int or isinstance(o, Lin):
        return 0
    if m is not None and m.get("args"):
        return default_of(I, m["args"][0])
    raise Unsupported("default")


for _o in ("std::sync::once_lock::OnceLock", "core::cell::once::OnceCell", "std::sync::lazy_lock::LazyLock",
           "core::cell::lazy::LazyCell"):
    @M(_o, "new")
    def _(I, m, a):
        return agg(0, *(a if a else [None]))

    @M(_o, "get_or_init")
    def _(I, m, a):
        c = a[0].c
        v = c.v
        if type(v) is not Agg or not v.f or v.f[0].v is None:
            c.v = v = agg(0, I.callable(a[1], []))
        return Ref(v.f[0])

    @M(_o, "get")
    def _(I, m, a):
        v = a[0].c.v
        if type(v) is not Agg or not v.f or v.f[0].v is None:
            return NONE()
        return SOME(Ref(v.f[0]))

    @M(_o, "set")
    def _(I, m, a):
        a[0].c.v = agg(0, a[1])
        return OK(UNIT)

    @M(_o, "deref", "force")
    def _(I, m, a):
        c = a[0].c
        v = c.v
        if not hasattr(v, "f"):
            raise Unsupported("LazyLock static")
        if not (len(v.f) == 2):
            v.f = [Cell(I.callable(v.f[0].v, [])), Cell(1)]
        return Ref(v.f[0])


@X("core::mem::swap")
def _(I, m, a):
    x, y = a[0].c, a[1].c
    x.v, y.v = I.force(y), I.force(x)
    return UNIT


@X("core::mem::replace")
def _(I, m, a):
    c = a[0].c
    o = I.force(c)
    c.v = a[1]
    return o


@X("core::mem::take")
def _(I, m, a):
    c = a[0].c
    o = I.force(c)
    c.v = default_of(I, m["args"][0])
    return o


@X("core::mem::drop", "core::mem::forget", "core::ptr::drop_in_place", "core::ptr::drop_glue")
def _(I, m, a):
    if I.db.has_drop and not m["name"].endswith("forget") and m.get("args") and I.db.droppy(m["args"][0]):
        I.drop_value(a[0].c if m["name"].startswith("core::ptr") else Cell(a[0]), m["args"][0])
    return UNIT


@M(["core::mem::manually_drop::ManuallyDrop"], "new", "into_inner")
def _(I, m, a):
    return a[0]


@X("core::hint::must_use", "core::hint::black_box", "core::convert::identity", "core::hint::assert_unchecked")
def _(I, m, a):
    return a[0]


@X("core::mem::size_of", "core::mem::align_of", "core::mem::size_of_val")
def _(I, m, a):
    t = I.db.types[m["args"][0]]
    return t["align"] if "align_of" in m["name"] else t["size"]


@X("core::mem::discriminant")
def _(I, m, a):
    return unref(I, a[0]).vi


# ---------------------------------------------------------- maps / sets ---
class NoHash(Exception):
    pass


def hash_into(I, v, h):
    """what <T as Hash>::hash writes; the user's impl decides for types of the workspace"""
    v = unref(I, v)
    t = type(v)
    if t is Str:
        v, t = v.v, str
    if t is str:
        if has_hole(v):
            raise NoHash()
        h.w.append(("s", v))
    elif t is int:
        h.w.append(("i", v))
    elif t is Agg:
        if v.ty is not None:
            c = I.db.caps.get(v.ty)
            if c and "hash" in c and is_ws(I, c["hash"]):
                I.call(c["hash"], [Ref(Cell(v)), Ref(Cell(h))])
                return
        h.w.append(("v", v.vi))
        for c in v.f:
            hash_into(I, I.force(c), h)
    elif t in (VecV, SliceV, Arr):
        cs = v.cells() if t is SliceV else v.f
        if t is not Arr:
            h.w.append(("n", len(cs)))
        for c in cs:
            hash_into(I, I.force(c), h)
    else:
        raise NoHash()


def hash_of(I, k):
    h = HashV()
    try:
        hash_into(I, k, h)
    except NoHash:
        return None
    return tuple(h.w)


def map_find(I, mv, k):
    """the entry an equal key is in; hash maps only compare keys with equal hashes"""
    if not mv.d:
        return None
    hk = hash_of(I, k) if mv.kind in ("hash", "hashset") else None
    if hk is None:
        for e in mv.d:
            if veq(I, e[0], k):
                return e
        return None
    if mv.idx is None or mv.idx[0] is not mv.d or mv.idx[1] > len(mv.d):
        mv.idx = [mv.d, 0, {}, []]
    ix = mv.idx
    while ix[1] < len(mv.d):
        h = hash_of(I, mv.d[ix[1]][0])
        (ix[3] if h is None else ix[2].setdefault(h, [])).append(ix[1])
        ix[1] += 1
    for i in sorted(ix[2].get(hk, []) + ix[3]):
        if veq(I, mv.d[i][0], k):
            return mv.d[i]
    return None


def map_insert(I, mv, k, v, keep=False):
    e = map_find(I, mv, k)
    if e is not None:
        o = e[1].v
        e[1].v = v
        return o
    mv.d.append((k, Cell(v)))
    return None


def MP(I, v):
    v = unref(I, v)
    if type(v) is not MapV:
        raise Unsupported(f"map {v!r}"[:120])
    return v


for _h, _k in ((HM, "hash"), (BM, "btree"), (HS, "hashset"), (BS, "btreeset")):
    SI[(_h, "new")] = SI[(_h, "with_capacity")] = SI[(_h, "with_hasher")] = (lambda k: lambda I, m, a: MapV(k))(_k)
MAPS = [HM, BM]
SETS = [HS, BS]


@M(MAPS, "insert")
def _(I, m, a):
    o = map_insert(I, MP(I, a[0]), a[1], a[2])
    return NONE() if o is None else SOME(o)


@M(SETS, "insert")
def _(I, m, a):
    mv = MP(I, a[0])
    if map_find(I, mv, a[1]) is not None:
        return 0
    mv.d.append((a[1], Cell(UNIT)))
    return 1


@M(SETS, "replace")
def _(I, m, a):
    mv = MP(I, a[0])
    for i, e in enumerate(mv.d):
        if veq(I, e[0], a[1]):
            mv.d[i] = (a[1], e[1])
            return SOME(e[0])
    mv.d.append((a[1], Cell(UNIT)))
    return NONE()


@M(MAPS + SETS, "contains_key", "contains")
def _(I, m, a):
    return int(map_find(I, MP(I, a[0]), a[1]) is not None)


@M(MAPS, "get", "get_mut")
def _(I, m, a):
    e = map_find(I, MP(I, a[0]), a[1])
    return NONE() if e is None else SOME(Ref(e[1]))


@M(SETS, "get")
def _(I, m, a):
    e = map_find(I, MP(I, a[0]), a[1])
    return NONE() if e is None else SOME(Ref(Cell(e[0])))


@M(MAPS, "get_key_value")
def _(I, m, a):
    e = map_find(I, MP(I, a[0]), a[1])
    return NONE() if e is None else SOME(agg(0, Ref(Cell(e[0])), Ref(e[1])))


@M(MAPS, "remove")
def _(I, m, a):
    mv = MP(I, a[0])
    e = map_find(I, mv, a[1])
    if e is None:
        return NONE()
    mv.d = [x for x in mv.d if x is not e]
    return SOME(e[1].v)


@M(SETS, "remove")
def _(I, m, a):
    mv = MP(I, a[0])
    e = map_find(I, mv, a[1])
    if e is None:
        return 0
    mv.d = [x for x in mv.d if x is not e]
    return 1


@M(SETS, "take")
def _(I, m, a):
    mv = MP(I, a[0])
    e = map_find(I, mv, a[1])
    if e is None:
        return NONE()
    mv.d = [x for x in mv.d if x is not e]
    return SOME(e[0])


@M(MAPS + SETS, "len")
def _(I, m, a):
    return len(MP(I, a[0]).d)


@M(MAPS + SETS, "is_empty")
def _(I, m, a):
    return int(not MP(I, a[0]).d)


@M(MAPS + SETS, "clear")
def _(I, m, a):
    MP(I, a[0]).d = []
    return UNIT


@M(MAPS + SETS, "reserve", "shrink_to_fit")
def _(I, m, a):
    return UNIT


@M(MAPS + SETS, "iter", "iter_mut")
def _(I, m, a):
    return iter_of_cell(I, Cell(MP(I, a[0])))


@M(MAPS + SETS, "drain")
def _(I, m, a):
    mv = MP(I, a[0])
    c = MapV(mv.kind)
    c.d = mv.d
    mv.d = []
    return to_it(I, c)


@M(MAPS, "keys")
def _(I, m, a):
    return ListIt([Ref(Cell(k)) for k, _ in map_items(I, MP(I, a[0]), "keys")])


@M(MAPS, "into_keys")
def _(I, m, a):
    return ListIt([k for k, _ in map_items(I, MP(I, a[0]), "keys")])


@M(MAPS, "values", "values_mut")
def _(I, m, a):
    return ListIt([Ref(c) for _, c in map_items(I, MP(I, a[0]), "values")])


@M(MAPS, "into_values")
def _(I, m, a):
    return ListIt([c.v for _, c in map_items(I, MP(I, a[0]), "values")])


@M(MAPS, "retain")
def _(I, m, a):
    mv = MP(I, a[0])
    mv.d = [e for e in map_items(I, mv, "retain") if I.decide(I.callable(a[1], [Ref(Cell(e[0])), Ref(e[1])]))]
    return UNIT


@M(SETS, "retain")
def _(I, m, a):
    mv = MP(I, a[0])
    mv.d = [e for e in map_items(I, mv, "retain") if I.decide(I.callable(a[1], [Ref(Cell(e[0]))]))]
    return UNIT


@M(MAPS + SETS, "extend")
def _(I, m, a):
    mv = MP(I, a[0])
    for x in to_it(I, a[1]).all():
        if mv.kind.endswith("set"):
            if map_find(I, mv, x) is None:
                mv.d.append((x, Cell(UNIT)))
        else:
            map_insert(I, mv, x.f[0].v, x.f[1].v)
    return UNIT


@M(MAPS + SETS, "from_iter", "from")
def _(I, m, a):
    mv = MapV({HM: "hash", BM: "btree", HS: "hashset", BS: "btreeset"}[m["self"]])
    for x in to_it(I, a[0]).all():
        if mv.kind.endswith("set"):
            if map_find(I, mv, x) is None:
                mv.d.append((x, Cell(UNIT)))
        else:
            map_insert(I, mv, x.f[0].v, x.f[1].v)
    return mv


@M(SETS, "is_subset", "is_superset", "is_disjoint")
def _(I, m, a):
    x, y = MP(I, a[0]), MP(I, a[1])
    if m["item"] == "is_superset":
        x, y = y, x
    if m["item"] == "is_disjoint":
        return int(not any(map_find(I, y, k) for k, _ in x.d))
    return int(all(map_find(I, y, k) for k, _ in x.d))


@M(SETS, "difference", "intersection", "union")
def _(I, m, a):
    x, y = MP(I, a[0]), MP(I, a[1])
    xs = map_items(I, x, m["item"])
    if m["item"] == "difference":
        return ListIt([Ref(Cell(k)) for k, _ in xs if map_find(I, y, k) is None])
    if m["item"] == "intersection":
        return ListIt([Ref(Cell(k)) for k, _ in xs if map_find(I, y, k) is not None])
    return ListIt([Ref(Cell(k)) for k, _ in xs] +
                  [Ref(Cell(k)) for k, _ in map_items(I, y, "union") if map_find(I, x, k) is None])


@M(MAPS + SETS, "clone")
def _(I, m, a):
    return I.clone(MP(I, a[0]))


class EntryV:
    def __init__(self, mv, k, e):
        self.mv, self.k, self.e = mv, k, e

    def cell(self, mk):
        if self.e is None:
            self.e = (self.k, Cell(mk()))
            self.mv.d.append(self.e)
        return self.e[1]


@M(MAPS, "entry")
def _(I, m, a):
    mv = MP(I, a[0])
    e = EntryV(mv, a[1], map_find(I, mv, a[1]))
    # Entry::{Occupied, Vacant} (hash) / {Vacant, Occupied} (btree)
    occ = e.e is not None
    vi = (0 if occ else 1) if mv.kind == "hash" else (1 if occ else 0)
    rt = None
    return Agg(vi, [Cell(e)], None)


ENT = ["std::collections::hash::map::Entry", "alloc::collections::btree::map::entry::Entry"]


def ent(v):
    return v.f[0].v if type(v) is Agg else v


@M(ENT, "or_default")
def _(I, m, a):
    return Ref(ent(a[0]).cell(lambda: default_of(I, m["args"][1])))


@M(ENT, "or_insert")
def _(I, m, a):
    return Ref(ent(a[0]).cell(lambda: a[1]))


@M(ENT, "or_insert_with")
def _(I, m, a):
    return Ref(ent(a[0]).cell(lambda: I.callable(a[1], [])))


@M(ENT, "and_modify")
def _(I, m, a):
    e = ent(a[0])
    if e.e is not None:
        I.callable(a[1], [Ref(e.e[1])])
    return a[0]


@M(ENT, "key")
def _(I, m, a):
    return Ref(Cell(ent(unref(I, a[0])).k))


OENT = ["std::collections::hash::map::OccupiedEntry", "alloc::collections::btree::map::entry::OccupiedEntry"]
VENT = ["std::collections::hash::map::VacantEntry", "alloc::collections::btree::map::entry::VacantEntry"]


@M(OENT, "get", "get_mut", "into_mut")
def _(I, m, a):
    v = a[0]
    if type(v) is Ref:
        v = v.c.v
    return Ref(v.e[1])


@M(OENT, "insert")
def _(I, m, a):
    v = unref1(I, a[0])
    o = v.e[1].v
    v.e[1].v = a[1]
    return o


@M(OENT + VENT, "key")
def _(I, m, a):
    return Ref(Cell(unref1(I, a[0]).k))


@M(VENT, "insert")
def _(I, m, a):
    return Ref(unref1(I, a[0]).cell(lambda: a[1]))


@M(VENT, "into_key")
def _(I, m, a):
    return a[0].k


# ---------------------------------------------------------------- fmt ---
FMT = "core::fmt::Formatter"
ARGUMENTS = "core::fmt::Arguments"


@M(ARGUMENTS, "new")
def _(I, m, a):
    tmpl = unref(I, a[0])
    b = bytes(c.v for c in (tmpl.f if type(tmpl) in (Arr, VecV) else tmpl.cells())) if type(tmpl) is not str else tmpl.encode("latin1")
    args = [c.v for c in SL(I, a[1]).cells()]
    parts = []
    i = 0
    ai = 0
    while True:
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(b[i:i + n].decode())
            i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            parts.append(b[i:i + k].decode())
            i += k
        else:
            flags = 0x20 | 0xE0000000
            width = prec = None
            if n & 1:
                flags = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if n & 2:
                width = b[i] | b[i + 1] << 8
                i += 2
            if n & 4:
                prec = b[i] | b[i + 1] << 8
                i += 2
            if n & 8:
                ai = b[i] | b[i + 1] << 8
                i += 2
            if n & 16:
                width = N(I, unref(I, args[width].v))
            if n & 32:
                prec = N(I, unref(I, args[prec].v))
            parts.append(((flags if n & 1 else None, width, prec), args[ai]))
            ai += 1
    return ArgsV(parts)


@M(ARGUMENTS, "from_str", "from_str_nonconst", "new_const")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) in (Arr, SliceV):
        return ArgsV([S(I, c.v) for c in SL(I, v).cells()])
    return ArgsV([S(I, v)])


@M(ARGUMENTS, "as_str", "as_statically_known_str")
def _(I, m, a):
    v = unref(I, a[0])
    if all(type(p) is str for p in v.p):
        return SOME("".join(v.p))
    return NONE()


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary", "lower_exp", "upper_exp", "pointer"):
    SI[("core::fmt::rt::Argument", "new_" + _k)] = (lambda k: lambda I, m, a: ArgV(a[0], k, m["args"][0]))(_k)
SI[("core::fmt::rt::Argument", "from_usize")] = lambda I, m, a: ArgV(a[0], "usize", None)
SI[("core::fmt::rt::Argument", "none")] = lambda I, m, a: agg(0)


def num_text(v):
    if isinstance(v, Lin):
        return hole(("lin", v), "num")
    if isinstance(v, float):
        return repr(v)
    return str(v)


ALT, ZERO, PLUS, DLX, DUX = 1 << 23, 1 << 24, 1 << 21, 1 << 25, 1 << 26


def flags(spec):
    return (spec[0] if spec else None) or 0


def pad_to(I, s, spec, right, dflt=0):
    """width, fill and alignment; dflt: 0 left, 1 right"""
    w = spec[1] if spec else None
    if w is None:
        return s
    if has_hole(s):
        raise Unsupported("padded opaque text")
    if len(s) >= w:
        return s
    fl = spec[0] if spec[0] is not None else 0x20 | 0xE0000000
    fill = chr(fl & 0x1FFFFF)
    al = (fl >> 29) & 3
    if al == 3:
        al = dflt
    pad = w - len(s)
    return s + fill * pad if al == 0 else fill * pad + s if al == 1 else fill * (pad // 2) + s + fill * (pad - pad // 2)


def fmt_int(I, n, spec, base=None, bits=64):
    """an integer under a format specification"""
    if not isinstance(n, int):
        t = num_text(n)
        if base:
            t = hole((base, t), "num")
        if spec and spec[1] is not None:
            raise Unsupported("padded opaque text")
        return t
    n = int(n)
    fl = flags(spec)
    sign = pre = ""
    if base is None:
        if n < 0:
            sign = "-"
        elif fl & PLUS:
            sign = "+"
        d = str(abs(n))
    else:
        if n < 0:
            n &= (1 << bits) - 1
        d = format(n, {"lower_hex": "x", "upper_hex": "X", "octal": "o", "binary": "b"}[base])
        if fl & PLUS:
            sign = "+"
        if fl & ALT:
            pre = {"lower_hex": "0x", "upper_hex": "0x", "octal": "0o", "binary": "0b"}[base]
    if fl & ZERO and spec[1] is not None:
        return sign + pre + d.rjust(spec[1] - len(sign) - len(pre), "0")
    return pad_to(I, sign + pre + d, spec, True, 1)


def fmt_str(I, s, spec):
    """Formatter::pad"""
    if spec and spec[2] is not None:
        if has_hole(s):
            raise Unsupported("truncated opaque text")
        s = s[:spec[2]]
    return pad_to(I, s, spec, False, 0)


def fmt_float(I, x, n, spec, debug=False):
    if isinstance(x, Opq):
        return hole(("float", x.n), "num")
    x = float(x)
    if spec and spec[2] is not None:
        import decimal
        if math.isnan(x) or math.isinf(x):
            t = float_text(x, n)
        else:
            with decimal.localcontext() as cx:
                cx.prec = 2000
                t = format(decimal.Decimal(x).quantize(decimal.Decimal(1).scaleb(-spec[2]), rounding=decimal.ROUND_HALF_EVEN), "f")
    else:
        t = float_text(x, n, debug)
    fl = flags(spec)
    sign = ""
    if t.startswith("-"):
        sign, t = "-", t[1:]
    elif fl & PLUS:
        sign = "+"
    if fl & ZERO and spec[1] is not None:
        return sign + t.rjust(spec[1] - len(sign), "0")
    return pad_to(I, sign + t, spec, True, 1)


def int_bits(I, t):
    while t is not None:
        k = I.db.types[t]
        if k["k"] in ("ref", "ptr"):
            t = k["t"]
            continue
        return INT_W.get(k.get("n", "i64"), 64)
    return 64


def fmt_arg(I, a, spec, alt=False):
    v, k, t = a.v, a.k, a.t
    if k == "display":
        return display(I, v, t, spec)
    if k == "debug":
        return debug(I, v, t, spec)
    if k in ("lower_hex", "upper_hex", "octal", "binary"):
        return fmt_int(I, unref(I, v), spec, k, int_bits(I, t))
    raise Unsupported("fmt " + k)


def unref_soft(I, v):
    try:
        return unref(I, v)
    except Unsupported:
        return None


def fmt_text(I, av):
    out = []
    for p in av.p:
        if type(p) is str:
            out.append(p)
        else:
            out.append(fmt_arg(I, p[1], p[0]))
    return "".join(out)


def to_f32(v):
    import struct
    try:
        return struct.unpack("f", struct.pack("f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def float_text(x, n, debug=False):
    """Display and Debug of f32 and f64: the shortest digits that read back as x"""
    if math.isnan(x):
        return "NaN"
    if math.isinf(x):
        return "inf" if x > 0 else "-inf"
    if n == "f32":
        for p in range(1, 10):
            t = "%.*g" % (p, x)
            if to_f32(float(t)) == x:
                break
    else:
        t = repr(x)
    from decimal import Decimal
    d = Decimal(t)
    if debug and x != 0 and not 1e-5 <= abs(x) < 1e16:
        sg, dg, ex = d.normalize().as_tuple()
        m = str(dg[0]) + ("." + "".join(map(str, dg[1:])) if len(dg) > 1 else "")
        return ("-" if sg else "") + m + "e" + str(ex + len(dg) - 1)
    r = format(d, "f")
    if "." in r:
        r = r.rstrip("0").rstrip(".")
    return r + ".0" if debug and "." not in r else r


def display(I, v, t, spec=None):
    ty = I.db.types[t]
    k = ty["k"]
    while k in ("ref", "ptr"):
        pt = I.db.types[ty["t"]]
        if pt["k"] == "dyn":
            return display_dyn(I, v, spec)
        if pt["k"] in ("str", "slice"):
            ty = pt
            k = pt["k"]
            break
        # one level of reference: v is a reference to the reference
        v = unref1(I, v)
        t = ty["t"]
        ty = pt
        k = ty["k"]
    if k == "dyn":
        return display_dyn(I, v, spec)
    if k == "str":
        return fmt_str(I, S(I, v), spec)
    if k == "int":
        return fmt_int(I, unref(I, v), spec)
    if k == "bool":
        x = unref(I, v)
        return fmt_str(I, "true" if I.decide(x) else "false", spec)
    if k == "char":
        return fmt_str(I, chr(unref(I, v)), spec)
    if k == "float":
        return fmt_float(I, unref(I, v), ty["n"], spec)
    if k == "adt":
        n = ty["name"]
        if n == "core::char::ToUppercase" or n == "core::char::ToLowercase" or n.startswith("core::char::Escape") or n.startswith("core::str::iter::Escape"):
            return "".join(chr(c) for c in to_it(I, v).copy_it().all())
        if n == STRING or n in ("std::path::Display", "alloc::borrow::Cow", "std::ffi::os_str::Display"):
            return fmt_str(I, S(I, v), spec)
        if n in (BOX,) + tuple(RC):
            x = unref1(I, v)
            return display(I, Ref(x.c), ty["args"][0], spec) if type(x) in (BoxV, RcV) else fmt_str(I, S(I, x), spec)
        if n in ("core::num::nonzero::NonZero", "core::num::wrapping::Wrapping"):
            x = unref(I, v)
            return fmt_int(I, x.f[0].v if type(x) is Agg else x, spec)
        if n == ARGUMENTS:
            return fmt_text(I, unref(I, v))
        c = I.db.caps.get(t, {})
        if "display" in c:
            m = I.db.insts.get(c["display"])
            if m is not None and "body" in m and m.get("crate") in I.models.ws_crates:
                f = FmtV(spec)
                r = I.call(c["display"], [v if type(v) is Ref else Ref(Cell(v)), Ref(Cell(f))])
                return "".join(f.out)
        x = unref_soft(I, v)
        if isinstance(x, Opq):
            return hole(("display", ty["s"] + ":" + str(x.n)), "text")
        return hole(("display", ty["s"]), "text")
    raise Unsupported("display of " + ty["s"])


def display_dyn(I, v, spec=None):
    x = v
    while type(x) in (Ref, BoxV):
        x = I.force(x.c)
    if type(x) is DynRef:
        return display(I, x.p, x.t, spec)
    if type(x) in (str, Str):
        return fmt_str(I, S(I, x), spec)
    return hole(("display", "dyn"), "text")


def esc(s, q):
    """str::escape_debug within quotes q"""
    o = []
    for c in s:
        if is_hole(c):
            o.append(c)
        elif c in ("\\", q):
            o.append("\\" + c)
        elif c in "\n\t\r\0":
            o.append({"\n": "\\n", "\t": "\\t", "\r": "\\r", "\0": "\\0"}[c])
        elif not c.isprintable() and c != " ":
            o.append("\\u{%x}" % ord(c))
        else:
            o.append(c)
    return q + "".join(o) + q


def indent(t):
    return "".join("    " + l for l in re.split(r"(?<=\n)", t) if l)


def dbg_struct(spec, name, fields):
    if not fields:
        return name
    if flags(spec) & ALT:
        return name + " {\n" + "".join(indent(f"{n}: {t},\n") for n, t in fields) + "}"
    return name + " { " + ", ".join(f"{n}: {t}" for n, t in fields) + " }"


def dbg_tuple(spec, name, fields):
    if not fields:
        return name if name else "()"
    if flags(spec) & ALT:
        return name + "(\n" + "".join(indent(f"{t},\n") for t in fields) + ")"
    return name + "(" + ", ".join(fields) + ("," if not name and len(fields) == 1 else "") + ")"


def dbg_list(spec, items, o="[", c="]"):
    if not items:
        return o + c
    if flags(spec) & ALT:
        return o + "\n" + "".join(indent(f"{t},\n") for t in items) + c
    return o + ", ".join(items) + c


QQ = '"'


def debug_dyn(I, v, spec=None):
    x = v
    while type(x) in (Ref, BoxV):
        x = I.force(x.c)
    if type(x) is DynRef:
        return debug(I, x.p, x.t, spec)
    if type(x) in (str, Str):
        return debug(I, x, None, spec)
    return hole(("debug", "dyn"), "text")


def debug_impl(I, t):
    """the workspace's implementation of Debug for a type"""
    c = I.db.caps.get(t)
    if c and "debug" in c and is_ws(I, c["debug"]):
        return c["debug"]
    for dt, es in I.db.vt.get(t, ()):
        for e in es:
            k = e if isinstance(e, str) else (e[1] if isinstance(e, (list, tuple)) and len(e) > 1 else None)
            m = I.db.insts.get(k) if isinstance(k, str) else None
            if m is not None and (m.get("trait") or "").endswith("::Debug") and m.get("item") == "fmt" and "body" in m and m.get("crate") in I.models.ws_crates:
                return k
    n = I.db.types[t].get("name")
    ks = getattr(I.db, "debug_impls", None)
    if ks is None:
        ks = I.db.debug_impls = {}
        for k, m in I.db.insts.items():
            if m.get("item") == "fmt" and (m.get("trait") or "").endswith("::Debug") and "body" in m and m.get("crate") in I.models.ws_crates:
                ks.setdefault(m.get("self"), []).append(k)
    l = ks.get(n, [])
    return l[0] if len(l) == 1 else None


def debug(I, v, t, spec=None):
    x = unref_soft(I, v)
    if type(x) in (str, Str):
        return esc(S(I, x), QQ)
    if t is None:
        return hole(("debug", "?"), "text")
    k = I.db.types[t]
    while k["k"] in ("ref", "ptr"):
        t = k["t"]
        k = I.db.types[t]
    if k["k"] == "dyn":
        return debug_dyn(I, v, spec)
    if k["k"] == "char" and type(x) is int:
        return esc(chr(x), "'")
    if k["k"] == "bool" and isinstance(x, (int, Cond)):
        return fmt_str(I, "true" if I.decide(x) else "false", spec)
    if k["k"] == "float" and not isinstance(x, Agg):
        return fmt_float(I, x, k["n"], spec, True)
    if isinstance(x, (int, Lin)) and not isinstance(x, bool):
        fl = flags(spec)
        return fmt_int(I, x, spec, "lower_hex" if fl & DLX else "upper_hex" if fl & DUX else None, int_bits(I, t))
    if type(x) in (VecV, SliceV, Arr):
        et = k.get("t") if k["k"] in ("slice", "array") else (k.get("args") or [None])[0]
        if et is not None:
            cells = x.cells() if type(x) is SliceV else x.f
            return dbg_list(spec, [debug(I, Ref(c), et, spec) for c in cells])
    if type(x) is MapV and k["k"] == "adt":
        es = map_items(I, x, "debug")
        ta = k["args"]
        if x.kind.endswith("set"):
            return dbg_list(spec, [debug(I, Ref(Cell(e)), ta[0], spec) for e, _ in es], "{", "}")
        return dbg_list(spec, [debug(I, Ref(Cell(e)), ta[0], spec) + ": " + debug(I, Ref(c), ta[1], spec) for e, c in es], "{", "}")
    if type(x) is Agg and k["k"] == "tuple":
        return dbg_tuple(spec, "", [debug(I, Ref(c), et, spec) for c, et in zip(x.f, k["ts"])])
    if type(x) is Agg and k["k"] == "adt":
        n = k["name"]
        if n == OPT:
            return "None" if x.vi == 0 else dbg_tuple(spec, "Some", [debug(I, Ref(x.f[0]), k["args"][0], spec)])
        if n == "core::result::Result":
            return dbg_tuple(spec, "Ok" if x.vi == 0 else "Err", [debug(I, Ref(x.f[0]), k["args"][x.vi], spec)])
        if n == "alloc::borrow::Cow":
            return esc(S(I, x), '"')
        if n == "core::cmp::Ordering":
            return ("Less", "Equal", "Greater")[x.vi]
        d = debug_impl(I, t)
        if d is not None:
            f = FmtV(spec)
            try:
                I.call(d, [v if type(v) is Ref and unref1(I, v) is x else Ref(Cell(x)), Ref(Cell(f))])
                return "".join(f.out)
            except Unsupported:
                return hole(("debug", k["s"]), "text")
        vs = k.get("variants")
        if vs and k.get("akind") == "enum" and not vs[x.vi]["fields"]:
            return vs[x.vi]["name"]
    return hole(("debug", k["s"]), "text")


@X("alloc::fmt::format", "alloc::fmt::format::format_inner")
def _(I, m, a):
    return Str(fmt_text(I, unref(I, a[0])))


@M("T", "to_string", "spec_to_string")
def _(I, m, a):
    return Str(display(I, a[0], m["args"][0]))


def to_string_any(I, m, a):
    t = m["args"][0] if m.get("args") else None
    if t is None:
        v = unref(I, a[0])
        return Str(num_text(v) if isinstance(v, (int, Lin)) else S(I, v))
    return Str(display(I, a[0], t))


TI[("ToString", "to_string")] = to_string_any
TI[("SpecToString", "spec_to_string")] = to_string_any


@TR("ToOwned", "to_owned")
def _(I, m, a):
    v = unref1(I, a[0])
    if type(v) is str:
        return Str(v)
    if type(v) is SliceV:
        return VecV([Cell(I.clone(I.force(c))) for c in v.cells()])
    return I.clone(v)


def FV(I, v):
    v = unref(I, v)
    if type(v) is FmtV:
        return v
    raise Unsupported("formatter")


@M(FMT, "write_str", "pad")
def _(I, m, a):
    v = unref(I, a[0])
    t = S(I, a[1])
    if m["item"] == "pad" and type(v) is FmtV:
        t = fmt_str(I, t, v.spec)
    if type(v) is Str:
        v.v += t
    else:
        FV(I, v).out.append(t)
    return OK(UNIT)


@M(FMT, "pad_integral")
def _(I, m, a):
    f = FV(I, a[0])
    fl = flags(f.spec)
    sign = ("+" if fl & PLUS else "") if I.decide(a[1]) else "-"
    pre = S(I, a[2]) if fl & ALT else ""
    d = S(I, a[3])
    if fl & ZERO and f.spec[1] is not None:
        f.out.append(sign + pre + d.rjust(f.spec[1] - len(sign) - len(pre), "0"))
    else:
        f.out.append(pad_to(I, sign + pre + d, f.spec, True, 1))
    return OK(UNIT)


@M(FMT, "width", "precision")
def _(I, m, a):
    f = FV(I, a[0])
    w = f.spec[1 if m["item"] == "width" else 2] if f.spec else None
    return NONE() if w is None else SOME(w)


@M(FMT, "sign_plus")
def _(I, m, a):
    return int(bool(flags(FV(I, a[0]).spec) & PLUS))


@M(FMT, "sign_aware_zero_pad")
def _(I, m, a):
    return int(bool(flags(FV(I, a[0]).spec) & ZERO))


@M(FMT, "fill")
def _(I, m, a):
    sp = FV(I, a[0]).spec
    return (sp[0] & 0x1FFFFF) if sp and sp[0] is not None else 32


@M(FMT, "write_char")
def _(I, m, a):
    FV(I, a[0]).out.append(chr(a[1]))
    return OK(UNIT)


@M(FMT, "write_fmt")
def _(I, m, a):
    FV(I, a[0]).out.append(fmt_text(I, unref(I, a[1])))
    return OK(UNIT)


@M(FMT, "alternate")
def _(I, m, a):
    f = FV(I, a[0])
    return int(bool(f.spec and f.spec[0] and f.spec[0] & (1 << 23)))


class DbgB:
    """DebugStruct, DebugTuple, DebugList, DebugSet, DebugMap"""

    def __init__(self, f, kind, name):
        self.f, self.kind, self.name, self.items, self.key = f, kind, name, [], None


for _n in ("struct", "tuple", "list", "map", "set"):
    SI[(FMT, "debug_" + _n)] = (lambda n: lambda I, m, a: DbgB(FV(I, a[0]), n, S(I, a[1]) if len(a) > 1 else ""))(_n)
BLD = ["core::fmt::builders::Debug" + x for x in ("Struct", "Tuple", "List", "Map", "Set", "Inner")]


def bld(I, v):
    v = unref(I, v)
    if type(v) is not DbgB:
        raise Unsupported("debug builder")
    return v


@M(BLD, "field")
def _(I, m, a):
    b = bld(I, a[0])
    t = debug_dyn(I, a[-1], b.f.spec)
    b.items.append((S(I, a[1]), t) if b.kind == "struct" else t)
    return a[0]


@M(BLD, "entry")
def _(I, m, a):
    b = bld(I, a[0])
    t = debug_dyn(I, a[-1], b.f.spec)
    b.items.append(debug_dyn(I, a[1], b.f.spec) + ": " + t if b.kind == "map" else t)
    return a[0]


@M(BLD, "entries")
def _(I, m, a):
    b = bld(I, a[0])
    ts = m["args"]
    for x in to_it(I, a[1]).all():
        if b.kind == "map":
            b.items.append(debug(I, Ref(x.f[0]), ts[-3], b.f.spec) + ": " + debug(I, Ref(x.f[1]), ts[-2], b.f.spec))
        else:
            b.items.append(debug(I, Ref(Cell(x)), ts[-2], b.f.spec))
    return a[0]


@M(BLD, "finish", "finish_non_exhaustive")
def _(I, m, a):
    b = bld(I, a[0])
    sp = b.f.spec
    if m["item"] != "finish":
        raise Unsupported("finish_non_exhaustive")
    b.f.out.append(dbg_struct(sp, b.name, b.items) if b.kind == "struct" else dbg_tuple(sp, b.name, b.items) if b.kind == "tuple" else
                   dbg_list(sp, b.items) if b.kind == "list" else dbg_list(sp, b.items, "{", "}"))
    return OK(UNIT)


def _struct_finish(I, m, a):
    f = FV(I, a[0])
    ns = S(I, a[1]).split(" ")
    f.out.append(dbg_struct(f.spec, ns[0], [(n, debug_dyn(I, v, f.spec)) for n, v in zip(ns[1:], a[2:])]))
    return OK(UNIT)


def _tuple_finish(I, m, a):
    f = FV(I, a[0])
    f.out.append(dbg_tuple(f.spec, S(I, a[1]), [debug_dyn(I, x, f.spec) for x in a[2:]]))
    return OK(UNIT)


for _k in range(1, 6):
    SI[(FMT, f"debug_struct_field{_k}_finish")] = _struct_finish
    SI[(FMT, f"debug_tuple_field{_k}_finish")] = _tuple_finish


@M(FMT, "debug_struct_fields_finish")
def _(I, m, a):
    f = FV(I, a[0])
    ns = S(I, a[1]).split(" ")
    f.out.append(dbg_struct(f.spec, ns[0], [(n, debug_dyn(I, v.v, f.spec)) for n, v in zip(ns[1:], SL(I, a[2]).cells())]))
    return OK(UNIT)


@M(FMT, "debug_tuple_fields_finish")
def _(I, m, a):
    f = FV(I, a[0])
    f.out.append(dbg_tuple(f.spec, S(I, a[1]), [debug_dyn(I, v.v, f.spec) for v in SL(I, a[2]).cells()]))
    return OK(UNIT)


@M(FMT, "debug_c_like_enum_write_str")
def _(I, m, a):
    if type(a[2]) is not int:
        raise Unsupported("name of an unknown variant")
    FV(I, a[0]).out.append(S(I, a[1])[a[2]:].split(" ")[0])
    return OK(UNIT)


@TR("Write", "write_fmt")
def _(I, m, a):
    v = unref(I, a[0])
    t = fmt_text(I, unref(I, a[1]))
    if type(v) is Str:
        v.v += t
        return OK(UNIT)
    if type(v) is FmtV:
        v.out.append(t)
        return OK(UNIT)
    if type(v) is VecV:
        v.f.extend(Cell(b) for b in t.encode())
        return OK(UNIT)
    return file_write(I, v, t)


@TR("Write", "write_str", "write_all", "write")
def _(I, m, a):
    v = unref(I, a[0])
    t = S(I, a[1])
    r = OK(slen(I, t)) if m["item"] == "write" else OK(UNIT)
    if type(v) is Str:
        v.v += t
        return r
    if type(v) is FmtV:
        v.out.append(t)
        return r
    if type(v) is VecV:
        v.f.extend(Cell(b) for b in t.encode())
        return r
    if m["item"] == "write":
        I.event("partial_write", I.where())
    x = file_write(I, v, t)
    return x if x.vi == 1 else r


@TR("Write", "flush", "sync_all")
def _(I, m, a):
    return io_err(I, "write") if pending(I) else OK(UNIT)


@TR("Write", "by_ref")
def _(I, m, a):
    return a[0]


@TR("Display", "fmt")
def _(I, m, a):
    f = FV(I, a[1])
    v = unref(I, a[0])
    s = m.get("self", "")
    if s in INT_W or s == NZ:
        f.out.append(fmt_int(I, v, f.spec))
    elif s in ("f32", "f64"):
        f.out.append(fmt_float(I, v, s, f.spec))
    elif s == "char":
        f.out.append(fmt_str(I, chr(v), f.spec))
    elif s == "bool":
        f.out.append(fmt_str(I, "true" if I.decide(v) else "false", f.spec))
    elif type(v) is ArgsV:
        f.out.append(fmt_text(I, v))
    elif type(v) in (str, Str):
        f.out.append(fmt_str(I, S(I, v), f.spec))
    elif s in ("&T", "&mut T", BOX) and m.get("args"):
        f.out.append(display(I, a[0].c.v if type(a[0]) is Ref and type(a[0].c.v) in (Ref, BoxV) else a[0], m["args"][0], f.spec))
    else:
        f.out.append(hole(("display", s), "text"))
    return OK(UNIT)


for _n, _k in (("LowerHex", "lower_hex"), ("UpperHex", "upper_hex"), ("Octal", "octal"), ("Binary", "binary")):
    TI[(_n, "fmt")] = (lambda k: lambda I, m, a: (FV(I, a[1]).out.append(fmt_int(I, unref(I, a[0]), FV(I, a[1]).spec, k, INT_W.get(m.get("self"), 64))), OK(UNIT))[1])(_k)


@TR("Debug", "fmt")
def _(I, m, a):
    f = FV(I, a[1])
    v = unref_soft(I, a[0])
    s = m.get("self", "")
    t = I.db.tyname.get(s)
    if s in ("&T", "&mut T", OPT, VEC, "[T]", "core::result::Result", BOX) and m.get("args"):
        ta = m["args"][0]
        if s in ("&T", "&mut T"):
            t = ta
        elif s in (VEC, "[T]") and type(v) in (VecV, SliceV, Arr):
            f.out.append(dbg_list(f.spec, [debug(I, Ref(c), ta, f.spec) for c in (v.cells() if type(v) is SliceV else v.f)]))
            return OK(UNIT)
        elif s == OPT and type(v) is Agg:
            f.out.append("None" if v.vi == 0 else dbg_tuple(f.spec, "Some", [debug(I, Ref(v.f[0]), ta, f.spec)]))
            return OK(UNIT)
        else:
            t = None
    if type(v) in (str, Str) or t is not None:
        f.out.append(debug(I, a[0], t, f.spec))
    else:
        f.out.append(hole(("debug", s), "text"))
    return OK(UNIT)


# --------------------------------------------------------------- panics ---
def panic(I, msg):
    raise RustPanic(msg, I.where())


@X("core::panicking::panic_fmt", "std::panicking::begin_panic_handler", "core::panicking::panic_nounwind_nobacktrace")
def _(I, m, a):
    v = unref(I, a[0])
    try:
        s = fmt_text(I, v) if type(v) is ArgsV else S(I, v)
    except Unsupported:
        s = "?"
    panic(I, s)


@X("core::panicking::panic", "core::panicking::panic_str_2015", "core::panicking::panic_nounwind",
   "core::panicking::panic_explicit", "core::option::expect_failed", "core::option::unwrap_failed",
   "core::panicking::unreachable_default_msg", "core::panicking::panic_display", "std::panicking::begin_panic",
   "core::panicking::unreachable_display", "core::panicking::panic_cannot_unwind")
def _(I, m, a):
    try:
        s = S(I, a[0]) if a else m["item"]
    except Unsupported:
        v = unref(I, a[0])
        s = fmt_text(I, v) if type(v) is ArgsV else "?"
    panic(I, s)


@X("core::result::unwrap_failed")
def _(I, m, a):
    d = a[1] if len(a) > 1 else None
    inner_ = ""
    try:
        if type(d) is DynRef:
            inner_ = ": " + debug(I, d.p, d.t)
    except Unsupported:
        pass
    panic(I, S(I, a[0]) + inner_)


@X("core::panicking::assert_failed", "core::panicking::assert_failed_inner")
def _(I, m, a):
    t = []
    for x in a[1:3]:
        try:
            t.append(debug_dyn(I, x))
        except Unsupported:
            t.append("?")
    panic(I, "assertion failed: " + " / ".join(t))


@X("core::panicking::panic_bounds_check", "core::slice::index::slice_index_fail", "core::str::slice_error_fail")
def _(I, m, a):
    panic(I, m["item"])


@X("core::panicking::panic_nounwind_fmt")
def _(I, m, a):
    # the precondition of an unsafe operation does not hold
    I.event("ub", "unsafe precondition violated", [s for s in I.stack if s][-4:])
    raise RustPanic("unsafe precondition violated", I.where())


@X("core::intrinsics::abort", "std::process::abort")
def _(I, m, a):
    I.event("abort", I.where())
    raise RustExit(134)


@X("std::process::exit")
def _(I, m, a):
    raise RustExit(a[0])


@X("std::io::stdio::_print", "std::io::stdio::_eprint")
def _(I, m, a):
    try:
        t = fmt_text(I, unref(I, a[0]))
    except Unsupported:
        t = hole("diag", "text")
    I.event("eprint" if "eprint" in m["name"] else "print", t)
    return UNIT


@X("std::io::stdio::stdout", "std::io::stdio::stderr", "std::io::stdio::stdin")
def _(I, m, a):
    return Opq(m["item"])


@X("log::max_level")
def _(I, m, a):
    return Agg(0, [])       # LevelFilter::Off: diagnostics have no effect on outputs


@X("log::__private_api::log", "log::__private_api::loc")
def _(I, m, a):
    return UNIT if m["item"] == "log" else Opq("loc")


@M(["log::LevelFilter", "log::Level"], "partial_cmp", "le", "lt")
def _(I, m, a):
    return 0


@M("std::time::Instant", "now")
def _(I, m, a):
    return Opq("instant")


@M("std::time::Instant", "elapsed")
def _(I, m, a):
    return Opq("duration")


# ------------------------------------------------------------ fs / path ---
PATH = ["std::path::Path", "std::path::PathBuf", "std::ffi::os_str::OsStr", "std::ffi::os_str::OsString"]


def comps(s):
    return [c for c in s.split("/")]


def p_join(a, b):
    if b.startswith("/"):
        return b
    if b == "":
        return a if a.endswith("/") or a == "" else a + "/"
    if a == "" or a.endswith("/"):
        return a + b
    return a + "/" + b


def p_norm_comps(s):
    """std::path components (root, '.', '..', names)"""
    out = []
    if s.startswith("/"):
        out.append("/")
    for i, c in enumerate(s.split("/")):
        if c == "":
            continue
        if c == "." and not (i == 0 and not s.startswith("/")):
            continue
        out.append(c)
    return out


def p_file_name(s):
    c = p_norm_comps(s)
    if not c or c[-1] in ("/", ".."):
        return None
    if c[-1] == ".":
        return None
    return c[-1]


def p_parent(s):
    c = p_norm_comps(s)
    if not c or c == ["/"]:
        return None
    c = c[:-1]
    if not c:
        return ""
    if c[0] == "/":
        return "/" + "/".join(c[1:])
    return "/".join(c)


def p_split_ext(fn):
    if fn == "..":
        return fn, None
    i = fn.rfind(".")
    if i <= 0:
        return fn, None
    return fn[:i], fn[i + 1:]


@M(PATH, "new", "from", "as_os_str", "as_path", "as_ref", "deref", "borrow", "to_path_buf", "into_os_string",
   "into_path_buf", "to_owned", "clone", "as_mut_os_str", "deref_mut", "into_boxed_path", "to_os_string")
def _(I, m, a):
    it = m["item"]
    s = S(I, a[0]) if a else ""
    owned = it in ("to_path_buf", "into_os_string", "into_path_buf", "to_owned", "to_os_string") or \
        (it in ("from", "clone", "new") and m["self"] in ("std::path::PathBuf", "std::ffi::os_str::OsString"))
    return Str(s) if owned else s


@M(PATH, "join")
def _(I, m, a):
    return Str(p_join(S(I, a[0]), S(I, a[1])))


@M(PATH, "push")
def _(I, m, a):
    v = unref(I, a[0])
    v.v = p_join(v.v, S(I, a[1]))
    return UNIT


@M(PATH, "pop")
def _(I, m, a):
    v = unref(I, a[0])
    p = p_parent(v.v)
    if p is None:
        return 0
    v.v = p
    return 1


@M(PATH, "parent")
def _(I, m, a):
    p = p_parent(S(I, a[0]))
    return NONE() if p is None else SOME(p)


@M(PATH, "file_name")
def _(I, m, a):
    p = p_file_name(S(I, a[0]))
    return NONE() if p is None else SOME(p)


@M(PATH, "file_stem")
def _(I, m, a):
    p = p_file_name(S(I, a[0]))
    return NONE() if p is None else SOME(p_split_ext(p)[0])


@M(PATH, "extension")
def _(I, m, a):
    p = p_file_name(S(I, a[0]))
    e = None if p is None else p_split_ext(p)[1]
    return NONE() if e is None else SOME(e)


def with_ext(s, e):
    fn = p_file_name(s)
    if fn is None:
        return s
    st = p_split_ext(fn)[0]
    k = s.rstrip("/").rfind(fn)
    return s[:k] + st + (("." + e) if e else "")


@M(PATH, "with_extension")
def _(I, m, a):
    return Str(with_ext(S(I, a[0]), S(I, a[1])))


@M(PATH, "set_extension")
def _(I, m, a):
    v = unref(I, a[0])
    if p_file_name(v.v) is None:
        return 0
    v.v = with_ext(v.v, S(I, a[1]))
    return 1


@M(PATH, "with_file_name")
def _(I, m, a):
    s = S(I, a[0])
    p = p_parent(s) if p_file_name(s) is not None else s
    return Str(p_join(p or "", S(I, a[1])))


@M(PATH, "set_file_name")
def _(I, m, a):
    v = unref(I, a[0])
    p = p_parent(v.v) if p_file_name(v.v) is not None else v.v
    v.v = p_join(p or "", S(I, a[1]))
    return UNIT


@M(PATH, "to_str")
def _(I, m, a):
    return SOME(S(I, a[0]))


@M(PATH, "to_string_lossy")
def _(I, m, a):
    return agg(0, S(I, a[0]))


@M(PATH, "into_string")
def _(I, m, a):
    return OK(Str(S(I, a[0])))


@M(PATH, "display")
def _(I, m, a):
    return S(I, a[0])


@M(PATH, "is_absolute", "has_root")
def _(I, m, a):
    return int(S(I, a[0]).startswith("/"))


@M(PATH, "is_relative")
def _(I, m, a):
    return int(not S(I, a[0]).startswith("/"))


@M(PATH, "starts_with")
def _(I, m, a):
    x, y = p_norm_comps(S(I, a[0])), p_norm_comps(S(I, a[1]))
    return int(x[:len(y)] == y)


@M(PATH, "ends_with")
def _(I, m, a):
    x, y = p_norm_comps(S(I, a[0])), p_norm_comps(S(I, a[1]))
    return int(len(x) >= len(y) and x[len(x) - len(y):] == y)


@M(PATH, "strip_prefix")
def _(I, m, a):
    x, y = p_norm_comps(S(I, a[0])), p_norm_comps(S(I, a[1]))
    if x[:len(y)] == y:
        return OK("/".join(x[len(y):]))
    return ERR(UNIT)


@M(PATH, "eq", "ne")
def _(I, m, a):
    r = p_norm_comps(S(I, a[0])) == p_norm_comps(S(I, a[1]))
    return int(r == (m["item"] == "eq"))


@M(PATH, "cmp")
def _(I, m, a):
    x, y = p_norm_comps(S(I, a[0])), p_norm_comps(S(I, a[1]))
    return ORD((x > y) - (x < y))


@M(PATH, "components", "iter")
def _(I, m, a):
    t = I.db.adt.get("std::path::Component")
    out = []
    for c in p_norm_comps(S(I, a[0])):
        if m["item"] == "iter":
            out.append(c)
        elif c == "/":
            out.append(Agg(1, [], t[0] if t else None))
        elif c == ".":
            out.append(Agg(2, [], t[0] if t else None))
        elif c == "..":
            out.append(Agg(3, [], t[0] if t else None))
        else:
            out.append(Agg(4, [Cell(c)], t[0] if t else None))
    return ListIt(out)


@M("std::path::Component", "as_os_str")
def _(I, m, a):
    v = unref(I, a[0])
    return {1: "/", 2: ".", 3: ".."}.get(v.vi) or v.f[0].v


@M(PATH, "ancestors")
def _(I, m, a):
    s = S(I, a[0])
    out = [s]
    while p_parent(s) is not None:
        s = p_parent(s)
        out.append(s)
    return ListIt(out)


@M(PATH, "is_empty")
def _(I, m, a):
    return int(S(I, a[0]) == "")


@M(PATH, "len")
def _(I, m, a):
    return slen(I, S(I, a[0]))


class FS:
    """abstract file system: files {canonical path: text}, dirs, links {path: target}"""

    def __init__(self, files=None, dirs=None, links=None, cwd="/cwd"):
        self.files = dict(files or {})
        self.dirs = set(dirs or [])
        self.links = dict(links or {})
        self.cwd = cwd
        for f in list(self.files) + list(self.links) + [cwd] + list(self.dirs):
            d = f
            while True:
                d = p_parent(d)
                if d is None:
                    break
                self.dirs.add(d)
        self.dirs.add(cwd)
        self.dirs.add("/")

    def resolve(self, p, depth=0):
        """canonical path or None"""
        if depth > 40:
            return None
        if not p.startswith("/"):
            p = p_join(self.cwd, p)
        cur = "/"
        cs = p.split("/")[1:]
        for i, c in enumerate(cs):
            if c in ("", "."):
                if i + 1 == len(cs) and c == "" and cur in self.files:
                    return None
                continue
            if cur in self.files:
                return None
            if c == "..":
                cur = p_parent(cur) or "/"
                continue
            nxt = p_join(cur, c)
            if nxt in self.links:
                t = self.links[nxt]
                r = self.resolve(t if t.startswith("/") else p_join(cur, t), depth + 1)
                if r is None:
                    return None
                cur = r
                continue
            if nxt not in self.files and nxt not in self.dirs:
                return None
            cur = nxt
        return cur


def fs(I):
    f = getattr(I, "fs", None)
    if f is None:
        raise Unsupported("file system access without an abstract file system")
    return f


class IoErr(Opq):
    """std::io::Error"""
    __slots__ = ("what",)

    def __init__(self, what):
        Opq.__init__(self, "io::Error:" + what)
        self.what = what


def io_err(I, what):
    return ERR(IoErr(what))


def fault(I, what):
    """injected failure: True for the operation number I.inject of a run"""
    n = I.io_n
    I.io_n += 1
    I.event("io", n, what)
    if n == getattr(I, "inject", None):
        I.event("fault", what)
        return True
    return False


@M(PATH, "canonicalize")
@X("std::fs::canonicalize")
def canonicalize(I, m, a):
    r = fs(I).resolve(S(I, a[0]))
    return OK(Str(r)) if r is not None else io_err(I, "not found")


EX["std::fs::canonicalize"] = canonicalize


@X("std::path::absolute")
def _(I, m, a):
    s = S(I, a[0])
    return OK(Str(s if s.startswith("/") else p_join(fs(I).cwd, s)))


@M(PATH, "exists", "try_exists", "is_file", "is_dir")
def _(I, m, a):
    f = fs(I)
    r = f.resolve(S(I, a[0]))
    it = m["item"]
    if it == "is_file":
        return int(r is not None and r in f.files)
    if it == "is_dir":
        return int(r is not None and r in f.dirs)
    v = int(r is not None)
    return OK(v) if it == "try_exists" else v


@X("std::fs::exists")
def _(I, m, a):
    return OK(int(fs(I).resolve(S(I, a[0])) is not None))


@X("std::fs::read_to_string", "std::fs::read")
def _(I, m, a):
    f = fs(I)
    p = S(I, a[0])
    r = f.resolve(p)
    I.event("read", r or p)
    if r is None:
        return io_err(I, "not found")
    if r not in f.files or fault(I, "read"):
        return io_err(I, "read")
    if m["name"].endswith("read_to_string") and bad_utf8(f.files[r]):
        return io_err(I, "stream did not contain valid UTF-8")
    return OK(Str(f.files[r]))


class FileV:
    def __init__(self, path, append=False):
        self.path = path
        self.pos = 0
        self.append = append


class OpenOptV:
    def __init__(self):
        self.f = {}


OO = "std::fs::OpenOptions"


@M(OO, "new")
def _(I, m, a):
    return OpenOptV()


@M(OO, "create", "write", "truncate", "read", "append", "create_new")
def _(I, m, a):
    unref(I, a[0]).f[m["item"]] = bool(I.decide(a[1]))
    return a[0]


def open_file(I, path, flags):
    f = fs(I)
    r = f.resolve(path)
    full = path if path.startswith("/") else p_join(f.cwd, path)
    if r is None:
        d = f.resolve(p_parent(full) or "/")
        if d is None or d not in f.dirs:
            I.event("open_fail", path)
            return io_err(I, "not found")
        full = p_join(d, full.rstrip("/").rsplit("/", 1)[-1])
        if not flags.get("create") and not flags.get("create_new"):
            I.event("open_fail", path)
            return io_err(I, "not found")
    else:
        full = r
        if flags.get("create_new"):
            I.event("open_fail", path)
            return io_err(I, "exists")
    if r in f.dirs or fault(I, "open"):
        I.event("open_fail", path)
        return io_err(I, "is a directory")
    I.event("open", full, tuple(sorted(k for k, v in flags.items() if v)))
    if flags.get("write") or flags.get("append"):
        if r is None or flags.get("truncate"):
            f.files[full] = ""
    return OK(FileV(full, bool(flags.get("append"))))


@M(OO, "open")
def _(I, m, a):
    return open_file(I, S(I, a[1]), unref(I, a[0]).f)


@M("std::fs::File", "create")
def _(I, m, a):
    return open_file(I, S(I, a[0]), {"create": True, "write": True, "truncate": True})


@M("std::fs::File", "create_new")
def _(I, m, a):
    return open_file(I, S(I, a[0]), {"create_new": True, "write": True})


@M("std::fs::File", "open")
def _(I, m, a):
    p = S(I, a[0])
    I.event("read", p)
    if fs(I).resolve(p) is None or fault(I, "open"):
        return io_err(I, "open")
    return OK(FileV(p))


@M("std::fs::File", "set_len")
def _(I, m, a):
    v = unref(I, a[0])
    I.event("set_len", v.path, a[1])
    if fault(I, "set_len"):
        return io_err(I, "set_len")
    t = fs(I).files.get(v.path)
    if t is not None:
        if type(a[1]) is not int or a[1] and has_hole(t):
            raise Unsupported("set_len")
        fs(I).files[v.path] = t[:a[1]].ljust(a[1], "\0")
    return OK(UNIT)


@M("std::fs::File", "sync_all", "sync_data")
def _(I, m, a):
    if fault(I, "sync"):
        return io_err(I, "sync")
    return OK(UNIT)


@M("std::fs::File", "flush")
def _(I, m, a):
    return io_err(I, "write") if pending(I) else OK(UNIT)


def file_write(I, v, t, buffered=False):
    if type(v) is FileV:
        if fault(I, "write"):
            if buffered:        # reported by a later flush, lost when there is none
                I.io_pending = True
                return OK(UNIT)
            return io_err(I, "write")
        I.event("write", v.path, t)
        f = fs(I)
        if v.path in f.files:
            o = f.files[v.path]
            p = len(o) if v.append else v.pos
            if p > len(o) or p < len(o) and (has_hole(o[p:]) or has_hole(t)):
                raise Unsupported("write in the middle of a file")
            f.files[v.path] = o[:p] + t + o[p + len(t):]
            v.pos = p + len(t)
        return OK(UNIT)
    if type(v) is Agg and v.f:
        return file_write(I, unref(I, v.f[0].v), t, True)
    if type(v) is Opq and v.n in ("stdout", "stderr"):
        I.event("print" if v.n == "stdout" else "eprint", t)
        return OK(UNIT)
    raise Unsupported(f"write to {v!r}"[:100])


def pending(I):
    p = I.io_pending
    I.io_pending = False
    return p


for _b in ("alloc::io::buffered::bufwriter::BufWriter", "alloc::io::buffered::linewriter::LineWriter"):
    SI[(_b, "new")] = lambda I, m, a: agg(0, a[0])
    SI[(_b, "with_capacity")] = lambda I, m, a: agg(0, a[1])
    SI[(_b, "into_inner")] = lambda I, m, a: io_err(I, "write") if pending(I) else OK(a[0].f[0].v)


def read_all(I, v, text):
    """result of reading the rest of a file: (error, contents)"""
    v = unref(I, v)
    while type(v) is Agg and v.f:       # a buffered reader
        v = unref(I, v.f[0].v)
    if type(v) is not FileV:
        raise Unsupported(f"read from {v!r}"[:100])
    r = fs(I).resolve(v.path)
    if r is None or r not in fs(I).files or fault(I, "read"):
        return io_err(I, "read"), None
    if text and bad_utf8(fs(I).files[r]):
        return io_err(I, "stream did not contain valid UTF-8"), None
    t = fs(I).files[r][v.pos:]
    v.pos += len(t)
    return None, t


@TR("Read", "read_to_string", "read_to_end")
def _(I, m, a):
    e, t = read_all(I, a[0], m["item"] == "read_to_string")
    if e is not None:
        return e
    d = unref(I, a[1])
    if type(d) is Str:
        d.v += t
    else:
        d.f.extend(Cell(b) for b in t.encode())
    return OK(slen(I, t))


@X("alloc::io::read_to_string", "std::io::read_to_string", "alloc::io::read::read_to_string")
def _(I, m, a):
    e, t = read_all(I, a[0], True)
    return OK(Str(t)) if e is None else e


SI[("alloc::io::buffered::bufreader::BufReader", "new")] = lambda I, m, a: agg(0, a[0])
SI[("alloc::io::buffered::bufreader::BufReader", "with_capacity")] = lambda I, m, a: agg(0, a[1])


@X("std::fs::write")
def _(I, m, a):
    p = S(I, a[0])
    r = open_file(I, p, {"create": True, "truncate": True, "write": True})
    if r.vi == 1:
        return r
    return file_write(I, r.f[0].v, S(I, a[1]))


@X("std::fs::create_dir_all", "std::fs::create_dir", "std::fs::remove_file", "std::fs::remove_dir_all",
   "std::fs::remove_dir")
def _(I, m, a):
    p = S(I, a[0])
    I.event("fsop", m["item"], p)
    f = fs(I)
    full = p if p.startswith("/") else p_join(f.cwd, p)
    if m["item"].startswith("create_dir"):
        if f.resolve(full) is None:
            q = full
            while q is not None and q not in f.dirs:
                f.dirs.add(q)
                q = p_parent(q)
    else:
        r = f.resolve(full)
        if r is None:
            return io_err(I, "not found")
        f.files.pop(r, None)
        f.dirs.discard(r)
    return OK(UNIT)


@X("std::fs::rename", "std::fs::copy", "std::fs::hard_link")
def _(I, m, a):
    f = fs(I)
    s_, d_ = S(I, a[0]), S(I, a[1])
    full = d_ if d_.startswith("/") else p_join(f.cwd, d_)
    r = f.resolve(s_)
    I.event("fsop", m["item"], r or s_, full)
    if r is None or r not in f.files:
        return io_err(I, "not found")
    f.files[full] = f.files[r]
    if m["item"] == "rename":
        del f.files[r]
    return OK(UNIT if m["item"] != "copy" else 0)


@X("std::env::current_dir")
def _(I, m, a):
    I.event("cwd", I.where())
    return OK(Str(fs(I).cwd))


@X("std::env::set_current_dir")
def _(I, m, a):
    r = fs(I).resolve(S(I, a[0]))
    if r is None:
        return io_err(I, "chdir")
    fs(I).cwd = r
    return OK(UNIT)


@X("std::env::var", "std::env::var_os")
def _(I, m, a):
    I.event("env", S(I, a[0]))
    return Cond("env", S(I, a[0])) and (ERR(Opq("VarError")) if m["item"] == "var" else NONE())


@X("clap_builder::derive::Parser::parse")
def _(I, m, a):
    cli = getattr(I, "cli", None)
    if cli is None:
        raise Unsupported("command line")
    return cli(I, m)


# env_logger
@X("idlc_errors::init")
def _(I, m, a):
    return UNIT


@X("prettyplease::unparse")
def _(I, m, a):
    return Str(S(I, a[0]))


@X("syn::parse_file", "syn::parse_str")
def _(I, m, a):
    s = S(I, a[0])
    I.event("syn", s)
    return OK(Str(s))


@TR("Casing", "to_case")
def _(I, m, a):
    v = a[1]
    ty = I.db.types[v.ty] if type(v) is Agg and v.ty is not None else None
    if ty is None:
        raise Unsupported("to_case")
    return Str(to_case(S(I, a[0]), ty["variants"][v.vi]["name"]))


@TR("AsDisplay", "as_display")
def _(I, m, a):
    v = a[0]
    if m.get("args"):
        try:
            return display(I, v, m["args"][0])
        except Unsupported:
            pass
    return hole("display", "text")


@M("std::backtrace::Backtrace", "capture", "force_capture")
def _(I, m, a):
    return Opq("backtrace")


# generic conversions between native kinds
@TR("AsRef", "as_ref")
def _(I, m, a):
    v = a[0]
    if type(v) is Ref:
        x = I.force(v.c)
        while type(x) is Ref:
            v, x = x, I.force(x.c)
        if type(x) in (Str, str):
            return S(I, x)
        if type(x) in (VecV, Arr):
            return SliceV(x.f)
        if type(x) in (BoxV, RcV):
            return Ref(x.c)
    return v


TI[("Borrow", "borrow")] = TI[("AsRef", "as_ref")]


@M("alloc::borrow::Cow", "deref", "as_ref", "borrow")
def _(I, m, a):
    x = unref(I, a[0])
    y = x.f[0].v
    if type(y) in (Str, str):
        return S(I, y)
    return y if type(y) is Ref else SL(I, y)


@M("alloc::borrow::Cow", "into_owned", "to_mut")
def _(I, m, a):
    x = unref(I, a[0])
    y = x.f[0].v
    if type(y) in (Str, str):
        r = Str(S(I, y))
        if m["item"] == "to_mut":
            x.vi = 1
            x.f[0].v = r
            return Ref(x.f[0])
        return r
    raise Unsupported("Cow::into_owned")


@M("alloc::borrow::Cow", "from")
def _(I, m, a):
    return agg(1 if type(a[0]) is Str else 0, a[0])


def string_ne(I, m, a):
    return int(not veq(I, a[0], a[1]))


@M("core::iter::sources::once::once", "call")
def _(I, m, a):
    raise Unsupported("")


@X("core::iter::sources::once::once")
def _(I, m, a):
    return ListIt([a[0]])


@X("core::iter::sources::empty::empty")
def _(I, m, a):
    return ListIt([])


@X("core::iter::sources::repeat::repeat")
def _(I, m, a):
    return FnIt(lambda: I.clone(a[0]), None, lambda: FnIt(lambda: I.clone(a[0])))


@X("core::iter::sources::repeat_n::repeat_n")
def _(I, m, a):
    return ListIt([I.clone(a[0]) for _ in range(N(I, a[1]))])


@X("core::iter::sources::from_fn::from_fn")
def _(I, m, a):
    def nx():
        r = I.callable(a[0], [])
        return r.f[0].v if r.vi == 1 else STOP
    return FnIt(nx)


@X("core::iter::sources::successors::successors")
def _(I, m, a):
    st = [a[0]]

    def nx():
        o = st[0]
        if o.vi == 0:
            return STOP
        x = o.f[0].v
        st[0] = I.callable(a[1], [Ref(Cell(x))])
        return x
    return FnIt(nx)


@X("core::iter::adapters::zip::zip")
def _(I, m, a):
    return ZipIt(to_it(I, a[0]), to_it(I, a[1]))


@X("core::ptr::eq", "core::ptr::addr_eq")
def _(I, m, a):
    x, y = a
    while type(x) is Ref and type(x.c.v) is Ref:
        x = x.c.v
    while type(y) is Ref and type(y.c.v) is Ref:
        y = y.c.v
    if type(x) in (Ref, BoxV, RcV) and type(y) in (Ref, BoxV, RcV):
        return int(x.c is y.c)
    raise Unsupported("ptr::eq")


@X("core::slice::raw::from_ref")
def _(I, m, a):
    return SliceV([a[0].c])


# Range helpers
@M(["core::ops::range::Range"], "contains")
def _(I, m, a):
    r, x = unref(I, a[0]), unref(I, a[1])
    return int(vcmp(I, r.f[0].v, x) <= 0 and vcmp(I, x, r.f[1].v) < 0)


@M(["core::ops::range::RangeInclusive"], "contains")
def _(I, m, a):
    r, x = unref(I, a[0]), unref(I, a[1])
    return int(vcmp(I, r.f[0].v, x) <= 0 and vcmp(I, x, r.f[1].v) <= 0)


@M(["core::ops::range::RangeInclusive"], "new")
def _(I, m, a):
    t = [i for i in I.db.adt.get("core::ops::range::RangeInclusive", [])]
    return Agg(0, [Cell(a[0]), Cell(a[1]), Cell(0)], t[0] if t else None)


@M(["core::ops::range::Range"], "is_empty")
def _(I, m, a):
    r = unref(I, a[0])
    return int(vcmp(I, r.f[0].v, r.f[1].v) >= 0)


def _hash(I, m, a):
    h = unref(I, a[1])
    if type(h) is HashV:
        hash_into(I, a[0], h)
    return UNIT


TI[("Hash", "hash")] = _hash


def _hwrite(I, m, a):
    h = unref(I, a[0])
    if type(h) is not HashV:
        raise Unsupported("hash value")
    hash_into(I, a[1], h)
    return UNIT


for _w in ("write_u8", "write_u16", "write_u32", "write_u64", "write_u128", "write_usize", "write_i8", "write_i16", "write_i32", "write_i64", "write_i128", "write_isize", "write_str", "write_length_prefix"):
    TI[("Hasher", _w)] = _hwrite
    SI[("std::hash::random::DefaultHasher", _w)] = _hwrite


@M(["std::hash::random::DefaultHasher", "core::hash::sip::Hasher"], "new", "default", "finish", "write")
def _(I, m, a):
    I.event("hash_value", I.where())
    raise Unsupported("hash value")


NATIVE_TRAITS = {"Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "FromIterator",
                 "Clone", "PartialEq", "PartialOrd", "Ord", "Default", "Index", "IndexMut", "ToString",
                 "SpecToString", "ToOwned", "Write", "Display", "Debug", "Casing", "AsDisplay", "AsRef", "Borrow",
                 "Hash"}
# third-party / std aggregates whose trait impls are interpreted from MIR instead
MIR_SELF = {("core::option::Option", "Clone"), ("core::result::Result", "Clone"),
            ("core::option::Option", "Default")}


class Models:
    def __init__(self, ws_crates):
        self.ws_crates = set(ws_crates)
        self.hash_order = "insertion"
        self.overrides = {}

    def lookup(self, m):
        n = m["name"]
        f = self.overrides.get(n)
        if f is not None:
            return f
        f = EX.get(n)
        if f is not None:
            return f
        it = m.get("item")
        s = m.get("self")
        tr = m.get("trait")
        ws = m.get("crate") in self.ws_crates
        if ws and not m.get("provided"):
            return None
        if m.get("shim"):
            return self.shim(m)
        # trait-qualified methods with the same name as an inherent one
        if tr:
            tt = tr.rsplit("::", 1)[-1]
            if s in ("&T", "&mut T") and tt in ("AsRef", "AsMut") and "body" in m:
                return None      # delegates to T's impl, possibly a workspace one
            if (s, tt) in MIR_SELF and "body" in m:
                return None
            if tt in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator"):
                f = TI.get((tt, it))
                if f is not None:
                    return f
            if tt == "Clone" and it == "clone" and s not in (STRING,) and (s, it) not in SI:
                return TI[("Clone", "clone")]
            f = SI.get((s, it)) if not (ws and tt in ("Display",)) else None
            if f is not None and tt not in ("PartialEq", "PartialOrd", "Ord", "IntoIterator", "Index", "IndexMut") or \
                    (f is not None and s in PATH):
                return f
            f = TI.get((tt, it))
            if f is not None:
                return f
        else:
            f = SI.get((s, it))
            if f is not None:
                return f
        if m.get("intrinsic"):
            return INTR.get(it)
        return None

    def shim(self, m):
        k = m["shim"]
        if m.get("item") == "drop_glue" or "Drop" in str(k):
            return EX["core::ptr::drop_in_place"] if m.get("args") else lambda I, mm, a: UNIT
        if m.get("item") == "clone":
            return TI[("Clone", "clone")]
        if m.get("item") in ("call", "call_mut", "call_once"):
            def f(I, mm, a):
                t = mm["args"][0] if mm.get("args") else None
                if isinstance(t, int) and I.db.types[t]["k"] == "closure" and not I.db.types[t].get("ts"):
                    x = unref1(I, a[0]) if a else None
                    if not (type(x) is Agg and x.ty == t):      # called through a function pointer
                        return I.callable(Agg(0, [], t), a)
                return I.callable(a[0], a[1:])
            return f
        return None

    # hooks -------------------------------------------------------------
    def havoc_adt(self, I, ty, t, name):
        n = ty["name"]
        if n == STRING:
            return Str(hole(name))
        if n == "std::path::PathBuf":
            return Str(hole(name, "text"))
        if n == NZ:
            s = I.havoc(ty["args"][0], name)
            a, b = I.sym_range(name)
            I.rng[name] = (max(1, a or 0), b)
            return s
        if n == BOX:
            return BoxV(Cell(Havoc(ty["args"][0], name)))
        if n in RC:
            return RcV(Cell(Havoc(ty["args"][0], name)))
        if n in (VEC, HM, HS, BM, BS, VD):
            raise Unsupported("havoc collection " + name)
        return None

    def decode_adt(self, I, ty, v):
        n = ty["name"] if ty["k"] == "adt" else ""
        if n == STRING:
            return Str("")
        if n in (VEC, VD):
            return VecV()
        if n == NZ:
            x = v[2][0]
            while x[0] == "agg":
                x = x[2][0]
            return x[1]
        if n in ("std::sync::once_lock::OnceLock", "core::cell::once::OnceCell"):
            return agg(0, None)
        return None

    def static(self, I, path):
        return None

    def field(self, I, c, v, i, t):
        return None

    def rawptr(self, I, vals, t):
        return vals[0]

    def build_adt(self, I, t, vi, cells):
        ty = I.db.types[t]
        n = ty.get("name")
        if n == NZ:
            return cells[0].v
        return None

    def discr(self, I, v, ty):
        if type(v) is int:
            return v
        return None

    def strlen(self, I, s):
        return slen(I, s)

    def bytes_of(self, v):
        return BytesV(v if type(v) is str else v.v)

    def transmute(self, I, v, s, d, dt):
        sk, dk = s["k"], d["k"]
        if dk == "array" and sk in ("int", "char", "float") and I.db.types[d["t"]].get("n") == "u8":
            if isinstance(v, float):
                import struct
                return Arr([Cell(b) for b in struct.pack("<f" if s["n"] == "f32" else "<d", v)])
            if type(v) is not int:
                raise Unsupported("bytes of a symbolic number")
            w = INT_W[s["n"]] if sk == "int" else 32
            return Arr([Cell(b) for b in (v & (1 << w) - 1).to_bytes(w // 8, "little")])
        if sk == "array" and dk in ("int", "float") and type(v) is Arr:
            bs = [I.force(c) for c in v.f]
            if not all(type(b) is int and 0 <= b < 256 for b in bs):
                raise Unsupported("number of symbolic bytes")
            if dk == "float":
                import struct
                return struct.unpack("<f" if d["n"] == "f32" else "<d", bytes(bs))[0]
            return wrap(int.from_bytes(bytes(bs), "little"), d["n"])
        if {sk, dk} == {"int", "float"}:
            import struct
            if sk == "float" and isinstance(v, float):
                f = "f" if s["n"] == "f32" else "d"
                return wrap(int.from_bytes(struct.pack("<" + f, v), "little"), d["n"])
            if dk == "float" and type(v) is int:
                n = 4 if d["n"] == "f32" else 8
                return struct.unpack("<f" if n == 4 else "<d", (v & (1 << 8 * n) - 1).to_bytes(n, "little"))[0]
            raise Unsupported("transmute of a symbolic number")
        if sk == "int" and dk == "int" and type(v) is int:
            return wrap(v, d["n"])
        if dk == "adt" and d.get("akind") == "enum" and type(v) is int:
            for i, x in enumerate(d["variants"]):
                if x["d"] == v and not x["fields"]:
                    return Agg(i, [], dt)
            raise Unsupported("transmute to an enum")
        return v

    def virtual(self, I, m, args):
        tr = m["name"].rsplit("::", 2)
        d = unref_soft(I, args[0])
        if m.get("item") in ("call", "call_mut", "call_once"):
            return (I.callable(args[0], args[1:]),)
        if m.get("item") == "write_str" and type(d) in (Str, FmtV):
            return (TI[("Write", "write_str")](I, m, args),)
        return None

    def intrinsic_stmt(self, I, fr, s):
        return None


INTR = {}


def _intr(name):
    def d(f):
        INTR[name] = f
        return f
    return d


@_intr("select_unpredictable")
def _(I, m, a):
    return a[1] if I.decide(a[0]) else a[2]


@_intr("cold_path")
def _(I, m, a):
    return UNIT


@_intr("assert_inhabited")
def _(I, m, a):
    return UNIT


@_intr("is_val_statically_known")
def _(I, m, a):
    return 0


@_intr("unlikely")
def _(I, m, a):
    return a[0]


INTR["likely"] = INTR["unlikely"]


@_intr("assume")
def _(I, m, a):
    return UNIT


@_intr("saturating_add")
def _(I, m, a):
    t = I.db.types[m["args"][0]]["n"]
    w = INT_W[t]
    return min(a[0] + a[1], (1 << w) - 1 if t[0] == "u" else (1 << (w - 1)) - 1)


@_intr("saturating_sub")
def _(I, m, a):
    return max(0, a[0] - a[1])


@_intr("unreachable")
def _(I, m, a):
    I.event("ub", "unreachable", I.where())
    raise RustPanic("unreachable_unchecked", I.where())


@_intr("discriminant_value")
def _(I, m, a):
    c = a[0].c
    return I.discr(c, m["args"][0])


@X("core::hint::unreachable_unchecked")
def _(I, m, a):
    I.event("ub", "unreachable_unchecked", I.where())
    raise RustPanic("unreachable_unchecked", I.where())


from . import stdx  # noqa: E402,F401
