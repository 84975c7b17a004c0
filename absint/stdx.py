"""Further transfer functions of the standard library."""
import math

from .interp import INT_W, float_of, wrap
from .models import *
import re
from .models import _intr, M, X, TR, SI, TI, EX, INTR, BOX, RC, STRS, FMT, PATH, MAPS, SETS, NZ
from .values import *

LLIST = "alloc::collections::linked_list::LinkedList"
HEAP = "alloc::collections::binary_heap::BinaryHeap"


# ---- integers --------------------------------------------------------------
def bits(t, n):
    return n & ((1 << INT_W[t]) - 1)


def ity(I, m):
    t = I.db.types[m["args"][0]]
    if t["k"] != "int":
        raise Unsupported(m["item"])
    return t["n"]


def need(v):
    if type(v) is not int:
        raise Unsupported("bit operation on a symbolic number")
    return v


def bitop(item, f):
    def intr(I, m, a):
        return f(ity(I, m), *[need(x) for x in a])

    def meth(I, m, a):
        return f(m["self"], *[need(unref(I, x)) for x in a])
    return intr, meth


def _rotl(t, n, k):
    w = INT_W[t]
    n = bits(t, n)
    k %= w
    return wrap((n << k | n >> (w - k)) & ((1 << w) - 1), t)


BITS = {
    "leading_zeros": ("ctlz", lambda t, n: INT_W[t] - bits(t, n).bit_length()),
    "trailing_zeros": ("cttz", lambda t, n: (bits(t, n) & -bits(t, n)).bit_length() - 1 if bits(t, n) else INT_W[t]),
    "count_ones": ("ctpop", lambda t, n: bin(bits(t, n)).count("1")),
    "count_zeros": (None, lambda t, n: INT_W[t] - bin(bits(t, n)).count("1")),
    "swap_bytes": ("bswap", lambda t, n: wrap(int.from_bytes(bits(t, n).to_bytes(INT_W[t] // 8, "little"), "big"), t)),
    "reverse_bits": ("bitreverse", lambda t, n: wrap(int(format(bits(t, n), f"0{INT_W[t]}b")[::-1], 2), t)),
    "rotate_left": ("rotate_left", _rotl),
    "rotate_right": ("rotate_right", lambda t, n, k: _rotl(t, n, INT_W[t] - k % INT_W[t])),
    "abs_diff": (None, lambda t, n, k: abs(n - k)),
    "unsigned_abs": (None, lambda t, n: abs(n)),
    "signum": (None, lambda t, n: (n > 0) - (n < 0)),
    "isqrt": (None, lambda t, n: math.isqrt(n)),
    "rem_euclid": (None, lambda t, n, k: n % abs(k)),
    "div_euclid": (None, lambda t, n, k: (n - n % abs(k)) // k),
    "to_be": (None, lambda t, n: wrap(int.from_bytes(bits(t, n).to_bytes(INT_W[t] // 8, "little"), "big"), t)),
    "to_le": (None, lambda t, n: n),
}
INTR_EXTRA = {"ctlz_nonzero": "ctlz", "cttz_nonzero": "cttz"}
for _m, (_i, _f) in BITS.items():
    _a, _b = bitop(_m, _f)
    if _i:
        INTR[_i] = _a
        for _x, _y in INTR_EXTRA.items():
            if _y == _i:
                INTR[_x] = _a
    for _t in INT_W:
        if _m in ("rem_euclid", "div_euclid", "isqrt"):
            def _g(b):
                def f(I, m, a):
                    if len(a) > 1 and a[1] == 0:
                        raise RustPanic("division by zero", I.where())
                    if len(a) == 1 and type(a[0]) is int and a[0] < 0:
                        raise RustPanic("isqrt of a negative number", I.where())
                    return b(I, m, a)
                return f
            SI[(_t, _m)] = _g(_b)
        else:
            SI.setdefault((_t, _m), _b)


def _wrapping(op):
    def f(I, m, a):
        t = ity(I, m)
        x, y = a
        if type(x) is int and type(y) is int:
            return wrap({"add": x + y, "sub": x - y, "mul": x * y}[op], t)
        r = ladd(x, y) if op == "add" else ladd(x, y, -1) if op == "sub" else lmul(x, y)
        w = INT_W[t]
        mx = (1 << w) - 1 if t[0] == "u" else (1 << (w - 1)) - 1
        mn = 0 if t[0] == "u" else -(1 << (w - 1))
        if I.decide(I.cmp_int("Gt", r, mx)) or I.decide(I.cmp_int("Lt", r, mn)):
            raise Unsupported("symbolic wrapping overflow")
        return r
    return f


for _o in ("add", "sub", "mul"):
    INTR["wrapping_" + _o] = _wrapping(_o)


@_intr("three_way_compare")
def _(I, m, a):
    return ORD(vcmp(I, a[0], a[1]))


@_intr("exact_div")
def _(I, m, a):
    return need(a[0]) // need(a[1])


@_intr("size_of_val")
def _(I, m, a):
    t = I.db.types[m["args"][0]]
    if "size" not in t:
        raise Unsupported("size_of_val")
    return t["size"]


INTR["align_of_val"] = lambda I, m, a: I.db.types[m["args"][0]]["align"]
INTR["needs_drop"] = lambda I, m, a: 0


for _t in INT_W:
    def _nb(I, v, t):
        if type(v) is not int:
            raise Unsupported("bytes of a symbolic number")
        return bits(t, v).to_bytes(INT_W[t] // 8, "little")

    @M(_t, "to_le_bytes", "to_ne_bytes", "to_be_bytes")
    def _(I, m, a):
        b = _nb(I, unref(I, a[0]), m["self"])
        return Arr([Cell(x) for x in (b[::-1] if m["item"] == "to_be_bytes" else b)])

    @M(_t, "from_le_bytes", "from_ne_bytes", "from_be_bytes")
    def _(I, m, a):
        b = bytes(need(I.force(c)) for c in unref(I, a[0]).f)
        return wrap(int.from_bytes(b, "big" if m["item"] == "from_be_bytes" else "little"), m["self"])

    @M(_t, "ilog2", "ilog10", "checked_ilog2", "checked_ilog10")
    def _(I, m, a):
        n = need(a[0])
        ck = m["item"].startswith("checked")
        if n <= 0:
            if ck:
                return NONE()
            raise RustPanic("argument of integer logarithm must be positive", I.where())
        r = n.bit_length() - 1 if m["item"].endswith("2") else len(str(n)) - 1
        return SOME(r) if ck else r

    @M(_t, "checked_next_multiple_of")
    def _(I, m, a):
        n, d = need(a[0]), need(a[1])
        if d == 0:
            return NONE()
        r = -(-n // d) * d
        return SOME(r) if r < 1 << INT_W[m["self"]] else NONE()

    @M(_t, "checked_neg", "wrapping_neg")
    def _(I, m, a):
        r = -need(a[0])
        ok = in_range(r, m["self"])
        if m["item"] == "wrapping_neg":
            return wrap(r, m["self"])
        return SOME(r) if ok else NONE()

    @M(_t, "abs", "checked_abs", "wrapping_abs", "saturating_abs")
    def _(I, m, a):
        r = abs(need(unref(I, a[0])))
        ok = in_range(r, m["self"])
        k = m["item"]
        if k == "checked_abs":
            return SOME(r) if ok else NONE()
        if not ok:
            if k == "saturating_abs":
                return r - 1
            if k == "abs" and I.db.overflow_checks:
                raise RustPanic("overflow:Neg", I.where())
            return wrap(r, m["self"])
        return r

    @M(_t, "pow")
    def _(I, m, a):
        r = N(I, a[0]) ** N(I, a[1])
        if not in_range(r, m["self"]):
            if not I.db.overflow_checks:
                return wrap(r, m["self"])
            raise RustPanic("overflow:Mul", I.where())
        return r

    @M(_t, "next_power_of_two", "checked_next_power_of_two")
    def _(I, m, a):
        n = need(a[0])
        r = 1 if n <= 1 else 1 << (n - 1).bit_length()
        if m["item"][0] == "c":
            return SOME(r) if in_range(r, m["self"]) else NONE()
        if not in_range(r, m["self"]):
            if I.db.overflow_checks:
                raise RustPanic("overflow:Add", I.where())
            return 0
        return r

    @M(_t, "next_multiple_of")
    def _(I, m, a):
        n, d = N(I, a[0]), N(I, a[1])
        if d == 0:
            raise RustPanic("attempt to calculate the remainder with a divisor of zero", I.where())
        r = -(-n // d) * d
        if not in_range(r, m["self"]):
            if I.db.overflow_checks:
                raise RustPanic("overflow:Add", I.where())
            return wrap(r, m["self"])
        return r

    @M(_t, "div_ceil")
    def _(I, m, a):
        n, d = N(I, a[0]), N(I, a[1])
        if d == 0:
            raise RustPanic("attempt to divide by zero", I.where())
        return -(-n // d)


@M(NZ, "checked_add", "checked_mul", "saturating_add", "saturating_mul", "checked_pow")
def _(I, m, a):
    t = I.db.types[m["args"][0]].get("n") if m.get("args") and isinstance(m["args"][0], int) else None
    if t not in INT_W:
        q = re.search(r"NonZero<(\w+)>|NonZero::<(\w+)>", m.get("disp", "") or "")
        t = q and (q.group(1) or q.group(2))
    if t not in INT_W:
        raise Unsupported("NonZero arithmetic")
    x, y = need(unref(I, a[0])), need(unref(I, a[1]))
    op = m["item"].split("_")[1]
    r = x + y if op == "add" else x * y if op == "mul" else x ** y
    if not in_range(r, t):
        return NONE() if m["item"].startswith("checked") else wrap(-1, t) if t[0] == "u" else (1 << INT_W[t] - 1) - 1
    return SOME(r) if m["item"].startswith("checked") else r


# ---- floats ----------------------------------------------------------------
def fl(v):
    if not isinstance(v, float):
        raise Unsupported("operation on an unknown float")
    return v


def _round(x):
    return math.copysign(math.floor(abs(x) + 0.5) if abs(x) < 2 ** 52 else abs(x), x)


def _keep(f):
    return lambda x: x if math.isinf(x) or math.isnan(x) else math.copysign(float(f(x)), x)


FLO = {"floor": _keep(math.floor), "ceil": _keep(math.ceil), "trunc": _keep(math.trunc), "round": _keep(_round), "abs": abs,
       "sqrt": lambda x: math.sqrt(x) if x >= 0 else math.nan,
       "fract": lambda x: x - math.trunc(x)}
for _t in ("f32", "f64"):
    for _n, _f in FLO.items():
        SI[(_t, _n)] = (lambda f: lambda I, m, a: float_of(f(fl(a[0])), m["self"]))(_f)
        INTR[{"abs": "fabs"}.get(_n, _n) + _t] = (lambda f, t: lambda I, m, a: float_of(f(fl(a[0])), t))(_f, _t)

    @M(_t, "powi")
    def _(I, m, a):
        return float_of(float(fl(a[0]) ** need(a[1])), m["self"])

    @M(_t, "max", "min")
    def _(I, m, a):
        x, y = fl(a[0]), fl(a[1])
        if math.isnan(x) or math.isnan(y):
            return y if math.isnan(x) else x
        return max(x, y) if m["item"] == "max" else min(x, y)

    @M(_t, "to_bits")
    def _(I, m, a):
        import struct
        f = "f" if m["self"] == "f32" else "d"
        return int.from_bytes(struct.pack("<" + f, fl(a[0])), "little")

    @M(_t, "from_bits")
    def _(I, m, a):
        import struct
        return struct.unpack("<f" if m["self"] == "f32" else "<d", need(a[0]).to_bytes(4 if m["self"] == "f32" else 8, "little"))[0]

    @M(_t, "total_cmp")
    def _(I, m, a):
        x, y = fl(unref(I, a[0])), fl(unref(I, a[1]))
        if math.isnan(x) or math.isnan(y) or x == y == 0:
            raise Unsupported("total_cmp")
        return ORD((x > y) - (x < y))

    @M(_t, "is_sign_negative", "is_sign_positive")
    def _(I, m, a):
        n = math.copysign(1, fl(a[0])) < 0
        return int(n == (m["item"] == "is_sign_negative"))


# ---- text ------------------------------------------------------------------
@M(STRS, "make_ascii_lowercase", "make_ascii_uppercase")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) is not Str or has_hole(v.v):
        raise Unsupported(m["item"])
    f = str.lower if m["item"].endswith("lowercase") else str.upper
    v.v = "".join(f(c) if ord(c) < 128 else c for c in v.v)
    return UNIT


@M(STRING, "deref_mut", "as_mut_str", "as_mut")
def _(I, m, a):
    v = a[0]
    while type(v) is Ref and type(v.c.v) is Ref:
        v = v.c.v
    return v


@M(STRING, "split_off")
def _(I, m, a):
    v = unref(I, a[0])
    i = sidx(I, v.v, a[1])
    o = v.v[i:]
    v.v = v.v[:i]
    return Str(o)


def bytes_text(I, v):
    """the text of bytes; undecodable ones become lone surrogates, as in a file"""
    x = unref(I, v)
    if type(x) in (SliceV, VecV, Arr):
        l = [I.force(c) for c in (x.cells() if type(x) is SliceV else x.f)]
        if not all(type(b) is int for b in l):
            raise Unsupported("bytes as text")
        return bytes(l).decode("utf-8", "surrogateescape")
    return S(I, x)


@M(STRING, "from_utf8")
def _(I, m, a):
    s = bytes_text(I, a[0])
    return ERR(Opq("FromUtf8Error")) if bad_utf8(s) else OK(Str(s))


@X("core::str::converts::from_utf8")
def _(I, m, a):
    s = bytes_text(I, a[0])
    return ERR(Opq("Utf8Error")) if bad_utf8(s) else OK(s)


@M(STRING, "from_utf8_lossy")
def _(I, m, a):
    return agg(0, bytes_text(I, a[0]).encode("utf-8", "surrogateescape").decode("utf-8", "replace"))


def esc_default(c):
    o = ord(c)
    if c in "\t\r\n'\"\\":
        return {"\t": "\\t", "\r": "\\r", "\n": "\\n"}.get(c) or "\\" + c
    return c if 0x20 <= o < 0x7f else "\\u{%x}" % o


@M("char", "escape_default", "escape_debug", "escape_unicode")
def _(I, m, a):
    c = chr(need(unref(I, a[0])))
    if is_hole(c):
        raise Unsupported("escape of opaque text")
    if m["item"] == "escape_unicode":
        return ListIt([ord(x) for x in "\\u{%x}" % ord(c)])
    if m["item"] == "escape_default":
        return ListIt([ord(x) for x in esc_default(c)])
    if ord(c) > 126:
        raise Unsupported("escape_debug")
    return ListIt([ord(x) for x in ("\\0" if c == "\0" else esc_default(c))])


@M(STRS, "escape_default", "escape_debug", "escape_unicode")
def _(I, m, a):
    s = S(I, a[0])
    if has_hole(s) or m["item"] == "escape_debug" and any(ord(c) > 126 for c in s):
        raise Unsupported("escape of opaque text")
    if m["item"] == "escape_unicode":
        t = "".join("\\u{%x}" % ord(c) for c in s)
    elif m["item"] == "escape_default":
        t = "".join(map(esc_default, s))
    else:
        t = "".join("\\0" if c == "\0" else esc_default(c) for c in s)
    return ListIt([ord(x) for x in t])


ESC = ["core::char::EscapeDefault", "core::char::EscapeDebug", "core::char::EscapeUnicode", "core::str::iter::EscapeDefault",
       "core::str::iter::EscapeDebug", "core::str::iter::EscapeUnicode", "core::char::ToUppercase", "core::char::ToLowercase"]


@M(ESC, "to_string", "spec_to_string")
def _(I, m, a):
    it = unref(I, a[0])
    if not isinstance(it, ListIt):
        raise Unsupported(m["item"])
    return Str("".join(chr(x) if type(x) is int else x for x in it.copy_it().all()))


@M(ESC, "fmt")
def _(I, m, a):
    it = unref(I, a[0])
    if not isinstance(it, ListIt):
        raise Unsupported("fmt of an escape")
    FV(I, a[1]).out.append("".join(chr(x) if type(x) is int else x for x in it.copy_it().all()))
    return OK(UNIT)


@M("std::ffi::os_str::OsStr", "to_ascii_lowercase", "to_ascii_uppercase")
def _(I, m, a):
    s = S(I, a[0])
    if has_hole(s):
        raise Unsupported(m["item"])
    f = str.lower if m["item"].endswith("lowercase") else str.upper
    return Str("".join(f(c) if ord(c) < 128 else c for c in s))


@M("std::ffi::os_str::OsStr", "eq_ignore_ascii_case")
def _(I, m, a):
    x, y = S(I, a[0]), S(I, a[1])
    if has_hole(x) or has_hole(y):
        raise Unsupported(m["item"])
    return int(x.lower() == y.lower())


# ---- vectors and slices ------------------------------------------------------
@M([VEC, VD], "splice")
def _(I, m, a):
    l = L(I, a[0])
    lo, hi = rng(I, a[1], len(l))
    out = [c.v for c in l[lo:hi]]
    l[lo:hi] = [Cell(x) for x in to_it(I, a[2]).all()]
    return ListIt(out)


SLICE = "[T]"


def bsearch(I, m, a, f):
    """the standard library's search: any matching position for equal elements, so only unique matches are decided"""
    cs = SL(I, a[0]).cells()
    rs = [f(c) for c in cs]
    if any(x > y for x, y in zip(rs, rs[1:])):
        raise Unsupported("binary search of an unsorted slice")
    eq = [i for i, r in enumerate(rs) if r == 0]
    if len(eq) > 1:
        raise Unsupported("binary search with several matches")
    return OK(eq[0]) if eq else ERR(sum(r < 0 for r in rs))


@M([SLICE, VEC, VD], "binary_search")
def _(I, m, a):
    return bsearch(I, m, a, lambda c: vcmp(I, I.force(c), a[1]))


@M([SLICE, VEC, VD], "binary_search_by")
def _(I, m, a):
    return bsearch(I, m, a, lambda c: ord_of(I.callable(a[1], [Ref(c)])))


@M([SLICE, VEC, VD], "binary_search_by_key")
def _(I, m, a):
    return bsearch(I, m, a, lambda c: vcmp(I, I.callable(a[2], [Ref(c)]), a[1]))


@M([SLICE, VEC, VD], "partition_point")
def _(I, m, a):
    rs = [bool(I.decide(I.callable(a[1], [Ref(c)]))) for c in SL(I, a[0]).cells()]
    if rs != sorted(rs, reverse=True):
        raise Unsupported("partition_point of an unpartitioned slice")
    return sum(rs)


def sub(s, a, b):
    return SliceV(s.l, s.a + a, b - a)


@M(SLICE, "rchunks")
def _(I, m, a):
    s, k = SL(I, a[0]), N(I, a[1])
    if k == 0:
        raise RustPanic("chunk size must be non-zero", I.where())
    return ListIt([sub(s, max(0, e - k), e) for e in range(s.n, 0, -k)])


def _splits(I, a, incl):
    s = SL(I, a[0])
    out, b = [], 0
    for i, c in enumerate(s.cells()):
        if I.decide(I.callable(a[1], [Ref(c)])):
            out.append(sub(s, b, i + 1 if incl else i))
            b = i + 1
    if not incl or b < s.n:
        out.append(sub(s, b, s.n))
    return out


@M(SLICE, "split", "split_mut")
def _(I, m, a):
    return ListIt(_splits(I, a, False))


@M(SLICE, "split_inclusive")
def _(I, m, a):
    return ListIt(_splits(I, a, True))


@M(SLICE, "chunk_by")
def _(I, m, a):
    s = SL(I, a[0])
    cs = s.cells()
    out, b = [], 0
    for i in range(1, len(cs)):
        if not I.decide(I.callable(a[1], [Ref(cs[i - 1]), Ref(cs[i])])):
            out.append(sub(s, b, i))
            b = i
    if cs:
        out.append(sub(s, b, len(cs)))
    return ListIt(out)


@M(SLICE, "copy_within")
def _(I, m, a):
    s = SL(I, a[0])
    lo, hi = rng(I, a[1], s.n)
    d = N(I, a[2])
    if d > s.n - (hi - lo):
        raise RustPanic("dest is out of bounds", I.where())
    vs = [I.force(c) for c in s.cells()[lo:hi]]
    for c, x in zip(s.cells()[d:], vs):
        c.v = I.copyval(x)
    return UNIT


@M(SLICE, "is_sorted")
def _(I, m, a):
    x = [I.force(c) for c in SL(I, a[0]).cells()]
    return int(all(vcmp(I, p, q) <= 0 for p, q in zip(x, x[1:])))


@M(SLICE, "is_sorted_by_key")
def _(I, m, a):
    x = [I.callable(a[1], [Ref(c)]) for c in SL(I, a[0]).cells()]
    return int(all(vcmp(I, p, q) <= 0 for p, q in zip(x, x[1:])))


@M(SLICE, "get_unchecked", "get_unchecked_mut")
def _(I, m, a):
    cs = SL(I, a[0]).cells()
    if type(a[1]) is not int:
        raise Unsupported(m["item"])
    if a[1] >= len(cs):
        I.event("ub", "get_unchecked out of bounds", I.where())
        raise RustPanic("get_unchecked out of bounds", I.where())
    return Ref(cs[a[1]])


@M("[T; N]", "try_from")
def _(I, m, a):
    v = unref(I, a[0])
    b = m.get("body")
    k = I.db.types[b["locals"][0]] if b else {}
    n = I.db.types[k["args"][0]] if k.get("args") else {}
    while n.get("k") in ("ref", "ptr"):
        n = I.db.types[n["t"]]
    l = v.cells() if type(v) is SliceV else getattr(v, "f", None)
    if n.get("k") != "array" or l is None:
        raise Unsupported("array conversion")
    if n["len"] != len(l):
        return ERR(a[0] if type(a[0]) is VecV else UNIT)
    if I.db.types[k["args"][0]]["k"] == "ref":
        return OK(Ref(Cell(Arr(list(l)))))
    return OK(Arr([Cell(I.copyval(I.force(c))) for c in l]))


@X("core::array::from_fn")
def _(I, m, a):
    n = None
    for t in m.get("args") or ():
        if isinstance(t, int) and I.db.types[t]["k"] == "array":
            n = I.db.types[t]["len"]
    b = m.get("body")
    if n is None and b:
        k = I.db.types[b["locals"][0]]
        n = k.get("len") if k["k"] == "array" else None
    if not isinstance(n, int):
        raise Unsupported("array::from_fn")
    return Arr([Cell(I.callable(a[0], [i])) for i in range(n)])


@X("core::iter::sources::repeat_with::repeat_with")
def _(I, m, a):
    return FnIt(lambda: I.callable(a[0], []))


@M("core::result::Result", "iter", "iter_mut")
def _(I, m, a):
    v = I.force(a[0].c)
    return ListIt([Ref(v.f[0])] if v.vi == 0 else [])


# ---- maps --------------------------------------------------------------------
def skeys(I, mv, what):
    if mv.kind not in ("btree", "btreeset"):
        raise Unsupported(what)
    return map_items(I, mv, what)


def drop_e(mv, e):
    mv.d = [x for x in mv.d if x[0] is not e[0] or x[1] is not e[1]]


@M(MAPS, "remove_entry")
def _(I, m, a):
    mv = MP(I, a[0])
    e = map_find(I, mv, a[1])
    if e is None:
        return NONE()
    drop_e(mv, e)
    return SOME(agg(0, e[0], e[1].v))


@M([BM], "first_key_value", "last_key_value")
def _(I, m, a):
    es = skeys(I, MP(I, a[0]), m["item"])
    if not es:
        return NONE()
    e = es[0 if m["item"][0] == "f" else -1]
    return SOME(agg(0, Ref(Cell(e[0])), Ref(e[1])))


@M([BM], "pop_first", "pop_last")
def _(I, m, a):
    mv = MP(I, a[0])
    es = skeys(I, mv, m["item"])
    if not es:
        return NONE()
    e = es[0 if m["item"] == "pop_first" else -1]
    drop_e(mv, e)
    return SOME(agg(0, e[0], e[1].v))


@M([BS], "first", "last")
def _(I, m, a):
    es = skeys(I, MP(I, a[0]), m["item"])
    return SOME(Ref(Cell(es[0 if m["item"] == "first" else -1][0]))) if es else NONE()


@M([BS], "pop_first", "pop_last")
def _(I, m, a):
    mv = MP(I, a[0])
    es = skeys(I, mv, m["item"])
    if not es:
        return NONE()
    e = es[0 if m["item"] == "pop_first" else -1]
    drop_e(mv, e)
    return SOME(e[0])


def in_bounds(I, r, x):
    n = tyname(I, r) if type(r) is Agg else ""
    if n == "core::ops::range::RangeFull":
        return True
    f = [c.v for c in r.f]
    if n == "core::ops::range::RangeFrom":
        return vcmp(I, x, f[0]) >= 0
    if n == "core::ops::range::RangeTo":
        return vcmp(I, x, f[0]) < 0
    if n == "core::ops::range::RangeToInclusive":
        return vcmp(I, x, f[0]) <= 0
    if n == "core::ops::range::Range":
        return vcmp(I, x, f[0]) >= 0 and vcmp(I, x, f[1]) < 0
    if n == "core::ops::range::RangeInclusive":
        return vcmp(I, x, f[0]) >= 0 and vcmp(I, x, f[1]) <= 0
    raise Unsupported("range of a map")


@M([BM], "range", "range_mut")
def _(I, m, a):
    return ListIt([agg(0, Ref(Cell(e[0])), Ref(e[1])) for e in skeys(I, MP(I, a[0]), "range") if in_bounds(I, a[1], e[0])])


@M([BS], "range")
def _(I, m, a):
    return ListIt([Ref(Cell(e[0])) for e in skeys(I, MP(I, a[0]), "range") if in_bounds(I, a[1], e[0])])


@M([BS, HS], "symmetric_difference")
def _(I, m, a):
    x, y = MP(I, a[0]), MP(I, a[1])
    es = [e for e in map_items(I, x, "difference") if map_find(I, y, e[0]) is None] + \
        [e for e in map_items(I, y, "difference") if map_find(I, x, e[0]) is None]
    if x.kind == "btreeset":
        q = MapV("btreeset")
        q.d = es
        es = map_items(I, q, "difference")
    return ListIt([Ref(Cell(e[0])) for e in es])


@M(MAPS + SETS, "append")
def _(I, m, a):
    x, y = MP(I, a[0]), MP(I, a[1])
    for k, c in y.d:
        e = map_find(I, x, k)
        if e is None:
            x.d.append((k, c))
        else:
            e[1].v = c.v
    y.d = []
    return UNIT


OENT = ["std::collections::hash::map::OccupiedEntry", "alloc::collections::btree::map::entry::OccupiedEntry"]


@M(OENT, "remove", "remove_entry")
def _(I, m, a):
    e = a[0]
    if not hasattr(e, "e") or not hasattr(e, "mv"):
        raise Unsupported("OccupiedEntry::remove")
    drop_e(e.mv, e.e)
    return e.e[1].v if m["item"] == "remove" else agg(0, e.e[0], e.e[1].v)


# ---- BinaryHeap, LinkedList ----------------------------------------------------
class HeapV:
    def __init__(self, f=None):
        self.f = f or []

    def copy_it(self):
        return HeapV(list(self.f))


def HP(I, v):
    v = unref(I, v)
    if type(v) is not HeapV:
        raise Unsupported("heap")
    return v


def hmax(I, h):
    b = 0
    for i in range(1, len(h.f)):
        r = vcmp(I, h.f[i].v, h.f[b].v)
        if r > 0:
            b = i
    return b


@M(HEAP, "new", "with_capacity", "default")
def _(I, m, a):
    return HeapV()


@M(HEAP, "push")
def _(I, m, a):
    HP(I, a[0]).f.append(Cell(a[1]))
    return UNIT


@M(HEAP, "pop")
def _(I, m, a):
    h = HP(I, a[0])
    return SOME(h.f.pop(hmax(I, h)).v) if h.f else NONE()


@M(HEAP, "peek")
def _(I, m, a):
    h = HP(I, a[0])
    return SOME(Ref(h.f[hmax(I, h)])) if h.f else NONE()


@M(HEAP, "len")
def _(I, m, a):
    return len(HP(I, a[0]).f)


@M(HEAP, "is_empty")
def _(I, m, a):
    return int(not HP(I, a[0]).f)


@M(HEAP, "clear")
def _(I, m, a):
    HP(I, a[0]).f = []
    return UNIT


@M(HEAP, "from", "from_iter")
def _(I, m, a):
    return HeapV([Cell(x) for x in to_it(I, a[0]).all()])


@M(HEAP, "extend")
def _(I, m, a):
    HP(I, a[0]).f.extend(Cell(x) for x in to_it(I, a[1]).all())
    return UNIT


@M(HEAP, "into_sorted_vec")
def _(I, m, a):
    h = HP(I, a[0])
    out = []
    while h.f:
        out.append(h.f.pop(hmax(I, h)))
    return VecV(out[::-1])


for (_s, _i), _f in list(SI.items()):
    if _s == VD and (LLIST, _i) not in SI:
        SI[(LLIST, _i)] = _f


# ---- cells, locks, once -----------------------------------------------------------
@M("core::cell::RefCell", "try_borrow", "try_borrow_mut")
def _(I, m, a):
    # the models do not track outstanding borrows
    raise Unsupported(m["item"])


RW = "std::sync::poison::rwlock::RwLock"
MUTEX = "std::sync::poison::mutex::Mutex"


@M(RW, "new")
def _(I, m, a):
    return agg(0, a[0])


@M(RW, "read", "write")
def _(I, m, a):
    return OK(Ref(inner(I, a[0])))


@M([RW, MUTEX], "into_inner")
def _(I, m, a):
    return OK(a[0].f[0].v)


@M([RW, MUTEX], "get_mut")
def _(I, m, a):
    return OK(Ref(inner(I, a[0])))


@M(["std::sync::poison::rwlock::RwLockReadGuard", "std::sync::poison::rwlock::RwLockWriteGuard"], "deref", "deref_mut")
def _(I, m, a):
    v = a[0]
    x = I.force(v.c)
    return x if type(x) is Ref else v


for _o in ("std::sync::once_lock::OnceLock", "core::cell::once::OnceCell"):
    @M(_o, "set")
    def _(I, m, a):
        c = a[0].c
        v = c.v
        if type(v) is Agg and v.f and v.f[0].v is not None:
            return ERR(a[1])
        c.v = agg(0, a[1])
        return OK(UNIT)

    @M(_o, "into_inner", "take")
    def _(I, m, a):
        v = a[0] if m["item"] == "into_inner" else a[0].c.v
        if type(v) is not Agg or not v.f or v.f[0].v is None:
            return NONE()
        x = v.f[0].v
        if m["item"] == "take":
            a[0].c.v = agg(0, None)
        return SOME(x)


@M(RC, "get_mut", "strong_count", "weak_count", "try_unwrap", "into_inner", "unwrap_or_clone", "downgrade")
def _(I, m, a):
    raise Unsupported("Rc::" + m["item"])


# ---- input / output ----------------------------------------------------------------
def lines_of(I, v):
    e, t = read_all(I, v, True)
    if e is not None:
        return ListIt([e])
    ls = t.split("\n")
    if ls[-1] == "":
        ls.pop()
    if any(has_hole(l) and any(is_hole(c) and hole_info(c)[1] == "text" for c in l) for l in ls):
        raise Unsupported("lines of opaque text")
    return ListIt([OK(Str(l[:-1] if l.endswith("\r") else l)) for l in ls])


@TR("BufRead", "lines")
def _(I, m, a):
    return lines_of(I, a[0])


@TR("BufRead", "read_line")
def _(I, m, a):
    v = unref(I, a[0])
    while type(v) is Agg and v.f:
        v = unref(I, v.f[0].v)
    if not hasattr(v, "pos"):
        raise Unsupported("read_line")
    p = v.pos
    e, t = read_all(I, a[0], True)
    if e is not None:
        return e
    i = t.find("\n")
    l = t if i < 0 else t[:i + 1]
    v.pos = p + len(l)
    unref(I, a[1]).v += l
    return OK(slen(I, l))


# ---- time ----------------------------------------------------------------------------
@M("core::time::Duration", "as_millis", "as_secs", "as_micros", "as_nanos", "as_secs_f32", "as_secs_f64", "subsec_millis",
   "subsec_nanos", "subsec_micros")
def _(I, m, a):
    v = unref(I, a[0])
    if isinstance(v, Opq):
        if "_f" in m["item"]:
            return Opq("duration " + m["item"])
        return I.havoc_num(m["item"]) if hasattr(I, "havoc_num") else Opq("duration " + m["item"])
    raise Unsupported("duration")


@M(ENT_T := ["std::collections::hash::map::Entry", "alloc::collections::btree::map::entry::Entry"], "or_insert_with_key")
def _(I, m, a):
    e = ent(a[0])
    return Ref(e.cell(lambda: I.callable(a[1], [Ref(Cell(e.k))])))


@M(["std::io::error::Error", "core::io::error::Error", "alloc::io::error::Error"], "kind")
def _(I, m, a):
    v = unref(I, a[0])
    ts = [t for n in ("std::io::error::ErrorKind", "core::io::error::ErrorKind", "alloc::io::error::ErrorKind") for t in I.db.adt.get(n, [])]
    if isinstance(v, IoErr) and v.what == "not found" and ts:
        vs = [x["name"] for x in I.db.types[ts[0]]["variants"]]
        return Agg(vs.index("NotFound"), [], ts[0])
    raise Unsupported("kind of an io::Error")


ATOMIC = "core::sync::atomic::Atomic"


def acell(I, v):
    x = unref1(I, v)
    if type(x) is not Agg or not x.f:
        raise Unsupported("atomic")
    c = x.f[0]
    while type(c.v) is Agg and len(c.v.f) == 1:
        c = c.v.f[0]
    return c


@M(ATOMIC, "load", "get_mut", "into_inner")
def _(I, m, a):
    if m["item"] == "into_inner":
        return acell(I, Ref(Cell(a[0]))).v
    c = acell(I, a[0])
    return Ref(c) if m["item"] == "get_mut" else I.copyval(c.v)


@M(ATOMIC, "store")
def _(I, m, a):
    acell(I, a[0]).v = a[1]
    return UNIT


@M(ATOMIC, "swap")
def _(I, m, a):
    c = acell(I, a[0])
    o, c.v = c.v, a[1]
    return o


@M(ATOMIC, "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min")
def _(I, m, a):
    c = acell(I, a[0])
    x, y = need(c.v), need(a[1])
    op = m["item"][6:]
    t = I.db.types[m["args"][0]].get("n") if m.get("args") else None
    r = {"add": x + y, "sub": x - y, "or": x | y, "and": x & y, "xor": x ^ y, "max": max(x, y), "min": min(x, y)}[op]
    c.v = wrap(r, t) if t in INT_W else r
    return x


@M(ATOMIC, "compare_exchange", "compare_exchange_weak")
def _(I, m, a):
    c = acell(I, a[0])
    o = c.v
    if veq(I, o, a[1]):
        c.v = a[2]
        return OK(o)
    return ERR(o)



class MetaV:
    def __init__(self, kind, size):
        self.kind, self.size = kind, size


@X("std::fs::metadata", "std::fs::symlink_metadata")
def _(I, m, a):
    f = fs(I)
    if m["name"].endswith("symlink_metadata"):
        raise Unsupported("symlink_metadata")
    r = f.resolve(S(I, a[0]))
    if r is None:
        return io_err(I, "not found")
    return OK(MetaV("dir" if r in f.dirs else "file", slen(I, f.files[r]) if r in f.files else None))


SI[("std::path::Path", "metadata")] = EX["std::fs::metadata"]


@M("std::fs::Metadata", "is_file", "is_dir", "is_symlink", "len")
def _(I, m, a):
    v = unref(I, a[0])
    if type(v) is not MetaV:
        raise Unsupported("metadata")
    if m["item"] == "len":
        if v.size is None:
            raise Unsupported("size of a directory")
        return v.size
    return int(m["item"] == "is_" + v.kind)


@M("std::fs::File", "metadata")
def _(I, m, a):
    v = unref(I, a[0])
    f = fs(I)
    r = f.resolve(v.path)
    if r is None or r not in f.files:
        raise Unsupported("metadata of a file")
    return OK(MetaV("file", slen(I, f.files[r])))
