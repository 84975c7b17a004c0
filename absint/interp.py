"""Abstract interpreter over the MIR database."""
import sys
import threading

from .values import *

sys.setrecursionlimit(100000)
sys.set_int_max_str_digits(0)
threading.stack_size(512 * 1024 * 1024)

INT_W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
         "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def float_of(v, n):
    """nearest f32 or f64 of an integer or double, ties to even"""
    import math
    import struct
    if n == "f64":
        try:
            return float(v)
        except OverflowError:
            return math.inf if v > 0 else -math.inf
    if isinstance(v, float):
        try:
            return struct.unpack("f", struct.pack("f", v))[0]
        except OverflowError:
            return math.copysign(math.inf, v)
    m = abs(v)
    sh = max(0, m.bit_length() - 24)
    q, r = m >> sh, m & ((1 << sh) - 1)
    h = 1 << sh >> 1
    if sh and (r > h or r == h and q & 1):
        q += 1
    x = q << sh
    f = math.inf if x >= 1 << 128 else float(x)
    return -f if v < 0 else f


def wrap(n, ty):
    w = INT_W[ty]
    n &= (1 << w) - 1
    if ty[0] == "i" and n >> (w - 1):
        n -= 1 << w
    return n


def in_range(n, ty):
    w = INT_W[ty]
    if ty[0] == "i":
        return -(1 << (w - 1)) <= n < (1 << (w - 1))
    return 0 <= n < (1 << w)


class Explorer:
    """Enumerates the choice sequences of an abstract run (trace partitioning by replay)."""

    def __init__(self, limit=4096):
        self.prefix = []
        self.pos = 0
        self.trace = []
        self.limit = limit
        self.runs = 0

    def choose(self, n, label):
        if self.pos < len(self.trace):
            c, m, l = self.trace[self.pos]
            self.pos += 1
            return c
        self.trace.append((0, n, label))
        self.pos += 1
        return 0

    def reset(self):
        self.pos = 0

    def advance(self):
        while self.trace:
            c, n, l = self.trace[-1]
            if c + 1 < n:
                self.trace[-1] = (c + 1, n, l)
                return True
            self.trace.pop()
        return False


class Interp:
    def __init__(self, db, models, step_limit=20_000_000):
        self.db = db
        self.models = models
        self.ex = None
        self.step_limit = step_limit
        self.visited = set()       # keys of repo functions interpreted (all runs)
        self.sites = None          # (body, block) of calls and assertions passed, when recorded
        self.calls = None          # bodies of the compiler entered before and from lowering on, when counted
        self.late = 0
        self.opaque_stub = {}      # fn name -> callable override
        self.reset_run()

    # ---- run management -------------------------------------------------
    def reset_run(self):
        self.steps = 0
        self.events = []
        self.facts = {}
        self.rng = {}
        self.cond = []
        self.statics = {}
        self.stack = []
        self.io_n = 0
        self.io_pending = False

    def explore(self, fn, limit=2000):
        """Runs fn() for every choice sequence. Yields dicts."""
        ex = self.ex = Explorer()
        out = []
        while True:
            ex.reset()
            self.reset_run()
            r = {"ok": None, "panic": None, "exit": None, "unsupported": None}
            skip = False
            try:
                r["ok"] = fn()
                r["kind"] = "ok"
            except RustPanic as e:
                r["kind"] = "panic"
                r["panic"] = e.msg
                r["where"] = e.where
                r["stk"] = getattr(e, "stk", [])
            except RustExit as e:
                r["kind"] = "exit"
                r["exit"] = e.code
            except Infeasible:
                skip = True
            except Unsupported as e:
                r["kind"] = "unsupported"
                r["unsupported"] = str(e) + " @ " + " < ".join(reversed(getattr(e, "stk", [])[-6:]))
            r["cond"] = list(self.cond)
            r["events"] = list(self.events)
            r["steps"] = self.steps
            if not skip:
                out.append(r)
            if len(out) >= limit:
                raise Unsupported(f"more than {limit} abstract traces")
            if not ex.advance():
                break
        self.ex = None
        return out

    def run1(self, fn):
        """A run that must not branch on unknowns."""
        rs = self.explore(fn, limit=64)
        return rs

    def event(self, *a):
        self.events.append(a)

    # ---- symbolic conditions --------------------------------------------
    def sym_range(self, s):
        return self.rng.get(s, (0, None))

    def lin_range(self, l):
        l = lin(l)
        lo, hi = l.c, l.c
        for s, k in l.t:
            a, b = self.sym_range(s)
            if k < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + k * a
            hi = None if hi is None or b is None else hi + k * b
        return lo, hi

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return bool(c)
        if isinstance(c, Cond):
            if c.op == "not":
                return not self.decide(c.a)
            if c.op == "and":
                return self.decide(c.a[0]) and self.decide(c.a[1])
            if c.op == "or":
                return self.decide(c.a[0]) or self.decide(c.a[1])
            if c.op in ("lt", "le", "eq"):
                return self.decide_lin(c.op, c.a)
            k = c.key()
            if k in self.facts:
                return self.facts[k]
            if self.ex is None:
                raise Unsupported(f"unknown condition {c!r} outside exploration")
            r = self.ex.choose(2, repr(c)) == 0
            self.facts[k] = r
            self.cond.append((repr(c), r))
            return r
        if isinstance(c, Lin):
            return not self.decide_lin("eq", c)
        raise Unsupported(f"branch on {type(c).__name__}")

    def decide_lin(self, op, d):
        """op in lt (d<0), le (d<=0), eq (d==0)"""
        if isinstance(d, int):
            return {"lt": d < 0, "le": d <= 0, "eq": d == 0}[op]
        lo, hi = self.lin_range(d)
        if op == "lt":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == "le":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
        k = (op, d)
        if k in self.facts:
            return self.facts[k]
        if self.ex is None:
            raise Unsupported(f"unknown condition {op} {d!r}")
        r = self.ex.choose(2, f"{op} {d!r}") == 0
        self.facts[k] = r
        self.cond.append((f"{op}({d!r})", r))
        # interval refinement for a single symbol
        if len(d.t) == 1:
            s, kf = d.t[0]
            a, b = self.sym_range(s)

            def floor(n, m):
                return n // m

            if op == "eq":
                if r:
                    if (-d.c) % kf:
                        raise Infeasible()
                    v = -d.c // kf
                    if (a is not None and v < a) or (b is not None and v > b):
                        raise Infeasible()
                    a = b = v
                else:
                    if (-d.c) % kf == 0:
                        v = -d.c // kf
                        if a == v:
                            a = v + 1
                        if b == v:
                            b = v - 1
            else:
                # k*s + c < 0 / <= 0 (or negation)
                c = d.c + (1 if op == "lt" else 0)      # k*s + c <= 0
                if r:
                    if kf > 0:
                        nb = floor(-c, kf)
                        b = nb if b is None else min(b, nb)
                    else:
                        na = -floor(-c, -kf)
                        a = na if a is None else max(a, na)
                else:
                    # k*s + c >= 1  ->  -k*s + (1-c) <= 0
                    k2, c2 = -kf, 1 - c
                    if k2 > 0:
                        nb = floor(-c2, k2)
                        b = nb if b is None else min(b, nb)
                    else:
                        na = -floor(-c2, -k2)
                        a = na if a is None else max(a, na)
            if a is not None and b is not None and a > b:
                raise Infeasible()
            self.rng[s] = (a, b)
        return r

    def cmp_int(self, op, a, b):
        """op: Lt Le Gt Ge Eq Ne; returns bool-ish (0/1) or Cond"""
        if isinstance(a, int) and isinstance(b, int):
            return int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op])
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if op in ("Gt", "Ge"):
                a, b = b, a
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            d = ladd(a, b, -1)
            if isinstance(d, int):
                return int({"Lt": d < 0, "Le": d <= 0, "Eq": d == 0, "Ne": d != 0}[op])
            if op == "Ne":
                return Cond("not", Cond("eq", d))
            return Cond(op.lower(), d)
        if isinstance(a, Cond) or isinstance(b, Cond):
            x = int(self.decide(a)) if isinstance(a, Cond) else a
            y = int(self.decide(b)) if isinstance(b, Cond) else b
            return self.cmp_int(op, x, y)
        if isinstance(a, float) and isinstance(b, float):
            return int({"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}[op])
        if op in ("Eq", "Ne"):
            r = self.ptr_eq(a, b)
            if r is not None:
                return int(r == (op == "Eq"))
        raise Unsupported(f"compare {a!r} {b!r}")

    def ptr_eq(self, a, b):
        if isinstance(a, (Ref, BoxV, RcV)) and isinstance(b, (Ref, BoxV, RcV)):
            return a.c is b.c
        if isinstance(a, FnV) and isinstance(b, FnV):
            return a.k == b.k
        return None

    # ---- values ----------------------------------------------------------
    def havoc(self, t, name):
        ty = self.db.types[t]
        k = ty["k"]
        if k == "int":
            s = name
            if s not in self.rng:
                w = INT_W[ty["n"]]
                self.rng[s] = (0, (1 << w) - 1) if ty["n"][0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return Lin.sym(s)
        if k == "bool":
            return Cond("sym", name)
        if k in ("ref", "ptr"):
            pt = self.db.types[ty["t"]]
            if pt["k"] == "str":
                return hole(name)
            return Ref(Cell(Havoc(ty["t"], name)))
        if k == "tuple":
            return Agg(0, [Cell(Havoc(x, f"{name}.{i}")) for i, x in enumerate(ty["ts"])])
        if k == "adt":
            n = ty["name"]
            m = self.models.havoc_adt(self, ty, t, name)
            if m is not None:
                return m
            if ty["akind"] == "struct":
                v = ty["variants"][0]
                return Agg(0, [Cell(Havoc(f["t"], f"{name}.{f['n']}")) for f in v["fields"]], t)
            if ty["akind"] == "enum":
                vs = ty["variants"]
                i = self.ex.choose(len(vs), f"variant of {name}") if len(vs) > 1 else 0
                if len(vs) > 1:
                    self.cond.append((f"variant({name})", vs[i]["name"]))
                return Agg(i, [Cell(Havoc(f["t"], f"{name}.{vs[i]['name']}.{f['n']}")) for f in vs[i]["fields"]], t)
        return Opq(name)

    def force(self, c):
        v = c.v
        if type(v) is Havoc:
            v = c.v = self.havoc(v.t, v.n)
        return v

    def copyval(self, v):
        if type(v) is Agg:
            return Agg(v.vi, [Cell(self.copyval(c.v)) for c in v.f], v.ty)
        if type(v) is Arr:
            return Arr([Cell(self.copyval(c.v)) for c in v.f])
        return v

    def clone(self, v):
        """deep clone (models Clone of owned containers)"""
        t = type(v)
        if t is Agg:
            return Agg(v.vi, [Cell(self.clone(c.v)) for c in v.f], v.ty)
        if t is Arr:
            return Arr([Cell(self.clone(c.v)) for c in v.f])
        if t is VecV:
            return VecV([Cell(self.clone(c.v)) for c in v.f], v.tag)
        if t is Str:
            return Str(v.v)
        if t is BoxV:
            return BoxV(Cell(self.clone(v.c.v)))
        if t is MapV:
            m = MapV(v.kind)
            m.d = [(self.clone(a), Cell(self.clone(b.v))) for a, b in v.d]
            return m
        if hasattr(v, "copy_it"):
            return v.copy_it()
        return v

    def decode(self, v, t):
        ty = self.db.types[t]
        k = v[0]
        if k == "i":
            return v[1]
        if k == "s":
            return v[1]
        if k == "z":
            if ty["k"] == "fndef":
                return ZFn(t)
            if ty["k"] == "closure":
                return Agg(0, [], t)
            if ty["k"] == "array":
                return Arr([])
            return Agg(0, [], t)
        if k == "ref":
            return Ref(Cell(self.decode(v[1], v[2])))
        if k == "sl":
            et = self.db.types[ty["t"]]["t"] if ty["k"] in ("ref", "ptr") else ty["t"]
            return SliceV([Cell(self.decode(x, et)) for x in v[1]])
        if k == "agg":
            if ty["k"] == "array":
                return Arr([Cell(self.decode(x, ty["t"])) for x in v[2]])
            if ty["k"] == "tuple":
                return Agg(0, [Cell(self.decode(x, tt)) for x, tt in zip(v[2], ty["ts"])])
            m = self.models.decode_adt(self, ty, v)
            if m is not None:
                return m
            fs = ty["variants"][v[1]]["fields"]
            return Agg(v[1], [Cell(self.decode(x, f["t"])) for x, f in zip(v[2], fs)], t)
        if k == "fn":
            return FnV(v[1])
        if k == "static":
            return Ref(self.static(v[1]))
        if k == "flt" and ty["k"] == "float" and ty["n"] in ("f32", "f64"):
            import struct
            return struct.unpack("<f" if ty["n"] == "f32" else "<d", int(v[1]).to_bytes(4 if ty["n"] == "f32" else 8, "little"))[0]
        return Opq("const:" + str(v[1:]))

    def static(self, path):
        c = self.statics.get(path)
        if c is None:
            m = self.models.static(self, path)
            if m is not None:
                c = Cell(m)
            else:
                s = self.db.statics.get(path)
                c = Cell(self.decode(s["v"], s["t"]) if s and s["v"] else Opq("static:" + path))
            self.statics[path] = c
        return c

    # ---- places -----------------------------------------------------------
    def deref(self, v):
        t = type(v)
        if t is Ref or t is BoxV or t is RcV:
            return v.c
        if t in (str, SliceV, DynRef):
            return PCell(v)
        if t is Agg and len(v.f) >= 1:
            # NonNull / Unique / Pin wrappers
            return self.deref(v.f[0].v)
        if t is Havoc:
            return self.deref(self.havoc(v.t, v.n))
        raise Unsupported(f"deref of {v!r}"[:200])

    def place(self, fr, p):
        c = fr[p[0]]
        for e in p[1]:
            if e == "*":
                v = c.v
                t = type(v)
                if t is Ref:
                    c = v.c
                else:
                    if t is Havoc:
                        v = self.force(c)
                    c = self.deref(v)
                continue
            k = e[0]
            if k == "f":
                v = c.v
                t = type(v)
                if t is Havoc:
                    v = self.force(c)
                    t = type(v)
                if t is Agg:
                    i = e[1]
                    f = v.f
                    while len(f) <= i:
                        f.append(Cell())
                    c = f[i]
                elif v is None:
                    v = c.v = Agg(0, [Cell() for _ in range(e[1] + 1)])
                    c = v.f[e[1]]
                elif t in (BoxV, Ref, RcV, DynRef, SliceV) or t is str and self.db.types[e[2]]["k"] in ("adt", "ptr"):
                    if self.db.types[e[2]]["k"] == "adt" and self.db.types[e[2]]["name"] == "alloc::alloc::Global":
                        c = Cell(Agg(0, []))
                    # otherwise: same pointer seen through a wrapper struct
                elif t is int or t is Lin:
                    pass      # NonZero inner
                else:
                    r = self.models.field(self, c, v, e[1], e[2])
                    if r is None:
                        raise Unsupported(f"field {e[1]} of {v!r}"[:200])
                    c = r
            elif k == "v":
                v = self.force(c)
                if type(v) is Agg:
                    v.vi = e[1] if v.vi is None else v.vi
            elif k == "i":
                i = fr[e[1]].v
                if type(i) is not int:
                    raise Unsupported("symbolic index")
                v = self.force(c)
                if type(v) in (str, Str):
                    v = self.models.bytes_of(v)
                l = v.cells() if type(v) is SliceV else v.f
                if i >= len(l):
                    raise RustPanic("index out of bounds", self.where())
                c = l[i]
            elif k == "ci":
                v = self.force(c)
                if type(v) in (str, Str):
                    v = self.models.bytes_of(v)
                l = v.cells() if type(v) is SliceV else v.f
                c = l[len(l) - e[1]] if e[2] else l[e[1]]
            elif k == "ss":
                v = self.force(c)
                if type(v) in (str, Str):
                    v = self.models.bytes_of(v)
                l = v if type(v) is SliceV else SliceV(v.f)
                if e[3]:
                    c = PCell(SliceV(l.l, l.a + e[1], l.n - e[1] - e[2]))
                else:
                    c = PCell(SliceV(l.l, l.a + e[1], e[2] - e[1]))
            # "cast": same place
        return c

    def operand(self, fr, o):
        k = o[0]
        if k == "m":
            p = o[1]
            c = fr[p[0]] if not p[1] else self.place(fr, p)
            v = c.v
            if type(v) is Havoc:
                v = self.force(c)
            return v
        if k == "c":
            p = o[1]
            c = fr[p[0]] if not p[1] else self.place(fr, p)
            v = c.v
            t = type(v)
            if t is Havoc:
                v = self.force(c)
                t = type(v)
            if t is Agg or t is Arr:
                return self.copyval(v)
            return v
        c = o[1]
        return self.decode(c["v"], c["t"])

    # ---- rvalues ----------------------------------------------------------
    def rvalue(self, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, r[1])
        if k == "ref":
            c = self.place(fr, r[1])
            if type(c) is PCell:
                return c.v
            return Ref(c)
        if k == "agg":
            vals = [Cell(self.operand(fr, x)) for x in r[3]]
            if r[1] == "array":
                return Arr(vals)
            if r[1] == "rawptr":
                return self.models.rawptr(self, [c.v for c in vals], r[4])
            m = self.models.build_adt(self, r[4], r[2], vals) if r[1] == "adt" else None
            if m is not None:
                return m
            return Agg(r[2], vals, r[4] if r[1] in ("adt", "closure") else None)
        if k == "discr":
            c = self.place(fr, r[1])
            return self.discr(c, r[2])
        if k == "bin":
            return self.binop(r[1], self.operand(fr, r[2]), self.operand(fr, r[3]), r[4])
        if k == "un":
            return self.unop(r[1], self.operand(fr, r[2]), r[3])
        if k == "cast":
            return self.cast(r[1], self.operand(fr, r[2]), r[3], r[4])
        if k == "fnp":
            return FnV(r[1])
        if k == "rep":
            v = self.operand(fr, r[1])
            return Arr([Cell(self.copyval(v)) for _ in range(r[2])])
        if k == "tls":
            return Ref(self.static(r[1]))
        raise Unsupported("rvalue " + k)

    def drop_value(self, c, t):
        """the workspace's impls of Drop a value's drop glue runs"""
        if not self.db.droppy(t):
            return
        k = self.db.types[t]
        v = c.v
        if v is None:
            return
        if k["k"] == "adt" and "drop" in k:
            self.call(k["drop"], [Ref(c)])
        vt = type(v)
        if k["k"] == "dyn" and vt is not DynRef:
            return
        if vt is Agg:
            if k["k"] == "adt" and k.get("variants") and k["name"].split("::")[0] not in ("core", "alloc", "std"):
                ts = [f["t"] for f in k["variants"][v.vi or 0]["fields"]]
            elif k["k"] in ("tuple", "closure"):
                ts = k.get("ts", [])
            elif k["k"] == "adt" and k["name"] == "core::option::Option":
                ts = k["args"]
            elif k["k"] == "adt" and k["name"] == "core::result::Result":
                ts = [k["args"][v.vi]]
            else:
                raise Unsupported("drop of " + k["s"])
            for f, ft in zip(v.f, ts):
                self.drop_value(f, ft)
        elif vt is Arr:
            for f in v.f:
                self.drop_value(f, k["t"])
        elif vt.__name__ == "VecV":
            for f in v.f:
                self.drop_value(f, k["args"][0])
        elif vt is BoxV:
            self.drop_value(v.c, k["args"][0])
        elif vt is DynRef:
            self.drop_value(v.p.c if type(v.p) in (Ref, BoxV) else Cell(v.p), v.t)
        elif vt in (int, Lin, Str, str, Ref) or isinstance(v, Opq) or k["k"] == "dyn":
            pass
        else:
            raise Unsupported("drop of " + k["s"])

    def discr(self, c, t):
        v = self.force(c)
        ty = self.db.types[t]
        if type(v) is Agg:
            if ty["k"] == "adt":
                if ty["name"] == "core::cmp::Ordering":
                    return v.vi - 1
                return ty["variants"][v.vi]["d"]
            return v.vi
        r = self.models.discr(self, v, ty)
        if r is None:
            raise Unsupported(f"discriminant of {v!r} : {ty['s']}"[:200])
        return r

    def binop(self, op, a, b, t):
        ty = self.db.types[t]
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            return self.cmp_int(op, a, b)
        if op == "Cmp":
            if self.decide(self.cmp_int("Lt", a, b)):
                return Agg(0, [])
            if self.decide(self.cmp_int("Eq", a, b)):
                return Agg(1, [])
            return Agg(2, [])
        n = ty.get("n", "usize" if ty["k"] in ("ptr", "ref") else "u8")
        if ty["k"] == "float":
            if not (isinstance(a, float) and isinstance(b, float)) or op not in ("Add", "Sub", "Mul", "Div"):
                raise Unsupported("float arithmetic")
            if op == "Div":
                if b == 0.0:
                    raise Unsupported("float division by zero")
                return float_of(a / b, n)
            return float_of({"Add": a + b, "Sub": a - b, "Mul": a * b}[op], n)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        ov = op.endswith("WithOverflow")
        if isinstance(a, Cond) or isinstance(b, Cond):
            if base in ("BitAnd", "BitOr", "BitXor") and ty["k"] == "bool":
                a = int(self.decide(a))
                b = int(self.decide(b))
        if type(a) is int and type(b) is int:
            if base == "Add":
                x = a + b
            elif base == "Sub":
                x = a - b
            elif base == "Mul":
                x = a * b
            elif base == "Div":
                x = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            elif base == "Rem":
                x = a - b * (abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1))
            elif base == "BitAnd":
                x = a & b
            elif base == "BitOr":
                x = a | b
            elif base == "BitXor":
                x = a ^ b
            elif base == "Shl":
                x = a << (b % INT_W[n])
            elif base == "Shr":
                x = a >> (b % INT_W[n])
            elif base == "Offset":
                raise Unsupported("pointer offset")
            else:
                raise Unsupported("binop " + op)
            if ty["k"] == "bool":
                return x & 1
            y = wrap(x, n)
            if ov:
                return agg(0, y, int(y != x))
            return y
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            if base == "Add":
                x = ladd(a, b)
            elif base == "Sub":
                x = ladd(a, b, -1)
            elif base == "Mul":
                x = lmul(a, b)
            else:
                s = (base.lower(), repr(a), repr(b))
                lo, hi = self.lin_range(lin(a))
                if base == "Rem" and type(b) is int and b > 0:
                    self.rng[s] = (0, b - 1)
                elif base == "Div" and type(b) is int and b > 0:
                    self.rng[s] = (None if lo is None else lo // b, None if hi is None else hi // b)
                elif base == "Shr" and type(b) is int:
                    self.rng[s] = (0, None if hi is None else hi >> b)
                elif base == "BitAnd" and type(b) is int and b >= 0:
                    self.rng[s] = (0, b)
                elif base in ("BitAnd", "BitOr", "BitXor", "Shl", "Div", "Rem", "Shr"):
                    self.rng[s] = (0, None)
                else:
                    raise Unsupported("symbolic " + op)
                x = Lin.sym(s)
            if ov:
                lo, hi = self.lin_range(x)
                w = INT_W[n]
                mx = (1 << w) - 1 if n[0] == "u" else (1 << (w - 1)) - 1
                mn = 0 if n[0] == "u" else -(1 << (w - 1))
                if lo is None or hi is None or lo < mn or hi > mx:
                    self.event("assume_no_overflow", base, n, self.where())
                return agg(0, x, 0)
            return x
        if base == "Offset":
            raise Unsupported("pointer offset")
        raise Unsupported(f"binop {op} {a!r} {b!r}"[:200])

    def unop(self, op, a, t):
        ty = self.db.types[t]
        if op == "Not":
            if isinstance(a, Cond):
                return a.a if a.op == "not" else Cond("not", a)
            if ty["k"] == "bool":
                return 1 - a
            if type(a) is int:
                return wrap(~a, ty["n"])
        if op == "Neg":
            if type(a) is int:
                return wrap(-a, ty["n"])
            return ladd(0, a, -1)
        if op == "PtrMetadata":
            if type(a) is SliceV:
                return a.n
            if type(a) is str:
                return self.models.strlen(self, a)
            if type(a) is Ref and type(a.c.v) is Arr:
                return len(a.c.v.f)
            return UNIT
        raise Unsupported(f"unop {op}")

    def cast(self, k, v, st, dt):
        s, d = self.db.types[st], self.db.types[dt]
        if k == "IntToInt":
            if isinstance(v, Cond):
                v = int(self.decide(v))
            if type(v) is int:
                if d["k"] == "int":
                    return wrap(v, d["n"])
                return v
            if isinstance(v, Lin):
                lo, hi = self.lin_range(v)
                w = INT_W[d["n"]]
                mx = (1 << w) - 1 if d["n"][0] == "u" else (1 << (w - 1)) - 1
                if d["n"][0] == "u" and (lo is None or lo < 0) or hi is None or hi > mx:
                    self.event("assume_cast_fits", d["n"], self.where())
                return v
            if type(v) is Agg:
                return s["variants"][v.vi]["d"] if s["k"] == "adt" else v
            raise Unsupported(f"int cast of {v!r}"[:100])
        if k == "Unsize":
            return self.unsize(v, st, dt)
        if k in ("PtrToPtr", "MutToConstPointer", "UnsafeFnPointer", "FnPtrToPtr", "ArrayToPointer", "Subtype",
                 "Transmute", "BoxDerefTransmute"):
            if k == "Transmute":
                return self.models.transmute(self, v, s, d, dt)
            return v
        if k == "Reify":
            return v
        if k in ("IntToFloat", "FloatToFloat", "FloatToInt") and isinstance(v, (int, float)) and not isinstance(v, bool):
            if k == "FloatToInt":
                w = INT_W[d["n"]]
                lo, hi = (0, (1 << w) - 1) if d["n"][0] == "u" else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                return 0 if v != v else lo if v <= lo else hi if v >= hi else int(v)
            return float_of(v, d["n"])
        raise Unsupported(f"cast {k}")

    def pointee(self, t):
        ty = self.db.types[t]
        if ty["k"] in ("ref", "ptr"):
            return ty["t"]
        if ty["k"] == "adt" and ty["args"]:
            return ty["args"][0]
        return None

    def unsize(self, v, st, dt):
        a, b = self.pointee(st), self.pointee(dt)
        ta, tb = self.db.types[a], self.db.types[b]
        if ta["k"] == "array" and tb["k"] == "slice":
            if type(v) is BoxV:
                c = v.c
                return BoxV(Cell(SliceV(c.v.f)))
            c = self.deref(v)
            x = self.force(c)
            return SliceV(x.f)
        if tb["k"] == "dyn":
            if ta["k"] == "dyn":
                return v
            return DynRef(v, a)
        # Box<Cell<T>> -> Box<Cell<dyn>> etc.
        return v

    # ---- control ----------------------------------------------------------
    def where(self):
        return self.stack[-1] if self.stack else None

    def call(self, key, args):
        m = self.db.insts.get(key)
        if m is None:
            raise Unsupported("call of " + str(key))
        f = m.get("_model", 0)
        if f == 0:
            f = m["_model"] = self.models.lookup(m)
        if f is not None:
            return f(self, m, args)
        b = m.get("body")
        if b is not None:
            return self.run(m, b, args)
        if "virtual" in m:
            return self.call_virtual(m, args)
        raise Unsupported("no transfer function for " + m.get("disp", m["name"]))

    def call_virtual(self, m, args):
        d = args[0]
        while type(d) is Ref and type(d.c.v) is DynRef:
            d = d.c.v
        if type(d) is BoxV and type(d.c.v) is DynRef:
            d = d.c.v
        if type(d) is not DynRef:
            r = self.models.virtual(self, m, args)
            if r is not None:
                return r[0]
            raise Unsupported("virtual call on " + repr(d)[:80])
        tn = m["name"].rsplit("::", 1)[0]
        for dt, es in self.db.vt.get(d.t, []):
            if self.db.types[dt].get("name") == tn:
                return self.call(es[m["virtual"]], [d.p] + args[1:])
        # supertrait method etc.
        for dt, es in self.db.vt.get(d.t, []):
            i = m["virtual"]
            if i < len(es) and es[i] and self.db.insts.get(es[i], {}).get("item") == m["item"]:
                return self.call(es[i], [d.p] + args[1:])
        raise Unsupported("no vtable for " + m["name"] + " on " + self.db.types[d.t]["s"])

    def callable(self, f, args):
        """call a callable value with flat args"""
        while type(f) is Ref:
            f2 = self.force(f.c)
            f = f2
        if type(f) is BoxV:
            f = f.c.v
        if type(f) is DynRef:
            f = f.p
            return self.callable(f, args)
        if type(f) is FnV:
            return self.call(f.k, args)
        if type(f) is ZFn:
            return self.call(self.db.types[f.t]["callee"], args)
        if type(f) is Agg and f.ty is not None and self.db.types[f.ty]["k"] == "closure":
            ty = self.db.types[f.ty]
            m = self.db.insts[ty["body"]]
            if "body" not in m:
                raise Unsupported("closure without body " + m["name"])
            selfarg = f if ty["ck"] == "FnOnce" else Ref(Cell(f))
            # a closure body's first local may be by value or by reference
            st = self.db.types[m["body"]["locals"][1]]
            selfarg = Ref(Cell(f)) if st["k"] == "ref" else f
            return self.run(m, m["body"], [selfarg] + args)
        if callable(f):
            return f(*args)
        raise Unsupported("call of value " + repr(f)[:80])

    def run(self, m, b, args):
        n = len(b["locals"])
        fr = [Cell() for _ in range(n)]
        argc = b["argc"]
        sp = b["spread"]
        if sp is not None:
            if not (len(args) == argc and type(args[-1]) is Agg and args[-1].ty is None and m.get("_tupled")):
                args = args[:sp - 1] + [Agg(0, [Cell(x) for x in args[sp - 1:]])]
        if len(args) != argc:
            raise Unsupported(f"arity {m['name']}: {len(args)} vs {argc}")
        for i, a in enumerate(args):
            fr[i + 1].v = a
        self.visited.add(m["key"])
        if self.calls is not None:
            cr = m.get("crate") or ""
            if cr.startswith("idlc"):
                late = cr.startswith(("idlc_mir", "idlc_codegen"))
                w = "late" if late or self.late else "early"
                self.calls[w] = self.calls.get(w, 0) + 1
                self.late += late
            else:
                late = False
        stack = self.stack
        stack.append(m["disp"] if "disp" in m else m["name"])
        if len(stack) > 400:
            raise Unsupported("recursion deeper than 400 abstract frames")
        blocks = b["blocks"]
        bb = 0
        try:
            while True:
                blk = blocks[bb]
                self.steps += len(blk[0]) + 1
                if self.steps > self.step_limit:
                    raise Unsupported("step limit")
                for s in blk[0]:
                    if s[0] == "=":
                        v = self.rvalue(fr, s[2])
                        p = s[1]
                        c = fr[p[0]] if not p[1] else self.place(fr, p)
                        c.v = v
                    elif s[0] == "sd":
                        c = self.place(fr, s[1])
                        if type(c.v) is not Agg:
                            c.v = Agg(s[2], [])
                        c.v.vi = s[2]
                    else:
                        self.models.intrinsic_stmt(self, fr, s)
                t = blk[1]
                k = t[0]
                if self.sites is not None and (k == "call" or k == "assert"):
                    self.sites.add((m["key"], bb))
                if k == "goto":
                    bb = t[1]
                elif k == "switch":
                    bb = self.switch(self.operand(fr, t[1]), t)
                elif k == "call":
                    r = self.do_call(fr, t)
                    p = t[4]
                    c = fr[p[0]] if not p[1] else self.place(fr, p)
                    c.v = r
                    if t[5] is None:
                        raise Unsupported("diverging call returned: " + str(t[1]))
                    bb = t[5]
                elif k == "ret":
                    return fr[0].v
                elif k == "drop":
                    if self.db.has_drop and self.db.droppy(t[3]):
                        self.drop_value(self.place(fr, t[1]), t[3])
                    bb = t[2]
                elif k == "assert":
                    v = self.operand(fr, t[1])
                    if isinstance(v, (Cond, Lin)):
                        if t[3].startswith("overflow"):
                            self.event("assume_no_overflow", t[3], t[5])
                        else:
                            if self.decide(v) != t[2]:
                                raise RustPanic(t[3], (m["disp"], t[5]))
                    elif bool(v) != t[2]:
                        raise RustPanic(t[3], (m["disp"], t[5]))
                    bb = t[4]
                elif k == "unreachable":
                    self.event("ub", "unreachable code reached", self.where())
                    raise RustPanic("unreachable", (m["disp"], None))
                else:
                    raise Unsupported("terminator " + k)
        except (Unsupported, RustPanic) as e:
            if not hasattr(e, "stk"):
                e.stk = list(stack)
            raise
        finally:
            stack.pop()
            if self.calls is not None:
                self.late -= late

    def switch(self, v, t):
        if type(v) is int:
            for x, b in t[2]:
                if x == v:
                    return b
            return t[3]
        if isinstance(v, Cond):
            v = int(self.decide(v))
            for x, b in t[2]:
                if x == v:
                    return b
            return t[3]
        if isinstance(v, Lin):
            for x, b in t[2]:
                if self.decide_lin("eq", ladd(v, x, -1)):
                    return b
            return t[3]
        raise Unsupported(f"switch on {v!r}"[:100])

    def do_call(self, fr, t):
        args = [self.operand(fr, a) for a in t[3]]
        key = t[1]
        if key is None:
            f = self.operand(fr, t[2])
            if type(f) is FnV:
                key = f.k
            elif type(f) is ZFn:
                key = self.db.types[f.t]["callee"]
            else:
                return self.callable(f, args)
        m = self.db.insts.get(key)
        if m is None:
            raise Unsupported("call of " + str(key))
        # rust-call ABI: untuple the last argument
        if self.rustcall(m):
            if args and type(args[-1]) is Agg:
                args = args[:-1] + [c.v for c in args[-1].f]
        self.callspan = t[6]
        if t[6]:
            self.curspan = t[6]
        return self.call(key, args)

    def rustcall(self, m):
        r = m.get("_rc")
        if r is None:
            it = m.get("item")
            tr = m.get("trait", "")
            r = (tr.startswith("core::ops::function::Fn") and it in ("call", "call_mut", "call_once")) \
                or "{closure#" in m["name"].rsplit("::", 1)[-1] or m["name"].startswith("core::ops::function::Fn")
            m["_rc"] = r
        return r


def run_big_stack(fn):
    """Runs fn in a thread with a large stack; returns its result or re-raises."""
    res = {}

    def w():
        try:
            res["r"] = fn()
        except BaseException as e:   # noqa
            res["e"] = e
    th = threading.Thread(target=w)
    th.start()
    th.join()
    if "e" in res:
        raise res["e"]
    return res["r"]
