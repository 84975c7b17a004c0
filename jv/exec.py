"""Abstract interpreter for the bytecode javac makes of the generated classes.

One abstract run stands for all argument values: data is symbolic, array lengths are symbolic non-negative integers, and
a loop over a symbolic number of elements is summarised by checking its effect on an arbitrary iteration."""
import copy

from .terms import *
from .terms import SZ, add, sub, mul, div, rem, subst, tyof, to_bytes, from_bytes, show

UNDEF = ("undef",)


class Throw(Exception):
    def __init__(self, cls, why="", obj=None):
        super().__init__(f"{cls.rsplit('/', 1)[-1]}{': ' + why if why else ''}")
        self.cls, self.why, self.obj = cls, why, obj


class Split(Unsup):
    """depends on whether an expression over lengths is negative (or zero): the run is to be repeated for either case"""

    def __init__(self, d, why, eq=False):
        super().__init__(why)
        self.d, self.eq = d, eq


def split(d, why, eq=False, cls=Unsup):
    return cls(why) if isinstance(d, int) or any(a[0] == "k" or a[0] == "div" for a, _ in d.t) else Split(d, why, eq)


class Ref:
    n = 0

    def __init__(self):
        Ref.n += 1
        self.oid = Ref.n


class Obj(Ref):
    def __init__(self, cls, fields=None, origin=None):
        super().__init__()
        self.cls, self.f, self.origin = cls, fields if fields is not None else {}, origin

    def __repr__(self):
        return f"{self.cls.rsplit('/', 1)[-1]}#{self.oid}"


class Seg:
    """cells start + K*stride for 0 <= K < count have the value val(K)"""

    def __init__(self, start, stride, count, k, val):
        self.start, self.stride, self.count, self.k, self.val = start, stride, count, k, val


class Arr(Ref):
    """origin: element i is the symbolic value named origin+(i,); otherwise zero"""

    def __init__(self, et, n, origin=None, ib=None):
        super().__init__()
        self.et, self.n, self.cells, self.segs, self.origin, self.ib = et, n, {}, [], origin, ib

    def __repr__(self):
        return f"{self.et}[{self.n}]#{self.oid}"


class Buf(Ref):
    """java.nio buffer over bytes base..base+cap*w of arr"""

    def __init__(self, arr, base, cap, w="B", big=True):
        super().__init__()
        self.arr, self.base, self.cap, self.lim, self.pos, self.w, self.big = arr, base, cap, cap, 0, w, big

    def __repr__(self):
        return f"buffer#{self.oid}"


class Frame:
    def __init__(self, cls, name, code, loc):
        self.cls, self.name, self.code, self.loc, self.st, self.pc, self.at = cls, name, code, loc, [], 0, 0


class Classes:
    """the generated classes and the runtime surface"""

    def __init__(self, m):
        self.m = m

    def __deepcopy__(self, memo):
        return self

    def find(self, cls, key):
        seen = []
        work = [cls]
        while work:
            c = work.pop(0)
            k = self.m.get(c)
            if k is None or c in seen:
                continue
            seen.append(c)
            if k.methods.get(key) is not None:
                return c, k.methods[key]
            work = [k.super] + work + list(k.interfaces) if k.super else work + list(k.interfaces)
        return None

    def static(self, cls, name):
        work = [cls]
        while work:
            c = work.pop(0)
            k = self.m.get(c)
            if k is None:
                continue
            if name in k.fields:
                return c, k.fields[name], k
            work += [k.super] + list(k.interfaces)
        return None

    def sub(self, c, d):
        work = [c]
        while work:
            x = work.pop()
            if x == d:
                return True
            k = self.m.get(x)
            if k is not None:
                work += [k.super] + list(k.interfaces)
        return d == "java/lang/Object"


class NoCopy(dict):
    def __deepcopy__(self, m):
        return self


class Machine:
    def __init__(self, classes, env):
        self.cl, self.env = classes, env
        self.frames = []
        self.bounds = {}        # loop counter -> number of iterations
        self.log = None
        self.visited = set()
        self.steps = 0
        self.result = None
        self.root = None        # keeps objects of interest across copies
        self.virgin = None      # arrays written by the loop which is being summarised
        self.events = []
        self.assume = list(getattr(env, "facts", ()))       # expressions known not to be negative

    def __deepcopy__(self, memo):
        m = Machine(self.cl, self.env)
        memo[id(self)] = m
        for k in ("frames", "bounds", "log", "root", "virgin", "assume"):
            setattr(m, k, copy.deepcopy(getattr(self, k), memo))
        m.visited = self.visited
        m.steps = self.steps
        m.events = copy.deepcopy(self.events, memo)
        return m

    # ------------------------------------------------------------- facts
    def ge0(self, x, deep=0):
        """True/False/None: x >= 0 for all lengths"""
        if isinstance(x, int):
            return x >= 0
        if x.c >= 0 and all(k > 0 for _, k in x.t):
            return True
        if x.c < 0 and all(k < 0 for _, k in x.t):
            return False
        for e in self.assume if deep == 0 else ():
            for a, k in e.t if isinstance(e, Lin) else ():
                n = dict(x.t).get(a, 0)
                if n and n % k == 0:
                    f = n // k
                    if f > 0 and self.ge0(sub(x, mul(e, f)), 1):
                        return True
                    if f < 0 and self.ge0(sub(sub(-1, x), mul(e, -f)), 1):
                        return False
        if deep < 4:
            for a, k in x.t:
                if a in self.bounds and k < 0:          # a <= bound - 1
                    y = add(subst(x, a, 0), mul(sub(self.bounds[a], 1), k))
                    if self.ge0(y, deep + 1):
                        return True
                    if self.ge0(sub(-1, subst(x, a, 0)), deep + 1):
                        return False
                if a in self.bounds and k > 0:          # the bound is at least 1 while the counter exists
                    y = add(subst(x, a, 0), mul(sub(self.bounds[a], 1), k))
                    if self.ge0(sub(-1, y), deep + 1):
                        return False
                    if self.ge0(subst(x, a, 0), deep + 1):
                        return True
        return None

    def lt(self, x, y):
        """x < y"""
        r = self.ge0(sub(x, y))
        return None if r is None else not r

    def sure(self, cond, why):
        if cond is None:
            raise Unsup("undecided: " + why)
        return cond

    # ------------------------------------------------------------- arrays
    def index(self, a, i):
        if a is None:
            raise Throw("java/lang/NullPointerException", "array is null")
        if not isinstance(a, Arr):
            raise Unsup("array access")
        need(i)
        lo, hi = self.ge0(i), self.ge0(sub(sub(a.n, 1), i))
        if lo is False or hi is False:
            raise Throw("java/lang/ArrayIndexOutOfBoundsException", f"{show(i)} of {show(a.n)}")
        if lo is None or hi is None:
            raise split(i if lo is None else sub(sub(a.n, 1), i), f"index {show(i)} of {show(a.n)}", cls=MayThrow)

    def aload(self, a, i):
        self.index(a, i)
        return self.cell(a, i)

    def cell(self, a, i):
        if i in a.cells:
            return a.cells[i]
        if self.virgin is not None and a.oid in self.virgin:
            raise Unsup("a loop reads what its other iterations write")
        for s in a.segs:
            d = sub(i, s.start)
            t = None
            if isinstance(s.stride, int):
                r = d if isinstance(d, int) else None
                if isinstance(d, int):
                    if d % s.stride == 0:
                        t = d // s.stride
                    else:
                        continue
                elif all(k % s.stride == 0 for _, k in d.t):
                    if d.c % s.stride == 0:
                        t = div(d, s.stride)
                    else:
                        continue
            if t is None:
                raise Unsup("element of a summarised loop")
            inside = self.ge0(t), self.ge0(sub(sub(s.count, 1), t))
            if False in inside:
                continue
            if None in inside:
                raise Unsup("element of a summarised loop")
            return inst(s.val, s.k, t)
        for j in a.cells:
            if not isinstance(sub(i, j), int):
                raise Unsup(f"element {show(i)} after writing element {show(j)}")
        if a.ib is not None:
            return from_bytes([("ib", a.ib, i)], "B")
        if a.origin is not None:
            v = self.symbolic(a.et, a.origin + (i,))
            if not isinstance(v, tuple):
                a.cells[i] = v
            return v
        return 0 if a.et in SZ else None

    def symbolic(self, t, p):
        if t in SZ:
            return ("val", t, p)
        return self.env.symbolic(t, p)

    def astore(self, a, i, v):
        self.index(a, i)
        self.put(a, i, v)

    def put(self, a, i, v):
        if self.log is not None:
            self.log.append(("a", a, i, v))
        for j in list(a.cells):
            if j != i and not isinstance(sub(i, j), int):
                raise Unsup(f"element {show(i)} and element {show(j)} written")
        if a.segs:
            for s in a.segs:
                if self.virgin is None:
                    raise Unsup("write into a summarised array")
        a.cells[i] = v

    # ------------------------------------------------------------- buffers
    def room(self, b, pos, n, what):
        """pos..pos+n within the limit"""
        r = self.ge0(sub(b.lim, add(pos, n)))
        if r is False:
            raise Throw("java/nio/Buffer" + ("Over" if what == "put" else "Under") + "flowException", f"{what} of {show(n)} at {show(pos)} of {show(b.lim)}")
        if r is None:
            raise split(sub(b.lim, add(pos, n)), f"{what} of {show(n)} elements at {show(pos)} of {show(b.lim)}", cls=MayThrow)

    def bput(self, b, pos, v, ty):
        bs = to_bytes(v, ty)
        if b.big:
            bs = bs[::-1]
        off = add(b.base, mul(pos, SZ[b.w]))
        for j, x in enumerate(bs):
            self.put(b.arr, add(off, j), from_bytes([x], "B"))

    def bget(self, b, pos, ty):
        off = add(b.base, mul(pos, SZ[b.w]))
        bs = [to_bytes(self.cell(b.arr, add(off, j)), "B")[0] for j in range(SZ[ty])]
        if b.big:
            bs = bs[::-1]
        return from_bytes(bs, ty)

    def move(self, b, pos):
        if self.log is not None:
            self.log.append(("p", b))
        b.pos = pos

    def seg(self, a, start, stride, count, k, val):
        if self.log is not None and not isinstance(count, int):
            raise Unsup("bulk transfer in a loop")
        for s in a.segs:
            d = sub(start, s.start)
            if not (s.stride == stride and isinstance(d, int) and d % stride):
                raise Unsup("overlapping summarised writes")
        if a.cells:
            raise Unsup("summarised write after writes")
        a.segs.append(Seg(start, stride, count, k, val))

    def bulk(self, b, a, off, n, put):
        """n elements between the buffer at its position and a[off...]"""
        if a is None:
            raise Throw("java/lang/NullPointerException", "array is null")
        ty = b.w
        if a.et != ty:
            raise Unsup("bulk transfer of another type")
        r = self.ge0(sub(a.n, add(off, n)))
        if r is False:
            raise Throw("java/lang/IndexOutOfBoundsException")
        if r is None:
            raise split(sub(a.n, add(off, n)), "bulk transfer beyond the array", cls=MayThrow)
        self.room(b, b.pos, n, "put" if put else "get")
        p0 = b.pos
        if isinstance(n, int):
            for i in range(n):
                if put:
                    self.bput(b, add(p0, i), self.cell(a, add(off, i)), ty)
                else:
                    self.put(a, add(off, i), self.bget(b, add(p0, i), ty))
        else:
            k = ("k", self.fresh())
            K = atom(k)
            self.bounds[k] = n
            sz = SZ[ty]
            if put:
                bs = to_bytes(self.cell(a, add(off, K)), ty)
                if b.big:
                    bs = bs[::-1]
                start = add(b.base, mul(p0, sz))
                cells, b.arr.cells = b.arr.cells, {}
                if cells:
                    raise Unsup("bulk transfer behind other data")
                for j, x in enumerate(bs):
                    self.seg(b.arr, add(start, j), sz, n, k, from_bytes([x], "B"))
            else:
                self.seg(a, off, 1, n, k, self.bget(b, add(p0, K), ty))
            del self.bounds[k]
        self.move(b, add(p0, n))

    def fresh(self):
        Ref.n += 1
        return f"k{Ref.n}"

    # ------------------------------------------------------------- execution
    def call(self, cls, name, desc, args):
        """runs a method to its end; (\"ret\", value) or (\"throw\", Throw)"""
        hit = self.cl.find(cls, (name, desc))
        if hit is None:
            raise Unsup(f"no code for {cls}.{name}")
        self.enter(hit[0], name, desc, hit[1], args)
        return self.run()

    def enter(self, cls, name, desc, code, args):
        loc = []
        for a, t in zip(args, (["A"] if len(args) > len(argtypes(desc)) else []) + argtypes(desc)):
            loc.append(a)
            if t in ("J", "D"):
                loc.append(UNDEF)
        loc += [UNDEF] * (code.max_locals - len(loc))
        if len(self.frames) > 60:
            raise Unsup("recursion")
        self.visited.add(f"{cls}.{name}")
        self.frames.append(Frame(cls, name, code, loc))

    def run(self, until=None, base=None):
        """until: (number of frames, pc): stops in front of that instruction"""
        self.result = None
        base = len(self.frames) if base is None else base
        while True:
            if until is not None and len(self.frames) == until[0] and self.frames[-1].pc == until[1] and until[2]:
                return "head"
            if until is not None:
                until = (until[0], until[1], True)
            self.steps += 1
            if self.steps > 400000:
                raise Unsup("too long")
            try:
                self.step()
            except Throw as t:
                if not self.handle(t, base):
                    return ("throw", t)
            if self.result is not None and len(self.frames) < base:
                r, self.result = self.result, None
                return r

    def handle(self, t, base):
        while len(self.frames) >= base:
            f = self.frames[-1]
            for a, b, h, c in f.code.table:
                if a <= f.at < b and (c is None or self.cl.sub(t.cls, c) or t.cls.startswith("java/") and c in ("java/lang/Throwable", "java/lang/Exception", "java/lang/RuntimeException")):
                    f.st = [t.obj or Obj(t.cls)]
                    f.pc = h
                    return True
            self.frames.pop()
        return False

    def step(self):
        f = self.frames[-1]
        c = f.code.code
        pc = f.pc
        f.at = pc
        op = c[pc]
        S = f.st
        push, pop = S.append, S.pop

        def s2(i):
            return int.from_bytes(c[pc + i:pc + i + 2], "big", signed=True)

        def u2(i):
            return int.from_bytes(c[pc + i:pc + i + 2], "big")

        def s4(i):
            return int.from_bytes(c[i:i + 4], "big", signed=True)
        n = LEN[op]
        wide = op == 0xc4
        if wide:
            op = c[pc + 1]
            n = 6 if op == 0x84 else 4
        if n is None and op not in (0xaa, 0xab):
            raise Unsup(f"instruction {op:#x}")
        f.pc = pc + (n or 0)
        if op == 0:
            pass
        elif op == 1:
            push(None)
        elif op <= 8:
            push(op - 3)
        elif op <= 10:
            push(op - 9)
        elif op <= 15:
            push(from_bytes(FCONST[op], "F" if op <= 13 else "D"))
        elif op == 16:
            push(int.from_bytes(c[pc + 1:pc + 2], "big", signed=True))
        elif op == 17:
            push(s2(1))
        elif op in (18, 19, 20):
            k = self.cl.m[f.cls].cp[c[pc + 1] if op == 18 else u2(1)]
            if k[0] in ("int", "long"):
                push(k[1])
            elif k[0] in ("float", "double"):
                push(("const", k[1]))
            else:
                push(("const", k))
        elif 21 <= op <= 25:
            push(f.loc[u2(2) if wide else c[pc + 1]])
        elif 26 <= op <= 45:
            push(f.loc[(op - 26) % 4])
        elif 46 <= op <= 53:
            i, a = pop(), pop()
            push(self.aload(a, i))
        elif 54 <= op <= 58:
            f.loc[u2(2) if wide else c[pc + 1]] = pop()
        elif 59 <= op <= 78:
            f.loc[(op - 59) % 4] = pop()
        elif 79 <= op <= 86:
            v, i, a = pop(), pop(), pop()
            if op in (84, 85, 86):
                v = narrow(v, {84: "B", 85: "C", 86: "S"}[op])
            self.astore(a, i, v)
        elif op == 87:
            pop()
        elif op == 88:
            v = pop()
            if not self.two(v):
                pop()
        elif op == 89:
            push(S[-1])
        elif op == 90:
            a, b = pop(), pop()
            S += [a, b, a]
        elif op == 91:
            a, b = pop(), pop()
            if self.two(b):
                S += [a, b, a]
            else:
                x = pop()
                S += [a, x, b, a]
        elif op == 92:
            if self.two(S[-1]):
                push(S[-1])
            else:
                S += S[-2:]
        elif op == 95:
            a, b = pop(), pop()
            S += [a, b]
        elif op in (93, 94):
            raise Unsup(f"instruction {op:#x}")
        elif op in (0x60, 0x61):
            b, a = pop(), pop()
            push(wrapi(add(a, b), op & 1))
        elif op in (0x64, 0x65):
            b, a = pop(), pop()
            push(wrapi(sub(a, b), op & 1))
        elif op in (0x68, 0x69):
            b, a = pop(), pop()
            push(wrapi(mul(a, b), op & 1))
        elif op in (0x6c, 0x6d, 0x70, 0x71):
            b, a = pop(), pop()
            if b == 0:
                raise Throw("java/lang/ArithmeticException")
            if not isinstance(a, int) and self.ge0(need(a)) is not True:
                raise Unsup("division of a negative length")
            push(div(a, b) if op < 0x70 else rem(a, b))
        elif op in (0x74, 0x75):
            push(sub(0, pop()))
        elif 0x78 <= op <= 0x83:
            b, a = pop(), pop()
            if op == 0x78 and isinstance(b, int) and isint(a) and b < 31:
                push(wrapi(mul(a, 1 << b), 0))
            elif op in (0x7a, 0x7c) and isinstance(b, int) and isint(a) and self.ge0(a):
                push(div(a, 1 << b))
            elif isinstance(a, int) and isinstance(b, int):
                push(bits(op, a, b))
            elif op == 0x7e and b == 0xff and tyof(a) == "B":
                push(("u8", a))
            else:
                raise Unsup("bit operation on data")
        elif op == 0x84:
            i = u2(2) if wide else c[pc + 1]
            k = (int.from_bytes(c[pc + 4:pc + 6], "big", signed=True) if wide else int.from_bytes(c[pc + 2:pc + 3], "big", signed=True))
            f.loc[i] = add(f.loc[i], k)
        elif op == 0x85:
            v = pop()
            push(v if isint(v) else conv(v, "J"))
        elif op == 0x88:
            v = pop()
            if isinstance(v, int):
                v = wrapi(v, 0)
            push(v if isint(v) else conv(v, "I"))
        elif op in (0x91, 0x92, 0x93):
            push(narrow(pop(), {0x91: "B", 0x92: "C", 0x93: "S"}[op]))
        elif 0x86 <= op <= 0x93:
            raise Unsup("conversion of data")
        elif 0x94 <= op <= 0x98:
            b, a = pop(), pop()
            if op != 0x94 or not (isint(a) and isint(b)):
                raise Unsup("comparison of data")
            d = sub(a, b)
            if isinstance(d, int):
                push((d > 0) - (d < 0))
            else:
                raise Unsup("comparison of lengths")
        elif 0x99 <= op <= 0x9e:
            self.branch(f, pc, s2(1), CMP[op - 0x99], pop(), 0, 1)
        elif 0x9f <= op <= 0xa4:
            b, a = pop(), pop()
            self.branch(f, pc, s2(1), CMP[op - 0x9f], a, b, 2)
        elif op in (0xa5, 0xa6):
            b, a = pop(), pop()
            if (self.refeq(a, b)) == (op == 0xa5):
                f.pc = pc + s2(1)
        elif op == 0xa7:
            f.pc = pc + s2(1)
        elif op == 0xc8:
            f.pc = pc + s4(pc + 1)
        elif op == 0xaa:
            i = (pc + 4) & ~3
            d, lo, hi = s4(i), s4(i + 4), s4(i + 8)
            v = pop()
            if not isinstance(v, int):
                raise Unsup("switch on data")
            f.pc = pc + (s4(i + 12 + 4 * (v - lo)) if lo <= v <= hi else d)
        elif op == 0xab:
            i = (pc + 4) & ~3
            d, cnt = s4(i), s4(i + 4)
            v = pop()
            if not isinstance(v, int):
                raise Unsup("switch on data")
            tab = {s4(i + 8 + 8 * j): s4(i + 12 + 8 * j) for j in range(cnt)}
            f.pc = pc + tab.get(v, d)
        elif 0xac <= op <= 0xb1:
            v = pop() if op != 0xb1 else None
            self.frames.pop()
            if self.frames and op != 0xb1:
                self.frames[-1].st.append(v)
            self.result = ("ret", v)
        elif op == 0xb2:
            _, cls, nm, ds = member(self.cl.m[f.cls].cp, u2(1))
            push(self.getstatic(cls, nm, ds))
        elif op == 0xb3:
            raise Unsup("static state")
        elif op == 0xb4:
            _, cls, nm, ds = member(self.cl.m[f.cls].cp, u2(1))
            push(self.getfield(pop(), nm, ds))
        elif op == 0xb5:
            _, cls, nm, ds = member(self.cl.m[f.cls].cp, u2(1))
            v, o = pop(), pop()
            if o is None:
                raise Throw("java/lang/NullPointerException", f"field {nm} of null")
            if ds in ("B", "C", "S", "Z"):
                v = narrow(v, ds)
            if not isinstance(o, Obj):
                raise Unsup("field of a runtime object")
            if self.log is not None:
                self.log.append(("f", o, nm, v))
            o.f[nm] = v
        elif op in (0xb6, 0xb7, 0xb8, 0xb9):
            _, cls, nm, ds = member(self.cl.m[f.cls].cp, u2(1))
            k = len(argtypes(ds))
            args = S[len(S) - k:]
            del S[len(S) - k:]
            if op != 0xb8:
                args.insert(0, pop())
            self.invoke(op, cls, nm, ds, args)
        elif op == 0xbb:
            cls = classname(self.cl.m[f.cls].cp, u2(1))
            if cls not in self.cl.m and cls not in KNOWN:
                raise Unsup("new " + cls)
            push(Obj(cls))
        elif op == 0xbc:
            push(Arr({4: "Z", 5: "C", 6: "F", 7: "D", 8: "B", 9: "S", 10: "I", 11: "J"}[c[pc + 1]], self.size(pop())))
        elif op == 0xbd:
            cls = classname(self.cl.m[f.cls].cp, u2(1))
            push(Arr(cls if cls.startswith("[") else "L" + cls + ";", self.size(pop())))
        elif op == 0xbe:
            a = pop()
            if a is None:
                raise Throw("java/lang/NullPointerException", "length of null")
            push(a.n)
        elif op == 0xbf:
            o = pop()
            if o is None:
                raise Throw("java/lang/NullPointerException", "throw null")
            raise Throw(o.cls, "", o)
        elif op == 0xc0:
            cls = classname(self.cl.m[f.cls].cp, u2(1))
            o = S[-1]
            if isinstance(o, Obj) and o.cls in self.cl.m and not cls.startswith("java/") and not self.cl.sub(o.cls, cls):
                raise Throw("java/lang/ClassCastException", f"{o} to {cls}")
        elif op in (0xc6, 0xc7):
            v = pop()
            if self.refeq(v, None) == (op == 0xc6):
                f.pc = pc + s2(1)
        elif op == 0xc5:
            cls = classname(self.cl.m[f.cls].cp, u2(1))
            k = c[pc + 3]
            ns = [self.size(x) for x in S[len(S) - k:]]
            del S[len(S) - k:]
            push(self.multi(cls, ns))
        elif op in (0xc2, 0xc3):
            pop()
        else:
            raise Unsup(f"instruction {op:#x}")

    def multi(self, cls, ns):
        a = Arr(cls[1:], ns[0])
        if len(ns) > 1:
            if not isinstance(ns[0], int):
                raise Unsup("array of arrays")
            for i in range(ns[0]):
                a.cells[i] = self.multi(cls[1:], ns[1:])
        return a

    def size(self, n):
        r = self.ge0(need(n))
        if r is False:
            raise Throw("java/lang/NegativeArraySizeException", show(n))
        if r is None:
            raise split(n, f"array of {show(n)} elements", cls=MayThrow)
        return n

    def two(self, v):
        """takes two words on the operand stack"""
        return tyof(v) in ("J", "D")

    def refeq(self, a, b):
        for x in (a, b):
            if not (x is None or isinstance(x, Ref) or isinstance(x, tuple) and x[0] == "obj"):
                raise Unsup("comparison of references")
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.oid == b.oid
        return a == b

    def getstatic(self, cls, nm, ds):
        if cls == "java/nio/ByteOrder":
            return ("order", nm)
        hit = self.cl.static(cls, nm)
        if hit and hit[1][1] is not None:
            k = hit[1][1]
            return k[1]
        raise Unsup(f"static field {cls}.{nm}")

    def getfield(self, o, nm, ds):
        if o is None:
            raise Throw("java/lang/NullPointerException", f"field {nm} of null")
        if not isinstance(o, Obj):
            raise Unsup("field of a runtime object")
        if nm not in o.f:
            if o.origin is not None:
                o.f[nm] = self.symbolic(ds, o.origin + (nm,))
            else:
                o.f[nm] = 0 if ds in ("B", "C", "S", "I", "J", "Z") else from_bytes([0] * SZ[ds], ds) if ds in SZ else None
        return o.f[nm]

    # ------------------------------------------------------------- branches and loops
    def branch(self, f, pc, off, cmp, a, b, pops):
        t = self.test(cmp, a, b)
        if t is None:
            self.loop(f, pc, off, cmp, a, b)
            return
        if t:
            f.pc = pc + off

    def test(self, cmp, a, b):
        if not (isint(a) and isint(b)):
            raise Unsup("branch on data")
        d = sub(a, b)
        if isinstance(d, int):
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "ge": d >= 0, "gt": d > 0, "le": d <= 0}[cmp]
        if cmp in ("lt", "ge"):
            r = self.ge0(d)
            return None if r is None else r == (cmp == "ge")
        if cmp in ("gt", "le"):
            r = self.ge0(sub(0, d))
            return None if r is None else r == (cmp == "le")
        r = True if self.ge0(sub(d, 1)) or self.ge0(sub(-1, d)) else False if self.ge0(d) and self.ge0(sub(0, d)) else None
        return None if r is None else r == (cmp == "ne")

    def loop(self, f, pc, off, cmp, a, b):
        """an undecided condition: it must control a loop, whose effect is summarised"""
        d = sub(b, a) if cmp in ("gt", "le") else sub(a, b)
        text = f"{show(a)} {cmp} {show(b)}"
        if self.log is not None:
            raise split(d, f"condition on lengths in a loop: {text}", cmp in ("eq", "ne"))
        code = f.code.code
        back = [(s, t) for s, t in jumps(code) if t <= pc <= s and t < s]
        if not back:
            raise split(d, f"branch on lengths: {text}", cmp in ("eq", "ne"))
        head = max(t for _, t in back)
        last = max(s for s, t in back if t == head)
        target = pc + off
        exit_on = target > last         # the jump leaves the loop
        if not exit_on and not (head <= target <= pc):
            raise split(d, f"branch on lengths in a loop: {text}", cmp in ("eq", "ne"))
        depth = len(self.frames)
        # the condition under which another iteration follows, as a < b
        go = cmp if not exit_on else {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}[cmp]

        def proceed(m):
            fr = m.frames[-1]
            fr.pc = pc + off if not exit_on else pc + LEN[code[pc]]

        def ahead(m):
            """runs one iteration up to the comparison; its operands"""
            proceed(m)
            r = m.run((depth, pc, True), base=depth)
            if r != "head":
                raise Unsup("a loop which is left early")
            fr = m.frames[-1]
            if code[pc] >= 0x9f:
                y, x = fr.st.pop(), fr.st.pop()
            else:
                x, y = fr.st.pop(), 0
            return x, y
        # a first iteration shows what changes
        t = copy.deepcopy(self)
        t.log = []
        t.frames[-1].at = pc
        low, high = (a, b) if go in ("lt", "le") else (b, a)
        if go == "ne":
            low, high = (a, b) if self.ge0(sub(b, a)) else (b, a)
        t.assume = t.assume + [sub(sub(high, low), 1 if go in ("lt", "gt", "ne") else 0)]
        x1, y1 = ahead(t)
        da, db = sub(x1, a), sub(y1, b)
        if not (isinstance(da, int) and isinstance(db, int)):
            raise Unsup("loop with a changing step")
        f1 = t.frames[-1]
        ints, dead = {}, []
        for i, (v, w) in enumerate(zip(f.loc, f1.loc)):
            if same(v, w):
                continue
            if isint(v) and isint(w) and isinstance(sub(w, v), int):
                ints[i] = sub(w, v)
            else:
                dead.append(i)
        bufs = {}
        old = {x.oid: x for x in reach(self)}
        for e in t.log:
            if e[0] == "p" and e[1].oid in old:
                bufs[e[1].oid] = None
            elif e[0] == "f" and e[1].oid in old:
                raise Unsup("a loop changes a field of an object from outside")
        new1 = {x.oid: x for x in reach(t)}
        for o in bufs:
            d = sub(new1[o].pos, old[o].pos)
            if not isinstance(d, int):
                raise Unsup("loop with a changing step")
            bufs[o] = d
        arrs = {e[1].oid for e in t.log if e[0] == "a" and e[1].oid in old}
        # the number of iterations: a + k*da (go) b + k*db
        gap, step = sub(b, a), da - db
        if go == "lt" and step > 0 or go == "gt" and step < 0:
            if go == "gt":
                gap, step = sub(a, b), -step
        elif go == "ne" and step:
            if step < 0:
                gap, step = sub(a, b), -step
        elif go == "ge" and step < 0:
            gap, step = sub(add(a, 1), b), -step
        elif go == "le" and step > 0:
            gap = add(gap, 1)
        else:
            raise Unsup("loop condition")
        if not self.ge0(gap):
            raise split(gap, "loop whose bound may be negative")
        count = div(gap, step)
        if go == "ne" and mul(count, step) != gap:
            raise Unsup("loop which may miss its bound")
        if mul(count, step) != gap:
            raise Unsup("loop with a remainder")
        # an arbitrary iteration
        k = ("k", self.fresh())
        K = atom(k)
        g = copy.deepcopy(self)
        g.bounds[k] = count
        g.log = []
        g.virgin = arrs
        gf = g.frames[-1]
        gf.at = pc
        for i, d in ints.items():
            gf.loc[i] = add(gf.loc[i], mul(K, d))
        for i in dead:
            gf.loc[i] = UNDEF
        gobj = {x.oid: x for x in reach(g)}
        for o, d in bufs.items():
            gobj[o].pos = add(gobj[o].pos, mul(K, d))
        saved = {}
        for o in arrs:
            saved[o] = (gobj[o].cells, gobj[o].segs)
            gobj[o].cells, gobj[o].segs = {}, []
        x2, y2 = ahead(g)
        if (x2, y2) != (add(a, mul(add(K, 1), da)), add(b, mul(add(K, 1), db))):
            raise Unsup("loop whose iterations differ")
        for i, v in enumerate(f.loc):
            w = gf.loc[i]
            if i in dead:
                continue
            if i in ints:
                if w != add(v, mul(add(K, 1), ints[i])):
                    raise Unsup("loop whose iterations differ")
            elif not same(v, w):
                raise Unsup("loop whose iterations differ")
        for e in g.log:
            if e[0] == "f" and e[1].oid in old or e[0] == "p" and e[1].oid in old and e[1].oid not in bufs or e[0] == "a" and e[1].oid in old and e[1].oid not in arrs:
                raise Unsup("loop whose iterations differ")
        for o, d in bufs.items():
            if gobj[o].pos != add(old[o].pos, mul(add(K, 1), d)):
                raise Unsup("loop whose iterations differ")
        segs = {}
        for o in arrs:
            for i, v in gobj[o].cells.items():
                at0 = subst(i, k, 0)
                st = sub(subst(i, k, 1), at0)
                if not isinstance(st, int) or st <= 0 or add(at0, mul(K, st)) != i:
                    raise Unsup("elements written by a loop")
                if saved[o][0]:
                    raise Unsup("a loop writes into an array which was written before")
                segs.setdefault(o, []).append((at0, st, v, set(old)))
        for o, l in segs.items():
            for at0, st, v, keep in l:
                self.seg(old[o], at0, st, count, k, graft(v, old))
        for i, d in ints.items():
            f.loc[i] = add(f.loc[i], mul(count, d))
        for i in dead:
            f.loc[i] = UNDEF
        for o, d in bufs.items():
            old[o].pos = add(old[o].pos, mul(count, d))
        f.pc = pc + off if exit_on else pc + LEN[code[pc]]
        self.env.loops = getattr(self.env, "loops", 0) + 1

    # ------------------------------------------------------------- calls
    def ret(self, v):
        self.frames[-1].st.append(v)

    def invoke(self, op, cls, nm, ds, args):
        r = self.env.call(self, op, cls, nm, ds, args)
        if r is not NotImplemented:
            if not ds.endswith(")V"):
                self.ret(r)
            return
        if op != 0xb8 and args[0] is None:
            raise Throw("java/lang/NullPointerException", f"{nm} on null")
        r = runtime(self, cls, nm, ds, args)
        if r is not NotImplemented:
            if not ds.endswith(")V"):
                self.ret(r)
            return
        start = cls
        if op in (0xb6, 0xb9) and isinstance(args[0], Obj) and args[0].cls in self.cl.m:
            start = args[0].cls
        hit = self.cl.find(start, (nm, ds))
        if hit is None:
            raise Unsup(f"call of {cls}.{nm}{ds}")
        self.enter(hit[0], nm, ds, hit[1], args)


class MayThrow(Unsup):
    """an access which is not within bounds for all lengths"""


KNOWN = {"java/util/concurrent/atomic/AtomicInteger"}


def runtime(m, cls, nm, ds, args):
    """models of the Java class library"""
    if cls == "java/lang/Object" and nm == "<init>":
        return None
    if cls == "java/lang/Exception" and nm == "<init>":
        return None
    if cls == "java/lang/Math" and nm in ("min", "max") and ds[1] in "IJ":
        a, b = args
        need(a), need(b)
        r = m.ge0(sub(b, a))
        if r is None:
            r2 = m.ge0(sub(a, b))
            if r2 is None:
                raise split(sub(b, a), f"{nm} of {show(a)} and {show(b)}")
            r = not r2
        return (a if r else b) if nm == "min" else (b if r else a)
    if cls == "java/util/concurrent/atomic/AtomicInteger":
        o = args[0]
        if nm == "<init>":
            o.f["v"] = args[1] if len(args) > 1 else 0
            return None
        if nm == "get":
            return o.f["v"]
        if nm in ("incrementAndGet", "decrementAndGet"):
            o.f["v"] = add(o.f["v"], 1 if nm[0] == "i" else -1)
            return o.f["v"]
        return NotImplemented
    if cls in ("java/lang/Float", "java/lang/Double") and nm in ("floatToRawIntBits", "doubleToRawLongBits"):
        return ("bits", "I" if cls.endswith("Float") else "J", args[0])
    if cls in ("java/lang/Float", "java/lang/Double") and nm in ("intBitsToFloat", "longBitsToDouble"):
        t = "F" if cls.endswith("Float") else "D"
        return from_bytes(to_bytes(args[0], "I" if t == "F" else "J"), t)
    if cls == "java/lang/System" and nm == "arraycopy":
        s, so, d, do, n = args
        if s is None or d is None:
            raise Throw("java/lang/NullPointerException", "arraycopy")
        if not isinstance(n, int):
            raise Unsup("arraycopy of a symbolic length")
        vs = [m.aload(s, add(so, i)) for i in range(n)]
        for i, v in enumerate(vs):
            m.astore(d, add(do, i), v)
        return None
    if isinstance(args[0] if args else None, Arr) and nm == "clone":
        b = copy.copy(args[0])
        Ref.n += 1
        b.oid = Ref.n
        b.cells, b.segs = dict(b.cells), list(b.segs)
        return b
    if cls == "java/util/Arrays" and nm in ("copyOf",):
        s, n = args
        d = Arr(s.et, m.size(n))
        if s.n != n:
            raise Unsup("Arrays.copyOf with another length")
        d.cells, d.segs, d.origin, d.ib = dict(s.cells), list(s.segs), s.origin, s.ib
        return d
    if not cls.startswith("java/nio/"):
        return NotImplemented
    if cls == "java/nio/ByteOrder":
        if nm == "nativeOrder":
            raise Unsup("native byte order")
        return NotImplemented
    if nm == "allocate":
        t = BUFT[cls[9:-6]]
        if t != "B":
            raise Unsup("typed buffer")
        n = m.size(args[0])
        return Buf(Arr("B", n), 0, n)
    if nm == "wrap":
        a = args[0]
        if a is None:
            raise Throw("java/lang/NullPointerException", "wrap(null)")
        if cls != "java/nio/ByteBuffer":
            raise Unsup("typed buffer")
        b = Buf(a, 0, a.n)
        if len(args) == 3:
            b.pos, b.lim = args[1], add(args[1], args[2])
            m.room(Buf(a, 0, a.n), args[1], args[2], "get")
        return b
    b = args[0]
    if not isinstance(b, Buf):
        return NotImplemented
    rest = args[1:]
    if nm == "order":
        if not rest:
            return ("order", "BIG_ENDIAN" if b.big else "LITTLE_ENDIAN")
        b.big = rest[0] != ("order", "LITTLE_ENDIAN")
        return b
    if nm in ("position", "limit") and not rest:
        return b.pos if nm == "position" else b.lim
    if nm == "position":
        if m.ge0(sub(b.lim, rest[0])) is not True or m.ge0(rest[0]) is not True:
            raise MayThrow("position beyond the limit")
        m.move(b, rest[0])
        return b
    if nm == "capacity":
        return b.cap
    if nm == "remaining":
        return sub(b.lim, b.pos)
    if nm == "hasRemaining":
        d = sub(b.lim, b.pos)
        if isinstance(d, int):
            return int(d > 0)
        raise Unsup("hasRemaining")
    if nm in ("rewind", "clear"):
        m.move(b, 0)
        if nm == "clear":
            b.lim = b.cap
        return b
    if nm == "flip":
        b.lim = b.pos
        m.move(b, 0)
        return b
    if nm == "array":
        if b.w != "B":
            raise Unsup("array of a view")
        return b.arr
    if nm.startswith("as") and nm.endswith("Buffer") and nm[2:-6] in BUFT:
        t = BUFT[nm[2:-6]]
        left = sub(b.lim, b.pos)
        return Buf(b.arr, add(b.base, b.pos), div(left, SZ[t]), t, b.big)
    if nm in ("slice", "duplicate"):
        raise Unsup("buffer " + nm)
    for pre in ("put", "get"):
        if nm == pre or nm.startswith(pre) and nm[3:] in BUFT:
            t = BUFT[nm[3:]] if len(nm) > 3 else b.w
            if len(nm) > 3 and b.w != "B":
                return NotImplemented
            at = argtypes(ds)
            if at and at[0].startswith("["):
                a = rest[0]
                if a is None:
                    raise Throw("java/lang/NullPointerException", "null array")
                m.bulk(b, a, rest[1] if len(rest) > 1 else 0, rest[2] if len(rest) > 1 else a.n, pre == "put")
                return b
            if at and at[0].startswith("L"):
                raise Unsup("transfer between buffers")
            n = SZ[t] // SZ[b.w]
            absolute = len(at) == (2 if pre == "put" else 1)
            pos = rest[0] if absolute else b.pos
            m.room(b, pos, n, pre)
            if pre == "put":
                m.bput(b, pos, rest[-1], t)
            else:
                v = m.bget(b, pos, t)
            if not absolute:
                m.move(b, add(pos, n))
            return b if pre == "put" else v
    return NotImplemented


BUFT = {"Byte": "B", "Char": "C", "Short": "S", "Int": "I", "Long": "J", "Float": "F", "Double": "D"}
CMP = ["eq", "ne", "lt", "ge", "gt", "le"]
LEN = [1] * 202
for _o in (16, 18, 21, 22, 23, 24, 25, 54, 55, 56, 57, 58, 0xbc, 0xa9):
    LEN[_o] = 2
for _o in [17, 19, 20, 0x84, *range(0x99, 0xa9), 0xb2, 0xb3, 0xb4, 0xb5, 0xb6, 0xb7, 0xb8, 0xbb, 0xbd, 0xc0, 0xc1, 0xc6, 0xc7]:
    LEN[_o] = 3
LEN[0xb9] = LEN[0xba] = LEN[0xc8] = LEN[0xc9] = 5
LEN[0xc5] = 4
LEN[0xaa] = LEN[0xab] = LEN[0xc4] = None
import struct as _s
FCONST = {11: _s.pack("<f", 0), 12: _s.pack("<f", 1), 13: _s.pack("<f", 2), 14: _s.pack("<d", 0), 15: _s.pack("<d", 1)}


def jumps(code):
    """(source, target) of all branches"""
    i, out = 0, []
    while i < len(code):
        op = code[i]
        n = LEN[op]
        if op in (0xaa, 0xab):
            j = (i + 4) & ~3
            g = lambda k: int.from_bytes(code[k:k + 4], "big", signed=True)
            n = (j + 12 + 4 * (g(j + 8) - g(j + 4) + 1) if op == 0xaa else j + 8 + 8 * g(j + 4)) - i
        elif op == 0xc4:
            n = 6 if code[i + 1] == 0x84 else 4
        elif 0x99 <= op <= 0xa7 or op in (0xc6, 0xc7):
            out.append((i, i + int.from_bytes(code[i + 1:i + 3], "big", signed=True)))
        elif op == 0xc8:
            out.append((i, i + int.from_bytes(code[i + 1:i + 5], "big", signed=True)))
        i += n
    return out


def argtypes(ds):
    out, i = [], 1
    while ds[i] != ")":
        j = i
        while ds[j] == "[":
            j += 1
        j = ds.index(";", j) + 1 if ds[j] == "L" else j + 1
        out.append(ds[i:j])
        i = j
    return out


def wrapi(v, long):
    if isinstance(v, int):
        n = 64 if long else 32
        v &= (1 << n) - 1
        return v - (1 << n) if v >> n - 1 else v
    return v


def bits(op, a, b):
    lg = op & 1
    n = 64 if lg else 32
    o = op & ~1
    if o == 0x78:
        return wrapi(a << (b & n - 1), lg)
    if o == 0x7a:
        return a >> (b & n - 1)
    if o == 0x7c:
        return wrapi((a & (1 << n) - 1) >> (b & n - 1), lg)
    return wrapi(a & b if o == 0x7e else a | b if o == 0x80 else a ^ b, lg)


def narrow(v, t):
    if isinstance(v, int):
        if t == "Z":
            return v & 1
        n = 8 * SZ[t]
        v &= (1 << n) - 1
        return v - (1 << n) if t != "C" and v >> n - 1 else v
    if isinstance(v, tuple) and v[0] == "u8" and t == "B":
        return v[1]
    if tyof(v) == t:
        return v
    if tyof(v) in SZ and SZ[tyof(v)] == SZ[t] and tyof(v) not in "FD":
        return from_bytes(to_bytes(v, t), t)
    if tyof(v) in ("I", "J") and isinstance(v, tuple):
        return from_bytes(to_bytes(v, tyof(v))[:SZ[t]], t)
    raise Unsup(f"narrowing of {show(v)}")


def conv(v, t):
    if t == "I" and tyof(v) == "J":
        return from_bytes(to_bytes(v, "J")[:4], "I")
    raise Unsup("widening of data")


def same(a, b):
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    if isinstance(a, Ref) or isinstance(b, Ref):
        return False
    return a == b


def reach(m):
    """all heap objects"""
    seen, work = {}, [m.root, m.events] + [x for f in m.frames for x in f.loc + f.st]
    while work:
        x = work.pop()
        if isinstance(x, Ref):
            if x.oid in seen:
                continue
            seen[x.oid] = x
            if isinstance(x, Obj):
                work += list(x.f.values())
            elif isinstance(x, Arr):
                work += [v for v in x.cells.values() if isinstance(v, Ref)]
                work += [s.val for s in x.segs if isinstance(s.val, Ref)]
            elif isinstance(x, Buf):
                work.append(x.arr)
        elif isinstance(x, (list, tuple)):
            work += list(x)
        elif isinstance(x, dict):
            work += list(x.values())
    return list(seen.values())


def graft(v, old):
    """a value of the generic iteration, with the objects that existed before replaced by themselves"""
    if isinstance(v, Ref):
        if v.oid in old:
            return old[v.oid]
        if isinstance(v, Obj):
            v.f = {k: graft(x, old) for k, x in v.f.items()}
        elif isinstance(v, Arr):
            v.cells = {k: graft(x, old) for k, x in v.cells.items()}
    return v


def inst(v, k, t):
    """the value of iteration t"""
    if isinstance(v, Obj):
        o = Obj(v.cls, {n: inst(x, k, t) for n, x in v.f.items()}, subst(v.origin, k, t) if v.origin else None)
        return o
    if isinstance(v, Arr):
        a = Arr(v.et, subst(v.n, k, t) if isinstance(v.n, Lin) else v.n, subst(v.origin, k, t) if v.origin else None, v.ib)
        if v.segs:
            raise Unsup("summarised array in a summarised array")
        a.cells = {subst(i, k, t) if isinstance(i, Lin) else i: inst(x, k, t) for i, x in v.cells.items()}
        return a
    return subst(v, k, t)


from .classfile import classname, member  # noqa: E402
