"""Java proxies and skeletons against the canonical envelope (C18), by abstract interpretation of javac's bytecode."""
import itertools
import re

from idlv.idl import *
from . import impl
from .exec import Arr, Classes, Machine, MayThrow, Obj, Ref, Split, Throw, argtypes
from .terms import *
from .terms import add, atom, sub, subst, from_bytes, mul, show, to_bytes

D = {"byte": "B", "char": "C", "short": "S", "int": "I", "long": "J", "float": "F", "double": "D"}
PKG = "com/qualcomm/qti/mink/"
MO = "com/qualcomm/qti/qms/api/mink/IMinkObject"
EXC = MO + "$InvokeException"
INVOKE = "(I[[B[I[[B[L" + MO + ";[L" + MO + ";)V"


class Mismatch(Exception):
    def __init__(self, rule, detail):
        super().__init__(detail)
        self.rule, self.detail = rule, detail


def subst_all(v, d):
    for a, r in d.items():
        v = subst(v, a, r)
    return v


def jt(p_ty):
    return D[impl.JT[p_ty]]


class Side:
    """what both directions share"""

    def __init__(self, sp, classes, m, lens, facts=()):
        self.sp, self.m, self.lens = sp, m, lens
        self.facts, self.fix = facts if lens is None else (), {}
        self.solve()
        self.env = sp.envelope(m)
        self.cl = Classes(classes)
        self.names = {n.rsplit("$", 1)[1]: n for n in classes if "$" in n}
        self.mach = None
        self.order = [p.name for p in m.params]
        self.called = 0
        self.loops = 0

    def cls(self, s):
        if s not in self.names:
            raise Unsup(f"no class for struct {s}")
        return self.names[s]

    def __deepcopy__(self, memo):
        return self

    # ---- lengths
    def solve(self):
        """the lengths which the facts determine"""
        fs, out = list(self.facts), []
        while fs:
            e = fs.pop(0)
            for a, r in self.fix.items():
                e = subst(e, a, r)
            if isinstance(e, int):
                continue
            hit = None
            if e.c == 0 and all(k < 0 for _, k in e.t):     # a sum of lengths is not positive
                hit = {a: 0 for a, _ in e.t}
            elif any(x == sub(0, e) for x in out):
                a, k = next(((a, k) for a, k in e.t if abs(k) == 1), (None, 0))
                if a is not None:
                    r = sub(atom(a), mul(e, k))
                    hit = {a: r}
                    fs.append(r)
            if hit:
                self.fix.update({a: subst_all(r, hit) for a, r in self.fix.items()})
                self.fix.update(hit)
                fs, out = fs + out, []
            else:
                out.append(e)
        self.facts = out

    def length(self, p, what):
        """n: elements of an input array; m: elements an implementation returns; r: capacity beyond that"""
        if self.lens is None:
            a = ("n", f"{what}_{p.name}")
            return self.fix.get(a, atom(a))
        if isinstance(self.lens, dict):
            return self.lens.get(f"{what}_{p.name}", 1)
        return {"n": self.lens + self.order.index(p.name), "m": self.lens + self.order.index(p.name), "r": self.lens + 1}[what] % 4

    def cap(self, p):
        return add(self.length(p, "m"), self.length(p, "r"))

    # ---- values
    def et(self, p):
        t = "uint8" if p.ty == "buffer" else p.ty
        return jt(t) if t in impl.JT and t != "interface" else "L" + self.cls(p.ty) + ";" if p.ty in self.sp.structs else "L" + MO + ";"

    def struct(self, s, path):
        o = Obj(self.cls(s), {}, None)
        for f in self.sp.structs[s].fields:
            o.f[f.name] = self.field(f, path + (f.name,))
        return o

    def field(self, f, path):
        one = lambda p: ("val", jt(f.ty), p) if f.ty in PRIM else self.struct(f.ty, p)
        if f.n is None:
            return one(path)
        a = Arr(jt(f.ty) if f.ty in PRIM else "L" + self.cls(f.ty) + ";", f.n)
        for i in range(f.n):
            a.cells[i] = one(path + (i,))
        return a

    def symbolic(self, t, p):
        """element of an array of structs"""
        return self.struct(t[1:-1].rsplit("$", 1)[1], p)

    def obj(self, name):
        return Obj("ext", {"name": name})

    def leaves(self, ty, path):
        """[(path, Java type)] in wire order"""
        if ty in PRIM or ty == "buffer":
            return [(path, jt(ty))]
        out = []
        for f in self.sp.structs[ty].fields:
            for i in range(f.n or 1):
                out += self.leaves(f.ty, path + (f.name,) + ((i,) if f.n is not None else ()))
        return out

    def bytes_of(self, ty, path):
        return [b for p, t in self.leaves(ty, path) for b in to_bytes(("val", t, p), t)]

    # ---- comparisons
    def want(self, c, rule, detail):
        if not c:
            raise Mismatch(rule, detail() if callable(detail) else detail)

    def byte(self, a, i):
        return to_bytes(self.mach.cell(a, i), "B")[0]

    def check_bytes(self, a, exp, rule, what):
        self.want(isinstance(a, Arr), rule, f"{what} is {show(a)}")
        self.want(a.n == len(exp), rule, lambda: f"{what} has {show(a.n)} bytes instead of {len(exp)}")
        for i, e in enumerate(exp):
            v = self.byte(a, i)
            self.want(v == e, rule, lambda: f"byte {i} of {what} is {show(v)} instead of {show(e)}")

    def each(self, n):
        """indices that stand for all elements"""
        if isinstance(n, int):
            yield from range(n)
            return
        k = ("k", self.mach.fresh())
        self.mach.bounds[k] = n
        yield atom(k)
        del self.mach.bounds[k]

    def check_array(self, a, ty, esz, n, elem, rule, what):
        self.want(isinstance(a, Arr), rule, f"{what} is {show(a)}")
        self.want(a.n == mul(n, esz), rule, lambda: f"{what} has {show(a.n)} bytes instead of {show(mul(n, esz))}")
        for k in self.each(n):
            exp = self.bytes_of(ty, elem + (k,))
            for j, e in enumerate(exp):
                v = self.byte(a, add(mul(k, esz), j))
                self.want(v == e, rule, lambda: f"byte {j} of element {show(k)} of {what} is {show(v)} instead of {show(e)}")

    def check_value(self, v, ty, ib, off, rule, what):
        """v was decoded from the bytes at off of the symbolic buffer ib"""
        if ty in PRIM or ty == "buffer":
            t = jt(ty)
            e = from_bytes([("ib", ib, add(off, i)) for i in range(SZ[t])], t)
            self.want(v == e, rule, lambda: f"{what} is {show(v)} instead of {show(e)}")
            return off
        self.want(isinstance(v, Obj), rule, f"{what} is {show(v)}")
        for f in self.sp.structs[ty].fields:
            sz = self.sp.size(f.ty)
            w = self.mach.getfield(v, f.name, "?")
            if f.n is not None:
                self.want(isinstance(w, Arr) and w.n == f.n, rule, lambda: f"{what}.{f.name} is {show(w)}")
            for i in range(f.n or 1):
                self.check_value(self.mach.cell(w, i) if f.n is not None else w, f.ty, ib, off, rule, f"{what}.{f.name}" + (f"[{i}]" if f.n is not None else ""))
                off = add(off, sz)

    def check_elems(self, a, p, ib, n, rule, what):
        ty = "uint8" if p.ty == "buffer" else p.ty
        self.want(isinstance(a, Arr), rule, f"{what} is {show(a)}")
        self.want(a.n == n, rule, lambda: f"{what} has {show(a.n)} elements instead of {show(n)}")
        esz = 1 if p.ty == "buffer" else self.sp.size(p.ty)
        for k in self.each(n):
            self.check_value(self.mach.cell(a, k), ty, ib, mul(k, esz), rule, f"{what}[{show(k)}]")

    def same_obj(self, v, name, rule, what):
        self.want(isinstance(v, Obj) and v.cls == "ext" and v.f["name"] == name, rule, lambda: f"{what} is {v.f['name'] if isinstance(v, Obj) and v.cls == 'ext' else show(v)} instead of {name}")

    def slots(self, cls):
        """[(index, slot)]"""
        return list(enumerate(self.env[cls]))

    def oname(self, s, tag):
        return f"{tag}{s['p'].name}" + (f"[{s['i']}]" if s["kind"] == "objel" else "")

    def out_bytes(self, s, tag):
        """expected bytes of a fixed slot whose values are named tag+parameter"""
        if s["kind"] == "bundle":
            return [b for p, _ in s["members"] for b in self.bytes_of(p.ty, (tag + p.name,))]
        return self.bytes_of(s["p"].ty, (tag + s["p"].name,))

    def check_slot_bytes(self, s, a, tag, n, rule, what):
        if s["kind"] == "arr":
            ty = "uint8" if s["p"].ty == "buffer" else s["p"].ty
            self.check_array(a, ty, s["esz"], n(s["p"]), (tag + s["p"].name,), rule, f"{what} ({s['p'].name})")
        else:
            self.check_bytes(a, self.out_bytes(s, tag), rule, what)

    def buffer(self, s, name, n):
        return Arr("B", mul(n(s["p"]), s["esz"]) if s["kind"] == "arr" else s["size"], ib=name)

    def check_from(self, s, i, ib, get, n, rule):
        """decoded values of slot i; get(p): the decoded value or NotImplemented"""
        if s["kind"] == "bundle":
            for p, off in s["members"]:
                v = get(p)
                if v is not NotImplemented:
                    self.check_value(v, p.ty, f"{ib}{i}", off, rule, p.name)
        else:
            p = s["p"]
            v = get(p)
            if v is NotImplemented:
                return
            if s["kind"] == "arr":
                self.check_elems(v, p, f"{ib}{i}", n(p), rule, p.name)
            else:
                self.check_value(v, p.ty, f"{ib}{i}", 0, rule, p.name)


class Proxy(Side):
    def __init__(self, *a, nulls=(), throws=False):
        super().__init__(*a)
        self.nulls, self.throws = nulls, throws

    def run(self, iface):
        m, sp = self.m, self.sp
        cls = PKG + iface + "$Proxy"
        mc = self.mach = Machine(self.cl, self)
        key = [k for k in self.cl.m[cls].methods if k[0] == m.name]
        hit = [k for k in key if self.cl.m[cls].methods[k] is not None]
        o = Obj(cls)
        remote = self.obj("remote")
        if not hit:
            base = self.cl.m[cls]
            while base is not None and not hit:
                hit = [k for k in base.methods if k[0] == m.name and base.methods[k] is not None]
                base = self.cl.m.get(base.super)
        if len(hit) != 1:
            raise Unsup(f"{len(hit)} methods {m.name}")
        mc.root = [o]
        r = mc.call(cls, "<init>", "(L" + MO + ";)V", [o, remote])
        if r[0] != "ret":
            raise Unsup("constructor of the proxy")
        args, holders = [], {}
        for t, n, p, role in impl.params(sp, m):
            if role == "len":
                args.append(p.arr if sp.kind(p) == "objs" else self.cap(p))
                continue
            k = sp.kind(p)
            if p.dir == "in":
                if k == "obj":
                    v = self.obj(f"a:{p.name}")
                elif k == "objs":
                    v = Arr("L" + MO + ";", p.arr)
                    v.cells = {i: self.obj(f"a:{p.name}[{i}]") for i in range(p.arr)}
                elif k in ("arr", "buf"):
                    v = Arr(self.et(p), self.length(p, "n"), origin=("a:" + p.name,))
                elif p.ty in PRIM:
                    v = ("val", jt(p.ty), ("a:" + p.name,))
                else:
                    v = self.struct(p.ty, ("a:" + p.name,))
            elif p.name in self.nulls:
                v = None
            else:
                et = self.et(p)
                v = Arr(et if k in ("fixed", "obj") else "[" + et, 1)
                if k == "fixed":
                    v.cells[0] = ("val", et, ("old:" + p.name,)) if p.ty in PRIM else self.struct(p.ty, ("old:" + p.name,))
                holders[p.name] = v
            args.append(v)
        mc.root = [o, holders, args]
        r = mc.call(cls, *hit[0], [o] + args)
        holders = mc.root[1]
        self.want(self.called == 1, "proxy invokes once", f"{self.called} invocations, then {r[1]!r}")
        if self.throws:
            self.want(r[0] == "throw" and r[1].obj is not None and r[1].obj.f.get("mine"), "proxy reports errors", f"the remote's exception becomes {r!r}")
            for n, h in holders.items():
                p = next(p for p in m.params if p.name == n)
                v = h.cells.get(0)
                if p.ty in PRIM and sp.kind(p) == "fixed":
                    self.want(v == ("val", jt(p.ty), ("old:" + n,)), "proxy reports errors", f"{n} changes although the call failed")
            return
        self.want(r[0] == "ret", "proxy returns", f"throws {r[1]}")

        def get(p):
            h = holders.get(p.name)
            return NotImplemented if h is None else mc.cell(h, 0)
        for i, s in self.slots("BO"):
            self.check_from(s, i, "bo", get, lambda p: self.length(p, "m"), "proxy returns the outputs")
        for i, s in self.slots("OO"):
            v = get(s["p"])
            if v is NotImplemented:
                continue
            if s["kind"] == "objel":
                self.want(isinstance(v, Arr) and v.n == s["p"].arr, "proxy returns the outputs", f"{s['p'].name} is {show(v)}")
                v = mc.cell(v, s["i"])
            self.same_obj(v, f"oo{i}", "proxy returns the outputs", self.oname(s, ""))

    def call(self, mc, op, cls, nm, ds, args):
        if not (nm == "invoke" and ds == INVOKE and args and isinstance(args[0], Obj) and args[0].cls == "ext"):
            if args and isinstance(args[0], Obj) and args[0].cls == "ext" and op != 0xb8:
                raise Mismatch("proxy invokes once", f"calls {nm} of an object")
            return NotImplemented
        if mc is not self.mach:
            raise Unsup("invocation in a loop")
        self.called += 1
        self.want(args[0].f["name"] == "remote", "proxy invokes its object", "another object is invoked")
        _, opv, bi, bos, bo, oi, oo = args
        self.want(opv == self.op, "proxy passes the op-code", lambda: f"op-code {show(opv)} instead of {self.op}")
        for c, a, what in (("BI", bi, "bi"), ("BO", bo, "bo"), ("BO", bos, "boSizes"), ("OI", oi, "oi"), ("OO", oo, "oo")):
            n = len(self.env[c])
            self.want((a is None and n == 0) or isinstance(a, Arr) and a.n == n, "proxy passes the canonical counts",
                      lambda: f"{what} has {'no' if a is None else show(a.n)} elements instead of {n}")
        for i, s in self.slots("BI"):
            self.check_slot_bytes(s, mc.cell(bi, i), "a:", lambda p: self.length(p, "n"), "proxy encodes the inputs", f"bi[{i}]")
        for i, s in self.slots("BO"):
            e = mul(self.cap(s["p"]), s["esz"]) if s["kind"] == "arr" else s["size"]
            v = mc.cell(bos, i)
            self.want(v == e, "proxy requests the output sizes", lambda: f"boSizes[{i}] is {show(v)} instead of {show(e)}")
        for i, s in self.slots("OI"):
            self.same_obj(mc.cell(oi, i), self.oname(s, "a:"), "proxy passes the objects", f"oi[{i}]")
        if self.throws:
            raise Throw(EXC, "", Obj(EXC, {"mine": 1}))
        for i, s in self.slots("BO"):
            mc.put(bo, i, self.buffer(s, f"bo{i}", lambda p: self.length(p, "m")))
        for i, s in self.slots("OO"):
            mc.put(oo, i, self.obj(f"oo{i}"))
        return None


class Skeleton(Side):
    def __init__(self, *a, mutate=False, throws=False):
        super().__init__(*a)
        self.mutate, self.throws = mutate, throws

    def run(self, iface):
        cls = PKG + iface + "$MinkObject"
        mc = self.mach = Machine(self.cl, self)
        o, user = Obj(cls), Obj("user")
        ctor = [k for k in self.cl.m[cls].methods if k[0] == "<init>"]
        if len(ctor) != 1:
            raise Unsup("constructors of the skeleton")
        mc.root = [o, user]
        r = mc.call(cls, *ctor[0], [o, user])
        if r[0] != "ret":
            raise Unsup("constructor of the skeleton")
        arr = lambda et, c: Arr(et, len(self.env[c])) if self.env[c] else None
        bi, bo, bos, oi, oo = arr("[B", "BI"), arr("[B", "BO"), arr("I", "BO"), arr("L" + MO + ";", "OI"), arr("L" + MO + ";", "OO")
        for i, s in self.slots("BI"):
            bi.cells[i] = self.buffer(s, f"bi{i}", lambda p: self.length(p, "n"))
        for i, s in self.slots("BO"):
            bos.cells[i] = mul(self.cap(s["p"]), s["esz"]) if s["kind"] == "arr" else s["size"]
        for i, s in self.slots("OI"):
            oi.cells[i] = self.obj(f"oi{i}")
        mc.root = [o, user, bo, oo]
        r = mc.call(cls, "invoke", INVOKE, [o, self.op, bi, bos, bo, oi, oo])
        bo, oo = mc.root[2:]
        self.want(self.called == 1, "skeleton calls the implementation once", f"{self.called} calls, then {r[1]!r}")
        if self.throws:
            self.want(r[0] == "throw" and r[1].obj is not None and r[1].obj.f.get("mine"), "skeleton reports errors", f"the implementation's exception becomes {r!r}")
            return
        self.want(r[0] == "ret", "skeleton returns", f"throws {r[1]}")
        for i, s in self.slots("BO"):
            self.check_slot_bytes(s, mc.cell(bo, i), "o:", lambda p: self.length(p, "m"), "skeleton encodes the outputs", f"bo[{i}]")
        for i, s in self.slots("OO"):
            self.same_obj(mc.cell(oo, i), self.oname(s, "o:"), "skeleton passes the objects", f"oo[{i}]")

    def call(self, mc, op, cls, nm, ds, args):
        if not (args and isinstance(args[0], Obj) and args[0].cls == "user") or op == 0xb8:
            if args and isinstance(args[0], Obj) and args[0].cls == "ext" and op != 0xb8:
                raise Mismatch("skeleton calls the implementation once", f"calls {nm} of an object")
            return NotImplemented
        if mc is not self.mach:
            raise Unsup("implementation called in a loop")
        m, sp = self.m, self.sp
        self.called += 1
        self.want(nm == m.name, "skeleton calls the implementation once", f"{nm} is called")
        vals, lens = {}, {}
        ps = impl.params(sp, m)
        self.want(len(ps) == len(args) - 1, "skeleton calls the implementation once", "another number of arguments")
        for (t, n, p, role), v in zip(ps, args[1:]):
            if role == "len":
                e = p.arr if sp.kind(p) == "objs" else self.cap(p)
                self.want(v == e, "skeleton passes the capacities", lambda: f"the length of {p.name} is {show(v)} instead of {show(e)}")
            else:
                vals[p.name] = v

        def get(p):
            return vals[p.name]
        for i, s in self.slots("BI"):
            self.check_from(s, i, "bi", get, lambda p: self.length(p, "n"), "skeleton decodes the inputs")
        for i, s in self.slots("OI"):
            v = get(s["p"])
            if s["kind"] == "objel":
                self.want(isinstance(v, Arr) and v.n == s["p"].arr, "skeleton decodes the inputs", f"{s['p'].name} is {show(v)}")
                v = mc.cell(v, s["i"])
            self.same_obj(v, f"oi{i}", "skeleton decodes the inputs", self.oname(s, ""))
        for p in m.params:
            if p.dir == "out":
                h = vals[p.name]
                self.want(isinstance(h, Arr) and isinstance(h.n, int) and h.n >= 1, "skeleton provides for the outputs", f"the holder of {p.name} is {show(h)}")
                k = sp.kind(p)
                if k == "fixed" and p.ty not in PRIM or k == "objs" and self.mutate:
                    self.want(h.cells.get(0) is not None, "skeleton provides for the outputs", f"{p.name} holds null")
        if self.throws:
            raise Throw(EXC, "", Obj(EXC, {"mine": 1}))
        for p in m.params:
            if p.dir != "out":
                continue
            h, k = vals[p.name], sp.kind(p)
            path = ("o:" + p.name,)
            if k == "obj":
                v = self.obj(path[0])
            elif k == "objs":
                v = Arr("L" + MO + ";", p.arr)
                if self.mutate:
                    v = h.cells[0]
                    self.want(isinstance(v, Arr) and v.n == p.arr, "skeleton provides for the outputs", f"{p.name} holds {show(v)}")
                for i in range(p.arr):
                    v.cells[i] = self.obj(f"{path[0]}[{i}]")
            elif k in ("arr", "buf"):
                v = Arr(self.et(p), self.length(p, "m"), origin=path)
            elif p.ty in PRIM:
                v = ("val", jt(p.ty), path)
            elif self.mutate:
                v = h.cells[0]
                self.fill(v, p.ty, path)
            else:
                v = self.struct(p.ty, path)
            h.cells[0] = v
        return None

    def fill(self, o, ty, path):
        """the implementation assigns every field of the struct it was given"""
        self.want(isinstance(o, Obj), "skeleton provides for the outputs", f"{path} is {show(o)}")
        for f in self.sp.structs[ty].fields:
            v = self.field(f, path + (f.name,))
            if f.n is not None or f.ty not in PRIM:
                w = self.mach.getfield(o, f.name, "?")
                what = ".".join(map(str, path + (f.name,)))
                if f.n is not None:
                    self.want(isinstance(w, Arr) and w.n == f.n, "skeleton provides for the outputs", f"{what} is {show(w)}")
                    for i in range(f.n):
                        if f.ty in PRIM:
                            w.cells[i] = v.cells[i]
                        else:
                            self.fill(self.mach.cell(w, i), f.ty, path + (f.name, i))
                else:
                    self.fill(w, f.ty, path + (f.name,))
            else:
                o.f[f.name] = v


def sides(m):
    """(label, class, keyword arguments)"""
    outs = [p.name for p in m.params if p.dir == "out"]
    yield "proxy", Proxy, {}
    for n in outs:
        yield f"proxy, {n} not wanted", Proxy, {"nulls": (n,)}
    yield "proxy, remote fails", Proxy, {"throws": True}
    yield "skeleton", Skeleton, {}
    if outs:
        yield "skeleton, outputs assigned in place", Skeleton, {"mutate": True}
    yield "skeleton, implementation fails", Skeleton, {"throws": True}


RULES = {Proxy: ["proxy invokes once", "proxy invokes its object", "proxy passes the op-code", "proxy passes the canonical counts", "proxy encodes the inputs",
                 "proxy requests the output sizes", "proxy passes the objects", "proxy returns", "proxy returns the outputs"],
         Skeleton: ["skeleton calls the implementation once", "skeleton passes the capacities", "skeleton decodes the inputs", "skeleton provides for the outputs",
                    "skeleton returns", "skeleton encodes the outputs", "skeleton passes the objects"]}
FAIL = {Proxy: ["proxy invokes once", "proxy reports errors"], Skeleton: ["skeleton calls the implementation once", "skeleton reports errors"]}


def once(sp, classes, iface, m, op, cls, kw, lens, visited, facts=()):
    s = cls(sp, classes, m, lens, facts, **kw)
    s.op = op
    try:
        s.run(iface)
    finally:
        if s.mach is not None:
            visited |= s.mach.visited
    return s


def witness(facts):
    """lengths which satisfy the facts"""
    atoms = sorted({a for e in facts for a, _ in e.t})
    vals = sorted({0, 1, 2, 3} | {max(0, s * e.c + i) for e in facts for i in (-1, 0, 1) for s in (1, -1) if abs(e.c) < 700})
    for c in itertools.islice(itertools.product(vals, repeat=len(atoms)), 20000):
        d = dict(zip(atoms, c))
        if all(e.c + sum(k * d[a] for a, k in e.t) >= 0 for e in facts):
            return {a[-1]: n for a, n in d.items()}
    return None


def method(sp, classes, iface, m, op, key, visited, stat):
    out = []
    for label, cls, kw in sides(m):
        k = f"{key} [{label}]"
        todo, n, why, bad, texts = [()], 0, None, None, ""
        while todo and not bad:
            facts = todo.pop()
            n += 1
            try:
                s = once(sp, classes, iface, m, op, cls, kw, None, visited, facts)
                stat["loops summarised"] = stat.get("loops summarised", 0) + s.loops
            except Mismatch as e:
                if not facts:
                    bad = (e.rule, e.detail)
                    break
                lens = witness(facts)
                if lens is None:
                    why = f"case without a witness: {e}"
                    continue
                try:
                    once(sp, classes, iface, m, op, cls, kw, lens, visited)
                    why = f"not confirmed: {e}"
                except Mismatch as e:
                    bad = (e.rule, f"array lengths {lens}: {e.detail}")
                except Unsup as e:
                    why = str(e)
            except Split as e:
                texts += f" {e}"
                if n > 60 or len(facts) > 10:
                    why = str(e)
                    continue
                d = e.d
                todo += [facts + (sub(-1, d),), facts + ((sub(d, 1),) if e.eq else (d,))] + ([facts + (d, sub(0, d))] if e.eq else [])
            except Unsup as e:
                why = str(e)
        if n > 1:
            stat["cases on lengths"] = stat.get("cases on lengths", 0) + n
        if why and not bad:
            # lengths one by one: a counterexample for some lengths is a counterexample
            special = {int(x) + i for x in re.findall(r"\b\d+\b", why + texts) for i in (-1, 0, 1, 2)}
            names = [f"{w}_{p.name}" for p in m.params for w in "nmr"]
            for lens in [0, 1, 2, 3] + [{x: v for x in names} for v in sorted(special) if 3 < v <= 1100]:
                try:
                    once(sp, classes, iface, m, op, cls, kw, lens, visited)
                except Mismatch as e:
                    bad = (e.rule, f"array lengths {lens if isinstance(lens, int) else max(lens.values())}, ...: {e.detail}")
                    break
                except Unsup as e:
                    why = str(e)
        if bad:
            out.append(("bad", bad[0], k, bad[1]))
        elif why:
            out.append(("und", "analysed", k, why))
            stat["lengths 0 to 3 only"] = stat.get("lengths 0 to 3 only", 0) + 1
        else:
            out += [("ok", r) for r in (FAIL if kw.get("throws") else RULES)[cls]]
    return out
