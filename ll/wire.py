"""Obligations on generated stubs and skeletons, discharged by the value-flow analysis of their LLVM IR.

Every function returns [(status, categories, rule, key, detail)]; status is ok | bad | und, categories is the set of
property ids the obligation belongs to."""
from .exec import Env, Ptr, Region, Sym, UNDEF, MemErr, Abort, Unsup, explore, frombytes, tobytes, var, show, showb
from .harness import slots
from idlv.idl import pack

REL, RET = 0xffff, 0xfffe
C1, C2, C3, C4, C5, C7 = "C01", "C02", "C03", "C04", "C05", "C07"


def msym(name, off, n):
    return frombytes([("m", name, off + i) for i in range(n)])


class Out:
    def __init__(self, key):
        self.key = key
        self.r = []

    def ok(self, cats, rule):
        self.r.append(("ok", cats, rule, self.key, ""))

    def bad(self, cats, rule, detail, sub=""):
        self.r.append(("bad", cats, rule, self.key + (": " + sub if sub else ""), detail))

    def und(self, cats, rule, detail):
        self.r.append(("und", cats, rule, self.key, detail))

    def need(self, cond, cats, rule, detail, sub=""):
        if cond:
            self.ok(cats, rule)
        else:
            self.bad(cats, rule, detail() if callable(detail) else detail, sub)
        return cond


def eq(st, act, exp):
    """atom lists equal under the facts of the trace"""
    if act == exp:
        return True
    if len(act) != len(exp):
        return False
    n = len(act)
    for step in (n, 8, 4, 2, 1):
        if n % step:
            continue
        if all(same(st, act[i:i + step], exp[i:i + step]) for i in range(0, n, step)):
            return True
    return False


def same(st, a, b):
    if a == b:
        return True
    x, y = st.norm(frombytes(a)), st.norm(frombytes(b))
    return x == y and x != UNDEF


def fmt(bs):
    v = frombytes(list(bs)) if bs else 0
    return show(v)


def describe(st):
    return "; ".join(("" if r else "not ") + show(c) for r, c in st.cond[-12:])


class BaseEnv(Env):
    def other(self, st, n, args):
        if "panic_count" in n or "panicking" in n and "panic" not in n:
            return 0
        if "lock_contended" in n or "futex" in n:
            raise Unsup("contended lock: " + n)
        return super().other(st, n, args)

    def objcall(self, st, f, args):
        op = st.norm(args[1])
        if op in (REL, RET) and st.norm(args[3]) == 0:
            st.events.append(("rel" if op == REL else "ret", (f, st.norm(args[0]))))
            return 0
        return NotImplemented


def ownership(st, o, cats, allow=()):
    """no net retain or release, never a release of a borrowed reference"""
    net = {}
    low = {}
    for e in st.events:
        if e[0] in ("rel", "ret"):
            k = e[1]
            net[k] = net.get(k, 0) + (1 if e[0] == "ret" else -1)
            low[k] = min(low.get(k, 0), net[k])
    for k in net:
        o.need(net[k] == 0 and low[k] >= 0, cats, "reference counts neutral",
               lambda: f"object ({show(k[0])},{show(k[1])}): {net[k]:+d} references over the call, lowest {low[k]:+d}; trace: {describe(st)}", objname(k))
    if not net:
        o.ok(cats, "reference counts neutral")


def objname(k):
    return show(k[0]) if isinstance(k[0], Sym) else "object"


# ------------------------------------------------------------------------------------- stub
class StubEnv(BaseEnv):
    def __init__(self, sp, m, visited):
        super().__init__()
        self.sp = sp
        self.meth = m
        self.visited = visited
        self.inv = None

    def indirect(self, st, f, args):
        r = self.objcall(st, f, args)
        if r is not NotImplemented:
            return r
        if f != msym("self", 0, 8) or st.norm(args[0]) != msym("self", 8, 8):
            raise MemErr(f"invocation of {show(f)} instead of the proxied object")
        if self.inv is not None:
            raise MemErr("a second invocation is issued")
        op, a, k = st.norm(args[1]), st.norm(args[2]), st.norm(args[3])
        st.events.append(("invoke",))
        inv = self.inv = {"op": op, "k": k, "slots": [], "aptr": a}
        if not isinstance(k, int):
            return var("status", 32)
        cnt = [k & 15, k >> 4 & 15, k >> 8 & 15, k >> 12 & 15]
        total = sum(cnt)
        inv["counts"] = cnt
        if total == 0:
            return var("status", 32)
        if not isinstance(a, Ptr):
            raise MemErr(f"{total} arguments declared but the argument array is {show(a)}")
        if isinstance(a.r.size, int) and st.norm(a.off) + 16 * total > a.r.size:
            raise MemErr(f"{total} arguments declared but the argument array holds {a.r.size // 16}")
        for i in range(total):
            at = Ptr(a.r, a.off + 16 * i)
            bs = st.peek(at, 16)
            cls = "BI" if i < cnt[0] else "BO" if i < cnt[0] + cnt[1] else "OI" if i < sum(cnt[:3]) else "OO"
            s = {"cls": cls, "raw": bs, "i": i}
            if cls in ("BI", "BO"):
                p, n = st.norm(frombytes(bs[:8])), st.norm(frombytes(bs[8:]))
                s["ptr"], s["size"] = p, n
                s["content"] = None
                if isinstance(p, Ptr) and isinstance(n, int) and p.r.kind != "fn" and n < 1 << 20:
                    if not p.r.live:
                        raise MemErr(f"argument {i} points to {p.r.name}, whose lifetime has ended")
                    off = st.norm(p.off)
                    if isinstance(p.r.size, int) and isinstance(off, int) and off + n > p.r.size:
                        raise MemErr(f"argument {i}: {n} bytes declared, {p.r.size - off} exist behind the pointer ({p.r.name})")
                    s["content"] = st.peek(p, n)
            inv["slots"].append(s)
        # the callee's view ends here; now its effects
        for i, s in enumerate(inv["slots"]):
            at = Ptr(a.r, a.off + 16 * i)
            if s["cls"] == "BO":
                j = i - cnt[0]
                if isinstance(s["ptr"], Ptr) and isinstance(s["size"], int):
                    st.poke(s["ptr"], [("m", f"bo{j}", x) for x in range(s["size"])])
                else:
                    st.poke(Ptr(at.r, at.off + 8), tobytes(var(f"osz{j}", 64), 8))
            elif s["cls"] == "OO":
                j = i - sum(cnt[:3])
                st.poke(at, [("m", f"oo{j}", x) for x in range(16)])
        return var("status", 32)


def stub_memory(sp, m):
    v = Region("v", None, "undef", "harness")
    regs = {}
    for i, (p, k, what) in enumerate(slots(sp, m)):
        if what == "data":
            r = Region(f"data.{p.name}", msym(f"len.{p.name}", 0, 8), "sym", "harness")
        elif what == "len":
            r = Region(f"len.{p.name}", 8, "sym", "harness", ro=True)
        elif what == "lenout":
            r = Region(f"lenout.{p.name}", 8, "sym", "harness")
        else:
            sz = sp.size(p.ty) * (p.arr if k == "objs" else 1)
            r = Region(f"v.{p.name}", sz, "sym", "harness", ro=p.dir == "in")
        regs[p.name, what] = r
        for j, b in enumerate(tobytes(Ptr(r, 0), 8)):
            v.data[8 * i + j] = b
    return v, regs


def stub(mod, sp, iface, m, op, lang, key, visited, wname=None):
    o = Out(f"{key}/{lang}")
    name = wname or f"@w_{iface}_{m.name}"
    env_box = []
    mems = {}

    def mkenv():
        e = StubEnv(sp, m, visited)
        env_box.append(e)
        return e

    def run(st):
        v, regs = stub_memory(sp, m)
        st.mem = regs
        selfr = Region("self", 16, "sym", "harness", ro=True)
        return st.call(name, [Ptr(selfr, 0), Ptr(v, 0)])

    allc = {C1, C2, C3, C5, C7}
    if name not in mod.funcs:
        o.und(allc, "stub analysed", "no function " + name)
        return o.r
    env = sp.envelope(m)
    counts = sp.counts(m)
    traces = 0
    inst = {}
    for st, out in explore(mod, mkenv, run, 300):
        e = env_box.pop() if env_box else None
        traces += 1
        if out[0] == "unsup":
            o.und(allc, "stub analysed", out[1])
            continue
        if out[0] == "mem":
            o.bad({C1, C2, C3}, "stub memory", out[1] + "; trace: " + describe(st), out[1][:80])
            continue
        if out[0] == "abort":
            o.bad({C1}, "stub returns", out[1] + "; trace: " + describe(st))
            continue
        inv = e.inv
        if not o.need(inv is not None, {C1, C2}, "stub invokes", "no invocation is issued"):
            continue
        o.need(inv["op"] == op, {C1, C2, C7}, "op-code of the invocation", lambda: f"issues op {show(inv['op'])}, the method has {op}")
        if not o.need(inv["k"] == pack(counts), {C1, C2}, "counts word", lambda: f"issues counts {show(inv['k'])}, prescribed {counts} = {pack(counts)}"):
            continue
        stub_slots(st, o, sp, m, env, inv)
        stub_outputs(st, o, sp, m, env, inv, out[1])
        ownership(st, o, {C5})
    if not traces:
        o.und(allc, "stub analysed", "no trace")
    return o.r


def want_fixed(sp, p, region, base, off, blank=True):
    """wire atoms of a fixed-size value living at `region`+off; object fields are blank"""
    out = []
    for lo, n, kind in sp.leaves(p.ty):
        if kind == "obj":
            out += [0] * n if blank else [None] * n
        else:
            out += [("m", region, off + lo + i) for i in range(n)]
    return out


def cmp_blank(st, act, exp):
    """first differing (offset) or None; None in exp = don't care"""
    i = 0
    n = len(exp)
    while i < n:
        if exp[i] is None:
            i += 1
            continue
        j = i
        while j < n and exp[j] is not None:
            j += 1
        if not eq(st, act[i:j], exp[i:j]):
            for q in range(i, j):
                if not (act[q] == exp[q] or same(st, act[q:q + 1], exp[q:q + 1])):
                    return q
            # only differs as a group of bytes
            k = i
            while k < j:
                step = min(8, j - k)
                if not same(st, act[k:k + step], exp[k:k + step]):
                    return k
                k += step
            return None
        i = j
    return None


def stub_slots(st, o, sp, m, env, inv):
    sl = inv["slots"]
    i = 0
    for cls in ("BI", "BO", "OI", "OO"):
        for w in env[cls]:
            s = sl[i]
            i += 1
            what = f"argument {i - 1} ({cls}, {w['kind']}{' ' + w['p'].name if 'p' in w else ''})"
            if cls == "BI" or cls == "BO":
                if w["kind"] in ("bundle", "fixed"):
                    if not o.need(s["size"] == w["size"] and isinstance(s["ptr"], Ptr), {C1, C2, C3}, "fixed-size buffer",
                                  lambda: f"{what}: size {show(s['size'])} at {show(s['ptr'])}, prescribed {w['size']} bytes", what):
                        continue
                    if cls == "BI":
                        exp = []
                        if w["kind"] == "bundle":
                            for p, off in w["members"]:
                                exp += want_fixed(sp, p, f"v.{p.name}", 0, 0)
                        else:
                            exp = want_fixed(sp, w["p"], f"v.{w['p'].name}", 0, 0)
                        d = cmp_blank(st, s["content"], exp)
                        o.need(d is None, {C1, C3}, "transmitted bytes",
                               lambda: f"{what}: byte {d} is {showb(s['content'][d])}, prescribed {showb(exp[d])}; trace: {describe(st)}", what)
                else:
                    ln = msym(f"len.{w['p'].name}", 0, 8)
                    exp = st.bin("mul", 64, ln, w["esz"])
                    data = st.mem[w["p"].name, "data"]
                    o.need(s["size"] == st.norm(exp), {C1, C3}, "array size", lambda: f"{what}: {show(s['size'])} bytes, prescribed {show(exp)}", what)
                    o.need(isinstance(s["ptr"], Ptr) and s["ptr"].r is data and st.norm(s["ptr"].off) == 0, {C1, C2, C3}, "array data",
                           lambda: f"{what}: data at {show(s['ptr'])}, prescribed the caller's {data.name}", what)
            elif cls == "OI":
                off = 0
                nm = f"v.{w['p'].name}"
                if w["kind"] == "field":
                    off = w["off"]
                elif w["kind"] == "objel":
                    off = 16 * w["i"]
                objcmp(st, o, {C1, C2}, "input object", what, s["raw"], nm, off)


def objcmp(st, o, cats, rule, what, act, nm, off):
    exp = [("m", nm, off + i) for i in range(16)]
    fn = st.norm(frombytes(exp[:8]))
    if fn == 0:
        good = same(st, act[:8], exp[:8])
    else:
        good = same(st, act[:8], exp[:8]) and same(st, act[8:], exp[8:])
    return o.need(good, cats, rule, lambda: f"{what}: ({fmt(act[:8])}, {fmt(act[8:])}), prescribed {nm}[{off}..{off + 16}]; trace: {describe(st)}", what)


def stub_outputs(st, o, sp, m, env, inv, ret):
    status = var("status", 32)
    o.need(st.norm(ret) == st.norm(status), {C1}, "status returned", lambda: f"returns {show(ret)} for the callee's status; trace: {describe(st)}")
    z = st.known_eq(status, 0)
    if z != 0:
        for j, w in enumerate(env["BO"]):
            if w["kind"] == "arr":
                r = st.mem[w["p"].name, "lenout"]
                got = st.norm(frombytes(st.peek(Ptr(r, 0), 8)))
                exp = st.bin("udiv", 64, var(f"osz{j}", 64), w["esz"])
                o.need(got == st.norm(exp), {C1}, "reported output length", lambda: f"{w['p'].name}: {show(got)}, prescribed {show(exp)}; trace: {describe(st)}", w["p"].name)
                continue
            for p, off in w["members"] if w["kind"] == "bundle" else [(w["p"], 0)]:
                r = st.mem[p.name, "val"]
                n = sp.size(p.ty)
                exp = want_fixed(sp, p, f"bo{j}", 0, off, blank=False)
                act = st.peek(Ptr(r, 0), n)
                d = cmp_blank(st, act, exp)
                o.need(d is None, {C1, C3}, "output value", lambda: f"{p.name}: byte {d} is {showb(act[d])}, prescribed {showb(exp[d])}; trace: {describe(st)}", p.name)
        for j, w in enumerate(env["OO"]):
            r = st.mem[w["p"].name, "val"]
            off = w.get("off", 0) if w["kind"] == "field" else 16 * w.get("i", 0)
            act = st.peek(Ptr(r, off), 16)
            objcmp(st, o, {C1, C5}, "output object", f"{w['p'].name}+{off}", act, f"oo{j}", 0)
    if z != 1:
        n = 0
        for j, w in enumerate(env["OO"]):
            r = st.mem[w["p"].name, "val"]
            off = w.get("off", 0) if w["kind"] == "field" else 16 * w.get("i", 0)
            act = st.peek(Ptr(r, off), 16)
            leak = any(isinstance(b, tuple) and b != UNDEF and b[0] == "m" and b[1].startswith("oo") for b in act)
            o.need(not leak, {C5}, "failed call adopts nothing", lambda: f"{w['p'].name}+{off} holds the callee's object although the status may be non-zero; trace: {describe(st)}", w["p"].name)
        for e in st.events:
            if e[0] in ("rel", "ret") and "oo" in show(e[1][0]):
                o.bad({C5}, "failed call adopts nothing", f"{e[0]} of a callee object; trace: {describe(st)}", "refcount")


# ------------------------------------------------------------------------------------- skeleton
class SkelEnv(BaseEnv):
    def __init__(self, sp, iface, visited, aregion):
        super().__init__()
        self.sp = sp
        self.iface = iface
        self.visited = visited
        self.a = aregion
        self.calls = []
        self.armed = False
        self.ops = {f"ext_{iface}_{m.name}": (m, op) for _, m, op in sp.ops(iface)}

    def kcounts(self, st):
        k = st.norm(var("k", 32))
        if isinstance(k, int):
            return [k & 15, k >> 4 & 15, k >> 8 & 15, k >> 12 & 15]
        return None

    def access(self, st, r, off, n, write):
        if r is self.a:
            c = self.kcounts(st)
            if c is None:
                raise MemErr("argument slots are touched before the counts are established")
            if not isinstance(off, int) or off < 0 or off + n > 16 * sum(c):
                raise MemErr(f"argument slot {show(off)}/16 is touched, the counts describe {sum(c)} slots")
            if write:
                i = off // 16
                if not (c[0] <= i < c[0] + c[1] and off % 16 == 8 or i >= sum(c[:3])):
                    raise MemErr(f"argument slot {i} (byte {off % 16}) is overwritten")
        elif r.kind == "me":
            raise MemErr("the implementor's context is dereferenced")

    def resolve(self, st, sym):
        if sym.op == "b" and len(sym.args) == 8 and all(isinstance(x, tuple) and x[0] == "m" and x[1] == "a" for x in sym.args):
            off = sym.args[0][2]
            if off % 16 == 0 and all(x[2] == off + i for i, x in enumerate(sym.args)):
                i = off // 16
                c = self.kcounts(st)
                if c is None or i >= c[0] + c[1]:
                    raise MemErr(f"argument slot {i} is dereferenced as a buffer")
                return Ptr(Region(f"buf{i}", msym("a", off + 8, 8), "sym", "buf", meta=i, ro=i < c[0]), 0)
        return None

    def indirect(self, st, f, args):
        r = self.objcall(st, f, args)
        if r is not NotImplemented:
            return r
        raise MemErr("the skeleton invokes " + show(f))

    def ext(self, st, name, args):
        if name in ("ext_release", "ext_retain"):
            st.events.append((name,))
            self.calls.append({"name": name, "me": st.norm(args[0])})
            return var("ret", 32)
        if name == "ext_drop":
            st.events.append(("drop",))
            return None
        if name not in self.ops:
            raise MemErr("unknown implementation function " + name)
        m, op = self.ops[name]
        v = st.ptr(args[1])
        c = {"name": name, "m": m, "op": op, "me": st.norm(args[0]), "slots": [], "nev": len(st.events)}
        st.events.append(("ext", name))
        for i, (p, k, what) in enumerate(slots(self.sp, m)):
            x = st.norm(frombytes(st.rd(Ptr(v.r, v.off + 8 * i), 8)))
            d = {"p": p, "k": k, "what": what, "ptr": x}
            if what == "val" and p.dir == "in" or what == "len":
                n = 8 if what == "len" else self.sp.size(p.ty) * (p.arr if k == "objs" else 1)
                pp = st.ptr(x)
                d["bytes"] = st.rd(pp, n)
            elif what == "val":
                n = self.sp.size(p.ty) * (p.arr if k == "objs" else 1)
                pp = st.ptr(x)
                st.wr(pp, [("m", f"impl.{p.name}", j) for j in range(n)])
            elif what == "lenout":
                st.wr(st.ptr(x), tobytes(var(f"lenout.{p.name}", 64), 8))
            elif what == "data":
                if isinstance(x, Sym):
                    q = self.resolve(st, x)
                    if q is not None:
                        st.setbind(x, q)
                        x = d["ptr"] = q
            c["slots"].append(d)
        self.calls.append(c)
        return var("ret", 32)


def snapshot(st, regions):
    return {id(r): (r, dict(r.data), r.live) for r in regions}


def skel(mod, sp, iface, lang, key, visited, entry=None, maker=None, provide=True, direct_me=False):
    """entry: name of the invoke function (C); maker: function building an object (C++, Rust)"""
    o = Out(f"{key}/{lang}")
    allc = {C1, C2, C3, C4, C5, C7}
    box = []

    def mkenv():
        a = Region("a", None, "sym", "args")
        e = SkelEnv(sp, iface, visited, a)
        box.append(e)
        return e

    def run(st):
        e = st.env
        if maker:
            ob = Region("obj", 16, "undef", "harness")
            st.call(maker, [Ptr(ob, 0)])
            fn = st.norm(frombytes(st.peek(Ptr(ob, 0), 8)))
            me = st.norm(frombytes(st.peek(Ptr(ob, 8), 8)))
            if not isinstance(fn, Ptr) or fn.r.kind != "fn":
                raise Unsup("object without an invoke function")
            name = fn.r.name
            st.heap0 = {}
            for ev in st.events:
                if ev[0] == "alloc" and ev[1].live:
                    st.heap0[ev[1]] = dict(ev[1].data)
            st.nev0 = len(st.events)
        else:
            name = entry
            me = Ptr(Region("me", None, "sym", "me"), 0)
            st.heap0 = {}
            st.nev0 = 0
        st.me = me
        st.events.append(("begin",))
        return st.call(name, [me, var("op", 32), Ptr(e.a, 0), var("k", 32)])

    if (entry or maker) not in mod.funcs:
        o.und(allc, "skeleton analysed", f"no function {entry or maker}")
        return o.r
    ops = {op: m for _, m, op in sp.ops(iface)}
    reached = {}
    default = 0
    opsym = var("op", 32)
    for st, out in explore(mod, mkenv, run, 6000):
        e = box.pop() if box else None
        if out[0] == "unsup":
            o.und(allc, "skeleton analysed", out[1])
            continue
        opv = st.norm(opsym)
        if not isinstance(opv, int):
            opv = st.norm(st.bin("and", 32, opsym, 0xffff))
        if not isinstance(opv, int):
            opv = None
        m = ops.get(opv)
        nm = m.name if m else {None: "unknown op", REL: "release", RET: "retain"}.get(opv, f"op {opv}")
        o.key = f"{key}/{lang}/{nm}"
        ext = [c for c in e.calls if "m" in c]
        if out[0] == "mem":
            cats = {C4} if not ext else {C1, C2, C3, C4}
            if m and st.known_eq(var("k", 32), pack(sp.counts(m))) == 1:
                cats = cats | {C1, C2, C3}
            o.bad(cats, "skeleton memory", out[1] + "; trace: " + describe(st), out[1][:80])
            continue
        if out[0] == "abort":
            # an implementation that reports more than the capacity it was given breaks its own contract
            if ext and any("lenout" in show(c) for _, c in st.cond):
                o.ok({C4}, "skeleton ends normally")
            else:
                o.bad({C1, C4}, "skeleton ends normally", out[1] + "; trace: " + describe(st))
            continue
        ret = st.norm(out[1])
        if not ext:
            if opv in (REL, RET):
                continue
            if m is None:
                default += 1
                o.need(isinstance(ret, int) and ret != 0, {C4}, "unknown op-code refused", lambda: f"status {show(ret)}; trace: {describe(st)}")
                o.need(not e.calls, {C4}, "unknown op-code refused", lambda: f"{e.calls[0]['name']} is called; trace: {describe(st)}")
                steady(st, e, o)
                continue
            o.need(isinstance(ret, int) and ret != 0, {C4}, "refusal has an error status", lambda: f"status {show(ret)} without calling the implementation; trace: {describe(st)}")
            reason = refusal_reason(st, sp, m)
            if reason is None:
                if m.optional and not provide:
                    reached[opv] = reached.get(opv, 0) + 1
                    o.need(ret == 2, {C4}, "absent optional method answers 'invalid request'", lambda: f"status {show(ret)}; trace: {describe(st)}")
                else:
                    o.bad({C1, C2, C3, C4}, "conforming invocation served", f"status {show(ret)} without calling the implementation; trace: {describe(st)}")
            else:
                o.ok({C4}, "refused before the implementation")
            steady(st, e, o)
            ownership(st, o, {C5})
            continue
        # the implementation runs
        if not o.need(len(ext) == 1 and m is not None and ext[0]["m"] is m, {C1, C2, C4, C7}, "dispatch by op-code",
                      lambda: f"op {opv} reaches {[c['name'] for c in ext]}; trace: {describe(st)}"):
            continue
        c = ext[0]
        reached[opv] = reached.get(opv, 0) + 1
        good = o.need(st.norm(var("k", 32)) == pack(sp.counts(m)), {C1, C2, C4}, "counts checked",
                      lambda: f"the implementation runs with counts {show(st.norm(var('k', 32)))}, prescribed {sp.counts(m)}; trace: {describe(st)}")
        if m.optional and not provide:
            o.bad({C4}, "absent optional method answers 'invalid request'", "the implementation is called")
        if good:
            skel_args(st, o, sp, m, c, e)
            skel_results(st, o, sp, m, c, e, ret)
        ownership(st, o, {C5})
        steady(st, e, o, call=True)
    o.key = f"{key}/{lang}"
    if not any(r[0] == "und" for r in o.r):
        for opv, m in ops.items():
            o.need(reached.get(opv), {C1, C2, C4, C7}, "method reachable", f"no invocation with op {opv} reaches {m.name}", m.name)
        o.need(default, {C4, C7}, "unknown op-codes have their own outcome", "no trace for op-codes outside the interface")
    return o.r


def refusal_reason(st, sp, m):
    """the fact on this trace that licenses a refusal"""
    if st.known_eq(var("k", 32), pack(sp.counts(m))) == 0:
        return "counts"
    i = 0
    env = sp.envelope(m)
    for cls in ("BI", "BO"):
        for w in env[cls]:
            if w["kind"] in ("bundle", "fixed"):
                if st.known_eq(msym("a", 16 * i + 8, 8), w["size"]) == 0:
                    return f"size of argument {i}"
            elif w["esz"] > 1:
                # a trailing fraction of an element
                pass
            i += 1
    return None


def steady(st, e, o, call=False):
    """nothing the object owns changed: lock state, reference count, implementor memory"""
    ch = []
    for r, d in st.heap0.items():
        if not r.live:
            ch.append(f"{r.name} freed")
            continue
        for k in set(d) | set(r.data):
            if d.get(k) != r.data.get(k):
                ch.append(f"{r.name} byte {k}: {showb(d.get(k, UNDEF))} -> {showb(r.data.get(k, UNDEF))}")
                break
    for ev in st.events[st.nev0:]:
        if ev[0] == "alloc" and ev[1].live:
            ch.append("memory is left allocated")
        if ev[0] == "drop":
            ch.append("the implementation is dropped")
    o.need(not ch, {C4, "C20"} if not call else {C1, C4, "C20"}, "object left usable", lambda: "; ".join(ch) + "; trace: " + describe(st))


def skel_args(st, o, sp, m, c, e):
    env = sp.envelope(m)
    where = {}
    i = 0
    for cls in ("BI", "BO", "OI", "OO"):
        for w in env[cls]:
            if w["kind"] in ("bundle", "fixed"):
                sz = st.norm(msym("a", 16 * i + 8, 8))
                o.need(sz == w["size"], {C1, C2, C3, C4}, "fixed size checked",
                       lambda: f"argument {i} ({cls}): size {show(sz)} accepted, prescribed {w['size']}; trace: {describe(st)}", f"argument {i}")
                for p, off in w["members"] if w["kind"] == "bundle" else [(w["p"], 0)]:
                    where[p.name] = (i, off)
            elif w["kind"] == "arr":
                where[w["p"].name] = (i, w["esz"])
            else:
                off = w.get("off", 0) if w["kind"] == "field" else 16 * w.get("i", 0)
                where[w["p"].name, off] = i
            i += 1
    for s in c["slots"]:
        p, k, what = s["p"], s["k"], s["what"]
        sub = f"{p.name}"
        if k == "fixed" and p.dir == "in":
            bi, off = where[p.name]
            exp = want_fixed(sp, p, f"buf{bi}", 0, off, blank=False)
            d = cmp_blank(st, s["bytes"], exp)
            o.need(d is None, {C1, C3}, "argument value", lambda: f"{p.name}: byte {d} is {showb(s['bytes'][d])}, prescribed {showb(exp[d])}; trace: {describe(st)}", sub)
            for lo, ty in sp.objects(p.ty):
                objcmp(st, o, {C1, C2, C3, C5}, "argument object in struct", f"{p.name}+{lo}", s["bytes"][lo:lo + 16], "a", 16 * where[p.name, lo])
        elif k in ("obj", "objs") and p.dir == "in":
            for j in range(p.arr or 1):
                objcmp(st, o, {C1, C2, C5}, "argument object", f"{p.name}+{16 * j}", s["bytes"][16 * j:16 * j + 16], "a", 16 * where[p.name, 16 * j])
        elif what == "data":
            bi, esz = where[p.name]
            x = s["ptr"]
            n = st.norm(msym("a", 16 * bi + 8, 8))
            lenv = st.norm(next(frombytes(q["bytes"]) for q in c["slots"] if q["p"] is p and q["what"] == "len"))
            good = isinstance(x, Ptr) and x.r.kind == "buf" and x.r.meta == bi and st.norm(x.off) == 0
            if not good and lenv == 0:
                good = True
            o.need(good, {C1, C2, C3}, "argument data", lambda: f"{p.name}: data at {show(x)}, prescribed buffer {bi}; trace: {describe(st)}", sub)
        elif what == "len":
            bi, esz = where[p.name]
            got = st.norm(frombytes(s["bytes"]))
            exp = st.norm(st.bin("udiv", 64, msym("a", 16 * bi + 8, 8), esz))
            if exp == 0 or got == exp:
                o.need(got == exp, {C1, C3, C4}, "argument length", lambda: f"{p.name}: {show(got)}, prescribed {show(exp)}", sub)
            else:
                o.need(False, {C1, C3, C4}, "argument length", lambda: f"{p.name}: {show(got)}, prescribed {show(exp)}; trace: {describe(st)}", sub)


def skel_results(st, o, sp, m, c, e, ret):
    o.need(st.norm(ret) == st.norm(var("ret", 32)), {C1}, "implementation status returned", lambda: f"returns {show(ret)}; trace: {describe(st)}")
    z = st.known_eq(var("ret", 32), 0)
    env = sp.envelope(m)
    i = len(env["BI"])
    if z != 0:
        for w in env["BO"]:
            if w["kind"] == "arr":
                got = st.norm(frombytes(st.peek(Ptr(e.a, 16 * i + 8), 8)))
                exp = st.norm(st.bin("mul", 64, var(f"lenout.{w['p'].name}", 64), w["esz"]))
                o.need(got == exp, {C1, C3}, "reported size", lambda: f"{w['p'].name}: {show(got)}, prescribed {show(exp)}; trace: {describe(st)}", w["p"].name)
            else:
                act = buffer(st, e, i, w["size"])
                exp = []
                for p, off in w["members"] if w["kind"] == "bundle" else [(w["p"], 0)]:
                    exp += want_fixed(sp, p, f"impl.{p.name}", 0, 0)
                d = cmp_blank(st, act, exp)
                o.need(d is None, {C1, C3}, "returned bytes", lambda: f"argument {i}: byte {d} is {showb(act[d])}, prescribed {showb(exp[d])}; trace: {describe(st)}", f"argument {i}")
                sz = st.norm(frombytes(st.peek(Ptr(e.a, 16 * i + 8), 8)))
                o.need(sz == w["size"], {C1, C3}, "returned size", lambda: f"argument {i}: size becomes {show(sz)}", f"argument {i}")
            i += 1
        i += len(env["OI"])
        for w in env["OO"]:
            off = w.get("off", 0) if w["kind"] == "field" else 16 * w.get("i", 0)
            objcmp(st, o, {C1, C2, C5}, "returned object", f"argument {i}", st.peek(Ptr(e.a, 16 * i), 16), f"impl.{w['p'].name}", off)
            i += 1


def buffer(st, e, i, n):
    """contents of buffer i of the invocation after the call"""
    s = msym("a", 16 * i, 8)
    b = st.bind.get(s)
    if b is None:
        return [("m", f"buf{i}", j) for j in range(n)]
    return st.peek(b, n)
