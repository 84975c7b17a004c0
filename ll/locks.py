"""Lock-set, typestate and reference-count obligations on the Rust objects (C20), discharged over the LLVM IR of the
generated skeleton together with the runtime's wrapper.

Memory which several threads can reach (the wrapper an object is made of, globals) takes an arbitrary value whenever it is
accessed atomically; everything else about one activation of the entry point is decided on each of its traces."""
from .exec import Env, Ptr, Region, UNDEF, MemErr, Unsup, explore, frombytes, tobytes, var, show
from .wire import BaseEnv, SkelEnv, Out, describe, refusal_reason, same, REL, RET

C = {"C20"}
ACQ = ("acquire", "acq_rel", "seq_cst")
RELS = ("release", "acq_rel", "seq_cst")


def word(p):
    return (p.r.name, p.off)


class LockEnv(SkelEnv):
    """records accesses to shared memory together with the locks which are held"""

    def __init__(self, sp, iface, visited, a):
        super().__init__(sp, iface, visited, a)
        self.shared = set()
        self.on = False
        self.atomically = False
        self.held = {}
        self.acc = []           # (event index, region name, offset, bytes, write, locks)
        self.bodies = []        # (function, me, locks)
        self.n = 0
        self.pending = None
        self.got = False        # a lock was acquired on this trace

    def is_shared(self, r):
        return r in self.shared or r.kind == "global"

    def access(self, st, r, off, n, write):
        super().access(st, r, off, n, write)
        if self.on and not self.atomically and self.is_shared(r):
            self.acc.append((len(st.events), r.name, off, n, write, frozenset(self.held)))

    def before_atomic(self, st, p, n):
        if self.on and self.is_shared(p.r):
            self.n += 1
            v = var(f"shared{self.n}", 8 * n)
            for i, b in enumerate(tobytes(v, n)):
                p.r.data[st.norm(p.off) + i] = b
            self.pending = v
        else:
            self.pending = None
        self.atomically = True

    def atomic(self, st, what, p, order, v):
        self.atomically = False
        if not self.on or p is not None and not self.is_shared(p.r):
            return
        old, self.pending = self.pending, None
        st.events.append(("atomic", what, word(p) if p else None, order, v, old))
        if p is None:
            return
        w = word(p)
        v = st.norm(v) if v is not None else None
        o = st.norm(old) if old is not None else None
        if what == "cmpxchg" and o == 0 and isinstance(v, int) and v != 0:
            # 0 is the only value from which the word can be taken; who holds it has made it something else
            self.held[w] = order
            self.got = True
            if order not in ACQ:
                st.events.append(("weak", f"the lock at {w} is taken with ordering {order}"))
        elif w in self.held and (what in ("store", "rmw xchg") and v == 0 or what == "rmw sub" and v == self.held.get(w)):
            del self.held[w]
            st.events.append(("unlock", w))
            if order not in RELS:
                st.events.append(("weak", f"the lock at {w} is released with ordering {order}"))

    def other(self, st, n, args):
        if "lock_contended" in n and self.on:
            p = st.ptr(args[0])
            # std: returns once the word has been taken, with acquire ordering
            if not self.is_shared(p.r):
                raise Unsup("contended lock on private memory")
            self.held[word(p)] = "acquire"
            self.got = True
            st.events.append(("wait", word(p)))
            return None
        if "wake" in n or n == "syscall":
            return 0
        return super().other(st, n, args)

    def ext(self, st, name, args):
        if name in ("ext_drop", "ext_peek"):
            st.events.append((name, st.norm(args[0])))
            self.bodies.append((name, st.norm(args[0]), frozenset(self.held), len(st.events)))
            return None
        r = super().ext(st, name, args)
        if name in self.ops:
            self.bodies.append((name, st.norm(args[0]), frozenset(self.held), len(st.events)))
        return r


class Accesses:
    """what all activations of one object's entry points do to its memory"""

    def __init__(self):
        self.rd, self.wr, self.at = {}, {}, set()
        self.locks = []         # (key, locks) of method bodies
        self.refs = set()       # (what, location)

    def add(self, e, upto, key):
        for i, r, off, n, write, held in e.acc:
            if i > upto:
                continue
            for b in range(off, off + n) if isinstance(off, int) else []:
                d = self.wr if write else self.rd
                d.setdefault((r, b), {}).setdefault(held, key)

    def settle(self, o):
        common = None
        for k, l in self.locks:
            common = l if common is None else common & l
        if self.locks:
            o.need(common, C, "one lock protects all method bodies", lambda: "locks held: " + "; ".join(f"{k}: {sorted(l) or 'none'}" for k, l in self.locks[:12]))
        for b, by in self.wr.items():
            everyone = dict(by)
            for held, k in self.rd.get(b, {}).items():
                everyone.setdefault(held, k)
            inter = None
            for h in everyone:
                inter = h if inter is None else inter & h
            bad = [k for h, k in everyone.items() if not h] or list(everyone.values())
            if not o.need(inter and b not in self.at, C, "shared memory is accessed under the lock",
                          lambda: f"byte {b[1]} of {b[0]} is written ({by and next(iter(by.values()))}) while accesses without a common lock exist: {bad[:4]}", f"{b[0]}+{b[1]}"):
                return
        for b in self.rd:
            if b in self.at and b not in self.wr:
                if not o.need(all(self.rd[b]), C, "shared memory is accessed under the lock",
                              lambda: f"byte {b[1]} of {b[0]} is read without a lock and changed atomically: {list(self.rd[b].values())[:4]}", f"{b[0]}+{b[1]}"):
                    return
        o.ok(C, "shared memory is accessed under the lock")


def run_obj(mod, sp, iface, visited, maker, entry):
    """traces of `entry(env, st, fn name, context)` on a fresh object"""
    box = []

    def mkenv():
        e = LockEnv(sp, iface, visited, Region("a", None, "sym", "args"))
        box.append(e)
        return e

    def run(st):
        e = st.env
        st.nev0, st.heap0 = 0, {}
        ob = Region("obj", 16, "undef", "harness")
        st.call(maker, [Ptr(ob, 0)])
        fn = st.norm(frombytes(st.peek(Ptr(ob, 0), 8)))
        me = st.norm(frombytes(st.peek(Ptr(ob, 8), 8)))
        if not isinstance(fn, Ptr) or fn.r.kind != "fn":
            raise Unsup("object without an invoke function")
        for ev in st.events:
            if ev[0] == "alloc" and ev[1].live:
                st.heap0[ev[1]] = dict(ev[1].data)
        if not isinstance(me, Ptr) or me.r not in st.heap0:
            raise MemErr("memory of the object: its context is " + show(me) + ", not memory of its own")
        e.shared = set(st.heap0)
        e.on = True
        st.nev0 = len(st.events)
        st.me = me
        st.ob = ob
        return entry(st, fn.r.name, me)
    for st, out in explore(mod, mkenv, run, 12000):
        yield st, out, (box.pop() if box else None)


def obj(mod, sp, iface, key, visited, maker="@mk_Pimpl", downcast=None):
    o = Out(key)
    if maker not in mod.funcs:
        o.und(C, "object analysed", f"no function {maker}")
        return o.r
    acc = Accesses()
    ops = {op: m for _, m, op in sp.ops(iface)}
    opsym, ksym = var("op", 32), var("k", 32)
    seen = {}
    refs = {}
    init = None

    def invoke(st, name, me):
        return st.call(name, [me, opsym, Ptr(st.env.a, 0), ksym])

    def peek(st, name, me):
        return st.call(downcast, [Ptr(st.ob, 0)])
    runs = [(invoke, "invoke")] + ([(peek, "downcast")] if downcast else [])
    for entry, what in runs:
        for st, out, e in run_obj(mod, sp, iface, visited, maker, entry):
            if out[0] == "unsup":
                o.und(C, "object analysed", out[1])
                continue
            opv = st.norm(opsym)
            m = ops.get(opv) if isinstance(opv, int) else None
            nm = what if what != "invoke" else m.name if m else {REL: "release", RET: "retain"}.get(opv, "unknown op")
            o.key = f"{key}/{nm}"
            evs = st.events[st.nev0:]
            if out[0] == "mem":
                o.bad(C, "memory of the object", out[1] + "; trace: " + describe(st), out[1][:80])
                continue
            ats = [x for x in evs if x[0] == "atomic"]
            bodies = e.bodies
            if out[0] == "abort":
                # the runtime's own assertions on the count; overlong outputs
                if opv in (REL, RET) and any("shared" in show(c) for _, c in st.cond) or bodies or what == "downcast":
                    continue
                o.bad(C, "invocation ends", out[1] + "; trace: " + describe(st))
                continue
            for ev in evs:
                if ev[0] == "weak":
                    o.bad(C, "lock orders memory", ev[1])
            for x in ats:
                if x[2]:
                    acc.at.update((x[2][0], x[2][1] + i) for i in range(1))
            o.need(not e.held, C, "lock released", lambda: f"{sorted(e.held)} stays locked; trace: {describe(st)}")
            if opv in (REL, RET) and what == "invoke":
                upto = life(st, o, e, evs, ats, opv, out[1], refs)
                acc.add(e, upto, o.key)
                if init is None:
                    init = {r.name: d for r, d in st.heap0.items()}
                seen[opv] = seen.get(opv, 0) + 1
                continue
            acc.add(e, 1 << 60, o.key)
            drops = [x for x in evs if x[0] == "ext_drop"]
            frees = [x for x in evs if x[0] == "free" and x[1] in st.heap0]
            o.need(not drops and not frees, C, "only the last release drops", lambda: f"{'the implementation is dropped' if drops else 'memory of the object is freed'}; trace: {describe(st)}")
            moved = {}
            for x in ats:
                if x[1] in ("rmw add", "rmw sub") and isinstance(st.norm(x[4]), int):
                    moved[x[2]] = moved.get(x[2], 0) + (1 if x[1] == "rmw add" else -1) * st.norm(x[4])
            seen.setdefault("moved", {})
            for w, d in moved.items():
                if d:
                    seen["moved"].setdefault(w, (o.key, d))
            if what == "downcast":
                for b in bodies:
                    acc.locks.append((o.key, b[2]))
                    o.need(b[2], C, "implementation reached under the lock", lambda: f"the implementation is handed out without a lock; trace: {describe(st)}")
                    mine(st, o, b)
                continue
            meth = [b for b in bodies if b[0] not in ("ext_drop", "ext_peek")]
            if not meth:
                if m is not None and not e.got and refusal_reason(st, sp, m) is None:
                    o.bad(C, "invocation waits for its turn", f"status {show(out[1])} without the lock and without the implementation; trace: {describe(st)}")
                elif m is not None:
                    o.ok(C, "invocation waits for its turn")
                continue
            for b in meth:
                seen[opv] = seen.get(opv, 0) + 1
                acc.locks.append((o.key, b[2]))
                o.need(b[2], C, "implementation reached under the lock", lambda: f"{b[0]} runs without a lock on the object; trace: {describe(st)}")
                mine(st, o, b)
            if any(ev[0] == "wait" for ev in evs):
                o.ok(C, "invocation waits for its turn")
                seen["waits"] = seen.get("waits", 0) + 1
    o.key = key
    if any(r[0] == "und" for r in o.r):
        return o.r
    for op, m in ops.items():
        o.need(seen.get(op), C, "method analysed", f"no invocation with op {op} reaches {m.name}", m.name)
    o.need(seen.get(REL) and seen.get(RET), C, "life cycle analysed", "release or retain has no trace")
    if ops:
        o.need(seen.get("waits"), C, "invocation waits for its turn", "no trace on which a taken lock is waited for")
    rl, rt = refs.get(REL, set()), refs.get(RET, set())
    if o.need(len(rl) == 1 and rl == rt, C, "one reference count", f"retain counts at {sorted(rt)}, release at {sorted(rl)}"):
        w = next(iter(rl))
        d = (init or {}).get(w[0], {})
        v = frombytes([d.get(w[1] + i, UNDEF) for i in range(8)])
        o.need(v == 1, C, "a new object has one reference", f"the count at {w} starts with {show(v)}")
        for x, (k, n) in seen.get("moved", {}).items():
            if x == w:
                o.bad(C, "invocations keep the count", f"{k}: the count changes by {n:+d}")
    acc.settle(o)
    return o.r


def mine(st, o, b):
    me = b[1]
    o.need(isinstance(me, Ptr) and (me.r in st.heap0 or me.r.size == 0 or me.r.kind == "const"), C, "body works on the object's implementation",
           lambda: f"{b[0]} gets {show(me)}, which isn't memory the object was made of")


def life(st, o, e, evs, ats, op, ret, refs):
    """one trace of retain or release; returns the event index up to which other threads may interfere"""
    add = op == RET
    chg = [x for x in ats if x[1].startswith("rmw") or x[1] in ("store", "cmpxchg")]
    rm = [x for x in chg if x[1] in ("rmw add", "rmw sub")]
    name = "retain" if add else "release"
    step = None
    if len(chg) == 1 and rm:
        n = st.norm(rm[0][4])
        step = n if rm[0][1] == "rmw add" else -n if isinstance(n, int) else None
        if isinstance(step, int) and step >= 1 << 63:
            step -= 1 << 64
        if isinstance(step, int) and step <= -(1 << 63):
            step += 1 << 64
    if not o.need(step == (1 if add else -1), C, f"{name} changes the count once, atomically",
                  lambda: f"atomic changes: {[(x[1], x[2], show(x[4])) for x in chg]}; trace: {describe(st)}"):
        return 1 << 60
    x = rm[0]
    refs.setdefault(op, set()).add(x[2])
    at = st.events.index(x)
    drops = [y for y in evs if y[0] == "ext_drop"]
    meth = [b for b in e.bodies if b[0] not in ("ext_drop",)]
    o.need(not meth, C, f"{name} runs no method", lambda: f"{meth[0][0]} runs")
    freed = {y[1] for y in evs if y[0] == "free"}
    if add:
        o.need(not drops and not freed & set(st.heap0), C, "only the last release drops", lambda: f"retain drops the implementation; trace: {describe(st)}")
        o.need(st.norm(ret) == 0, C, "retain succeeds", lambda: f"status {show(ret)}; trace: {describe(st)}")
        return 1 << 60
    last = st.known_eq(x[5], 1)
    if last is None:
        o.bad(C, "the last release is told apart", f"the outcome doesn't depend on the count; trace: {describe(st)}")
        return at
    o.need(st.norm(ret) == 0, C, "release succeeds", lambda: f"status {show(ret)}; trace: {describe(st)}")
    if last == 0:
        o.need(not drops and not freed & set(st.heap0), C, "only the last release drops", lambda: f"dropped although other references exist; trace: {describe(st)}")
        late = [a for a in e.acc if a[0] > at]
        o.need(not late, C, "no access after giving the reference up", lambda: f"{late[0][1]}+{late[0][2]} is accessed after the count was decremented; trace: {describe(st)}")
        o.need(x[3] in RELS, C, "release orders memory", lambda: f"the count is decremented with ordering {x[3]}")
        return at
    fence = x[3] in ("acq_rel", "seq_cst") or x[3] in RELS and any(
        y[0] == "atomic" and y[3] in ACQ and (y[1] == "fence" or y[1] == "load" and y[2] == x[2]) for y in st.events[at + 1:])
    o.need(fence, C, "release orders memory", lambda: f"the last reference is given up with ordering {x[3]} and no acquire follows")
    o.need(len(drops) == 1, C, "the last release drops once", lambda: f"the implementation is dropped {len(drops)} times; trace: {describe(st)}")
    left = [r.name for r in st.heap0 if r.live]
    o.need(not left, C, "the last release drops once", lambda: f"{left} stay allocated; trace: {describe(st)}")
    return at


# ------------------------------------------------------------------------------------- handles
class HandleEnv(BaseEnv):
    def __init__(self, visited):
        super().__init__()
        self.visited = visited

    def indirect(self, st, f, args):
        r = self.objcall(st, f, args)
        if r is not NotImplemented:
            return r
        raise MemErr(f"a handle operation invokes op {show(st.norm(args[1]))}")


def handle(mod, fn, key, visited, net, moves):
    """fn(s, o): `net` references are added to the object at s; moves: the handle ends up at o unchanged"""
    o = Out(key)
    box = []

    def mkenv():
        box.append(HandleEnv(visited))
        return box[-1]

    def run(st):
        st.s, st.o = Region("s", 16, "sym", "harness"), Region("o", 16, "undef", "harness")
        return st.call(fn, [Ptr(st.s, 0), Ptr(st.o, 0)])
    if fn not in mod.funcs:
        o.und(C, "handle analysed", "no function " + fn)
        return o.r
    n = 0
    for st, out in explore(mod, mkenv, run, 200):
        n += 1
        if out[0] == "unsup":
            o.und(C, "handle analysed", out[1])
            continue
        if out[0] in ("mem", "abort"):
            o.bad(C, "handle operation", out[1] + "; trace: " + describe(st))
            continue
        want = [("m", "s", i) for i in range(16)]
        evs = [(e[0], e[1]) for e in st.events if e[0] in ("ret", "rel")]
        obj_ = (st.norm(frombytes(want[:8])), st.norm(frombytes(want[8:])))
        good = all(k == obj_ for _, k in evs)
        tot, low, hi = 0, 0, 0
        for k, _ in evs:
            tot += 1 if k == "ret" else -1
            low = min(low, tot)
        o.need(good and tot == net and low >= min(net, 0), C, "handles are counted",
               lambda: f"{[(k, show(a), show(b)) for k, (a, b) in evs]}: the operation must change the count by {net:+d}")
        if moves:
            act = st.peek(Ptr(st.o, 0), 16)
            o.need(same(st, act[:8], want[:8]) and same(st, act[8:], want[8:]), C, "handles name their object",
                   lambda: f"the resulting handle is ({show(frombytes(act[:8]))}, {show(frombytes(act[8:]))})")
    if not n:
        o.und(C, "handle analysed", "no trace")
    return o.r
