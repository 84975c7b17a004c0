"""C20: Rust objects: lock sets, typestate of the implementation's mutex and of the reference count, over the LLVM IR of the
generated skeletons with the runtime; type-level witnesses for the handles."""
import os
import re
import sys
import time

from idlv import run as R
from idlv.core import parallel
from idlv.idl import *
from idlv.idl import File
from ll import harness, locks, tool
from . import wirecat as W

NOT_COPY = """
const _: fn() = || {{
    trait Amb<A> {{ fn some() {{}} }}
    impl<T: ?Sized> Amb<()> for T {{}}
    struct Inv;
    impl<T: ?Sized + Copy> Amb<Inv> for T {{}}
    let _ = <{ty} as Amb<_>>::some;
}};
"""


def handles(sp, rp, iface):
    """functions on handles: (name, references added, handle moves to o)"""
    it = rp.ty(sp, iface)
    up = rp.ty(sp, sp.ifaces[iface].base) if sp.ifaces[iface].base else "crate::object::Object"
    fs = [("clone", 1, True, f"std::ptr::write(o, (*s).clone())"),
          ("drop", -1, False, "std::ptr::drop_in_place(s)"),
          ("into", 0, True, f"std::ptr::write(o.cast::<{up}>(), {up}::from(std::ptr::read(s)))"),
          ("as_ref", 0, True, f"std::ptr::copy_nonoverlapping(<{it} as AsRef<{up}>>::as_ref(&*s) as *const {up}, o.cast(), 1)"),
          ("deref", 0, True, f"std::ptr::copy_nonoverlapping(<{it} as std::ops::Deref>::deref(&*s) as *const {up}, o.cast(), 1)"),
          ("into_raw", 0, True, "std::ptr::write(o.cast::<crate::object::Object>(), crate::object::TypedObject::into_raw(std::ptr::read(s)))"),
          ("from_raw", 0, True, f"std::ptr::write(o, <{it} as crate::object::TypedObject>::from_raw(std::ptr::read(s.cast())))"),
          ("ref_clone", 1, True, f"std::ptr::write(o.cast::<{up}>(), <{it} as AsRef<{up}>>::as_ref(&*s).clone())")]
    txt = "".join(f'#[no_mangle]\npub unsafe extern "C" fn h_{n}_{iface}(s: *mut {it}, o: *mut {it}) {{ {b} }}\n' for n, _, _, b in fs)
    return txt, [(f"{n}", f"@h_{n}_{iface}", net, mv) for n, net, mv, _ in fs]


def witness(sp, rp, ifaces):
    t = "fn shared<T: Send + Sync + Clone + 'static>() {}\npub fn witnesses() {\n" + "".join(f"    shared::<{rp.ty(sp, i)}>();\n" for i in ifaces) + "}\n"
    return t + "".join(NOT_COPY.format(ty=rp.ty(sp, i)) for i in ifaces) + harness.rs_stub(sp, rp, ifaces[-1])


def analyse(decls, iface, key, files=None, main=W.G, names=None):
    sys.setrecursionlimit(20000)
    names = names or {}
    out = []
    visited = set()
    stat = {}
    with tool.Scratch() as s:
        g = W.Gen(s, decls, files, main)
        r = g.get("rust")
        if not r.accepted:
            return [("und", "object analysed", key, r.why())], stat
        sp = Spec(*g.files.values())
        rd = os.path.join(s.d, "rust")
        mods = {f[:-3]: os.path.join(rd, f) for f in os.listdir(rd)}
        rp = harness.RustPaths(sp, g.files)
        chain = [i.name for i in sp.chain(iface)][::-1]
        it = rp.ty(sp, iface)
        txt = harness.rs_impl(sp, rp, iface, "Pimpl")
        mod_ = it.rsplit("::", 1)[0]
        txt += 'extern "C" { fn ext_peek(me: *mut u8); }\n' \
               f'#[no_mangle]\npub unsafe extern "C" fn dc(o: *const crate::object::Object) {{ let _ = {mod_}::downcast_concrete::<(), Pimpl>(&*o, |x| ext_peek(x as *const Pimpl as *mut u8)); }}\n'
        hs = []
        for c in chain:
            t, h = handles(sp, rp, c)
            txt += t
            hs += [(c, *x) for x in h]
        try:
            mod = tool.rust_ll(s, "rs", mods, txt)
        except tool.CompileError as e:
            return [("cerr", "target compiler accepts", key, str(e)[:1500])], stat
        stat["IR functions"] = len(mod.funcs)
        rs = locks.obj(mod, sp, iface, key, visited, downcast="@dc")
        stat["objects"] = 1
        for c, n, fn, net, mv in hs:
            rs += locks.handle(mod, fn, f"{key}/{c}/{n}", visited, net, mv)
            stat["handle operations"] = stat.get("handle operations", 0) + 1
        rc, msg = tool.rust_check(s, "wit", mods, witness(sp, rp, chain))
        k = f"{key}/witness"
        rs.append(("ok", None, "handles are Send, Sync, not Copy", k, "") if rc == 0 else ("bad", None, "handles are Send, Sync, not Copy", k, re.sub(re.escape(s.d) + "/?", "", msg)[:1500]))
        n = {}
        for st, _, rule, k, d in rs:
            if st == "ok":
                n[rule] = n.get(rule, 0) + 1
            else:
                parts = k.split("/")
                out.append((st, rule, "/".join(names.get(p, p) for p in parts), d))
        out += [("ok", r, c) for r, c in n.items()]
    return out, stat


def group(batch):
    decls, iface, names = W.build(batch)
    out, stat = analyse(decls, iface, batch[0][0] if len(batch) == 1 else "IG", names=names)
    if any(r[0] == "cerr" for r in out):
        if len(batch) == 1:
            return [("und", *r[1:]) if r[0] == "cerr" else r for r in out], stat
        h = len(batch) // 2
        out = []
        for p in (batch[:h], batch[h:]):
            a, b = group(p)
            out += a
            for k, v in b.items():
                stat[k] = stat.get(k, 0) + v
    return out, stat


def run(ctx):
    W.FRONT = R.load()
    ms, seen = [], set()
    for k, q in W.methods(ctx.tier):
        t = ",".join(p.text() for p in q)
        if t not in seen and not (W.pathy(k) and not ctx.thorough):
            seen.add(t)
            ms.append((k, q))
    jobs = [("decls", k, None, iface, files, main) for k, files, main, iface in W.split()]
    jobs += [("decls", k, W.with_env(d), i, None, W.G) for k, d, i in W.chain()]
    jobs += [("batch", b) for b in W.batches(ms, 6)]

    def job(j):
        t0 = time.time()
        if j[0] == "batch":
            out, stat = group(j[1])
            stat["method shapes"] = len(j[1])
        else:
            _, k, decls, iface, files, main = j
            out, stat = analyse(decls, iface, k, files, main)
            out = [("und", *r[1:]) if r[0] == "cerr" else r for r in out]
        if os.environ.get("VERIF_PROFILE"):
            print(f"{time.time() - t0:7.1f} s {j[0]} {j[1] if j[0] == 'decls' else [m[0] for m in j[1]]}", file=sys.stderr)
        out += [("stat", k, v) for k, v in stat.items()]
        out.append(("visited", {W.FRONT.db.insts[x]["name"] for x in W.FRONT.I.visited}))
        return out
    ctx.merge(parallel(jobs, job, deadline=time.time() + (3000 if ctx.thorough else 700)))
    R.cleanup(W.FRONT)
    return ctx.finish(
        "Lock-set analysis and typestate of the lock and the reference count over every trace of the generated entry points in LLVM IR, with the "
        "wrapper memory taking arbitrary values at every atomic access: bodies only under the object's one lock, the lock given back on every exit, "
        "no unprotected access to shared memory, atomic counting, a single drop by the last release; handles counted by clone and drop; "
        "type-level witnesses (Send, Sync, not Copy).", objects=len(jobs))
