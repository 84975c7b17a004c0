"""C18: Java proxies and skeletons, over the bytecode javac makes of the generated classes."""
import os
import sys
import time

from idlv import run as R
from idlv.core import parallel
from idlv.idl import *
from idlv.idl import File
from jv import tool as jtool, wire as jwire
from ll import tool
from . import wirecat as W


def analyse(decls, iface, key, files=None, main=W.G, names=None):
    names = names or {}
    out, stat, visited = [], {}, set()
    with tool.Scratch() as s:
        g = W.Gen(s, decls, files, main)
        r = g.get("java")
        if not r.accepted:
            return [("und", "analysed", key, r.why())], stat
        sp = Spec(*g.files.values())
        d = os.path.join(s.d, "java")
        rc, msg, od = jtool.javac(s, [os.path.join(d, f) for f in sorted(os.listdir(d))])
        if rc:
            return [("cerr", "target compiler accepts", key, msg[:1500].replace(s.d, ""))], stat
        classes = jtool.classes(od)
        stat["classes"] = len(classes)
        for _, m, op in sp.ops(iface):
            rs = jwire.method(sp, classes, iface, m, op, f"{key}/{names.get(m.name, m.name)}", visited, stat)
            stat["methods"] = stat.get("methods", 0) + 1
            n = {}
            for x in rs:
                if x[0] == "ok":
                    n[x[1]] = n.get(x[1], 0) + 1
                else:
                    out.append(x)
            out += [("ok", a, b) for a, b in n.items()]
    stat["Java methods interpreted"] = len(visited)
    return out, stat


def split():
    """declarations spread over files: (key, files, main, interface)"""
    small = Struct("Small", [Field("uint16", "a"), Field("uint8", "b"), Field("int8", "c")])
    big = Struct("Big", [Field("uint64", "a"), Field("Small", "s"), Field("uint32", "z", 9)])
    one = Iface("IA", [W.M("m0", W.ps("in uint32", "out uint8")), Error("EA"), W.M("m1", [Param("in", "Small", "s"), Param("out", "Big", "t", ""), Param("in", "uint8", "x")])])
    two = [W.M("n0", [Param("in", "Big", "s"), Param("in", "uint64", "x"), Param("out", "IA", "o"), Param("in", "IB", "i"), Param("out", "Small", "t")]), Error("EB")]
    l, b, c, m = "/w/low.idl", "/w/base.idl", "/w/cc.idl", W.G
    yield "split-structs", {l: File([small]), b: File([big, one], ["low.idl"]), m: File([Iface("IB", one.nodes + two)], ["low.idl", "base.idl"])}, m, "IB"
    yield "split-base", {l: File([small, big]), b: File([one], ["low.idl"]), m: File([Iface("IB", two, "IA")], ["base.idl", "low.idl"])}, m, "IB"
    yield "split-deep", {l: File([small, big]), b: File([one], ["low.idl"]), c: File([Iface("IC", [Error("EC")], "IA")], ["base.idl"]),
                         m: File([Iface("IB", two, "IC")], ["cc.idl", "low.idl", "base.idl"])}, m, "IB"


def group(batch):
    decls, iface, names = W.build(batch)
    out, stat = analyse(decls, iface, batch[0][0] if len(batch) == 1 else "IG", names=names)
    if any(r[0] == "cerr" for r in out) and len(batch) > 1:
        out, stat = [], {}
        for p in (batch[:len(batch) // 2], batch[len(batch) // 2:]):
            a, b = group(p)
            out += a
            for k, v in b.items():
                stat[k] = stat.get(k, 0) + v
    return [("bad", *r[1:]) if r[0] == "cerr" else r for r in out], stat


def run(ctx):
    sys.setrecursionlimit(20000)
    W.FRONT = R.load()
    ms, seen = [], set()
    for k, q in W.methods(ctx.tier):
        t = ",".join(p.text() for p in q)
        if t not in seen and not any(p.ty in W.OBJSTRUCTS for p in q):
            seen.add(t)
            ms.append((k, q))
    jobs = [("decls", k, W.with_env(d), i, None, W.G) for k, d, i in W.chain()]
    jobs += [("decls", k, None, i, f, m) for k, f, m, i in split()]
    jobs += [("batch", b) for b in W.batches(ms, 16)]

    def job(j):
        t0 = time.time()
        if j[0] == "batch":
            out, stat = group(j[1])
            stat["method shapes"] = len(j[1])
        else:
            _, k, decls, iface, files, main = j
            out, stat = analyse(decls, iface, k, files, main)
            out = [("bad", *r[1:]) if r[0] == "cerr" else r for r in out]
        if os.environ.get("VERIF_PROFILE"):
            print(f"{time.time() - t0:7.1f} s {j[0]} {j[1] if j[0] == 'decls' else [m[0] for m in j[1]]}", file=sys.stderr)
        out += [("stat", k, v) for k, v in stat.items()]
        out.append(("visited", {W.FRONT.db.insts[x]["name"] for x in W.FRONT.I.visited}))
        return out
    ctx.merge(parallel(jobs, job, deadline=time.time() + (3000 if ctx.thorough else 700)))
    R.cleanup(W.FRONT)
    return ctx.finish(
        "Abstract interpretation of the bytecode of every generated Proxy method and MinkObject.invoke: arguments and contents of buffers are symbolic, "
        "array lengths are symbolic integers, loops over them are summarised by their effect on an arbitrary iteration. What reaches IMinkObject.invoke and "
        "the implementation, and what comes back, is compared byte by byte with the canonical envelope which C01 fixes for C, C++ and Rust.", batches=len(jobs))
