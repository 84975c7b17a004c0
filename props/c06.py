"""C06: the layout the compiler assumes is the layout of the emitted types.

Sizes and field offsets are folded by the front ends of C, C++ and Rust (IR constants) for every accepted struct of an
enumeration; structs whose natural layout has padding are refused on every abstract trace of the compiler; the sizes
transmitted and checked by stubs and skeletons come from the value-flow analysis of ll.wire."""
import itertools
import time

from idlv.core import parallel
from idlv.run import *
from idlv.idl import *
from ll import tool
from . import target as T
from . import wirecat as W

MAIN, LOW = "/w/a.idl", "/w/low.idl"
F_ = Field
P4 = Struct("Pfour", [F_("uint32", "a"), F_("int32", "b")])            # 8, align 4
Q8 = Struct("Qeight", [F_("uint64", "a"), F_("uint8", "b", 8)])        # 16, align 8
B3 = Struct("Bthree", [F_("uint8", "a", 3)])                           # 3, align 1
H2 = Struct("Htwo", [F_("int16", "a"), F_("int8", "b"), F_("uint8", "c")])   # 4, align 2
N1 = Struct("Nest", [F_("Qeight", "q"), F_("Pfour", "p", 2), F_("Htwo", "h", 2), F_("Bthree", "t", 8)])   # 64
TG = Iface("ITgt", [Method("hit")])
LOWER = [P4, Q8, B3, H2, N1]
TYPES = ["uint8", "int16", "float32", "uint64", "Pfour", "Qeight", "Bthree", "Htwo"]
FULL = ["uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "float32", "float64", "Pfour", "Qeight", "Bthree", "Htwo", "Nest"]
SPEC = Spec(File([*LOWER, TG]))


def enum(thorough):
    """field lists"""
    for t in FULL:
        for n in (None, 1, 2, 3, 4, 7, 8, 16, 255, 1000, 65535) if thorough else (None, 1, 2, 3, 8, 65535):
            yield [(t, n)]
    dims = (None, 2, 3, 4) if thorough else (None, 3)
    for a, b in itertools.product(itertools.product(FULL if thorough else TYPES, dims), repeat=2):
        yield [a, b]
    three = TYPES if thorough else ["uint8", "int16", "uint64", "Pfour"]
    for c in itertools.product(itertools.product(three, (None, 2)), repeat=3):
        yield list(c)
    for k in range(1, 9):
        yield [("uint8", None)] * k + [("uint16", None)]
        yield [("uint8", None)] * k + [("uint64", None)]
        yield [("uint8", k)] + [("float64", None)]
        yield [("uint64", None)] + [("uint8", None)] * k
        yield [("uint64", None)] + [("uint8", k)]
    # objects: the handle is 16 bytes
    for o in ("interface", "ITgt"):
        yield [(o, None)]
        yield [(o, 3)]
        yield [(o, None), ("uint64", 2)]
        yield [("uint64", 2), (o, None)]
        yield [("Qeight", None), (o, 2), ("uint8", 16)]
        yield [("uint64", None), (o, None)]
        yield [(o, None), ("uint8", None)]
        yield [(o, None), ("uint32", None)]
        yield [("uint32", None), (o, None)]
        yield [("uint8", 4), (o, None)]
    yield [("uint8", 8), ("Qeight", None)]
    yield [(t, None) for t in ("uint64", "float64", "uint32", "float32", "uint16", "int16", "uint8", "int8", "uint16")] + [("Qeight", 2), ("Nest", None), ("uint8", 8)]
    yield [("uint8", None)] * 64
    yield [("uint8", 65535), ("uint8", None)]
    yield [("Nest", 100), ("uint64", None)]


def struct(name, fl):
    return Struct(name, [F_(t, f"{'zyxwvutsrqponmlkjihgfedcba'[i % 26]}{i}", n) for i, (t, n) in enumerate(fl)])


def ok(fl):
    sp = Spec(File([*LOWER, TG, struct("SX", fl)]))
    return sp.layout_ok("SX")


def label(fl):
    return ",".join(t + (f"[{n}]" if n else "") for t, n in fl)


def deeper():
    """(key, declarations in front of the struct, struct, fine): alignment travels through nesting"""
    mk = lambda n, *fl: Struct(n, [F_(t, f"f{i}", k) for i, (t, k) in enumerate(fl)])
    inner = [mk("SA", ("uint16", None)), mk("SB", ("SA", None), ("SA", 2)), mk("SC", ("SB", None), ("uint8", 2))]
    yield "nest2-ok", inner, mk("SX", ("uint32", 2), ("SC", None)), True
    yield "nest2-tail", inner, mk("SX", ("uint32", 2), ("SB", None), ("SA", None)), True
    yield "nest2-bad", inner, mk("SX", ("uint8", None), ("SC", None)), False
    yield "nest2-badsize", inner, mk("SX", ("SC", None), ("uint8", None)), False
    i8 = [mk("SA", ("uint64", None)), mk("SB", ("SA", None)), mk("SC", ("SB", None)), mk("SD", ("SC", 2))]
    yield "nest4-ok", i8, mk("SX", ("uint32", None), ("float32", None), ("SD", None)), True
    yield "nest4-bad", i8, mk("SX", ("uint32", None), ("SD", None)), False
    yield "nest4-badsize", i8, mk("SX", ("SD", None), ("uint32", None)), False
    yield "arr-elem-bad", [mk("SA", ("uint8", 3))], mk("SX", ("SA", 3), ("uint16", None)), False
    yield "arr-elem-ok", [mk("SA", ("uint8", 3))], mk("SX", ("SA", 2), ("uint16", None)), True
    yield "inner-bad", [mk("SA", ("uint8", None), ("uint16", None))], mk("SX", ("SA", 2)), False
    yield "inner-bad-unused", [mk("SA", ("uint64", None), ("uint16", None))], mk("SX", ("uint8", None)), False
    yield "obj-nest-ok", [TG, mk("SA", ("ITgt", None))], mk("SX", ("uint64", 2), ("SA", 2)), True
    yield "obj-nest-bad", [TG, mk("SA", ("ITgt", None))], mk("SX", ("uint32", None), ("SA", None)), False
    yield "obj-nest-badsize", [TG, mk("SA", ("interface", None))], mk("SX", ("SA", None), ("uint32", None)), False


def run(ctx):
    F = load()
    good, bad = [], []
    for fl in enum(ctx.thorough):
        (good if ok(fl) else bad).append(fl)
    jobs = []
    seen = set()
    good = [g for g in good if not (label(g) in seen or seen.add(label(g)))]
    bad = [g for g in bad if not (label(g) in seen or seen.add(label(g)))]
    for i in range(0, len(good), 60):
        jobs.append(("good", f"batch {i // 60}", good[i:i + 60], (i // 60) % 3))
    for i in range(0, len(bad), 20):
        jobs.append(("bad", i, bad[i:i + 20]))
    jobs.append(("deep",))
    wires = [fl for fl in good if not any(t in ("interface", "ITgt") for t, _ in fl) and Spec(File([*LOWER, struct("SX", fl)])).size("SX") <= 200]
    bysize = {}
    for fl in wires:
        z = Spec(File([*LOWER, struct("SX", fl)])).size("SX")
        n = 6 if 8 <= z <= 24 else 2
        if len(bysize.setdefault(z, [])) < (n if not ctx.thorough else 4 * n):
            bysize[z].append(fl)
    wl = [fl for z in sorted(bysize) for fl in bysize[z]]
    for i in range(0, len(wl), 4):
        jobs.append(("wire", i, wl[i:i + 4]))
    W.FRONT = F

    def probe(key, files, names, out):
        sp = Spec(*files.values())
        its = []
        for n, lab, stem in names:
            off = 0
            rp = f"interfaces::{stem}::{n}"
            its.append((f"{lab}: size", sp.size(n), {"c": f"sizeof({n})", "cpp": f"sizeof(::{n})", "rust": (f"core::mem::size_of::<{rp}>()", "usize")}))
            its.append((f"{lab}: align", sp.align(n), {"c": f"_Alignof({n})", "cpp": f"alignof(::{n})", "rust": (f"core::mem::align_of::<{rp}>()", "usize")}))
            for f in sp.structs[n].fields:
                its.append((f"{lab}: offset of {f.name}", off, {"c": f"offsetof({n}, {f.name})", "cpp": f"offsetof(::{n}, {f.name})", "rust": (f"core::mem::offset_of!({rp}, {f.name})", "usize")}))
                w = sp.size(f.ty) * (f.n or 1)
                its.append((f"{lab}: size of {f.name}", w, {"c": f"sizeof((({n} *)0)->{f.name})", "cpp": f"sizeof(::{n}::{f.name})"}))
                off += w
        with tool.Scratch() as s:
            g = T.Gen(s, F, files, ("c", "cpp", "rust"))
            res = T.probe_all(g, MAIN, [(i, x[2]) for i, x in enumerate(its)], ("c", "cpp", "rust"))
        for lang, rs in res.items():
            out.append(("stat", f"{lang} sizes and offsets", len(rs)))
            for i, r in rs.items():
                lab, ex, _ = its[i]
                k = f"{lab} [{lang}]"
                if r[0] in ("gen", "err?"):
                    out.append(("und", "layout", k, str(r[1:])))
                elif r[0] == "err":
                    out.append(("bad", "layout", k, r[1]))
                elif r[3] != ex:
                    out.append(("bad", "layout", k, f"is {r[3]}, the compiler assumes {ex}"))
                else:
                    out.append(("ok", "layout"))

    def job(j):
        out = []
        if j[0] == "good":
            _, key, fls, mode = j
            ss = [(struct(f"S{i}", fl), label(fl)) for i, fl in enumerate(fls)]
            inc = mode == 1

            def files(ss):
                if inc:
                    return {LOW: File([TG, *LOWER]), MAIN: File([x for x, _ in ss], ["low.idl"])}
                return {MAIN: File([TG, *LOWER, *(x for x, _ in ss)])}
            if not compile_(F, files(ss), "c", main=MAIN).accepted:
                # handles count as one 16 byte member: what the compiler refuses does not matter here
                ss = [x for x in ss if compile_(F, files([x]), "c", main=MAIN).accepted]
            out.append(("stat", "structs", len(ss)))
            if ss:
                probe(key, files(ss), [(x.name, l, "a") for x, l in ss], out)
        elif j[0] == "bad":
            for fl in j[2]:
                x = struct("SX", fl)
                for where in ("alone", "used", "included") if sum(map(ord, label(fl))) % 4 == 0 or ctx.thorough else ("alone",):
                    fs = {MAIN: File([TG, *LOWER, x])}
                    if where == "used":
                        fs[MAIN].decls.append(Iface("IU", [Method("m", [Param("in", "uint8", "q"), Param("in", "SX", "p"), Param("out", "SX", "r")])]))
                    elif where == "included":
                        fs = {LOW: File([TG, *LOWER, x]), MAIN: File([Iface("IU", [Method("m", [Param("in", "SX", "p")])])], ["low.idl"])}
                    for b in ("c", "rust") if where == "used" else ("c",):
                        r = compile_(F, fs, b, main=MAIN)
                        k = f"{label(fl)} {where} [{b}]"
                        if r.uns:
                            out.append(("und", "padding: refused", k, r.why()))
                        elif r.rejected:
                            out.append(("ok", "padding: refused"))
                        else:
                            out.append(("bad", "padding: refused", k, "accepted:\n" + x.text()))
        elif j[0] == "deep":
            for key, pre, x, fine in deeper():
                fs = {MAIN: File([*pre, x])}
                if fine:
                    probe(key, fs, [(d.name, f"{key} {d.name}", "a") for d in [*pre, x] if isinstance(d, Struct)], out)
                    continue
                for order in ("", " reversed"):
                    if order:
                        fs = {MAIN: File([x, *pre])}
                    r = compile_(F, fs, "c", main=MAIN)
                    out.append(("und", "padding: refused", key + order, r.why()) if r.uns else ("ok", "padding: refused") if r.rejected else ("bad", "padding: refused", key + order, "accepted"))
        else:
            _, i, fls = j
            ds, ms = list(LOWER), []
            for n, fl in enumerate(fls):
                ds.append(struct(f"S{n}", fl))
                ms.append(Method(f"a{n}", [Param("in", f"S{n}", "p"), Param("in", "uint32", "q"), Param("out", "uint8", "r"), Param("out", f"S{n}", "s")]))
                ms.append(Method(f"b{n}", [Param("in", f"S{n}", "p"), Param("in", f"S{n}", "q", ""), Param("out", f"S{n}", "s", ""), Param("out", f"S{n}", "t")]))
            names = {f"{c}{n}": f"{label(fl)} {'bundled' if c == 'a' else 'discrete'}" for n, fl in enumerate(fls) for c in "ab"}
            o, stat = W.analyse(ds + [Iface("IG", ms)], "IG", names=names)
            n = {}
            for st, cats, rule, key, detail in o:
                if st == "ok":
                    if cats & {"C02", "C03", "C04"}:
                        n["transmitted size: " + rule] = n.get("transmitted size: " + rule, 0) + 1
                elif st == "cerr":
                    out.append(("und", rule, key, detail))
                elif cats & {"C02", "C03", "C04"} or st == "und":
                    out.append((st, rule, key, detail))
            out += [("ok", r, c) for r, c in n.items()]
            out += [("stat", k, v) for k, v in stat.items()]
        out.append(("visited", {F.db.insts[x]["name"] for x in F.I.visited}))
        return out

    ctx.merge(parallel(jobs, job, deadline=time.time() + (3000 if ctx.thorough else 700)))
    cleanup(F)
    return ctx.finish("All structs of up to three members over types of every size, arrays and nested structs: size, alignment and offset of every field as folded by clang, clang++ and rustc against the packed layout; refusal of every "
                      "field list whose natural layout has padding; slot sizes in stubs and skeletons of methods taking the structs bundled, discrete and in arrays.", accepted_structs=len(good), refused_structs=len(bad))
