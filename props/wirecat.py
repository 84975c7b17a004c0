"""Batches of methods for the wire properties, and the job that discharges the wire obligations of a batch.

A batch is a list of (key, Method) that becomes one or several interfaces of one file; the five outputs (C, C++ stub
and skeleton, Rust) are computed by the abstract interpreter of the compiler, lowered to LLVM IR by the compilers of
the target languages and analysed by ll.wire."""
import itertools
import os
import sys

from idlv import run as R
from idlv.idl import *
from ll import harness, tool, wire
from . import valid as V

P, M, F = Param, Method, Field
G = "/w/g.idl"
ODD = Struct("Odd", [F("uint16", "h", 5)])                      # 10 bytes
TEN = Struct("Twelve", [F("uint32", "t"), F("int32", "u"), F("float32", "v")])
S16 = Struct("Sixteen", [F("float64", "d"), F("uint32", "e"), F("int16", "g"), F("int8", "hh", 2)])
S17 = Struct("Seventeen", [F("uint8", "e", 17)])
OTWIN = Struct("OTwin", [F("WithObj", "p"), F("WithObj", "q")])   # the same nested struct twice
OBJA = Struct("OArr", [F("uint64", "t", 2), F("interface", "os", 3)])
OBJNA = Struct("ONArr", [F("WithObj", "els", 2), F("ITgt", "z")])
W8 = Struct("Words", [F("uint32", "lo"), F("float32", "hi")])     # 8 bytes, aligned to 4
H6 = Struct("Halves", [F("int16", "h", 3)])
B16 = Struct("Octets", [F("uint8", "b", 16)])
N16 = Struct("NSixteen", [F("Words", "w"), F("Zsmall", "z")])    # nested, 16 bytes aligned to 4
D8 = Struct("Dbl", [F("float64", "d")])
ENV = V.ENV + [ODD, TEN, S16, S17, OTWIN, OBJA, OBJNA, W8, H6, B16, N16, D8]
OBJSTRUCTS = ("WithObj", "Ztwo", "ObjNest", "OTwin", "OArr", "ONArr")


def K(label):
    for k in V.KINDS:
        if k[0] == label:
            return k
    return {"odd": ("odd", "Odd", None, False), "twelve": ("twelve", "Twelve", None, False), "w8": ("w8", "Words", None, False), "h6": ("h6", "Halves", None, False), "b16": ("b16", "Octets", None, False), "n16": ("n16", "NSixteen", None, False), "d8": ("d8", "Dbl", None, False), "s16": ("s16", "Sixteen", None, False),
            "s17": ("s17", "Seventeen", None, False), "twelve[]": ("twelve[]", "Twelve", "", False), "s17[]": ("s17[]", "Seventeen", "", False),
            "otwin": ("otwin", "OTwin", None, True), "oarr": ("oarr", "OArr", None, True), "onarr": ("onarr", "ONArr", None, True)}[label]


def ps(*spec):
    """'in uint8', 'out buffer' ... -> parameters with neutral names"""
    out = []
    for i, s in enumerate(spec):
        d, l = s.split()
        k = K(l)
        out.append(P(d, k[1], f"p{i}", k[2]))
    return out


def legal(params):
    for d in ("in", "out"):
        single = any(p.dir == d and (p.ty in ("interface", "ITgt") and p.arr is None or p.ty in OBJSTRUCTS) for p in params)
        arrs = sum(p.dir == d and p.ty in ("interface", "ITgt") and p.arr is not None for p in params)
        if arrs > 1 or arrs and single:
            return False
    return True


ALL = [k[0] for k in V.KINDS] + ["odd", "twelve", "s16", "s17", "twelve[]", "s17[]", "otwin", "oarr", "onarr"]
LITE = ["uint8", "uint64", "int16", "float32", "uint16[]", "buffer", "tobj", "small", "pair", "tri", "big", "s17", "big[]", "sobj", "sobj2", "sobjn", "otwin", "objs3"]
TINY = ["uint8", "uint64", "uint16[]", "buffer", "tobj", "tri", "big", "sobj", "sobj2", "objs3"]


def combos(labels, n):
    dk = [f"{d} {l}" for d in ("in", "out") for l in labels]
    for c in itertools.product(dk, repeat=n):
        q = ps(*c)
        if legal(q):
            yield ",".join(c), q


def single_methods():
    yield "none", []
    yield from combos(ALL, 1)


def special():
    """longer signatures: many bundle members, every class present, limits of 15"""
    y = lambda k, *s: (k, ps(*s))
    for d in ("in", "out"):
        yield y(f"bundle-sizes-{d}", *[f"{d} {l}" for l in ("uint8", "uint64", "uint16", "pair", "float32", "tri", "int64", "small", "odd", "int8", "s16", "twelve", "float64")])
        yield y(f"bundle-ties-{d}", *[f"{d} {l}" for l in ("uint32", "float32", "int32", "uint32", "uint64", "int64", "float64", "uint64")])
        yield y(f"bundle-big-{d}", *[f"{d} {l}" for l in ("big", "uint8", "s17", "uint64", "nest", "s16")])
        yield y(f"bundle-30-{d}", *[f"{d} uint16"] * 30)
        yield y(f"bundle-obj-{d}", f"{d} uint8", f"{d} sobj", f"{d} uint32", f"{d} small")
        yield y(f"15-buffers-{d}", *[f"{d} buffer"] * 15)
        yield y(f"15-arrays-{d}", *[f"{d} uint32[]"] * 15)
        yield y(f"5-buffers-{d}", *[f"{d} buffer"] * 5)
        yield y(f"5-arrays-{d}", *[f"{d} uint32[]"] * 5)
        yield y(f"4-objs-{d}", *[f"{d} tobj"] * 4)
        yield f"arr4-{d}", [P(d, "interface", "p0", 4)]
        yield f"arr4t-{d}", [P(d, "ITgt", "p0", 4), P("in", "uint8", "p1"), P("out", "uint16", "p2")]
        yield y(f"15-bigs-{d}", *[f"{d} big"] * 15)
        yield y(f"14-bigs-bundle-{d}", *([f"{d} big"] * 14 + [f"{d} uint8"] * 3))
        yield y(f"15-objs-{d}", *[f"{d} tobj"] * 15)
        yield y(f"mixed-objs-{d}", f"{d} tobj", f"{d} sobj2", f"{d} obj", f"{d} sobjn", f"{d} oarr", f"{d} tobj")
        yield f"arr15-{d}", [P(d, "interface", "p0", 15)]
        yield f"arr15t-{d}", [P(d, "ITgt", "p0", 15), P("in", "uint8", "p1"), P("out", "uint16", "p2")]
        yield y(f"structs-objs-{d}", f"{d} sobj2", f"{d} sobj", f"{d} otwin", f"{d} onarr")
    yield y("objs-out-in", "out tobj", "in tobj", "out obj", "in obj")
    yield y("sobj-both", "out sobj", "in sobj", "out sobj2", "in sobj2", "out tobj", "in tobj")
    yield y("objarr-out-in", "out objs3", "in objs3")
    yield y("objarr-in-obj-out", "in objs3", "out tobj", "out obj")
    yield y("obj-in-objarr-out", "out tobjs2", "in tobj", "in obj")
    yield y("sobj-objarr", "out objs3", "in sobj2", "in tobj")
    yield y("objarr-sobj", "in objs3", "out sobj2", "out tobj")
    yield y("2-2-2-2", *(["in buffer", "out buffer", "in tobj", "out tobj"] * 2))
    yield y("15-15-15-15", *(["in buffer", "out buffer", "in tobj", "out tobj"] * 15))
    mixed = ["out uint8", "in buffer", "out obj", "in uint64", "in tobj", "out uint32[]", "in uint16", "out pair", "in big", "out buffer",
             "in small[]", "out tobj", "in float64", "out int16", "in obj", "in sobj2", "out sobjn"]
    for r in range(5):
        yield y(f"mixed-{r}", *(mixed[r * 3:] + mixed[:r * 3]))


PATHY = ("15-buffers", "15-arrays", "15-objs", "arr15", "15-15")      # as many paths as subsets of 15 arguments


def pathy(key):
    return key.startswith(PATHY)


def chain():
    """inheritance: (key, declarations, interface to analyse)"""
    a = M("alpha", ps("in uint32", "in uint8", "out uint64"))
    b = M("beta", ps("in buffer", "out tobj"), True)
    c = M("gamma", ps("out small", "in tri"))
    for n in (2, 3, 5):
        ds = []
        for i in range(n):
            ds.append(Iface(f"IC{i}", [Error(f"E{i}"), M(f"m{i}a", ps("in uint32", "out uint16")), Const("uint8", f"K{i}", "1"), M(f"m{i}b", ps("in buffer", "out tobj"), i % 2 == 1)],
                            f"IC{i - 1}" if i else None))
        yield f"chain{n}", ds, f"IC{n - 1}"
    yield "chain-gap", [Iface("IA", [a]), Iface("IB", [], "IA"), Iface("IX", [b, Error("Z")], "IB"), Iface("IY", [], "IX"), Iface("IZ", [c], "IY")], "IZ"
    yield "chain-empty-leaf", [Iface("IA", [a, b]), Iface("IB", [], "IA")], "IB"
    yield "chain-empty-root", [Iface("IA", []), Iface("IB", [a, c], "IA")], "IB"
    yield "empty", [Iface("IA", [])], "IA"
    yield "many", [Iface("IA", [M(f"m{i}", ps("in uint32") if i % 3 == 0 else ps("out uint32") if i % 3 == 1 else []) for i in range(40)])], "IA"
    for k, n in (("small", 15), ("ends", 1)):
        yield f"first-in-{k}", [Iface("IA", [M(f"m{i}", ps(*["in uint16"] * n)) for i in range(2)]), Iface("IB", [M("zlast", ps("in uint8", "out uint8")), M("afirst", ps("out uint8"))], "IA")], "IB"
    yield "same-shape", [Iface("IA", [M(f"m{i}", ps("in uint32", "out uint32")) for i in range(6)]), Iface("IB", [M(f"n{i}", ps("in uint32", "out uint32")) for i in range(6)], "IA")], "IB"


def split():
    """declarations spread over files: (key, files, main, interface)"""
    st = {d.name: d for d in ENV}
    low = [st[n] for n in ("Small", "Zone", "Pair", "Tri", "Big") if n in st] 
    tgt = st["ITgt"]
    wo = st["WithObj"]
    use = [M("m0", ps("in small", "in uint32", "out tri", "out uint8")), M("m1", ps("in big[]", "out sobj", "in tobj"), True), M("m2", ps("in sobj", "out tobjs2"))]
    nd = need([p for m in use for p in m.params])
    low = [d for d in ENV if d.name in nd and d.name not in ("ITgt", "WithObj")]
    b, l, m = "/w/base.idl", "/w/low.idl", G
    yield "split-structs", {l: File(low), b: File([tgt, wo], ["low.idl"]), m: File([Iface("IB", use)], ["low.idl", "base.idl"])}, m, "IB"
    yield "split-base", {l: File(low), b: File([tgt, wo, Iface("IA", [Error("EA")] + use)], ["low.idl"]), m: File([Iface("IB", [M("n0", ps("in uint32", "out tobj"))], "IA")], ["base.idl", "low.idl"])}, m, "IB"
    yield "split-deep", {l: File(low + [tgt, wo]), b: File([Iface("IA", use[:2])], ["low.idl"]), "/w/cc.idl": File([Iface("IC", [], "IA")], ["base.idl"]),
                         m: File([Iface("IB", use[2:], "IC")], ["cc.idl", "low.idl", "base.idl"])}, m, "IB"


def chain_ops(tier="quick"):
    """numbering: depths, widths, empty levels, optional methods and attributes in between"""
    none = lambda n: M(n, [])
    for widths in ((1, 1), (2, 0, 3), (0, 0, 1), (3, 1, 4, 1, 5), (1,) * 8, (17, 2), (2, 17), (0, 5), (7,)):
        ds = []
        for i, w in enumerate(widths):
            nodes = []
            for j in range(w):
                # names in an order that is neither alphabetical nor reverse
                nodes.append(M(f"{'qazmwsx'[(3 * j + i) % 7]}{i}x{j}", ps("in uint32") if j % 2 else ps("out uint32"), j % 3 == 2))
                if j % 2:
                    nodes.append(Error(f"E{i}x{j}"))
                    nodes.append(Const("uint8", f"K{i}x{j}", "1"))
            ds.append(Iface(f"I{'ZYXWVUTS'[i % 8]}{i}", nodes, ds[-1].name if ds else None))
        yield "ops-" + "-".join(map(str, widths)), ds, ds[-1].name
    wide = Iface("IW", [none(f"m{i}") for i in range(300)])
    yield "ops-300", [wide], "IW"
    # the derived interface is declared in front of its base, siblings share the base
    root = Iface("IRoot", [none("r0"), none("r1"), Error("ER")])
    yield "ops-siblings", [root, Iface("IL", [none("l0")], "IRoot"), Iface("IR", [none("x0"), none("x1")], "IRoot")], "IR"
    yield "ops-siblings2", [root, Iface("IL", [none("l0")], "IRoot"), Iface("IR", [none("x0"), none("x1")], "IRoot"), Iface("IM", [none("m0")], "IL")], "IM"


def context():
    """every kind next to the small values that make a bundle in both directions"""
    for d in ("in", "out"):
        for l in ALL:
            yield f"{d} {l} among small values", ps("in uint8", "out uint16", f"{d} {l}", "in uint32", "out uint8")


SMALLS = ["uint8", "int16", "float32", "uint64", "tri", "h6", "w8", "small", "d8", "odd", "twelve", "pair", "s16", "b16", "n16"]


def bundles(tier):
    """bundles of two and three members: every pair of sizes and alignments, in the order given for the inputs and reversed for the outputs"""
    for a, b in itertools.combinations_with_replacement(SMALLS, 2):
        yield f"bundle {a} {b}", ps(f"in {a}", f"in {b}", f"out {b}", f"out {a}")
    few = SMALLS if tier == "thorough" else ["uint8", "float32", "uint64", "h6", "odd", "twelve", "pair", "b16"]
    for a, b, c in itertools.combinations(few, 3):
        yield f"bundle {a} {b} {c}", ps(f"in {b}", f"out {c}", f"in {c}", f"out {a}", f"in {a}", f"out {b}")


def methods(tier="quick", only=None):
    yield from single_methods()
    yield from context()
    yield from bundles(tier)
    yield from special()
    yield from combos(LITE if tier == "thorough" else TINY, 2)
    if tier == "thorough":
        yield from combos(TINY[:2] + ["buffer", "tobj", "tri", "sobj2"], 3)


def need(params):
    sp = Spec(File(ENV))
    n = set()

    def add(t):
        if t in n:
            return
        if t in sp.structs:
            n.add(t)
            for f in sp.structs[t].fields:
                add(f.ty)
        elif t in sp.ifaces:
            n.add(t)
    for p in params:
        add(p.ty)
    return n


def with_env(decls):
    nd = need([p for d in decls if isinstance(d, Iface) for n in d.nodes if isinstance(n, Method) for p in n.params])
    return [d for d in ENV if d.name in nd] + decls


def batches(ms, size=10):
    """files of `size` methods in one interface; odd-numbered methods are optional"""
    ms = list(ms)
    heavy = [m for m in ms if len(m[1]) > 6]
    light = [m for m in ms if len(m[1]) <= 6]
    for lst, n in ((light, size), (heavy, 2)):
        for i in range(0, len(lst), n):
            yield lst[i:i + n]


def build(batch):
    nd = set()
    for _, q in batch:
        nd |= need(q)
    body = [M(f"m{i}", q, i % 2 == 1) for i, (k, q) in enumerate(batch)]
    return [d for d in ENV if d.name in nd] + [Iface("IG", body)], "IG", {f"m{i}": k for i, (k, _) in enumerate(batch)}


FILES = {"c": "g.h", "c_skel": "g_invoke.h", "cpp": "g.hpp", "cpp_skel": "g_invoke.hpp"}


FRONT = None


def front():
    global FRONT
    if FRONT is None:
        FRONT = R.load()
    return FRONT


class Gen:
    """generated files of one IDL in a scratch directory"""

    def __init__(self, s, decls, files=None, main=G):
        self.s = s
        self.F = front()
        self.files = files or {G: File(decls)}
        self.main = main
        self.res = {}

    def get(self, b):
        if b not in self.res:
            rs = {f: R.compile_(self.F, self.files, b, main=f) for f in self.files}
            r = self.res[b] = next((x for x in rs.values() if not x.accepted), rs[self.main])
            if r.accepted:
                for f, x in rs.items():
                    stem = f.rsplit("/", 1)[1].rsplit(".", 1)[0]
                    for p, t in x.out.items():
                        self.s.write(FILES[b].replace("g", stem, 1) if b in FILES else b + "/" + p.rsplit("/", 1)[1], t)
        return self.res[b]


LANGS = ("c", "cpp", "rust")


def analyse(decls, iface, langs=LANGS, stubs=True, skels=True, names=None, files=None, main=G, key="", whole=False):
    """wire obligations of every method of `iface`: [(status, cats, rule, key, detail)]; when a target compiler refuses the stub or the skeleton the
    other side is still judged, unless `whole` (the caller splits the batch)"""
    sys.setrecursionlimit(20000)
    out = []
    sp = Spec(*files.values()) if files else Spec(File(decls))
    allc = {"C01", "C02", "C03", "C04", "C05", "C07"}
    names = names or {}
    mk = lambda n: (key + "/" if key else "") + names.get(n, n)
    visited = set()
    stat = {}
    with tool.Scratch() as s:
        g = Gen(s, decls, files, main)
        for lang in langs:
            try:
                if lang == "rust":
                    r = g.get("rust")
                    if not r.accepted:
                        out.append(("und", allc, "compiles", f"{mk(iface)}/{lang}", r.why()))
                        continue
                    rd = os.path.join(s.d, "rust")
                    mods = {f[:-3]: os.path.join(rd, f) for f in os.listdir(rd)}
                    rp = harness.RustPaths(sp, g.files)
                    txt = (harness.rs_stub(sp, rp, iface) if stubs else "")
                    if skels:
                        txt += harness.rs_impl(sp, rp, iface, "Pimpl")
                    mod = tool.rust_ll(s, "rs", mods, txt)
                    todo = []
                    if stubs:
                        todo.append((mod, "stub", None, True))
                    if skels:
                        todo.append((mod, "skel", dict(maker="@mk_Pimpl"), True))
                        if any(m.optional for _, m, _ in sp.ops(iface)):
                            mod2 = tool.rust_ll(s, "rs2", mods, harness.rs_impl(sp, rp, iface, "Qimpl", False))
                            todo.append((mod2, "skel", dict(maker="@mk_Qimpl"), False))
                else:
                    b = lang
                    need_ = ([b] if stubs else []) + ([b + "_skel"] if skels else [])
                    rs = [g.get(x) for x in {b, *need_}]
                    w = [r for r in rs if not r.accepted]
                    if w:
                        out.append(("und", allc, "compiles", f"{mk(iface)}/{lang}", w[0].why()))
                        continue
                    todo = []
                    def ll_(*a, side):
                        try:
                            return (tool.c_ll if lang == "c" else tool.cpp_ll)(*a)
                        except tool.CompileError as e:
                            if whole:
                                raise
                            out.append(("cerr", allc, "target compiler accepts", f"{mk(iface)}/{side}/{lang}", str(e)[:1500]))
                    if stubs:
                        txt = harness.c_stub(sp, iface) if lang == "c" else harness.cpp_stub(sp, iface)
                        todo.append((ll_(s, "stub_" + lang, f'#include "{FILES[b]}"\n' + txt, side="stub"), "stub", None, True))
                    if skels:
                        for pv, cls in ((True, "P"), (False, "Q")):
                            if not pv and not any(m.optional for _, m, _ in sp.ops(iface)):
                                continue
                            if lang == "c":
                                txt, kw = harness.c_impl(sp, iface, cls + "_", pv), dict(entry=f"@inv_{cls}_{iface}")
                            else:
                                txt, kw = harness.cpp_impl(sp, iface, cls + "impl", pv), dict(maker=f"@mk_{cls}impl")
                            todo.append((ll_(s, f"skel{cls}_{lang}", f'#include "{FILES[b + "_skel"]}"\n' + txt, side="skel"), "skel", kw, pv))
            except tool.CompileError as e:
                out.append(("cerr", allc, "target compiler accepts", f"{mk(iface)}/{lang}", str(e)[:1500]))
                continue
            except R.Unsupported as e:
                out.append(("und", allc, "compiles", f"{mk(iface)}/{lang}", repr(e)[:300]))
                continue
            for mod, what, kw, pv in todo:
                if mod is None:
                    continue
                stat["IR functions"] = stat.get("IR functions", 0) + len(mod.funcs)
                if what == "stub":
                    for _, m, op in sp.ops(iface):
                        out += wire.stub(mod, sp, iface, m, op, lang, f"{mk(m.name)}/stub", visited)
                        stat[f"{lang} stubs"] = stat.get(f"{lang} stubs", 0) + 1
                else:
                    tag = "skel" if pv else "skel-absent"
                    for r in wire.skel(mod, sp, iface, lang, tag, visited, provide=pv, **kw):
                        # key: tag/lang/method -> method label first
                        parts = r[3].split("/", 2)
                        if len(parts) == 3:
                            mn, sep, rest = parts[2].partition(": ")
                            k = f"{mk(mn)}/{parts[0]}/{parts[1]}" + (sep + rest if sep else "")
                        else:
                            k = f"{mk(iface)}/{r[3]}"
                        out.append(r[:3] + (k,) + r[4:])
                    stat[f"{lang} skeletons"] = stat.get(f"{lang} skeletons", 0) + 1
    return out, stat


def job(batch, langs, stubs, skels):
    """one batch; falls back to single methods when a target compiler refuses the batch"""
    decls, iface, names = build(batch)
    out, stat = analyse(decls, iface, langs, stubs, skels, names, key="", whole=len(batch) > 1)
    ce = [r for r in out if r[0] == "cerr"]
    out = [r for r in out if r[0] != "cerr"]
    if ce:
        for r in ce:
            lang = r[3].rsplit("/", 1)[1]
            if len(batch) == 1:
                out.append(("und", r[1], r[2], f"{batch[0][0]}/" + r[3].split("/", 1)[1], r[4]))
            else:
                h = max(1, len(batch) // 2)
                for part in (batch[:h], batch[h:]):
                    a, st = job(part, (lang,), stubs, skels)
                    out += a
                    for k, v in st.items():
                        stat[k] = stat.get(k, 0) + v
    return out, stat
