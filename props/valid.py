"""Catalogue of well-formed, rule-respecting IDL file sets.

Every entry is (key, files, kw, java): `files` maps absolute paths to File/str (main is kw.get("main") or
/w/a.idl), `java` says whether the Java back end has to accept it (no objects in structs)."""
import itertools

from idlv.idl import *

MAIN = "/w/a.idl"
P, M, F = Param, Method, Field

PR = list(PRIM)

# structs used by parameter shapes; none of them depends on the alignment of `interface` being 8 or 16
SMALL = Struct("Zsmall", [F("uint32", "q"), F("uint16", "r", 2)])
PAIR = Struct("Pair", [F("uint64", "hi"), F("int64", "lo")])
BYTE3 = Struct("tri_Ple", [F("uint8", "e", 3)])
BIG = Struct("Big", [F("uint64", "w", 3), F("uint32", "x"), F("float32", "y")])
NEST = Struct("Nest", [F("Zsmall", "n1"), F("Zsmall", "n2", 2), F("uint32", "t")])
OBJ = Struct("WithObj", [F("interface", "o")])
OBJ2 = Struct("Ztwo", [F("ITgt", "first"), F("uint64", "v", 2), F("interface", "second")])
OBJN = Struct("ObjNest", [F("WithObj", "inner"), F("uint64", "k", 2)])
TGT = Iface("ITgt", [M("ping")])
ENV = [TGT, SMALL, PAIR, BYTE3, BIG, NEST, OBJ, OBJ2, OBJN]
ENVJ = [TGT, SMALL, PAIR, BYTE3, BIG, NEST]

# parameter kinds: (label, type, array, uses objects inside structs)
KINDS = [(t, t, None, False) for t in PR] + [(t + "[]", t, "", False) for t in PR] + [
    ("buffer", "buffer", None, False),
    ("obj", "interface", None, False), ("tobj", "ITgt", None, False),
    ("small", "Zsmall", None, False), ("pair", "Pair", None, False), ("tri", "tri_Ple", None, False),
    ("big", "Big", None, False), ("nest", "Nest", None, False),
    ("small[]", "Zsmall", "", False), ("tri[]", "tri_Ple", "", False), ("big[]", "Big", "", False), ("nest[]", "Nest", "", False),
    ("sobj", "WithObj", None, True), ("sobj2", "Ztwo", None, True), ("sobjn", "ObjNest", None, True),
    ("objs1", "interface", 1, False), ("objs3", "interface", 3, False), ("tobjs2", "ITgt", 2, False),
]
LITE = [k for k in KINDS if k[0] in ("uint8", "uint64", "float32", "uint16[]", "buffer", "obj", "tobj", "small", "pair", "tri",
                                     "big", "small[]", "big[]", "sobj", "sobj2", "sobjn", "objs3", "tobjs2")]


def legal(ps):
    """README restrictions on object arrays; structs carrying objects next to an object array in the same
    direction are ambiguous and left out"""
    for d in ("in", "out"):
        objs = arrs = sob = 0
        for p in ps:
            if p.dir != d:
                continue
            if p.ty in ("interface", "ITgt"):
                if p.arr is None:
                    objs += 1
                else:
                    arrs += 1
            elif p.ty in ("WithObj", "Ztwo", "ObjNest"):
                sob += 1
        if arrs > 1 or (arrs and (objs or sob)):
            return False
    return True


def mk(kinds, names=("pz", "Aq", "mid_3", "b", "k9")):
    ps = []
    for i, (d, k) in enumerate(kinds):
        ps.append(P(d, k[1], names[i] if i < len(names) else f"x{i}", k[2]))
    return ps, not any(k[3] for _, k in kinds)


def decls_for(ps, java):
    """only the declarations needed, in an order in which C can compile them"""
    sp = Spec(File(ENV))
    need = set()

    def add(t):
        if t in sp.structs and t not in need:
            need.add(t)
            for f in sp.structs[t].fields:
                add(f.ty)
        elif t in sp.ifaces:
            need.add(t)
    for p in ps:
        add(p.ty)
    return [d for d in ENV if d.name in need]


def methods():
    """(key, decls, java) for every parameter shape"""
    yield "none", [Iface("IOne", [M("go")])], True
    for d in ("in", "out"):
        for k in KINDS:
            ps, j = mk([(d, k)])
            yield f"one/{d}-{k[0]}", decls_for(ps, j) + [Iface("IOne", [M("go", ps)])], j
            yield f"one-optional/{d}-{k[0]}", decls_for(ps, j) + [Iface("IOne", [M("go", ps, True)])], j
    dk = [(d, k) for d in ("in", "out") for k in LITE]
    for a, b in itertools.product(dk, repeat=2):
        ps, j = mk([a, b])
        if legal(ps):
            yield f"two/{a[0]}-{a[1][0]}/{b[0]}-{b[1][0]}", decls_for(ps, j) + [Iface("ITwo", [M("go", ps)])], j


def triples():
    tiny = [k for k in KINDS if k[0] in ("uint8", "uint64", "buffer", "obj", "small", "big[]", "sobj", "objs3")]
    dk = [(d, k) for d in ("in", "out") for k in tiny]
    for a in itertools.product(dk, repeat=3):
        ps, j = mk(a)
        if legal(ps):
            yield "three/" + "/".join(f"{d}-{k[0]}" for d, k in a), decls_for(ps, j) + [Iface("IThree", [M("go", ps)])], j


def wide():
    """many parameters, up to 15 arguments of every class"""
    for n in (3, 7, 14, 15):
        for ty, arr in (("uint8", ""), ("buffer", None), ("interface", None), ("Big", None), ("uint32", ""), ("Zsmall", "")):
            for dirs in (("in",), ("out",), ("in", "out"), ("out", "in")):
                ps = [P(d, ty, f"p{i}{d}", arr) for i in range(n) for d in dirs]
                yield f"wide/{n}-{ty}{'' if arr is None else '[]'}-{'+'.join(dirs)}", decls_for(ps, True) + [Iface("IWide", [M("go", ps)])], True
    for n in (2, 5, 15, 16, 30):
        for ty in ("uint8", "uint16", "uint64", "float64", "Pair", "Zsmall"):
            for dirs in (("in",), ("out",), ("in", "out")):
                ps = [P(d, ty, f"p{i}{d}") for i in range(n) for d in dirs]
                yield f"bundle/{n}-{ty}-{'+'.join(dirs)}", decls_for(ps, True) + [Iface("IWide", [M("go", ps)])], True
    for n in (1, 2, 4, 5, 7, 8, 15):
        for ty in ("interface", "ITgt"):
            for dirs in (("in",), ("out",), ("in", "out")):
                ps = [P(d, ty, f"p{d}", n) for d in dirs]
                yield f"objarray/{n}-{ty}-{'+'.join(dirs)}", decls_for(ps, True) + [Iface("IWide", [M("go", ps)])], True
    mixed = [P("out", "uint8", "a"), P("in", "buffer", "bb"), P("out", "interface", "c"), P("in", "uint64", "d"), P("in", "ITgt", "e"),
             P("out", "uint32", "f", ""), P("in", "uint16", "g"), P("out", "Pair", "h"), P("in", "Big", "jj"), P("out", "buffer", "k"),
             P("in", "Zsmall", "l", ""), P("out", "ITgt", "m"), P("in", "float64", "n"), P("out", "int16", "oo"), P("in", "interface", "pp")]
    for r in range(4):
        ps = mixed[r * 4:] + mixed[:r * 4]
        yield f"mixed/{r}", decls_for(ps, True) + [Iface("IMixed", [M("go", ps)])], True
    ps = mixed[:6] + [P("in", "Ztwo", "so"), P("out", "ObjNest", "sn")]
    yield "mixed/objs", decls_for(ps, False) + [Iface("IMixed", [M("go", ps)])], False


def structs():
    sizes = sorted(PR, key=lambda t: -PRIM[t])
    for t in PR:
        for n in (None, 1, 2, 3, 16, 17, 255, 256, 65535):
            yield f"struct/{t}-{n}", [Struct("Sx", [F(t, "f", n)]), Iface("IS", [M("go", [P("in", "Sx", "a"), P("out", "Sx", "b")])])], True
    for a, b in itertools.product(PR, repeat=2):
        if PRIM[a] >= PRIM[b]:
            n = PRIM[a] // PRIM[b]
            yield f"struct/{a}-{b}", [Struct("Sx", [F(a, "f"), F(b, "g", n if n > 1 else None)]), Iface("IS", [M("go", [P("in", "Sx", "a")])])], True
            yield f"struct/{b}-{a}", [Struct("Sx", [F(b, "g", n if n > 1 else None), F(a, "f")]), Iface("IS", [M("go", [P("out", "Sx", "a")])])], True
    yield "struct/alltypes", [Struct("Sx", [F(t, f"f{i}") for i, t in enumerate(sizes)] + [F("uint16", "pad"), F("uint16", "pad2", 6)])], True
    yield "struct/manyfields", [Struct("Sx", [F("uint16", f"f{i}") for i in range(40)])], True
    yield "struct/unused", [Struct("Sx", [F("uint16", "f")]), Struct("Sy", [F("Sx", "x"), F("Sx", "y", 3)])], True
    prev = []
    for i in range(8):
        prev.append(Struct(f"L{i}", [F(f"L{i - 1}", "dn")] if i else [F("uint32", "v"), F("int32", "u")]))
    yield "struct/deep", prev + [Iface("IS", [M("go", [P("in", "L7", "a"), P("out", "L6", "b"), P("in", "L3", "c", "")])])], True
    yield "struct/diamond", [Struct("D", [F("uint32", "v")]), Struct("B", [F("D", "d")]), Struct("C", [F("D", "d", 2)]),
                             Struct("A", [F("B", "b"), F("C", "c"), F("D", "d")]), Iface("IS", [M("go", [P("in", "A", "a"), P("out", "A", "b")])])], True
    yield "struct/obj-only", ENV + [Iface("IS", [M("go", [P("in", "WithObj", "a"), P("out", "WithObj", "b")])])], False
    yield "struct/obj-first", [Struct("So", [F("interface", "o"), F("uint64", "v", 2)]), Iface("IS", [M("go", [P("in", "So", "a")])])], False
    yield "struct/obj-last", [Struct("So", [F("uint64", "v", 2), F("interface", "o")]), Iface("IS", [M("go", [P("in", "So", "a")])])], False
    yield "struct/obj-array", [Struct("So", [F("interface", "o", 2)]), Iface("IS", [M("go", [P("in", "uint8", "x"), P("out", "So", "a")])])], False
    yield "struct/own-iface", [Iface("IS", [M("go", [P("in", "So", "a")])]), Struct("So", [F("IS", "o")])], False
    # inner structs with every alignment followed by a compatible field
    yield "struct/nested-align", [Struct("A1", [F("uint8", "a", 3)]), Struct("A2", [F("A1", "x"), F("uint8", "y")]), Struct("A3", [F("A2", "x"), F("uint32", "y")]),
                                  Struct("A4", [F("A3", "x"), F("uint64", "y")]), Iface("IS", [M("go", [P("in", "A4", "x"), P("out", "A1", "y"), P("in", "A2", "z")])])], True


def interfaces():
    yield "iface/empty", [Iface("IE")], True
    yield "iface/empties", [Iface("IE"), Iface("IF"), Iface("IG", [], "IE")], True
    for n in (1, 2, 3, 6):
        ds = [Iface(f"I{i}", [M(f"m{i}", [P("in", "uint32", "a")]), Error(f"ERR_{i}"), Const("uint8", f"C_{i}", str(i)), M(f"n{i}")],
                    f"I{i - 1}" if i else None) for i in range(n)]
        yield f"iface/chain{n}", ds, True
        yield f"iface/chain{n}-rev", ds[::-1], True
    yield "iface/chain-gaps", [Iface("IA", [M("a")]), Iface("IB", [], "IA"), Iface("IC", [Error("E1")], "IB"), Iface("ID", [], "IC"), Iface("IE", [M("z")], "ID")], True
    yield "iface/fan", [Iface("IRoot", [M("r"), Error("ER")])] + [Iface(f"ILeaf{i}", [M("same"), Error("ESAME")], "IRoot") for i in range(4)], True
    yield "iface/self-param", [Iface("IS", [M("go", [P("in", "IS", "a"), P("out", "IS", "b")])])], True
    yield "iface/mutual", [Iface("IA", [M("go", [P("in", "IB", "x")])]), Iface("IB", [M("go", [P("out", "IA", "x")])])], True
    yield "iface/only-errors", [Iface("IE", [Error(f"E{i}") for i in range(12)])], True
    yield "iface/only-consts", [Iface("IE", [Const(t, f"K{i}", "1") for i, t in enumerate(PR)])], True
    yield "iface/interleaved", [Iface("IX", [Error("E_A"), M("m1"), Const("uint8", "K1", "1"), M("m2", [], True), Error("E_B"), Const("int64", "K2", "-2"), M("m0")])], True
    yield "iface/optional-all", [Iface("IX", [M("m1", [], True), M("m2", [P("in", "uint8", "a"), P("out", "uint8", "b")], True)])], True
    yield "iface/many", [Iface("IX", [M(f"m{i}") for i in range(70)])], True
    # one name, several scopes
    yield "scope/same-method", [Iface("IA", [M("go")]), Iface("IB", [M("go")])], True
    yield "scope/same-error", [Iface("IA", [Error("E")]), Iface("IB", [Error("E")])], True
    yield "scope/same-const", [Const("uint8", "K", "1"), Iface("IA", [Const("uint16", "K", "2")]), Iface("IB", [Const("uint32", "K", "3")])], True
    yield "scope/same-param", [Iface("IA", [M("go", [P("in", "uint8", "x")]), M("ho", [P("out", "uint8", "x")])])], True
    yield "scope/same-field", [Struct("A", [F("uint8", "x")]), Struct("B", [F("uint8", "x")])], True
    yield "scope/field-as-param", [Struct("A", [F("uint8", "x")]), Iface("IA", [M("go", [P("in", "A", "x")])])], True
    yield "scope/method-as-error", [Iface("IA", [M("go"), Error("GO")])], True
    yield "scope/const-in-sibling", [Iface("IA", [Const("uint8", "K", "1")]), Iface("IB", [Error("K")])], True
    yield "scope/case", [Iface("IA", [M("go"), M("Go"), M("gO"), Error("e"), Error("E")])], True
    yield "scope/param-case", [Iface("IA", [M("go", [P("in", "uint8", "val"), P("in", "uint8", "Val"), P("out", "uint8", "VAL")])])], True
    yield "scope/param-prefix", [Iface("IA", [M("go", [P("in", "uint8", "val", ""), P("in", "uint8", "val_1"), P("out", "uint8", "val2")])])], True


KWPFX = ["inside", "outer", "input", "output", "methodical", "errors", "constant", "structure", "include_me", "interfaces", "optional",
         "buffers", "in1", "out_", "uint", "intx", "floaty", "error1", "const_", "method_", "Struct", "Interface", "IN", "OUT"]
LONG = "L" + "o" * 120 + "ng"


def idents():
    for w in KWPFX:
        yield f"ident/method-{w}", [Iface("IN1", [M(w)])], True
        yield f"ident/param-{w}", [Iface("IN1", [M("go", [P("in", "uint8", w), P("out", "uint16", "z")])])], True
        yield f"ident/err-{w}", [Iface("IN1", [Error(w)])], True
        yield f"ident/field-{w}", [Struct("SN", [F("uint32", w)])], True
        yield f"ident/const-{w}", [Const("uint8", w, "1")], True
        if w != "interfaces":
            yield f"ident/struct-{w}", [Struct(w, [F("uint32", "v")]), Iface("IN1", [M("go", [P("in", "uint8", "q")])])], True
        yield f"ident/iface-{w}", [Iface(w, [M("go")])], True
    for w in ("a", "A", "z9", "X_", "x__y", "a1b2c3", LONG, "Z" * 64, "mIxEd_Case9"):
        yield f"ident/all-{w[:12]}", [Struct("S" + w, [F("uint32", w)]), Const("uint8", "K" + w, "1"),
                                      Iface("I" + w, [M(w, [P("in", "S" + w, w), P("out", "uint8", "q" + w)]), Error("E" + w)])], True


def consts():
    for s, w in itertools.product(("", "u"), (8, 16, 32, 64)):
        t = f"{s}int{w}"
        lo, hi = (0, 2 ** w - 1) if s else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        vals = {str(lo), str(hi), "0", "1", "00", "0007", str(hi - 1), str(lo + 1), "0x0", "0x%x" % hi, "0x%X" % hi, "0x00%x" % hi, "0x1f", "0xA", "9", "10"}
        if not s:
            vals |= {"-0", "-1", "-0x1", "-0x%x" % -lo, "-0x%X" % (-lo - 1), "-01"}
        for i, v in enumerate(sorted(vals)):
            yield f"const/{t}-{v}-global", [Const(t, "KV", v)], True
            yield f"const/{t}-{v}-iface", [Iface("IK", [M("go"), Const(t, "KV", v)])], True
    for t in ("float32", "float64"):
        for v in ("0", "1", "-1", "1.5", "-2.25", "0.0", "3.14159265358979", "123456789.5", "-0.001", "65536", "0.1", "100000000000000000000"):
            yield f"const/{t}-{v}-global", [Const(t, "KV", v)], True
            yield f"const/{t}-{v}-iface", [Iface("IK", [Const(t, "KV", v)])], True


def gen():
    for g in (methods, wide, structs, interfaces, idents, consts):
        yield from g()


# ---- whole files ---------------------------------------------------------------------------------
def rich():
    """a file using every construct (no objects in structs)"""
    return [Const("uint32", "GLOBAL_A", "0xFFFFFFFF"), Struct("Zin", [F("uint64", "aa"), F("uint8", "bb", 8)]),
            Struct("Mid", [F("Zin", "z"), F("uint64", "t", 2)]), Struct("Aout", [F("Mid", "m", 2), F("Zin", "zz")]),
            Const("int8", "GLOBAL_B", "-128"),
            Iface("IZbase", [Const("uint16", "BASE_K", "7"), Error("E_BASE"), M("first", [P("in", "uint32", "a"), P("out", "uint32", "b")]), M("second", [P("in", "Zin", "z"), P("in", "uint8", "q")])]),
            Iface("IMid", [Error("E_MID"), M("third", [P("in", "buffer", "buf"), P("out", "Mid", "m"), P("in", "Mid", "arr", "")], True)], "IZbase"),
            Iface("Aleaf", [M("fourth", [P("in", "IMid", "peer"), P("out", "IZbase", "other"), P("out", "Aout", "big")]), Error("E_LEAF"), Const("float32", "LEAF_F", "1.5"),
                            M("fifth", [P("in", "interface", "objs", 3), P("out", "uint16", "list", "")])], "IMid"),
            Iface("IAside", [M("first", [P("in", "Aleaf", "l")]), Error("E_BASE")])]


def rich_obj():
    return [Struct("WithObj", [F("interface", "o"), F("uint64", "v", 2)]), Struct("Outer", [F("WithObj", "w"), F("ITwin", "t")]),
            Iface("ITwin", [M("go", [P("in", "Outer", "x"), P("out", "WithObj", "y"), P("in", "uint8", "z")])]),
            Iface("IUser", [M("use", [P("in", "ITwin", "a"), P("out", "Outer", "b")])])]


def perms(ds, n=24):
    out = [list(ds), list(reversed(ds))]
    for i in range(1, len(ds)):
        out.append(ds[i:] + ds[:i])
    for i in range(len(ds) - 1):
        x = list(ds)
        x[i], x[i + 1] = x[i + 1], x[i]
        out.append(x)
    out.append(sorted(ds, key=lambda d: d.name))
    out.append(sorted(ds, key=lambda d: d.name, reverse=True))
    return out[:n]


def filesets():
    """(key, files, kw, java)"""
    for nm, ds, j in (("rich", rich(), True), ("obj", rich_obj(), False)):
        for i, pm in enumerate(perms(ds, 32)):
            yield f"order/{nm}-{i}", {MAIN: File(pm)}, {}, j
        for k in range(len(ds) + 1):
            yield f"split/{nm}-{k}", {MAIN: File(ds[k:], ["b.idl"]), "/w/b.idl": File(ds[:k])}, {}, j
        # declarations spread over several files, in include order and against it
        half = len(ds) // 2
        yield f"split3/{nm}", {MAIN: File(ds[half:], ["b.idl", "c.idl"]), "/w/b.idl": File(ds[:1], ["c.idl"]), "/w/c.idl": File(ds[1:half])}, {}, j
        yield f"split3-chain/{nm}", {MAIN: File(ds[half:], ["b.idl"]), "/w/b.idl": File(ds[1:half], ["c.idl"]), "/w/c.idl": File(ds[:1])}, {}, j
        yield f"split-each/{nm}", {MAIN: File([ds[-1]], [f"p{i}.idl" for i in range(len(ds) - 1)]),
                                   **{f"/w/p{i}.idl": File([d], [f"p{q}.idl" for q in range(i)]) for i, d in enumerate(ds[:-1])}}, {}, j
        yield f"split-chain/{nm}", {MAIN: File([ds[-1]], [f"p{len(ds) - 2}.idl"]),
                                    **{f"/w/p{i}.idl": File([d], [f"p{i - 1}.idl"] if i else []) for i, d in enumerate(ds[:-1])}}, {}, j
    one = [Iface("IOne", [M("go", [P("in", "uint8", "a")])])]
    yield "file/empty", {MAIN: ""}, {}, True
    yield "file/blank", {MAIN: "\n\n  \t\n"}, {}, True
    yield "file/comment-only", {MAIN: "// nothing here\n/* at all */\n"}, {}, True
    yield "file/only-include", {MAIN: File([], ["b.idl"]), "/w/b.idl": File(one)}, {}, True
    yield "file/only-struct", {MAIN: File([SMALL])}, {}, True
    yield "file/only-const", {MAIN: File([Const("uint8", "K", "1")])}, {}, True
    yield "include/empty-file", {MAIN: File(one, ["b.idl"]), "/w/b.idl": ""}, {}, True
    yield "include/twice", {MAIN: File(one, ["b.idl", "b.idl"]), "/w/b.idl": File([SMALL])}, {}, True
    yield "include/diamond", {MAIN: File(one, ["b.idl", "c.idl"]), "/w/b.idl": File([PAIR], ["d.idl"]), "/w/c.idl": File([BIG], ["d.idl"]), "/w/d.idl": File([SMALL])}, {}, True
    yield "include/diamond-main-last", {MAIN: File(one, ["d.idl", "b.idl"]), "/w/b.idl": File([PAIR], ["c.idl"]), "/w/c.idl": File([BIG], ["d.idl"]), "/w/d.idl": File([SMALL])}, {}, True
    yield "include/triangle", {MAIN: File(one, ["b.idl", "c.idl"]), "/w/b.idl": File([PAIR], ["c.idl"]), "/w/c.idl": File([SMALL])}, {}, True
    yield "include/triangle-rev", {MAIN: File(one, ["c.idl", "b.idl"]), "/w/b.idl": File([PAIR], ["c.idl"]), "/w/c.idl": File([SMALL])}, {}, True
    yield "include/relative", {MAIN: File(one, ["sub/b.idl"]), "/w/sub/b.idl": File([SMALL], ["c.idl", "../d.idl"]), "/w/d.idl": File([PAIR]), "/inc/c.idl": File([BIG])}, {"include_paths": ["/inc"]}, True
    yield "include/dir", {MAIN: File(one, ["b.idl"]), "/inc/b.idl": File([SMALL], ["c.idl"]), "/inc2/c.idl": File([PAIR])}, {"include_paths": ["/inc", "/inc2"]}, True
    yield "include/two-spellings", {MAIN: File(one, ["b.idl", "./b.idl", "../w/b.idl"]), "/w/b.idl": File([SMALL])}, {}, True
    yield "include/unused-dir", {MAIN: File(one)}, {"include_paths": ["/inc"], "dirs": ["/inc"]}, True
    yield "include/longname", {MAIN: File(one, ["x" * 100 + ".idl"]), "/w/" + "x" * 100 + ".idl": File([SMALL])}, {}, True
    yield "include/oddname", {MAIN: File(one, ["b-c d.v2.idl"]) if False else 'include "b-c_d v2.idl"\n' + one[0].text(), "/w/b-c_d v2.idl": File([SMALL])}, {}, True
    yield "include/deep-chain", {MAIN: File(one, ["c0.idl"]), **{f"/w/c{i}.idl": File([Struct(f"S{i}", [F("uint32", "v")])], [f"c{i + 1}.idl"] if i < 11 else []) for i in range(12)}}, {}, True
    yield "include/use-of-transitive", {MAIN: File([Iface("IU", [M("go", [P("in", "Zsmall", "s")])], "ITgt")], ["b.idl"]), "/w/b.idl": File([PAIR], ["c.idl"]), "/w/c.idl": File([SMALL, TGT])}, {}, True
    yield "name/main", {"/w/My-File.v1.idl": File(one)}, {"main": "/w/My-File.v1.idl"}, True
    yield "name/main-digits", {"/w/123.idl": File(one)}, {"main": "/w/123.idl"}, True
    yield "name/main-noext", {"/w/plain": File(one)}, {"main": "/w/plain"}, True
    yield "name/main-relative", {"/w/a.idl": File(one, ["b.idl"]), "/w/b.idl": File([SMALL])}, {"main": "a.idl", "cwd": "/w"}, True
    yield "name/main-dotted", {"/w/a.idl": File(one, ["b.idl"]), "/w/b.idl": File([SMALL])}, {"main": "../w/./a.idl", "cwd": "/cwd", "dirs": ["/cwd"]}, True


def layouts():
    """text variants of one interface"""
    base = [Struct("Zin", [F("uint64", "aa"), F("uint8", "bb", 8)]), Const("uint8", "KK", "0x1F"),
            Iface("IL", [M("first", [P("in", "Zin", "z"), P("out", "uint8", "q", "")]), Error("EE"), Const("int8", "KI", "-5"), M("second", [], True)])]
    t = File(base).text()
    yield "text/plain", t
    yield "text/crlf", t.replace("\n", "\r\n")
    yield "text/cr", t.replace("\n", "\r")
    yield "text/tabs", t.replace("  ", "\t")
    yield "text/no-final-newline", t.rstrip("\n")
    yield "text/leading-blank", "\n\n   " + t
    yield "text/oneline", t.replace("#[optional]\n", "#[optional] ").replace("\n", " ")
    yield "text/spread", t.replace("(", " ( ").replace(",", "\n ,\n ").replace(" z", "\n z").replace("KK =", "KK\n=\n")
    yield "text/wide", t.replace("  ", "          ").replace(" ", "  ") if False else t.replace("; ", ";   ")
    yield "text/comments-line", "// head\n" + t.replace(";\n", "; // tail\n") + "// foot"
    yield "text/comments-block", "/* head */" + t.replace(";\n", "; /* tail\n more */\n") + "/* foot */"
    yield "text/comments-inner", t.replace("in Zin z", "in /* a */ Zin /* b */ z // c\n").replace("uint8 KK", "uint8 /*k*/ KK")
    yield "text/comment-odd", "/***/ /* * / ** */ // /* not open\n" + t
    yield "text/comment-string", '// "quoted" include "b.idl"\n' + t
    yield "text/comment-unicode", "// \u00e4\u4e16\u754c \U0001F600\n/* \u00e9 */" + t
    yield "text/comment-keywords", "/* interface struct method error const in out */\n" + t
    yield "text/comment-star", "/* ** * */\n/*** x **/\n" + t
    doc = "/**\n   * @param z text\n   * second line\n   */\n"
    yield "text/doc-method", t.replace("  method first", "  " + doc + "  method first")
    yield "text/doc-crlf", t.replace("  method first", "  " + doc + "  method first").replace("\n", "\r\n")
    yield "text/doc-both", t.replace("  method first", "  " + doc + "  method first").replace("  #[optional]", "  " + doc + "  #[optional]")
    yield "text/doc-empty", t.replace("  method first", "  /**\n  */\n  method first")
    yield "text/doc-plain", t.replace("  method first", "  /**\n some text @in @out { } \" ' \\ \n  */\n  method first")
    yield "text/doc-unicode", t.replace("  method first", "  /**\n \u00e4\u4e16\u754c\n  */\n  method first")
    yield "text/doc-everywhere", doc + t.replace("interface IL", doc + "interface IL").replace("const uint8", doc + "const uint8").replace("  error", doc + "  error") + doc
    yield "text/doc-twice", t.replace("  method first", "  " + doc + "  " + doc + "  method first")
    yield "text/doc-params", t.replace("in Zin z", "in Zin\n" + doc + " z")
    yield "text/attr-sameline", t.replace("#[optional]\n  ", "#[optional] ")
    yield "text/attr-blank", t.replace("#[optional]\n  ", "#[optional]\n\n\n  ")
    yield "text/array-spaces", t.replace("uint8[8] bb", "uint8 [ 8 ] bb").replace("uint8[] q", "uint8 [ ] q").replace("[8]", "[008]")
    yield "text/include-spaces", 'include   "b.idl"\n' + t
    yield "text/include-tab", 'include\t"b.idl"' + t
    yield "text/include-comment", 'include "b.idl" // c\n/* d */ ' + t
    yield "text/paren-space", t.replace("first(", "first   (")
    yield "text/base-spaces", t + "interface ID:IL{ method third(in uint8 x,out uint8 y);};"
