"""Further file sets for C11: parameters named like the variables of the generated code, deep inheritance, constants, objects in
structs across files."""
from idlv.idl import *
from idlv.idl import File
from . import valid as V

M, P, F = V.M, V.P, V.F
MAIN = V.MAIN

# names which some backend uses (or used) for a variable, a member or a function of the code around a method
LOCALS = ("a", "b", "i", "k", "o", "h", "op", "me", "obj", "args", "arg", "counts", "cxt", "context", "result", "r", "err", "error", "e", "func", "bi", "bo", "oi", "oo",
          "m", "n", "v", "x", "cx", "ptr", "len", "size", "data", "inner", "impl_", "arg_idx", "prefix", "methodID", "mObj", "mRefs", "boSizes", "bundleIn", "bundleOut", "minkObject",
          "idx", "i0", "i1", "in_", "out_", "object", "invoke", "memcpy", "BI", "BO", "Ok", "Err", "Some", "None_", "std_", "Object_OK", "ObjectOp")
# names of the target languages which aren't reserved words; not worth searching a group for them
ALONE = ("Ok", "Err", "Some", "Object_OK", "ObjectOp")
TAILS = ("val", "ptr", "len", "lenout", "ref", "cpy", "buf", "cnt")

AUX = [Struct("LS", [F("uint32", "a"), F("uint16", "b", 2), F("uint32", "c", 4)]), Struct("LB", [F("uint64", "a", 4)]), Iface("LT", [M("t")])]
OBJ = Struct("LO", [F("interface", "o"), F("uint64", "a", 2)])
OBJ2 = Struct("LP", [F("LO", "w"), F("LT", "t")])


def roles(w, z):
    """methods with a parameter w in every position a backend treats on its own"""
    y1, y2, y3 = z + "x1", z + "x2", z + "x3"
    return [M("r0", [P("in", "uint32", w), P("out", "uint32", z)]), M("r1", [P("out", "uint32", w), P("in", "uint32", z)]),
            M("r2", [P("in", "uint16", w, ""), P("out", "uint16", z, "")]), M("r3", [P("out", "uint16", w, ""), P("in", "LS", z, "")]),
            M("r4", [P("in", "LS", w, ""), P("out", "buffer", z)]), M("r5", [P("out", "LS", w, ""), P("in", "buffer", z)]),
            M("r6", [P("in", "buffer", w), P("out", "LS", z)]), M("r7", [P("out", "buffer", w), P("in", "LB", z)]),
            M("r8", [P("in", "LB", w), P("out", "LT", z)]), M("r9", [P("out", "LB", w), P("in", "interface", z)]),
            M("ra", [P("in", "LT", w), P("out", "LB", z)]), M("rb", [P("out", "LT", w), P("in", "LT", z)]),
            M("rc", [P("in", "interface", w), P("out", "interface", z)]), M("rd", [P("out", "interface", w), P("in", "uint16", z, "")]),
            M("bii", [P("in", "uint8", w), P("in", "uint64", z)]), M("boo", [P("out", "uint8", w), P("out", "uint64", z)]),
            M("bio", [P("in", "uint8", w), P("in", "uint64", z), P("out", "uint8", y1), P("out", "uint64", y2)]),
            M("boi", [P("out", "uint8", w), P("in", "uint64", z), P("in", "uint8", y1), P("out", "uint64", y2)]),
            M("mis", [P("in", "uint8", w), P("in", "LE", z), P("out", "LE", y1), P("out", "uint8", y2)]),
            M("mis3", [P("in", "LE", z), P("in", "uint8", y3), P("out", "uint8", y1), P("out", "LE", w)]),
            M("ai", [P("in", "interface", w, 2), P("out", "LT", z, 2)]), M("ao", [P("in", "LT", z, 3), P("out", "interface", w, 2)]),
            M("one", [P("in", "uint8", w)]), M("onu", [P("out", "uint8", w)]), M("two", [P("in", "uint16", w, ""), P("in", "uint16", z, ""), P("out", "uint16", y1, ""), P("out", "LS", y2, "")])]


def oroles(w, z):
    return [M("so", [P("in", "LO", w), P("out", "LO", z)]), M("os", [P("in", "LO", z), P("out", "LO", w)]), M("sp", [P("in", "LP", w), P("in", "LO", z), P("out", "uint8", z + "x1")]),
            M("ps", [P("out", "LP", w), P("out", "LO", z), P("in", "LT", z + "x1")]), M("mo", [P("in", "LO", w), P("in", "uint16", z, ""), P("in", "uint8", z + "x1"), P("out", "LP", z + "x2")])]


LE = Struct("LE", [F("uint16", "p"), F("uint16", "q"), F("uint32", "r"), F("uint8", "s", 4)])


def packed(thorough):
    """(key, declarations, java): compiled together"""
    for w in LOCALS:
        yield f"locals/{w}", [*AUX, LE, Iface("LI", [*roles(w, "zz"), M(w, [P("in", "uint8", "q"), P("out", "uint8", "qq")])] if w not in V_METHODS else roles(w, "zz"))], True
        yield f"locals-obj/{w}", [*AUX, OBJ, OBJ2, Iface("LJ", oroles(w, "zz"))], False
    for t in TAILS:
        for z in (f"w_{t}", f"{t}_w", f"m_{t}"):
            yield f"tails/{z}", [*AUX, LE, Iface("LI", roles("w", z)), Iface("LK", [M("x" + n.name, n.params) for n in roles(z, "w")])], True
            yield f"tails-obj/{z}", [*AUX, OBJ, OBJ2, Iface("LJ", oroles("w", z) + [M("x" + n.name, n.params) for n in oroles(z, "w")])], False
    for z in ("m_w", "p_w", "buffer_w", "i_w", "o_w", "bundleIn0", "w1", "ww"):
        yield f"tails/{z}", [*AUX, LE, Iface("LI", roles("w", z)), Iface("LK", [M("x" + n.name, n.params) for n in roles(z, "w")])], True
    for n in (3, 4, 6, 9):
        ch = [Iface(f"D{i}", [M(f"m{i}", [P("in", "uint8", "p"), P("out", f"D{(i * 7 + 3) % n}", "q")]), Error(f"E{i}"), Const("float32", f"F{i}", f"{i}.5"), Const("float64", f"G{i}", f"-{i}"),
                              Const("int64", f"H{i}", "-9223372036854775808"), M(f"o{i}", [P("in", f"D{n - 1 - i}", "p")], True)], f"D{i - 1}" if i else None) for i in range(n)]
        for tag, ds in (("", ch), ("-rev", ch[::-1])):
            yield f"deep/{n}{tag}", ds, True
    ft = [Iface("FK", [Const(t, f"K{t[-2:]}_{i}", v) for t in ("float32", "float64") for i, v in enumerate(("0", "-0", "1", "1.0", "-1.5", "100000000000000000000", "0.000001", "16777217"))])]
    yield "float/iface", ft, True
    yield "float/global", [Const(t, f"K{t[-2:]}_{i}", v) for t in ("float32", "float64") for i, v in enumerate(("0", "-0", "1", "1.0", "-1.5", "100000000000000000000", "0.000001", "16777217"))], True
    yield "mutual/ifaces", [Iface("MA", [M("f", [P("in", "MB", "b"), P("out", "MC", "c")])]), Iface("MB", [M("g", [P("in", "MA", "a", 2)]), M("h", [P("out", "MA", "a", 3)])], "MC"),
                            Iface("MC", [M("k", [P("in", "MB", "b"), P("out", "MA", "a"), P("in", "MC", "c")])])], True
    yield "mutual/structs", [Struct("RA", [F("RB", "b", 3), F("RC", "c")]), Iface("RI", [M("f", [P("in", "RA", "a"), P("out", "RA", "b", "")])]), Struct("RB", [F("RC", "c", 2)]),
                             Struct("RC", [F("uint64", "v", 2)])], True
    yield "mutual/objstructs", [Struct("QA", [F("QB", "b", 3), F("QI", "c")]), Iface("QI", [M("f", [P("in", "QA", "a"), P("in", "uint8", "n")]), M("g", [P("out", "QA", "a")])]), Struct("QB", [F("QI", "c", 2)])], False
    many = [P("in" if i % 2 else "out", ("uint8", "uint64", "LS", "LB", "uint16")[i % 5], f"p{i}", "" if i % 5 == 4 else None) for i in range(24)]
    yield "many/params", [*AUX, Iface("MP", [M("f", many)])], True
    yield "many/objects", [*AUX, Iface("MP", [M("f", [P("in" if i % 2 else "out", "LT", f"p{i}") for i in range(24)])])], True
    yield "many/none", [Iface("MN", [M(f"m{i}") for i in range(40)])], True
    yield "big/arrays", [Struct("BA", [F("uint8", "a", 65535), F("uint8", "b")]), Iface("BI_", [M("f", [P("in", "BA", "a"), P("out", "BA", "b"), P("in", "BA", "c", "")])])], True
    yield "big/objarray", [*AUX, Iface("BO_", [M("f", [P("in", "LT", "a", 15), P("out", "interface", "b", 15)])])], True


# members of the classes generated code derives from
V_METHODS = ("invoke",)


def shapes(thorough):
    """(key, files, kw, java)"""
    so = [OBJ, OBJ2]
    aux = AUX
    yield "cross/objstructs", {MAIN: File([Iface("XA", [M("f", [P("in", "LP", "a"), P("out", "LO", "b")]), M("g", [P("in", "LO", "a"), P("in", "uint8", "c")])], "XB")], ["b.idl"]),
                               "/w/b.idl": File([OBJ2, Iface("XB", [M("h", [P("out", "LP", "z")])])], ["c.idl"]), "/w/c.idl": File([OBJ, *aux])}, {}, False
    n = 5
    fs = {f"/w/c{i}.idl": File([Struct(f"CS{i}", [F(f"CS{i + 1}" if i < n - 1 else "uint64", "v", 2)]), Const("float64", f"CK{i}", "1.25"),
                                Iface(f"CI{i}", [M(f"m{i}", [P("in", f"CS{i}", "s"), P("out", f"CI{min(i + 1, n - 1)}", "o"), P("in", f"CS{n - 1}", "t", "")]), Error(f"CE{i}"), Const("float32", "CF", "2")],
                                      f"CI{i + 1}" if i < n - 1 else None)], [f"c{i + 1}.idl"] if i < n - 1 else []) for i in range(n)}
    yield "cross/chain", {MAIN: File([Iface("CX", [M("mx", [P("in", "CI0", "a"), P("out", "CI4", "b", 2)])], "CI0")], ["c0.idl"]), **fs}, {}, True
    for w in ("If", "Type", "Match", "Fn", "Mod", "Impl", "Async", "Try"):
        yield f"lowered/{w}", {MAIN: File([Iface("User", [M("f", [P("in", w, "a"), P("out", w, "b"), P("in", w + "S", "c")])], w)], ["b.idl"]),
                               "/w/b.idl": File([Struct(w + "S", [F("uint32", "v")]), Iface(w, [M("g", [P("in", "User0", "a")]), Error("EE")]), Iface("User0", [M("h", [P("in", w, "a")])])])}, {}, True
    yield "cross/subdirs", {MAIN: File([Iface("SA", [M("f", [P("in", "LS", "a"), P("out", "SB", "b")])], "SB")], ["sub/b.idl", "../lib/d.idl"]),
                            "/w/sub/b.idl": File([Iface("SB", [M("g", [P("in", "LS", "a")])])], ["deep/c.idl"]), "/w/sub/deep/c.idl": File([*aux]), "/lib/d.idl": File([Const("uint8", "DK", "1")])}, {}, True
    yield "cross/errors", {MAIN: File([Iface("ER", [Error("SAME"), M("f", [P("in", "ES", "a")])], "ES")], ["b.idl"]), "/w/b.idl": File([Iface("ES", [Error("OTHER"), M("g")])])}, {}, True
    for w in ("a", "i", "k", "h", "o", "op", "me", "obj", "e", "r", "x", "bi", "bo", "m", "inner", "invoke", "args", "context", "result", "arg_idx", "mObj", "BI", "Ok", "Err", "T", "R", "Option", "Result", "Box", "Vec", "Clone", "Proxy", "MinkObject"):
        # the names as names of types
        yield f"types/iface {w}", {MAIN: File([*AUX, Iface(w, [M("g", [P("in", "LS", "q")]), Error("EE"), Const("uint8", "KK", "1")]), Iface("LI", [M("f", [P("in", w, "x"), P("out", w, "y"), P("in", "uint8", "z"), P("in", "uint16", "zz")]), M("ff", [P("in", w, "x", 2), P("out", w, "y", 3)])], w)])}, {}, True
        yield f"types/struct {w}", {MAIN: File([*AUX, Struct(w, [F("uint32", "v", 2)]), Struct("Holds", [F(w, "m", 3)]), Iface("LI", [M("f", [P("in", w, "x"), P("out", w, "y"), P("in", "uint8", "z"), P("out", "uint16", "zz")]), M("ff", [P("in", w, "x", ""), P("out", w, "y", "")]), M("fg", [P("in", w, "x"), P("out", w, "y")]),
                                                                                                                  M("fh", [P("in", "Holds", "x"), P("out", "Holds", "y")])])])}, {}, True
    for k, n in (("same", "own"), ("upper", "OWN")):
        # an interface named like the file it is in (up to case)
        yield f"file/{k}-name", {"/w/own.idl": File([*aux, Iface(n, [Error("EA"), M("f", [P("in", "LS", "x"), P("out", n, "y")])]), Const("uint8", "KA", "1"), Iface("After", [M("g")], n)])}, {"main": "/w/own.idl"}, True
