"""C09: catalogue of file sets that violate exactly one documented restriction."""
import itertools

from idlv.idl import *

MAIN = "/w/a.idl"


def sur_struct():
    return [Struct("Okay1", [Field("uint32", "q"), Field("uint16", "r", 2)])]


def sur_iface():
    return [Iface("IOkay1", [Method("fine", [Param("in", "uint32", "a"), Param("out", "uint8", "b")]), Error("EOKAY"),
                             Const("uint8", "KOKAY", "3")])]


def contexts(rule, name, decls, inc=False):
    """violating declarations alone, before, after and between valid ones"""
    pre = sur_struct() + [Const("int16", "GC1", "-5")]
    post = sur_iface() + [Struct("Okay2", [Field("uint64", "z")])]
    yield (f"{rule}/{name}/alone", {MAIN: File(list(decls))}, rule)
    yield (f"{rule}/{name}/last", {MAIN: File(pre + post + list(decls))}, rule)
    yield (f"{rule}/{name}/first", {MAIN: File(list(decls) + pre + post)}, rule)
    if len(decls) > 1:
        mix = []
        fill = pre + post
        for i, d in enumerate(decls):
            mix += fill[i:i + 1] + [d]
        mix += fill[len(decls):]
        yield (f"{rule}/{name}/mixed", {MAIN: File(mix)}, rule)
        yield (f"{rule}/{name}/reversed", {MAIN: File(list(reversed(decls)))}, rule)
        # the declarations which violate the rule together are in different files
        h = max(1, len(decls) // 2)
        a, b = list(decls[:h]), list(decls[h:])
        yield (f"{rule}/{name}/over-files", {MAIN: File(b, ["b.idl"]), "/w/b.idl": File(a)}, rule)
        yield (f"{rule}/{name}/over-files-up", {MAIN: File(a + post, ["b.idl"]), "/w/b.idl": File(pre + b)}, rule)
        yield (f"{rule}/{name}/siblings", {MAIN: File(pre + post, ["b.idl", "c.idl"]), "/w/b.idl": File(a), "/w/c.idl": File(b)}, rule)
        yield (f"{rule}/{name}/far-files", {MAIN: File(b, ["c.idl"]), "/w/c.idl": File(pre + post, ["./sub/b.idl"]), "/w/sub/b.idl": File(a)}, rule)


INCLUDED = set()


def inc_contexts(rule, name, decls):
    """the violation sits in an included file: one representative per rule and kind, unused by the
    main file, and (for structs and interfaces) used by it"""
    fam = (rule, name.split("-")[0])
    if fam in INCLUDED:
        return
    INCLUDED.add(fam)
    inc = {"/w/b.idl": File(list(decls))}
    yield (f"{rule}/{name}/included", {MAIN: File(sur_iface(), ["b.idl"]), **inc}, rule)
    d = decls[-1]
    if isinstance(d, Struct):
        yield (f"{rule}/{name}/included-used", {MAIN: File(sur_iface() + [Struct("Uses", [Field(d.name, "u")])], ["b.idl"]), **inc}, rule)
    if isinstance(d, Iface):
        yield (f"{rule}/{name}/included-base", {MAIN: File(sur_iface() + [Iface("IUses", [Method("mm")], d.name)], ["b.idl"]), **inc}, rule)


def cyc_struct():
    F = Field
    for n in (1, 2, 3, 5):
        names = [f"S{i}" for i in range(n)]
        for where in ("plain", "after", "array"):
            ds = []
            for i, s in enumerate(names):
                t = names[(i + 1) % n]
                fs = [F(t, "nx", 2 if where == "array" and i == 0 else None)]
                if where == "after":
                    fs = [F("uint64", "x"), F("uint64", "y")] + fs
                ds.append(Struct(s, fs))
            yield f"struct-cycle{n}-{where}", ds
    # cycle reachable only through an acyclic prefix; diamond with a cycle at the end
    yield "struct-lasso", [Struct("A", [F("B", "b")]), Struct("B", [F("C", "c")]), Struct("C", [F("B", "b")])]
    yield "struct-diamond-cycle", [Struct("A", [F("B", "b"), F("C", "c")]), Struct("B", [F("D", "d")]),
                                   Struct("C", [F("D", "d")]), Struct("D", [F("C", "x")])]
    yield "struct-second-field-cycle", [Struct("A", [F("uint64", "u"), F("L", "l"), F("B", "b")]),
                                        Struct("L", [F("uint64", "v")]), Struct("B", [F("L", "m"), F("A", "a")])]


def cyc_iface():
    for n in (1, 2, 3, 5):
        names = [f"I{i}" for i in range(n)]
        yield f"iface-cycle{n}", [Iface(s, [Method(f"m{i}")], names[(i + 1) % n]) for i, s in enumerate(names)]
        yield f"iface-cycle{n}-empty", [Iface(s, [], names[(i + 1) % n]) for i, s in enumerate(names)]
    yield "iface-lasso", [Iface("A", [], "B"), Iface("B", [], "C"), Iface("C", [], "B")]
    yield "iface-two", [Iface("Z"), Iface("A", [], "B"), Iface("B", [], "A"), Iface("Q", [], "Z")]


def dup_names():
    m = Method
    p = Param
    for d1, d2 in itertools.product(("in", "out"), repeat=2):
        for t1, t2 in (("uint8", "uint8"), ("uint8", "uint64"), ("buffer", "uint8"), ("interface", "uint8"), ("interface", "interface")):
            yield "dup-param", f"{d1}{d2}-{t1}-{t2}", [Iface("ID", [m("f", [p(d1, t1, "x"), p(d2, t2, "x")])])]
    yield "dup-param", "far", [Iface("ID", [m("ok", [p("in", "uint8", "x")]), m("f", [p("in", "uint8", "x"), p("in", "uint8", "y"), p("in", "uint8", "z"), p("out", "uint8", "w"), p("out", "uint8", "x")])])]
    yield "dup-param", "derived", [Iface("IB", [m("ok", [p("in", "uint8", "x")])]), Iface("ID", [m("f", [p("in", "uint8", "y"), p("out", "uint8", "y")])], "IB")]
    yield "dup-param", "base", [Iface("IB", [m("f", [p("in", "uint8", "y"), p("out", "uint8", "y")])]), Iface("ID", [m("ok", [p("in", "uint8", "x")])], "IB")]
    yield "dup-param", "second-method", [Iface("ID", [m("f", [p("in", "uint8", "y")]), m("g", [p("out", "uint8", "y"), p("out", "uint16", "y")])])]
    yield "dup-param", "array", [Iface("ID", [m("f", [p("in", "uint8", "y", ""), p("out", "uint8", "y", "")])])]
    yield "dup-field", "adjacent", [Struct("SD", [Field("uint32", "x"), Field("uint32", "x")])]
    yield "dup-field", "types", [Struct("SD", [Field("uint32", "x"), Field("uint8", "x", 4)])]
    yield "dup-field", "far", [Struct("SD", [Field("uint32", "x"), Field("uint32", "y"), Field("uint32", "z"), Field("uint32", "x")])]
    yield "dup-field", "tail", [Struct("SD", [Field("uint32", "x"), Field("uint32", "y"), Field("uint32", "z"), Field("uint32", "z")])]
    yield "dup-field", "nested", [Struct("Inn", [Field("uint32", "x"), Field("uint32", "x")]), Struct("SD", [Field("Inn", "i")])]
    yield "dup-field", "objs", [Struct("SD", [Field("interface", "x"), Field("interface", "x")])]
    for a, b in itertools.product(("f", "g"), repeat=2):
        pass
    yield "dup-method", "adjacent", [Iface("ID", [m("f"), m("f")])]
    yield "dup-method", "far", [Iface("ID", [m("f"), m("g"), m("h"), m("f")])]
    yield "dup-method", "tail", [Iface("ID", [m("g"), m("h"), m("f"), m("f")])]
    yield "dup-method", "overload", [Iface("ID", [m("f", [p("in", "uint8", "x")]), m("f", [p("out", "uint16", "y")])])]
    yield "dup-method", "inherited", [Iface("IB", [m("f")]), Iface("ID", [m("f")], "IB")]
    yield "dup-method", "inherited2", [Iface("IA", [m("f")]), Iface("IB", [m("g")], "IA"), Iface("ID", [m("h"), m("f")], "IB")]
    yield "dup-method", "inherited3", [Iface("IA", [m("f")]), Iface("IB", [], "IA"), Iface("IC", [m("q")], "IB"), Iface("ID", [m("f")], "IC")]
    yield "dup-method", "optional", [Iface("ID", [m("f", [], True), m("f")])]
    yield "dup-method", "middle-pair", [Iface("IA", [m("a")]), Iface("IB", [m("f")], "IA"), Iface("IC", [m("f")], "IB"), Iface("ID", [m("z")], "IC")]
    E, C = Error, Const
    for n1, n2 in itertools.product((E("X"), C("uint8", "X", "1")), (E("X"), C("int32", "X", "2"), C("uint8", "X", "1"))):
        k = f"{type(n1).__name__}-{type(n2).__name__}-{getattr(n2, 'value', '')}"
        yield "dup-const-error", f"same-{k}", [Iface("ID", [n1, n2])]
        yield "dup-const-error", f"far-{k}", [Iface("ID", [n1, E("E1"), m("f"), C("uint8", "C1", "1"), n2])]
        yield "dup-const-error", f"inh-{k}", [Iface("IB", [n1]), Iface("ID", [n2], "IB")]
        yield "dup-const-error", f"inh2-{k}", [Iface("IA", [E("E0"), n1]), Iface("IB", [m("g"), E("E2")], "IA"), Iface("ID", [n2], "IB")]
    yield "dup-const-error", "global", [Const("uint8", "X", "1"), Const("uint8", "X", "1")]
    yield "dup-const-error", "global-types", [Const("uint8", "X", "1"), Const("int32", "X", "2")]
    S = Struct("T", [Field("uint32", "x")])
    I = Iface("T", [m("f")])
    K = Const("uint8", "T", "1")
    for a, b in itertools.combinations_with_replacement((S, I, K), 2):
        if type(a) is Const and type(b) is Const:
            continue
        yield "dup-top", f"{type(a).__name__}-{type(b).__name__}", [a, b]
    yield "dup-top", "far", [S, Struct("U", [Field("uint32", "x")]), Iface("J"), Struct("T", [Field("uint64", "y")])]


def undefined():
    m, p = Method, Param
    for a in (None, "", 2):
        for d in ("in", "out"):
            yield "undefined", f"param-{d}-{a}", [Iface("IU", [m("f", [p(d, "Nope", "x", a)])])]
    yield "undefined", "param-later", [Iface("IU", [m("g", [p("in", "uint8", "a")]), m("f", [p("in", "uint8", "y"), p("out", "Nope", "x")])])]
    yield "undefined", "base", [Iface("IU", [m("f")], "Nope")]
    yield "undefined", "base-empty", [Iface("IU", [], "Nope")]
    yield "undefined", "base-chain", [Iface("IA", [m("f")], "Nope"), Iface("IB", [m("g")], "IA")]
    yield "undefined", "base-is-struct", [Struct("SB", [Field("uint32", "x")]), Iface("IU", [m("f")], "SB")]
    yield "undefined", "field", [Struct("SU", [Field("Nope", "x")])]
    yield "undefined", "field-array", [Struct("SU", [Field("Nope", "x", 3)])]
    yield "undefined", "field-last", [Struct("SU", [Field("uint64", "a"), Field("uint64", "b"), Field("Nope", "x")])]
    yield "undefined", "field-nested", [Struct("SI", [Field("Nope", "x")]), Struct("SU", [Field("SI", "s")])]
    yield "undefined", "field-used", [Struct("SI", [Field("Nope", "x")]), Iface("IU", [m("f", [p("in", "SI", "s")])])]
    yield "undefined", "const-as-type", [Const("uint8", "KK", "1"), Iface("IU", [m("f", [p("in", "KK", "s")])])]
    yield "undefined", "const-as-field", [Const("uint8", "KK", "1"), Struct("SU", [Field("KK", "s")])]


def layout():
    F = Field
    order = [("uint8", 1), ("uint16", 2), ("uint32", 4), ("uint64", 8), ("float32", 4), ("float64", 8), ("int8", 1), ("int16", 2), ("int32", 4), ("int64", 8)]
    for (a, sa), (b, sb) in itertools.product(order, repeat=2):
        if sa < sb:
            yield "layout", f"misaligned-{a}-{b}", [Struct("SL", [F(a, "x"), F(b, "y"), F(b, "z")] + ([F(a, "w", sb - sa)] if False else []))]
        if sa > sb:
            yield "layout", f"tail-{a}-{b}", [Struct("SL", [F(a, "x"), F(b, "y")])]
    for n in (1, 3, 5, 7):
        yield "layout", f"array-misaligned-{n}", [Struct("SL", [F("uint8", "x", n), F("uint16", "y", 4)] + ([F("uint8", "t")] if n % 2 else []))]
    yield "layout", "tail-array", [Struct("SL", [F("uint32", "x"), F("uint8", "y", 3)])]
    yield "layout", "total-ok-misaligned", [Struct("SL", [F("uint8", "a"), F("uint16", "b"), F("uint8", "c")])]
    yield "layout", "total-ok-misaligned64", [Struct("SL", [F("uint32", "a"), F("uint64", "b"), F("uint32", "c")])]
    yield "layout", "middle", [Struct("SL", [F("uint64", "a"), F("uint8", "b", 4), F("uint64", "c"), F("uint8", "d", 4)])]
    inn8 = Struct("In8", [F("uint64", "x")])
    inn4 = Struct("In4", [F("uint32", "x")])
    innb = Struct("In2x6", [F("uint16", "x", 3)])
    yield "layout", "nested-misaligned", [inn8, Struct("SL", [F("uint32", "a"), F("In8", "b"), F("uint32", "c")])]
    yield "layout", "nested-tail", [inn8, Struct("SL", [F("In8", "b"), F("uint32", "c")])]
    yield "layout", "nested-deep", [inn8, Struct("Mid", [F("In8", "m")]), Struct("SL", [F("uint32", "a"), F("Mid", "b"), F("uint32", "c")])]
    yield "layout", "nested-array", [inn4, Struct("SL", [F("uint16", "a"), F("In4", "b", 2), F("uint16", "c")])]
    yield "layout", "nested-then", [innb, Struct("SL", [F("In2x6", "a"), F("uint32", "b")])]
    yield "layout", "nested-then-tail", [innb, Struct("SL", [F("uint32", "b"), F("In2x6", "a"), F("uint32", "d")])]
    yield "layout", "inner-bad", [Struct("Bad", [F("uint32", "a"), F("uint8", "b")]), Struct("SL", [F("Bad", "x")])]
    yield "layout", "obj-misaligned", [Struct("SL", [F("uint32", "a"), F("interface", "o"), F("uint32", "b")])]
    yield "layout", "obj-tail", [Struct("SL", [F("interface", "o"), F("uint32", "b")])]
    yield "layout", "obj-nested-misaligned", [Struct("So", [F("interface", "o")]), Struct("SL", [F("uint32", "a"), F("So", "o"), F("uint32", "b")])]
    yield "layout", "typed-obj-misaligned", [Iface("IX"), Struct("SL", [F("uint32", "a"), F("IX", "o"), F("uint32", "b")])]
    yield "layout", "float-tail", [Struct("SL", [F("float64", "a"), F("float32", "b")])]


def inttypes():
    for s, w in itertools.product(("", "u"), (8, 16, 32, 64)):
        t = f"{s}int{w}"
        lo, hi = (0, 2 ** w - 1) if s else (-2 ** (w - 1), 2 ** (w - 1) - 1)
        yield t, w, lo, hi


def const_range():
    for t, w, lo, hi in inttypes():
        vals = {"hi+1": hi + 1, "lo-1": lo - 1, "2hi+1": 2 * hi + 1 + 1, "2hi+1b": 2 * (hi + 1), "2^64": 2 ** 64,
                "-2^64": -2 ** 64, "2^65+1": 2 ** 65 + 1, "10^40": 10 ** 40, "-10^40": -10 ** 40, "-2^w": -2 ** w - 1}
        if t[0] == "u":
            vals["-1"] = -1
            vals["-hi"] = -hi
        for k, v in vals.items():
            if lo <= v <= hi:
                continue
            yield "const-range", f"{t}-{k}-dec", t, str(v)
            hx = ("-" if v < 0 else "") + "0x%x" % abs(v)
            yield "const-range", f"{t}-{k}-hex", t, hx
            yield "const-range", f"{t}-{k}-HEX", t, ("-" if v < 0 else "") + "0x%X" % abs(v)
        yield "const-range", f"{t}-hi+1-zeros", t, "000" + str(hi + 1)


def objarr():
    m, p = Method, Param
    for ty in ("interface", "IT"):
        for d in ("in", "out"):
            o = "out" if d == "in" else "in"
            T = [Iface("IT", [m("t")])]
            yield "objarr", f"unbounded-{ty}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", "")])])]
            yield "objarr", f"unbounded-later-{ty}-{d}", T + [Iface("IO", [m("g", [p("in", "uint8", "a")]), m("f", [p(d, "uint8", "b"), p(d, ty, "x", "")])])]
            for ty2 in ("interface", "IT"):
                yield "objarr", f"arr+obj-{ty}-{ty2}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", 2), p(d, ty2, "y")])])]
                yield "objarr", f"obj+arr-{ty}-{ty2}-{d}", T + [Iface("IO", [m("f", [p(d, ty2, "y"), p(d, ty, "x", 2)])])]
                yield "objarr", f"arr+arr-{ty}-{ty2}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", 2), p(d, ty2, "y", 3)])])]
                yield "objarr", f"arr+arr-apart-{ty}-{ty2}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", 1), p("in", "uint8", "q"), p(o, "uint16", "r"), p(d, ty2, "y", 1)])])]
                yield "objarr", f"arr+obj-apart-{ty}-{ty2}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", 2), p(o, ty2, "q"), p("in", "uint8", "z"), p(d, ty2, "y")])])]
            yield "objarr", f"second-method-{ty}-{d}", T + [Iface("IO", [m("g", [p(d, ty, "x", 2)]), m("f", [p(d, ty, "x", 2), p(d, ty, "y")])])]
            yield "objarr", f"in-base-{ty}-{d}", T + [Iface("IB", [m("f", [p(d, ty, "x", 2), p(d, ty, "y")])]), Iface("IO", [m("g")], "IB")]
            yield "objarr", f"optional-{ty}-{d}", T + [Iface("IO", [m("f", [p(d, ty, "x", 2), p(d, ty, "y")], True)])]
    So = Struct("So", [Field("interface", "o")])
    Sb = Struct("Sb", [Field("uint64", "a", 4), Field("interface", "o")])
    Sn = Struct("Sn", [Field("So", "s"), Field("uint64", "a")])
    Snn = Struct("Snn", [Field("uint64", "a"), Field("Sn", "s")])
    St = Struct("St", [Field("IT", "o"), Field("uint64", "a")])
    Sa = Struct("Sa", [Field("So", "s", 2)])
    T = [Iface("IT", [m("t")])]
    for s, ds in ((So, [So]), (Sb, [Sb]), (Sn, [So, Sn]), (Snn, [So, Sn, Snn]), (St, T + [St]), (Sa, [So, Sa])):
        for d in ("in", "out"):
            yield "struct-obj-array", f"{s.name}-{d}", ds + [Iface("IO", [m("f", [p(d, s.name, "x", "")])])]
            yield "struct-obj-array", f"{s.name}-{d}-later", ds + [Iface("IO", [m("g", [p(d, s.name, "x")]), m("f", [p(d, "uint8", "z"), p("in", "uint8", "y", ""), p(d, s.name, "x", "")])])]
    for d in ("in", "out"):
        for t in ("uint8", "uint64", "float32", "Sp"):
            yield "bounded-data-array", f"{t}-{d}", [Struct("Sp", [Field("uint32", "v")]), Iface("IO", [m("f", [p(d, t, "x", 4)])])]
        yield "bounded-data-array", f"So-{d}", [So, Iface("IO", [m("f", [p(d, "So", "x", 2)])])]


def raw():
    """text outside the grammar"""
    ok = "interface IG { method f(in uint8 x); };\n"
    R = {
        "missing-semicolon": "interface IG { method f(in uint8 x) };",
        "missing-brace": "interface IG { method f(in uint8 x); ;",
        "no-direction": "interface IG { method f(uint8 x); };",
        "bad-direction": "interface IG { method f(inout uint8 x); };",
        "empty-struct": "struct S { };",
        "struct-named-interface": "struct interface { uint32 x; };",
        "trailing-text": ok + "garbage",
        "leading-text": "garbage " + ok,
        "include-after": ok + 'include "b.idl"',
        "const-no-type": "const X = 5;",
        "const-no-value": "const uint8 X;",
        "const-expr": "const uint8 X = 1 + 2;",
        "const-string": 'const uint8 X = "a";',
        "const-char": "const uint8 X = 'a';",
        "const-iface-type": "const IFoo X = 1;",
        "const-buffer": "const buffer X = 1;",
        "const-plus": "const uint8 X = +1;",
        "const-0x": "const uint8 X = 0x;",
        "const-hex-frac": "const float32 X = 0x1.8;",
        "const-dot": "const float32 X = 1.;",
        "const-exp": "const float32 X = 1e5;",
        "unknown-prim": "interface IG { method f(in uint24 x y); };",
        "field-buffer-array": "struct S { uint32[] x; };",
        "prim-neg-array": "struct S { uint32[-1] x; };",
        "prim-ident-array": "struct S { uint32[N] x; };",
        "bounded-prim-hex": "struct S { uint32[0x4] x; };",
        "two-bases": "interface A {}; interface B {}; interface C : A, B {};",
        "nested-iface": "interface A { interface B {}; };",
        "struct-in-iface": "interface A { struct B { uint32 x; }; };",
        "method-outside": "method f();",
        "error-outside": "error E;",
        "error-value": "interface A { error E = 5; };",
        "digit-ident": "interface A { method 1f(); };",
        "underscore-ident": "interface A { method _f(); };",
        "unclosed-comment": ok + "/* never closed",
        "bad-attr": "interface A { #[deprecated] method f(); };",
        "attr-param": "interface A { #[optional(x)] method f(); };",
        "attr-unclosed": "interface A { #[optional method f(); };",
        "attr-struct": "#[optional] struct S { uint32 x; };",
        "attr-error": "interface A { #[optional] error E; };",
        "method-return": "interface A { method uint8 f(); };",
        "param-trailing-comma": "interface A { method f(in uint8 x,); };",
        "param-default": "interface A { method f(in uint8 x = 1); };",
        "param-semicolon": "interface A { method f(in uint8 x; in uint8 y); };",
        "bare-type": "interface A { method f(in uint8); };",
        "buffer-array": "interface A { method f(in buffer[] x y); };",
        "array-2d": "struct S { uint8[2][2] x; };",
        "bool": "interface A { method f(in bool[4 x); };",
        "nul": ok + "\0",
        "bom": "\ufeff" + ok,
        "unicode-ident": "interface \u00c4 {};",
        "unicode-method": "interface A { method \u00e9(); };",
        "quote": ok + '"',
        "missing-iface-semicolon": "interface A { method f(); }",
        "missing-struct-semicolon": "struct S { uint32 x; }",
        "missing-method-semicolon": "interface A { method f() };",
        "missing-error-semicolon": "interface A { error E };",
        "const-missing-semicolon": "const uint8 X = 5",
        "kw-case": "Interface A {};",
        "method-case": "interface A { Method f(); };",
        "struct-base": "struct S : T { uint32 x; };",
    }
    for k, v in R.items():
        yield "grammar", k, {MAIN: v}
    for k, v in R.items():
        if k not in ("bom",):
            yield "grammar", k + "/included", {MAIN: 'include "b.idl"\n' + ok, "/w/b.idl": v}


def attrs():
    for n in (2, 3):
        for sep in ("\n  ", " "):
            t = "interface IA {\n  " + sep.join(["#[optional]"] * n) + sep + "method f(in uint8 x);\n};\n"
            yield "repeated-attribute", f"{n}-{'nl' if sep[0] == chr(10) else 'sp'}", {MAIN: t}
            t2 = "interface IA {\n  method g();\n  " + sep.join(["#[optional]"] * n) + sep + "method f(in uint8 x);\n method h(); };\n"
            yield "repeated-attribute", f"{n}-later-{'nl' if sep[0] == chr(10) else 'sp'}", {MAIN: t2}


def cyc_include():
    names = "abcdefg"
    for n in (1, 2, 3, 5):
        fs = {}
        for i in range(n):
            fs[f"/w/{names[i]}.idl"] = File([Iface(f"I{i}")], [f"{names[(i + 1) % n]}.idl"])
        yield "include-cycle", f"cycle{n}", fs
    yield "include-cycle", "lasso", {MAIN: File([], ["b.idl"]), "/w/b.idl": File([], ["c.idl"]), "/w/c.idl": File([], ["b.idl"])}
    yield "include-cycle", "second", {MAIN: File([], ["b.idl", "c.idl"]), "/w/b.idl": File([]), "/w/c.idl": File([], ["a.idl"])}
    yield "include-cycle", "diamond", {MAIN: File([], ["b.idl", "c.idl"]), "/w/b.idl": File([], ["d.idl"]), "/w/c.idl": File([], ["d.idl"]), "/w/d.idl": File([], ["c.idl"])}
    yield "include-cycle", "dotted", {MAIN: File([], ["./b.idl"]), "/w/b.idl": File([], ["../w/a.idl"])}
    yield "include-cycle", "self-dotted", {MAIN: File([], ["./a.idl"])}
    yield "include-missing", "plain", {MAIN: File([Iface("I")], ["nope.idl"])}
    yield "include-missing", "second", {MAIN: File([Iface("I")], ["b.idl", "nope.idl"]), "/w/b.idl": File([])}
    yield "include-missing", "deep", {MAIN: File([Iface("I")], ["b.idl"]), "/w/b.idl": File([], ["nope.idl"])}
    yield "include-missing", "rel", {MAIN: File([Iface("I")], ["sub/b.idl"]), "/w/b.idl": File([])}


def catalogue():
    """yields (key, files, rule, kwargs)"""
    out = []
    INCLUDED.clear()

    def add(it, **kw):
        for k, fs, r in it:
            out.append((k, fs, r, kw))
    for nm, ds in cyc_struct():
        add(contexts("struct-cycle", nm, ds))
        add(inc_contexts("struct-cycle", nm, ds))
    for nm, ds in cyc_iface():
        add(contexts("iface-cycle", nm, ds))
        add(inc_contexts("iface-cycle", nm, ds))
    for gen in (dup_names, undefined, layout, objarr):
        for rule, nm, ds in gen():
            add(contexts(rule, nm, ds))
            add(inc_contexts(rule, nm, ds))
    for rule, nm, t, v in const_range():
        add([(f"{rule}/{nm}/global", {MAIN: File([Const(t, "KR", v)])}, rule),
             (f"{rule}/{nm}/iface", {MAIN: File([Iface("IR", [Method("f"), Const(t, "KR", v)])])}, rule),
             (f"{rule}/{nm}/after", {MAIN: File([Const(t, "K0", "1"), Const(t, "KR", v), Iface("I0")])}, rule),
             (f"{rule}/{nm}/inc", {MAIN: File(sur_iface(), ["b.idl"]), "/w/b.idl": File([Const(t, "KR", v)])}, rule)])
    for rule, nm, fs in itertools.chain(raw(), attrs(), cyc_include()):
        add([(f"{rule}/{nm}", fs, rule)])
    # duplicate top-level names across files of one include set
    S = Struct("T", [Field("uint32", "x")])
    for a, b in (("struct", Struct("T", [Field("uint64", "y")])), ("iface", Iface("T")), ("const", Const("uint8", "T", "1"))):
        add([(f"dup-top/across-{a}", {MAIN: File([b], ["b.idl"]), "/w/b.idl": File([S])}, "dup-top"),
             (f"dup-top/across-{a}-siblings", {MAIN: File([Iface("M")], ["b.idl", "c.idl"]), "/w/b.idl": File([S]), "/w/c.idl": File([b])}, "dup-top")])
    return out
