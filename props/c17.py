"""C17: constants reach every back end with their value and type.

The output of the compiler (abstract interpretation of its MIR) is given to the front ends of the target languages; the
value and the type of every emitted constant is read off the constant initialisers of the LLVM IR respectively the
ConstantValue attributes of the class files. Range decisions are made on the abstract traces of the compiler."""
import struct
import sys
import time
from fractions import Fraction

from idlv.core import parallel
from idlv.run import *
from idlv.idl import *
from ll import tool
from . import target as T

MAIN = "/w/a.idl"
INTS = [f"{s}int{w}" for s in ("u", "") for w in (8, 16, 32, 64)]


def rng(t):
    w, s = T.BITS[t]
    return (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)


def spellings(v):
    m = abs(v)
    sg = "-" if v < 0 else ""
    yield f"{sg}{m}"
    yield f"{sg}0{m}"
    yield f"{sg}000{m}"
    yield f"{sg}0x{m:x}"
    yield f"{sg}0x{m:X}"
    yield f"{sg}0x00{m:x}"


def ints(t, thorough):
    lo, hi = rng(t)
    w, s = T.BITS[t]
    vals = {lo, lo + 1, 0, 1, 7, 8, 10, 64, 100, hi - 1, hi, hi // 2, hi // 2 + 1}
    for k in range(1, w):
        if k % 8 in (0, 7) or thorough:
            vals |= {x for x in (2 ** k - 1, 2 ** k, -2 ** k, -2 ** k + 1) if lo <= x <= hi}
    if s:
        vals |= {-1, -7, -8, -10, -100}
        yield "-0"
        yield "-0x0"
    vals |= {0xab & hi, 0x1f, 0xe1 & hi, 0x5e5 & hi, int("123456789012345678901234567890"[:len(str(hi)) - 1])}
    for v in sorted(vals):
        yield from spellings(v)


FLOATS = ["0", "1", "-1", "1.5", "-2.25", "0.0", "-0.0", "0.1", "3.14159265358979", "123456789.5", "-0.001", "65536", "007", "010", "-010.50", "00.5", "00", "000.0",
          "16777216", "16777217", "9007199254740993", "100000000000000000000", "0.000000000000000000000000001", "340282346638528859811704183484516925440", "1.0000001192092896",
          "0x10", "0xFF", "-0x1f", "0x1e5", "0x0", "0xABCDEF", "2147483648", "4294967296", "08", "09.25"]
F64 = ["1797693134862315708145274237317043567980705675258449965989174768031572607800285387605895586327668781715404589535143824642343213268894641827684675467035375169860499105765512820762454900903893289440758685084551339423045832369032229481658085593321233477971926", "0.1000000000000000055511151231257827"]


def value(t, lit):
    neg = lit.startswith("-")
    m = lit.lstrip("-")
    v = int(m, 16) if m.startswith("0x") else Fraction(m) if "." in m else int(m, 10)
    return -v if neg else v


def nearest(t, v):
    """correctly rounded float of a rational"""
    v = Fraction(v)
    if t == "float64":
        return v.numerator / v.denominator
    c = struct.unpack("<f", struct.pack("<f", v.numerator / v.denominator))[0]
    best = c
    b = struct.unpack("<I", struct.pack("<f", abs(c)))[0]
    for d in (-1, 1):
        if 0 <= b + d < 0x7f800000:
            x = struct.unpack("<f", struct.pack("<I", b + d))[0] * (-1 if v < 0 else 1)
            e1, e2 = abs(Fraction(x) - v), abs(Fraction(best) - v)
            if e1 < e2 or e1 == e2 and (b + d) % 2 == 0:
                best = x
    return best


def judge(lang, t, lit, r):
    """None when the result is the value and type of the constant"""
    if r[0] == "gen":
        return ("und" if r[1] == "uns" else "bad", r[2])
    if r[0] == "err":
        return "bad", "not an expression of the target language: " + r[1]
    if r[0] == "err?":
        return "und", r[1]
    kind, bits, signed, x = r
    v = value(t, lit)
    if t.startswith("float"):
        w = int(t[5:])
        if kind != "float" or bits != w:
            return "bad", f"is a {bits}-bit {kind}, declared {t}"
        if x != nearest(t, v):
            return "bad", f"is {x!r}, the literal is {lit}"
        return None
    w, s = T.BITS[t]
    if kind != "int":
        return "bad", f"is a {kind}, declared {t}"
    ok = {(w, s)}
    if lang == "c" and w < 32:
        ok.add((32, True))           # the macros of stdint.h expand to the promoted type
    if lang == "java":
        ok = {(16, False)} if t == "uint16" else {(w, True)}
    if (bits, signed) not in ok:
        return "bad", f"has {bits} bits, {'signed' if signed else 'unsigned'}; declared {t}"
    if (x - v) % (1 << bits) or lang != "java" and x != v:
        return "bad", f"is {x}, the literal is {lit}"
    return None


def c_names(owner, ident, holder=None):
    """spec of a constant in every language; owner: None | interface name; holder: the derived interface it is read through"""
    if owner is None:
        return {"c": ident, "cpp": "::" + ident}
    h = holder or owner
    return {"c": f"{h}_{ident}", "cpp": f"I{h}::{ident}", "java": (h, f"{h}_{ident.upper()}")}


def specs(files):
    """[(key, type, literal, {lang: spec})] of every constant of a file set, own and inherited"""
    out = []
    sp = Spec(*files.values())
    for path, f in files.items():
        stem = path.rsplit("/", 1)[1][:-4]
        for d in f.decls:
            if isinstance(d, Const):
                n = c_names(None, d.name)
                n["rust"] = (f"interfaces::{stem.lower()}::{d.name.upper()}", T.RT[d.ty])
                n["java"] = (stem, d.name)
                out.append((f"{d.ty} {d.value} global {d.name}", d.ty, d.value, n))
            elif isinstance(d, Iface):
                for i, c in sp.consts(d.name):
                    n = c_names(i.name, c.name, d.name)
                    if i.name == d.name:
                        n["rust"] = (f"interfaces::{d.name.lower()}::{c.name.upper()}", T.RT[c.ty])
                    k = f"{c.ty} {c.value} in {d.name}" + ("" if i.name == d.name else f" from {i.name}")
                    out.append((f"{k} {c.name}", c.ty, c.value, n))
    return out


def sets(thorough):
    """(key, files)"""
    for t in INTS + ["float32", "float64"]:
        lits = list(dict.fromkeys(ints(t, thorough) if t in INTS else FLOATS + (F64 if t == "float64" else [])))
        half = [Const(t, f"K{i}", v) for i, v in enumerate(lits)]
        yield f"{t}/global", {MAIN: File(half)}
        yield f"{t}/iface", {MAIN: File([Iface("IK", half)])}
    mix = lambda p, lo=0: [Const(t, f"{p}{i}", v) for i, (t, v) in enumerate([("uint8", "255"), ("int8", "-0x80"), ("uint16", "0xFFFF"), ("int16", "-32768"), ("uint32", "0xffffffff"),
                                                                            ("int32", "-2147483648"), ("uint64", "18446744073709551615"), ("int64", "-9223372036854775808"), ("float32", "-0.5"),
                                                                            ("float64", "00012.125"), ("int64", "0x7FFFFFFFFFFFFFFF"), ("uint8", "010")][lo:])]
    m = Method("go", [Param("in", "uint8", "x")])
    yield "mixed", {MAIN: File([*mix("A"), Struct("SS", [Field("uint32", "v")]), *mix("B", 6), Iface("IA", [*mix("Q"), m, Error("E1"), *mix("R", 3)]), *mix("C", 4)])}
    yield "inherit", {MAIN: File([Iface("IA", [*mix("A"), m]), Iface("IB", mix("B", 2), "IA"), Iface("IC", [], "IB"), Iface("ID", [Method("h"), *mix("D", 5)], "IC")])}
    yield "names", {MAIN: File([Const("uint32", n, str(i)) for i, n in enumerate(["lower", "MixedCase", "with_underscore", "UPPER_2", "x", "Trailing_", "a1b2"])]
                               + [Iface("INm", [Const("uint32", n, str(20 + i)) for i, n in enumerate(["lower", "MixedCase", "with_underscore", "UPPER_2", "x", "Trailing_", "a1b2"])])])}
    yield "included", {"/w/low.idl": File([*mix("L"), Iface("IL", [*mix("M"), m])]), MAIN: File([*mix("A"), Iface("IA", mix("B"), "IL")], ["low.idl"])}


def refused(thorough):
    """(type, literal) outside the range"""
    for t in INTS:
        lo, hi = rng(t)
        for v in (lo - 1, hi + 1, lo - 10, hi + 10, 2 * hi + 1, -2 * hi, 2 * hi + 2, 2 ** 64, 2 ** 64 + 1, -2 ** 64, 2 ** 128, hi + 2 ** 32, 2 ** 128 + 1, -2 ** 128):
            if lo <= v <= hi:
                continue
            for l in spellings(v):
                yield t, l
        if lo == 0:
            yield from ((t, l) for l in ("-0", "-1", "-0x0", "-0x1", "-00", "-0x00", "-01"))
        yield from ((t, l) for l in ("1.0", "0.5", "1.5", "-1.0", "00.0"))
    for l in ("340282366920938463463374607431768211456", "-1" + "0" * 39, "1" + "0" * 60, "1" + "0" * 400):
        yield "float32", l
    for l in ("1" + "0" * 309, "-1" + "0" * 400 + ".5", "2" + "0" * 308):
        yield "float64", l


PLACES = ("global", "interface", "derived", "included")


def place(where, c):
    m = Method("go")
    if where == "global":
        return {MAIN: File([c])}
    if where == "interface":
        return {MAIN: File([Iface("IA", [m, c])])}
    if where == "derived":
        return {MAIN: File([Iface("IA", [m]), Iface("IB", [c], "IA")])}
    return {"/w/b.idl": File([Iface("IA", [c])]), MAIN: File([Iface("IB", [], "IA")], ["b.idl"])}


def run(ctx):
    F = load()
    jobs = [("set", *x) for x in sets(ctx.thorough)]
    rej = list(dict.fromkeys(refused(ctx.thorough)))
    for i in range(0, len(rej), 40):
        jobs.append(("rej", i, rej[i:i + 40]))
    for t in INTS:
        ls = list(dict.fromkeys(ints(t, ctx.thorough)))
        jobs.append(("acc", t, [(t, l) for l in ls]))

    def job(j):
        out = []
        if j[0] == "set":
            _, key, files = j
            its = specs(files)
            with tool.Scratch() as s:
                g = T.Gen(s, F, files)
                res = T.probe_all(g, MAIN, [(i, x[3]) for i, x in enumerate(its)])
            for lang, rs in res.items():
                out.append(("stat", f"{lang} constants", len(rs)))
                for i, r in rs.items():
                    k, t, lit, _ = its[i]
                    b = judge(lang, t, lit, r)
                    if b is None:
                        out.append(("ok", "value and type"))
                    else:
                        out.append((b[0], "value and type", f"{key}: {k} [{lang}]", f"const {t} … = {lit}: {b[1]}"))
        else:
            kind, _, cs = j
            for n, (t, l) in enumerate(cs):
                c = Const(t, "K", l)
                for where in PLACES if ctx.thorough or n % 9 == 0 else PLACES[:2]:
                    for b, kw in (("c", {}), ("rust", {}), ("java", {})) if n % 7 == 0 else (("c", {}),):
                        r = compile_(F, place(where, c), b, main=MAIN, **kw)
                        k = f"{t} {l} {where} [{b}]"
                        rule = "in range: accepted" if kind == "acc" else "out of range: rejected"
                        if r.uns:
                            out.append(("und", rule, k, r.why()))
                        elif (r.accepted if kind == "acc" else r.rejected):
                            out.append(("ok", rule))
                        else:
                            out.append(("bad", rule, k, f"const {t} K = {l}; is {'refused: ' + r.why() if kind == 'acc' else 'accepted'}"))
                if kind == "rej" and (n % 5 == 0 or ctx.thorough) and "." not in l:
                    r = compile_(F, place("global", c), "c", main=MAIN, allow_undefined_behavior=True)
                    if r.uns:
                        out.append(("und", "undefined behaviour allowed: accepted", f"{t} {l}", r.why()))
                    elif r.accepted:
                        out.append(("ok", "undefined behaviour allowed: accepted"))
                    else:
                        out.append(("bad", "undefined behaviour allowed: accepted", f"{t} {l}", r.why()))
        out.append(("visited", {F.db.insts[x]["name"] for x in F.I.visited}))
        return out

    ctx.merge(parallel(jobs, job, deadline=time.time() + (3000 if ctx.thorough else 700)))
    cleanup(F)
    return ctx.finish("Constants of every type, at both range boundaries and around powers of two, in decimal, hexadecimal, negative, zero-padded and fractional spelling, at file level, in interfaces, "
                      "inherited and included: value, width and signedness of the emitted C macro, C++ static, Rust const and Java field as folded by the front ends of the languages; range decisions of the compiler on its abstract traces.",
                      sets=len(jobs))
