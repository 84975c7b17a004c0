"""Methods beyond the limits of an invocation: every back end refuses them, the next smaller ones are accepted."""
from idlv.core import parallel
from idlv.run import *
from idlv.idl import *
from . import wirecat as W

ps = W.ps
BS = ("c", "c_skel", "cpp", "cpp_skel", "rust", "java")
MAIN = "/w/a.idl"


def hash_(s):
    return sum(map(ord, s))


def cases():
    """(key, parameters): counts at and around 15 in every class, reached in different ways"""
    for d in ("in", "out"):
        for n in (15, 16, 17, 31, 32):
            for k in ("buffer", "uint32[]", "big", "tobj", "obj"):
                yield f"{n}x{k}/{d}", ps(*[f"{d} {k}"] * n)
        for n in (14, 15, 16):
            yield f"{n}xbuffer+bundle/{d}", ps(*[f"{d} buffer"] * n, f"{d} uint8", f"{d} uint16")
            yield f"{n}xbuffer+one/{d}", ps(*[f"{d} buffer"] * n, f"{d} uint8")
            yield f"{n}xobj+sobj/{d}", ps(*[f"{d} tobj"] * n, f"{d} sobj")
            yield f"{n}xbig+arr/{d}", ps(*[f"{d} big"] * (n - 1), f"{d} small[]")
        for n in (7, 8):
            yield f"{n}xsobj2/{d}", ps(*[f"{d} sobj2"] * n)
            yield f"{n}xotwin/{d}", ps(*[f"{d} otwin"] * n)
        for n in (4, 5, 6):
            yield f"{n}xoarr/{d}", ps(*[f"{d} oarr"] * n)
            yield f"{n}xonarr/{d}", ps(*[f"{d} onarr"] * n)
        for n in (14, 15, 16, 17, 31, 32, 255, 256, 257, 271, 65535):
            yield f"objarr{n}/{d}", [Param(d, "interface", "p", n)]
            yield f"tobjarr{n}/{d}", [Param("in", "uint8", "q"), Param(d, "ITgt", "p", n)]
        for n in (256, 257, 300):
            yield f"{n}xuint8/{d}", ps(*[f"{d} uint8"] * n)      # one bundle whatever the number
        for n in (255, 256, 257, 271):
            yield f"{n}xbuffer/{d}", ps(*[f"{d} buffer"] * n)
    yield "16in15out", ps(*["in buffer"] * 16, *["out buffer"] * 15)
    yield "15in16out", ps(*["in buffer"] * 15, *["out buffer"] * 16)
    yield "8in8out", ps(*["in buffer"] * 8, *["out buffer"] * 8)
    yield "15each", ps(*["in buffer", "out buffer", "in tobj", "out tobj"] * 15)
    yield "8obj8obj", ps(*["in tobj", "out tobj"] * 8)


def beyond_limits(ctx):
    F = W.FRONT

    def job(c):
        key, q = c
        nd = W.need(q)
        out = []
        for where in ("own", "inherited", "included"):
            if where != "own" and ctx.tier != "thorough" and hash_(key) % 4:
                continue
            ds = [d for d in W.ENV if d.name in nd]
            files = {MAIN: File(ds + [Iface("IG", [Method("m", q)])])}
            if where == "inherited":
                files[MAIN].decls.append(Iface("ID", [Method("z")], "IG"))
            elif where == "included":
                files = {"/w/b.idl": files[MAIN], MAIN: File([Iface("ID", [Method("z")], "IG")], ["b.idl"])}
            sp = Spec(*files.values())
            fits = sp.expressible(Method("m", q))
            objs = any(sp.objects(p.ty) for p in q if sp.kind(p) == "fixed")
            for b in (BS if where == "own" else ("c", "rust")):
                if b == "java" and objs:
                    continue
                r = compile_(F, files, b, main=MAIN)
                k = f"{key} [{where} {b}]"
                if r.uns:
                    out.append(("und", "limits", k, r.why()))
                elif fits and not r.accepted:
                    out.append(("bad", "within the limits: accepted", k, f"counts {sp.counts(Method('m', q))}: {r.why()}"))
                elif not fits and not r.rejected:
                    out.append(("bad", "beyond the limits: rejected", k, f"counts {sp.counts(Method('m', q))} need {max(sp.counts(Method('m', q)))} arguments of one class; accepted"))
                else:
                    out.append(("ok", "within the limits: accepted" if fits else "beyond the limits: rejected"))
        return out
    return parallel(list(cases()), job)
