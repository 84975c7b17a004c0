"""C15: appending never disturbs what is there.

The generated text before and after an append is computed abstractly; the difference has to consist of pure
insertions (no line removed or changed), each brace-balanced and about the appended declaration, and the text
of every pre-existing method has to reappear in one piece."""
import re

from absint.front import final_files
from idlv.core import parallel
from idlv.run import *
from . import valid as V
from idlv.idl import *

MAIN = V.MAIN
NEW = "znewthing"


def new_nodes():
    P = Param
    yield "method-plain", [Method(NEW)]
    yield "method-optional", [Method(NEW, [P("in", "uint8", "a")], True)]
    yield "method-data", [Method(NEW, [P("in", "uint32", "a"), P("in", "uint8", "b"), P("out", "uint64", "c"), P("out", "uint16", "d")])]
    yield "method-bufs", [Method(NEW, [P("in", "buffer", "a"), P("out", "uint32", "c", ""), P("in", "uint64", "d", "")])]
    yield "method-objs", [Method(NEW, [P("in", "interface", "a", 3), P("out", "interface", "b")])]
    yield "method-two", [Method(NEW), Method(NEW + "2", [P("out", "uint8", "q")])]
    yield "method-wide", [Method(NEW, [P("in", "buffer", f"b{i}") for i in range(15)] + [P("out", "interface", f"o{i}") for i in range(15)])]
    yield "error", [Error("E_" + NEW)]
    yield "errors", [Error("E_" + NEW), Error("E_A" + NEW)]
    yield "errors-many", [Error(f"E{i}_" + NEW) for i in range(9)]
    yield "methods-many", [Method(f"{NEW}{i}", [P("in", "uint8", "x")]) for i in range(9)]
    yield "consts-many", [Const("uint16", f"K{i}_" + NEW, "3") for i in range(9)]
    yield "interleaved-many", [x for i in range(5) for x in (Error(f"E{i}_" + NEW), Method(f"{NEW}{i}"), Const("uint8", f"K{i}_" + NEW, "1"))]
    yield "const", [Const("uint16", "K_" + NEW, "3")]
    yield "const-neg", [Const("int8", "K_" + NEW, "-3")]
    yield "all", [Error("E_" + NEW), Method(NEW, [P("in", "uint8", "x")]), Const("uint16", "K_" + NEW, "3")]
    yield "documented", [Method(NEW, [P("in", "uint8", "x")], doc="   * about it\n   ")]


def new_decls():
    F = Field
    yield "struct", [Struct("S" + NEW, [F("uint32", "v"), F("uint16", "w", 2)])]
    yield "struct-early-name", [Struct("A" + NEW, [F("uint64", "v")])]
    yield "struct-nested", [Struct("A" + NEW, [F("uint64", "v")]), Struct("B" + NEW, [F("A" + NEW, "v"), F("A" + NEW, "q", 2)])]
    yield "struct-objs", [Struct("S" + NEW, [F("interface", "v"), F("uint64", "w", 2)])]
    yield "const", [Const("uint16", "K_" + NEW, "3")]
    yield "const-float", [Const("float32", "K_" + NEW, "3.5")]
    yield "iface", [Iface("I" + NEW, [Method("m" + NEW, [Param("in", "uint8", "x")]), Error("E" + NEW)])]
    yield "iface-early-name", [Iface("A" + NEW, [Method("first", [Param("in", "uint8", "x")])])]
    yield "iface-same-members", [Iface("I" + NEW, [Method("first"), Method("fourth"), Error("E_BASE"), Error("E_LEAF")])]


def bases():
    P, M = Param, Method
    r = V.rich()
    # interface to append to -> declarations without its descendants
    yield "leaf", r, "Aleaf"
    yield "mid", [d for d in r if d.name not in ("Aleaf", "IAside", "Aout")], "IMid"
    yield "root", [d for d in r if d.name not in ("Aleaf", "IAside", "IMid", "Aout", "Mid")], "IZbase"
    yield "aside", r, "IAside"
    yield "empty", [Iface("IE"), Iface("IF", [M("first")])], "IE"
    yield "empty-derived", [Iface("IB", [M("first"), Error("EB")]), Iface("IE", [], "IB")], "IE"
    yield "single", [Iface("IS", [M("only", [P("in", "uint8", "a"), P("in", "uint16", "b"), P("out", "uint8", "c")])])], "IS"
    yield "optional", [Iface("IS", [M("only", [P("in", "uint8", "a")], True), Error("E1"), M("last", [P("out", "buffer", "b")])])], "IS"
    yield "obj", V.rich_obj(), "IUser"
    yield "many", [Iface("IS", [x for i in range(12) for x in (M(f"m{i}", [P("in", "uint32", "a"), P("out", "uint8", "b", "")]), Error(f"E{i}"))])], "IS"


def tree(text):
    """nested brace blocks: list of str (pieces of statements) and (header, children)"""
    t = re.sub(r"\\[ \t]*\n", "\n", text)
    t = re.sub(r"\b(public|protected|private)\s*:(?!:)", r"; \1 ;", t)
    ts = re.findall(r'"(?:[^"\\\n]|\\.)*"|//[^\n]*|/\*.*?\*/|^[ \t]*#[ ]*(?:define|include|pragma|if|ifdef|ifndef|endif|else|undef)\b[^\n]*'
                    r'|[{};,()\[\]]|[^{};,()\[\]"/\n]+|.', t, re.S | re.M)
    root = []
    stack = [root]
    heads = []
    cur = ""
    par = 0

    def flush(sep=""):
        nonlocal cur
        out = [" ".join(c.split()) for c in cur.split("\n")]
        out = [c for c in out if c]
        cur = ""
        if sep and out:
            out[-1] += sep
        stack[-1].extend(out)
    for x in ts:
        if x.startswith(("//", "/*")) and len(x) > 1:
            continue
        if x == "{":
            heads.append((" ".join(cur.split()), par))
            cur = ""
            par = 0
            stack.append([])
        elif x == "}" and len(stack) > 1:
            flush()
            ch = stack.pop()
            h, par = heads.pop()
            stack[-1].append((h, ch))
        elif x == ";" or x == "," and par == 0:
            flush(x)
        elif x.lstrip().startswith("#") and re.match(r"#[ ]*(define|include|pragma|if|endif|else|undef)", x.lstrip()):
            flush()
            stack[-1].append(" ".join(x.split()))
        else:
            if x in "([":
                par += 1
            elif x in ")]":
                par = max(0, par - 1)
            cur += x
    flush()
    return root


def show_t(x):
    return x if isinstance(x, str) else x[0] + " {...}"


def treediff(x, y, names, where):
    """None if y is x with insertions, none of them inside the code of one of `names`"""
    j = 0
    for e in x:
        # the first remaining element of y which continues e
        best = None
        for q in range(j, len(y)):
            if y[q] == e:
                best = None
                j = q + 1
                break
            if isinstance(e, tuple) and isinstance(y[q], tuple) and y[q][0] == e[0] and best is None:
                best = q
        else:
            if best is None:
                return f"{where}: code of the old revision is gone or changed: {show_t(e)[:300]}"
            hit = [n for n in names if re.search(r"(?:\b|_|#)" + re.escape(n) + r"\b", e[0])]
            if hit and not re.search(r"\b(class|interface|trait|impl|struct|mod)\b", e[0].split("(")[0]):
                return f"{where}: the code of {hit[0]} changed: {show_t(e)[:300]}"
            p = treediff(e[1], y[best][1], names, where + " / " + e[0][-60:])
            if p:
                return p
            j = best + 1
    return None


def run(ctx):
    F = load()
    jobs = []
    for bk, ds, target in bases():
        i = next(n for n, d in enumerate(ds) if d.name == target)
        # appended constants and errors may stand anywhere among the members: at the end
        for nk, nodes in new_nodes():
            d = ds[i]
            nd = Iface(d.name, d.nodes + nodes, d.base)
            jobs.append((f"{bk}/append-{nk}", ds, ds[:i] + [nd] + ds[i + 1:]))
            if nk in ("error", "const", "errors"):
                # errors and constants are numbered apart from the methods: also in front of the last method
                ms = [q for q, n in enumerate(d.nodes) if isinstance(n, Method)]
                if ms and not any(isinstance(n, (Error, Const)) for n in d.nodes[ms[-1]:]):
                    jobs.append((f"{bk}/interleave-{nk}", ds, ds[:i] + [Iface(d.name, d.nodes[:ms[-1]] + nodes + d.nodes[ms[-1]:], d.base)] + ds[i + 1:]))
        for nk, decls in new_decls():
            for pos in (len(ds), 0, len(ds) // 2):
                jobs.append((f"{bk}/add-{nk}-at-{pos}", ds, ds[:pos] + decls + ds[pos:]))

    def outs(ds, b, split):
        fs = {MAIN: File(ds)}
        if split:
            fs = {MAIN: File(ds[-1:], ["b.idl"]), "/w/b.idl": File(ds[:-1])}
        tx = texts(fs)
        res = compile_(F, tx, b)
        if res.uns:
            return "uns", res.why()
        if not res.accepted or len(res.acc) != 1:
            return "rej", res.why()
        fin = final_files(res.acc[0], tx)
        return "ok", {p.rsplit("/", 1)[-1]: inst(t) for p, t in fin.items() if tx.get(p) != t}

    def objs(ds):
        return any(isinstance(d, Struct) and any(f.ty == "interface" or any(isinstance(e, Iface) and e.name == f.ty for e in ds) for f in d.fields) for d in ds)

    def job(c):
        k, old, new = c
        out = []
        for b in BACKENDS:
            if b == "java" and (objs(old) or objs(new)):
                continue
            a, z = outs(old, b, False), outs(new, b, False)
            key = f"{k} [{b}]"
            if a[0] == "uns" or z[0] == "uns":
                out.append(("und", "append", key, str(a[1] if a[0] == "uns" else z[1])))
                continue
            if a[0] != "ok" or z[0] != "ok":
                out.append(("bad" if a[0] == "ok" else "stat", "append", key, "the appended revision is rejected: " + str(z[1])) if a[0] == "ok"
                           else ("stat", "bases rejected (a C10 question)", 1))
                continue
            p = problem(a[1], z[1], old, new)
            if p:
                out.append(("bad", "append", key, p + "\n-- old\n" + File(old).text() + "-- new\n" + File(new).text()))
            else:
                out.append(("ok", "append"))
        return out

    def problem(a, z, old, new):
        for f in a:
            if f not in z:
                return f"{f} is no longer written"
            names = {m.name for d in old if isinstance(d, Iface) for m in d.methods}
            p = treediff(tree(a[f]), tree(z[f]), names, f)
            if p:
                return p
        for f in z:
            if f not in a and NEW not in z[f].lower():
                return f"{f} appears"
        return None

    ctx.merge(parallel(jobs, job))
    cleanup(F)
    ctx.samples = [{"append": k, "old": File(o).text()[:400], "new": File(n).text()[:600]} for k, o, n in jobs[::max(1, len(jobs) // 5)]]
    return ctx.finish("Textual difference of the generated code before and after appends, by abstract interpretation of the compiler on both revisions: "
                      "pure insertions about the appended declarations only.", appends=len(jobs))
