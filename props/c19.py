"""C19: file system effects of every abstract trace of main().

Rejected input: no open-for-writing, no truncation, no creation, rename or removal before the rejecting exit.
Accepted input: the files that change are exactly the expected ones; each is created or truncated, written
once from its beginning, starts with the optional marking followed by the banner, and equals what a run over
an empty output directory writes."""
import os
import re

from absint.front import final_files
from idlv.core import parallel
from idlv.run import *
from . import valid as V
from .c09cat import catalogue
from idlv.idl import *

MAIN = V.MAIN
BANNER = "AUTOGENERATED FILE: DO NOT EDIT"
MARK = "Copyright (c) someone\nSecond line\n"
OLD = "old content " * 2000
MUT = ("open", "open_fail", "write", "fsop", "set_len")


def mutations(rec):
    return [e for e in rec["events"] if e[0] in ("write", "fsop", "set_len")
            or e[0] == "open" and (set(e[2]) & {"write", "append", "create", "create_new", "truncate"})]


def stem(p):
    b = p.rsplit("/", 1)[-1]
    i = b.rfind(".")
    return b[:i] if i > 0 else b


def rejecting(thorough):
    cat = catalogue()
    seen = {}
    for k, fs, rule, kw in cat:
        seen.setdefault(rule, []).append((k, fs, kw))
    for rule, l in sorted(seen.items()):
        step = 1 if thorough else max(1, len(l) // 40)
        for k, fs, kw in l[::step]:
            yield "reject/" + k, fs, kw
    ok = {MAIN: File(V.rich())}
    yield "reject/missing-input", {"/w/other.idl": File(V.rich())}, {}
    yield "reject/missing-marking", ok, {"marking": "/w/none.txt"}
    yield "reject/marking-directory", ok, {"marking": "/w"}
    yield "reject/too-many-ops", {MAIN: "interface IBig {\n" + "".join(f"method m{i}();\n" for i in range(0x4001)) + "};\n"}, {"_only": ("c",)}
    yield "reject/too-many-ops-inherited", {MAIN: "interface IBase {\n" + "".join(f"method m{i}();\n" for i in range(0x4000)) + "};\ninterface IDer : IBase { method x(); };\n"}, {"_only": ("c", "rust")}
    # a second interface is the offending one (the first could already have been written)
    for nm, bad in (("dup", [Iface("IZ", [Method("f"), Method("f")])]), ("objs", [Iface("IZ", [Method("f", [Param("in", "interface", "x", 2), Param("in", "interface", "y")])])]),
                    ("count", [Iface("IZ", [Method("f", [Param("in", "buffer", f"b{i}") for i in range(16)])])]),
                    ("outcount", [Iface("IZ", [Method("f", [Param("out", "interface", f"b{i}") for i in range(16)])])])):
        yield f"reject/last-{nm}", {MAIN: File(V.rich() + bad)}, {}
        yield f"reject/first-{nm}", {MAIN: File(bad + V.rich())}, {}


def accepting(thorough):
    for k, fs, kw, j in V.filesets():
        yield "accept/" + k, fs, kw, j
    for k, ds, j in V.interfaces():
        yield "accept/" + k, {MAIN: File(ds)}, {}, j
    yield from collisions()
    for k, t in list(V.layouts())[:14]:
        fs = {MAIN: t}
        if "include" in t:
            fs["/w/b.idl"] = "struct Zb { uint8 v; };\n"
        yield "accept/" + k, fs, {}, True


def collisions():
    """names which a back end maps to the same file"""
    st, ko = Struct("SA", [Field("uint32", "v", 2)]), Const("uint8", "KA", "1")
    m = [Method("f", [Param("in", "uint32", "x"), Param("out", "uint64", "y")]), Error("EA")]
    for a, b in (("IFoo", "Ifoo"), ("IFoo", "IFOO"), ("x", "X")):
        yield f"accept/collide {a} {b}", {MAIN: File([Iface(a, m), st, Iface(b, m[:1])])}, {}, True
        yield f"accept/collide derived {a} {b}", {MAIN: File([Iface(a, m), Iface(b, [Method("g")], a)])}, {}, True
    yield "accept/collide included", {MAIN: File([Iface("IFoo", m)], ["b.idl"]), "/w/b.idl": File([Iface("Ifoo", m)])}, {}, True
    stem_ = stem(MAIN)
    for n in (stem_, stem_.upper()):
        for k, ds in (("alone", [Iface(n, m)]), ("first", [Iface(n, m), st, ko]), ("last", [st, ko, Iface(n, m)]), ("middle", [st, Iface(n, m), ko, Iface("IOther", m)])):
            yield f"accept/like the file {n} {k}", {MAIN: File(ds)}, {}, True
    yield "accept/like an included file", {MAIN: File([st, Iface("b", m), Iface("C", m)], ["b.idl", "C.idl"]), "/w/b.idl": File([ko]), "/w/C.idl": File([Const("uint8", "KB", "1")])}, {}, True


DEFINES = {"rust": r"\b(?:struct|enum|trait|type)\s+(?:r#)?%s\b", "java": r"\b(?:class|interface)\s+%s\b"}


def undefined(f, backend, txt):
    """declarations of the file which no written file defines"""
    if isinstance(f, str):
        return []
    miss = [d.name for d in f.decls if isinstance(d, (Iface, Struct)) and not re.search(DEFINES[backend] % re.escape(d.name), txt)]
    return miss + [d.name for d in f.decls if isinstance(d, Const) and not re.search(r"\b%s\b" % re.escape(d.name), txt, re.I)]


def expected(fs, main, backend):
    """(required, allowed) names in the output directory of the Rust and Java back ends"""
    f = fs[main]
    if isinstance(f, str):
        return None
    st = stem(main)
    req, alw = set(), set()
    if backend == "rust":
        req = {d.name.lower() + ".rs" for d in f.decls if isinstance(d, Iface)}
        b = st.lower() + ".rs"
        if any(isinstance(d, (Struct, Const)) for d in f.decls):
            req.add(b)
    else:
        req = {d.name + ".java" for d in f.decls if isinstance(d, Iface)}
        b = st + ".java"
        if any(isinstance(d, (Struct, Const)) for d in f.decls):
            req.add(b)
        alw.add(b)
    return req, req | alw


def run(ctx):
    F = load()
    rej = list(rejecting(ctx.thorough))
    acc = list(accepting(ctx.thorough))

    def show(fs):
        return "\n".join(f"-- {p}\n{t[:1500]}" for p, t in texts(fs).items())

    def jobr(c):
        k, fs, kw = c
        kw = dict(kw)
        only = kw.pop("_only", None)
        out = []
        for b in (only or BACKENDS):
            d = b in ("rust", "java")
            pre = {"/out/o": OLD, "/out/a.rs": OLD, "/out/IZ.java": OLD, "/out/iz.rs": OLD}
            res = compile_(F, {**fs, **pre}, b, **kw)
            if res.uns:
                out.append(("und", "no effect on rejection", f"{k} [{b}]", res.why()))
                continue
            nrej = 0
            for r in res.rej:
                nrej += 1
                mu = mutations(r)
                if mu:
                    out.append(("bad", "no effect on rejection", f"{k} [{b}]",
                                f"rejected ({r.get('panic') or r.get('exit')}, {r.get('where')}) after {[(e[0], e[1]) for e in mu][:4]}\n" + show(fs)))
                else:
                    out.append(("ok", "no effect on rejection"))
            if not nrej:
                out.append(("stat", "rejection shapes accepted (not a C19 question)", 1))
        return out

    def joba(c):
        k, fs, kw, j = c
        out = []
        main = kw.get("main", MAIN)
        for b in BACKENDS:
            if b == "java" and not j:
                continue
            for variant in ("empty", "old", "marking", "long", "relout", "markold", "flagsold"):
                kk = dict(kw)
                pre = {}
                d = b in ("rust", "java")
                if variant == "flagsold":
                    kk["allow_undefined_behavior"] = True
                if variant in ("marking", "markold"):
                    kk["marking"] = "/w/m.txt"
                    pre["/w/m.txt"] = MARK
                if variant == "relout":
                    kk["output"] = "sub" if d else "sub/o.h"
                    kk["dirs"] = list(kk.get("dirs", ())) + [(kk.get("cwd") or "/cwd") + "/sub"]
                if variant in ("old", "long", "markold", "flagsold"):
                    if base is None:
                        continue
                    for p in base:
                        pre[p] = OLD if variant != "long" else base[p] + "trailing old text"
                    pre["/out/unrelated"] = "keep"
                fs2 = {**texts(fs), **pre}
                res = compile_(F, fs2, b, **kk)
                key = f"{k} [{b} {variant}]"
                if variant == "empty":
                    base = None
                if res.uns:
                    out.append(("und", "exact files", key, res.why()))
                    continue
                if not res.accepted:
                    out.append(("stat", "accept shapes rejected (a C10 question)", 1))
                    continue
                for r in res.acc:
                    p = problem(r, fs, fs2, main, b, variant, base)
                    if p:
                        out.append(("bad", "exact files", key, p + "\n" + show(fs)))
                    else:
                        out.append(("ok", "exact files"))
                if variant == "empty":
                    fin = final_files(res.acc[0], fs2)
                    base = {p: t for p, t in fin.items() if fs2.get(p) != t}
        return out

    def problem(r, fs, fs2, main, b, variant, base):
        fin = final_files(r, fs2)
        changed = {p for p in set(fin) | set(fs2) if fin.get(p) != fs2.get(p)}
        touched = {e[1] for e in r["events"] if e[0] in ("open", "write", "set_len") and
                   (e[0] != "open" or set(e[2]) & {"write", "append", "truncate", "create"})}
        for e in r["events"]:
            if e[0] == "fsop" and e[1] not in ("rename", "remove_file"):
                return f"unexpected file system operation {e[1:]}"
        left = {p for p in touched if p in fin}
        outs = changed | left
        if b in ("rust", "java"):
            dirn = "/out/" if variant != "relout" else None
            names = set()
            for p in outs:
                if dirn and not p.startswith(dirn) or dirn is None and "/sub/" not in p:
                    return f"writes outside the output directory: {p}"
                names.add(p.rsplit("/", 1)[-1])
            mf = main if main in fs else next(q for q in fs if q.endswith(main.rsplit("/", 1)[-1]))
            ex = expected(fs, mf, b)
            if ex:
                if not ex[0] <= names:
                    return f"missing files: {sorted(ex[0] - names)}"
                if not names <= ex[1]:
                    return f"unexpected files: {sorted(names - ex[1])}"
            miss = variant == "empty" and undefined(fs[mf], b, "\n".join(inst(fin[p]) for p in outs))
            if miss:
                return f"no file defines {miss}"
        else:
            want = 1
            if len(outs) != want:
                return f"writes {sorted(outs)} instead of the one named output file"
            p = next(iter(outs))
            if variant != "relout" and p != "/out/o" or variant == "relout" and not p.endswith("/sub/o.h"):
                return f"writes {p} instead of the named output file"
        for p in outs:
            t = inst(fin[p])
            if variant in ("marking", "markold"):
                i = t.find("\n// " + BANNER)
                if i < 0:
                    return f"{p}: no banner after the marking"
                head = t[:i + 1]
                for ln in MARK.splitlines():
                    if ln not in head:
                        return f"{p}: the marking line {ln!r} is missing"
                for ln in head.splitlines():
                    s = ln.strip()
                    if s and not s.startswith(("//", "/*", "*")):
                        return f"{p}: text before the banner which is no comment: {s!r}"
                if base is not None and t[i + 1:] != inst(base.get(p, "")):
                    return f"{p}: content after the marking differs from the run without marking"
            elif not t.startswith("// " + BANNER):
                return f"{p}: does not start with the generator banner: {t[:60]!r}"
            if variant in ("old", "long", "flagsold") and t != inst(base.get(p, "")):
                return f"{p}: existing content changes what the run leaves behind (mixture of old and new)"
        if variant in ("old", "long", "markold", "flagsold") and base is not None and {p for p in outs} != set(base):
            # a file equal to its old content is fine as long as it is rewritten; here all differ
            return f"set of files depends on existing content: {sorted(outs)} / {sorted(base)}"
        return None
    ctx.merge(parallel(rej, jobr))
    ctx.merge(parallel(acc, joba))
    cleanup(F)
    ctx.samples = [{"shape": c[0]} for c in (rej + acc)[::max(1, (len(rej) + len(acc)) // 10)]]
    return ctx.finish("File system effects on every abstract trace of main(): none on rejecting traces, exactly the expected complete files on accepting ones.",
                      shapes=len(rej) + len(acc))
