"""C11: what the compiler generates type-checks, warning free, in the target languages, together with a conforming
implementation. The generated text of every catalogued file set (computed by the abstract interpreter from the
compiler's MIR) goes through the front ends of gcc, clang, rustc and javac; nothing is executed."""
import dataclasses
import os
import re
import time

from idlv import run as R
from idlv.core import parallel
from idlv.idl import *
from idlv.idl import File
from ll import harness, tool
from jv import impl as jimpl, tool as jtool
from . import valid as V
from . import wirecat as W

C = ["-O0", "-fPIC", "-g", "-Wall", "-Wextra", "-Werror", "-Wno-unused-parameter"]
CXX = C + ["-Wno-missing-field-initializers", "-include", "cstdint", "-include", "atomic"]
MAIN = V.MAIN
NAMES = {"c": ".h", "c_skel": "_invoke.h", "cpp": ".hpp", "cpp_skel": "_invoke.hpp"}


def stem(p):
    b = p.rsplit("/", 1)[1]
    return b[:-4] if b.endswith(".idl") else b


def ifaces(f):
    return [d.name for d in f.decls if isinstance(d, Iface)] if isinstance(f, File) else []


def untyped(files):
    """the same files as --no-typed-objects presents them to a C user"""
    names = {d.name for f in files.values() for d in f.decls if isinstance(d, Iface)}
    out = {}
    for p, f in files.items():
        ds = []
        for d in f.decls:
            if isinstance(d, Iface):
                d = dataclasses.replace(d, nodes=[dataclasses.replace(n, params=[dataclasses.replace(q, ty="interface") if q.ty in names else q for q in n.params])
                                                  if isinstance(n, Method) else n for n in d.nodes])
            ds.append(d)
        out[p] = dataclasses.replace(f, decls=ds)
    return out


class Set:
    """everything generated for one file set"""

    def __init__(self, s, F, files, kw, langs, main):
        self.s, self.files, self.main = s, files, main
        self.parsed = {p: f for p, f in files.items() if isinstance(f, File)}
        self.sp = Spec(*self.parsed.values())
        self.bad = []
        self.made = {}
        self.inc = [os.path.dirname(main)] + [os.path.normpath(os.path.join("/w", x)) for x in kw.get("include_paths", [])]
        self.skip = False
        back = {"c": ("c", "c_skel"), "untyped": ("c", "c_skel"), "cpp": ("cpp", "cpp_skel"), "rust": ("rust",), "java": ("java",)}
        for lang in langs:
            for b in back[lang]:
                x = dict(no_typed_objects=True) if lang == "untyped" else {}
                for f in files:
                    r = R.compile_(F, files, b, **{**kw, **x, "main": f})
                    if not r.accepted and not r.uns and f != main:
                        self.skip = True        # not self-contained: nothing can be generated for this file
                        return
                    if not r.accepted:
                        self.bad.append((lang, f, ("uns: " if r.uns else "rejected: ") + r.why()))
                        continue
                    self.made.setdefault(lang, [])
                    if f not in self.made[lang]:
                        self.made[lang].append(f)
                    for p, t in r.out.items():
                        if b in ("rust", "java"):
                            self.s.write(f"{lang}/{p.rsplit('/', 1)[1]}", t)
                        else:
                            self.s.write(f"{lang}{f[:-4] if f.endswith('.idl') else f}{NAMES[b]}", t)


def tus(S, lang, main):
    """(role, name, text) of the translation units for one file of the set"""
    st = stem(main)
    sp = S.sp
    if lang == "untyped":
        sp = Spec(*untyped(S.parsed).values())
    stub = f'#include "{st}.h{"pp" if lang == "cpp" else ""}"\n'
    skel = f'#include "{st}_invoke.h{"pp" if lang == "cpp" else ""}"\n'
    yield "stub", stub
    imp = ""
    if main in S.parsed:
        for i in ifaces(S.parsed[main]):
            for prov, tag in ((True, "P"), (False, "Q")):
                if not prov and not any(m.optional for _, m, _ in S.sp.ops(i)):
                    continue
                if lang == "cpp":
                    imp += harness.cpp_impl(sp, i, f"{tag}impl_{i}", prov)
                else:
                    imp += harness.c_impl(sp, i, f"{tag}_{i}_", prov)
    imp = dedup(imp)
    yield "skeleton", skel + imp
    both = "".join(f'#include "{os.path.relpath(f[:-4] if f.endswith(".idl") else f, os.path.dirname(main))}{x}.h{"pp" if lang == "cpp" else ""}"\n'
                   for f in S.made[lang] for x in ("", "_invoke"))
    if main == S.main:
        yield "all headers", both + imp


def dedup(t):
    """repeated declarations of the external functions"""
    seen, out = set(), []
    for ln in t.split("\n"):
        if ln.startswith(("extern \"C\" { fn ext_", "int32_t ext_release", "int32_t ext_retain")) or 'extern "C" void ext_drop' in ln:
            if ln in seen:
                continue
            seen.add(ln)
        out.append(ln)
    return "\n".join(out)


def compile_c(S, lang, m, text, cc, n):
    d = os.path.join(S.s.d, lang)
    src = S.s.write(f"{lang}{os.path.dirname(m)}/tu{n}.{'cpp' if lang == 'cpp' else 'c'}", text)
    inc = [x for i in S.inc for x in ("-I", d + i)] + ["-I", tool.CINC] + (["-I", tool.CPPINC] if lang == "cpp" else [])
    return tool.run([cc, *(CXX if lang == "cpp" else C), *inc, *(["-fsyntax-only"] if "clang" in cc else ["-c", "-o", "/dev/null"]), src])


def compile_rust(S):
    d = os.path.join(S.s.d, "rust")
    mods = {f[:-3]: os.path.join(d, f) for f in os.listdir(d)} if os.path.isdir(d) else {}
    rp = harness.RustPaths(S.sp, S.parsed)
    txt = ""
    for f in S.parsed.values():
        for i in ifaces(f):
            for prov, tag in ((True, "P"), (False, "Q")):
                if not prov and not any(m.optional for _, m, _ in S.sp.ops(i)):
                    continue
                txt += harness.rs_impl(S.sp, rp, i, f"{tag}impl_{i}", prov)
    return tool.rust_check(S.s, "chk", mods, dedup(txt))


def clean(msg, d):
    return re.sub(re.escape(d) + "/?", "", msg)[:1800]


def check(S, key, lang, mains, both=True):
    """[(status...)]"""
    out = []
    for l, f, why in S.bad:
        if l == lang:
            out.append(("und", "compiles", f"{key} [{lang} {f}]", why))
    if any(l == lang for l, _, _ in S.bad):
        return out
    if lang in ("c", "untyped", "cpp"):
        n = 0
        for m in S.made.get(lang, []):
            for role, text in tus(S, lang, m):
                ccs = {"cpp": ("g++", "clang++")}.get(lang, ("gcc", "clang"))
                for cc in ccs if both else ccs[:1] if role == "skeleton" else ccs[1:]:
                    n += 1
                    rc, msg = compile_c(S, lang, m, text, cc, n)
                    k = f"{key} [{lang} {role}{'' if m == S.main else ' ' + m}]"
                    if rc:
                        out.append(("bad", "compiles", k, cc + ": " + clean(msg, S.s.d)))
                        break
                    out.append(("ok", "compiles"))
                    out.append(("stat", cc + " translation units", 1))
    elif lang == "rust":
        rc, msg = compile_rust(S)
        if rc:
            out.append(("bad", "compiles", f"{key} [rust]", "rustc: " + clean(msg, S.s.d)))
        else:
            out.append(("ok", "compiles", 2))
            out.append(("stat", "rustc crates", 1))
    return out


class Java:
    """collects the generated Java of all file sets; type-checks it in few JVMs"""

    def __init__(self):
        self.tmp = tool.Scratch()
        self.d = self.tmp.__enter__().d
        self.api = jtool.prepare(os.path.join(self.d, "api"))
        self.n = 0

    def add(self, name, key, F, files, kw, main):
        """returns undecided results; everything else is written below self.d"""
        sub = os.path.join(self.d, "sets", name)
        os.makedirs(sub, exist_ok=True)
        s = Sub(self.tmp, os.path.join("sets", name))
        S = Set(s, F, files, kw, ("java",), main)
        if S.skip:
            return []
        out = [("und", "compiles", f"{key} [java {f}]", why) for _, f, why in S.bad]
        if out or not os.path.isdir(os.path.join(sub, "java")):
            return out or [("ok", "compiles")]
        for f in S.parsed.values():
            for ifc in ifaces(f):
                s.write(f"java/User{ifc}.java", jimpl.java_impl(S.sp, ifc, f"User{ifc}"))
        s.write("key", key)
        return []

    def check(self, names):
        dirs = [os.path.join(self.d, "sets", n, "java") for n in names]
        out = []
        for n, d, (ok, msg) in zip(names, dirs, jtool.check_many(self.api, dirs)):
            with open(os.path.join(os.path.dirname(d), "key")) as f:
                key = f.read()
            out.append((n, [("ok", "compiles", 2), ("stat", "javac file sets", 1)] if ok else [("bad", "compiles", f"{key} [java]", "javac: " + clean(msg, d))]))
        return out

    def all(self, names, deadline):
        return list(parallel([x for x in (names[i::8] for i in range(8)) if x], self.check, deadline=deadline))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.tmp.__exit__()

    def names(self):
        b = os.path.join(self.d, "sets")
        return sorted(n for n in os.listdir(b) if os.path.exists(os.path.join(b, n, "key"))) if os.path.isdir(b) else []


ALL = ("c", "untyped", "cpp", "rust", "java")


def sets(thorough):
    """(key, files, kw, java supported, mains)"""
    # method shapes, ten per interface
    ms, seen = [], set()
    for k, q in W.methods("thorough" if thorough else "quick"):
        t = ",".join(p.text() for p in q)
        if t not in seen:
            seen.add(t)
            ms.append((k, q))
    for b in W.batches(ms, 24):
        decls, _, names = W.build(b)
        yield ("methods", b, {MAIN: File(decls)}, {}, None)
    many = []
    for gen in (V.structs, V.interfaces, V.idents, V.consts):
        for k, ds, j in gen():
            if not thorough and gen is V.consts and k.endswith("-global"):
                continue
            many.append((k, ds, j))
    # pack independent small shapes by renaming their declarations apart
    small = [x for x in many if x[0].startswith(("const/", "struct/uint", "struct/int", "struct/float"))]
    for i in range(0, len(small), 30):
        yield ("pack", small[i:i + 30], None, {}, True)
    for k, ds, j in many:
        if not k.startswith(("const/", "struct/uint", "struct/int", "struct/float")):
            yield ("one", k, {MAIN: File(ds)}, {}, j)
    for k, fs, kw, j in V.filesets():
        yield ("one", k, fs, kw, j)
    from . import c11cat
    pk = list(c11cat.packed(thorough))
    for q in pk:
        if q[0].split("/")[1] in c11cat.ALONE:
            yield ("pack", [q], None, {}, True)
    for j in (True, False):
        x = [q for q in pk if q[2] == j and q[0].split("/")[1] not in c11cat.ALONE]
        for i in range(0, len(x), 8):
            yield ("pack", x[i:i + 8], None, {}, True)
    for k, fs, kw, j in c11cat.shapes(thorough):
        yield ("one", k, fs, kw, j)


def rename(ds, n):
    m = {d.name: f"{d.name}x{n}" for d in ds}
    out = []
    for d in ds:
        if isinstance(d, Struct):
            d = Struct(m[d.name], [dataclasses.replace(f, ty=m.get(f.ty, f.ty)) for f in d.fields])
        elif isinstance(d, Iface):
            d = dataclasses.replace(d, name=m[d.name], base=m.get(d.base, d.base), nodes=[
                dataclasses.replace(x, params=[dataclasses.replace(p, ty=m.get(p.ty, p.ty)) for p in x.params]) if isinstance(x, Method) else x for x in d.nodes])
        else:
            d = dataclasses.replace(d, name=m[d.name])
        out.append(d)
    return out


def javaok(q):
    return not any(p.ty in W.OBJSTRUCTS for p in q)


def run(ctx):
    F = R.load()
    deadline = time.time() + (3000 if ctx.thorough else 700)

    def group(kind, items, langs, s, sub):
        """compiles a batch; splits it while a target language refuses it"""
        if kind == "methods":
            decls, _, _ = W.build(items)
            files = {MAIN: File(decls)}
            key = lambda: items[0][0]
        else:
            files = {MAIN: File([d for n, x in enumerate(items) for d in rename(x[1], n)])}
            key = lambda: items[0][0]
        os.makedirs(os.path.join(s.d, sub), exist_ok=True)
        s2 = Sub(s, sub)
        S = Set(s2, F, files, {}, langs, MAIN)
        out = []
        for lang in langs:
            r = check(S, "", lang, [MAIN])
            if all(x[0] in ("ok", "stat") for x in r):
                out += r
            elif len(items) == 1:
                out += [(x[0], x[1], (key() + x[2]) if len(x) > 2 and isinstance(x[2], str) else x[2], *x[3:]) if x[0] in ("bad", "und") else x for x in r]
            else:
                h = len(items) // 2
                out += group(kind, items[:h], (lang,), s, sub + "l") + group(kind, items[h:], (lang,), s, sub + "r")
        return out

    def jgroup(idx, kind, items, each):
        o = []
        jv = [x for x in items if javaok(x[1])] if kind == "methods" else [x for x in items if x[2]]
        for n, g in enumerate([[x] for x in jv] if each else [jv]):
            if g:
                fs = {MAIN: File(W.build(g)[0] if kind == "methods" else [d for n2, x in enumerate(g) for d in rename(x[1], n2)])}
                o += java.add(f"{idx}-{n}{'e' if each else ''}", g[0][0], F, fs, {}, MAIN)
        return o

    def job(c):
        idx, c = c
        kind = c[0]
        t0 = time.time()
        with tool.Scratch() as s:
            if kind in ("methods", "pack"):
                items = c[1]
                o = group(kind, items, ("c", "untyped", "cpp", "rust"), s, "g")
                o += jgroup(idx, kind, items, False)
                o.append(("stat", "shapes", len(items)))
                lab = items[0][0]
            else:
                _, k, fs, kw, j = c
                lab = k
                main = kw.get("main", MAIN)
                if main not in fs:
                    return [("stat", "skipped spellings", 1)]
                langs = ALL if j else ALL[:-1]
                if not all(stem(f).isidentifier() for f in fs):
                    langs = tuple(x for x in langs if x not in ("rust", "java"))
                S = Set(s, F, fs, kw, [x for x in langs if x != "java"], main)
                if S.skip:
                    return [("stat", "file sets with files which are no IDL on their own", 1)]
                o = []
                for lang in langs:
                    o += java.add(f"{idx}-0", k, F, fs, kw, main) if lang == "java" else check(S, k, lang, list(fs), ctx.thorough)
                o.append(("stat", "shapes", 1))
        o.append(("visited", {F.db.insts[x]["name"] for x in F.I.visited}))
        if os.environ.get("VERIF_PROFILE"):
            import sys
            print(f"{time.time() - t0:7.1f} s {kind} {lab}", file=sys.stderr)
        return o
    cat = sorted(sets(ctx.thorough), key=lambda c: -len(c[1]) if c[0] != "one" else 0)
    with Java() as java:
        ctx.merge(parallel(list(enumerate(cat)), job, deadline=deadline))
        res = java.all(java.names(), deadline)
        # groups which are refused are taken apart
        again = [n for n, r in res if r[0][0] == "bad" and cat[int(n.split("-")[0])][0] in ("methods", "pack")]
        if again:
            ctx.merge(parallel(again, lambda n: jgroup(n.split("-")[0], *cat[int(n.split("-")[0])][:2], True), deadline=deadline))
            res = [(n, r) for n, r in res if n not in again] + java.all([n for n in java.names() if n.endswith("e")], deadline)
        ctx.merge([x for _, r in res for x in r])
    R.cleanup(F)
    return ctx.finish("The text generated for every catalogued file set type-checks without diagnostics in gcc, clang (-Wall -Wextra -Werror), "
                      "rustc and javac, alone, with all other headers of the set, and with a conforming implementation.", sets=len(cat))


class Sub:
    def __init__(self, s, d):
        self.d = os.path.join(s.d, d)

    write = tool.Scratch.write
