"""Declared names of a file set as the target languages see them."""
import os

from idlv import run as R
from idlv.idl import *
from ll import probe, tool
from jv import tool as jtool

BITS = {"uint8": (8, False), "uint16": (16, False), "uint32": (32, False), "uint64": (64, False), "int8": (8, True), "int16": (16, True), "int32": (32, True), "int64": (64, True)}
RT = {"uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64", "float32": "f32", "float64": "f64"}
LANGS = ("c", "cpp", "rust", "java")


class Gen:
    """output of the compiler for every file of a set, in a scratch directory"""

    def __init__(self, s, F, files, backends=("c", "cpp", "rust", "java")):
        self.s, self.files = s, files
        self.fail = {}
        for b in backends:
            for f in files:
                r = R.compile_(F, files, b, main=f)
                if not r.accepted:
                    self.fail[b] = ("uns" if r.uns else "rej", r.why())
                    break
                stem = f.rsplit("/", 1)[1][:-4]
                for p, t in r.out.items():
                    if b in ("rust", "java"):
                        s.write(b + "/" + p.rsplit("/", 1)[1], t)
                    else:
                        s.write(stem + {"c": ".h", "cpp": ".hpp", "c_skel": "_invoke.h", "cpp_skel": "_invoke.hpp"}[b], t)

    def rust_mods(self):
        d = os.path.join(self.s.d, "rust")
        return {f[:-3]: os.path.join(d, f) for f in os.listdir(d)} if os.path.isdir(d) else {}

    def java_srcs(self):
        d = os.path.join(self.s.d, "java")
        return [os.path.join(d, f) for f in sorted(os.listdir(d))] if os.path.isdir(d) else []

    def java_classes(self, name="jout"):
        """class files of the generated Java; raises CompileError"""
        rc, msg, out = jtool.javac(self.s, self.java_srcs(), name)
        if rc:
            raise tool.CompileError(msg)
        return {k: v for k, v in jtool.classes(out).items() if k.startswith("com/qualcomm/qti/mink/")}


PKG = "com/qualcomm/qti/mink/"


def probe_all(g, main, items, langs=LANGS):
    """items: [(key, {lang: spec})]; spec: C expression | (C++ expression, prefix) | (Rust expression, type) |
    (Java class, field). -> {lang: {key: result}}"""
    stem = main.rsplit("/", 1)[1][:-4]
    res = {}
    for lang in langs:
        its = [(k, sp[lang]) for k, sp in items if lang in sp]
        if lang in g.fail:
            res[lang] = {k: ("gen", *g.fail[lang]) for k, _ in its}
        elif lang == "c":
            res[lang] = probe.c(g.s, "pr_c", stem + ".h", its)
        elif lang == "cpp":
            res[lang] = probe.cpp(g.s, "pr_cpp", stem + ".hpp", [(k, *(x if isinstance(x, tuple) else (x,))) for k, x in its])
        elif lang == "rust":
            res[lang] = probe.rust(g.s, "pr_rs", g.rust_mods(), [(k, *x) for k, x in its])
        else:
            try:
                cl = g.java_classes()
            except tool.CompileError as e:
                res[lang] = {k: ("err", str(e)[:600]) for k, _ in its}
                continue
            vals = {n: probe.java(c) for n, c in cl.items()}
            res[lang] = {k: vals.get(PKG + x[0], {}).get(x[1], ("err", f"{x[0]}.{x[1]} does not exist")) for k, x in its}
    return res
