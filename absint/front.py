"""Front end of the analysis: the pest parser model, the command line model, and a driver which
interprets `main` (or `Language::generate`) abstractly on an abstract IDL file set."""
import os
import re

from .db import DB
from .interp import Interp, run_big_stack
from .models import (FS, ListIt, Models, STOP, EX, ERR, OK, NONE, SOME, S, unref)
from .peg import Grammar
from .values import *

WS = ["idlc", "idlc_ast", "idlc_ast_passes", "idlc_codegen", "idlc_codegen_c", "idlc_codegen_cpp",
      "idlc_codegen_java", "idlc_codegen_rust", "idlc_errors", "idlc_mir", "idlc_mir_passes"]


class PairV:
    __slots__ = ("n", "s")

    def __init__(self, n, s):
        self.n, self.s = n, s

    def __repr__(self):
        return f"Pair({self.n.rule})"


class SpanV:
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class PairsV(ListIt):
    def copy_it(self):
        return PairsV(self.items, self.i, self.j)


def find_grammar(repo):
    d = os.path.join(repo, "idlc_ast/src")
    names = []
    for root, _, fs in os.walk(d):
        for f in fs:
            if f.endswith(".rs"):
                src = open(os.path.join(root, f), encoding="utf-8").read()
                names += re.findall(r'#\[grammar\s*=\s*"([^"]+)"\]', src)
    if len(set(names)) != 1:
        raise Unsupported("expected exactly one grammar attribute, found " + repr(names))
    return os.path.join(d, names[0])


class Front:
    def __init__(self, dbpath, repo="/repo"):
        self.db = DB(dbpath) if isinstance(dbpath, str) else dbpath
        self.repo = repo
        self.grammar_path = find_grammar(repo)
        with open(self.grammar_path, encoding="utf-8") as f:
            self.g = Grammar(f.read())
        self.m = Models(WS)
        self.I = Interp(self.db, self.m)
        self.rule_ty = self.db.adt["idlc_ast::pst::Rule"][0]
        self.rule_ix = {v["name"]: i for i, v in enumerate(self.db.types[self.rule_ty]["variants"])}
        ov = self.m.overrides
        for k, mm in self.db.insts.items():
            if mm.get("trait") == "pest::parser::Parser" and mm.get("item") == "parse":
                ov[mm["name"]] = self.pest_parse
            if (mm.get("self") or "").startswith("pest::") or mm["name"].startswith("pest::"):
                f = PEST.get((str(mm.get("self")).rsplit("::", 1)[-1], mm.get("item")))
                if f is not None:
                    ov[mm["name"]] = (lambda f: lambda I, m, a: f(self, I, m, a))(f)
        self.tree_cache = {}

    def pest_parse(self, I, m, a):
        rule = unref(I, a[0])
        text = S(I, a[1])
        vs = self.db.types[self.rule_ty]["variants"]
        name = vs[rule.vi]["name"]
        key = (name, text)
        if key not in self.tree_cache:
            self.tree_cache[key] = self.g.parse(name, text)
        ns = self.tree_cache[key]
        I.event("parse", name, ns is not None)
        if ns is None:
            return ERR(Opq("pest::Error"))
        return OK(PairsV([PairV(n, text) for n in ns]))

    # ---- whole-program runs ------------------------------------------------
    def cli(self, **kw):
        t = self.db.adt["idlc::Cli"][0]
        ty = self.db.types[t]
        dflt = {"file": "/w/a.idl", "output": None, "skel": False, "c": True, "cpp": False, "java": False,
                "rust": False, "include_paths": None, "dump": None, "marking": None,
                "no_typed_objects": False, "allow_undefined_behavior": False}
        dflt.update(kw)
        cells = []
        for f in ty["variants"][0]["fields"]:
            fs = self.db.types[f["t"]]["s"]
            if f["n"] not in dflt:
                if fs == "bool":
                    cells.append(Cell(0))
                    continue
                if fs.startswith("std::option::Option<"):
                    cells.append(Cell(NONE()))
                    continue
                raise Unsupported("new command line field " + f["n"])
            v = dflt[f["n"]]
            if fs == "bool":
                cells.append(Cell(int(bool(v))))
            elif fs == "std::path::PathBuf":
                cells.append(Cell(Str(v)))
            elif v is None:
                cells.append(Cell(NONE()))
            elif f["n"] == "include_paths":
                cells.append(Cell(SOME(VecV([Cell(Str(x)) for x in v]))))
            elif f["n"] == "dump":
                dt = self.db.adt["idlc::Dumpable"][0]
                i = [x["name"] for x in self.db.types[dt]["variants"]].index(v)
                cells.append(Cell(SOME(Agg(i, [], dt))))
            else:
                cells.append(Cell(SOME(Str(v))))
        return Agg(0, cells, t)

    def main(self, fs, limit=64, **kw):
        """Interprets main(); returns list of run records with .files (output file system writes)."""
        root = next(k for k in self.db.insts if self.db.insts[k]["name"] == "idlc::main")
        I = self.I

        def go():
            f = FS(fs.files, fs.dirs, fs.links, fs.cwd)
            I.fs = f
            I.cli = lambda I, m: self.cli(**kw)
            before = dict(f.files)
            self._before = before
            self._fs = f
            I.call(root, [])
            return "done"
        out = []
        rs = I.explore(go, limit=limit)
        return rs

    def compile(self, files, main="/w/a.idl", cwd="/cwd", dirs=(), links=None, limit=16, **kw):
        fs = FS(files, set(dirs) | {"/out"}, links, cwd)
        kw.setdefault("output", "/out/o")
        if kw.get("java") or kw.get("rust"):
            if kw["output"] == "/out/o":
                kw["output"] = "/out"
        return self.main(fs, limit=limit, file=main, **kw)

    def libgen(self, files, main="/w/a.idl", include_paths=("/w",), cwd="/cwd", dirs=(), links=None, limit=16):
        """Interprets Language::generate() of the library crate."""
        root = next(k for k in self.db.insts if self.db.insts[k].get("item") == "generate"
                    and (self.db.insts[k].get("self") or "").endswith("Language"))
        I = self.I
        lt = self.db.types[self.db.adt["idlc::Language"][0]]

        def go():
            I.fs = FS(dict(files), set(dirs) | {"/out"}, links, cwd)
            I.cli = None
            r = I.call(root, [Agg([v["name"] for v in lt["variants"]].index("Rust"), [], self.db.adt["idlc::Language"][0]),
                              SliceV([Cell(Str(x)) for x in include_paths]), main])
            if r.vi == 1:
                raise RustExit(1)
            return r
        return I.explore(go, limit=limit)


def rd(x):
    return x


def final_files(rec, initial=None):
    """file contents after a run: {path: text}, from its file system events"""
    cur = dict(initial or {})
    pos = {}
    for e in rec["events"]:
        if e[0] == "open":
            fl = e[2]
            if "truncate" in fl or e[1] not in cur:
                cur[e[1]] = ""
            pos[e[1]] = len(cur[e[1]]) if "append" in fl else 0
        elif e[0] == "write":
            t = cur.get(e[1], "")
            p = pos.get(e[1], len(t))
            cur[e[1]] = t[:p] + e[2] + t[p + len(e[2]):]
            pos[e[1]] = p + len(e[2])
        elif e[0] == "set_len":
            if isinstance(e[2], int):
                cur[e[1]] = cur.get(e[1], "")[:e[2]]
        elif e[0] == "fsop":
            if e[1] == "rename" and e[2] in cur:
                cur[e[3]] = cur.pop(e[2])
            elif e[1] in ("copy", "hard_link") and e[2] in cur:
                cur[e[3]] = cur[e[2]]
            elif e[1] == "remove_file":
                cur.pop(e[2], None)
    return cur


def outputs(rec):
    """{path: text} a run leaves behind that was not there before"""
    return final_files(rec)


# ---- pest values -----------------------------------------------------------
PEST = {}


def P(ty, *items):
    def d(f):
        for i in items:
            PEST[(ty, i)] = f
        return f
    return d


def pair(I, v):
    v = unref(I, v)
    if not isinstance(v, PairV):
        raise Unsupported(f"pest pair expected, got {v!r}"[:100])
    return v


@P("Pair", "as_rule")
def _(fr, I, m, a):
    p = pair(I, a[0])
    return Agg(fr.rule_ix[p.n.rule], [], fr.rule_ty)


@P("Pair", "as_str")
def _(fr, I, m, a):
    p = pair(I, a[0])
    return p.s[p.n.a:p.n.b]


@P("Pair", "as_span")
def _(fr, I, m, a):
    p = pair(I, a[0])
    return SpanV(p.n.a, p.n.b, p.s)


@P("Pair", "into_inner")
def _(fr, I, m, a):
    p = pair(I, a[0])
    return PairsV([PairV(n, p.s) for n in p.n.ch])


@P("Pair", "clone")
def _(fr, I, m, a):
    return pair(I, a[0])


@P("Pairs", "as_str")
def _(fr, I, m, a):
    p = unref(I, a[0])
    xs = p.items[p.i:p.j]
    if not xs:
        return ""
    return xs[0].s[xs[0].n.a:xs[-1].n.b]


@P("Pairs", "peek")
def _(fr, I, m, a):
    p = unref(I, a[0])
    return SOME(p.items[p.i]) if p.i < p.j else NONE()


@P("Pairs", "len")
def _(fr, I, m, a):
    p = unref(I, a[0])
    return p.j - p.i


@P("Span", "start")
def _(fr, I, m, a):
    return unref(I, a[0]).a


@P("Span", "end")
def _(fr, I, m, a):
    return unref(I, a[0]).b


@P("Span", "as_str")
def _(fr, I, m, a):
    s = unref(I, a[0])
    return s.s[s.a:s.b]


@P("Span", "fmt")
def _(fr, I, m, a):
    f = unref(I, a[1])
    f.out.append("<span>")
    return OK(UNIT)


@P("Error", "fmt")
def _(fr, I, m, a):
    f = unref(I, a[1])
    f.out.append("<parse error>")
    return OK(UNIT)
