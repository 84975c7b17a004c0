"""C12: include resolution and cycle rejection.

The files an abstract run of the compiler reads, and whether it accepts, are compared with an independent
model of the rule (first match in command-line order, then the directory of the main file; includes with a
directory part relative to the including file; reachable graph acyclic; each file once)."""
import itertools
import random

from idlv.core import parallel
from idlv.run import *
from idlv.idl import *

MAIN = "/w/a.idl"


# ---- the rule ------------------------------------------------------------------------------------
def norm(p):
    out = []
    for c in p.split("/"):
        if c in ("", "."):
            continue
        if c == "..":
            if out:
                out.pop()
        else:
            out.append(c)
    return "/" + "/".join(out)


class World:
    def __init__(self, files, dirs=(), links=None, cwd="/cwd"):
        self.files = files
        self.links = links or {}
        self.cwd = cwd
        self.dirs = {"/"}
        for f in list(files) + list(dirs) + list(self.links) + [cwd]:
            parts = f.split("/")[1:]
            for i in range(1, len(parts)):
                self.dirs.add("/" + "/".join(parts[:i]))
        self.dirs |= set(dirs) | {cwd, "/out"}

    def canon(self, p, depth=0):
        if depth > 20:
            return None
        if not p.startswith("/"):
            p = self.cwd + "/" + p
        cur = ""
        parts = p.split("/")[1:]
        for c in parts:
            if c in ("", "."):
                continue
            if (cur or "/") not in self.dirs:
                return None
            if c == "..":
                cur = cur.rsplit("/", 1)[0] if "/" in cur else ""
                continue
            n = cur + "/" + c
            if n in self.links:
                t = self.links[n]
                n = self.canon(t if t.startswith("/") else (cur or "/") + "/" + t, depth + 1)
                if n is None:
                    return None
                if n == "/":
                    n = ""
            elif n not in self.files and n not in self.dirs:
                return None
            cur = n
        return cur or "/"


def expect(w, files, main, incs, visible=True):
    """('ok', set of files) or ('no', reason)"""
    m = w.canon(main)
    if m is None or m not in files:
        return "no", "main file missing"
    search = [i for i in incs] + [m.rsplit("/", 1)[0] or "/"]
    edges = {}
    todo = [m]
    while todo:
        f = todo.pop()
        if f in edges:
            continue
        edges[f] = []
        for inc in files[f].includes:
            if "/" in inc:
                r = w.canon(inc if inc.startswith("/") else f.rsplit("/", 1)[0] + "/" + inc)
            else:
                r = None
                for d in search:
                    c = w.canon(d + "/" + inc)
                    if c is not None and c in files:
                        r = c
                        break
            if r is None or r not in files:
                return "no", f"{inc} in {f} does not resolve"
            edges[f].append(r)
            todo.append(r)
    # cycles
    state = {}

    def dfs(n):
        state[n] = 1
        for q in edges[n]:
            if state.get(q) == 1 or q not in state and dfs(q):
                return True
        state[n] = 2
        return False
    if dfs(m):
        return "no", "include cycle"
    if visible:
        names = {d.name for f in edges for d in files[f].decls}
        cnt = sum(len(files[f].decls) for f in edges)
        if len(names) != cnt:
            return "no", "duplicate declaration"
        for f in edges:
            for d in files[f].decls:
                for t in refs(d):
                    if t not in names:
                        return "no", f"{t} is not visible"
    return "ok", set(edges)


def refs(d):
    if isinstance(d, Struct):
        return [f.ty for f in d.fields if f.ty not in PRIM and f.ty != "interface"]
    if isinstance(d, Iface):
        return ([d.base] if d.base else []) + [p.ty for m in d.methods for p in m.params if p.ty not in PRIM and p.ty not in ("interface", "buffer")]
    return []


# ---- layouts -------------------------------------------------------------------------------------
def st(n):
    return Struct(n, [Field("uint32", "v")])


def user(*ts):
    return Iface("IMain", [Method("go", [Param("in", t, f"p{i}") for i, t in enumerate(ts)])])


def layouts(thorough, seed):
    D = ["/i0", "/i1", "/i2"]
    # which directories hold b.idl; the command line order is a permutation
    for nd in range(4):
        for order in itertools.permutations(range(nd)):
            for mask in range(1 << (nd + 2)):
                files = {MAIN: File([user("Sb")], ["b.idl"])}
                # the wrong copies declare something else, so choosing them is seen as rejection as well
                places = [D[o] for o in order] + ["/w", "/cwd"]
                holders = [p for i, p in enumerate(places) if mask >> i & 1]
                if not holders:
                    continue
                for i, h in enumerate(holders):
                    good = h == next((q for q in places[:-1] if q in holders), None)
                    files[h + "/b.idl"] = File([st("Sb" if good else f"Sw{i}")])
                yield f"search/{nd}/{''.join(map(str, order))}/{mask:x}", files, dict(include_paths=[D[o] for o in order], dirs=D)
    # the same through an included file: a bare name is searched in the same places, not next to the including file
    for mask in range(1, 16):
        places = ["/i0", "/i1", "/w", "/i1/deep"]
        files = {MAIN: File([user("Sb", "Sc")], ["c.idl"] if mask & 1 else ["../i1/deep/c.idl"])}
        cdir = "/i0" if mask & 1 else "/i1/deep"
        files[cdir + "/c.idl"] = File([st("Sc")], ["b.idl"])
        hold = [p for i, p in enumerate(places) if mask >> i & 1]
        first = next((p for p in ("/i0", "/i1", "/w") if p in hold), None)
        for i, h in enumerate(hold):
            files[h + "/b.idl"] = File([st("Sb" if h == first else f"Sw{i}")])
        yield f"nested-bare/{mask:x}", files, dict(include_paths=["/i0", "/i1"], dirs=["/i0", "/i1"])
    # relative includes
    for form, target in (("./b.idl", "/w/b.idl"), ("sub/b.idl", "/w/sub/b.idl"), ("../b.idl", "/b.idl"), ("../w/b.idl", "/w/b.idl"),
                         ("sub/../b.idl", "/w/b.idl"), ("sub/./deep/b.idl", "/w/sub/deep/b.idl"), ("/abs/b.idl", "/abs/b.idl"), ("../../../b.idl", "/b.idl")):
        for others in ([], ["/i0/b.idl"], ["/cwd/b.idl", "/i0/sub/b.idl", "/i0/b.idl"]):
            files = {MAIN: File([user("Sb")], [form]), target: File([st("Sb")])}
            for i, o in enumerate(others):
                files.setdefault(o, File([st(f"So{i}")]))
            yield f"relative/{form}/{len(others)}", files, dict(include_paths=["/i0"], dirs=["/i0", "/w/sub"])
            files = {k: v for k, v in files.items() if k != target}
            yield f"relative-missing/{form}/{len(others)}", files, dict(include_paths=["/i0"], dirs=["/i0", "/w/sub"])
    # relative from an included file elsewhere
    for form, good in (("x.idl", None), ("./x.idl", "/i0/p/x.idl"), ("../x.idl", "/i0/x.idl"), ("q/x.idl", "/i0/p/q/x.idl")):
        for present in range(1, 32):
            P = ["/i0/p/x.idl", "/i0/x.idl", "/i0/p/q/x.idl", "/w/x.idl", "/w/q/x.idl"]
            files = {MAIN: File([user("Sx")], ["../i0/p/b.idl"]), "/i0/p/b.idl": File([st("Sb")], [form])}
            have = [p for i, p in enumerate(P) if present >> i & 1]
            g = good if form != "x.idl" else next((p for p in ("/i0/x.idl", "/w/x.idl") if p in have), None)
            for i, h in enumerate(have):
                files[h] = File([st("Sx" if h == g else f"So{i}")])
            yield f"from-included/{form}/{present:x}", files, dict(include_paths=["/i0"])
    # include directories: relative, missing, a file, repeated, links
    base = {MAIN: File([user("Sb")], ["b.idl"]), "/i0/b.idl": File([st("Sb")]), "/i1/b.idl": File([st("Sz")])}
    for nm, inc, kw in (("rel", ["../i0", "../i1"], {}), ("missing-first", ["/nope", "/i0"], {}), ("file-first", ["/w/a.idl", "/i0"], {}), ("repeated", ["/i0", "/i0", "/i1"], {}),
                        ("dot", ["/i0/.", "/i1"], {}), ("slash", ["/i0/", "/i1"], {}), ("dotdot", ["/i1/../i0"], {}), ("link", ["/l"], {"links": {"/l": "/i0"}}),
                        ("link-order", ["/l", "/i1"], {"links": {"/l": "i0"}}), ("wrong-order", ["/i1", "/i0"], {}), ("cwd-dot", ["."], {"cwd": "/i0"}), ("empty", [], {}),
                        ("dangling", ["/d", "/i0"], {"links": {"/d/b.idl": "/gone"}})):
        yield f"dirs/{nm}", base, dict(include_paths=inc, **kw)
    # main file spelled through a link or relative: its own directory is that of the file
    yield "main/link", {MAIN: File([user("Sb")], ["b.idl"]), "/w/b.idl": File([st("Sb")]), "/z/b.idl": File([st("Sz")])}, dict(main="/z/alias.idl", links={"/z/alias.idl": "/w/a.idl"})
    yield "main/relative", {MAIN: File([user("Sb")], ["b.idl"]), "/w/b.idl": File([st("Sb")]), "/cwd/b.idl": File([st("Sz")])}, dict(main="../w/a.idl", cwd="/cwd")
    yield "main/cwd", {MAIN: File([user("Sb")], ["b.idl"]), "/w/b.idl": File([st("Sb")])}, dict(main="a.idl", cwd="/w")
    yield "main/missing", {"/w/b.idl": File([st("Sb")])}, {}
    # a directory of that name is not a file of that name
    yield "directory-named", {MAIN: File([user("Sb")], ["b.idl"]), "/w/b.idl": File([st("Sb")])}, dict(include_paths=["/i0"], dirs=["/i0/b.idl"])
    # one file, several paths
    yield "once/spellings", {MAIN: File([user("Sb")], ["b.idl", "./b.idl", "../w/b.idl"]), "/w/b.idl": File([st("Sb")])}, {}
    yield "once/link", {MAIN: File([user("Sb")], ["b.idl", "l/b.idl"]), "/w/b.idl": File([st("Sb")])}, dict(links={"/w/l": "/w"})
    yield "once/linkfile", {MAIN: File([user("Sb")], ["b.idl", "c.idl"]), "/w/b.idl": File([st("Sb")])}, dict(links={"/w/c.idl": "b.idl"})
    yield "once/dirs", {MAIN: File([user("Sb")], ["b.idl", "c.idl"]), "/i0/b.idl": File([st("Sb")], ["c.idl"]), "/i1/c.idl": File([st("Sc")])}, dict(include_paths=["/i0", "/i1", "/i0"])
    # names that are prefixes or case variants of each other
    yield "names/prefix", {MAIN: File([user("Sb")], ["b.idl"]), "/w/bb.idl": File([st("Sbb")]), "/w/ab.idl": File([st("Sab")]), "/w/b.idl": File([st("Sb")])}, {}
    yield "names/case", {MAIN: File([user("Sb")], ["B.idl"]), "/w/b.idl": File([st("Sb")])}, {}
    yield "names/same-name-elsewhere", {MAIN: File([user("Sa")], ["sub/a.idl"]), "/w/sub/a.idl": File([st("Sa")])}, {}
    yield "names/same-name-bare", {"/w/m/a.idl": File([user("Sa")], ["a.idl"]), "/i0/a.idl": File([st("Sa")])}, dict(main="/w/m/a.idl", include_paths=["/i0"])
    for i, n in enumerate(("a.b.idl", "my defs.idl", "-x.idl", "_.idl", "~.idl", "%20.idl", "b..idl", "\u00e9.idl", "idl.idl", "b.h.idl")):
        for d, inc in (("/w", n), ("/i0", n), ("/w/s p", "s p/" + n), ("/w", "./" + n)):
            yield f"names/odd {n} {d} {inc}", {MAIN: File([user("Sb")], [inc]), f"{d}/{n}": File([st("Sb")])}, dict(include_paths=["/i0"], dirs=["/i0", "/w/s p"])
    yield "names/self-bare", {"/w/m/a.idl": File([user()], ["a.idl"])}, dict(main="/w/m/a.idl")
    # include graphs: every digraph on three files; sampled ones on four to six
    for bits in range(512):
        yield graph(3, lambda i, j: bits >> (3 * i + j) & 1, f"graph3/{bits:03x}", bits % 3)
    rnd = random.Random(seed)
    for n, cnt in ((4, 220), (5, 150), (6, 100)) if not thorough else ((4, 3000), (5, 3000), (6, 2000), (8, 500)):
        for c in range(cnt):
            pr = rnd.choice((0.15, 0.25, 0.4))
            E = {(i, j) for i in range(n) for j in range(n) if rnd.random() < pr and (c % 2 or i < j)}
            if c % 4 == 0 and n > 3:
                # acyclic but for one back edge far from the main file
                E = {(i, j) for i, j in E if i < j} | {(n - 1, n - 2)} | {(i, i + 1) for i in range(n - 1)}
            yield graph(n, lambda i, j: (i, j) in E, f"graph{n}/{c}", c % 3)
    # visibility: a type of a file that is (not) reachable
    for reach in range(8):
        files = {MAIN: File([user("Sb", "Sc", "Sd")], ["b.idl"] if reach & 1 else []), "/w/b.idl": File([st("Sb")], ["c.idl"] if reach & 2 else []),
                 "/w/c.idl": File([st("Sc")], ["d.idl"] if reach & 4 else []), "/w/d.idl": File([st("Sd")])}
        yield f"visible/{reach}", files, {}
    yield "visible/sibling", {MAIN: File([user("Sb")], ["b.idl", "c.idl"]), "/w/b.idl": File([Struct("Sb", [Field("Sc", "x")])]), "/w/c.idl": File([st("Sc")])}, {}
    yield "visible/sibling-unreached", {MAIN: File([user("Sb")], ["b.idl"]), "/w/b.idl": File([Struct("Sb", [Field("Sc", "x")])]), "/w/c.idl": File([st("Sc")])}, {}
    yield "visible/upwards", {MAIN: File([st("Sm"), user("Sb")], ["b.idl"]), "/w/b.idl": File([Struct("Sb", [Field("Sm", "x")])])}, {}
    yield "visible/base-transitive", {MAIN: File([Iface("ID", [Method("f")], "IB")], ["b.idl"]), "/w/b.idl": File([], ["c.idl"]), "/w/c.idl": File([Iface("IB", [Method("g")])])}, {}
    # long chains and ladders of diamonds
    for n in (10, 40):
        yield f"chain/{n}", {MAIN: File([user(f"S{n - 1}")], ["f0.idl"]), **{f"/w/f{i}.idl": File([st(f"S{i}")], [f"f{i + 1}.idl"] if i + 1 < n else []) for i in range(n)}}, {}
        yield f"chain-cycle/{n}", {MAIN: File([user(f"S{n - 1}")], ["f0.idl"]), **{f"/w/f{i}.idl": File([st(f"S{i}")], [f"f{i + 1}.idl"] if i + 1 < n else ["f0.idl"]) for i in range(n)}}, {}
    for n in (4, 14):
        fs = {MAIN: File([user("Sx0")], ["x0.idl", "y0.idl"])}
        for i in range(n):
            nx = [f"x{i + 1}.idl", f"y{i + 1}.idl"] if i + 1 < n else []
            fs[f"/w/x{i}.idl"] = File([st(f"Sx{i}")], nx)
            fs[f"/w/y{i}.idl"] = File([st(f"Sy{i}")], nx)
        yield f"ladder/{n}", fs, {}


def graph(n, edge, key, form):
    names = ["a"] + [f"n{i}" for i in range(1, n)]
    files = {}
    for i in range(n):
        inc = []
        for j in range(n):
            if edge(i, j):
                inc.append(f"{names[j]}.idl" if form == 0 or form == 2 and (i + j) % 2 else f"./{names[j]}.idl")
        files[f"/w/{names[i]}.idl"] = File([st(f"S{i}")], inc)
    return key, files, {}


def run(ctx):
    F = load()
    cat = list(layouts(ctx.thorough, ctx.seed))
    L = load(lib=True) if not F.own else Front(F.mirdir + "/idlc.lib.json", extract.REPO)

    def judge(c, res, where):
        k, files, kw = c
        w = World(files, kw.get("dirs", ()), kw.get("links"), kw.get("cwd", "/cwd"))
        e = expect(w, files, kw.get("main", MAIN), kw.get("include_paths", []))
        key = f"{k} [{where}]"
        sh = f"include directories {kw.get('include_paths', [])}, links {kw.get('links')}\n" + "\n".join(f"-- {p}\n{t.text()}" for p, t in files.items())
        if res.uns:
            return [("und", "resolution", key, res.why())]
        if e[0] == "no":
            rule = "cycles rejected" if e[1] == "include cycle" else "unresolved or invisible rejected"
            return [("ok", rule)] if res.rejected else [("bad", rule, key, f"accepted although {e[1]}\n" + sh)]
        if not res.accepted:
            return [("bad", "valid include graph accepted", key, "rejected: " + res.why() + "\n" + sh)]
        out = [("ok", "valid include graph accepted")]
        for r in res.acc:
            reads = [x[1] for x in r["events"] if x[0] == "read"]
            if set(reads) != e[1]:
                out.append(("bad", "first match", key, f"reads {sorted(set(reads))}, the rule selects {sorted(e[1])}\n" + sh))
            elif len(reads) != len(set(reads)):
                out.append(("bad", "loaded once", key, f"reads {sorted(reads)}\n" + sh))
            else:
                out.append(("ok", "first match"))
                out.append(("ok", "loaded once"))
        return out

    def job(c):
        k, files, kw = c
        out = []
        for b in (["c"] if not ctx.thorough and k.startswith("graph") else ["c", "rust"]):
            out += judge(c, compile_(F, files, b, **kw), b)
        # the library entry point: the search path is given by the caller alone
        kl = dict(kw)
        kl["include_paths"] = list(kw.get("include_paths", [])) + ["/w"]
        if k.startswith(("graph", "search", "relative", "from", "visible", "chain", "once")):
            out += judge((k, files, kl), lib_(L, files, **kl), "library")
        return out
    ctx.merge(parallel(cat, job))
    cleanup(F)
    ctx.samples = [{"layout": k, "files": {p: f.text() for p, f in fs.items()}, "args": {a: str(b) for a, b in kw.items()}} for k, fs, kw in cat[::max(1, len(cat) // 8)]]
    return ctx.finish("Files read and acceptance on abstract runs of the compiler over directory layouts and include graphs, against an independent model of the resolution rule.",
                      layouts=len(cat))
